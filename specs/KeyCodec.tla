------------------------------ MODULE KeyCodec ------------------------------
(***************************************************************************)
(* DSTU 4145 keys as records and as DER.                                   *)
(*   key = [le, cv, sb, hasD, d, hasQ, Q]                                  *)
(* EncX gives the one encoding; ParseX says what an octet string denotes:  *)
(*   v = "bad"  nothing: it has to be refused                              *)
(*   v = "ok"   that key; "full" says whether it is the encoding of a      *)
(*              sound key, which has to be accepted                        *)
(*   v = "unk"  a form the reader does not follow: either answer is        *)
(*              possible, but what is accepted has to be a key             *)
(***************************************************************************)
EXTENDS Dstu4145, Curves, Der, HashFn

NamedIndex(cv) == { i \in 1..10 : NamedCurve[i] = cv }

\* ---- encoding
RECURSIVE BitsOf(_,_)
BitsOf(p, i) == IF i < 0 THEN << >> ELSE (IF BBit(p, i) = 1 THEN << i >> ELSE << >>) \o BitsOf(p, i-1)
FieldDer(p) == LET t == BitsOf(p, NumBits(p)-1)          \* descending exponents
               IN  DSeq(DInt(BigOf(t[1])) \o
                     (IF Len(t) = 3 THEN DInt(BigOf(t[2]))
                      ELSE DSeq(DInt(BigOf(t[4])) \o DInt(BigOf(t[3])) \o DInt(BigOf(t[2])))))
Octets(le, v, w) == IF le THEN LePad(v, w) ELSE BePad(v, w)
CustomDer(le, cv) == DSeq(FieldDer(cv.p) \o DInt(cv.a) \o DOct(Octets(le, cv.b, FieldBytes(cv))) \o DInt(cv.n)
                          \o DOct(Octets(le, Compress(cv, Base(cv)), FieldBytes(cv))))
ParamsDer(le, cv, sb) ==
  DSeq((IF NamedIndex(cv) # {} THEN DOid(CurveOid((CHOOSE i \in NamedIndex(cv) : TRUE) - 1)) ELSE CustomDer(le, cv))
       \o (IF sb = DefaultSbox THEN << >> ELSE DOct(sb)))
\* the forms in which parameters may also be given: a named curve explicitly, the default table explicitly
ParamForms(le, cv, sb) ==
  { DSeq(c \o t) : c \in { CustomDer(le, cv) } \cup { DOid(CurveOid(i - 1)) : i \in NamedIndex(cv) },
                   t \in { DOct(sb) } \cup (IF sb = DefaultSbox THEN { << >> } ELSE {}) }
AlgDer(k) == DSeq(DOid(AlgOid(k.le)) \o ParamsDer(k.le, k.cv, k.sb))
\* the one point whose compressed form is that of another
Encodable(cv, P) == ~P.inf /\ (P.x = BZero \/ Compress(cv, P) # BZero)
PointDer(k) == DBit(DOct(Octets(k.le, Compress(k.cv, k.Q), FieldBytes(k.cv))))
PubDer(k) == DSeq(AlgDer(k) \o PointDer(k))
PrivDer(k) == DSeq(DInt(BZero) \o AlgDer(k) \o DOct(k.d))

\* the octets of an element, and its encoding if that is DER
Raw(x, n) == LET h == 1 + Len(DLen(n.e + 1 - n.b)) IN IF n.b > h THEN SubSeq(x, n.b - h, n.e) ELSE << >>

\* ---- soundness of a curve
RECURSIVE Frob(_,_,_)
Frob(z, p, i) == IF i = 0 THEN z ELSE Frob(PMulMod(z, z, p), p, i-1)
PrimeNat(m) == m > 1 /\ \A i \in 2..m : i * i > m \/ m % i # 0
Sound(cv) ==
  \/ NamedIndex(cv) # {}
  \/ /\ PrimeNat(Degree(cv)) /\ Degree(cv) % 2 = 1 /\ Degree(cv) <= 509
     /\ Frob(<< 2 >>, cv.p, Degree(cv)) = << 2 >>
     /\ cv.b # BZero /\ OnCurve(cv, Base(cv)) /\ BCmp(cv.n, << 3 >>) >= 0 /\ BBit(cv.n, 0) = 1
     /\ Mul(cv, cv.n, Base(cv)).inf

\* ---- reading
No == [v |-> "bad", full |-> FALSE]
Dunno == [v |-> "unk", full |-> FALSE]
NotOk(st) == IF st = "unk" THEN Dunno ELSE No
RECURSIVE SumBits(_,_)
SumBits(S, i) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN (IF b \div 8 = i THEN Pow2(b % 8) ELSE 0) + SumBits(S \ {b}, i)
PolyOf(S, m) == [i \in 1..(m \div 8 + 1) |-> SumBits(S, i-1)]

ParseField(x, n) ==          \* [v, p]
  IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) # 2 \/ it.l[1].tag # 2 \/ it.l[2].tag \notin {2, 48} THEN No
  ELSE LET m  == IntOf(Body(x, it.l[1]))
           sub == IF it.l[2].tag = 2 THEN [st |-> "ok", l |-> << it.l[2] >>] ELSE Items(x, it.l[2])
       IN IF sub.st # "ok" THEN NotOk(sub.st)
          ELSE IF (it.l[2].tag = 48 /\ Len(sub.l) # 3) \/ \E j \in 1..Len(sub.l) : sub.l[j].tag # 2 THEN No
          ELSE LET t == [j \in 1..Len(sub.l) |-> IntOf(Body(x, sub.l[j]))] IN
               IF ~m.ok \/ m.neg \/ m.v = BZero \/ \E j \in 1..Len(t) : ~t[j].ok \/ t[j].neg \/ t[j].v = BZero THEN No
               ELSE IF NumBits(m.v) > 10 \/ \E j \in 1..Len(t) : NumBits(t[j].v) > 10 THEN Dunno
               ELSE IF \E j \in 1..Len(t) : BCmp(t[j].v, m.v) >= 0 THEN Dunno
               ELSE LET mm == NatOf(m.v)
                        S == {mm, 0} \cup { NatOf(t[j].v) : j \in 1..Len(t) }
                    IN [v |-> "ok", full |-> TRUE, p |-> PolyOf(S, mm)]

FromOct(le, o) == IF le THEN BigLe(o) ELSE BigBe(o)
ParsePoint(cv, z) == IF NumBits(z) > Degree(cv) THEN [ok |-> FALSE, pt |-> Inf] ELSE Expand(cv, z)
ParseCustom(x, n, le) ==     \* [v, full, cv]
  LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) # 5 \/ it.l[2].tag # 2 \/ it.l[3].tag # 4 \/ it.l[4].tag # 2 \/ it.l[5].tag # 4 THEN No
  ELSE LET f == ParseField(x, it.l[1])
           a == IntOf(Body(x, it.l[2]))
           n0 == IntOf(Body(x, it.l[4]))
           bo == Body(x, it.l[3])
           po == Body(x, it.l[5])
       IN IF f.v # "ok" THEN f
          ELSE IF ~a.ok \/ a.neg \/ a.v \notin {BZero, BOne} \/ ~n0.ok \/ n0.neg \/ n0.v = BZero THEN No
          ELSE LET m == NumBits(f.p) - 1
                   pre == [p |-> f.p, a |-> a.v, b |-> PMod(FromOct(le, bo), f.p), n |-> n0.v, gx |-> BZero, gy |-> BZero]
               IN IF pre.b = BZero \/ Len(po) < (m + 7) \div 8 THEN No
                  ELSE IF ~(PrimeNat(m) /\ m % 2 = 1 /\ Frob(<< 2 >>, f.p, m) = << 2 >>) THEN No
                  ELSE IF m > 509 THEN Dunno
                  ELSE LET g == ParsePoint(pre, FromOct(le, po)) IN
                       IF ~g.ok THEN No
                       ELSE [v |-> "ok", full |-> TRUE, cv |-> [pre EXCEPT !.gx = g.pt.x, !.gy = g.pt.y]]

ParseParams(x, n, le) ==     \* [v, full, cv, sb]; n the SEQUENCE
  IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) \notin {1, 2} \/ it.l[1].tag \notin {6, 48} THEN No
  ELSE IF Len(it.l) = 2 /\ (it.l[2].tag # 4 \/ it.l[2].e - it.l[2].b # 63) THEN No
  ELSE LET sb == IF Len(it.l) = 2 THEN Body(x, it.l[2]) ELSE DefaultSbox
           c == IF it.l[1].tag = 48 THEN ParseCustom(x, it.l[1], le)
                ELSE LET S == { i \in 1..10 : CurveOid(i-1) = Body(x, it.l[1]) }
                     IN  IF S = {} THEN No ELSE [v |-> "ok", full |-> TRUE, cv |-> NamedCurve[CHOOSE i \in S : TRUE]]
       IN IF c.v # "ok" THEN c
          ELSE [v |-> "ok", full |-> Raw(x, n) \in ParamForms(le, c.cv, sb) /\ Sound(c.cv), cv |-> c.cv, sb |-> sb]

Key(le, p) == [le |-> le, cv |-> p.cv, sb |-> p.sb, hasD |-> FALSE, d |-> BZero, hasQ |-> FALSE, Q |-> Inf]
ParsePar(x, le) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN NotOk(n.st)
  ELSE LET p == ParseParams(x, n, le) IN
       IF p.v # "ok" THEN p ELSE [v |-> "ok", full |-> p.full /\ Raw(x, n) = x, key |-> Key(le, p)]

ParseAlg(x, n) ==            \* [v, full, key]
  IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) # 2 \/ it.l[1].tag # 6 \/ it.l[2].tag # 48 THEN No
  ELSE LET o == Body(x, it.l[1]) IN
       IF o \notin {AlgOid(TRUE), AlgOid(FALSE)} THEN No
       ELSE LET le == o = AlgOid(TRUE)
                p == ParseParams(x, it.l[2], le)
            IN IF p.v # "ok" THEN p ELSE [v |-> "ok", full |-> p.full /\ Raw(x, n) = DSeq(DOid(o) \o Raw(x, it.l[2])), key |-> Key(le, p)]

ParsePub(x) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN NotOk(n.st)
  ELSE IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) # 2 \/ it.l[2].tag # 3 \/ it.l[2].e < it.l[2].b THEN No
  ELSE LET al == ParseAlg(x, it.l[1])
           unused == x[it.l[2].b]
           o == Elem(x, it.l[2].b + 1, it.l[2].e)
       IN IF al.v = "bad" THEN No
          ELSE IF unused > 7 THEN No
          ELSE IF unused # 0 THEN Dunno
          ELSE IF o.st # "ok" THEN NotOk(o.st)
          ELSE IF o.tag # 4 THEN No
          ELSE IF al.v = "unk" THEN Dunno
          ELSE LET k == al.key
                   oct == Body(x, o)
                   g == ParsePoint(k.cv, FromOct(k.le, oct))
                   k1 == [k EXCEPT !.hasQ = TRUE, !.Q = g.pt]
               IN IF Len(oct) < FieldBytes(k.cv) \/ ~g.ok THEN No
                  ELSE [v |-> "ok", full |-> al.full /\ x = DSeq(Raw(x, it.l[1]) \o PointDer(k1)), key |-> k1]

ParsePriv(x) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN NotOk(n.st)
  ELSE IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) < 3 \/ it.l[1].tag # 2 \/ it.l[3].tag # 4 THEN No
  ELSE LET al == ParseAlg(x, it.l[2])
           d == BigLe(Body(x, it.l[3]))
       IN IF al.v # "ok" THEN al
          ELSE IF d = BZero THEN No
          ELSE LET Q == PubOf(al.key.cv, d)
                   k1 == [al.key EXCEPT !.hasD = TRUE, !.d = d, !.hasQ = TRUE, !.Q = Q]
               IN IF ~Sound(al.key.cv) THEN Dunno
                  ELSE IF Q.inf THEN No
                  ELSE [v |-> "ok", full |-> al.full /\ x = DSeq(DInt(BZero) \o Raw(x, it.l[2]) \o DOct(k1.d)) /\ BCmp(d, al.key.cv.n) < 0, key |-> k1]

\* what the loaded key shows of itself: [le, bits, size, pub, priv, par], << >> where it has no such encoding
Shows(k, r) ==
  /\ r.le = (IF k.le THEN 1 ELSE 0) /\ r.be = (IF k.le THEN 0 ELSE 1)
  /\ r.bits = Degree(k.cv) /\ r.size = SigSize(k.cv)
  /\ r.par = ParamsDer(k.le, k.cv, k.sb)
  /\ r.priv = (IF k.hasD THEN PrivDer(k) ELSE << >>)
  /\ IF ~k.hasQ THEN r.pub = << >>
     ELSE Encodable(k.cv, k.Q) => r.pub = PubDer(k)
\* weaker, when the input was not followed: what it shows is a key again, and on the curve
ShowsSome(r) ==
  /\ r.par # << >>
  /\ LET p == ParsePar(r.par, r.le = 1) IN p.v # "bad" /\ (p.v = "ok" => r.bits = Degree(p.key.cv) /\ r.size = SigSize(p.key.cv))
  /\ r.pub # << >> => ParsePub(r.pub).v # "bad"
  /\ r.priv # << >> => ParsePriv(r.priv).v # "bad"
=============================================================================
