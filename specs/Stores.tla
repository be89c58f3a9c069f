------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* Key containers: Java key stores, PKCS#12 files, IIT Key-6 files.        *)
(* XOut gives an encoding; ReadX says what an octet string holds for given *)
(* passwords:                                                              *)
(*   v = "bad"  it has to be refused                                       *)
(*   v = "ok"   if it is accepted, its keys are one of the lists "keys"    *)
(*              and its certificates the list "certs"; "full" says that    *)
(*              it has to be accepted                                      *)
(*   v = "unk"  a form that is not followed                                *)
(* A key in a list is [dstu, key] or [foreign, der]; certificates and keys *)
(* of other kinds are opaque: those in "good" are known to be sound.       *)
(***************************************************************************)
EXTENDS Pbes2, Sha1, FiniteSets

Deny == [v |-> "bad", full |-> FALSE]
Maybe == [v |-> "unk", full |-> FALSE]
Worse(a, b) == IF a.v = "bad" \/ b.v = "bad" THEN Deny ELSE Maybe

\* ---- passwords: UTF-8 octets to UTF-16BE, [ok, o]
U16(c) == << c \div 256, c % 256 >>
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
RECURSIVE Utf16From(_,_,_)
Utf16From(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, o |-> acc]
  ELSE LET b == s[i] IN
    CASE b < 128 -> Utf16From(s, i+1, acc \o << 0, b >>)
      [] b \in 194..223 /\ Cont(s, i+1) -> Utf16From(s, i+2, acc \o U16((b - 192) * 64 + s[i+1] - 128))
      [] b \in 224..239 /\ Cont(s, i+1) /\ Cont(s, i+2) ->
           LET c == (b - 224) * 4096 + (s[i+1] - 128) * 64 + s[i+2] - 128
           IN  IF c < 2048 \/ c \in 55296..57343 THEN [ok |-> FALSE, o |-> acc] ELSE Utf16From(s, i+3, acc \o U16(c))
      [] b \in 240..244 /\ Cont(s, i+1) /\ Cont(s, i+2) /\ Cont(s, i+3) ->
           LET c == (b - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + s[i+3] - 128
               d == c - 65536
           IN  IF c < 65536 \/ c > 1114111 THEN [ok |-> FALSE, o |-> acc]
               ELSE Utf16From(s, i+4, acc \o U16(55296 + (d \div 1024)) \o U16(56320 + (d % 1024)))
      [] OTHER -> [ok |-> FALSE, o |-> acc]
Utf16(s) == Utf16From(s, 1, << >>)

\* ---- PKCS#8 with the second key some containers carry in attributes
IitOid(t) == << 43, 6, 1, 4, 1, 129, 151, 70, 1, 1 >> \o t            \* 1.3.6.1.4.1.19398.1.1
AttrCurveOid == IitOid(<< 2, 2 >>)
AttrKeyOid == IitOid(<< 2, 3 >>)
BitRev(b) == LET d(i) == (b \div Pow2(i)) % 2 IN 128*d(0) + 64*d(1) + 32*d(2) + 16*d(3) + 8*d(4) + 4*d(5) + 2*d(6) + d(7)
RevOctets(o) == [i \in 1..Len(o) |-> BitRev(o[i])]
Dstu(k) == [t |-> "dstu", key |-> k]
Foreign(d) == [t |-> "foreign", der |-> d]

\* all elements of a list with their parts: [st, l]
RECURSIVE AllItems(_,_,_,_)
AllItems(x, l, j, acc) == IF j > Len(l) THEN [st |-> "ok", l |-> acc]
  ELSE LET it == Items(x, l[j]) IN IF it.st # "ok" THEN [st |-> it.st, l |-> acc] ELSE AllItems(x, l, j+1, Append(acc, it.l))
FirstWith(l, P(_)) == LET S == { j \in 1..Len(l) : P(l[j]) } IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : j <= i
\* is this value a curve description: SEQUENCE { custom curve, OCTET STRING, OCTET STRING }
CurveValue(x, n) ==
  /\ n.tag = 48
  /\ LET it == Items(x, n) IN it.st = "ok" /\ Len(it.l) = 3 /\ it.l[1].tag = 48 /\ it.l[2].tag = 4 /\ it.l[3].tag = 4
KeyValue(n) == n.tag \in {3, 4}
\* the second key: v = "none" there is none, "ok" it is that key (must when full), "unk"
AttrKey(x, cvals, kvals) ==
  LET ci == FirstWith(cvals, LAMBDA n : CurveValue(x, n))
      ki == FirstWith(kvals, LAMBDA n : KeyValue(n))
  IN IF ki = 0 \/ ci = 0 THEN [v |-> IF \E j \in 1..Len(cvals) : cvals[j].tag = 48 THEN "unk" ELSE "none"]
     ELSE LET cu == ParseCustom(x, Items(x, cvals[ci]).l[1], FALSE)
              kn == kvals[ki]
              raw == IF kn.tag = 4 THEN Body(x, kn) ELSE IF kn.e < kn.b THEN << >> ELSE SubSeq(x, kn.b + 1, kn.e)
              d == BigLe(RevOctets(raw))
          IN IF kn.tag = 3 /\ (kn.e < kn.b \/ x[kn.b] # 0) THEN [v |-> "unk"]
             ELSE IF cu.v = "bad" THEN [v |-> IF ci < Len(cvals) \/ Len(cvals) > 1 THEN "unk" ELSE "none"]
             ELSE IF cu.v # "ok" THEN [v |-> "unk"]
             ELSE IF ~Sound(cu.cv) THEN [v |-> "unk"]
             ELSE IF d = BZero THEN [v |-> "none"]
             ELSE LET Q == PubOf(cu.cv, d) IN
                  IF Q.inf THEN [v |-> "none"]
                  ELSE [v |-> "ok", full |-> BCmp(d, cu.cv.n) < 0,
                        key |-> [le |-> TRUE, cv |-> cu.cv, sb |-> DefaultSbox, hasD |-> TRUE, d |-> d, hasQ |-> TRUE, Q |-> Q]]
OidForm(o) == o # << >> /\ o[Len(o)] < 128 /\ o[1] # 128 /\ \A j \in 2..Len(o) : o[j] = 128 => o[j-1] >= 128
\* values in the forms the specification follows
PlainValue(x, n) == CASE n.tag \in {4, 48, 49} -> TRUE
                      [] n.tag = 5 -> n.e < n.b
                      [] n.tag = 2 -> n.e >= n.b /\ (n.e = n.b \/ ~(x[n.b] \in {0, 255}))
                      [] n.tag = 3 -> n.e >= n.b /\ x[n.b] = 0
                      [] OTHER -> FALSE
Attrs(x, n) ==          \* [st, l]: l the attributes as lists [oid, values]
  LET it == Items(x, n) IN
  IF it.st # "ok" THEN [st |-> it.st, l |-> << >>]
  ELSE IF \E j \in 1..Len(it.l) : it.l[j].tag # 48 THEN [st |-> "bad", l |-> << >>]
  ELSE LET a == AllItems(x, it.l, 1, << >>) IN
       IF a.st # "ok" THEN a
       ELSE IF \E j \in 1..Len(a.l) : Len(a.l[j]) # 2 \/ a.l[j][1].tag # 6 \/ a.l[j][2].tag \notin {17, 49} THEN [st |-> "bad", l |-> << >>]
       ELSE IF \E j \in 1..Len(a.l) : a.l[j][2].tag = 17 THEN [st |-> "unk", l |-> << >>]
       ELSE LET sets == [j \in 1..Len(a.l) |-> Items(x, a.l[j][2])] IN
            IF \E j \in 1..Len(a.l) : sets[j].st # "ok" THEN [st |-> "unk", l |-> << >>]
            ELSE IF \E j \in 1..Len(a.l) : ~OidForm(Body(x, a.l[j][1])) \/ \E m \in 1..Len(sets[j].l) : ~PlainValue(x, sets[j].l[m]) THEN [st |-> "unk", l |-> << >>]
            ELSE [st |-> "ok", l |-> [j \in 1..Len(a.l) |-> [oid |-> Body(x, a.l[j][1]), vals |-> sets[j].l]]]
Indexed(l, o) == { j \in 1..Len(l) : l[j].oid = o }
\* a private key of another kind (nothing is specified of it)
OtherKind(x, it) ==
  /\ Len(it.l) >= 3 /\ it.l[2].tag = 48
  /\ LET a == Items(x, it.l[2]) IN
     ~(a.st = "ok" /\ (a.l = << >> \/ a.l[1].tag # 6 \/ Body(x, a.l[1]) \in {AlgOid(TRUE), AlgOid(FALSE)}))
\* PKCS#8 at the beginning of x (what follows is ignored): [v, full, keys]
ReadP8(x) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN NotOk(n.st)
  ELSE IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) \notin {3, 4} THEN No
  ELSE LET head == SubSeq(x, n.b, it.l[3].e)
           p == ParsePriv(DSeq(head)) IN
  IF p.v = "bad" THEN (IF OtherKind(x, it) THEN Dunno ELSE No)
  ELSE IF Len(it.l) = 3 THEN (IF p.v = "ok" THEN [v |-> "ok", full |-> p.full, keys |-> { << Dstu(p.key) >> }] ELSE p)
  ELSE IF it.l[4].tag = 128 THEN Dunno
  ELSE IF it.l[4].tag # 160 THEN No
  ELSE LET a == Attrs(x, it.l[4]) IN
  IF a.st = "bad" THEN No
  ELSE IF p.v # "ok" \/ a.st # "ok" THEN Dunno
  ELSE LET C == Indexed(a.l, AttrCurveOid)  K == Indexed(a.l, AttrKeyOid)
           one == << Dstu(p.key) >>
       IN IF Cardinality(C) > 1 \/ Cardinality(K) > 1 THEN Dunno
          ELSE IF C = {} \/ K = {} THEN [v |-> "ok", full |-> p.full, keys |-> { one }]
          ELSE LET k2 == AttrKey(x, a.l[CHOOSE j \in C : TRUE].vals, a.l[CHOOSE j \in K : TRUE].vals) IN
               CASE k2.v = "unk" -> Dunno
                 [] k2.v = "none" -> [v |-> "ok", full |-> FALSE, keys |-> { one }]      \* no second key
                 [] k2.v = "ok" -> [v |-> "ok", full |-> p.full /\ k2.full, keys |-> { one \o << Dstu(k2.key) >> }]
\* a private key without attributes' keys, DSTU or another known kind
ReadOneKey(x, good) ==
  IF x \in good THEN [v |-> "ok", full |-> TRUE, keys |-> { << Foreign(x) >> }]
  ELSE LET n == Elem(x, 1, Len(x)) IN
       IF n.st # "ok" THEN NotOk(n.st)
       ELSE IF n.tag # 48 THEN No
       ELSE LET it == Items(x, n) IN
            IF it.st # "ok" THEN NotOk(it.st)
            ELSE IF Len(it.l) = 4 THEN
              (LET p == ParsePriv(DSeq(SubSeq(x, n.b, it.l[3].e)))  a == Attrs(x, it.l[4]) IN
               IF it.l[4].tag = 128 THEN Dunno
               ELSE IF it.l[4].tag # 160 \/ a.st = "bad" \/ (p.v = "bad" /\ ~OtherKind(x, it)) THEN No
               ELSE IF p.v # "ok" \/ a.st # "ok" THEN Dunno ELSE [v |-> "ok", full |-> p.full, keys |-> { << Dstu(p.key) >> }])
            ELSE LET p == ParsePriv(x) IN
                 IF p.v = "ok" THEN [v |-> "ok", full |-> p.full, keys |-> { << Dstu(p.key) >> }]
                 ELSE IF p.v = "bad" /\ ~OtherKind(x, it) THEN No
                 ELSE Dunno                                    \* another kind of key

\* the same, other octets may follow
ReadFirstKey(x, good) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st = "ok" /\ n.e < Len(x) THEN (LET r == ReadOneKey(SubSeq(x, 1, n.e), good) IN IF r.v = "ok" THEN [r EXCEPT !.full = FALSE] ELSE r)
  ELSE ReadOneKey(x, good)

\* ---- Java key stores
Be2(n) == << n \div 256, n % 256 >>
Be4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Big4(x, i) == x[i] >= 64                         \* a length beyond every buffer
Get4(x, i) == x[i] * 16777216 + x[i+1] * 65536 + x[i+2] * 256 + x[i+3]
Get2(x, i) == x[i] * 256 + x[i+1]
ProtectorOid == << 43, 6, 1, 4, 1, 42, 2, 17, 1, 1 >>
Pbes1Oid == << 43, 6, 1, 4, 1, 42, 2, 19, 1 >>
MightyAphrodite == << 77, 105, 103, 104, 116, 121, 32, 65, 112, 104, 114, 111, 100, 105, 116, 101 >>
RECURSIVE KeyStream(_,_,_,_)
KeyStream(pw, prev, n, acc) == IF Len(acc) >= n THEN acc ELSE LET h == TLCEval(Sha1(pw \o prev)) IN KeyStream(pw, h, n, acc \o h)
\* open what a key entry holds: [ok, o]
Unprotect(pw, x) ==
  IF Len(x) < 40 THEN [ok |-> FALSE, o |-> << >>]
  ELSE LET n == Len(x) - 40
           enc == SubSeq(x, 21, 20 + n)
           ks == KeyStream(pw, SubSeq(x, 1, 20), n, << >>)
           o == TLCEval(XorBytes(enc, SubSeq(ks, 1, n)))
       IN [ok |-> Sha1(pw \o o) = SubSeq(x, 21 + n, Len(x)), o |-> o]
ProtectOut(pw, salt, o) == salt \o XorBytes(o, SubSeq(KeyStream(pw, salt, Len(o), << >>), 1, Len(o))) \o Sha1(pw \o o)
\* EncryptedPrivateKeyInfo
ReadEpki(pw, x) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN NotOk(n.st)
  ELSE IF n.tag # 48 THEN No
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN NotOk(it.st)
  ELSE IF Len(it.l) # 2 \/ it.l[1].tag # 48 \/ it.l[2].tag # 4 THEN No
  ELSE LET al == Items(x, it.l[1]) IN
  IF al.st # "ok" THEN NotOk(al.st)
  ELSE IF Len(al.l) \notin {1, 2} \/ al.l[1].tag # 6 THEN No
  ELSE IF Body(x, al.l[1]) # ProtectorOid THEN No           \* no other protection is understood
  ELSE LET u == Unprotect(pw, Body(x, it.l[2])) IN 
       IF ~u.ok THEN No
       ELSE LET r == ReadP8(u.o) IN
            \* parameters other than none or NULL mean nothing here
            IF r.v = "ok" /\ Len(al.l) = 2 /\ (al.l[2].tag # 5 \/ al.l[2].e >= al.l[2].b) THEN [r EXCEPT !.full = FALSE] ELSE r
\* a certificate: type, length, DER; [st, e] with e the position after it
CertAt(x, i, lim) ==
  IF i + 1 > lim THEN [st |-> "bad"]
  ELSE LET j == i + 2 + Get2(x, i) IN
       IF j + 3 > lim \/ Big4(x, j) THEN [st |-> "bad"]
       ELSE LET e == j + 4 + Get4(x, j) IN IF e - 1 > lim THEN [st |-> "bad"] ELSE [st |-> "ok", c |-> SubSeq(x, j + 4, e - 1), e |-> e]
RECURSIVE CertsFrom(_,_,_,_,_)
CertsFrom(x, i, lim, n, acc) ==
  IF n = 0 THEN [st |-> "ok", l |-> acc, e |-> i]
  ELSE LET c == CertAt(x, i, lim) IN IF c.st # "ok" THEN [st |-> "bad"] ELSE CertsFrom(x, c.e, lim, n-1, Append(acc, c.c))
CertState(c, good) == IF c \in good THEN "ok" ELSE LET n == Elem(c, 1, Len(c)) IN IF n.st = "bad" \/ (n.st = "ok" /\ n.tag # 48) THEN "bad" ELSE "unk"
\* entries: state acc = [v, full, keys (set of lists), certs, e]
RECURSIVE JksEntries(_,_,_,_,_,_,_)
Join(A, B) == { a \o b : a \in A, b \in B }
JksEntries(x, i, lim, n, kpw, good, acc) ==
  IF n = 0 THEN [acc EXCEPT !.e = i]
  ELSE IF i + 3 > lim THEN Deny
  ELSE IF x[i] # 0 \/ x[i+1] # 0 \/ x[i+2] # 0 \/ x[i+3] \notin {1, 2} THEN Deny
  ELSE IF i + 5 > lim THEN Deny
  ELSE LET j == i + 6 + Get2(x, i + 4) + 8 IN           \* after name and time
  IF j - 1 > lim THEN Deny
  ELSE LET isKey == x[i+3] = 1
           kb == IF ~isKey THEN [st |-> "ok", o |-> << >>, e |-> j]
                 ELSE IF j + 3 > lim \/ Big4(x, j) THEN [st |-> "bad"]
                 ELSE LET e == j + 4 + Get4(x, j) IN IF e + 3 > lim THEN [st |-> "bad"] ELSE [st |-> "ok", o |-> SubSeq(x, j + 4, e - 1), e |-> e + 4]
       IN IF kb.st = "bad" THEN Deny
          ELSE LET nc == IF isKey THEN (IF Big4(x, kb.e - 4) THEN lim ELSE Get4(x, kb.e - 4)) ELSE 1
                   cs == IF nc > lim THEN [st |-> "bad"] ELSE CertsFrom(x, kb.e, lim, nc, << >>)
               IN IF cs.st = "bad" THEN Deny
                  ELSE LET S == { CertState(c, good) : c \in { cs.l[m] : m \in 1..Len(cs.l) } }
                           k == IF isKey THEN ReadEpki(kpw, kb.o) ELSE [v |-> "ok", full |-> TRUE, keys |-> { << >> }]
                       IN IF "bad" \in S \/ k.v = "bad" THEN Deny
                          ELSE IF k.v = "unk" \/ acc.v = "unk" \/ "unk" \in S
                               THEN JksEntries(x, cs.e, lim, n-1, kpw, good, [acc EXCEPT !.v = "unk", !.full = FALSE])
                          ELSE JksEntries(x, cs.e, lim, n-1, kpw, good,
                                 [acc EXCEPT !.full = @ /\ k.full, !.keys = Join(@, k.keys), !.certs = @ \o cs.l])
JksMagics == { << 254, 237, 254, 237 >>, << 206, 206, 206, 206 >> }
ReadJks(x, spw, kpw, good) ==
  LET s == Utf16(spw)  k == Utf16(kpw) IN
  IF Len(x) < 32 \/ SubSeq(x, 1, 4) \notin JksMagics \/ SubSeq(x, 5, 8) # << 0, 0, 0, 2 >> THEN Deny
  ELSE IF ~s.ok THEN Deny
  ELSE IF Big4(x, 9) \/ Get4(x, 9) > Len(x) THEN Deny
  ELSE LET r == JksEntries(x, 13, Len(x), Get4(x, 9), k.o, good,
                           [v |-> "ok", full |-> TRUE, keys |-> { << >> }, certs |-> << >>, e |-> 0])
       IN IF r.v = "bad" THEN Deny
          ELSE IF r.e + 19 > Len(x) \/ SubSeq(x, r.e, r.e + 19) # Sha1(s.o \o MightyAphrodite \o SubSeq(x, 1, r.e - 1)) THEN Deny
          ELSE IF ~k.ok /\ r.keys # { << >> } THEN Deny
          ELSE IF r.v = "unk" THEN Maybe
          \* an empty password is not prescribed to be usable; nor is it what follows the digest
          ELSE [r EXCEPT !.full = @ /\ s.o # << >> /\ (k.o # << >> \/ r.keys = { << >> }) /\ r.e + 19 = Len(x)]
\* writing one
JksEntryOut(en, kpw) ==
  LET certs(l) == LET Upto[j \in 0..Len(l)] == IF j = 0 THEN << >> ELSE Upto[j-1] \o Be2(Len(en.ct)) \o en.ct \o Be4(Len(l[j])) \o l[j] IN Upto[Len(l)]
      epki == DSeq(DSeq(DOid(ProtectorOid) \o << 5, 0 >>) \o DOct(ProtectOut(Utf16(kpw).o, en.salt, en.p8)))
  IN IF en.t = "key" THEN << 0, 0, 0, 1 >> \o Be2(Len(en.name)) \o en.name \o en.time \o Be4(Len(epki)) \o epki \o Be4(Len(en.certs)) \o certs(en.certs)
     ELSE << 0, 0, 0, 2 >> \o Be2(Len(en.name)) \o en.name \o en.time \o certs(en.certs)
JksOut(magic, entries, spw, kpw) ==
  LET Upto[j \in 0..Len(entries)] == IF j = 0 THEN << >> ELSE Upto[j-1] \o JksEntryOut(entries[j], kpw)
      body == magic \o << 0, 0, 0, 2 >> \o Be4(Len(entries)) \o Upto[Len(entries)]
  IN body \o Sha1(Utf16(spw).o \o MightyAphrodite \o body)

\* ---- IIT Key-6
Key6Oid == IitOid(<< 1, 2 >>)
RECURSIVE EcbDec(_,_,_,_)
EcbDec(key, x, i, acc) == IF i + 7 > Len(x) THEN acc ELSE EcbDec(key, x, i + 8, acc \o GostDec(DefaultSbox, key, SubSeq(x, i, i + 7)))
RECURSIVE EcbEnc(_,_,_,_)
EcbEnc(key, x, i, acc) == IF i + 7 > Len(x) THEN acc ELSE EcbEnc(key, x, i + 8, acc \o GostEnc(DefaultSbox, key, SubSeq(x, i, i + 7)))
Key6Kdf(pw, rounds) == HashTimes(DefaultSbox, pw, rounds)
\* the two octet strings of the container: [st, data, pad]
Key6Parts(x) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN [st |-> n.st]
  ELSE IF n.tag # 48 THEN [st |-> "bad"]
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN [st |-> it.st]
  ELSE IF Len(it.l) # 2 \/ it.l[1].tag # 48 \/ it.l[2].tag # 4 THEN [st |-> "bad"]
  ELSE LET h == Items(x, it.l[1]) IN
  IF h.st # "ok" THEN [st |-> h.st]
  ELSE IF Len(h.l) # 2 \/ h.l[1].tag # 6 \/ h.l[2].tag # 48 THEN [st |-> "bad"]
  ELSE LET p == Items(x, h.l[2]) IN
  IF p.st # "ok" THEN [st |-> p.st]
  ELSE IF Len(p.l) \notin {1, 2} \/ \E j \in 1..Len(p.l) : p.l[j].tag # 4 THEN [st |-> "bad"]
  ELSE IF Body(x, h.l[1]) # Key6Oid THEN [st |-> "bad"]
  ELSE [st |-> "ok", data |-> Body(x, it.l[2]), pad |-> IF Len(p.l) = 2 THEN Body(x, p.l[2]) ELSE << >>, end |-> n.e]
ReadKey6R(x, pw, rounds) ==
  LET q == Key6Parts(x) IN
  IF q.st # "ok" THEN (IF q.st = "unk" THEN Maybe ELSE Deny)
  ELSE LET r == ReadP8(EcbDec(TLCEval(Key6Kdf(pw, rounds)), q.data \o q.pad, 1, << >>)) IN
       CASE r.v = "bad" -> Deny
         [] r.v = "unk" -> Maybe
         [] OTHER -> [v |-> "ok", full |-> r.full /\ q.end = Len(x), keys |-> r.keys, certs |-> << >>]
ReadKey6(x, pw) == ReadKey6R(x, pw, 10000)
\* p8 padded to whole blocks; the last "cut" octets of the ciphertext travel in the pad field
Key6Out(p8, fill, pw, mac, cut, rounds) ==
  LET c == EcbEnc(Key6Kdf(pw, rounds), p8 \o [i \in 1..((8 - (Len(p8) % 8)) % 8) |-> fill], 1, << >>)
      k == Len(c) - cut
  IN DSeq(DSeq(DOid(Key6Oid) \o DSeq(DOct(mac) \o (IF cut = 0 THEN << >> ELSE DOct(SubSeq(c, k+1, Len(c)))))) \o DOct(SubSeq(c, 1, k)))

\* ---- PKCS#12
BagOid(t) == << 42, 134, 72, 134, 247, 13, 1, 12, 10, 1, t >> \* ...12.10.1.t: 1 key 2 shrouded 3 cert 4 crl 5 secret 6 safe contents
X509CertOid == << 42, 134, 72, 134, 247, 13, 1, 9, 22, 1 >>
Sha1Oid == << 43, 14, 3, 2, 26 >>
\* RFC 7292 appendix B for one block of output, ID 3 (MAC key); SHA-1 works on 64 octets, DSTU 34.311 on 32
FillTo(s, v) == IF s = << >> THEN << >> ELSE [i \in 1..(v * ((Len(s) + v - 1) \div v)) |-> s[((i-1) % Len(s)) + 1]]
P12MacKey(pw, salt, iter) == Sha1Times([i \in 1..64 |-> 3] \o FillTo(salt, 64) \o FillTo(pw, 64), iter)
P12MacKeyDstu(pw, salt, iter) == HashTimes(DefaultSbox, [i \in 1..32 |-> 3] \o FillTo(salt, 32) \o FillTo(pw, 32), iter)
Sha1Hmac(key, m) == LET k == [i \in 1..64 |-> IF i <= Len(key) THEN key[i] ELSE 0]
                        rep(v) == [i \in 1..64 |-> v]
                    IN  Sha1(XorBytes(k, rep(92)) \o Sha1(XorBytes(k, rep(54)) \o m))
P12Mac(o, pw16, salt, iter, body) ==
  IF o = Sha1Oid THEN Sha1Hmac(P12MacKey(pw16, salt, iter), body) ELSE Hmac(P12MacKeyDstu(pw16, salt, iter), body)
\* an element expected to hold exactly one: [0] EXPLICIT
Inner(x, n) == LET it == Items(x, n) IN IF it.st # "ok" THEN [st |-> it.st] ELSE IF Len(it.l) # 1 THEN [st |-> "bad"] ELSE [st |-> "ok", n |-> it.l[1]]
\* what an encrypted part opens to: blobs lists [alg, enc, pw, plain] of the maker
Unblob(blobs, alg, enc, pw) ==
  LET S == { j \in 1..Len(blobs) : blobs[j].alg = alg /\ blobs[j].enc = enc } IN
  IF S = {} THEN (LET p == PbeParts(alg) IN IF p.ok /\ pw # << >> THEN [v |-> "ok", o |-> PbeOpen(p, pw, enc)] ELSE [v |-> "unk"])
  ELSE LET b == blobs[CHOOSE j \in S : TRUE] IN IF b.pw = pw THEN [v |-> "ok", o |-> b.plain] ELSE [v |-> "bad"]
\* some decoders take a list whose tag lacks the mark of a constructed element
Loose(tag, want) == IF tag = want - 32 THEN Maybe ELSE Deny
P12Start == [v |-> "ok", full |-> TRUE, keys |-> { << >> }, certs |-> << >>]
AddKeys(acc, k) == CASE k.v = "bad" -> Deny [] k.v = "unk" -> [acc EXCEPT !.v = "unk"]
                     [] OTHER -> [acc EXCEPT !.full = @ /\ k.full, !.keys = Join(@, k.keys)]
RECURSIVE P12Bags(_,_,_,_,_)
P12Bag(x, n, acc, pw, e) ==
  LET it == Items(x, n) IN
  IF n.tag # 48 THEN Deny
  ELSE IF it.st # "ok" THEN (IF it.st = "bad" THEN Deny ELSE Maybe)
  ELSE IF Len(it.l) \notin {2, 3} \/ it.l[1].tag # 6 \/ it.l[2].tag # 160 \/ (Len(it.l) = 3 /\ it.l[3].tag \notin {17, 49}) THEN Deny
  ELSE IF Len(it.l) = 3 /\ it.l[3].tag = 17 THEN Maybe
  ELSE LET t == Body(x, it.l[1])  v == Inner(x, it.l[2]) IN
  IF v.st # "ok" THEN (IF v.st = "bad" THEN Deny ELSE Maybe)
  ELSE LET raw == SubSeq(x, it.l[2].b, it.l[2].e) IN
  CASE t = BagOid(1) -> AddKeys(acc, ReadOneKey(raw, e.good))
    [] t = BagOid(2) ->
         LET s == Items(x, v.n) IN
         IF v.n.tag # 48 \/ s.st = "bad" THEN Deny
         ELSE IF s.st # "ok" THEN Maybe
         ELSE IF Len(s.l) # 2 \/ s.l[1].tag # 48 \/ s.l[2].tag # 4 THEN Deny
         ELSE LET u == Unblob(e.blobs, Raw(x, s.l[1]), Body(x, s.l[2]), pw) IN
              IF u.v = "bad" THEN Deny ELSE IF u.v = "unk" THEN [acc EXCEPT !.v = "unk"] ELSE AddKeys(acc, ReadFirstKey(u.o, e.good))
    [] t = BagOid(3) ->
         LET s == Items(x, v.n) IN
         IF v.n.tag # 48 \/ s.st = "bad" THEN Deny
         ELSE IF s.st # "ok" THEN Maybe
         ELSE IF Len(s.l) # 2 \/ s.l[1].tag # 6 \/ s.l[2].tag # 160 THEN Deny
         ELSE LET c == Inner(x, s.l[2]) IN
              IF c.st = "bad" THEN Deny
              ELSE IF c.st # "ok" THEN Maybe
              ELSE IF Body(x, s.l[1]) # X509CertOid THEN Deny
              ELSE IF c.n.tag # 4 THEN Deny
              ELSE LET S == CertState(Body(x, c.n), e.good) IN
                   IF S = "bad" THEN Deny ELSE IF S = "unk" THEN [acc EXCEPT !.v = "unk"] ELSE [acc EXCEPT !.certs = Append(@, Body(x, c.n))]
    [] t = BagOid(6) ->
         IF v.n.tag # 48 THEN Loose(v.n.tag, 48)
         ELSE LET s == Items(x, v.n) IN IF s.st # "ok" THEN (IF s.st = "bad" THEN Deny ELSE Maybe) ELSE P12Bags(x, s.l, acc, pw, e)
    [] t \in {BagOid(4), BagOid(5)} -> IF e.other = 1 THEN acc ELSE [acc EXCEPT !.v = "unk"]     \* sound by construction, ignored
    [] OTHER -> IF e.other = 1 THEN acc ELSE [acc EXCEPT !.v = "unk"]
P12Bags(x, l, acc, pw, e) ==
  IF l = << >> THEN acc
  ELSE LET a == P12Bag(x, l[1], acc, pw, e) IN
       IF a.v = "bad" THEN Deny
       ELSE LET b == P12Bags(x, Tail(l), IF a.v = "unk" THEN [acc EXCEPT !.v = "unk"] ELSE a, pw, e) IN
            IF b.v = "bad" THEN Deny ELSE IF a.v = "unk" THEN Maybe ELSE b
SafeContents(o, acc, pw, e) ==
  LET n == Elem(o, 1, Len(o)) IN
  IF n.st # "ok" THEN (IF n.st = "bad" THEN Deny ELSE Maybe)
  ELSE IF n.tag # 48 THEN Loose(n.tag, 48)
  ELSE LET it == Items(o, n) IN IF it.st # "ok" THEN (IF it.st = "bad" THEN Deny ELSE Maybe) ELSE P12Bags(o, it.l, acc, pw, e)
\* ContentInfo: [st, t, n] with n the one element inside [0]
Content(x, n) ==
  LET it == Items(x, n) IN
  IF n.tag # 48 THEN [st |-> "bad"]
  ELSE IF it.st # "ok" THEN [st |-> it.st]
  ELSE IF Len(it.l) # 2 \/ it.l[1].tag # 6 \/ it.l[2].tag # 160 THEN [st |-> "unk"]
  ELSE LET v == Inner(x, it.l[2]) IN IF v.st # "ok" THEN v ELSE [st |-> "ok", t |-> Body(x, it.l[1]), n |-> v.n]
RECURSIVE P12Safes(_,_,_,_,_)
P12Safe(x, n, acc, pw, e) ==
  LET c == Content(x, n) IN
  IF c.st # "ok" THEN (IF c.st = "bad" THEN Deny ELSE Maybe)
  ELSE IF c.t = Pkcs7(1) THEN (IF c.n.tag # 4 THEN Deny ELSE SafeContents(Body(x, c.n), acc, pw, e))
  ELSE IF c.t = Pkcs7(6) THEN
    LET s == Items(x, c.n) IN
    IF c.n.tag # 48 \/ s.st = "bad" THEN Deny
    ELSE IF s.st # "ok" THEN Maybe
    ELSE IF Len(s.l) # 2 \/ s.l[1].tag # 2 \/ s.l[2].tag # 48 THEN Maybe
    ELSE LET q == Items(x, s.l[2]) IN
         IF q.st = "bad" THEN Deny
         ELSE IF q.st # "ok" \/ Len(q.l) # 3 THEN Maybe
         ELSE LET alg == Raw(x, q.l[2])  u == Unblob(e.blobs, alg, Body(x, q.l[3]), pw) IN
              IF u.v = "bad" THEN Deny ELSE IF u.v = "unk" THEN [acc EXCEPT !.v = "unk"] ELSE SafeContents(u.o, acc, pw, e)
  ELSE IF e.other = 1 THEN acc ELSE [acc EXCEPT !.v = "unk"]
P12Safes(x, l, acc, pw, e) ==
  IF l = << >> THEN acc
  ELSE LET a == P12Safe(x, l[1], acc, pw, e) IN
       IF a.v = "bad" THEN Deny
       ELSE LET b == P12Safes(x, Tail(l), IF a.v = "unk" THEN [acc EXCEPT !.v = "unk"] ELSE a, pw, e) IN
            IF b.v = "bad" THEN Deny ELSE IF a.v = "unk" THEN Maybe ELSE b
\* e: [good, blobs, other]
ReadP12(x, pw, e) ==
  LET n == Elem(x, 1, Len(x)) IN
  IF n.st # "ok" THEN (IF n.st = "bad" THEN Deny ELSE Maybe)
  ELSE IF n.tag # 48 THEN Deny
  ELSE LET it == Items(x, n) IN
  IF it.st # "ok" THEN (IF it.st = "bad" THEN Deny ELSE Maybe)
  ELSE IF Len(it.l) # 3 \/ it.l[1].tag # 2 \/ it.l[2].tag # 48 \/ it.l[3].tag # 48 THEN Deny     \* no MAC: refused
  ELSE LET c == Content(x, it.l[2])
           m == Items(x, it.l[3])
           u == Utf16(pw)
       IN
  IF c.st = "bad" \/ m.st = "bad" THEN Deny
  ELSE IF c.st # "ok" \/ m.st # "ok" THEN Maybe
  ELSE IF c.t # Pkcs7(1) \/ c.n.tag # 4 THEN Deny
  ELSE IF Len(m.l) \notin {2, 3} \/ m.l[1].tag # 48 \/ m.l[2].tag # 4 \/ (Len(m.l) = 3 /\ m.l[3].tag # 2) THEN Deny
  ELSE LET d == Items(x, m.l[1])
           iter == IF Len(m.l) = 3 THEN IntOf(Body(x, m.l[3])) ELSE [ok |-> TRUE, neg |-> FALSE, v |-> BOne]
           body == Body(x, c.n)
       IN
  IF d.st = "bad" \/ ~iter.ok THEN Deny
  ELSE IF d.st # "ok" \/ iter.neg \/ NumBits(iter.v) > 16 \/ iter.v = BZero \/ ~u.ok \/ pw = << >> THEN Maybe
  ELSE IF Len(d.l) # 2 \/ d.l[1].tag # 48 \/ d.l[2].tag # 4 THEN Deny
  ELSE LET al == Items(x, d.l[1]) IN
  IF al.st # "ok" THEN Maybe
  ELSE IF al.l = << >> \/ al.l[1].tag # 6 THEN Deny
  ELSE IF Body(x, al.l[1]) \notin {Sha1Oid, DigestOid} THEN Maybe
  ELSE IF Body(x, d.l[2]) # P12Mac(Body(x, al.l[1]), u.o \o << 0, 0 >>, Body(x, m.l[2]), NatOf(iter.v), body) THEN Deny
  ELSE LET s == Elem(body, 1, Len(body)) IN
  IF s.st # "ok" THEN (IF s.st = "bad" THEN Deny ELSE Maybe)
  ELSE IF s.tag # 48 THEN Loose(s.tag, 48)
  ELSE LET sl == Items(body, s) IN
  IF sl.st # "ok" THEN (IF sl.st = "bad" THEN Deny ELSE Maybe)
  ELSE LET r == P12Safes(body, sl.l, P12Start, pw, e) IN
       IF r.v # "ok" THEN r
       ELSE IF r.keys = { << >> } /\ r.certs = << >> THEN Deny
       \* other = 2: the maker does not vouch for the parts not looked at here
       ELSE [r EXCEPT !.full = @ /\ e.other # 2 /\ n.e = Len(x) /\ Len(al.l) = 2 /\ al.l[2].tag = 5 /\ al.l[2].e < al.l[2].b]
=============================================================================
