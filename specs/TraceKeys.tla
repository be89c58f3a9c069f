----------------------------- MODULE TraceKeys -----------------------------
(***************************************************************************)
(* Recorded sessions with keys: loading, comparing, signing, verifying.    *)
(* The judgement of an event is a relation between what was asked and what *)
(* was recorded, given the keys loaded so far.                             *)
(***************************************************************************)
EXTENDS TraceBase, KeyEq, KeyText, FiniteSets
VARIABLES i, st, kc, xq
Absent == [there |-> FALSE]
There(k) == [there |-> TRUE, key |-> k]
Fresh == [s \in 0..63 |-> Absent]

\* ---- key generation contexts
UaCurve == << 117, 97, 99, 117, 114, 118, 101 >>          \* "uacurve"
CurveNamed(v) == IF Len(v) = 8 /\ SubSeq(v, 1, 7) = UaCurve /\ v[8] \in 48..57 THEN { NamedCurve[v[8] - 47] } ELSE {}
HexVal(o) == IF o \in 48..57 THEN o - 48 ELSE IF o \in 65..70 THEN o - 55 ELSE IF o \in 97..102 THEN o - 87 ELSE 99
TableNamed(v) == IF Len(v) = 128 /\ \A j \in 1..128 : HexVal(v[j]) < 16
                 THEN { [j \in 1..64 |-> 16 * HexVal(v[2*j-1]) + HexVal(v[2*j])] } ELSE {}
AllZero(v) == \A j \in 1..Len(v) : v[j] = 48            \* not a usable table
KG == INSTANCE KeygenSpec WITH DefaultCurve <- NamedCurve[7], DefaultTable <- DefaultSbox,
                               CurveOf <- CurveNamed, TableOf <- TableNamed, Lax <- AllZero
NoCtx == [s \in 0..15 |-> KG!None]
Range(f) == { f[j] : j \in DOMAIN f }

Has(r, f) == f \in DOMAIN r
\* ---- signing and verifying contexts
TableOfKey(k) == k.sb
SX == INSTANCE SignSpec WITH KeyTable <- TableOfKey
NoXQ == [x |-> [s \in 0..7 |-> SX!NoX], q |-> [s \in 0..7 |-> SX!NoQ]]
Accepted(r) == Has(r, "ok") /\ r.ok = 1 /\ r.le + r.be = 1
Parse(e) == CASE e.kind = "pub" -> ParsePub(e.der)
              [] e.kind = "priv" -> ParsePriv(e.der)
              [] e.kind = "par" -> ParsePar(e.der, e.le = 1)
LoadOk(p, r) ==
  IF Has(r, "crash") THEN FALSE
  ELSE CASE p.v = "bad" -> ~Accepted(r)
         [] p.v = "unk" -> Accepted(r) => ShowsSome(r) /\ r.again = 1
         [] p.v = "ok" -> IF p.full THEN Accepted(r) /\ Shows(p.key, r) /\ r.again = 1
                          ELSE Accepted(r) => Shows(p.key, r) /\ r.again = 1
\* the key a slot holds afterwards; keys that were not followed are not used further
Loaded(p, r) == IF ~Has(r, "crash") /\ p.v = "ok" /\ Accepted(r) THEN There(p.key) ELSE Absent

HashOf(k, m) == Hash(k.sb, m)
SigGood(k, h, out) ==
  LET w == OrderBytes(k.cv)
      body == SubSeq(out, 3, Len(out))
      be == IF k.le THEN Rev(body) ELSE body
  IN /\ Len(out) = 2 + 2*w /\ out[1] = 4 /\ out[2] = 2*w
     /\ ValidPair(k.cv, k.Q, h, BigBe(SubSeq(be, w+1, 2*w)), BigBe(SubSeq(be, 1, w)))

\* nonces of recorded signatures, for C19
SigPair(k, out) ==
  LET w == OrderBytes(k.cv)  body == SubSeq(out, 3, Len(out))  be == IF k.le THEN Rev(body) ELSE body
  IN [r |-> BigBe(SubSeq(be, w+1, 2*w)), s |-> BigBe(SubSeq(be, 1, w))]

\* what the random source does during an event
Source(e) == IF Has(e, "rnd") THEN e.rnd ELSE "ok"
\* n signatures of one hash on a small curve: every usable nonce occurs, equally often within
\* wide bounds (more than six standard deviations)
Uniform(k, h, n, out) ==
  LET size == SigSize(k.cv)
      order == NatOf(k.cv.n)
      sigs == TLCEval([j \in 1..n |-> SubSeq(out, (j-1)*size + 1, j*size)])
      able == TLCEval({ v \in 1..(order-1) : SignWith(k.cv, k.d, h, BigOf(v)).ok })
      der == TLCEval([v \in able |-> LET s == SignWith(k.cv, k.d, h, BigOf(v)) IN SigDer(k.cv, k.le, s.r, s.s)])
      ders == TLCEval(Range(der))
      exp == n \div Cardinality(able)
      cnt == TLCEval([v \in able |-> Cardinality({ j \in 1..n : sigs[j] = der[v] })])
  IN /\ Len(out) = n * size
     /\ \A v \in able : 10 * cnt[v] > 6 * exp /\ 10 * cnt[v] < 15 * exp
     /\ \A j \in 1..n : sigs[j] \in ders
\* signatures by keys given with their private values: nonces in range, all different (also up to
\* sign), on each curve no bit fixed and about as many above half of the order as below
NonceAt(x) == LET k == x.key  p == SigPair(k, x.sig) IN NonceOf(k.cv, k.d, p.r, p.s)
Spread(e) ==
  LET L == Len(e.sigs)
      P == TLCEval([j \in 1..Len(e.keys) |-> ParsePriv(e.keys[j]).key])
      es == TLCEval([j \in 1..L |-> NonceAt([key |-> P[e.sigs[j].k], sig |-> e.sigs[j].sig])])
      cvOf(j) == P[e.sigs[j].k].cv
      curves == { P[j].cv : j \in 1..Len(e.keys) }
  IN /\ \A j \in 1..L : es[j] # BZero /\ BCmp(es[j], cvOf(j).n) < 0
     /\ Cardinality(Range(es) \cup { BSub(cvOf(j).n, es[j]) : j \in 1..L }) = 2 * L
     /\ \A cv \in curves :
          LET I == TLCEval({ j \in 1..L : cvOf(j) = cv })
              hi == Cardinality({ j \in I : BCmp(BAdd(es[j], es[j]), cv.n) > 0 })
          IN Cardinality(I) >= 90 =>
             /\ \A b \in 0..(NumBits(cv.n) - 2) : { BBit(es[j], b) : j \in I } = {0, 1}
             /\ 4 * hi > Cardinality(I) /\ 4 * hi < 3 * Cardinality(I)
Ok(e) ==
  LET r == e.res IN
  IF Has(r, "crash") THEN FALSE
  ELSE
  CASE e.op = "begin" -> TRUE
    [] e.op = "load" -> TRUE                       \* judged in Event, parse shared
    [] e.op = "free" -> r.ok = 1
    [] e.op \in {"cmp", "pcmp", "copyp"} /\ ~(st[e.s].there /\ st[e.t].there) -> TRUE      \* a key that was not followed
    [] e.op = "cmp" -> r.r \in CmpWant(st[e.s].key, st[e.t].key) \cup (IF e.s = e.t THEN {1} ELSE {})
    [] e.op = "pcmp" -> r.r \in PCmpWant(st[e.s].key, st[e.t].key)
    [] e.op = "sign" ->
         LET k == st[e.s].key  sz == SigSize(k.cv) IN
         IF e.buf = -1 THEN r.ok = 1 /\ r.n = sz
         ELSE IF ~k.hasD \/ (e.buf >= 0 /\ e.buf < sz) THEN r.ok = 0 /\ r.over = 0
         ELSE IF e.hash = << >> THEN r.ok = 0
         ELSE IF r.ok # 1 THEN Source(e) # "ok"
         ELSE Source(e) # "fail" /\ r.over = 0 /\ r.n = Len(r.out) /\ SigGood(k, e.hash, r.out)
    [] e.op = "many" -> r.bad = 0 /\ Uniform(st[e.s].key, e.hash, e.n, r.out)
    [] e.op = "nonces" -> Spread(e)
    [] e.op = "verify" ->
         LET k == st[e.s].key IN
         r.ok = (IF k.hasQ /\ e.hash # << >> /\ Verifies(k.cv, k.le, k.Q, e.hash, e.sig) THEN 1 ELSE 0)
    [] e.op = "dsign" ->
         LET k == st[e.s].key IN IF ~k.hasD THEN r.ok = 0
                                 ELSE IF r.ok # 1 THEN Source(e) # "ok"
                                 ELSE Source(e) # "fail" /\ SigGood(k, HashOf(k, e.msg), r.out)
    [] e.op = "dverify" ->
         LET k == st[e.s].key IN
         r.ok = (IF k.hasQ /\ Verifies(k.cv, k.le, k.Q, HashOf(k, e.msg), e.sig) THEN 1 ELSE 0)
    [] e.op = "show" -> Shows(st[e.s].key, r)
    [] e.op = "text" -> TextGood(st[e.s].key, e.what, r)
    [] e.op = "cut" -> r.ok = 0                     \* nowhere to print to: refused (and nothing else, as the next show tells)
    [] e.op = "copyp" ->                            \* parameters of t onto s, which has its own
         r.ok = (IF 1 \in PCmpWant(st[e.s].key, st[e.t].key) THEN 1 ELSE 0)
    [] e.op = "nop" -> TRUE
    \* values drawn: all of 1..n-1 (small n), or all different
    [] e.op = "drawn" -> IF e.all > 0 THEN { BigLe(v) : v \in Range(e.ds) } = { BigOf(v) : v \in 1..(e.all - 1) }
                         ELSE Cardinality(Range(e.ds)) = Len(e.ds)

After(e) ==
  CASE e.op = "begin" -> Fresh
    [] e.op = "free" -> [st EXCEPT ![e.s] = Absent]
    [] OTHER -> st
Delivers(e, r, a) ==
  CASE a.what = "sign" -> IF ~a.key.hasD THEN r.ok = 0
                          ELSE r.ok = 1 /\ (Has(r, "size") => r.size = SigSize(a.key.cv)) /\ SigGood(a.key, Hash(a.tab, a.msg), r.out)
    [] a.what = "verify" -> r.ok = (IF a.key.hasQ /\ Verifies(a.key.cv, a.key.le, a.key.Q, Hash(a.tab, a.msg), e.sig) THEN 1 ELSE 0)
    [] a.what = "signhash" -> IF ~a.key.hasD \/ e.hash = << >> THEN r.ok = 0 ELSE r.ok = 1 /\ SigGood(a.key, e.hash, r.out)
    [] a.what = "verifyhash" -> r.ok = (IF a.key.hasQ /\ e.hash # << >> /\ Verifies(a.key.cv, a.key.le, a.key.Q, e.hash, e.sig) THEN 1 ELSE 0)
    [] a.what = "no" -> r.ok = 0
    [] a.what = "yes" -> r.ok = 1
XOps == SX!XOps \cup SX!QOps
Context ==
  /\ Tr[i].op \in XOps /\ UNCHANGED << st, kc >>
  /\ LET e == Tr[i]  key == IF Has(e, "k") THEN st[e.k].key ELSE << >> IN
     IF Has(e.res, "crash") THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED xq
     ELSE /\ Assert(SX!CanDo(xq, e, key), <<"event outside the protocol", i>>)
          /\ \E a \in {SX!Asked(xq, e)} :
               /\ Judge(i, Delivers(e, e.res, a), [want |-> a.what])
               /\ (a.what \in {"verify", "verifyhash"} /\ e.res.ok = 1) => Say([k |-> "note", i |-> i, verified |-> 1])
          /\ xq' = SX!Apply(xq, e, key)
Init == i = 1 /\ st = Fresh /\ kc = NoCtx /\ xq = NoXQ
KgOps == {"g_new", "g_init", "g_cstr", "g_sstr", "g_grp", "g_sbox", "g_other", "g_dup", "g_free", "g_gen"}
Event == /\ Tr[i].op \notin KgOps \cup XOps \cup {"load"}
         /\ Judge(i, IF Tr[i].op = "begin" THEN TRUE ELSE Ok(Tr[i]), [want |-> Tr[i].op])
         /\ st' = After(Tr[i]) /\ kc' = (IF Tr[i].op = "begin" THEN NoCtx ELSE kc) /\ xq' = (IF Tr[i].op = "begin" THEN NoXQ ELSE xq)
Load == /\ Tr[i].op = "load"
        /\ \E p \in {Parse(Tr[i])} :
             /\ Judge(i, LoadOk(p, Tr[i].res), [denotes |-> p.v, must |-> p.full])
             /\ Say([k |-> "note", i |-> i, denote_bad |-> IF p.v = "bad" THEN 1 ELSE 0, denote_key |-> IF p.v = "ok" THEN 1 ELSE 0,
                     not_followed |-> IF p.v = "unk" THEN 1 ELSE 0, must_accept |-> IF p.full THEN 1 ELSE 0])
             /\ st' = [st EXCEPT ![Tr[i].s] = Loaded(p, Tr[i].res)] /\ UNCHANGED << kc, xq >>
GenOk(e, r, p) ==
  /\ p.v = "ok" /\ p.full /\ Shows(p.key, r)
  /\ p.key.le = kc[e.s].le /\ p.key.cv = kc[e.s].cv /\ p.key.sb = kc[e.s].sb
Request ==
  /\ Tr[i].op \in KgOps /\ UNCHANGED xq
  /\ LET e == Tr[i]  r == e.res
     IN IF Has(r, "crash") THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED << st, kc >>
        ELSE /\ Assert(KG!CanDo(kc, e), <<"event outside the protocol", i>>)
             /\ \E a \in {KG!Apply(kc, e, r.ok)} :
                /\ kc' = a.kc
                /\ IF e.op # "g_gen" \/ r.ok = 0
                   THEN /\ Judge(i, r.ok \in (IF e.op = "g_gen" /\ e.rnd # "ok" THEN {0} ELSE a.ok), [want |-> a.ok]) /\ st' = st
                   ELSE \E p \in {ParsePriv(r.priv)} :
                        /\ Judge(i, a.ok = {1} /\ e.rnd # "fail" /\ GenOk(e, r, p), [want |-> a.ok, rnd |-> e.rnd])
                        /\ st' = [st EXCEPT ![e.k] = IF p.v = "ok" THEN There(p.key) ELSE Absent]
Next == i <= Len(Tr) /\ (Event \/ Load \/ Request \/ Context) /\ i' = i + 1
End == Finish(i)
=============================================================================
