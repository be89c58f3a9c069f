----------------------------- MODULE TraceLife ------------------------------
(***************************************************************************)
(* Recorded sessions of the engine's life.  Whatever was found must be the *)
(* advertised algorithm and compute its function; after the engine is      *)
(* loaded every lookup that has to succeed does.                           *)
(***************************************************************************)
EXTENDS TraceBase, KeyCodec, FiniteSets
VARIABLES i, st
XorOct(a, b) == a ^^ b
NoParse(x) == [ok |-> FALSE]
NoDer(v, t) == << >>
CS == INSTANCE CipherSpec WITH B <- 8, BlockEnc <- GostEnc, XorOctet <- XorOct, DefaultTable <- DefaultSbox, TableSize <- 64,
                               ZeroIv <- << 0,0,0,0,0,0,0,0 >>, ParamDer <- NoDer, ParamParse <- NoParse
Keyed(enc, key, iv) == CS!Restart([CS!Setup(enc) EXCEPT !.key = key, !.iv = iv, !.ivset = TRUE])
Fresh == [loaded |-> FALSE, reg |-> {}, md |-> [s \in 0..7 |-> << >>], ci |-> [s \in 0..7 |-> << >>], key |-> [s \in 0..7 |-> << >>], rnd |-> {}]
Has(r, f) == f \in DOMAIN r
\* what a found digest or cipher says of itself
MdFacts(r) == r.size = 32 /\ r.block = 32 /\ r.type = 1 /\ r.nm = 1
CiFacts(r) == r.key = 32 /\ r.iv = 8 /\ r.block = 1 /\ r.mode = 1 /\ r.type = 1
\* must a lookup succeed, and may it
Kinds == {"md", "ci", "pk", "asn1"}
Named(v) == CASE v = "ALL" -> Kinds [] v = "DIGESTS" -> {"md"} [] v = "CIPHERS" -> {"ci"} [] v = "PKEY" -> {"pk", "asn1"}
              [] v = "PKEY_CRYPTO" -> {"pk"} [] v = "PKEY_ASN1" -> {"asn1"} [] v = "RAND" -> {}
MustFind(how, k) == st.loaded /\ (how = "t" => k \in st.reg)
MayFind == st.loaded
\* keys find their encodings by the lookup table only, whatever engine the caller names
Works(eng) == st.loaded /\ "asn1" \in st.reg /\ (eng = 1 \/ "pk" \in st.reg)
LookOk(r) == /\ r.id = 1 /\ r.name = 1 /\ r.nd = 1 /\ r.d0 = 1 /\ r.nc = 1 /\ r.c0 = 1 /\ r.np = 2 /\ r.p0 = 1 /\ r.na = 2 /\ r.a0 = 1
             /\ r.rand = 1 /\ r.other = 0 /\ r.ple = 1 /\ r.pbe = 1 /\ r.ale = 1 /\ r.abe = 1 /\ r.sle = 1 /\ r.sxx = 1
SigGood(k, h, out) ==
  LET w == OrderBytes(k.cv)  body == SubSeq(out, 3, Len(out))  be == IF k.le THEN Rev(body) ELSE body
  IN Len(out) = 2 + 2*w /\ out[1] = 4 /\ out[2] = 2*w /\ ValidPair(k.cv, k.Q, h, BigBe(SubSeq(be, w+1, 2*w)), BigBe(SubSeq(be, 1, w)))
\* the judgement: [ok, st]
J(ok, s) == [ok |-> ok, st |-> s]
Step(e) ==
  LET r == e.res IN
  IF Has(r, "crash") THEN J(FALSE, st)
  ELSE
  CASE e.op \in {"libinit", "init", "finish", "free", "up", "mfree", "cfree", "kfree", "unconf", "cleanup"} -> J(r.ok = 1, st)
    [] e.op = "default" -> J(r.ok = 1, [st EXCEPT !.reg = @ \cup Named(e.v)])
    [] e.op = "register" -> J(r.ok = 1, [st EXCEPT !.reg = Kinds])
    [] e.op = "undefault" -> J(r.ok = 1, [st EXCEPT !.reg = {}])
    [] e.op = "byid" -> J(r.ok = 1 /\ r.same = 1, IF st.loaded THEN st ELSE [st EXCEPT !.loaded = TRUE, !.reg = Kinds])
    [] e.op = "dyn" -> J(TRUE, st)                 \* a second load is OpenSSL's to refuse
    [] e.op = "conf" -> J(st.loaded \/ r.ok = 1, IF st.loaded THEN st ELSE [st EXCEPT !.loaded = TRUE, !.reg = Kinds])
    [] e.op = "look" -> J(LookOk(r), st)
    [] e.op = "md" -> J(IF r.found = 1 THEN MayFind /\ MdFacts(r) /\ r.ok = 1 /\ r.out = Hash(DefaultSbox, e.data) ELSE ~MustFind(e.how, "md"), st)
    [] e.op = "ci" -> J(IF r.found = 1 THEN MayFind /\ CiFacts(r) /\ r.ok = 1 /\ r.out = CS!Stream(Keyed(e.enc, e.key, e.iv), e.data, << >>).out
                        ELSE ~MustFind(e.how, "ci"), st)
    [] e.op = "mopen" -> J(MustFind(e.how, "md") => r.ok = 1, [st EXCEPT !.md[e.s] = IF r.ok = 1 THEN << << >> >> ELSE << >>])
    [] e.op = "mupd" -> IF st.md[e.s] = << >> THEN J(TRUE, st) ELSE J(r.ok = 1, [st EXCEPT !.md[e.s] = << @[1] \o e.data >>])
    [] e.op = "mfin" -> IF st.md[e.s] = << >> THEN J(TRUE, st)
                        ELSE J(r.ok = 1 /\ r.out = Hash(DefaultSbox, st.md[e.s][1]), [st EXCEPT !.md[e.s] = << >>])
    [] e.op = "copen" -> J(MustFind(e.how, "ci") => r.ok = 1, [st EXCEPT !.ci[e.s] = IF r.ok = 1 THEN << Keyed(1, e.key, e.iv) >> ELSE << >>])
    [] e.op = "cupd" -> IF st.ci[e.s] = << >> THEN J(TRUE, st)
                        ELSE LET x == CS!Stream(st.ci[e.s][1], e.data, << >>) IN J(r.ok = 1 /\ r.out = x.out, [st EXCEPT !.ci[e.s] = << x.c >>])
    [] e.op = "load" -> LET p == ParsePriv(e.der) IN
                        IF r.ok # 1 THEN J(~Works(0), [st EXCEPT !.key[e.s] = << >>])
                        ELSE J(st.loaded /\ r.pub = PubDer(p.key), [st EXCEPT !.key[e.s] = << p.key >>])
    \* what the engine refuses, it refuses with errors that have their texts
    [] e.op = "err" -> J(r.ok = 0 /\ (Works(0) => r.n > 0 /\ r.named = r.n), st)
    [] e.op = "gen" -> IF r.ok # 1 THEN J(~Works(e.eng), [st EXCEPT !.key[e.s] = << >>])
                       ELSE LET p == ParsePub(r.pub) IN J(st.loaded /\ p.v = "ok" /\ p.full /\ p.key.cv = NamedCurve[1] /\ p.key.le = (e.le = 1),
                                                          [st EXCEPT !.key[e.s] = IF p.v = "ok" THEN << p.key >> ELSE << >>])
    [] e.op = "sv" -> IF st.key[e.s] = << >> THEN J(TRUE, st)
                      ELSE IF r.ok # 1 THEN J(~Works(e.eng), st)
                      ELSE J((r.v = 1 \/ ~Works(e.eng)) /\ SigGood(st.key[e.s][1], e.hash, r.sig), st)
    [] e.op = "rand" -> IF e.how = "e" /\ ~st.loaded THEN J(r.ok = 0, st)
                        ELSE J(r.ok = 1 /\ r.st = 1 /\ r.out \notin st.rnd, [st EXCEPT !.rnd = @ \cup {r.out}])
    [] e.op = "setrand" -> J(r.ok = 1, st)
    [] e.op = "skip" -> J(TRUE, st)
Init == i = 1 /\ st = Fresh
Next == /\ i <= Len(Tr) /\ i' = i + 1
        /\ IF Tr[i].op = "begin" THEN st' = Fresh
           ELSE \E r \in {Step(Tr[i])} : Judge(i, r.ok, [want |-> Tr[i].op]) /\ st' = r.st
End == Finish(i)
=============================================================================
