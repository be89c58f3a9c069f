-------------------------------- MODULE Make --------------------------------
(***************************************************************************)
(* Parts of containers that need the algorithms, made from the             *)
(* specification: each line of the input is a request.                     *)
(***************************************************************************)
EXTENDS TraceBase, Stores
VARIABLE i
Init == i = 1
Out(e) ==
  CASE e.op = "key6" -> LET key == TLCEval(Key6Kdf(e.pw, e.rounds)) IN [j \in 1..Len(e.plain) |-> EcbEnc(key, e.plain[j], 1, << >>)]
    [] e.op = "mac" -> << P12Mac(e.hash, Utf16(e.pw).o \o << 0, 0 >>, e.salt, e.iter, e.body) >>
    [] e.op = "pbe" -> << PbeAlg(e.salt, e.iter, e.iv, e.sb), PbeSeal(e.pw, e.salt, e.iter, e.iv, e.sb, e.plain) >>
    [] e.op = "sign" -> LET k == ParsePriv(e.priv).key  s == SignWith(k.cv, k.d, Hash(IF e.own = 1 THEN k.sb ELSE DefaultSbox, e.msg), BigLe(e.nonce))
                        IN IF s.ok THEN << SigDer(k.cv, k.le, s.r, s.s) >> ELSE << << >> >>
    [] e.op = "hash" -> << Hash(IF Len(e.sb) = 64 THEN e.sb ELSE DefaultSbox, e.msg) >>
    [] e.op = "cfb" -> << CfbRun(1, e.sb, e.key, e.iv, e.plain) >>
Next == i <= Len(Tr) /\ i' = i + 1 /\ Say([k |-> "out", i |-> i, out |-> Out(Tr[i])])
End == Finish(i)
=============================================================================
