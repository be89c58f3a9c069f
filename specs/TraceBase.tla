----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading a recorded session (one JSON event per line, octet strings as   *)
(* arrays) and reporting the events whose recorded result is not the one   *)
(* the specification allows.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
\* every field the specification fixes must be recorded with that value
Agrees(exp, got) == \A f \in DOMAIN exp : f \in DOMAIN got /\ got[f] = exp[f]
Say(rec) == PrintT("@@" \o ToJson(rec))
Judge(i, ok, exp) == IF ok THEN TRUE ELSE Say([k |-> "mismatch", i |-> i, exp |-> exp])
Finish(i) == i = Len(Tr) + 1 => Say([k |-> "done", n |-> Len(Tr)])
=============================================================================
