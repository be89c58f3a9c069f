----------------------------- MODULE TraceRace -----------------------------
(***************************************************************************)
(* Pairs of accesses of different threads to the same memory, not ordered  *)
(* by any synchronisation, one of them a write, observed while sessions    *)
(* ran together.  In ThreadSpec with Scratch = FALSE the only variables    *)
(* that more than one thread writes are written under the lock, so there   *)
(* are no such pairs.                                                      *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLE i
Init == i = 1
Ok(e) == e.op = "begin" \/ ("crash" \notin DOMAIN e.res /\ e.res.conflicts = << >>)
Next == i <= Len(Tr) /\ Judge(i, Ok(Tr[i]), [conflicts |-> << >>]) /\ i' = i + 1
End == Finish(i)
=============================================================================
