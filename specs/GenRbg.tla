------------------------------- MODULE GenRbg -------------------------------
(***************************************************************************)
(* Sequences of calls on the generator, for the replay: requests of many   *)
(* sizes, status and seed calls, cleanups, failing and recovering sources, *)
(* clock changes, forks.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Hard           \* Hard: with cleanups, failures and forks
VARIABLES mode, hist, fin
Init == mode = 0 /\ hist = << >> /\ fin = FALSE
Add(e) == hist' = Append(hist, e)
Call == /\ Len(hist) < D /\ UNCHANGED fin
        /\ \/ \E n \in {0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 64, 100, 200, 257}, h \in {"m", "p", "R", "P"} : Add([op |-> "get", n |-> n, how |-> h]) /\ mode' = mode
           \/ \E o \in {"status", "add", "seed", "time"} : Add([op |-> o]) /\ mode' = mode
           \/ Hard /\ Add([op |-> "clean"]) /\ mode' = mode
           \/ \E m \in {0, 1, 2} : Hard /\ m # mode /\ mode' = m /\ Add([op |-> "mode", v |-> m])
           \/ \E n2 \in {0, 40} : Hard /\ Add([op |-> "fork", n2 |-> n2]) /\ mode' = mode
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << mode, hist >>
Next == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
