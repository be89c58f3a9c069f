---------------------------- MODULE TraceLedger -----------------------------
(***************************************************************************)
(* Recorded rounds of operations.  A round is repeated in one process; at  *)
(* its end the caller has given back all handles and the number of live    *)
(* allocations is recorded.  The first rounds may fill caches; from then   *)
(* on, the number with no object alive is always the same.                 *)
(***************************************************************************)
EXTENDS TraceBase, LedgerSpec
VARIABLES i, st, base, c
H == 0..127
None == [h |-> [x \in H |-> 0], up |-> << >>, n |-> 0]
Has(r, f) == f \in DOMAIN r
Init == i = 1 /\ st = None /\ base = << >> /\ c = 0
Begin == Tr[i].op = "begin" /\ st' = None /\ base' = << >> /\ c' = 0
Count ==
  /\ Tr[i].op = "count"
  /\ LET e == Tr[i]  r == e.res IN
     IF Has(r, "crash") THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED << st, base, c >>
     ELSE /\ c' = c + 1 /\ st' = None
          /\ IF Alive(st) # {} THEN Judge(i, FALSE, [want |-> "a round that gives everything back"]) /\ base' = base
             ELSE IF c < e.warm THEN base' = << r.live >>
             ELSE Judge(i, r.live = base[1], [live |-> base[1], alive |-> Alive(st)]) /\ base' = base
Op ==
  /\ Tr[i].op \notin {"begin", "count"}
  /\ LET e == Tr[i]  r == e.res IN
     IF Has(r, "crash") THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED << st, base, c >>
     ELSE /\ Judge(i, CanDo(st, e), [want |-> "an operation on live objects"])
          /\ st' = IF CanDo(st, e) THEN Apply(st, e, r.ok, IF Has(r, "parts") THEN r.parts ELSE 0) ELSE st
          /\ UNCHANGED << base, c >>
Next == i <= Len(Tr) /\ i' = i + 1 /\ (Begin \/ Count \/ Op)
End == Finish(i)
=============================================================================
