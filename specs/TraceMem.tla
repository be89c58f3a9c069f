------------------------------ MODULE TraceMem ------------------------------
(***************************************************************************)
(* Recorded attempts at operations with some of the memory they ask for    *)
(* refused.  "plain": the operation with ample memory: its result and what *)
(* using the product shows; the allocations then live.  "try": the same    *)
(* with the requests from number at on refused, n of them; if it refused,  *)
(* it was asked again.  The allocations live afterwards are recorded in    *)
(* lives: if they are not those of before, a cache may have been filled,   *)
(* and the attempt was made a second time, which must change nothing.      *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets
M == INSTANCE MemSpec WITH Kinds <- {}, MaxLen <- 0, MaxTries <- 0, Bug <- "none",
       prog <- << >>, pc <- 1, held <- {}, old <- {}, out <- "run", tries <- 0, used <- FALSE
VARIABLES i, pl, base
Has(r, f) == f \in DOMAIN r
Set(q) == {q[j] : j \in DOMAIN q}
None == [outs |-> {}, uses |-> {}]
Init == i = 1 /\ pl = None /\ base = 0
Begin == Tr[i].op = "begin" /\ pl' = None /\ base' = 0
Crashed(e) == Has(e.res, "crash")
Plain ==
  /\ Tr[i].op = "plain"
  /\ LET e == Tr[i]  r == e.res IN
     IF Crashed(e) THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED << pl, base >>
     ELSE /\ Judge(i, r.ok = 1, [want |-> "done"])
          /\ pl' = [outs |-> Set(r.outs), uses |-> Set(r.uses)] /\ base' = r.live
Try ==
  /\ Tr[i].op = "try"
  /\ LET e == Tr[i]  r == e.res  l == r.lives  n == Len(l) IN
     IF Crashed(e) THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED << pl, base >>
     ELSE /\ Judge(i, /\ M!Agree([outs |-> pl.outs, uses |-> pl.uses, live |-> l[n]], [hit |-> r.hit, ok |-> r.ok, out |-> r.out, again |-> r.again, use |-> r.use, live |-> l[n]])
                      /\ \/ n = 1 /\ l[1] = base
                         \/ n > 1 /\ l[n] = l[n - 1],
                   [outs |-> pl.outs, uses |-> pl.uses, base |-> base])
          /\ base' = l[n] /\ pl' = pl
Next == i <= Len(Tr) /\ i' = i + 1 /\ (Begin \/ Plain \/ Try)
End == Finish(i)
=============================================================================
