------------------------------ MODULE RbgSpec -------------------------------
(***************************************************************************)
(* The shared generator among threads and processes.  The stream of a      *)
(* seeding is abstract: unit number pos of epoch e is the pair <<e, pos>>. *)
(* A request takes the lock, seeds if nobody did in this process since the *)
(* last cleanup, delivers its units one after another and lets go.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Threads, Sizes, MaxReq, MaxEpoch, MaxClean
VARIABLES gen,      \* per process: [seeded, epoch, pos, owner]
          alive, lock, pc, left, got, epochs, done, reqs, cleans
vars == << gen, alive, lock, pc, left, got, epochs, done, reqs, cleans >>
Free == "free"
Blank == [seeded |-> FALSE, epoch |-> 0, pos |-> 0, owner |-> 0]
PT == Procs \X Threads
Init == /\ gen = [p \in Procs |-> Blank] /\ alive = {1} /\ lock = [p \in Procs |-> Free]
        /\ pc = [x \in PT |-> "idle"] /\ left = [x \in PT |-> 0] /\ got = [x \in PT |-> << >>]
        /\ epochs = 0 /\ done = {} /\ reqs = 0 /\ cleans = 0
Want(p, t, n) == /\ p \in alive /\ pc[<<p, t>>] = "idle" /\ reqs < MaxReq
                 /\ pc' = [pc EXCEPT ![<<p, t>>] = "want"] /\ left' = [left EXCEPT ![<<p, t>>] = n]
                 /\ got' = [got EXCEPT ![<<p, t>>] = << >>] /\ reqs' = reqs + 1
                 /\ UNCHANGED << gen, alive, lock, epochs, done, cleans >>
Take(p, t) == /\ pc[<<p, t>>] = "want" /\ lock[p] = Free
              /\ lock' = [lock EXCEPT ![p] = t]
              /\ pc' = [pc EXCEPT ![<<p, t>>] = IF gen[p].seeded /\ gen[p].owner = p THEN "run" ELSE "seed"]
              /\ UNCHANGED << gen, alive, left, got, epochs, done, reqs, cleans >>
SeedOk(p, t) == /\ pc[<<p, t>>] = "seed" /\ epochs < MaxEpoch
                /\ epochs' = epochs + 1
                /\ gen' = [gen EXCEPT ![p] = [seeded |-> TRUE, epoch |-> epochs + 1, pos |-> 0, owner |-> p]]
                /\ pc' = [pc EXCEPT ![<<p, t>>] = "run"] /\ UNCHANGED << alive, lock, left, got, done, reqs, cleans >>
SeedBad(p, t) == /\ pc[<<p, t>>] = "seed" /\ lock' = [lock EXCEPT ![p] = Free]
                 /\ pc' = [pc EXCEPT ![<<p, t>>] = "idle"] /\ done' = done \cup {[who |-> <<p, t>>, no |-> reqs, ok |-> FALSE, units |-> << >>]}
                 /\ UNCHANGED << gen, alive, left, got, epochs, reqs, cleans >>
Unit(p, t) == /\ pc[<<p, t>>] = "run" /\ left[<<p, t>>] > 0
              /\ got' = [got EXCEPT ![<<p, t>>] = Append(@, << gen[p].epoch, gen[p].pos >>)]
              /\ gen' = [gen EXCEPT ![p].pos = @ + 1] /\ left' = [left EXCEPT ![<<p, t>>] = @ - 1]
              /\ UNCHANGED << alive, lock, pc, epochs, done, reqs, cleans >>
LetGo(p, t) == /\ pc[<<p, t>>] = "run" /\ left[<<p, t>>] = 0
               /\ lock' = [lock EXCEPT ![p] = Free] /\ pc' = [pc EXCEPT ![<<p, t>>] = "idle"]
               /\ done' = done \cup {[who |-> <<p, t>>, no |-> reqs, ok |-> TRUE, units |-> got[<<p, t>>]]}
               /\ UNCHANGED << gen, alive, left, got, epochs, reqs, cleans >>
Cleanup(p) == /\ p \in alive /\ lock[p] = Free /\ cleans < MaxClean /\ cleans' = cleans + 1
              /\ gen' = [gen EXCEPT ![p] = Blank] /\ UNCHANGED << alive, lock, pc, left, got, epochs, done, reqs >>
\* the child has a copy of the generator and one thread
Fork(p, q) == /\ p \in alive /\ q \in Procs \ alive /\ lock[p] = Free
              /\ alive' = alive \cup {q} /\ gen' = [gen EXCEPT ![q] = gen[p]]
              /\ UNCHANGED << lock, pc, left, got, epochs, done, reqs, cleans >>
Next == \/ \E p \in Procs, t \in Threads : \/ \E n \in Sizes : Want(p, t, n)
                                           \/ Take(p, t) \/ SeedOk(p, t) \/ SeedBad(p, t) \/ Unit(p, t) \/ LetGo(p, t)
        \/ \E p \in Procs : Cleanup(p)
        \/ \E p, q \in Procs : Fork(p, q)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs, t \in Threads : SF_vars(Take(p, t)) /\ WF_vars(SeedBad(p, t)) /\ WF_vars(Unit(p, t)) /\ WF_vars(LetGo(p, t))

Units(u) == { u[j] : j \in 1..Len(u) }
AllGot == { <<x, got[x]>> : x \in { y \in PT : pc[y] = "run" } }
\* nothing is delivered twice, in this or another process
Disjoint == /\ \A a, b \in done : a # b => Units(a.units) \cap Units(b.units) = {}
            /\ \A a \in done, b \in AllGot : Units(a.units) \cap Units(b[2]) = {}
\* a request gets consecutive units of one stream
Consecutive == \A a \in done : \A j \in 1..(Len(a.units) - 1) : a.units[j+1] = << a.units[j][1], a.units[j][2] + 1 >>
\* no unit is skipped: those of an epoch are 0..k
NoGap == LET all == UNION { Units(a.units) : a \in done } \cup UNION { Units(b[2]) : b \in AllGot }
         IN \A u \in all : u[2] > 0 => << u[1], u[2] - 1 >> \in all
FailNothing == \A a \in done : a.ok \/ a.units = << >>
OneIn == \A p \in Procs : Cardinality({ t \in Threads : pc[<<p, t>>] \in {"seed", "run"} }) <= 1
\* a request does not wait for ever
Served == \A p \in Procs, t \in Threads : pc[<<p, t>>] = "want" ~> pc[<<p, t>>] = "idle"
=============================================================================
