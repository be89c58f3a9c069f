------------------------------ MODULE LifeSpec ------------------------------
(***************************************************************************)
(* The life of the engine.  OpenSSL keeps structural references (somebody  *)
(* knows the engine) and functional ones (somebody uses it); the engine is *)
(* told to finish when the last functional reference goes and is destroyed *)
(* when the last structural one does.  The algorithms it handed out are    *)
(* referenced by OpenSSL's name tables from the binding on, and by every   *)
(* context opened with them.                                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Ctx, MaxRef
VARIABLES loaded,   \* bound and on OpenSSL's list
          sref,     \* the caller's structural references
          fref,     \* the caller's functional references
          table,    \* registered for lookups
          dflt,     \* the default tables hold a functional reference
          ctx,      \* contexts: none | open
          algs,     \* the algorithm objects: none | live | freed
          names,    \* OpenSSL's name table refers to the algorithms
          texts,    \* the texts of the engine's errors are known
          finishes  \* times the engine was told to finish (mod 3)
vars == << loaded, sref, fref, table, dflt, ctx, algs, names, texts, finishes >>
Init == /\ loaded = FALSE /\ sref = 0 /\ fref = 0 /\ table = FALSE /\ dflt = FALSE
        /\ ctx = [x \in Ctx |-> "none"] /\ algs = "none" /\ names = FALSE /\ texts = FALSE /\ finishes = 0
Held == Cardinality({ x \in Ctx : ctx[x] = "open" })
Funct == fref + (IF dflt THEN 1 ELSE 0) + Held
\* every functional reference is a structural one as well, and the list has one
Struct == sref + Funct + (IF loaded THEN 1 ELSE 0)
Told(before, after) == finishes' = IF before > 0 /\ after = 0 THEN (finishes + 1) % 3 ELSE finishes
ById == /\ sref < MaxRef /\ sref' = sref + 1
        /\ loaded' = TRUE
        /\ IF loaded THEN UNCHANGED << table, algs, names, texts >>
           ELSE table' = TRUE /\ algs' = "live" /\ names' = TRUE /\ texts' = TRUE       \* binding
        /\ UNCHANGED << fref, dflt, ctx, finishes >>
Use == loaded /\ fref < MaxRef /\ fref' = fref + 1 /\ UNCHANGED << loaded, sref, table, dflt, ctx, algs, names, texts, finishes >>
Finish == fref > 0 /\ fref' = fref - 1 /\ Told(Funct, Funct - 1) /\ UNCHANGED << loaded, sref, table, dflt, ctx, algs, names, texts >>
Release == sref > 0 /\ sref' = sref - 1 /\ UNCHANGED << loaded, fref, table, dflt, ctx, algs, names, texts, finishes >>
Default == loaded /\ dflt' = TRUE /\ table' = TRUE /\ UNCHANGED << loaded, sref, fref, ctx, algs, names, texts, finishes >>
Register == loaded /\ table' = TRUE /\ UNCHANGED << loaded, sref, fref, dflt, ctx, algs, names, texts, finishes >>
Unregister == /\ loaded /\ table' = FALSE /\ dflt' = FALSE /\ Told(Funct, IF dflt THEN Funct - 1 ELSE Funct)
              /\ UNCHANGED << loaded, sref, fref, ctx, algs, names, texts >>
Open(x) == ctx[x] = "none" /\ loaded /\ ctx' = [ctx EXCEPT ![x] = "open"] /\ UNCHANGED << loaded, sref, fref, table, dflt, algs, names, texts, finishes >>
Close(x) == ctx[x] = "open" /\ ctx' = [ctx EXCEPT ![x] = "none"] /\ Told(Funct, Funct - 1) /\ UNCHANGED << loaded, sref, fref, table, dflt, algs, names, texts >>
\* OpenSSL is cleaned up: contexts are gone, tables are emptied, the engine is destroyed
Cleanup == /\ loaded /\ Held = 0 /\ fref = 0 /\ loaded' = FALSE /\ sref' = 0 /\ table' = FALSE /\ dflt' = FALSE /\ names' = FALSE
           /\ algs' = "freed" /\ texts' = FALSE /\ Told(Funct, 0) /\ UNCHANGED << fref, ctx >>
Next == \/ algs # "freed" /\ (ById \/ Use \/ Finish \/ Release \/ Default \/ Register \/ Unregister \/ Cleanup)
        \/ algs # "freed" /\ \E x \in Ctx : Open(x) \/ Close(x)
Spec == Init /\ [][Next]_vars

\* what still can be reached is there
Referenced == names \/ table \/ dflt \/ loaded \/ Held > 0 \/ fref > 0
NothingReferencedIsFreed == Referenced => algs = "live"
\* it is bound once, and a lookup by name or through the engine gives the algorithm from then on
Lookup == loaded => algs = "live" /\ names
\* errors can be explained as long as there is an engine to make them
Explained == loaded => texts
\* freed exactly at the end
FreedOnce == algs = "freed" => ~loaded /\ Struct = 0
=============================================================================
