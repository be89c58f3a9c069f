------------------------------- MODULE MemSpec -------------------------------
(* Running out of memory.  An operation is a program of acquisitions, each of *)
(* which the environment may refuse at will:                                  *)
(*   tmp   scratch, held until the operation ends, whatever its outcome       *)
(*   part  a part of what the operation makes; nobody's if it refuses         *)
(*   grow  a part of an object the caller owns is replaced by a bigger one:   *)
(*         the old one stays the caller's until the new one is there          *)
(*   soft  a convenience (a cache, the text of an error): missing it is       *)
(*         without consequence                                                *)
(* A refusal of anything but a soft one makes the operation unwind and refuse.*)
(* The caller may ask again as often as it likes, and does something with the *)
(* product afterwards.  Bug names a way of getting it wrong (MCMemBad).       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Kinds, MaxLen, MaxTries, Bug
VARIABLES prog, pc, held, old, out, tries, used
vars == <<prog, pc, held, old, out, tries, used>>

Progs == UNION {[1..n -> Kinds] : n \in 0..MaxLen}
Of(k) == {i \in 1..Len(prog) : prog[i] = k}

\* held: acquisitions not given back; old: parts of the caller's object as it was
Init == /\ prog \in Progs /\ pc = 1 /\ held = {} /\ old = Of("grow")
        /\ out = "run" /\ tries = 0 /\ used = FALSE

Grant == /\ out = "run" /\ pc <= Len(prog)
         /\ held' = held \cup {pc} /\ pc' = pc + 1
         /\ UNCHANGED <<prog, old, out, tries, used>>
\* the bug "early" gives the old part back before the new one is there
Refuse == /\ out = "run" /\ pc <= Len(prog)
          /\ old' = IF Bug = "early" THEN old \ {pc} ELSE old
          /\ IF prog[pc] = "soft" \/ (Bug = "partial" /\ prog[pc] = "part") \/ Bug = "blind"
             THEN pc' = pc + 1 /\ UNCHANGED out
             ELSE out' = "unwind" /\ UNCHANGED pc
          /\ UNCHANGED <<prog, held, tries, used>>
\* a step that goes on uses everything acquired before it, but for the soft ones
Missing == {i \in 1..(pc - 1) : prog[i] \notin {"soft"} /\ i \notin held}
Fault == out = "run" /\ {i \in Missing : ~(Bug = "partial" /\ prog[i] = "part")} # {}
Crash == Fault /\ out' = "crash" /\ UNCHANGED <<prog, pc, held, old, tries, used>>
Unwind == /\ out = "unwind"
          /\ LET keep == IF Bug = "forget" THEN Of("tmp") ELSE {} IN
             IF held \subseteq keep THEN out' = "refused" /\ UNCHANGED held
             ELSE \E i \in held \ keep : held' = held \ {i} /\ UNCHANGED out
          /\ UNCHANGED <<prog, pc, old, tries, used>>
Finish == /\ out = "run" /\ pc > Len(prog) /\ ~Fault
          /\ held' = held \ (Of("tmp") \cup Of("soft"))
          /\ old' = {} /\ out' = "done" /\ UNCHANGED <<prog, pc, tries, used>>
Again == /\ out = "refused" /\ tries < MaxTries
         /\ pc' = 1 /\ out' = "run" /\ tries' = tries + 1
         /\ UNCHANGED <<prog, held, old, used>>
Use == out = "done" /\ ~used /\ used' = TRUE /\ UNCHANGED <<prog, pc, held, old, out, tries>>
Stop == (used \/ out = "crash" \/ (out = "refused" /\ tries = MaxTries)) /\ UNCHANGED vars
Next == Grant \/ Refuse \/ Crash \/ Unwind \/ Finish \/ Again \/ Use \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the caller relies on
NoCrash  == out # "crash"
Whole    == out = "done" => held = Of("part") \cup Of("grow") /\ old = {}
Nothing  == out = "refused" => held = {} /\ old = Of("grow")
\* an operation that is not refused anything does its job
Ample    == [](out = "done" => Missing \cap (Of("part") \cup Of("grow")) = {})
Ends     == <>(out \in {"done", "crash"} \/ (out = "refused" /\ tries = MaxTries))

(* --- what is seen of an operation from outside, for the traces ----------- *)
\* plain: result, what using the product shows, octets allocated afterwards;
\* a try: how many requests were refused, whether the operation did its job,
\* its result, that of asking again with memory, of using, and the octets
Agree(p, t) ==
  /\ t.hit = 0 => t.ok = 1
  /\ t.ok = 1 => t.out \in p.outs
  /\ t.ok = 0 => t.again \in p.outs
  /\ t.use \in p.uses
  /\ t.live = p.live
=============================================================================
