----------------------------- MODULE ThreadSpec -----------------------------
(***************************************************************************)
(* Threads working at the same time, each on objects of its own, with the  *)
(* random generator and read-only keys in common.  Operations are not      *)
(* atomic: an update of an object reads it, and later writes it back; the  *)
(* generator is used under its lock; verifying reads a key nobody writes.  *)
(* Every thread runs a program, a sequence of operations                   *)
(*   "upd"  v := f(v, data)     "fin"  output v, start again               *)
(*   "rnd"  output the next value of the generator                         *)
(*   "ver"  output what the shared key says                                *)
(*   "use1" the first use of an algorithm: looked up in a table that is    *)
(*          filled once, whoever comes first                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS T, Len0, Scratch       \* threads, length of a program, whether operations share a scratch variable (a defect)
VARIABLES prog, pc, step, val, tmp, out, gen, lock, tab, scr
vars == << prog, pc, step, val, tmp, out, gen, lock, tab, scr >>
Ops == {"upd", "fin", "rnd", "ver", "use1"}
Key == 7
F(v, t, n) == (v * 3 + t * 5 + n + 1) % 101
Init == /\ prog \in [T -> [1..Len0 -> Ops]]
        /\ pc = [t \in T |-> 1] /\ step = [t \in T |-> 0] /\ val = [t \in T |-> 0] /\ tmp = [t \in T |-> 0]
        /\ out = [t \in T |-> << >>] /\ gen = 0 /\ lock = 0 /\ tab = 0 /\ scr = 0
Op(t) == prog[t][pc[t]]
Busy(t) == pc[t] <= Len0
Goto(t) == pc' = [pc EXCEPT ![t] = @ + 1] /\ step' = [step EXCEPT ![t] = 0]
At(t, n) == step' = [step EXCEPT ![t] = n] /\ pc' = pc
Out(t, x) == out' = [out EXCEPT ![t] = Append(@, x)]
Upd(t) == Op(t) = "upd" /\
  \/ step[t] = 0 /\ At(t, 1) /\ (IF Scratch THEN scr' = val[t] /\ tmp' = tmp ELSE tmp' = [tmp EXCEPT ![t] = val[t]] /\ scr' = scr) /\ UNCHANGED << val, out, gen, lock, tab >>
  \/ step[t] = 1 /\ Goto(t) /\ val' = [val EXCEPT ![t] = F(IF Scratch THEN scr ELSE tmp[t], t, pc[t])] /\ UNCHANGED << tmp, out, gen, lock, tab, scr >>
Fin(t) == Op(t) = "fin" /\ Goto(t) /\ Out(t, << "fin", val[t] >>) /\ val' = [val EXCEPT ![t] = 0] /\ UNCHANGED << tmp, gen, lock, tab, scr >>
Rnd(t) == Op(t) = "rnd" /\
  \/ step[t] = 0 /\ lock = 0 /\ lock' = t /\ At(t, 1) /\ UNCHANGED << val, tmp, out, gen, tab, scr >>
  \/ step[t] = 1 /\ tmp' = [tmp EXCEPT ![t] = gen] /\ At(t, 2) /\ UNCHANGED << val, out, gen, lock, tab, scr >>
  \/ step[t] = 2 /\ gen' = tmp[t] + 1 /\ Out(t, << "rnd", tmp[t] + 1 >>) /\ At(t, 3) /\ UNCHANGED << val, tmp, lock, tab, scr >>
  \/ step[t] = 3 /\ lock' = 0 /\ Goto(t) /\ UNCHANGED << val, tmp, out, gen, tab, scr >>
Ver(t) == Op(t) = "ver" /\
  \/ step[t] = 0 /\ tmp' = [tmp EXCEPT ![t] = Key] /\ At(t, 1) /\ UNCHANGED << val, out, gen, lock, tab, scr >>
  \/ step[t] = 1 /\ Out(t, << "ver", tmp[t] >>) /\ Goto(t) /\ UNCHANGED << val, tmp, gen, lock, tab, scr >>
Use1(t) == Op(t) = "use1" /\
  \/ step[t] = 0 /\ lock = 0 /\ lock' = t /\ At(t, 1) /\ UNCHANGED << val, tmp, out, gen, tab, scr >>
  \/ step[t] = 1 /\ tab' = (IF tab = 0 THEN 1 ELSE tab) /\ At(t, 2) /\ UNCHANGED << val, tmp, out, gen, lock, scr >>
  \/ step[t] = 2 /\ lock' = 0 /\ Out(t, << "use1", tab >>) /\ Goto(t) /\ UNCHANGED << val, tmp, gen, tab, scr >>
Next == \E t \in T : Busy(t) /\ prog' = prog /\ (Upd(t) \/ Fin(t) \/ Rnd(t) \/ Ver(t) \/ Use1(t))
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Busy(t) /\ Next)

\* what a program gives when it runs alone, the values of the generator aside
RECURSIVE Alone(_, _, _, _)
Alone(p, t, n, v) ==
  IF n > Len(p) THEN << >>
  ELSE CASE p[n] = "upd" -> Alone(p, t, n + 1, F(v, t, n))
         [] p[n] = "fin" -> << << "fin", v >> >> \o Alone(p, t, n + 1, 0)
         [] p[n] = "ver" -> << << "ver", Key >> >> \o Alone(p, t, n + 1, v)
         [] p[n] = "use1" -> << << "use1", 1 >> >> \o Alone(p, t, n + 1, v)
         [] p[n] = "rnd" -> << << "rnd", 0 >> >> \o Alone(p, t, n + 1, v)
Blind(o) == [j \in 1..Len(o) |-> IF o[j][1] = "rnd" THEN << "rnd", 0 >> ELSE o[j]]
\* each thread's results so far are those of the thread alone
AsAlone == \A t \in T : LET a == Alone(prog[t], t, 1, 0)  b == Blind(out[t]) IN b = SubSeq(a, 1, Len(b))
\* the generator's values are delivered once each
Rnds == { << t, j >> : t \in T, j \in 1..Len0 } \cap { x \in T \X (1..Len0) : x[2] <= Len(out[x[1]]) /\ out[x[1]][x[2]][1] = "rnd" }
Once == \A x, y \in Rnds : x # y => out[x[1]][x[2]] # out[y[1]][y[2]]
All == Cardinality(Rnds) = gen
AllEnd == <>(\A t \in T : ~Busy(t))
=============================================================================
