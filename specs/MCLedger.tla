------------------------------ MODULE MCLedger ------------------------------
(* All histories over a few handles: with an allocation count kept the way *)
(* an implementation with reference counts keeps it, the count is that of  *)
(* the reachable objects, and nothing remains once every handle is given   *)
(* back.                                                                   *)
EXTENDS LedgerSpec
CONSTANTS H, Max
VARIABLES st, rc, mem
Init == st = Empty(H) /\ rc = << >> /\ mem = {}
\* the implementation: drop one reference of o; when it was the last, free it and drop what it holds
RECURSIVE Drop(_, _, _, _)
RECURSIVE DropAll(_, _, _, _)
Drop(r, m, up, o) == IF r[o] > 1 THEN << [r EXCEPT ![o] = @ - 1], m >>
                     ELSE DropAll([r EXCEPT ![o] = 0], m \ {o}, up, up[o])
DropAll(r, m, up, S) == IF S = {} THEN << r, m >>
                        ELSE LET o == CHOOSE o \in S : TRUE  d == Drop(r, m, up, o) IN DropAll(d[1], d[2], up, S \ {o})
Step(ev, ok, parts) ==
  /\ CanDo(st, ev)
  /\ st' = Apply(st, ev, ok, parts)
  /\ CASE ev.op = "new" /\ ok = 1 -> rc' = rc \o [j \in 1..(parts + 1) |-> 1] /\ mem' = mem \cup ((st.n + 1)..(st.n + parts + 1))
       [] ev.op = "from" /\ ok = 1 -> rc' = Append([o \in DOMAIN rc |-> rc[o] + IF o \in st'.up[st.n + 1] THEN 1 ELSE 0], 1) /\ mem' = mem \cup {st.n + 1}
       [] ev.op = "part" /\ ok = 1 /\ st' # st -> rc' = [rc EXCEPT ![st'.h[ev.x]] = @ + 1] /\ mem' = mem
       [] ev.op = "free" -> LET d == Drop(rc, mem, st.up, st.h[ev.x]) IN rc' = d[1] /\ mem' = d[2]
       [] OTHER -> UNCHANGED << rc, mem >>
Next == \E x \in H, y \in H, ok \in {0, 1}, p \in {0, 1, 2}, op \in {"new", "from", "part", "use", "both", "free", "once"} :
          /\ st.n + p < Max
          /\ \E k \in (IF op = "from" THEN {"it", "same", "no"} ELSE {"no"}) : Step([op |-> op, x |-> x, y |-> y, keep |-> k], ok, p)
Exact == mem = Alive(st)
Counted == \A o \in DOMAIN rc : rc[o] = Cardinality({ x \in H : st.h[x] = o }) + Cardinality({ q \in mem : o \in st.up[q] })
Nothing == Named(st) = {} => mem = {}
NoneLost == \A x \in H : st.h[x] # 0 => st.h[x] \in mem
=============================================================================
