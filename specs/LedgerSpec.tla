----------------------------- MODULE LedgerSpec -----------------------------
(***************************************************************************)
(* What is allocated.  Handles of the caller name objects; an object keeps *)
(* alive the objects it was made from (a key context its key, a key store  *)
(* its keys).  What is allocated at a moment belongs to the objects that   *)
(* can still be reached from a handle; every operation, whatever it        *)
(* answers, gives back everything else.                                    *)
(*   st = [h, up, n]                                                       *)
(*   h[x]   object named by handle x, 0 for none                           *)
(*   up[o]  set of objects the object o keeps alive                        *)
(*   n      number of objects made so far                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Empty(H) == [h |-> [x \in H |-> 0], up |-> << >>, n |-> 0]
RECURSIVE Reach(_, _)
Reach(up, S) == LET T == S \cup UNION { up[o] : o \in S } IN IF T = S THEN S ELSE Reach(up, T)
Named(st) == { st.h[x] : x \in DOMAIN st.h } \ {0}
Alive(st) == Reach(st.up, Named(st))
\* a new object at handle x, keeping alive the objects K (ok = 0: nothing was made)
Make(st, x, K) == [st EXCEPT !.h[x] = st.n + 1, !.up = Append(st.up, K), !.n = st.n + 1]
CanDo(st, ev) ==
  CASE ev.op = "new" -> st.h[ev.x] = 0
    [] ev.op = "from" -> st.h[ev.x] = 0 /\ st.h[ev.y] # 0
    [] ev.op = "part" -> st.h[ev.x] = 0 /\ st.h[ev.y] # 0
    [] ev.op = "use" -> st.h[ev.x] # 0
    [] ev.op = "both" -> st.h[ev.x] # 0 /\ st.h[ev.y] # 0
    [] ev.op = "free" -> st.h[ev.x] # 0
    [] ev.op \in {"once", "count"} -> TRUE
\* ok: whether the operation made what it was asked for; parts: how many objects a new one brings with it
Apply(st, ev, ok, parts) ==
  CASE ev.op = "new" -> IF ok = 0 THEN st
                        ELSE LET P == (st.n + 1)..(st.n + parts)
                             IN [st EXCEPT !.h[ev.x] = st.n + parts + 1, !.n = st.n + parts + 1,
                                           !.up = st.up \o [j \in 1..parts |-> {}] \o << P >>]
    [] ev.op = "from" -> IF ok = 0 THEN st
                         ELSE Make(st, ev.x, CASE ev.keep = "it" -> {st.h[ev.y]}              \* a context of a key
                                               [] ev.keep = "same" -> st.up[st.h[ev.y]]       \* a duplicate of a context
                                               [] ev.keep = "no" -> {})                       \* a key made by a context
    [] ev.op = "part" -> IF ok = 0 \/ st.up[st.h[ev.y]] = {} THEN st ELSE [st EXCEPT !.h[ev.x] = CHOOSE o \in st.up[st.h[ev.y]] : TRUE]
    [] ev.op = "free" -> [st EXCEPT !.h[ev.x] = 0]
    [] OTHER -> st
=============================================================================
