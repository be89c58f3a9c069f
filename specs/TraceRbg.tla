------------------------------ MODULE TraceRbg ------------------------------
(***************************************************************************)
(* Recorded use of the engine's generator.  The default source and the     *)
(* clock are scripted, so the specification knows the seeds.  g is the set *)
(* of states the generator may be in: asking for the status may seed it.   *)
(***************************************************************************)
EXTENDS TraceBase, Rbg, FiniteSets
VARIABLES i, g, src
None == [seeded |-> FALSE, used |-> 0, s |-> 0]
NoSrc == [mode |-> 0, seeds |-> << >>, t |-> << >>, base |-> 0]
\* a generator [seeded, used, s]: used counts the seed octets taken from the source
Can(x) == src.mode = 0 /\ x.used + 40 <= Len(src.seeds)
Seeded(x) == [seeded |-> TRUE, used |-> x.used + 40, s |-> RbgStart(SubSeq(src.seeds, x.used + 1, x.used + 40), src.t)]
\* states in which a request can be served from x
Ready(x) == IF x.seeded THEN {x} ELSE IF Can(x) THEN {Seeded(x)} ELSE {}
Serve(x, n) == LET r == RbgOut(x.s, n) IN [out |-> r.out, x |-> [x EXCEPT !.s = r.g]]
\* after a request for n octets with recorded result r; {} when r is not possible
AfterGet(n, r) ==
  IF r.ok = 1 THEN { Serve(y, n).x : y \in { z \in UNION { Ready(x) : x \in g } : Serve(z, n).out = r.out } }
  ELSE { x \in g : Ready(x) = {} }

\* pieces cut from front of the stream, in some order
RECURSIVE Cover(_,_)
Cover(strm, ps) ==
  IF ps = << >> THEN TRUE
  ELSE LET ok == { j \in 1..Len(ps) : Len(ps[j]) <= Len(strm) /\ SubSeq(strm, 1, Len(ps[j])) = ps[j] }
       IN \E j \in ok : Cover(SubSeq(strm, Len(ps[j]) + 1, Len(strm)), SubSeq(ps, 1, j-1) \o SubSeq(ps, j+1, Len(ps)))
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE q[1] + Sum(Tail(q))
RECURSIVE Cut(_,_)
Cut(out, sizes) == IF sizes = << >> THEN << >> ELSE << SubSeq(out, 1, sizes[1]) >> \o Cut(SubSeq(out, sizes[1] + 1, Len(out)), Tail(sizes))
\* no eight octets in a row in common
Windows(o) == { SubSeq(o, j, j + 7) : j \in 1..(Len(o) - 7) }
Apart(a, b) == Windows(a) \cap Windows(b) = {}

After(e, r) ==
  CASE e.op = "source" -> { [None EXCEPT !.used = 0] }
    [] e.op = "get" -> IF r.over # 0 THEN {} ELSE AfterGet(e.n, r)
    [] e.op = "status" -> LET can == { x \in g : Ready(x) # {} } IN
                          IF r.r = 1 THEN can \cup UNION { Ready(x) : x \in can }
                          \* a generator that runs may still say no while its source does
                          ELSE { x \in g : Ready(x) = {} \/ src.mode # 0 }
    [] e.op \in {"feed", "mode", "time", "nop"} -> g
    [] e.op = "clean" -> { [x EXCEPT !.seeded = FALSE, !.s = 0] : x \in g }
    [] e.op = "fork" ->      \* the parent goes on, the child and grandchild give something else
         IF /\ r.childdied = 0
            /\ (src.mode = 0 => r.ok1 = 1 /\ (e.n2 > 0 => r.ok2 = 1 /\ r.ok3 = 1))
            /\ (r.ok = 1 => Apart(r.c1, r.out) /\ Apart(r.c2, r.out) /\ Apart(r.c3, r.out))
            /\ Apart(r.c1, r.c2) /\ Apart(r.c2, r.c3) /\ Apart(r.c1, r.c3)
            \* nor what the parent gives later, or would have given
            /\ \A y \in UNION { Ready(x) : x \in { z \in g : z.seeded } } :
                 LET more == Serve(y, 300).out IN Apart(r.c1, more) /\ Apart(r.c2, more) /\ Apart(r.c3, more)
         THEN AfterGet(e.n, r) ELSE {}
    [] e.op = "threads" ->
         LET ps == Cut(r.out, e.sizes)  n == Sum(e.sizes)
         IN IF r.ok # 1 THEN {}
            ELSE { Serve(y, n).x : y \in { z \in UNION { Ready(x) : x \in g } : Cover(Serve(z, n).out, ps) } }

SrcAfter(e) ==
  CASE e.op = "source" -> [mode |-> 0, seeds |-> e.seeds, t |-> e.t]
    [] e.op = "mode" -> [src EXCEPT !.mode = e.v]
    [] e.op = "time" -> [src EXCEPT !.t = e.t]
    [] OTHER -> src
Init == i = 1 /\ g = {None} /\ src = NoSrc
Begin == Tr[i].op = "begin" /\ g' = {None} /\ src' = NoSrc
Event == /\ Tr[i].op # "begin"
         /\ LET e == Tr[i] IN
            IF "crash" \in DOMAIN e.res THEN Judge(i, FALSE, [want |-> "no crash"]) /\ UNCHANGED << g, src >>
            ELSE \E a \in {After(e, e.res)} :
                   /\ Judge(i, a # {}, [want |-> e.op, states |-> Cardinality(g)])
                   /\ g' = IF a = {} THEN g ELSE a
                   /\ src' = SrcAfter(e)
Next == i <= Len(Tr) /\ (Begin \/ Event) /\ i' = i + 1
End == Finish(i)
=============================================================================
