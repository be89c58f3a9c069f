------------------------------- MODULE MCSign -------------------------------
(***************************************************************************)
(* The way the engine does it, against SignSpec: every streaming context   *)
(* has storage with an expanded table and a running state, and a pointer   *)
(* to the storage whose table the hashing uses; a copy takes storage and   *)
(* pointer and then points at its own (unless Retarget is FALSE, which has *)
(* to be found).  Hashing uses the table pointed at when the octets come.  *)
(* Keys are counted: the caller's slot and every context hold one each.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS XS, QS, Keys, Tables, Octets, MaxMsg, Retarget
KT(k) == k % 2                       \* keys 1 and 3 have a table of their own, key 2 the default one
Kinds == Keys
VARIABLES h, slot, mem, refs
vars == << h, slot, mem, refs >>
INSTANCE SignSpec WITH KeyTable <- KT
Nothing == [used |-> FALSE]
\* running state: the octets with the table each was hashed under
Store(s, k) == [used |-> TRUE, tab |-> KT(k), ptr |-> s, run |-> << >>, key |-> k]
Fed(m, s, d) == LET p == m[s].ptr IN
  [m EXCEPT ![s].run = @ \o [j \in 1..Len(d) |-> << d[j], IF m[p].used THEN m[p].tab ELSE 99 >>]]
Hold(r, k, n) == [r EXCEPT ![k] = @ + n]
Events == [op : {"x_new", "x_re", "x_fin", "x_ver", "x_reset", "x_free"}, s : XS]
          \cup [op : {"x_init"}, s : XS, k : Keys, dir : {"s", "v"}, how : {"e"}] \cup [op : {"x_init"}, s : XS, k : Keys, dir : {"s"}, how : {"o"}]
          \cup [op : {"x_upd"}, s : XS, dir : {"s", "v"}, data : { << o >> : o \in Octets }]
          \cup [op : {"x_tab"}, s : XS, tab : Tables, good : {1}] \cup [op : {"x_copy"}, s : XS, from : XS]
          \cup [op : {"q_new"}, s : QS, k : Keys] \cup [op : {"q_init"}, s : QS, dir : {"s", "v"}]
          \cup [op : {"q_dup"}, s : QS, from : QS] \cup [op : {"q_free"}, s : QS]
Init == /\ h = [x |-> [s \in XS |-> NoX], q |-> [s \in QS |-> NoQ]] /\ slot = [k \in Keys |-> TRUE]
        /\ mem = [s \in XS |-> Nothing] /\ refs = [k \in Keys |-> 1]
Dropped(r, s) == IF mem[s].used THEN Hold(r, mem[s].key, 0 - 1) ELSE r
Do(e) ==
  LET key == IF "k" \in DOMAIN e THEN e.k ELSE 0 IN
  /\ ("k" \in DOMAIN e => slot[key]) /\ CanDo(h, e, key) /\ h' = Apply(h, e, key) /\ UNCHANGED slot
  /\ (e.op = "x_upd" => Len(h.x[e.s].msg) < MaxMsg)
  /\ CASE e.op = "x_init" /\ e.how = "e" ->
            /\ mem' = [mem EXCEPT ![e.s] = Store(e.s, key)]
            /\ refs' = IF mem[e.s].used THEN refs ELSE Hold(refs, key, 1)
       [] e.op = "x_init" /\ e.how = "o" -> UNCHANGED << mem, refs >>
       [] e.op = "x_upd" -> mem' = Fed(mem, e.s, e.data) /\ UNCHANGED refs
       [] e.op = "x_re" -> mem' = [mem EXCEPT ![e.s] = Store(e.s, mem[e.s].key)] /\ UNCHANGED refs
       [] e.op = "x_tab" -> mem' = [mem EXCEPT ![e.s].tab = e.tab] /\ UNCHANGED refs
       [] e.op = "x_copy" -> /\ mem' = [mem EXCEPT ![e.s] = IF Retarget THEN [mem[e.from] EXCEPT !.ptr = e.s] ELSE mem[e.from]]
                             /\ refs' = Hold(Dropped(refs, e.s), mem[e.from].key, 1)
       [] e.op \in {"x_reset", "x_free"} -> mem' = [mem EXCEPT ![e.s] = Nothing] /\ refs' = Dropped(refs, e.s)
       [] e.op = "q_new" -> refs' = Hold(refs, key, 1) /\ UNCHANGED mem
       [] e.op = "q_dup" -> refs' = Hold(refs, h.q[e.from].key, 1) /\ UNCHANGED mem
       [] e.op = "q_free" -> refs' = Hold(refs, h.q[e.s].key, 0 - 1) /\ UNCHANGED mem
       [] OTHER -> UNCHANGED << mem, refs >>
Drop(k) == slot[k] /\ slot' = [slot EXCEPT ![k] = FALSE] /\ refs' = Hold(refs, k, 0 - 1) /\ UNCHANGED << h, mem >>
Next == (\E e \in Events : Do(e)) \/ \E k \in Keys : Drop(k)
\* what would be signed or judged now is the message supplied, all of it under the table in force
Own == \A s \in XS : h.x[s].st = "open" =>
         /\ mem[s].used /\ mem[s].key = h.x[s].key
         /\ mem[s].run = [j \in 1..Len(h.x[s].msg) |-> << h.x[s].msg[j], h.x[s].tab >>]
         /\ mem[mem[s].ptr].used /\ mem[mem[s].ptr].tab = h.x[s].tab
\* keys live exactly as long as somebody holds them
Count(k) == (IF slot[k] THEN 1 ELSE 0) + Cardinality({ s \in XS : mem[s].used /\ mem[s].key = k })
            + Cardinality({ s \in QS : h.q[s].st = "open" /\ h.q[s].key = k })
Counted == \A k \in Keys : refs[k] = Count(k) /\ refs[k] \in Nat
=============================================================================
