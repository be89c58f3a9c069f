------------------------------ MODULE SignSpec ------------------------------
(***************************************************************************)
(* Contexts that sign and verify.                                          *)
(*  x  streaming contexts: none, blank, broken (a start was refused), or   *)
(*     open: a direction, a key, the table in force, the message supplied  *)
(*     since the last start.  Delivering a value does not end the message. *)
(*  q  contexts for single hashes: a key and a direction ("n": none yet).  *)
(* A context keeps its key, whatever becomes of the caller's.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS KeyTable(_)
NoX == [st |-> "none"]
Blank == [st |-> "blank"]
Broken == [st |-> "broken"]
NoQ == [st |-> "none"]
Started(dir, key) == [st |-> "open", dir |-> dir, key |-> key, tab |-> KeyTable(key), msg |-> << >>]
XOps == {"x_new", "x_init", "x_upd", "x_fin", "x_ver", "x_sign1", "x_ver1", "x_re", "x_tab", "x_copy", "x_reset", "x_free"}
QOps == {"q_new", "q_init", "q_md", "q_dup", "q_sign", "q_ver", "q_free"}
Open(h, s, d) == h.x[s].st = "open" /\ h.x[s].dir \in d
\* key: the key in the slot named by the event
CanDo(h, e, key) ==
  CASE e.op = "x_new" -> h.x[e.s].st = "none"
    [] e.op = "x_init" -> \/ h.x[e.s].st = "blank"
                          \/ h.x[e.s].st = "open" /\ h.x[e.s].key = key /\ e.how # "o"      \* another key needs a reset
    [] e.op = "x_upd" -> Open(h, e.s, {e.dir})
    [] e.op \in {"x_fin", "x_sign1"} -> Open(h, e.s, {"s"})
    [] e.op \in {"x_ver", "x_ver1"} -> Open(h, e.s, {"v"})
    [] e.op = "x_re" -> Open(h, e.s, {"s", "v"})
    [] e.op = "x_tab" -> Open(h, e.s, {"s", "v"}) /\ h.x[e.s].msg = << >>
    [] e.op = "x_copy" -> h.x[e.s].st # "none" /\ h.x[e.from].st = "open" /\ e.s # e.from
    [] e.op \in {"x_reset", "x_free"} -> h.x[e.s].st # "none"
    [] e.op = "q_new" -> h.q[e.s].st = "none"
    [] e.op \in {"q_init", "q_sign", "q_ver", "q_free"} -> h.q[e.s].st # "none"
    [] e.op = "q_md" -> h.q[e.s].st # "none" /\ h.q[e.s].dir # "n"
    [] e.op = "q_dup" -> h.q[e.s].st = "none" /\ h.q[e.from].st # "none" /\ h.q[e.from].dir # "n"
    [] OTHER -> FALSE
Apply(h, e, key) ==
  CASE e.op \in {"x_new", "x_reset"} -> [h EXCEPT !.x[e.s] = Blank]
    [] e.op = "x_init" -> [h EXCEPT !.x[e.s] = IF e.how = "o" THEN Broken ELSE Started(e.dir, key)]
    [] e.op \in {"x_upd", "x_sign1", "x_ver1"} -> [h EXCEPT !.x[e.s].msg = @ \o e.data]
    [] e.op = "x_re" -> [h EXCEPT !.x[e.s] = Started(@.dir, @.key)]
    [] e.op = "x_tab" -> [h EXCEPT !.x[e.s].tab = IF e.good = 1 THEN e.tab ELSE @]
    [] e.op = "x_copy" -> [h EXCEPT !.x[e.s] = h.x[e.from]]
    [] e.op = "x_free" -> [h EXCEPT !.x[e.s] = NoX]
    [] e.op = "q_new" -> [h EXCEPT !.q[e.s] = [st |-> "open", dir |-> "n", key |-> key]]
    [] e.op = "q_init" -> [h EXCEPT !.q[e.s].dir = e.dir]
    [] e.op = "q_dup" -> [h EXCEPT !.q[e.s] = h.q[e.from]]
    [] e.op = "q_free" -> [h EXCEPT !.q[e.s] = NoQ]
    [] OTHER -> h
\* what is asked of an event that delivers or judges: a signature of msg under key with table tab, or a verdict
Asked(h, e) ==
  CASE e.op \in {"x_fin", "x_sign1"} -> LET c == Apply(h, e, 0).x[e.s] IN [what |-> "sign", key |-> c.key, tab |-> c.tab, msg |-> c.msg]
    [] e.op \in {"x_ver", "x_ver1"} -> LET c == Apply(h, e, 0).x[e.s] IN [what |-> "verify", key |-> c.key, tab |-> c.tab, msg |-> c.msg]
    [] e.op = "q_sign" /\ h.q[e.s].dir = "s" -> [what |-> "signhash", key |-> h.q[e.s].key]
    [] e.op = "q_ver" /\ h.q[e.s].dir = "v" -> [what |-> "verifyhash", key |-> h.q[e.s].key]
    [] e.op \in {"q_sign", "q_ver"} -> [what |-> "no"]                    \* not started for that
    [] e.op = "x_init" /\ e.how = "o" -> [what |-> "no"]                  \* another digest
    [] e.op = "q_md" /\ e.how = "o" -> [what |-> "no"]
    [] e.op = "x_tab" /\ e.good = 0 -> [what |-> "no"]
    [] OTHER -> [what |-> "yes"]
=============================================================================
