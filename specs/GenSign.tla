------------------------------- MODULE GenSign ------------------------------
(* Call sequences on signing and verifying contexts; messages are sequences of numbers of pieces. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS XS, QS, Keys, Pieces, Tables, D
KT(k) == 0
VARIABLES h, there, hist, fin
SP == INSTANCE SignSpec WITH KeyTable <- KT
Init == /\ h = [x |-> [s \in XS |-> SP!NoX], q |-> [s \in QS |-> SP!NoQ]] /\ there = [k \in Keys |-> FALSE] /\ hist = << >> /\ fin = FALSE
\* contexts carry a key's slot and how many times the slot was filled before; the replay follows it too
Do(e, k) == /\ SP!CanDo(h, e, k) /\ h' = SP!Apply(h, e, k) /\ UNCHANGED there
            /\ hist' = Append(hist, IF e.op \in {"x_ver", "x_ver1", "x_fin", "x_sign1"}
                                    THEN LET a == SP!Asked(h, e) IN [ev |-> e, key |-> a.key, tab |-> a.tab, msg |-> a.msg] ELSE [ev |-> e])
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << h, there, hist >>
\* a key's slot is not filled again while a context has the key, so that a slot names a key
Used(k) == (\E s \in XS : h.x[s].st = "open" /\ h.x[s].key = k) \/ (\E s \in QS : h.q[s].st = "open" /\ h.q[s].key = k)
Load(k) == ~there[k] /\ ~Used(k) /\ there' = [there EXCEPT ![k] = TRUE] /\ hist' = Append(hist, [ev |-> [op |-> "load", k |-> k]]) /\ UNCHANGED h
Drop(k) == there[k] /\ Len(hist) > 8 /\ RandomElement(1..3) = 1 /\ there' = [there EXCEPT ![k] = FALSE] /\ hist' = Append(hist, [ev |-> [op |-> "free", k |-> k]]) /\ UNCHANGED h
E1(op, s) == [op |-> op, s |-> s]
Call == /\ Len(hist) < D /\ UNCHANGED fin
        /\ \/ \E s \in XS : \E op \in {"x_new", "x_re"} : Do(E1(op, s), 0)
           \/ \E s \in XS : Len(hist) > 20 /\ RandomElement(1..3) = 1 /\ \E op \in {"x_reset", "x_free"} : Do(E1(op, s), 0)
           \/ \E k \in Keys : Load(k) \/ Drop(k)
           \/ \E s \in XS, k \in Keys, d \in {"s", "v"}, w \in {"e", "m", "d"} :
                there[k] /\ (h.x[s].st = "open" => RandomElement(1..4) = 1) /\ Do([op |-> "x_init", s |-> s, k |-> k, dir |-> d, how |-> w], k)
           \/ \E s \in XS, k \in Keys, d \in {"s", "v"} :
                there[k] /\ RandomElement(1..6) = 1 /\ Do([op |-> "x_init", s |-> s, k |-> k, dir |-> d, how |-> "o"], k)
           \/ \E s \in XS, p \in Pieces, d \in {"s", "v"} : Do([op |-> "x_upd", s |-> s, dir |-> d, data |-> << p >>], 0)
           \/ \E s \in XS, i \in 1..4 : Do(E1("x_fin", s), 0) \/ Do(E1("x_ver", s) @@ [with |-> i], 0)
           \/ \E s \in XS, p \in Pieces : Do([op |-> "x_sign1", s |-> s, data |-> << p >>], 0)
           \/ \E s \in XS, p \in Pieces : Do([op |-> "x_ver1", s |-> s, data |-> << p >>, with |-> RandomElement(1..4)], 0)
           \/ \E s \in XS, t \in Tables, g \in {0, 1} : Do([op |-> "x_tab", s |-> s, tab |-> t, good |-> g], 0)
           \/ \E s \in XS, f \in XS : Do([op |-> "x_copy", s |-> s, from |-> f], 0)
           \/ \E s \in QS, k \in Keys : there[k] /\ Do([op |-> "q_new", s |-> s, k |-> k], k)
           \/ \E s \in QS, d \in {"s", "v"} : Do([op |-> "q_init", s |-> s, dir |-> d], 0)
           \/ \E s \in QS, w \in {"m", "o"} : Do([op |-> "q_md", s |-> s, how |-> w], 0)
           \/ \E s \in QS, f \in QS : Do([op |-> "q_dup", s |-> s, from |-> f], 0)
           \/ \E s \in QS : Do(E1("q_sign", s), 0) \/ Do(E1("q_ver", s), 0)
           \/ \E s \in QS : Len(hist) > 20 /\ Do(E1("q_free", s), 0)
Next == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
