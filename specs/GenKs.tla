------------------------------- MODULE GenKs --------------------------------
(* Histories of handles for replay: which container is read is chosen by   *)
(* number (its content, Kn keys and Cn certificates, is known to the       *)
(* replayer).                                                              *)
EXTENDS KsSpec, TLC, Json
CONSTANT D
VARIABLES ks, rf, hist, fin
Kn == << 2, 1, 0, 3, 2, 1, 6, 1 >>
Cn == << 3, 0, 2, 1, 0, 4, 5, 1 >>
S == 0..2
R == 0..3
\* positions worth looking at: around the ends, and the largest ones
Far == {1000000, 1000001, 1000002}
Ids(n) == [i \in 1..n |-> i]
Init == ks = [s \in S |-> None] /\ rf = [r \in R |-> None] /\ hist = << >> /\ fin = FALSE
Ev(ev, k, c) == /\ CanDo(ks, rf, ev) /\ ks' = NextKs(ks, ev, k, c) /\ rf' = NextRf(ks, rf, ev) /\ hist' = Append(hist, ev) /\ fin' = fin /\ Len(hist) < D
Some(P) == RandomElement(P)
Act == \/ \E s \in S : \E f \in {Some(1..Len(Kn))} : Ev([op |-> "read", s |-> s, f |-> f], Ids(Kn[f]), Ids(Cn[f]))
       \/ \E s \in S : Ev([op |-> "num", s |-> s], << >>, << >>)
       \/ \E s \in S : ks[s].there /\ \E p \in {Some(0..(Len(ks[s].keys) + 1) \cup Far)} : Ev([op |-> "key", s |-> s, pos |-> p], << >>, << >>)
       \/ \E s \in S : ks[s].there /\ \E p \in {Some(0..(Len(ks[s].certs) + 1) \cup Far)} : Ev([op |-> "cert", s |-> s, pos |-> p], << >>, << >>)
       \/ \E s \in S, r \in R : ks[s].there /\ ks[s].keys # << >> /\ \E p \in {Some(0..(Len(ks[s].keys) - 1))} : Ev([op |-> "refkey", s |-> s, pos |-> p, r |-> r], << >>, << >>)
       \/ \E s \in S, r \in R : ks[s].there /\ ks[s].certs # << >> /\ \E p \in {Some(0..(Len(ks[s].certs) - 1))} : Ev([op |-> "refcert", s |-> s, pos |-> p, r |-> r], << >>, << >>)
       \/ \E r \in R : Ev([op |-> "use", r |-> r], << >>, << >>)
       \/ \E r \in R : Ev([op |-> "drop", r |-> r], << >>, << >>)
       \/ \E s \in S : Some(1..3) = 1 /\ Ev([op |-> "free", s |-> s], << >>, << >>)
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << ks, rf, hist >>
Next == Act \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
