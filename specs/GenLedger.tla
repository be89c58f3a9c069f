----------------------------- MODULE GenLedger ------------------------------
(* Histories over digest, cipher and key contexts, keys and key stores for *)
(* the replay.  The argument a selects the input (even: meant to be taken, *)
(* odd: meant to be refused).                                              *)
EXTENDS LedgerSpec, TLC, Json
CONSTANT D
VARIABLES st, hist, fin
Md == {1, 2}
Ci == {3, 4}
Pc == {5, 6, 7}
Ke == {8, 9, 10, 11}
Ks == {12, 13}
H == Md \cup Ci \cup Pc \cup Ke \cup Ks
Kind(x) == CASE x \in Md -> "md" [] x \in Ci -> "ci" [] x \in Pc -> "pc" [] x \in Ke -> "key" [] OTHER -> "ks"
Init == st = Empty(H) /\ hist = << >> /\ fin = FALSE
Some(S) == RandomElement(S)
Do(ev, ok, parts) == CanDo(st, ev) /\ st' = Apply(st, ev, ok, parts) /\ hist' = Append(hist, ev)
Act ==
  /\ Len(hist) < D /\ UNCHANGED fin
  /\ \/ \E x \in H : \E a \in {Some(0..199)} : Do([op |-> "new", x |-> x, kind |-> Kind(x), a |-> a], IF Kind(x) \in {"key", "ks"} /\ a % 2 = 1 THEN 0 ELSE 1, IF Kind(x) = "ks" THEN 1 ELSE 0)
     \/ \E x \in Pc, y \in Ke \cup Pc : \E a \in {Some(0..199)} : Do([op |-> "from", x |-> x, y |-> y, kind |-> "pc", of |-> Kind(y), a |-> a, keep |-> IF y \in Ke THEN "it" ELSE "same"], 1, 0)
     \/ \E x \in Ke, y \in Pc : \E a \in {Some(0..199)} : Do([op |-> "from", x |-> x, y |-> y, kind |-> "key", of |-> "pc", a |-> a, keep |-> "no"], 1, 0)
     \/ \E x \in Ke, y \in Ks : \E a \in {Some(0..199)} : Do([op |-> "part", x |-> x, y |-> y, kind |-> "key", of |-> "ks", a |-> a], 1, 0)
     \/ \E x \in H, z \in 1..3 : \E a \in {Some(0..199)} : Do([op |-> "use", x |-> x, kind |-> Kind(x), a |-> a], 1, 0)
     \/ \E x \in H, y \in H : Kind(x) = Kind(y) /\ Kind(x) \in {"md", "ci", "key"} /\ \E a \in {Some(0..199)} : Do([op |-> "both", x |-> x, y |-> y, kind |-> Kind(x), a |-> a], 1, 0)
     \/ \E x \in H : Some(1..2) = 1 /\ Do([op |-> "free", x |-> x, kind |-> Kind(x)], 1, 0)
     \/ \E a \in {Some(0..199)} : Do([op |-> "once", x |-> 0, kind |-> "any", a |-> a], 1, 0)
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << st, hist >>
Next == Act \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
