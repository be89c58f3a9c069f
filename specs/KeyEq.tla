------------------------------- MODULE KeyEq -------------------------------
(***************************************************************************)
(* Comparison of keys.  A key has an effective table: one that was absent  *)
(* is the default one.  EVP answers: 1 equal, 0 different, -1 of different *)
(* type, -2 cannot be said (a key without public point).                   *)
(***************************************************************************)
EXTENDS KeyCodec
Eff(k) == << k.cv, k.sb >>
CmpWant(a, b) == IF a.le # b.le THEN {-1}
                 ELSE IF ~a.hasQ \/ ~b.hasQ THEN (IF Eff(a) # Eff(b) THEN {0, -2} ELSE {-2, 0})
                 ELSE IF Eff(a) = Eff(b) /\ a.Q = b.Q THEN {1} ELSE {0}
PCmpWant(a, b) == IF a.le # b.le THEN {-1} ELSE IF Eff(a) = Eff(b) THEN {1} ELSE {0}
=============================================================================
