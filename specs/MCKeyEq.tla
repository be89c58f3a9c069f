------------------------------ MODULE MCKeyEq ------------------------------
(***************************************************************************)
(* Three keys, each replaced any number of times by another encoding of    *)
(* itself or by another key; the comparison agrees with the encodings and  *)
(* is an equivalence.                                                      *)
(***************************************************************************)
EXTENDS KeyEq, CodecSpec, TinyCurves
CONSTANTS Which
MCCurves == { Tiny[i] : i \in Which }
MCTables == { DefaultSbox, [i \in 1..64 |-> (i * 7) % 256] }
VARIABLES a, b, c
AllKeys == UNION { LET cv == q[1] sb == q[2] le == q[3] IN PubKeys(cv, sb, le) \cup { Plain(cv, sb, le) }
                   : q \in MCCurves \X MCTables \X {TRUE, FALSE} }
\* a few keys per curve are enough for the third one
Some == { y \in AllKeys : ~y.hasQ \/ y.Q \in { Base(y.cv), Neg(y.cv, Base(y.cv)) } }
EqInit == /\ a \in AllKeys /\ b \in Some /\ c = b
          /\ k = a /\ form = "pub" /\ x = << >> /\ ph = "eq"
EqNext == /\ c = b /\ c' \in Some /\ UNCHANGED << a, b, vars >>
Form(y) == IF y.hasQ THEN PubDer(y) ELSE ParamsDer(y.le, y.cv, y.sb)
Agrees == /\ (CmpWant(a, b) = {1}) = (a.hasQ /\ b.hasQ /\ PubDer(a) = PubDer(b))
          /\ (PCmpWant(a, b) = {1}) = (a.le = b.le /\ ParamsDer(a.le, a.cv, a.sb) = ParamsDer(b.le, b.cv, b.sb))
          /\ CmpWant(a, b) = CmpWant(b, a) /\ PCmpWant(a, b) = PCmpWant(b, a)
          /\ (a.hasQ => CmpWant(a, a) = {1}) /\ PCmpWant(a, a) = {1}
          /\ (CmpWant(a, b) = {1} => PCmpWant(a, b) = {1})
Transitive == CmpWant(a, b) = {1} /\ CmpWant(b, c) = {1} => CmpWant(a, c) = {1}
=============================================================================
