----------------------------- MODULE MCKeyText ------------------------------
(***************************************************************************)
(* Over all keys of tiny curves: the text of a private key determines all  *)
(* of the key but byte order and table, that of a public key says nothing  *)
(* about the private value.                                                *)
(***************************************************************************)
EXTENDS KeyText, CodecSpec, TinyCurves
CONSTANTS Which
MCCurves == { Tiny[i] : i \in Which }
MCTables == { DefaultSbox }
VARIABLES a, b
Pairs == UNION { LET all == PrivKeys(cv, DefaultSbox, TRUE) \cup PubKeys(cv, DefaultSbox, TRUE) \cup { Plain(cv, DefaultSbox, TRUE) } IN all : cv \in MCCurves }
TxInit == /\ a \in Pairs /\ b \in Pairs /\ k = a /\ form = "pub" /\ x = << >> /\ ph = "text"
TxNext == UNCHANGED << a, b, vars >>
Bare(y) == [y EXCEPT !.hasD = FALSE, !.d = BZero]
Tells == /\ (TextOf(a, "priv") = TextOf(b, "priv")) = (a = b)
         /\ (TextOf(a, "pub") = TextOf(b, "pub")) = (Bare(a) = Bare(b))
         /\ (TextOf(a, "par") = TextOf(b, "par")) = (a.cv = b.cv)
Hides == /\ TextOf(a, "pub") = TextOf(Bare(a), "pub") /\ TextOf(a, "par") \subseteq TextOf(a, "pub") /\ TextOf(a, "pub") \subseteq TextOf(a, "priv")
         /\ \A s \in TextOf(a, "pub") : s[1] # "priv"
=============================================================================
