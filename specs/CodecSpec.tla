----------------------------- MODULE CodecSpec -----------------------------
(***************************************************************************)
(* A key travels: it is chosen, written as one of its encodings, possibly  *)
(* damaged on the way (one octet changed, cut short, lengthened), and read *)
(* again.                                                                  *)
(***************************************************************************)
EXTENDS KeyCodec, FiniteSets
CONSTANTS Curves, Tables, Orders, Damage       \* Damage: octet differences applied
VARIABLES k, form, x, ph
vars == << k, form, x, ph >>

RECURSIVE Multiples(_,_,_)
Multiples(cv, P, S) == IF P.inf THEN S ELSE Multiples(cv, Add(cv, P, Base(cv)), S \cup {P})
Points(cv) == Multiples(cv, Base(cv), {}) \cup { Pt(BZero, Sqrt(cv.b, cv.p)) }
Plain(cv, sb, le) == [le |-> le, cv |-> cv, sb |-> sb, hasD |-> FALSE, d |-> BZero, hasQ |-> FALSE, Q |-> Inf]
PubKeys(cv, sb, le) == { [Plain(cv, sb, le) EXCEPT !.hasQ = TRUE, !.Q = P] : P \in { P \in Points(cv) : Encodable(cv, P) } }
PrivKeys(cv, sb, le) == { [Plain(cv, sb, le) EXCEPT !.hasD = TRUE, !.d = BigOf(d), !.hasQ = TRUE, !.Q = PubOf(cv, BigOf(d))]
                          : d \in 1..(NatOf(cv.n) - 1) }
Enc(f, key) == CASE f = "pub" -> PubDer(key) [] f = "priv" -> PrivDer(key) [] f = "par" -> ParamsDer(key.le, key.cv, key.sb)
Dec(f, o, le) == CASE f = "pub" -> ParsePub(o) [] f = "priv" -> ParsePriv(o) [] f = "par" -> ParsePar(o, le)

Init == /\ ph = "made" /\ x = << >>
        /\ \E cv \in Curves, sb \in Tables, le \in Orders :
             \/ form = "pub" /\ k \in PubKeys(cv, sb, le)
             \/ form = "priv" /\ k \in PrivKeys(cv, sb, le)
             \/ form = "par" /\ k = Plain(cv, sb, le)
Write == ph = "made" /\ ph' = "sent" /\ x' = Enc(form, k) /\ UNCHANGED << k, form >>
Hurt == /\ ph = "sent" /\ ph' = "hurt" /\ UNCHANGED << k, form >>
        /\ \/ \E j \in 1..Len(x), v \in Damage : x' = [x EXCEPT ![j] = (@ + v) % 256]
           \/ \E j \in 0..(Len(x)-1) : x' = SubSeq(x, 1, j)
           \/ x' = x \o << 0 >>
           \/ \E j \in 1..Len(x) : x' = SubSeq(x, 1, j-1) \o SubSeq(x, j+1, Len(x))
Next == Write \/ Hurt

\* an undamaged encoding is read as the key it was made from, and must be accepted
RoundTrip == ph = "sent" => LET p == Dec(form, x, k.le) IN p.v = "ok" /\ p.full /\ p.key = k
\* no damaged encoding of a key is the prescribed encoding of the same key, and
\* whatever is read from one is a key on its curve that is read again from its own encoding
NoHalf == ph = "hurt" =>
   LET p == Dec(form, x, k.le) IN
   p.v = "ok" =>
     /\ (p.full => p.key # k \/ x = Enc(form, k))
     /\ (p.key.hasQ => OnCurve(p.key.cv, p.key.Q) /\ ~p.key.Q.inf)
     /\ OnCurve(p.key.cv, Base(p.key.cv))
     /\ (~p.key.hasQ \/ Encodable(p.key.cv, p.key.Q)) /\ Encodable(p.key.cv, Base(p.key.cv)) =>
          LET q == Dec(form, Enc(form, p.key), p.key.le) IN q.v = "ok" /\ q.key = p.key
\* two different keys never share an encoding: with RoundTrip, Enc is injective
=============================================================================
