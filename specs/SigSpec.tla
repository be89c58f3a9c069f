------------------------------ MODULE SigSpec ------------------------------
(***************************************************************************)
(* A signer and a verifier as a state machine: a key is chosen, a hash is  *)
(* given, nonces are drawn until one is usable, the signature is output    *)
(* and then shown to the verifier as it is or altered.  A nonce that must  *)
(* be rejected (e = 0, x = 0, r = 0 or s = 0) costs another draw and       *)
(* leaves nothing behind.                                                  *)
(***************************************************************************)
EXTENDS Dstu4145, FiniteSets
CONSTANTS Curves, Hashes, Orders         \* curves, hash octet strings, set of byte orders (le?)
VARIABLES c, le, d, Q, h, ph, draws, sig, seen
vars == << c, le, d, Q, h, ph, draws, sig, seen >>

NatN(cv) == NatOf(cv.n)
Init == /\ c \in Curves /\ le \in Orders /\ h \in Hashes
        /\ d \in { BigOf(v) : v \in 1..(NatN(c)-1) }
        /\ Q = PubOf(c, d)
        /\ ph = "draw" /\ draws = 0 /\ sig = << >> /\ seen = "none"
Draw == /\ ph = "draw"
        /\ \E v \in 0..(NatN(c)-1) :
             LET s == SignWith(c, d, h, BigOf(v)) IN
             IF s.ok
             THEN /\ ph' = "signed" /\ draws' = v /\ sig' = SigDer(c, le, s.r, s.s) /\ UNCHANGED << c, le, d, Q, h, seen >>
             ELSE UNCHANGED vars
Altered(x) == { [x EXCEPT ![j] = (@ + k) % 256] : j \in 3..Len(x), k \in {1, 255} }
Verify == /\ ph = "signed"
          /\ \E x \in {sig} \cup Altered(sig) \cup {SubSeq(sig, 1, Len(sig)-1), SubSeq(sig, 3, Len(sig))} :
               /\ seen' = (IF Verifies(c, le, Q, h, x) THEN "yes" ELSE "no")
               /\ sig' = x
          /\ ph' = "checked" /\ UNCHANGED << c, le, d, Q, h, draws >>
Next == Draw \/ Verify

KeySound == OnCurve(c, Q) /\ ~Q.inf /\ Mul(c, c.n, Q).inf
\* what is output is valid, has the announced size, and the nonce it was made with can be recovered
Halves(x) == LET b == OctetString(x).body  be == IF le THEN Rev(b) ELSE b  w == OrderBytes(c)
             IN  [s |-> BigBe(SubSeq(be, 1, w)), r |-> BigBe(SubSeq(be, w+1, 2*w))]
SignedOk == ph = "signed" =>
   /\ Len(sig) = SigSize(c) /\ Verifies(c, le, Q, h, sig)
   /\ NonceOf(c, d, Halves(sig).r, Halves(sig).s) = BigOf(draws)
   /\ draws # 0
\* the answer is the equation's: yes exactly for pairs in range that some nonce of the private key explains
CheckedOk == ph = "checked" =>
   LET o == OctetString(sig)  raw == IF o.ok THEN o.body ELSE sig
   IN IF Len(raw) # 2 * OrderBytes(c) THEN seen = "no"
      ELSE LET b == IF le THEN Rev(raw) ELSE raw
               r == BigBe(SubSeq(b, OrderBytes(c)+1, 2*OrderBytes(c)))  s == BigBe(SubSeq(b, 1, OrderBytes(c)))
               inr == r # BZero /\ s # BZero /\ BCmp(r, c.n) < 0 /\ BCmp(s, c.n) < 0
           IN (seen = "yes") = (inr /\ LET t == SignWith(c, d, h, NonceOf(c, d, r, s)) IN t.ok /\ t.r = r /\ t.s = s)
\* no hash and no key leaves the signer without a usable nonce
WayOut == ph = "draw" => \E v \in 1..(NatN(c)-1) : SignWith(c, d, h, BigOf(v)).ok
=============================================================================
