------------------------------ MODULE NonceSpec -----------------------------
(***************************************************************************)
(* Signing and the random source, as a state machine.  The source answers  *)
(* each request with a value of 0..n-1 or with a failure; a signer draws   *)
(* until a value is usable, gives up at the first failure and never uses a *)
(* draw twice.  draws numbers the answers of the source, used records for  *)
(* every signature output which answer was its nonce.                      *)
(***************************************************************************)
EXTENDS Dstu4145, FiniteSets
CONSTANTS Curve, Keys, Hashes, MaxSig, MaxDraw
VARIABLES ph,      \* "idle", "draw"
          d, h,    \* private value and hash of the request in progress
          last,    \* the draw just made: [no, v]
          count,   \* answers given by the source
          made,    \* signatures output: [d, h, r, s, no]
          ended    \* outcomes of requests
vars == << ph, d, h, last, count, made, ended >>
N == NatOf(Curve.n)
None == [no |-> 0, v |-> 0]
Init == ph = "idle" /\ d = BZero /\ h = << >> /\ last = None /\ count = 0 /\ made = << >> /\ ended = << >>
Request == /\ ph = "idle" /\ Len(ended) < MaxSig
           /\ \E k \in Keys, x \in Hashes : d' = k /\ h' = x
           /\ ph' = "draw" /\ last' = None /\ UNCHANGED << count, made, ended >>
Usable(v) == SignWith(Curve, d, h, BigOf(v)).ok
\* a draw is usable: the signature is output
Good == /\ ph = "draw"
        /\ \E v \in 0..(N-1) :
             /\ Usable(v)
             /\ LET s == SignWith(Curve, d, h, BigOf(v)) IN
                /\ made' = Append(made, [d |-> d, h |-> h, r |-> s.r, s |-> s.s, no |-> count + 1])
                /\ last' = [no |-> count + 1, v |-> v]
        /\ count' = count + 1 /\ ph' = "idle" /\ ended' = Append(ended, "sig") /\ UNCHANGED << d, h >>
\* a draw is not usable: another one is made
Again == /\ ph = "draw" /\ count < MaxDraw
         /\ \E v \in 0..(N-1) : ~Usable(v) /\ last' = [no |-> count + 1, v |-> v]
         /\ count' = count + 1 /\ UNCHANGED << ph, d, h, made, ended >>
Fails == /\ ph = "draw" /\ ph' = "idle" /\ ended' = Append(ended, "fail") /\ last' = None
         /\ UNCHANGED << d, h, count, made >>
Next == Request \/ Good \/ Again \/ Fails
Spec == Init /\ [][Next]_vars /\ WF_vars(Good \/ Fails)

\* every signature has the nonce of its own draw, in range, recoverable from it
Nonces == { NonceOf(Curve, made[i].d, made[i].r, made[i].s) : i \in 1..Len(made) }
InRange == \A e \in Nonces : e # BZero /\ BCmp(e, Curve.n) < 0
OwnDraw == \A i, j \in 1..Len(made) : i # j => made[i].no # made[j].no
Recovered == ph = "idle" /\ last.no # 0 => NonceOf(Curve, made[Len(made)].d, made[Len(made)].r, made[Len(made)].s) = BigOf(last.v)
\* outputs are exactly the requests that did not meet a failure
OnlyGood == Len(made) = Cardinality({ i \in 1..Len(ended) : ended[i] = "sig" })
\* for every hash and key some draw is usable, and so every request ends
WayOut == ph = "draw" => \E v \in 1..(N-1) : Usable(v)
Ends == ph = "draw" ~> ph = "idle"
=============================================================================
