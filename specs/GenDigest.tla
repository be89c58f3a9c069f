------------------------------ MODULE GenDigest ------------------------------
(***************************************************************************)
(* Call sequences for the replay: the protocol of DigestSpec with lengths  *)
(* instead of data.  Run with TLC -simulate; every behaviour of length D   *)
(* is printed as one JSON line.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Lens, D
NoAbs(sb, H, S, d) == << H, S >>
NoRep(sb, H, S, d, n) == << H, S >>
NoStep(sb, H, m) == H
NoPlus(S, m) == S
NoLen(n, r) == << >>
VARIABLES st, hist, fin
DS == INSTANCE DigestSpec WITH B <- 1, Absorb <- NoAbs, AbsorbRep <- NoRep, FinalStep <- NoStep, SumAdd <- NoPlus, ZeroBlock <- << 0 >>,
                         LenBlock <- NoLen, DefaultTable <- "d", TableSize <- 64
Init == st = [s \in Slots |-> DS!Absent] /\ hist = << >> /\ fin = FALSE
\* abstract event used for the protocol state, the recorded event keeps the length
Rec(ev, abs) == DS!CanDo(st, abs) /\ st' = DS!Apply(st, abs).st /\ hist' = Append(hist, ev)
Same(ev) == Rec(ev, ev)
One(l) == IF l = 0 THEN << >> ELSE << 1 >>
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << st, hist >>
Call ==
  /\ Len(hist) < D /\ UNCHANGED fin
  /\ \/ \E s \in Slots : Same([op |-> "new", s |-> s]) \/ Same([op |-> "init", s |-> s]) \/ Same([op |-> "fin", s |-> s])
     \/ \E s \in Slots, l \in Lens : Rec([op |-> "upd", s |-> s, len |-> l], [op |-> "upd", s |-> s, data |-> One(l)])
     \/ \E s \in Slots, f \in Slots : Same([op |-> "copy", s |-> s, from |-> f])
     \/ \E s \in Slots, n \in {64, 64, 63, 65, 0}, g \in BOOLEAN :
          Same([op |-> "sbox", s |-> s, p1 |-> n, given |-> g, data |-> "t"])
     \/ \E s \in Slots : Len(hist) > 3 /\ Same([op |-> "free", s |-> s])
Next == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
