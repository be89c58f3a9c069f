------------------------------ MODULE GenHmac -------------------------------
(* Call sequences on HMAC contexts for the replay, lengths instead of data. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Slots, Lens, KeyLens, D
NoUpd(c, d) == c
NoVal(c) == << >>
Id(o) == o
VARIABLES h, hist, fin
HS == INSTANCE HmacSpec WITH BlockLen <- 1, DFresh <- 0, DUpd <- NoUpd, DValue <- NoVal, PadIn <- Id, PadOut <- Id, ZeroOctet <- 0
Init == h = [s \in Slots |-> HS!Absent] /\ hist = << >> /\ fin = FALSE
Rec(ev, abs) == HS!CanDo(h, abs) /\ h' = HS!Apply(h, abs).h /\ hist' = Append(hist, ev)
Same(ev) == Rec(ev, ev)
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << h, hist >>
Call == /\ Len(hist) < D /\ UNCHANGED fin
        /\ \/ \E s \in Slots : Same([op |-> "hm_new", s |-> s]) \/ Same([op |-> "hm_re", s |-> s]) \/ Same([op |-> "hm_fin", s |-> s])
           \/ \E s \in Slots, l \in KeyLens : Rec([op |-> "hm_init", s |-> s, len |-> l], [op |-> "hm_init", s |-> s, key |-> << >>])
           \/ \E s \in Slots, l \in Lens : Rec([op |-> "hm_upd", s |-> s, len |-> l], [op |-> "hm_upd", s |-> s, data |-> << >>])
           \/ \E s \in Slots, f \in Slots : Same([op |-> "hm_copy", s |-> s, from |-> f])
           \/ \E s \in Slots : Len(hist) > 6 /\ Same([op |-> "hm_free", s |-> s])
Next == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
