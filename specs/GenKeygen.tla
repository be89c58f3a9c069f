----------------------------- MODULE GenKeygen -----------------------------
(***************************************************************************)
(* Sequences of requests to key generation contexts, for the replay.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Slots, D
VARIABLES kc, hist, fin
CN(v) == IF v = "good" THEN {v} ELSE {}
NL(v) == FALSE
KG == INSTANCE KeygenSpec WITH DefaultCurve <- "dc", DefaultTable <- "dt", CurveOf <- CN, TableOf <- CN, Lax <- NL
Init == kc = [s \in Slots |-> KG!None] /\ hist = << >> /\ fin = FALSE
Do(e) == KG!CanDo(kc, e) /\ kc' = KG!Apply(kc, e, 1).kc /\ hist' = Append(hist, e)
Call == /\ Len(hist) < D /\ UNCHANGED fin
        /\ \/ \E s \in Slots, l \in {0, 1} : Do([op |-> "g_new", s |-> s, le |-> l])
           \/ \E s \in Slots, o \in {"g_init", "g_gen", "g_gen", "g_other"} : Do([op |-> o, s |-> s])
           \/ \E s \in Slots : Len(hist) % 4 = 0 /\ Do([op |-> "g_free", s |-> s])
           \/ \E s \in Slots, v \in {"good", "bad"} : Do([op |-> "g_cstr", s |-> s, v |-> v]) \/ Do([op |-> "g_sstr", s |-> s, v |-> v])
           \/ \E s \in Slots, g \in BOOLEAN : Do([op |-> "g_grp", s |-> s, given |-> g, cv |-> "x"])
           \/ \E s \in Slots, g \in BOOLEAN, p \in {64, 64, 63} : Do([op |-> "g_sbox", s |-> s, given |-> g, p1 |-> p, data |-> "u"])
           \/ \E s \in Slots, f \in Slots : Do([op |-> "g_dup", s |-> s, from |-> f])
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << kc, hist >>
Next == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
