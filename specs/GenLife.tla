------------------------------ MODULE GenLife -------------------------------
(***************************************************************************)
(* Sequences of LifeSpec's steps with lookups and uses in between, for the *)
(* replay.                                                                 *)
(***************************************************************************)
EXTENDS LifeSpec, Sequences, TLC, Json
CONSTANTS D
VARIABLES hist, fin, mds, cis, keys
gvars == << loaded, sref, fref, table, dflt, ctx, algs, names, texts, finishes, hist, fin, mds, cis, keys >>
GInit == Init /\ hist = << >> /\ fin = FALSE /\ mds = {} /\ cis = {} /\ keys = {}
Rec(e) == hist' = Append(hist, e)
Step(a, e) == a /\ Rec(e) /\ UNCHANGED << mds, cis, keys >>
Side(e) == UNCHANGED vars /\ Rec(e)
Quiet(e) == Side(e) /\ UNCHANGED << mds, cis, keys >>
How == {"g", "n", "s", "i", "t"}
S == 0..3
Call ==
  /\ Len(hist) < D /\ UNCHANGED fin
  /\ \/ Step(ById, [op |-> "byid"]) \/ Step(Use, [op |-> "init"]) \/ Step(Finish, [op |-> "finish"]) \/ Step(Release, [op |-> "free"])
     \/ \E v \in {"ALL", "DIGESTS", "CIPHERS", "PKEY", "PKEY_CRYPTO", "PKEY_ASN1", "RAND"} : Step(Default, [op |-> "default", v |-> v])
     \/ Step(Unregister, [op |-> "undefault"]) \/ Step(Register, [op |-> "register"])
     \/ loaded /\ \E o \in {"look", "err", "dyn", "conf", "unconf"} : Quiet([op |-> o])
     \/ \E h \in How, e \in {0, 1} : Quiet([op |-> "md", how |-> h, eng |-> e]) \/ Quiet([op |-> "ci", how |-> h, eng |-> e])
     \/ \E h \in {"e", "p"} : Quiet([op |-> "rand", how |-> h])
     \/ loaded /\ \E v \in {0, 1} : Quiet([op |-> "setrand", v |-> v])
     \/ loaded /\ \E s \in S \ mds, h \in How, e \in {0, 1} : Side([op |-> "mopen", s |-> s, how |-> h, eng |-> e]) /\ mds' = mds \cup {s} /\ UNCHANGED << cis, keys >>
     \/ \E s \in mds : Quiet([op |-> "mupd", s |-> s])
     \/ \E s \in mds : Side([op |-> "mfin", s |-> s]) /\ mds' = mds \ {s} /\ UNCHANGED << cis, keys >>
     \/ loaded /\ \E s \in S \ cis, h \in How, e \in {0, 1} : Side([op |-> "copen", s |-> s, how |-> h, eng |-> e]) /\ cis' = cis \cup {s} /\ UNCHANGED << mds, keys >>
     \/ \E s \in cis : Quiet([op |-> "cupd", s |-> s])
     \/ \E s \in cis : Side([op |-> "cfree", s |-> s]) /\ cis' = cis \ {s} /\ UNCHANGED << mds, keys >>
     \/ \E s \in S \ keys, o \in {"load", "gen"}, e \in {0, 1} : loaded /\ Side([op |-> o, s |-> s, eng |-> e]) /\ keys' = keys \cup {s} /\ UNCHANGED << mds, cis >>
     \/ \E s \in keys, e \in {0, 1} : Quiet([op |-> "sv", s |-> s, eng |-> e])
     \/ \E s \in keys : Side([op |-> "kfree", s |-> s]) /\ keys' = keys \ {s} /\ UNCHANGED << mds, cis >>
Stop == Len(hist) = D /\ ~fin /\ fin' = TRUE /\ UNCHANGED << loaded, sref, fref, table, dflt, ctx, algs, names, texts, finishes, hist, mds, cis, keys >>
GNext == Call \/ Stop
Emit == fin => PrintT("@@" \o ToJson(hist))
=============================================================================
