------------------------------- MODULE MCHmac -------------------------------
(***************************************************************************)
(* HmacSpec over DigestSpec, both with free terms: whatever is done to two *)
(* contexts, each delivers HMAC, as RFC 2104 defines it on the whole       *)
(* message, of what was supplied to it since its last start, under its own *)
(* key.                                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxMsg, Slots
BB == 2
\* digests of digests stay one octet long: an octet is a string
Step(sb, H, m) == << ToString(<< "h", H, m >>), "v" >>
Plus(S, m) == << ToString(<< "+", S, m >>), "v" >>
RECURSIVE Abs(_,_,_,_)
Abs(sb, H, S, d) == IF Len(d) < BB THEN << H, S >>
                    ELSE Abs(sb, Step(sb, H, SubSeq(d,1,BB)), Plus(S, SubSeq(d,1,BB)), SubSeq(d, BB+1, Len(d)))
Rep(sb, H, S, d, n) == << H, S >>
LB(n, r) == << "len", ToString(n * BB + r) >>
Z == << "0", "0" >>
D == INSTANCE DigestSpec WITH B <- BB, Absorb <- Abs, AbsorbRep <- Rep, FinalStep <- Step, SumAdd <- Plus, ZeroBlock <- Z,
                         LenBlock <- LB, DefaultTable <- "d", TableSize <- 64
Xi(o) == o \o "^36"
Xo(o) == o \o "^5c"
VARIABLES h, key, msg
INSTANCE HmacSpec WITH BlockLen <- BB, DFresh <- D!Fresh, DUpd <- D!Upd, DValue <- D!Value, PadIn <- Xi, PadOut <- Xo, ZeroOctet <- "0"
\* the definition, on whole messages
Hash(m) == D!Value(D!Upd(D!Fresh, m))
RfcKey(k) == LET k0 == IF Len(k) > BB THEN Hash(k) ELSE k IN [i \in 1..BB |-> IF i <= Len(k0) THEN k0[i] ELSE "0"]
Rfc(k, m) == Hash([i \in 1..BB |-> Xo(RfcKey(k)[i])] \o Hash([i \in 1..BB |-> Xi(RfcKey(k)[i])] \o m))
Keys == { << >>, << "1" >>, << "1", "0" >>, << "1", "0", "1" >> }
Data == { << >>, << "1" >>, << "0", "1" >>, << "1", "1", "0" >> }
Events == [op : {"hm_new", "hm_re", "hm_fin", "hm_free"}, s : Slots] \cup [op : {"hm_init"}, s : Slots, key : Keys]
          \cup [op : {"hm_upd"}, s : Slots, data : Data] \cup [op : {"hm_copy"}, s : Slots, from : Slots]
Init == h = [s \in Slots |-> Absent] /\ key = [s \in Slots |-> << >>] /\ msg = [s \in Slots |-> << >>]
Do(e) ==
  /\ CanDo(h, e) /\ (e.op = "hm_upd" => Len(msg[e.s]) + Len(e.data) <= MaxMsg)
  /\ h' = Apply(h, e).h
  /\ key' = CASE e.op = "hm_init" -> [key EXCEPT ![e.s] = e.key]
              [] e.op = "hm_copy" -> [key EXCEPT ![e.s] = key[e.from]]
              [] e.op \in {"hm_new", "hm_free"} -> [key EXCEPT ![e.s] = << >>]
              [] OTHER -> key
  /\ msg' = CASE e.op \in {"hm_init", "hm_re", "hm_new", "hm_free", "hm_fin"} -> [msg EXCEPT ![e.s] = << >>]
              [] e.op = "hm_upd" -> [msg EXCEPT ![e.s] = @ \o e.data]
              [] e.op = "hm_copy" -> [msg EXCEPT ![e.s] = msg[e.from]]
  /\ (e.op = "hm_fin" => Assert(Apply(h, e).res.out = Rfc(key[e.s], msg[e.s]), "value"))
Next == \E e \in Events : Do(e)
Own == \A s \in Slots : h[s].st = "open" => Out(h[s]) = Rfc(key[s], msg[s])
=============================================================================
