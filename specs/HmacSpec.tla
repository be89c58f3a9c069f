------------------------------ MODULE HmacSpec ------------------------------
(***************************************************************************)
(* HMAC contexts (RFC 2104) as the library drives a digest: the key fixes  *)
(* two digest states, inner and outer; a message goes into a copy of the   *)
(* inner one, its value into a copy of the outer one.  A context may be    *)
(* started again with its key, given another key, copied at any moment.    *)
(* Slots: absent, blank (no key yet), open, done (value delivered).        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS BlockLen, DFresh, DUpd(_,_), DValue(_), PadIn(_), PadOut(_), ZeroOctet
Absent == [st |-> "none"]
Blank == [st |-> "blank"]
KeyBlock(k) == LET k0 == IF Len(k) > BlockLen THEN DValue(DUpd(DFresh, k)) ELSE k
               IN  [i \in 1..BlockLen |-> IF i <= Len(k0) THEN k0[i] ELSE ZeroOctet]
Keyed(k) == LET b == KeyBlock(k)
                in == DUpd(DFresh, [i \in 1..BlockLen |-> PadIn(b[i])])
            IN [st |-> "open", in |-> in, out |-> DUpd(DFresh, [i \in 1..BlockLen |-> PadOut(b[i])]), cur |-> in]
Out(c) == DValue(DUpd(c.out, DValue(c.cur)))
HasKey(h, s) == h[s].st \in {"open", "done"}
CanDo(h, e) ==
  CASE e.op = "hm_new" -> h[e.s].st = "none"
    [] e.op = "hm_init" -> h[e.s].st # "none"
    [] e.op = "hm_re" -> HasKey(h, e.s)
    [] e.op \in {"hm_upd", "hm_fin"} -> h[e.s].st = "open"
    [] e.op = "hm_copy" -> h[e.s].st # "none" /\ HasKey(h, e.from) /\ e.s # e.from
    [] e.op = "hm_free" -> h[e.s].st # "none"
    [] OTHER -> FALSE
Ok(h) == [h |-> h, res |-> [ok |-> 1]]
Apply(h, e) ==
  CASE e.op = "hm_new" -> Ok([h EXCEPT ![e.s] = Blank])
    [] e.op = "hm_init" -> Ok([h EXCEPT ![e.s] = Keyed(e.key)])
    [] e.op = "hm_re" -> Ok([h EXCEPT ![e.s].cur = h[e.s].in, ![e.s].st = "open"])
    [] e.op = "hm_upd" -> Ok([h EXCEPT ![e.s].cur = DUpd(@, e.data)])
    [] e.op = "hm_fin" -> [h |-> [h EXCEPT ![e.s].st = "done"], res |-> [ok |-> 1, out |-> Out(h[e.s])]]
    [] e.op = "hm_copy" -> Ok([h EXCEPT ![e.s] = h[e.from]])
    [] e.op = "hm_free" -> Ok([h EXCEPT ![e.s] = Absent])
=============================================================================
