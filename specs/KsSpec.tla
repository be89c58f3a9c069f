------------------------------- MODULE KsSpec -------------------------------
(***************************************************************************)
(* Key store handles: what a reader returned, lookups by position, own     *)
(* references of the caller, and freeing.                                  *)
(*   ks[s]  None or [keys, certs]: lists of objects                        *)
(*   rf[r]  None or an object the caller holds a reference to              *)
(***************************************************************************)
EXTENDS Naturals, Sequences
None == [there |-> FALSE]
Store(k, c) == [there |-> TRUE, keys |-> k, certs |-> c]
Hold(o) == [there |-> TRUE, obj |-> o]
At(l, pos) == IF pos < Len(l) THEN [ok |-> 1, obj |-> l[pos + 1]] ELSE [ok |-> 0]
CanDo(ks, rf, ev) ==
  CASE ev.op = "read" -> ~ks[ev.s].there
    [] ev.op \in {"num", "key", "cert", "free"} -> ks[ev.s].there
    [] ev.op = "refkey" -> ks[ev.s].there /\ ev.pos < Len(ks[ev.s].keys) /\ ~rf[ev.r].there
    [] ev.op = "refcert" -> ks[ev.s].there /\ ev.pos < Len(ks[ev.s].certs) /\ ~rf[ev.r].there
    [] ev.op \in {"use", "drop"} -> rf[ev.r].there
\* what the lookup gives
Look(ks, ev) == At(IF ev.op = "key" THEN ks[ev.s].keys ELSE ks[ev.s].certs, ev.pos)
\* keys and certificates read: for "read"
NextKs(ks, ev, k, c) ==
  CASE ev.op = "read" -> [ks EXCEPT ![ev.s] = Store(k, c)]
    [] ev.op = "free" -> [ks EXCEPT ![ev.s] = None]
    [] OTHER -> ks
NextRf(ks, rf, ev) ==
  CASE ev.op = "refkey" -> [rf EXCEPT ![ev.r] = Hold(ks[ev.s].keys[ev.pos + 1])]
    [] ev.op = "refcert" -> [rf EXCEPT ![ev.r] = Hold(ks[ev.s].certs[ev.pos + 1])]
    [] ev.op = "drop" -> [rf EXCEPT ![ev.r] = None]
    [] OTHER -> rf
=============================================================================
