----------------------------- MODULE KeygenSpec -----------------------------
(***************************************************************************)
(* Key generation contexts: which curve and table a generated key gets.    *)
(* A context is absent, new (made, not yet initialised for generation) or  *)
(* ready.  Requests by string are taken at any time, requests by control   *)
(* only when ready.  A refused request changes nothing; a duplicate is a   *)
(* context of its own with the settings of the original.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS DefaultCurve, DefaultTable,
          CurveOf(_),        \* curve name (octets) -> set with the curve, or {}
          TableOf(_),        \* table string (octets) -> set with the table, or {}
          Lax(_)             \* table strings for which either answer is allowed
None == [st |-> "none"]
Made(le) == [st |-> "new", le |-> le, cv |-> DefaultCurve, sb |-> DefaultTable]
There(kc, s) == kc[s].st # "none"
CanDo(kc, e) ==
  CASE e.op = "g_new" -> kc[e.s].st = "none"
    [] e.op = "g_dup" -> kc[e.s].st = "none" /\ There(kc, e.from)
    [] OTHER -> There(kc, e.s)
Yes(kc) == [kc |-> kc, ok |-> {1}]
Refuse(kc) == [kc |-> kc, ok |-> {0}]
\* the state after the request and the answers allowed; got: the recorded answer, where two are allowed
Apply(kc, e, got) ==
  CASE e.op = "g_new" -> Yes([kc EXCEPT ![e.s] = Made(e.le = 1)])
    [] e.op = "g_init" -> Yes([kc EXCEPT ![e.s].st = "ready"])
    [] e.op = "g_cstr" -> IF CurveOf(e.v) = {} THEN Refuse(kc) ELSE Yes([kc EXCEPT ![e.s].cv = CHOOSE c \in CurveOf(e.v) : TRUE])
    [] e.op = "g_sstr" -> IF TableOf(e.v) = {} THEN Refuse(kc)
                          ELSE IF Lax(e.v) THEN [kc |-> IF got = 1 THEN [kc EXCEPT ![e.s].sb = CHOOSE t \in TableOf(e.v) : TRUE] ELSE kc, ok |-> {0, 1}]
                          ELSE Yes([kc EXCEPT ![e.s].sb = CHOOSE t \in TableOf(e.v) : TRUE])
    [] e.op = "g_grp" -> IF kc[e.s].st # "ready" \/ ~e.given THEN Refuse(kc) ELSE Yes([kc EXCEPT ![e.s].cv = e.cv])
    [] e.op = "g_sbox" -> IF kc[e.s].st # "ready" \/ ~e.given \/ e.p1 # 64 THEN Refuse(kc) ELSE Yes([kc EXCEPT ![e.s].sb = e.data])
    [] e.op = "g_other" -> Refuse(kc)           \* a request the algorithm does not know
    \* libcrypto 3 does not duplicate contexts already initialised for generation
    [] e.op = "g_dup" -> IF kc[e.from].st = "ready" THEN Refuse(kc) ELSE Yes([kc EXCEPT ![e.s] = kc[e.from]])
    [] e.op = "g_free" -> Yes([kc EXCEPT ![e.s] = None])
    [] e.op = "g_gen" -> IF kc[e.s].st # "ready" THEN Refuse(kc) ELSE Yes(kc)
=============================================================================
