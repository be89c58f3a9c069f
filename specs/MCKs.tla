-------------------------------- MODULE MCKs --------------------------------
(***************************************************************************)
(* All histories of a few stores and references.  Objects are numbered as  *)
(* they are read; cnt counts their references the way the implementation   *)
(* does: one for the store (moved, not copied, when entries are appended   *)
(* while reading), one for each reference of the caller.                   *)
(***************************************************************************)
EXTENDS KsSpec, FiniteSets
CONSTANTS S, R, MaxK, MaxC, MaxObj
VARIABLES ks, rf, cnt, born
vars == << ks, rf, cnt, born >>
Objs == 1..MaxObj
Ids(n) == [i \in 1..n |-> born + i]
Range(f) == { f[i] : i \in DOMAIN f }
Init == ks = [s \in S |-> None] /\ rf = [r \in R |-> None] /\ cnt = [o \in Objs |-> 0] /\ born = 0
Step(ev, k, c) == /\ CanDo(ks, rf, ev)
                  /\ ks' = NextKs(ks, ev, k, c) /\ rf' = NextRf(ks, rf, ev)
Read(s) == \E nk \in 0..MaxK, nc \in 0..MaxC :
   /\ born + nk + nc <= MaxObj
   /\ LET k == Ids(nk)  c == [i \in 1..nc |-> born + nk + i] IN
      /\ Step([op |-> "read", s |-> s], k, c)
      /\ cnt' = [o \in Objs |-> IF o \in Range(k) \cup Range(c) THEN 1 ELSE cnt[o]]
   /\ born' = born + nk + nc
RefKey(s, p, r) == /\ Step([op |-> "refkey", s |-> s, pos |-> p, r |-> r], << >>, << >>)
                   /\ cnt' = [cnt EXCEPT ![ks[s].keys[p+1]] = @ + 1] /\ born' = born
RefCert(s, p, r) == /\ Step([op |-> "refcert", s |-> s, pos |-> p, r |-> r], << >>, << >>)
                    /\ cnt' = [cnt EXCEPT ![ks[s].certs[p+1]] = @ + 1] /\ born' = born
Drop(r) == /\ Step([op |-> "drop", r |-> r], << >>, << >>)
           /\ cnt' = [cnt EXCEPT ![rf[r].obj] = @ - 1] /\ born' = born
Free(s) == /\ Step([op |-> "free", s |-> s], << >>, << >>)
           /\ cnt' = [o \in Objs |-> IF o \in Range(ks[s].keys) \cup Range(ks[s].certs) THEN cnt[o] - 1 ELSE cnt[o]]
           /\ born' = born
Next == \/ \E s \in S : Read(s) \/ Free(s)
        \/ \E s \in S, p \in 0..MaxK, r \in R : RefKey(s, p, r)
        \/ \E s \in S, p \in 0..MaxC, r \in R : RefCert(s, p, r)
        \/ \E r \in R : Drop(r)
Owned == UNION ({ Range(ks[s].keys) \cup Range(ks[s].certs) : s \in { s \in S : ks[s].there } } \cup { { rf[r].obj } : r \in { r \in R : rf[r].there } })
\* what can be reached is alive, and nothing else is: no use after free, no leak
Alive == { o \in Objs : cnt[o] > 0 }
Exact == Alive = Owned /\ \A o \in Objs : cnt[o] \in Nat
\* lookups: distinct positions give distinct objects, positions past the end nothing
Distinct == \A s \in S : ks[s].there =>
   LET l == ks[s].keys \o ks[s].certs IN Cardinality(Range(l)) = Len(l)
Bounds == \A s \in S : ks[s].there => \A p \in 0..(MaxK + 2) : (At(ks[s].keys, p).ok = 1) <=> p < Len(ks[s].keys)
\* two stores never share an object
Apart == \A s, t \in S : s # t /\ ks[s].there /\ ks[t].there =>
   (Range(ks[s].keys) \cup Range(ks[s].certs)) \cap (Range(ks[t].keys) \cup Range(ks[t].certs)) = {}
=============================================================================
