---------------------------- MODULE TinyCurves ----------------------------
(***************************************************************************)
(* Curves small enough to enumerate: prime field degrees 5 to 13, a = 0    *)
(* and a = 1, prime subgroup order, cofactors 2 and 4.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Tiny == <<
  [p |-> <<37>>, a |-> <<>>, b |-> <<5>>, n |-> <<7>>, gx |-> <<27>>, gy |-> <<9>>],
  [p |-> <<37>>, a |-> <<1>>, b |-> <<1>>, n |-> <<11>>, gx |-> <<10>>, gy |-> <<18>>],
  [p |-> <<131>>, a |-> <<>>, b |-> <<37>>, n |-> <<31>>, gx |-> <<10>>, gy |-> <<111>>],
  [p |-> <<131>>, a |-> <<1>>, b |-> <<15>>, n |-> <<59>>, gx |-> <<27>>, gy |-> <<82>>],
  [p |-> <<5,8>>, a |-> <<>>, b |-> <<120,2>>, n |-> <<9,2>>, gx |-> <<4,5>>, gy |-> <<27,4>>],
  [p |-> <<5,8>>, a |-> <<1>>, b |-> <<60,5>>, n |-> <<229,3>>, gx |-> <<61,5>>, gy |-> <<191,3>>],
  [p |-> <<27,32>>, a |-> <<>>, b |-> <<51,13>>, n |-> <<35,8>>, gx |-> <<242,24>>, gy |-> <<52,25>>],
  [p |-> <<27,32>>, a |-> <<1>>, b |-> <<223,19>>, n |-> <<37,16>>, gx |-> <<222,19>>, gy |-> <<146,1>>] >>
=============================================================================
