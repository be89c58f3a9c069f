------------------------------ MODULE MCNonce -------------------------------
EXTENDS NonceSpec, TinyCurves
CONSTANT Which
MCCurve == Tiny[Which]
MCKeys == { BigOf(v) : v \in {1, 2, NatOf(Tiny[Which].n) - 1} }
MCHashes == { << 0 >>, << 1 >>, << 0, 3 >>, << 224, 7 >>, << 29 >> }
=============================================================================
