------------------------------ MODULE MCCurves ------------------------------
EXTENDS CurveSpec
=============================================================================
