------------------------------- MODULE MCLife -------------------------------
EXTENDS LifeSpec
=============================================================================
