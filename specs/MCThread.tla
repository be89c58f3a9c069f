------------------------------ MODULE MCThread ------------------------------
EXTENDS ThreadSpec
=============================================================================
