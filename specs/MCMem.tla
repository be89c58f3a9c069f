-------------------------------- MODULE MCMem --------------------------------
EXTENDS MemSpec
=============================================================================
