------------------------------- MODULE MCRbg --------------------------------
EXTENDS RbgSpec
=============================================================================
