---------------------------- MODULE MC_MultiStart ----------------------------
EXTENDS MultiStart
=============================================================================
