---------------------------- MODULE MC_GlobalMin ----------------------------
EXTENDS GlobalMin
=============================================================================
