---------------------------- MODULE MC_SelfTest ----------------------------
EXTENDS SelfTest, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
=============================================================================
