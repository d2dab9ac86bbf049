--------------------------- MODULE MC_ModelObject ---------------------------
EXTENDS ModelObject, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
=============================================================================
