---------------------------- MODULE MC_Potential ----------------------------
EXTENDS Potential, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
Vals3 == -3..3
Field3 == -3..3
Field2 == -2..2
Neg1 == -1
=============================================================================
