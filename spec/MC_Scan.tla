------------------------------ MODULE MC_Scan ------------------------------
EXTENDS Scan, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
SmallSizes == {-2, -1, 1, 2, 3}
ManySizes == {-125, -50, -7, -3, -1, 1, 2, 3, 5, 7, 10, 20, 25, 50}
=============================================================================
