---------------------------- MODULE MC_Program ----------------------------
EXTENDS Program, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
=============================================================================
