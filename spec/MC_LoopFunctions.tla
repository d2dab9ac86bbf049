-------------------------- MODULE MC_LoopFunctions --------------------------
EXTENDS LoopFunctions, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
=============================================================================
