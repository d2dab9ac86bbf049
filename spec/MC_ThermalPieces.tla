-------------------------- MODULE MC_ThermalPieces --------------------------
EXTENDS ThermalPieces, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
=============================================================================
