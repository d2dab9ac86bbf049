--------------------------- MODULE MC_LineTable ---------------------------
EXTENDS LineTable, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
=============================================================================
