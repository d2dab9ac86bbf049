-------------------------- MODULE MC_Counterterms --------------------------
EXTENDS Counterterms
All(S) == S
One(S) == {RandomElement(S)}
Mixed == (-3..4) \ {0}
=============================================================================
