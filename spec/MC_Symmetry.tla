---------------------------- MODULE MC_Symmetry ----------------------------
EXTENDS Symmetry
Signs3 == {-1, 0, 1}
Signs1 == {1}
=============================================================================
