-------------------------- MODULE MC_Restoration --------------------------
EXTENDS Restoration, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
Bends == {-1, 0, 1, 2, 5}
FewBends == {-1, 0, 2}
Away == {-400, -30, -4, -1, 0, 1, 4, 8, 30, 400}
FewAway == {-30, 0, 1}
=============================================================================
