-------------------------- MODULE MC_PhaseDiagram --------------------------
EXTENDS PhaseDiagram
W == {<<0, 2000>>, <<200, 1800>>}
M == {-1, 0, 1, 2, 3}
MFast == {-1, 0, 1}
MSlow == {2, 3}
MLoop == {0, 1, 3}
MDef == {-1}
LoP == {-300, 152, 352, 552, 752, 952, 1152, 1352, 1552}
HiP == {2300, 257, 457, 657, 857, 1057, 1257, 1457, 1657}
APs == {-200, -50, 0, 60, 300}
AP == {-2500,-1500,-700,-200,0,300,900}
=============================================================================
