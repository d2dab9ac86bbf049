---------------------------- MODULE MC_Tensors ----------------------------
EXTENDS Tensors, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
Small == {<<2, 2>>}
Wide == {<<2, 2>>, <<3, 2>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<1, 1>>, <<3, 1>>}
=============================================================================
