------------------------------ MODULE MC_Bounce ------------------------------
EXTENDS Bounce
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
=============================================================================
