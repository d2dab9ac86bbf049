------------------------------ MODULE MC_Logger ------------------------------
EXTENDS Logger
All(S) == S
One(S) == {RandomElement(S)}
LvAll == Levels \union {"complete"}
LvThree == {"default", "minimizerdetailed", "complete"}
LvFive == {"default", "minimizerdetailed", "bouncedetailed", "gwdetailed", "complete"}
VTF == {"true", "false"}
VOdd == {"true", "false", "1", "", "yes", "truex"}
=============================================================================
