--------------------------- MODULE MC_PhaseCurve ---------------------------
EXTENDS PhaseCurve, Json
StEmpty == {<<>>}
StAny == {<<>>} \cup {<<a, b>> : a \in {0, 1, 2}, b \in {3, 4, 5}}
Emit == IF Len(hist) = MaxOps THEN PrintT("CASE " \o ToJson([start |-> start, ops |-> hist])) ELSE TRUE
=============================================================================
