------------------------------ MODULE MC_Bubble ------------------------------
EXTENDS Bubble, Randomization
Values == {30, 60, 100, 180, 300, 700}
(* next to the critical temperature nothing nucleates *)
AllProfiles == {p \in [Node -> Values] : p[N] > Limit}
Few == {p \in [Node -> {30, 100, 180, 300}] : p[N] > Limit}
Sets == SUBSET Node
NoFail == {{}}
All(t, S) == S
One(t, S) == RandomSubset(1, S)
(* profiles of every kind: falling towards low temperature, with a minimum,   *)
(* with a flat part, wavy                                                     *)
Up(p) == \A k \in 1..N-1 : p[k] <= p[k + 1]
Bowl(p) == \E m \in Node : (\A k \in 1..m-1 : p[k] >= p[k + 1]) /\ (\A k \in m..N-1 : p[k] <= p[k + 1])
UpProfiles == {p \in AllProfiles : Up(p)}
BowlProfiles == {p \in AllProfiles : Bowl(p)}
Drawn(t, S) == CASE t = "p" -> LET c == RandomElement(1..10) IN
                               IF c <= 3 THEN RandomSubset(1, UpProfiles)
                               ELSE IF c <= 8 THEN RandomSubset(1, BowlProfiles) ELSE RandomSubset(1, S)
                 [] t = "fail" -> IF RandomElement(1..4) > 1 THEN {{}} ELSE RandomSubset(1, S)
                 [] OTHER -> RandomSubset(1, S)
=============================================================================
