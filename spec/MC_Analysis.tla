---------------------------- MODULE MC_Analysis ----------------------------
EXTENDS Analysis, Randomization
Answers == -1..3
Traces == {"success", "no_coverage", "no_mins_at_boundaries", "no_glob_min_coverage", "failure"}
All(t, S) == S
One(t, S) == RandomSubset(1, S)
(* choices weighted towards the later stages *)
Mostly(k, x, S) == IF RandomElement(1..k) > 1 THEN {x} ELSE RandomSubset(1, S)
Lean(t, S) == CASE t = "trace" -> Mostly(5, "success", S)
                [] t = "crit" -> Mostly(4, "success", S)
                [] t = "ok" -> Mostly(3, "success", S)
                [] t = "ewsr" -> Mostly(3, 3, S)
                [] t = "found" -> Mostly(2, 1, S)
                [] t = "phases" -> Mostly(2, MaxPhase, S)
                [] OTHER -> RandomSubset(1, S)
(* large systems of phases, most pairs succeeding *)
Several(S) == {X \in S : Cardinality(X) >= MaxPairs - 2}
Wide(t, S) == CASE t = "trace" -> {"success"}
                [] t \in {"crit", "ok"} -> Mostly(9, "success", S)
                [] t = "phases" -> Mostly(2, MaxPhase, S)
                [] OTHER -> RandomSubset(1, S)
(* only pairs and completion levels vary *)
Chains(t, S) == CASE t \in {"trace", "crit", "ok"} -> {"success"}
                  [] t = "found" -> {1}
                  [] OTHER -> S
=============================================================================
