---------------------------- MODULE MC_Spectrum ----------------------------
EXTENDS Spectrum, Randomization
All(t, S) == S
One(t, S) == RandomSubset(1, S)
Mostly(k, T, S) == IF RandomElement(1..k) > 1 THEN RandomSubset(1, T) ELSE RandomSubset(1, S)
Bad == {"zero", "negative", "nan", "slow", "inf"}
Lean(t, S) == CASE t \in {"strength", "duration", "velocity"} -> Mostly(12, S \ Bad, S)
                [] t = "met" -> Mostly(5, {1..4}, S)
                [] OTHER -> RandomSubset(1, S)
Subsets == SUBSET (1..4)
=============================================================================
