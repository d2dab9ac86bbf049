--------------------------- MODULE MC_MinimaTable ---------------------------
EXTENDS MinimaTable, Randomization
Answers == -1..3
Traces == {"success", "no_coverage", "no_mins_at_boundaries", "no_glob_min_coverage", "failure"}
All(t, S) == S
One(t, S) == RandomSubset(1, S)
=============================================================================
