----------------------------- MODULE SelfTest -----------------------------
(* The self-test of a model: a list of named tests, each about one condition. *)
(* A number that is not a number satisfies no condition.                      *)
(* A model is described by what is wrong with it (defects) and by changes     *)
(* that are allowed (harmless); the two modes say whether the model has its   *)
(* own simplified tree-level and counterterm potential.  A test fails exactly *)
(* if a defect breaks its condition, whatever else is wrong.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, MaxBroken, Pick(_)
VARIABLES broken, tame, tree, counter, n
vars == <<broken, tame, tree, counter, n>>

(* the tests in the order of the report *)
Order == <<"ctlabels", "vevlabels", "templabels", "triplelabels", "ckm", "gauge", "lepton", "quark", "minimum", "tadpole", "nlo", "vtree", "vcounter",
           "second", "first", "L2", "L3", "L4", "G", "FL1", "FL0", "FQ1", "FQ0">>
(* tests that are not in the report *)
Apart == {"ctnumber", "identities"}
Tests == {Order[i] : i \in DOMAIN Order} \cup Apart
(* the conditions broken by a defect *)
Cause == [ctlabels |-> {"ctlabels"}, ctnumber |-> {"ctnumber"}, vevlabels |-> {"vevlabels"}, templabels |-> {"templabels"},
          triplelabels |-> {"triplelabels"},
          ckmentry |-> {"ckm"}, ckmnan |-> {"ckm"},
          bosonmass |-> {"gauge"}, photonmass |-> {"gauge"}, bosonnan |-> {"gauge", "G"},
          leptonmass |-> {"lepton"}, neutrinomass |-> {"lepton"}, quarkmass |-> {"quark"}, leptonnan |-> {"lepton", "FL1"}, quarknan |-> {"quark", "FQ1"},
          elsewhere |-> {"minimum"}, nominimum |-> {"minimum"},
          slope |-> {"tadpole"}, slopenan |-> {"tadpole"},
          loopgradient |-> {"first"}, loopgradientnan |-> {"first"}, countergradient |-> {"first"}, countergradientnan |-> {"first", "vcounter"},
          loophessian |-> {"second"}, counterhessian |-> {"second"}, countermass |-> {"first", "second"}, loopmass |-> {"second", "nlo"},
          loopgoldstone |-> {"second", "nlo"}, loophessiannan |-> {"second", "nlo"},
          othertree |-> {"vtree"}, othercounter |-> {"vcounter"},
          identity |-> {"identities"}, identitynan |-> {"identities"},
          tensorL2 |-> {"L2"}, tensorL3 |-> {"L3"}, tensorL4 |-> {"L4"}, tensorG |-> {"G"},
          tensorFL1 |-> {"FL1"}, tensorFL0 |-> {"FL0"}, tensorFQ1 |-> {"FQ1"}, tensorFQ0 |-> {"FQ0"}]
Defects == DOMAIN Cause
(* allowed: an equivalent vacuum, the minimiser's accuracy, quark phases, a   *)
(* basis of the gauge bosons, the order of the quarks, where a fermion mass   *)
(* comes from, loops cancelled by counterterms, symmetric couplings,          *)
(* fields without a mass                                                      *)
Harmless == {"signs", "nearby", "phases", "mixing", "swapped", "baremass", "compensated", "symmetric", "massless"}
Exclusive == {{"ckmentry", "ckmnan"}, {"bosonmass", "bosonnan"}, {"photonmass", "bosonnan"}, {"elsewhere", "nominimum"}, {"slope", "slopenan"},
              {"identity", "identitynan"}}

Listed == {Order[i] : i \in DOMAIN Order} \ ((IF tree THEN {} ELSE {"vtree"}) \cup (IF counter THEN {} ELSE {"vcounter"}))
Fails(B) == UNION {Cause[d] : d \in B}
Verdict(t) == IF t \in Fails(broken) THEN "Fail" ELSE "Pass"
Report == SelectSeq(Order, LAMBDA t : t \in Listed)
Passed == {t \in Listed : Verdict(t) = "Pass"}
Failed == {t \in Listed : Verdict(t) = "Fail"}

Init == broken = {} /\ tame = {} /\ n = 0 /\ tree \in Pick(BOOLEAN) /\ counter \in Pick(BOOLEAN)
Break == \E d \in Pick(Defects) : /\ Cardinality(broken) < MaxBroken
                                  /\ \A e \in broken : {d, e} \notin Exclusive
                                  /\ broken' = broken \cup {d}
                                  /\ UNCHANGED <<tame, tree, counter>>
Repair == \E d \in Pick(broken) : broken' = broken \ {d} /\ UNCHANGED <<tame, tree, counter>>
Tame == \E h \in Pick(Harmless) : tame' = (tame \cup {h}) \ (tame \cap {h}) /\ UNCHANGED <<broken, tree, counter>>
Mode == UNCHANGED <<broken, tame>> /\ (\/ (tree' = ~tree /\ UNCHANGED counter)
                                       \/ (counter' = ~counter /\ UNCHANGED tree))
Next == n < MaxSteps /\ n' = n + 1 /\ (Break \/ Repair \/ Tame \/ Mode)
Spec == Init /\ [][Next]_vars

TypeOK == broken \subseteq Defects /\ tame \subseteq Harmless /\ tree \in BOOLEAN /\ counter \in BOOLEAN
(* no alarm without a defect *)
Honest == broken = {} => Failed = {}
(* every defect with a test in the report is reported *)
Complete == \A d \in broken : Cause[d] \cap Listed \subseteq Failed
(* a failure names a condition that some defect breaks *)
Blamed == \A t \in Failed : \E d \in broken : t \in Cause[d]
(* one defect does not hide another *)
Separate == \A d, e \in broken : Fails({d, e}) = Cause[d] \cup Cause[e]
(* the counts add up *)
Counted == Cardinality(Passed) + Cardinality(Failed) = Len(Report) /\ Len(Report) = Cardinality(Listed)
(* every test can fail, and alone unless it is the one on NLO masses *)
Covered == \A t \in Tests : \E d \in Defects : t \in Cause[d] /\ (t # "nlo" => Cause[d] = {t})
(* breaking more never lets a failed test pass *)
Monotone == [][broken \subseteq broken' /\ tree = tree' /\ counter = counter' => Failed \subseteq Failed']_vars
(* allowed changes change nothing *)
Tolerant == [][broken = broken' /\ tree = tree' /\ counter = counter' => Failed = Failed']_vars
Emit == PrintT("CASE " \o ToJson([broken |-> broken, tame |-> tame, tree |-> tree, counter |-> counter,
                                  report |-> [i \in DOMAIN Report |-> <<Report[i], Verdict(Report[i])>>],
                                  apart |-> {<<t, Verdict(t)>> : t \in Apart}]))
=============================================================================
