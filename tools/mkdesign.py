import json
# regenerates DESIGN.md from its intro, properties.jsonl, known_findings.jsonl and seeded/
head = open('/verif/DESIGN.md').read().split('\n## Properties')[0].rstrip() + "\n"
D = {}
D['P01'] = ("CliParser", """State: the text last given to each declared option, whether help was printed.  A step submits an option
list whose tokens are structured (dashes, spelled name, separator, value), so that the value is by
construction what follows the first separator; harness concatenates.  Invariants: last occurrence wins, nothing is
invented, help changes nothing.  Oracle: per prefix the set of options with texts, refusals, verdict of the
required-option check, number of help prints; typed reads are compared with independent conversions.
Bounds: all lists of one step with up to two tokens over small pools, random histories over 22 spellings x 17 texts.""",
"tests try a handful of spellings; the order/override/refusal semantics is over histories")
D['P02'] = ("CliParser", """The JSON step of the same module: an object is the set of its key/value pairs, `_comment` keys have no
effect, a missing or malformed file is refused without change.  The same observations as for P01, plus logging
switches.  Bounds: objects of up to two keys exhaustively, mixed CLI/JSON histories at random.""",
"equivalence of two input languages is a statement about all objects")
D['P03'] = ("Logger", """State: the level set, the selected stream (two string streams, a file).  Steps: SetLevel, SetMap, Disable,
option vectors, parser configuration, stream selection.  After every step one probe message per level observes the
state completely.  All histories of two steps, random ones of up to eight.""",
"the state space is 2^9 x streams and every switch may act on every state")
D['P04'] = ("Program", """Configurations (which options, which of their texts are valid, model, input, line range, window, mode) as
environment choice; the machine says at which stage a run is refused, and otherwise what every stage is asked.
Replayed through the executables built from /repo's `src/prog`, with the numerical library stages replaced by
recording stand-ins (`stubs*.h`): exit status, absence of rows, and the arguments the stages received.
All single faults exhaustively, drawn combinations.""",
"refusal has to hold for each of the thousands of wrong configurations and each enumerated spelling")
D['P05'] = ("LineTable", """Tables of points and empty lines x requested range x index column x final newline: which rows come out.
Exhaustive for small tables, drawn larger; each replayed through the seven table programs (BSMPT, NLOVEV, CalcCT,
TripleHiggsNLO, CalcTemps, CalcGW, MinimaTracer) with scripted minimisation; each row is
compared with the row the point yields alone.""",
"independence of rows from one another is a statement over pairs of tables")
D['P06'] = ("Analysis, MinimaTable", """The stage machine gives a table of points with any outcomes and any number of pairs;
behaviours of equal options are mixed into one table.  CalcTemps, CalcGW and MinimaTracer run on it with scripted
stages; every cell is looked up by column name; each point is also run alone and its cells compared.""",
"needs mixtures of outcomes in one table; the tests never run the programs")
D['P07'] = ("ModelObject", """State of an object: which point, counterterms, scale its predictions are a function of; operations load
points by line or list, set scale, write, evaluate.  Histories over one and two objects of each of the six models;
the driver compares every prediction after each operation with a fresh object brought to the same state by the
canonical shortest history (`CanonReaches` proves it exists).  Short histories exhaustively, longer ones chosen
greedily for coverage of operation pairs.""",
"stale state shows only for particular sequences; tests use one object per point")
D['P08'] = ("Potential", """Exact integer model: tensors, tree polynomial, mass matrices, thermal (Debye) masses, field-dependent
counterparts for scalars, gauge bosons, quarks and leptons.  TLC draws models of up to four fields, three gauge bosons
and two fermions; the real class is built with exactly these couplings (harness model) and compared entry by entry.
The same identities (index symmetry, derivative, sum of parts, shortened list) are evaluated on all shipped models.
Loop derivatives are compared with quotients away from vanishing and coinciding masses.""",
"an identity over all couplings; tests compare a few pinned points")
D['P09'] = ("Layout", """Fields 1..n with an arbitrary subset as vacuum directions, arbitrary charged subset; operations embed,
project, strip, scale, compare, nan-check.  Values in 1/8 GeV so that all sums are exact in binary.""",
"index arithmetic over arbitrary layouts; shipped models exercise only six of them")
D['P10'] = ("Symmetry", """All sign-flip groups of up to four directions, block potentials (round, exchange-symmetric, absent, quartic)
of five; group, representative, flat directions and rotations computed by the specification.""",
"the orbit/representative statement quantifies over all points of all groups")
D['P11'] = ("GlobalMin", """Back ends answer with any depth/electroweak part/failure; the specification says which answers may be
returned and which back ends have to be used.  Stand-ins at the linker level give the drawn answers; then the real
GSL/NLopt on potentials whose minima are known in closed form.""",
"combinations of failing and disagreeing back ends cannot be produced with physics input")
D['P12'] = ("MultiStart", """Workers, shared pool, solution list; check and take are separate steps.  Safety (each start at most once, no
take from an empty pool, result is the deepest, at most MaxSol + workers - 1) and termination under fairness are
checked by TLC.  A token scheduler interposed at lock/unlock, start and end of local minimisations drives the real
threads through drawn interleavings; the recorded trace is validated against the specification by TLC.  Plus free
runs under ThreadSanitizer.""",
"a schedule property")
D['P13'] = ("Bisection", """Profiles of the global minimum over temperature as segments (symmetric, negligible, broken, unphysically
large); the bisection is a state machine; invariants bracket and precision.  Window 2^4 exhaustively, 2^15 drawn; a
profile becomes a potential with known global minimum.""",
"status logic over every shape of the temperature dependence")
D['P14'] = ("PhaseCurve, PhaseAccept", """Insertion histories over a lattice of temperatures replayed on Phase; recorded Add/Get histories are
accepted or rejected by TLC (`PhaseAccept`); query results against closed forms.""",
"any order of insertion")
D['P15'] = ("PhaseDiagram, PhaseRegistry", """Wells (interval, depth, motion) drawn from pools, the modes of tracing as a state machine over the list of
phases; expected phase list and status per mode.  Made concrete as smooth well potentials (closed-form minima) and a
thermal cubic.  PhaseRegistry replays exhaustive small histories of the phase list itself.""",
"tests trace four potentials")
D['P16'] = ("PhaseRegistry, PhaseDiagram", """All arrangements of up to three intervals over five temperatures and all depth orderings exhaustively;
expected pairs, ranges, roles, critical temperature and classification from closed forms.""",
"every arrangement of overlaps and crossings")
D['P17'] = ("Analysis", """`Chain`: a walk over pairs and completion levels.  Every set of up to three pairs over four phases with every
completion order (1347 sets) exhaustively, six phases drawn; replayed through the programs.""",
"order of pairs and completion is combinatorial")
D['P18'] = ("Bubble", """Lattice of temperatures; profile of the action, failing nodes, wall speed, requested fractions and order of
asking are environment choices; the invariants are the orderings (later temperatures are lower, a higher fraction is
reached later, a faster wall earlier) and independence of the order of asking.  A profile becomes the bounce action
of a scripted environment under the real scan, spline and searches; the defining conditions are re-integrated
independently with Gauss-Legendre panels.""",
"profile shapes (flat, bowl, wavy, with gaps) that no physical test point has")
D['P19'] = ("Analysis", """Stage gating with every outcome of every stage and option; exhaustive for small points, drawn tables through
CalcTemps/CalcGW: statuses, values, stages entered and the options they were given.""",
"failing stages cannot be provoked at will with physics input")
D['P20'] = ("Spectrum", """Record as a state machine of queries in every order; drawn strength/duration/velocity/temperature regimes with
boundary and unphysical ones; published relations evaluated independently in Python.""",
"orders of queries and regime boundaries")
D['P21'] = ("LoopFunctions, ThermalPieces", """Divided differences: symmetry, recursion and coincidence limits are model-checked on
monomials; each pattern of coinciding/close/vanishing masses (up to four) in every order is evaluated in the code and
against 60-digit arithmetic.  Thermal functions: pieces as an ordered line, query histories, seams, derivatives
against independent quadrature.""",
"accuracy near coincidence and at internal switches")
D['P22'] = ("Scan", """Odometer over up to five axes and temperature scans on an integer lattice, exhaustively for small sizes; ends
made concrete in units that do not divide evenly in binary; grid helpers, PotPlotter and VEVEVO.""",
"rounding at the last point, nesting order")
D['P23'] = ("Counterterms", """Each model's operators as polynomials in its invariants, evaluated as 2-jets (value, gradient, Hessian) in
exact integers at drawn vacua.  Any one-loop part in the span of the operators has to be cancelled by the
counterterms.  Each operator, and mixtures, play the one-loop part through overridden first/second derivatives in the
real model classes; all counterterms, their names, the counterterm potential, its gradient and Hessian are compared.
Then the model's own one-loop potential: derivatives against quotients, cancellation.  In the CxSM one doublet-singlet
mixing (h-s for va != 0, h-a for va = 0 and vs != 0) has no counterterm of its own and is left out for the own
potential.  The code drops counterterms below 1e-5 (tolerated).""",
"cancellation for every vacuum and shift, not for five pinned points")
D['P24'] = ("Bounce", """A normal form (quartic along one axis, quadratic valleys, straight or curved, along the others) and
the changes of frame as actions: units of fields and masses, shifts, raising, flips, swaps, 3-4-5 turns, embedding,
starting paths, gradient given or not.  Invariants: the turn stays orthogonal, the action's exponent of the unit obeys
the scaling law for O(3) and O(4).  Drawn frames go through BounceActionInt; straight valleys must give the action found
by independent shooting (scipy, table `checks/bounce.json`, regenerated by `PYTHONPATH=tools python3-vt checks/p24.py`)
to 1 %, curved ones an action between that of the straight valley and of the valley's floor (5 %).  Straight valleys also
run with the library's assertions on; curved ones with them off (an assertion on a NaN from a stale position of the
minimum, `Initial_lmin` of the iteration before, ends some of these; setting it first makes an existing test fail).""",
"rotated, shifted, rescaled and spectator copies of a potential, for which the answer is known from one of them")
D['P25'] = ("SelfTest, Tensors", """A model is the set of its defects (42 kinds, among them quantities that are not numbers) and of
allowed changes (equivalent vacuum, minimiser's accuracy, quark phases, gauge-boson basis, order of fermions, bare
masses, cancelled loops, symmetric couplings, massless fields); actions break, repair, change.  Checked: no alarm without a defect, every
defect reported, every failure blamed on a defect, breaking more never lets a test pass, allowed changes change nothing.
The driver derives a model from the base class with these couplings, labels, loop derivatives and a scripted minimiser,
runs CheckImplementation and compares its report, counts and final verdict.  Tensors (six kinds, up to 81 entries,
ragged ones) are built by orbits and single entries; the verdict is invariance under the exchange group.
Deviations stay away from the tolerances by a factor of ten (counterterm potential: three; its tolerance lets 10 % pass).""",
"tests run the self-test on models without defects, so a test that cannot fail goes unnoticed")
D['P26'] = ("Restoration", """A potential is a quadratic form growing with T^2: integer curvatures along axes that may be
turned (3-4-5), a centre in quarters of GeV, the electroweak fields, parts that do not grow, another growth.  Actions bend
an axis, move the centre, charge or discharge a field, turn axes, add cold parts, lift, run away.  Checked: turning, cold
parts and the zero of energy change nothing; charging never restores; a neutral or vanishing centre is never broken.
Each drawn state is a synthetic model given to IsThereEWSymmetryRestoration: answer, status, location and number of fields.
Not judged: exactly flat directions (the code adds 1e-7 to every eigenvalue, so its answer for them cannot occur), centres
on the limit, cold parts that differ between fields (the code takes the smallest eigenvalue's settling for all).""",
"shipped models have their high-temperature minimum at or near the origin")
import os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
out = [head, "\n## Properties\nPer property: the module, what is enumerated and against which oracle, bounds, why tests do not reach it.\n"
 "Quick checks take 10 s to 2 min on 8 idle cores (P07, P15 the longest); thorough ones 5-60 times the behaviours.\n"]
for p in props:
    if p['id'] not in D: continue
    m, t, w = D[p['id']]
    ev = f"/verif/evidence/{p['id']}.json"
    size = ""
    out.append(f"### {p['id']} {p['title']}\n*Specification*: `spec/{'.tla`, `spec/'.join(m.split(', '))}.tla`.  {t}\n*Beyond tests*: {w}.\n")
kf = [json.loads(l) for l in open('/verif/known_findings.jsonl')]
out.append("## Genuine defects\nRepaired in /repo (`fix:` commits, details in `known_findings.jsonl`):\n")
out += [f"* {k['property']} `{k['fixed']}` {k['text'].split(k['fixed'])[1].strip()}" for k in kf if 'fixed' in k]
out.append("\nRecorded, not repaired (the check prints KNOWN-FINDING):\n")
out += [f"* {k['property']} `{k['key']}`: {k['text']}" for k in kf if 'key' in k]
out.append("""
Reverted repairs: `796b1ee` and `04d87ff` take back earlier attempts to make all derivatives of the thermal
potential those of the interpolated functions and to complete the temperature derivative, and `3ba4a42` restores the
temperature derivative: correct, but the existing test of benchmark point 3 pins numbers (transition strength, tracing)
that depend on the old temperature derivative.  The field-derivative part was kept in a form the tests accept
(`4a379a3`); the temperature part is the known finding above.

Seen but not claimed by a property: only-dash CLI input (std::out_of_range) and non-string JSON values (type_error) end
the program with an uncaught exception; `almost_the_same` on vectors inverts its sign-flip argument and the scalar form
measures against the mean of absolute sums; `throw("text")` in a few model functions; `setCoexRegion` patches gaps after sorting;
tracing mode 1 need not make progress for discontinuous potentials; CMA-ES is ignored without multi-threading;
`GSL_Minimize_gen_all` appends to minima it is handed; `CalculateTc` with T_low = 0 relies on floating-point underflow
to end; the numerical thermal integrals' derivative is inaccurate for negative arguments; with automatic wall velocity
the percolation column shows the value of the initial guess; the diagnosis at high temperature cannot
answer "flat" (SmallestEigenvalue adds 1e-7) and takes V/T^2 as settled once its smallest eigenvalue is;
`CheckVCounterSimplified` lets deviations of 10 % pass; `CheckNLOMasses` compares |m^2|, so a tachyon may pass; positional arguments disable option parsing silently.
""")
out.append("## Planted bugs\n`seeded/<id>`: patch, demo, meta.  Each was confirmed with `build.sh`, the stable tests and its demo in private copies.\nThe check of the property in the name catches it (quick tier) unless noted.\n\n| bug | breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(d, m['property']) if 'CAUGHT' in globals() else m['property']} |")
out.append("""
Checks that were strengthened because a planted bug slipped through at first: P02 (keys in which '_comment' occurs
but not at the end), P03 (switching on after disabling), P10 (symmetry-breaking terms of relative size 1e-6..1e-4),
P15 (phases met only by the last point of the extra grid),
P07 (a point of another Yukawa type loaded over the one before), P20 (a reported nan ended the check), P25 (loops that give massless scalars a mass).

## Assumptions and limits
* CMA-ES is not installed: the back end is covered only as a stand-in.
* The bounce solver's accuracy is claimed for the potentials of P24 (barriers from thick to moderately thin walls) only;
  for P18/P19 it is the environment.
* Replay drivers link /repo's library sources, rebuilt from the working tree with their own CMake build
  (`harness/CMakeLists.txt`, output in the ignored `.build`), never from /opt/vp's build.
* Random draws use VERIF_SEED; TLC simulations and Python draws are seeded from it, so a run is reproducible.
* `not_applicable` is empty: every property listed is decided with a TLA+ specification bound to the code.  Numeric
  relations (integrals, derivatives) cannot be evaluated inside TLC; there the specification supplies structure, cases
  and exact algebra, and the check evaluates the stated relation with independent arithmetic.
""")
open('/verif/DESIGN.md', 'w').write("\n".join(out))
