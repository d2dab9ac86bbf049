prop("P01", "Command-line options mean what was written, in any order and spelling",
 "After a program has been given any sequence of option lists, every declared option yields exactly the text written after the first '=' of the last occurrence of its name (names compared without regard to case, leading dashes ignored), typed reads convert that text, and an option that was never given reads as an error rather than as a value. An undeclared option is always refused, and the required-option check accepts exactly when every required option has been given. Asking for help changes no option value and prints the help text at most once.",
 ["inputs", "histories"], "every sequence of option lists over declared/undeclared names, spellings, values (including values that contain '=' or are empty) and repeated calls",
 "Unit tests use about ten fixed option lists; they never vary order, case, repeated names, values with '=', or several calls on one parser.",
 ["include/BSMPT/utility/parser.h", "src/utility/parser.cpp"],
 [("split at the first '='", "parser::get_key_value"), ("lower-casing", "parser::to_lower"), ("required/optional maps", "parser::add_input, parser::get_value_as_string")],
 ["parser::add_input", "parser::get_value<T>", "parser::check_required_parameters", "Logger output of print_help"])

prop("P02", "A JSON configuration is equivalent to the same options on the command line",
 "Giving a program one JSON file configures it exactly as giving it the file's key/value pairs as command-line options would: the same options are set to the same texts, the same keys are refused, and the same logging switches act. Keys that end in '_comment' have no effect at all. A missing file is refused with an error and changes nothing.",
 ["inputs", "configurations"], "every JSON object over declared/undeclared/comment keys in any letter case and any string values, compared with the command line it stands for",
 "One unit test reads one JSON file; nothing compares the two input paths over families of configurations.",
 ["src/utility/parser.cpp"],
 [("JSON input", "parser::add_json_input"), ("common key/value path", "parser::add_input(vector<KeyValue>)")],
 ["parser::get_value", "exceptions of parser::add_input"])

prop("P03", "The logging switches select exactly the messages they name",
 "After any history of logging configuration, a message is written exactly when its level is enabled: the default level starts enabled and all others disabled, 'disabled' silences everything, 'complete' enables every level except the minimiser's, and a level that is named explicitly gets the value given to it, whatever else is in the same option list. Messages go completely and only to the stream last selected. Levels that are not named by a configuration step keep their state.",
 ["histories", "configurations"], "every sequence of configuration steps (direct switches, option lists in both formats, stream changes) interleaved with messages of every level",
 "Logger tests switch one level at a time; the interaction of several switches in one list and over histories is not sampled.",
 ["include/BSMPT/utility/Logger.h", "src/utility/Logger.cpp"],
 [("level table", "Logger::mCurrentSetup"), ("option lists", "SetLogger(vector<string>), SetLogger(parser)"), ("streams", "Logger::SetOStream")],
 ["text written to the selected stream by Logger::Write"])

prop("P04", "Programs refuse invalid configurations and never pass them on to a run",
 "Each program ends with success and produces its output exactly when its options are complete and valid: a missing required option, an unknown option, an unknown model, an unreadable input, an out-of-range line number or temperature window, or an out-of-range mode or symmetry-check choice ends it with a non-zero exit code and without result rows. Every documented choice of an enumerated option, by name or by number, is accepted and has the same effect in both spellings.",
 ["configurations", "inputs"], "every combination of present/missing/invalid values of the options of each program",
 "No existing test runs any of the programs; the option handling of each main is entirely untested.",
 ["src/prog/CalcTemps.cpp", "src/prog/CalcGW.cpp", "src/prog/MinimaTracer.cpp", "src/prog/BSMPT.cpp", "src/prog/CalcCT.cpp", "src/prog/NLOVEV.cpp", "src/prog/VEVEVO.cpp", "src/prog/PotPlotter.cpp", "src/prog/TripleHiggsNLO.cpp", "include/BSMPT/models/IncludeAllModels.h", "src/models/IncludeAllModels.cpp"],
 [("option validation", "CLIOptions::good of each program"), ("model lookup", "ModelID::getModel")],
 ["exit code and output file of each program"])

prop("P05", "Line programs write one faithful result row per requested input line",
 "Programs that process a range of lines of a parameter file write a legend followed by one row for each requested parameter line that the program's own selection rule admits, in input order, and for no other line; the row repeats the input line's columns and index unchanged. Rows do not depend on which other lines were requested, nor on the presence of a trailing newline or an index column. A requested line beyond the end of the file produces no row.",
 ["inputs", "configurations"], "every input table (with or without index column, blank lines at the end, any order of points) and every line range",
 "The programs are not run by any existing test.",
 ["src/prog/BSMPT.cpp", "src/prog/CalcCT.cpp", "src/prog/NLOVEV.cpp", "src/prog/TripleHiggsNLO.cpp", "src/prog/CalcTemps.cpp", "src/prog/CalcGW.cpp", "src/prog/MinimaTracer.cpp"],
 [("reading loop and line counter", "main of each program"), ("index column", "Class_Potential_Origin::setUseIndexCol")],
 ["output files of the programs"])

prop("P06", "Multi-point result tables stay aligned with their legend",
 "In the tables written for several parameter points at once, the legend has exactly one name per column and every row has exactly as many cells as the legend, whatever mixture of points (no transition, several phases, several transitions, failures) was processed and in whatever order. Every value stands under the name of the quantity it is, quantities a point does not have are written as 'nan', and a point's cells do not depend on which other points are in the table.",
 ["inputs", "histories"], "every sequence of parameter points whose phase histories differ in number of phases, coexisting pairs and transitions",
 "No test produces a multi-point table; the column bookkeeping is only in the mains and the output helper.",
 ["src/prog/CalcTemps.cpp", "src/prog/CalcGW.cpp", "src/prog/MinimaTracer.cpp", "src/minimum_tracer/minimum_tracer.cpp", "include/BSMPT/transition_tracer/transition_tracer.h"],
 [("legend growth and padding", "output part of the mains"), ("legend text", "MinimumTracer::GetLegend, Class_Potential_Origin::addLegend*")],
 ["output files of the programs"])

prop("P07", "A model's predictions depend only on the point it was last given",
 "Whatever points a model object was given before and whatever was computed with it, after loading a parameter point every prediction (masses, counterterms, potential, derivatives, couplings, minimum, coordinate maps) equals that of a fresh object given that point only. Loading a point from a table row and loading it from its parameter list agree. Evaluating predictions does not change later ones.",
 ["histories"], "every history of loading points and evaluating observables in any order on one object, for every model",
 "Each unit test creates a fresh object and uses it for one point.",
 ["src/models/ClassPotentialOrigin.cpp", "src/models/*.cpp", "include/BSMPT/models/ClassPotentialOrigin.h"],
 [("reset of derived state", "Class_Potential_Origin::resetbools, initModel"), ("per point setters", "set_gen, set_CT_Pot_Par, SetCurvatureArrays, CalculatePhysicalCouplings")],
 ["public methods of the model objects"])

prop("P08", "The tree-level potential and its derivatives are those of the model's couplings",
 "For every model and point the tree-level potential is the polynomial with the model's declared coupling tensors, which are symmetric under all index permutations; its reported derivatives in field directions are the derivatives of that polynomial, mass matrices are symmetric, and the full effective potential with all loop and counterterm contributions is the sum of its parts. A potential evaluated with a shortened list of vacuum directions equals the potential evaluated with the full field vector it stands for.",
 ["inputs"], "every point of every model, every field configuration, temperature and derivative direction",
 "Unit tests compare numbers at a few points of three or four models.",
 ["src/models/ClassPotentialOrigin.cpp", "src/models/*.cpp"],
 [("polynomial", "VTree, CounterTerm, VEff"), ("symmetrisation", "sym*Dim, SetCurvatureArrays")],
 ["Class_Potential_Origin::VTree/CounterTerm/V1Loop/VEff, Get_Curvature_*, HiggsMassesSquared"])

prop("P09", "Vacuum coordinates and field coordinates are faithful maps of each other",
 "For every model, converting a point in vacuum directions to field coordinates puts each value into its own direction, zero elsewhere, and converting back recovers it; the electroweak scale of a point is the length of exactly its electroweak-charged components, and removing the electroweak part sets exactly these to zero and leaves every other component unchanged. The check that the one-loop vacuum is the tree-level vacuum accepts exactly when every component agrees up to the tolerance and sign convention.",
 ["inputs", "configurations"], "every subset of fields as vacuum directions, every partition into electroweak-charged and neutral directions, every point",
 "Tests use the shipped models only at a handful of points, where some mistakes are invisible because singlet directions come last or values vanish.",
 ["src/models/ClassPotentialOrigin.cpp", "include/BSMPT/models/ClassPotentialOrigin.h"],
 [("coordinate maps", "MinimizeOrderVEV, VevOrder"), ("electroweak part", "EWSBVEV, SetEWVEVZero"), ("NLO vacuum check", "CheckNLOVEV")],
 ["return values of these methods"])

prop("P10", "Symmetry reduction maps equivalent vacua to one representative",
 "The discrete symmetries reported for a potential are exactly the sign flips of vacuum directions that leave it invariant; reducing a vacuum yields a point of the same potential value, equivalent under those symmetries, and all equivalent vacua reduce to the same representative. Reducing twice is the same as reducing once. The directions and rotations reported as flat are exactly those along which the potential does not change (an exchange symmetry is not one), and removing rotations keeps the potential value and every other direction.",
 ["inputs", "configurations"], "every set of sign-flip symmetries over up to four directions, every vacuum",
 "Unit tests check a few fixed vectors for one group.",
 ["src/minimum_tracer/minimum_tracer.cpp"],
 [("symmetry search", "MinimumTracer::FindDiscreteSymmetries"), ("reduction", "MinimumTracer::ReduceVEV"), ("flat directions", "FindFlatDirections, ConvertToNonFlatDirections")],
 ["return values of the tracer's public methods"])

prop("P11", "The global minimiser returns the deepest minimum with any enabled back end",
 "For every potential and temperature, every choice of enabled minimisers, with or without multi-threading, the reported global minimum is a point of vacuum-dimension whose value is not above that of the starting/candidate points nor of any enabled back end's result; where the electroweak scale of the result is negligible its electroweak components are exactly zero. Exactly the enabled back ends are used (the local search always for at most two directions), results of failed back ends are not used, and the box searched globally contains the origin and the tree-level vacuum whatever its size and signs.",
 ["inputs", "configurations", "schedules"], "every potential from the family of multi-well potentials, every subset of back ends, threading on/off",
 "Tests minimise three benchmark points with the default choice of back ends.",
 ["src/minimizer/Minimizer.cpp", "src/minimizer/MinimizeGSL.cpp", "src/minimizer/LibNLOPT/MinimizeNLOPT.cpp", "include/BSMPT/minimizer/Minimizer.h"],
 [("choice among back ends", "Minimizer::Minimize_gen_all"), ("option mask", "CalcWhichMinimizer, GetMinimizers")],
 ["Minimize_gen_all return value"])

prop("P12", "Multi-start minimisation uses each start once under every schedule",
 "When several workers share a set of starting points, every worker schedule hands each starting point to at most one worker, stops when enough solutions were found or the points are used up, never touches an exhausted set, and returns the deepest of the solutions found. No solution is lost or invented; the sequential search delivers at most the requested number, the threaded one at most one more per additional worker, and a search without any solution reports failure.",
 ["schedules"], "every interleaving of the workers' take-start / store-solution steps for every number of workers, starts and failing local minimisations",
 "A race between test-empty and take shows only in rare schedules; tests run one.",
 ["src/minimizer/MinimizeGSL.cpp", "include/BSMPT/minimizer/MinimizeGSL.h"],
 [("shared queue under a lock", "GSL_Minimize_gen_all, thread_Job")],
 ["GSL_Minimize_gen_all, saveAllMinima result"])

prop("P13", "The critical-temperature bisection reports a status that fits the potential",
 "For every temperature dependence of the global minimum, the electroweak phase transition search reports success only with a temperature and vacuum at which the broken phase is the global minimum and just above which it is not, within the promised precision; otherwise it reports exactly the failure that applies: not vanishing at the upper end, vanishing (or unphysically large) already at the lower end, zero-temperature vacuum not the electroweak one, or an unphysically large scale met on the way. The reported vacuum and scale are those of the global minimum at the temperature they are reported for.",
 ["inputs", "histories"], "every profile of the global minimum's electroweak scale as a function of temperature and every start/end window",
 "Tests run the search for three benchmark points, all with status success.",
 ["src/minimizer/Minimizer.cpp"],
 [("bisection", "Minimizer::PTFinder_gen_all")],
 ["EWPTReturnType"])

prop("P14", "A phase is one single-valued curve over one temperature interval",
 "Whatever minima are added to a phase and in whatever order, the phase holds one minimum per temperature, ordered by temperature, reports the lowest and highest added temperature as its range, and asked for the minimum at a temperature returns a minimum of the potential at that temperature continuously connected to the stored ones. Minima flagged as the end of a phase stay at its ends.",
 ["histories", "inputs"], "every order of adding minima (duplicates, interior, ends) and every queried temperature",
 "Tests reach phases only through the tracing of benchmark points, which adds in monotone order.",
 ["src/minimum_tracer/minimum_tracer.cpp", "include/BSMPT/minimum_tracer/minimum_tracer.h"],
 [("ordered insertion", "Phase::Add"), ("range", "Phase::T_low, T_high"), ("query", "Phase::Get")],
 ["Phase members after each step"])

prop("P15", "The traced phase structure is that of the potential",
 "For every potential whose minima form well-separated phases over temperature intervals, tracing a temperature window reports exactly the phases through which the chosen multi-step mode is promised to go, each once, with its minima on the true minimum curve and its ends at the true ends (or the window's) within the tracing resolution; phases are numbered consecutively in the promised order. The reported status says whether the window is covered by phases.",
 ["inputs", "configurations"], "every phase diagram from the family (number, intervals, depths of phases) and every tracing mode and window",
 "Tests trace five benchmark points of shipped models with known transitions.",
 ["src/minimum_tracer/minimum_tracer.cpp"],
 [("tracing", "MinimumTracer::TrackPhase, Vacuum::MultiStepPTTracer, Vacuum::setCoexRegion"), ("modes", "Vacuum::Vacuum")],
 ["Vacuum::PhasesList, status_vacuum"])

prop("P16", "Coexisting pairs and critical temperatures are those of the phases",
 "For every set of phases, exactly the pairs of distinct phases whose temperature ranges overlap are reported, once each, with the overlap as the pair's range and the phase that is metastable on cooling as the false one; the critical temperature reported for a pair is the one at which the two phases are equally deep, and otherwise the pair is classified as 'true phase always lower', 'false phase always lower' or failed according to the depths at the ends of the range.",
 ["inputs"], "every arrangement of phase intervals (disjoint, touching, nested, crossing) and depth orderings",
 "Tests see the pairs of the benchmark points only.",
 ["src/minimum_tracer/minimum_tracer.cpp"],
 [("pairs", "Vacuum::setCoexPhases, CoexPhases::CoexPhases"), ("Tc", "CoexPhases::CalculateTc")],
 ["Vacuum::CoexPhasesList, CoexPhases::crit_temp/crit_status"])

prop("P17", "The phase history chain follows the coexisting pairs",
 "The reported history of a parameter point starts in the phase occupied at the highest temperature and only ever moves from the false to the true phase of a pair whose transition completed, leaving each phase through the pair that completes at the highest temperature; it ends exactly in a phase that no completed transition leaves. The history's text is a function of the pairs and their transition temperatures only.",
 ["inputs"], "every list of coexisting pairs and completion temperatures", 
 "Tests check the history string of single benchmark points.",
 ["src/transition_tracer/transition_tracer.cpp"],
 [("chain", "TransitionTracer constructor: transition history")],
 ["TransitionTracer::output_store.transition_history"])

prop("P18", "Characteristic temperatures satisfy their definitions and ordering",
 "For every transition, the nucleation, percolation and completion temperatures reported as found satisfy their defining condition on the decay rate (one bubble per horizon, the requested false-vacuum fractions), lie in the pair's temperature range, and percolation is not below completion when the requested fractions are so ordered; a temperature that does not exist is reported as not met rather than as a number. The probabilities requested by the user are the ones used.",
 ["inputs", "configurations"], "every bounce-action profile of the family and every requested fraction and wall velocity",
 "Tests compute them for benchmark points with default fractions.",
 ["src/bounce_solution/bounce_solution.cpp", "include/BSMPT/bounce_solution/bounce_solution.h"],
 [("rate", "BounceSolution::TunnelingRate"), ("bisection", "CalculateNucleationTemp, CalculatePercolationTemp, CalculateCompletionTemp")],
 ["BounceSolution getters"])

prop("P19", "Stages of the transition analysis are gated by the stages before them",
 "For every parameter point and option set, the analysis of a transition advances to a stage only if the stage before it succeeded, each status recorded is one of its documented values, values exist exactly where the corresponding status is success, and a failed stage is never followed by results that depend on it. Requested checks (one-loop vacuum stability, electroweak symmetry restoration) stop the analysis exactly when they fail and the user asked for it.",
 ["inputs", "configurations", "histories"], "every combination of outcomes of the stages and of the check options",
 "Tests cover the all-success path of benchmark points.",
 ["src/transition_tracer/transition_tracer.cpp", "include/BSMPT/utility/utility.h"],
 [("stages", "TransitionTracer::TransitionTracer"), ("statuses", "status codes")],
 ["TransitionTracer::output_store"])

prop("P20", "The gravitational-wave record is a consistent function of the transition",
 "For every transition with known strength, inverse duration, velocity and temperature, the spectrum parameters obey the published relations between peak frequency, amplitude, efficiency and suppression; the amplitude is non-negative, that of sound waves peaks at the reported peak with the reported height, the signal-to-noise ratio is that of the amplitude over the detector's sensitivity, and no answer depends on the order or number of earlier queries. Unphysical input is reported as failure, not as numbers.",
 ["inputs", "histories"], "every (strength, duration, velocity, temperature) in the physical domain and its boundary, and every order of queries",
 "Tests check numbers for one or two benchmark transitions queried in one fixed order.",
 ["src/gravitational_waves/gw.cpp", "include/BSMPT/gravitational_waves/gw.h"],
 [("spectrum", "GravitationalWave::CalcGWAmplitude, CalcPeakFrequency, CalcPeakAmplitude"), ("efficiency", "kappa functions")],
 ["GravitationalWave members and return values"])

prop("P21", "Thermal and loop functions are continuous, consistent and order-independent",
 "The thermal integrals used in the potential agree with their defining integrals to the promised accuracy over the whole argument range, are continuous across the internal switches of representation, and their derivatives are the derivatives of the values. Loop functions of several arguments do not depend on the order of the arguments and are continuous where arguments coincide or vanish.",
 ["inputs"], "every argument, including all switch points, degenerate and vanishing arguments, every permutation",
 "Tests evaluate a few points; the switch points and degenerate limits are a null set.",
 ["src/ThermalFunctions/ThermalFunctions.cpp", "src/models/ClassPotentialOrigin.cpp"],
 [("piecewise representation", "ThermalFunctions::JbosonInterpolated, JfermionInterpolated"), ("loop functions", "Class_Potential_Origin::fbase, fbaseTri, fbaseFour")],
 ["return values"])

prop("P22", "Scans and grids cover exactly the requested points",
 "A field grid with n steps between two values has exactly n+1 equally spaced points including both ends (n = 0: only the reference point), and a temperature scan visits the start and every whole step from it up to and including the end, in order, with no point missing, added or repeated by rounding. The output of the scanning programs has one row per point, with several axes in nested order (the last axis running fastest), and the value written in a row is the potential (or global minimum) at exactly the row's point. Boundaries may be any numbers, including negative and non-integer ones.",
 ["inputs", "configurations"], "every lower/upper bound, number of points, axis subset and selected point",
 "Two unit tests of the grid helper; the scanning programs are untested.",
 ["src/minimum_tracer/minimum_tracer.cpp", "src/minimizer/Minimizer.cpp", "src/prog/PotPlotter.cpp", "src/prog/VEVEVO.cpp"],
 [("grid", "Create1DimGrid"), ("scan", "Minimizer::MinimaDevelopmentWithTemperature, PotPlotter main, VEVEVO main")],
 ["return value of the grid helpers, output files of the scan programs"])
prop("P23", "Counterterms keep the tree-level vacuum and masses",
 "For every parameter point of every shipped model the vacuum given by the inputs (signs included) is a stationary point of the tree-level potential, and the one-loop potential at zero temperature plus the counterterm potential keeps it there with the tree-level masses and mixings: the counterterms cancel the one-loop gradient and every entry of the one-loop mass matrix that the model's operators can cancel. The counterterms are reported under their names, in the order of their values, and the counterterm potential, its gradient and its mass matrix are those of the named operators. The one-loop gradient and mass matrix used for this are the derivatives of the one-loop potential.",
 ["inputs", "configurations"], "every parameter point, every location of the vacuum (all branches for vanishing and negative expectation values), every one-loop potential of the form of the model's operators",
 "Each model is tested at one parameter point, with one branch of the counterterm formulas, with a particular one-loop part in which many entries vanish or coincide.",
 ["src/models/ClassPotentialOrigin.cpp", "src/models/ClassPotentialCxSM.cpp", "src/models/ClassPotentialC2HDM.cpp", "src/models/ClassPotentialR2HDM.cpp", "src/models/ClassPotentialN2HDM.cpp", "src/models/ClassPotentialCPintheDark.cpp", "src/models/ClassPotentialSM.cpp"],
 [("counterterms", "calc_CT, set_CT_Pot_Par, addLegendCT of each model"), ("vacuum", "set_gen of each model"), ("one-loop derivatives", "Class_Potential_Origin::WeinbergFirstDerivative, WeinbergSecondDerivative")],
 ["calc_CT / initModel, addLegendCT, CounterTerm, NablaVCT, HessianCT, get_vevTreeMin, columns of the CalcCT program"])
prop("P24", "The bounce action is that of the potential's bounce, in every frame",
 "For every potential with a false and a deeper true vacuum, in any number of fields, the action reported by the bounce solver is that of the bounce between them, within the solver's accuracy. It does not depend on the names, order, orientation or origin of the fields, on the zero of energy, on spectator fields, on the refinement or displacement of the starting path, or on whether the gradient is given; it scales with the units of fields and masses as the action does, at finite temperature (O(3)) and at zero temperature (O(4)). A path given backwards, or a false vacuum that is no minimum, is reported as such and gives no action.",
 ["inputs", "configurations"], "every potential, change of units, rotation, reflection, shift, starting path and number of fields",
 "Tests solve a dozen fixed potentials in one frame each, with the library's assertions switched off.",
 ["src/bounce_solution/action_calculation.cpp", "include/BSMPT/bounce_solution/action_calculation.h", "src/utility/spline/spline.cpp"],
 [("bounce along a path", "BounceActionInt::Solve1DBounce, ExactSolution, IntegrateBounce"), ("path deformation", "BounceActionInt::PathDeformation"),
  ("action", "BounceActionInt::CalculateAction, CalculateKineticTermAction, CalculatePotentialTermAction")],
 ["BounceActionInt::Action, StateOfBounceActionInt after CalculateAction"])
prop("P25", "The self-test of a model tells the truth",
 "For every model and parameter point, the self-test (program Test, CheckImplementation and the test functions behind it) reports each named test as passed exactly if the condition it names holds within its tolerance: numbers of labels, unitarity of the quark mixing, masses of gauge bosons, leptons and quarks, the tree-level minimum up to signs, tadpoles, masses at one loop, simplified against explicit potentials where the model has them, first and second derivatives of loops and counterterms, counterterm identities and number, symmetry and shape of every coupling tensor. A defect is reported whatever else is wrong, is not blamed on tests whose condition holds, and a quantity that is not a number satisfies no condition. The counts and the final verdict follow from the single results.",
 ["inputs", "configurations"], "every model (couplings, labels, loop parts, vacuum), every combination of defects, every tensor",
 "Tests run the self-test on the shipped models, which are free of defects, and a few hand-written tensors.",
 ["src/models/ModelTestfunctions.cpp", "include/BSMPT/models/ModelTestfunctions.h", "src/models/ClassPotentialOrigin.cpp", "src/prog/Test.cpp"],
 [("single tests", "ModelTests::Check*"), ("report", "Class_Potential_Origin::CheckImplementation")],
 ["Test program output, ModelTests::TestResults"])
prop("P26", "The diagnosis of the potential at high temperature is right",
 "Where the potential grows with the square of the temperature around a point, for every form of the growth, every direction of its axes, every number and order of fields, every choice of which fields are electroweak and every part that does not grow: the diagnosis is that the electroweak symmetry is restored exactly if the form is positive and the electroweak part of its point is at most half a GeV, broken at high temperature if it is positive and the part is larger, not bounded if a direction falls; a potential which grows otherwise gets no diagnosis. The reported high-temperature minimum is that point, in the fields of the minimiser.",
 ["inputs"], "every form (curvatures, axes, point), electroweak and other fields, cold parts, growth",
 "Tests diagnose a handful of parameter points of the shipped models, whose high-temperature minimum is the origin or where only the answer is compared.",
 ["src/minimum_tracer/minimum_tracer.cpp", "include/BSMPT/minimum_tracer/minimum_tracer.h"],
 [("diagnosis", "MinimumTracer::IsThereEWSymmetryRestoration, SmallestEigenvalue"), ("status", "MinimumTracer::GetStatusEWSR")],
 ["return value and status of the diagnosis", "MinimumTracer::HighTemperatureVEV"])
