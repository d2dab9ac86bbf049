REPLAY = "TLA+ model checked with TLC; its behaviours replayed in the real code"
TRACE = "TLA+ model checked with TLC; recorded traces of the real code validated by TLC"
CLAIMS = {
 "P01": (REPLAY, "All option lists of bounded length over a pool of spellings and texts, and random longer histories, "
         "replayed through the public parser interface; the pool of texts is the bound."),
 "P02": (REPLAY, "JSON objects of bounded size and mixed histories of JSON and command-line steps; JSON values are strings."),
 "P03": (REPLAY, "Logger state machine: all short histories, random longer ones; state fully observed by probe messages after each step."),
 "P07": (REPLAY, "Lifecycle of a model object (points, counterterms, scale, tree, coupling and triple-coupling values): all short histories and coverage-greedy long ones over one and two objects of every shipped model, compared with a freshly built object."),
 "P08": (REPLAY, "Exact integer model of coupling tensors, mass matrices, thermal masses and the parts of the potential; random small models (up to four fields, three gauge bosons, two fermions) built in the real code and compared, and the same identities on every shipped model."),
 "P09": (REPLAY, "Operation histories over random layouts of up to six fields (any subset as vacuum directions, any charges) and over the shipped models; values in exact binary units."),
 "P10": (REPLAY, "All 90 sign-flip groups of up to four directions with all sign patterns, random block potentials (round, exchange-symmetric, absent, quartic) of five directions."),
 "P11": (REPLAY, "All combinations of back ends, their outcomes and depth orderings over 1-4 directions in random layouts, with the back ends replaced by stand-ins; plus the real back ends on potentials with known minima. CMA-ES is not available."),
 "P12": (TRACE, "Worker/queue state machine model-checked (safety and termination); token-scheduled interleavings of the real threads recorded and validated by TLC, plus free-running ThreadSanitizer runs."),
 "P13": (REPLAY, "Bisection state machine over all profiles of a small window (exhaustive) and random profiles of a full-depth search; each profile made concrete as a potential with known global minimum."),
 "P14": (TRACE, "Phase curve module: insertion histories and recorded Phase::Add/Get histories on synthetic potentials validated by TLC; queries compared with the closed-form minimum."),
 "P15": (REPLAY, "State machine of the tracing modes over phase diagrams drawn from finite pools (up to six phases), plus exhaustive small histories of the phase list; made concrete as smooth well potentials and a thermal cubic with closed-form minima."),
 "P16": (REPLAY, "All arrangements of up to three intervals and depth orderings over five temperatures exhaustively (four phases sampled), plus pairs after full tracing runs; critical temperatures compared with closed forms."),
 "P04": (REPLAY, "Configuration machine of a program: options, inputs and stages as environment choice (exhaustive small, drawn larger); every configuration run through the real executables with recorded stages; exit status, refusals and what each stage was asked compared."),
 "P05": (REPLAY, "Line-table machine over every table of points, empty lines, index column, final newline and requested range (exhaustive small, drawn larger); run through the seven table programs; every row compared with that of its point alone."),
 "P06": (REPLAY, "Stage machine of the transition analysis and of the tables of minima; drawn mixtures of points run through the real CalcTemps, CalcGW and MinimaTracer with scripted numerical stages; every cell compared by column name, each point also alone."),
 "P17": (REPLAY, "The chain as a walk over pairs and completion levels: every set of up to three pairs over four phases with every order of completion exhaustively, systems of six phases drawn; replayed through the real programs with scripted temperatures."),
 "P19": (REPLAY, "Stage machine with every outcome of every stage and option as environment choice (exhaustive for small points); drawn tables run through CalcTemps and CalcGW with scripted stages; statuses, values, stages entered and the options they were given compared."),
 "P18": (REPLAY, "Lattice model of the false-vacuum fraction over every profile of the action, failures, speeds and orders of asking; drawn profiles made concrete as the bounce action of a scripted environment under the real scan, interpolation and temperature searches; conditions re-integrated independently."),
 "P20": (REPLAY, "Record of the spectrum as a state machine of queries in every order; published relations between the parameters evaluated independently for drawn strengths, durations, velocities, temperatures and their boundary."),
 "P21": (REPLAY, "Divided differences of lists of coinciding, close and vanishing masses (all patterns of up to four arguments, every order) against 60-digit arithmetic; pieces of the thermal functions as an ordered line, query histories against quadrature, seams and derivatives."),
 "P22": (REPLAY, "Odometer over up to five axes and temperature scans on an integer lattice (exhaustive small, random larger); ends made concrete in units that do not divide evenly in binary; grid helpers, minima development, PotPlotter and VEVEVO run on them."),
 "P23": (REPLAY, "Second-order expansions of every model's operators at integer vacua; each operator (and mixtures) plays the one-loop part through scripted derivatives and the counterterms have to undo it; then the model's own one-loop potential, against difference quotients. In the CxSM one mixing of the doublet with the singlets has no counterterm of its own and is left out for the model's own potential."),
 "P24": (REPLAY, "Frame changes of a normal form (units, shifts, turns, reflections, spectators, starting paths) as actions of a state machine with the exponent law and orthogonality as invariants; drawn frames solved by the real bounce solver and compared with independent shooting: straight valleys to 1 %, curved ones between their straight and floor actions to 5 %."),
 "P25": (REPLAY, "Models as sets of defects and allowed changes with a cause table (honest, complete, blamed, monotone, tolerant as invariants), tensors as functions of index tuples under the exchange group of their kind; each drawn state is built as a synthetic model and run through the real self-test, its report and summary compared; each tensor through the symmetry tests."),
 "P26": (REPLAY, "High-temperature forms (curvatures, turned axes, centre, electroweak charges, parts that do not grow, other growth) as a state machine whose actions bend, move, charge, turn; the diagnosis is a function of curvature, charged centre and growth only (invariants and action properties); each drawn state is a potential given to the real diagnosis, answer, status and location compared. Exactly flat directions and a charged centre on the limit of half a GeV are not judged."),
}
NA = {}
NOTES = "No hooks in /repo: all observation is through public interfaces. /repo commits are 'fix:' commits only (see known_findings.jsonl)."
