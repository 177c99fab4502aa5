#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The properties are kept here in a readable form."""
import json, os
GA = "optlib/src/genetic/mod.rs"
PSO = "optlib/src/particleswarm/mod.rs"
VC = "optlib/src/particleswarm/velocitycalc/mod.rs"
SEL = "optlib/src/genetic/selection/mod.rs"
SELV = "optlib/src/genetic/selection/vec_float.rs"
PRE = "optlib/src/genetic/pre_birth/vec_float.rs"
PAIR = "optlib/src/genetic/pairing/mod.rs"
CROSS = "optlib/src/genetic/cross/mod.rs"
MUT = "optlib/src/genetic/mutation/mod.rs"
CRE = "optlib/src/genetic/creation/vec_float.rs"
INIT = "optlib/src/particleswarm/initializing/mod.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
PV = "optlib/src/particleswarm/postvelocitycalc/mod.rs"
TOOLS = "optlib/src/tools/mod.rs"
STOP = "optlib/src/tools/stopchecker/mod.rs"
LOG = "optlib/src/tools/logging/mod.rs"
STAT = "optlib/src/tools/statistics/mod.rs"
LIB = "optlib/src/lib.rs"
TF = "optlib-testfunc/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The reported optimum is the best point evaluated so far in the run",
  "After every completed iteration, and in the result of a run, the particle swarm reports the lowest finite goal value evaluated since that run started (initial positions included), and so does the genetic optimizer whenever its selection only removes non-finite goal values and limits the population to a size of at least one. The reported best therefore never gets worse during a run, however the run is split into pauses and resumptions. If nothing finite was evaluated no finite value is reported.",
  ["inputs", "histories", "configurations"],
  "for every goal function (values may be finite, NaN or +infinity, with ties), population or swarm size, dimension, random stream, iteration count and split of the run into find_min and resumed parts",
  "The tests run one fixed configuration on smooth finite functions and only look at the final value against a tolerance; losing the best individual now and then still passes them.",
  [GA, SEL, PSO, PAIR],
  [("best individual recomputed after each generation", GA+" Population::update_best_worst_individuals"), ("worst individuals are killed first", SEL+" kill_worst"), ("swarm best only replaced by a strictly better particle", PSO+" Swarm::update_best_particle"), ("total comparison of goal values", PSO+" compare_floats")],
  [("best_individual", "best of the current generation", GA), ("best_particle", "best position found in the run", PSO)],
  ["value returned by find_min / next_iterations", "AlgorithmState::get_best_solution in loggers and stop checkers"])

p("C02", "Every reported point carries its own goal value",
  "Every point-value pair the library reports (the result of a run, the best or worst, each individual or particle, the states shown to loggers and stop checkers, recorded statistics) was evaluated in the current run, and the value is exactly what the goal function returned for exactly that point. The two states of one iteration shown to different observers are the same.",
  ["inputs", "histories", "configurations"],
  "for every goal function (including NaN and infinities), every library component combination, every iteration of every run and every observer",
  "Tests compare the returned value with the known optimum, never with the value of the goal at the returned point, and look at no intermediate state.",
  [GA, PSO, STAT, LIB],
  [("fitness computed when the individual is created", GA+" Population::push"), ("position and value replaced together", PSO+" Particle::move_to"), ("solution built from one stored agent", GA+" / "+PSO+" get_best_solution")],
  observe=["get_agents", "Population iteration and indexing", "Logger and StopChecker callbacks", "Statistics::get_results / get_convergence"])

p("C03", "No point outside the search intervals is ever evaluated",
  "When initial points are created in given intervals and the interval filter (genetic) or the move-to-boundary correction (particle swarm) uses the same intervals, every point ever passed to the goal function is finite and inside the closed intervals in every coordinate, and so is every reported point. This holds whatever crossing, mutation, velocity rule, velocity limit or teleport is configured besides.",
  ["inputs", "histories", "configurations"],
  "for every set of intervals (f32 and f64), dimension, operator combination, goal function and random stream including extreme random words",
  "Tests never look at the points passed to the goal function; bitwise mutation produces NaN or out-of-range genes only now and then, and a leak is selected away.",
  [PRE, CRE, PM, INIT, TOOLS, GA, PSO],
  [("children outside the intervals are dropped before birth", PRE+" CheckChromoInterval"), ("positions are clamped before evaluation, initial ones too", PM+" MoveToBoundary, "+PSO+" renew_swarm"), ("creators sample inside closed intervals", CRE+", "+TOOLS)],
  observe=["arguments of Goal::get"])

p("C04", "One generation is pairing, crossing, mutation, filtering, birth, selection",
  "In every generation of the genetic optimizer pairing sees the current population; for each returned family, in order, crossing receives exactly the named parents' chromosomes; every child is mutated exactly once; the pre-birth steps transform the children one after the other; each remaining child is evaluated and joins the population alive; and every selection step then runs once, in order, on survivors plus newborns. Exactly the individuals not killed form the next generation, unchanged and in their previous order with newborns last. The first population is exactly what the creator produced.",
  ["inputs", "histories", "configurations"],
  "for every family list (any family size, repeated indices, no families), any number of children per crossing, any pre-birth and selection steps (also ones that empty the population or kill the best), any chromosome type, population size and number of generations",
  "Unit tests cover single operators; the few end-to-end tests use one set of components and check only that the optimum is found, which survives dropped children, skipped steps or reordered parents.",
  [GA],
  [("generation loop", GA+" GeneticOptimizer::next_iterations"), ("parents taken by index", GA+" run_pairing"), ("dead removed after all selections", GA+" Population::remove_dead")],
  [("individuals", "current population", GA)],
  ["arguments and results of Creator, Pairing, Cross, Mutation, PreBirth, Selection, Goal"])

p("C05", "A swarm iteration moves every particle once by its corrected velocity",
  "In every iteration of the particle swarm each particle gets a velocity from the velocity rule exactly once, that velocity goes through every velocity correction in order, the particle moves by exactly the corrected velocity, the new position goes through every position correction in order, and the goal is evaluated once at the resulting position, which becomes the particle's position. Initial positions go through the position corrections before they are evaluated, and each starts with its own initial velocity. The corrected velocity is the one remembered for the next iteration.",
  ["inputs", "histories", "configurations"],
  "for every list of position and velocity corrections, velocity rule, swarm size, dimension, goal function, iteration count and resumption",
  "No reliable test runs the particle swarm end to end; unit tests cover particle bookkeeping on two-dimensional examples only.",
  [PSO],
  [("iteration loop", PSO+" ParticleSwarmOptimizer::next_iterations"), ("initialisation", PSO+" renew_swarm")],
  [("particles", "position, velocity and value of each particle", PSO)],
  ["arguments and results of VelocityCalculator, PostVelocityCalc, PostMove, Goal and the initializers"])

p("C06", "Best, worst and all views of a population or swarm agree",
  "After every generation that leaves anyone alive, the population's best is a member with the lowest goal value and its worst a member with the highest, NaN being neither while a number is present. All ways to read a population or swarm (length, live count, iteration number, indexing, iterating, the agent list, best solution) describe the same members in the same order, a copy of an individual or particle stands for the original, and marking a member dead changes only its own life flag and the live count.",
  ["inputs", "histories", "configurations"],
  "for every population content (any values including NaN of either sign, infinities, ties, signed zeros), any position of the best and worst, any size, any generation, and any pattern of killed members",
  "Population has no unit tests at all; the tests' goal functions never return NaN or infinities.",
  [GA, PSO, LIB],
  [("best and worst recomputed with NaN-aware comparisons", GA+" update_best_worst_individuals, individuals_min_cmp, individuals_max_cmp"), ("agent list", GA+" / "+PSO+" get_agents")],
  [("best_individual / worst_individual", "best and worst of the generation", GA)],
  ["Population accessors from Selection, Pairing and PreBirth components", "AgentsState::get_agents"])

p("C07", "Loggers, stop checks and the iteration number follow the run",
  "Every find_min announces start once, then resume once; every resumed call announces resume once; each completed iteration is announced once, to every logger in the order given, and finish is announced once when the stop criterion ends the call. The iteration number is zero when a run starts, grows by exactly one per iteration, continues over pauses, and the stop criterion is consulted before every iteration and never after it has said stop. What loggers and stop checkers see is the state after the iteration just completed, and the value returned equals the state announced at finish.",
  ["inputs", "histories", "configurations"],
  "for every sequence of find_min, resumed runs and stop-checker replacements, any number of loggers and iterations, on both optimizers",
  "Tests count recorded runs for one or two plain runs; no test resumes a run, uses several loggers or looks at the iteration numbers announced.",
  [GA, PSO, LOG],
  [("lifecycle calls", GA+" and "+PSO+" find_min / next_iterations"), ("counter reset and increment", GA+" Population::reset/next_iteration, "+PSO+" Swarm::reset/next_iteration")],
  [("iteration", "iterations completed in this run", GA+", "+PSO)],
  ["Logger callbacks", "StopChecker::can_stop"])

p("C08", "Stop criteria stop exactly when they say",
  "The iteration limit stops at the first state whose iteration number reaches the limit; the threshold stops when the best goal value is at or below it; the no-change criterion stops at the first state at which more than the given number of iterations have passed since the best goal last moved by more than delta, counted within one run even if the checker served earlier runs. 'Any' stops iff at least one member would stop and 'all' iff every member would, where each member has followed the whole run, whatever the order and nesting of members. An optimizer run with a criterion performs exactly the iterations this implies.",
  ["inputs", "histories", "configurations"],
  "for every history of (iteration, best goal or none) over one or several runs, with ties, NaN, infinities and plateaus, every parameter value, and every nesting and order of composites",
  "There are no unit tests for stop checkers; end-to-end tests stop on a threshold and never reuse a plateau checker across runs after a plateau.",
  [STOP, GA, PSO],
  [("each checker's can_stop", STOP)],
  [("old_goal, change_iter", "last goal that counted as a change, and when", STOP+" GoalNotChange")],
  ["StopChecker::can_stop on synthetic states", "iterations performed by an optimizer"])

p("C09", "Pausing and resuming does not change the search",
  "Stopping a run after any number of iterations and resuming it, any number of times, visits exactly the same points with the same values, in the same order, and yields the same result as running the same iterations without a break, given the same random numbers. Resuming when the stop criterion is already met performs no iteration, evaluates nothing and returns the same result.",
  ["histories", "inputs", "configurations"],
  "for every split of a run into resumed parts, on both optimizers with every library operator combination, goal function and random stream",
  "No test resumes a run, and the library's random numbers cannot be repeated from the tests.",
  [GA, PSO],
  [("state kept between calls", GA+" and "+PSO+" next_iterations")],
  [("population / swarm", "whole search state between calls", GA+", "+PSO)],
  ["sequence of Goal::get calls", "returned solutions"])

p("C10", "Every find_min is a fresh, independent run",
  "Calling find_min again on the same optimizer, after any earlier runs, resumptions or component replacements, behaves exactly like find_min on a newly built optimizer with the same components and random numbers: same points, values, iteration count and result. Nothing of an earlier run (agents, best, worst, iteration number, progress of a stop criterion) leaks into the next.",
  ["histories", "inputs", "configurations"],
  "for every history of earlier runs before the repeated one, on both optimizers, with every library component including plateau stop criteria and composites",
  "One test calls find_min twice but only checks that two results were recorded; a leaked best or plateau counter passes it.",
  [GA, PSO, STOP],
  [("population reset", GA+" Population::reset, find_min"), ("swarm reset", PSO+" Swarm::reset, renew_swarm"), ("plateau counter", STOP+" GoalNotChange")],
  observe=["sequence of Goal::get calls", "returned solutions", "iteration counts"])

p("C11", "Observing a run does not change it and optimizers are independent",
  "Adding loggers of any kind, statistics recording or goal-call counting leaves the visited points, values, iteration count and result of a run unchanged, given the same random numbers. Optimizers running interleaved in one thread or concurrently in several threads, each with its own random numbers, behave exactly as if each ran alone.",
  ["configurations", "histories", "schedules"],
  "for every set of observers, goal function and operator combination, and for pairs and groups of optimizers interleaved run by run or run on parallel threads",
  "The tests cannot repeat a run with the same random numbers, so they cannot compare a run with and without observers, or alone and beside another.",
  [GA, PSO, LOG, STAT],
  [("observers get read-only state", LOG+" Logger, "+LIB+" AlgorithmState"), ("counting goal wrapper", STAT+" GoalCalcStatistics"), ("no shared mutable state", GA+", "+PSO)],
  observe=["sequence of Goal::get calls", "returned solutions"])

p("C12", "Only the order of goal values matters, and the space may be rescaled",
  "Replacing the goal function by any strictly increasing function of it leaves every point visited by either optimizer unchanged and changes reported values only by that function, given the same random numbers and an iteration limit. For the particle swarm, scaling all intervals, velocities, limits and the goal's argument by a power of two scales every visited point by exactly that factor.",
  ["inputs", "configurations", "histories"],
  "for every goal function, strictly increasing transformation of its finite values (NaN and infinities kept), power-of-two scale, operator combination and random stream",
  "It is a relation between two runs with equal random numbers, which the tests cannot produce; absolute-value or magnitude-dependent slips in comparisons agree with the tests' non-negative goals.",
  [GA, SEL, PAIR, PSO, VC, PV, PM],
  [("decisions use comparisons of goal values only", SEL+", "+PAIR+", "+GA+", "+PSO)],
  observe=["sequence of Goal::get calls"])

p("C13", "Interval and finiteness filters decide exactly",
  "The pre-birth interval filter keeps, in order and unchanged, exactly the children whose every coordinate is finite and inside the closed interval for that coordinate. The interval selection kills exactly the individuals violating the same rule, the finiteness selection exactly those whose goal value is NaN or infinite, and none of them revives a dead individual or touches anything else.",
  ["inputs", "configurations"],
  "for every population or child list, dimension, interval set, coordinates including exact bounds, neighbours of bounds, NaN, infinities, subnormals and signed zeros, f32 and f64, any pattern of already dead individuals",
  "These filters have no unit tests; random end-to-end runs never hit exact bounds and cannot tell killing too many from bad luck.",
  [PRE, SELV, SEL],
  [("retain on closed-interval test", PRE), ("kill on closed-interval test", SELV), ("kill on non-finite fitness", SEL+" KillFitnessNaN")],
  observe=["child list after pre_birth", "Individual::is_alive after kill"])

p("C14", "Limiting a population kills exactly the surplus, and the worst",
  "Limiting a population kills exactly as many living individuals as exceed the limit and none otherwise, and no surviving individual has a worse goal value than one that was killed, NaN counting as worst. Already dead individuals neither count nor come back, and killing the n worst kills exactly n living individuals (all when fewer live).",
  ["inputs", "configurations"],
  "for every population (sizes 0 to hundreds), goal values with ties, NaN and infinities in every arrangement, limits from zero to above the size, and every pattern of individuals already killed by earlier selections",
  "Selection has no unit tests; in end-to-end runs a wrong victim is quickly replaced and the optimum is still found.",
  [SEL],
  [("running list of the worst individuals", SEL+" kill_worst"), ("surplus computed from the live count", SEL+" LimitPopulation")],
  observe=["Individual::is_alive after kill"])

p("C15", "Pairing names valid parents with the documented pressure",
  "Random pairing returns half as many pairs as there are individuals, each of two valid indices drawn uniformly and independently. A tournament returns the requested number of families of the requested number of valid indices, each parent being the best (NaN counting as worst) of one plus the given number of individuals drawn independently and uniformly. Pairing never changes the population, and an empty population yields no parents rather than a failure.",
  ["inputs", "configurations"],
  "for every population size including 0 and 1, goal values with ties and NaN, family, partner and round counts, and every random stream; the distribution over many draws",
  "Pairing has no unit tests, and an inverted or weakened tournament, or one that ignores some individuals, still lets small end-to-end searches succeed.",
  [PAIR],
  [("uniform index draws", PAIR+" RandomPairing"), ("challenger replaces the current best when better", PAIR+" Tournament")],
  observe=["Pairing::get_pairs"])

p("C16", "Bit-level single-point crossing is exact for every type",
  "For every unsigned, signed and float type offered and every cut position from 1 to the bit width minus 1, the child's bits below the cut are the second parent's and its bits at and above the cut are the first parent's. Hence crossing a value with itself returns it, and crossing the two children of swapped parents at the same cut returns the first parents again.",
  ["inputs"],
  "for all pairs of values (all bit patterns, NaN payloads included) and all cut positions of the 8-, 16-, 32- and 64-bit integer and the 32- and 64-bit float versions",
  "The doc-tests use all-zeros against all-ones at a handful of cut positions; sign-bit handling at other cuts and mixed patterns is untested.",
  [CROSS],
  [("complementary masks", CROSS+" cross_u8 .. cross_f64")],
  observe=["return values"])

p("C17", "Crossing operators build children only from their parents",
  "The mean operator returns one child equal to the arithmetic mean of all parents, the geometric one their geometric mean (positive parents), both as long as the sum or the product of the parents is representable, the bitwise one a single-point crossing at a cut strictly inside the bit width, and the float one a value whose mantissa and exponent are each such a crossing of the parents' and whose sign is one of theirs; in both every cut is possible. Crossing of chromosome vectors crosses equal positions only and keeps gene order and length.",
  ["inputs", "configurations"],
  "for every parent values in the representable range (f32, f64, integers for the mean), any number of parents for the means, any chromosome length, any random stream",
  "Doc-tests use one or two small positive pairs; random operators are only exercised inside end-to-end searches that tolerate wrong children.",
  [CROSS],
  [("operators", CROSS+" CrossMean, FloatCrossGeometricMean, CrossBitwise, FloatCrossExp, VecCrossAllGenes")],
  observe=["Cross::cross"])

p("C18", "Mutation flips the stated number of random bits at the stated rate",
  "Bitwise mutation performs exactly the configured number of single-bit flips at independent uniformly random positions of the full bit width, so at most that many bits differ, with equal parity, and every bit can be hit. Vector mutation keeps length and order, applies the gene mutation to each gene independently with the given percentage, never at 0 and always at 100, and copies all other genes unchanged.",
  ["inputs", "configurations"],
  "for every gene bit pattern (f32 and f64), flip count, probability in [0, 100], chromosome length and random stream; rates over many draws",
  "Mutation has no unit tests; end-to-end runs succeed with a wrong rate or with some bits never touched.",
  [MUT],
  [("xor of random bits", MUT+" BitwiseMutation"), ("per-gene draw against the percentage", MUT+" VecMutation")],
  observe=["Mutation::mutation"])

p("C19", "Random initial points fill exactly the requested box",
  "Creators and initializers return exactly the requested number of points, each with one coordinate per interval, every coordinate finite and inside its closed interval and, for float types, independent and uniformly distributed over it (as long as its width is representable); initial zero velocities are exactly zero. Every call creates new points, and inverted, degenerate or non-finite intervals (for the genetic creator also an empty interval list or population) are rejected instead of producing points.",
  ["inputs", "configurations"],
  "for every interval set (tiny, huge, negative, straddling zero, per-coordinate different), counts, dimension, f32 and f64 (integers for containment), and random streams including extreme words; distribution over many draws",
  "Unit tests check containment of one box with ordinary random numbers; nothing checks uniformity, independence of coordinates, or the extreme random words at which bounds are exceeded.",
  [CRE, TOOLS, INIT],
  [("inclusive uniform sampling per interval", CRE+", "+TOOLS+" create_vec"), ("initializers", INIT)],
  observe=["Creator::create", "get_coordinates / get_velocity"])

p("C20", "Velocity rules compute exactly their documented equations",
  "For every particle and coordinate the new velocity equals the documented equation of the configured rule (classic, canonical, inertia, negative reinforcement) with the particle's current velocity and position, its own best (and worst) position so far, the swarm's best (and worst) position, and for negative reinforcement the current best and worst too, each attraction weighted by its own coefficient and its own random factor in [0, 1]. Random factors are independent between terms, coordinates, particles and iterations and uniform. Canonical parameters outside the documented range are rejected.",
  ["inputs", "histories", "configurations"],
  "for every coefficient set, goal function with NaN, infinities and ties, dimension, swarm size, iteration, history of positions and random stream (including streams that make every factor 0, 1 or a constant)",
  "The velocity rules have no unit tests, no reliable test runs the swarm end to end, and a swapped coefficient or stale personal best still converges.",
  [VC, PSO],
  [("equations", VC), ("personal best and worst memory", PSO+" Particle::move_to"), ("swarm best and worst", PSO+" update_best_particle, update_worst_particle, find_best_particle, find_worst_particle")],
  [("best_personal_*, worst_personal_*", "memory of each particle", PSO), ("best_particle, worst_particle", "memory of the swarm", PSO)],
  ["VelocityCalculator::calc_new_velocity called from a running swarm"])

p("C21", "Inertia follows its schedule",
  "Constant inertia always yields its value; linear inertia starts at its maximum, decreases linearly with the iteration number, reaches its minimum at the final iteration and never leaves the interval between the two. The inertia velocity rule multiplies the current velocity by the inertia for the current iteration number, which counts from zero in every run and continues over pauses.",
  ["inputs", "histories", "configurations"],
  "for every pair of bounds, horizon (at least 1) and iteration number below, at and beyond the horizon, f32 and f64, and for running swarms over several runs and pauses",
  "Neither inertia nor its velocity rule is executed by any test.",
  [VC],
  [("schedule", VC+" LinearInertia, ConstInertia"), ("use", VC+" InertiaVelocityCalculator")],
  observe=["Inertia::get", "velocities of a running swarm"])

p("C22", "Velocity limits hold and keep direction",
  "The per-dimension limit returns each component unchanged when its magnitude does not exceed its limit and otherwise the limit with the component's sign. The absolute limit returns the velocity unchanged when its Euclidean norm does not exceed the limit and otherwise a velocity of the same direction whose norm is the limit, up to rounding. Both keep the dimension and applying them twice changes nothing beyond rounding.",
  ["inputs", "configurations"],
  "for every finite velocity vector whose norm is finite (tiny and huge magnitudes, signed zeros; infinities for the per-dimension limit), every positive limit, dimension, f32 and f64",
  "Unit tests use one- to three-dimensional vectors of ordinary size with one limit.",
  [PV],
  [("component clamp", PV+" MaxVelocityDimensions"), ("scaling by limit over norm", PV+" MaxVelocityAbs")],
  observe=["PostVelocityCalc::correct_velocity"])

p("C23", "Position corrections clamp or teleport exactly as configured",
  "Moving to the boundary leaves coordinates inside the closed interval untouched, moves finite outside coordinates to the nearer bound and puts non-finite ones inside the interval. Teleporting with probability p either leaves the whole position untouched or replaces every coordinate by a fresh uniform value in its interval, in a fraction p of the calls: never for 0, always for 1; probabilities outside [0, 1] are rejected.",
  ["inputs", "configurations"],
  "for every interval set, position (exact bounds and neighbours, NaN, infinities, signed zeros), probability, dimension, f32 and f64 and random stream; rates over many draws",
  "Unit tests clamp a few ordinary values; teleporting is executed by no test.",
  [PM],
  [("clamp", PM+" MoveToBoundary"), ("teleport", PM+" RandomTeleport")],
  observe=["PostMove::post_move"])

p("C24", "Statistical summaries are the textbook quantities over successful runs",
  "Over the runs that have a solution, average and standard deviation (sample, n-1) of goals and of each coordinate are the mathematical ones up to rounding; they are absent exactly when fewer than one (average) or two (deviation) runs have a solution. The average convergence has the length of the shortest run and at each iteration averages the runs that have a solution there. The success rate is the fraction of all runs, failed ones included, that satisfy the predicate, where the supplied predicates accept exactly goals within delta of, and solutions within delta per coordinate of, the expected ones (never NaN).",
  ["inputs"],
  "for every list of runs with and without solutions, run lengths (also zero and unequal), dimension, magnitudes and offsets of values, f32 and f64, and any order of the runs",
  "Unit tests use at most three runs with values of ordinary size; they cannot cover large offsets, many runs, unequal lengths with gaps, or boundary deltas.",
  [STAT],
  [("summaries", STAT+" StatFunctionsConvergence, StatFunctionsGoal, StatFunctionsSolution"), ("predicates", STAT+" get_predicate_success_goal, get_predicate_success_vec_solution")],
  observe=["return values"])

p("C25", "Recorded statistics mirror the runs and merge losslessly",
  "A statistics logger records one entry per run: the run's latest finished result and the best solution after each of its iterations, in order, also over several runs and resumed runs. Merging statistics, or call counts, appends the other's runs after one's own in order, losing, duplicating or changing nothing, so merging parts collected separately (also on other threads) in order equals collecting in one place. Call counts per run are the sums of what was counted since that run was begun and the average is their mean.",
  ["histories", "inputs", "schedules"],
  "for every history of runs, resumptions, merges (in any grouping) and counter operations, on both optimizers and with parts collected on parallel threads",
  "Unit tests merge at most one run with one run and record plain runs only; no test records resumed runs or merges in different groupings.",
  [STAT],
  [("recording", STAT+" StatisticsLogger, Statistics::add_result, add_convergence"), ("merging", STAT+" Statistics::unite, CallCountData::unite")],
  [("results, convergence", "per-run records", STAT), ("CallCountData", "per-run call counts", STAT)],
  ["Statistics and CallCountData getters"])

p("C26", "The goal is evaluated exactly once per candidate and counted exactly",
  "A run of the genetic optimizer evaluates the goal exactly once for each initial individual and each child that passes the pre-birth steps, and of the particle swarm exactly once per particle initially and per iteration; nothing else evaluates it. The counting goal wrapper forwards each argument and value unchanged and counts each evaluation exactly once in the current run's count.",
  ["inputs", "histories", "configurations"],
  "for every configuration, goal function (also stateful ones whose value changes per call), number of iterations, resumptions and repeated runs",
  "No test counts goal evaluations of a run; a redundant or cached evaluation passes all of them but falsifies reported cost and breaks stateful goals.",
  [GA, PSO, STAT, LIB],
  [("evaluation at birth", GA+" Population::push"), ("evaluation after move", PSO), ("counting", STAT+" GoalCalcStatistics, CallCountData"), ("function wrapper", LIB+" GoalFromFunction")],
  observe=["Goal::get calls", "CallCountData::get_call_count"])

p("C27", "Text loggers print the run faithfully",
  "The verbose logger writes exactly one line per iteration that has a best solution, holding the iteration number, every coordinate in order and the goal value with the requested number of decimals. The result logger writes, once per finish, every coordinate on its own line, the goal and the iteration count, or that no solution was found. The time logger writes, once per finish, the whole milliseconds since the run was last started or resumed.",
  ["inputs", "histories", "configurations"],
  "for every solution (magnitudes, signs, NaN, infinities), precision, dimension, f32 and f64, number of iterations, resumptions and runs, also without solution",
  "Logging has no tests at all.",
  [LOG],
  [("formatting", LOG+" VerboseLogger, ResultOnlyLogger, TimeLogger")],
  observe=["bytes written to the supplied writer"])

p("C28", "Test functions equal their formulas",
  "At every point the paraboloid, Schwefel, Rastrigin and Rosenbrock functions return the value of their published formula for that dimension up to rounding, in single and double precision. None is below its documented minimum on its documented domain beyond rounding, and the minimum value is reached at the documented point in every dimension.",
  ["inputs"],
  "for every dimension (1 to dozens; Rosenbrock from 1), every point of the documented domain and moderately beyond, f32 and f64",
  "Each function has one doc-test, at its minimum only; wrong signs, exponents or ignored coordinates vanish there.",
  [TF],
  [("formulas", TF)],
  observe=["return values"])

p("C29", "Hostile goal functions never crash a run or delay its end",
  "Whatever the goal function returns (NaN, infinities, huge, constant, alternating), including values that make selection remove the whole population, both optimizers built from library components run without failing, stop exactly at their iteration limit, and return a solution. Only the genetic optimizer may return none, when it performed no iteration or no individual survived one. Resuming or restarting afterwards works the same way.",
  ["inputs", "configurations", "histories"],
  "for every goal-value sequence, all library component combinations with valid parameters, population and swarm sizes from 1, dimensions, limits, resumptions and random streams including extreme words",
  "All tests use smooth finite goals and large populations.",
  [GA, PAIR, SEL, PSO, STOP],
  [("NaN-aware comparisons", GA+", "+PSO), ("pairing on small and empty populations", PAIR)],
  observe=["panics", "iterations performed", "returned solution"])

p("C30", "The optimizers find minima far better than chance",
  "With ordinary parameters, the genetic optimizer and each velocity rule of the particle swarm reach near-optimal values of the paraboloid and other test functions within a modest iteration budget in at least half of the runs, and clearly better than uniform random search with the same number of evaluations. More iterations never hurt.",
  ["inputs", "configurations"],
  "over many random streams and a family of shifted test functions, dimensions and documented operator combinations; a statistical claim with wide margins",
  "No stable end-to-end test of the particle swarm exists, and the genetic ones sample one configuration each without controlled random numbers.",
  [GA, PSO, VC, PAIR, CROSS, MUT, SEL],
  [("whole algorithms", GA+", "+PSO)],
  observe=["result of find_min"])

p("C31", "Replaced components take effect at once and completely",
  "After any component of an optimizer is replaced between calls (pairing, crossing, mutation, selection, pre-birth, stop checker or loggers; for the swarm stop checker, loggers, position or velocity corrections), the new one is used from the next call on and the old one never again. The replacement changes neither the search state nor any other component.",
  ["histories", "configurations"],
  "for every sequence of replacements, runs and resumptions on both optimizers",
  "No test calls any of these setters after construction except to install loggers before the first run.",
  [GA, PSO],
  [("setters", GA+" GeneticOptimizer::set_*, "+PSO+" ParticleSwarmOptimizer::set_*")],
  observe=["calls received by old and new components", "population or swarm before and after"])

p("C32", "Data that does not fit a component is refused, never partly used",
  "A component that gets data not fitting its configuration panics instead of working on a truncated part: filters, clamps, teleports and per-dimension limits given a point or velocity of another dimension than configured (also when only one of many is malformed), a swarm given different numbers of initial positions and velocities, means of fewer than two parents, the other crossings of other than two, a generation whose family names a nonexistent individual, 'any' and 'all' of no criteria, a solution predicate with unequal lengths, and averages over solutions of different dimensions. Data that fits is never refused.",
  ["inputs", "configurations"],
  "for every dimension and every other dimension, position of the malformed item in its list, coordinate values, probabilities, f32 and f64",
  "One test hands a velocity of a wrong length to one component; everywhere else zipping would silently drop what does not fit.",
  [PRE, SELV, PM, PV, PSO, CROSS, STOP, STAT, GA],
  [("length assertions", PRE+", "+SELV+", "+PM+", "+PV+", "+CROSS), ("counts of positions and velocities", PSO+" renew_swarm"), ("non-empty composites", STOP), ("equal lengths in predicates and averages", STAT)],
  observe=["panics of the component calls"])

p("C33", "A failing component ends the call and leaves the optimizer usable",
  "When the goal, an operator, a stop criterion or a logger panics during a run, the panic reaches the caller unchanged and at once: no further component is called. A find_min afterwards on the same optimizer behaves exactly like one on a newly built optimizer with the same components and random numbers, and after the failure of a stop criterion or logger the run can also be resumed and visits exactly what it would have visited without the failure. A text logger whose writer fails panics instead of losing output.",
  ["fault_sequences", "crash_points", "histories", "configurations"],
  "for every component call of every run as the point of failure (also twice), all library component combinations, resumptions and stop criteria, and every byte at which a writer may fail",
  "No test injects a failure anywhere.",
  [GA, PSO, LOG],
  [("state reset at the start of a run", GA+" find_min, "+PSO+" renew_swarm"), ("components stay in the optimizer while they are used", GA+" next_iterations, "+PSO+" next_iterations"), ("write errors are unwrapped", LOG)],
  observe=["panics of find_min / next_iterations", "component calls after the failure", "later runs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
