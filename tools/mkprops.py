#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
G = "optlib/src/genetic/"
P = "optlib/src/particleswarm/"
T = "optlib/src/tools/"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Genetic generation: every child and survivor is accounted for",
 "In every generation the newborns are exactly: for each family chosen by the pairing, in order, the offspring the crossover produced from the chromosomes of exactly those individuals, each passed once through mutation and then, as one list, through every pre-birth filter in the configured order. The next population is the old individuals followed by the newborns minus exactly those killed by the configured selections, which are applied in order to old and new individuals together; nobody else is added, lost, duplicated, altered or reordered.",
 ["histories", "configurations", "inputs"],
 "all populations, family lists (any sizes, repeated members, no families), offspring lists of any length, filters, kill sets and numbers of generations",
 "Tests only look at the final optimum of a few fixed configurations, which a lost child, a doubled survivor or a skipped filter does not disturb.",
 [G+"mod.rs"], [("next_iterations", G+"mod.rs"), ("run_pairing", G+"mod.rs"), ("Population::append / remove_dead", G+"mod.rs")],
 [("population", "sequence of individuals (chromosomes, goal value, alive)", G+"mod.rs")],
 ["the plug-in traits (Pairing, Cross, Mutation, PreBirth, Selection) called by the optimizer"])

prop("C02", "Genetic optimizer: reported best and worst are the generation's extremes",
 "After every completed generation that has survivors, the solution the genetic optimizer reports (to stop criteria, loggers and plug-ins, and as the final result) is a survivor that no survivor beats, and the reported worst individual is a survivor that none is worse than. Point and value always belong to the same individual; a NaN value is reported as best or worst only if every survivor is NaN, and infinite values are ordered as numbers. Before the first completed generation of a run no solution is reported, and a generation without survivors keeps the last report.",
 ["histories", "inputs"], "all populations and goal values including ties, infinities and NaN, at every generation of every run",
 "Tests check one final value within a tolerance with finite goal values; NaN/infinite values, ties and intermediate generations are never looked at.",
 [G+"mod.rs"], [("update_best_worst_individuals", G+"mod.rs"), ("individuals_min_cmp / individuals_max_cmp", G+"mod.rs")],
 [("best_individual, worst_individual", "reported extremes", G+"mod.rs")], ["AlgorithmState::get_best_solution", "Population::get_best/get_worst", "find_min result"])

prop("C03", "Shipped genetic selections never lose the best and bound the population",
 "With the shipped non-finite-value filter followed by the shipped population limit N >= 1 as selections, the best goal value reported by the genetic optimizer never gets worse from one generation to the next within a run, also across pause and resume. After every generation the population holds at most N individuals, all with finite goal values, and exactly N whenever at least N finite individuals were available.",
 ["histories", "inputs", "configurations"], "all goal functions, operators, limits, generation counts and pauses",
 "Tests accept any run that eventually reaches the optimum; losing the best individual now and then only slows convergence.",
 [G+"selection/mod.rs", G+"mod.rs"], [("KillFitnessNaN", G+"selection/mod.rs"), ("LimitPopulation / kill_worst", G+"selection/mod.rs"), ("remove_dead", G+"mod.rs")],
 [], ["best solution and population seen by plug-ins in each generation"])

prop("C04", "The population limit kills exactly the worst surplus",
 "Limiting a population to N kills exactly (live - N) individuals when more than N are alive and none otherwise, and killing the worst K kills exactly min(K, live) individuals. Every live individual that is kept is at least as good as every one that is killed, NaN counting as worst and infinities ordered as numbers; individuals already dead are neither counted nor revived, and no individual's chromosomes, value or place changes.",
 ["inputs"], "all populations (any size, any mix of live and dead, ties, infinities, NaN), all limits including 0",
 "The repository has no test of the limit at all except through final optima.",
 [G+"selection/mod.rs"], [("kill_worst", G+"selection/mod.rs"), ("LimitPopulation::kill", G+"selection/mod.rs")], [], ["Population before and after the selection"])

prop("C05", "Filters reject exactly the invalid individuals",
 "The non-finite-value filter kills exactly the individuals whose goal value is NaN or infinite. The interval filters (for chromosomes about to be born, and for individuals of the population) reject exactly those with at least one gene that is NaN, infinite or outside the closed interval of its position. Everything else is kept unchanged and in its order, and the dead are never revived.",
 ["inputs"], "all chromosome lists, dimensions, intervals (both bounds inclusive, per position), f32 and f64 genes, special values",
 "No unit test covers these filters; optimisation tests never put a gene exactly on a bound or a NaN in a middle position.",
 [G+"selection/mod.rs", G+"selection/vec_float.rs", G+"pre_birth/vec_float.rs"],
 [("KillFitnessNaN::kill", G+"selection/mod.rs"), ("CheckChromoInterval::kill", G+"selection/vec_float.rs"), ("CheckChromoInterval::pre_birth", G+"pre_birth/vec_float.rs")])

prop("C06", "The goal function is evaluated exactly once per new point",
 "Both optimizers evaluate the goal function exactly once for every point they create - each initial individual or particle, each child that is actually born, each particle move - at the final (filtered and corrected) point and in order, and never for rejected children, survivors or on resume. The value stored with an agent, and shown to plug-ins and in results, is the value that this evaluation returned for exactly that point, also when the goal is a plain function wrapped by the library's adapter.",
 ["histories", "inputs", "configurations"], "all runs, including stateful goal functions that return different values for equal points",
 "Tests use pure goal functions and never count or order the calls.",
 [G+"mod.rs", P+"mod.rs"], [("Population::push", G+"mod.rs"), ("renew_swarm / next_iterations", P+"mod.rs"), ("Particle::move_to", P+"mod.rs")],
 [], ["Goal::get calls", "agents seen by plug-ins"])

prop("C07", "Stop criterion and iteration count govern every run",
 "In both optimizers the stop criterion is consulted exactly once before every iteration and sees the current state: an iteration runs if and only if it did not say stop, and once it says stop nothing more is changed. The reported number of completed iterations starts at 0 in a new run and grows by exactly one per iteration. The returned result is exactly the best solution of the state in which the criterion stopped the run (none if there is none).",
 ["histories", "configurations"], "all stop criteria (also stateful ones), stopping at once, long runs, paused and repeated runs",
 "Tests run to a far iteration limit and look at the result only.",
 [G+"mod.rs", P+"mod.rs"], [("next_iterations", G+"mod.rs"), ("next_iterations", P+"mod.rs")],
 [("iteration", "completed iterations", G+"mod.rs, "+P+"mod.rs")], ["StopChecker::can_stop calls", "return value"])

prop("C08", "Loggers see every lifecycle event, in order, with the true state",
 "In both optimizers every attached logger is told: the start once per new run (after initialisation, not on resume), then the (re)start of the loop once per call, then each completed iteration exactly once, then the finish once when the call ends. Within each event the loggers are told in the order in which they were attached, and each sees the iteration number and best solution of that moment - the same one the stop criterion sees next.",
 ["histories", "configurations"], "all numbers of loggers and iterations (also zero), pauses, repeated runs, logger replacement between calls",
 "No test looks at the sequence of logger calls.",
 [G+"mod.rs", P+"mod.rs", T+"logging/mod.rs"], [("find_min, next_iterations", G+"mod.rs"), ("find_min, next_iterations", P+"mod.rs")],
 [], ["Logger trait calls"])

prop("C09", "Pause and resume continue the same run",
 "Continuing a stopped run starts from exactly the agents, personal memories, velocities, iteration number and best/worst solution with which it stopped: nothing is recreated, re-evaluated, reset or counted twice. A run cut into pieces at any iterations therefore makes the same sequence of iterations as an uninterrupted run with the same choices, and plug-ins replaced in between take effect from the first continued iteration.",
 ["histories", "configurations"], "all ways to cut a run into pieces (also empty pieces) and all plug-in replacements between them",
 "Resuming is used only in an example that is built but never run.",
 [G+"mod.rs", P+"mod.rs"], [("IterativeOptimizer for GeneticOptimizer", G+"mod.rs"), ("IterativeOptimizer for ParticleSwarmOptimizer", P+"mod.rs")],
 [], ["first state seen by plug-ins after next_iterations"])

prop("C10", "A new search on a used optimizer forgets the previous one",
 "Starting a search on an optimizer that has already been used creates all agents anew, starts at iteration 0, and reports no solution, individual, particle or memory of an earlier search: until the first generation the genetic optimizer reports no solution, and the particle swarm reports the best of the new swarm only. The new search behaves exactly as on a fresh optimizer with the same choices.",
 ["histories"], "all sequences of searches and resumes on one optimizer, with better or worse goal values than before",
 "Every test uses an optimizer once.",
 [G+"mod.rs", P+"mod.rs"], [("Population::reset", G+"mod.rs"), ("Swarm::reset / replace_particles", P+"mod.rs")],
 [], ["states seen by plug-ins and loggers after the second find_min"])

prop("C11", "Particle swarm reports the best point ever visited in the run",
 "After initialisation and after every iteration the swarm's reported best solution is a point evaluated in this run with the smallest finite goal value seen so far, together with that value; any finite value beats NaN and both infinities. It is replaced only by a strictly better point, so it never gets worse, and it does not change while the particles of an iteration are being moved.",
 ["histories", "inputs"], "all goal values (ties, infinities, NaN at any time), swarm sizes, iteration counts, pauses",
 "Unit tests compare two fixed particles; no stable end-to-end particle swarm test exists.",
 [P+"mod.rs"], [("update_best_particle / find_best_particle", P+"mod.rs"), ("compare_floats", P+"mod.rs")],
 [("best_particle", "best so far", P+"mod.rs")], ["AlgorithmState::get_best_solution", "find_min result"])

prop("C12", "Particle motion law",
 "In every iteration each particle is moved exactly once, in order: its new velocity is what the velocity rule returned after every configured velocity correction in order, and its new position is the old position plus that velocity, component by component, passed through every configured position correction in order. Initial positions pass through the position corrections too and initial velocities are taken as given; the number and order of particles never change, and nothing but its own move changes a particle's position or velocity.",
 ["histories", "configurations"], "all velocity rules, correction lists (none, several), dimensions, swarm sizes, iterations",
 "Unit tests exercise single components; the loop that combines them is not tested.",
 [P+"mod.rs"], [("next_iterations / renew_swarm", P+"mod.rs")],
 [("particles", "coordinates, velocity, value, personal memories", P+"mod.rs")], ["VelocityCalculator, PostVelocityCalc, PostMove and Goal calls"])

prop("C13", "Velocity rules follow their documented equations",
 "Each shipped velocity rule returns, in every dimension, its documented combination of the particle's own velocity and position, the best (and worst) point this particle itself has visited in the run, the best (and worst) of the current swarm and of the whole run, weighted by its parameters and by random factors in [0, 1] drawn separately for every term and dimension. The inertia weight is the configured constant, or falls linearly from its maximum at iteration 0 to its minimum at the configured iteration and then stays there.",
 ["inputs", "histories"], "all parameters, dimensions, histories of personal and global bests and worsts (ties, NaN, infinities), random factors including 0 and 1",
 "No test calls a velocity rule or an inertia.",
 [P+"velocitycalc/mod.rs", P+"mod.rs"], [("calc_new_velocity (4 rules)", P+"velocitycalc/mod.rs"), ("LinearInertia::get", P+"velocitycalc/mod.rs"), ("Particle::move_to (personal best/worst)", P+"mod.rs")],
 [("best_personal_*, worst_personal_*", "personal memories", P+"mod.rs")], ["output of calc_new_velocity"])

prop("C14", "Velocity limits bound exactly and change nothing else",
 "The per-dimension limiter leaves a component whose magnitude is within its own bound unchanged and otherwise replaces it by that bound with the component's sign. The modulus limiter leaves a finite velocity (of finite modulus) unchanged if its modulus is within the bound and otherwise scales it to that modulus without changing its direction. The number and order of components never change.",
 ["inputs"], "all finite velocities, dimensions and non-negative bounds, f32 and f64, exactly at, below and above the bound (infinite components too for the per-dimension limiter)",
 "A handful of two-component examples.",
 [P+"postvelocitycalc/mod.rs"], [("MaxVelocityDimensions", P+"postvelocitycalc/mod.rs"), ("MaxVelocityAbs", P+"postvelocitycalc/mod.rs")])

prop("C15", "Position corrections keep every particle inside its box",
 "The boundary correction moves any point, including NaN and infinite coordinates, into the box of per-dimension closed intervals, leaves coordinates already inside unchanged and puts a finite outside coordinate on the bound it violated. Random teleport with probability 0 never changes a point, with probability 1 always redraws every coordinate, otherwise changes all or nothing, and lands inside the box; a probability that is not within [0, 1] is refused. Hence a swarm whose last correction is the boundary correction never evaluates or reports a point outside the box, and a genetic run with the interval pre-birth filter never evaluates a child outside it.",
 ["inputs", "histories", "configurations"], "all coordinates, boxes, dimensions, velocities, teleport probabilities and runs",
 "Unit tests cover five finite points; teleport has no test and no run is checked for containment.",
 [P+"postmove/mod.rs", P+"mod.rs", G+"pre_birth/vec_float.rs"], [("MoveToBoundary", P+"postmove/mod.rs"), ("RandomTeleport", P+"postmove/mod.rs"), ("renew_swarm / next_iterations", P+"mod.rs")])

prop("C16", "Single-point bit crossover",
 "For every integer and float width and every crossing position from 1 to width-1, the child of the single-point crossover has the bits of the second parent below the position and the bits of the first parent from it on. The random bitwise crossover of floats returns exactly one child of that form, for a position strictly inside the word, and every such position can occur; it refuses any other number of parents than two.",
 ["inputs"], "all parent values, widths (8, 16, 32, 64, signed, unsigned, f32, f64) and positions",
 "Doc tests use all-zero and all-one parents at a few positions.",
 [G+"cross/mod.rs"], [("cross_u8..cross_f64", G+"cross/mod.rs"), ("CrossBitwise", G+"cross/mod.rs")])

prop("C17", "Mutation changes what it may change and nothing else",
 "Bitwise mutation of a float with count K flips K randomly drawn bits (a bit drawn twice flips back), so the result differs in at most K bits, in a number of the same parity, and every bit of the word can be hit. Vector mutation keeps length and order, passes a gene to the gene mutation with the given percentage (never at 0, always at 100) and otherwise copies it unchanged, deciding for every gene separately.",
 ["inputs"], "all floats (f32, f64), counts, vectors, probabilities and random choices",
 "Mutation has no unit test at all.",
 [G+"mutation/mod.rs"], [("BitwiseMutation", G+"mutation/mod.rs"), ("VecMutation", G+"mutation/mod.rs")])

prop("C18", "Pairing yields valid families and real tournaments",
 "Random pairing of n individuals yields floor(n/2) families of two, the tournament the configured number of families of the configured size, and every member is an individual of the population; an empty population yields no family. A tournament partner is the best (NaN is worst) of one more than the configured number of rounds of individuals drawn at random from the whole population. Every individual can be drawn.",
 ["inputs", "configurations"], "all population sizes (0, 1, many), goal values including ties, infinities and NaN, family counts and sizes, rounds (also 0), random choices",
 "Pairing has no unit test at all.",
 [G+"pairing/mod.rs"], [("RandomPairing::get_pairs", G+"pairing/mod.rs"), ("Tournament::get_pairs", G+"pairing/mod.rs")])

prop("C19", "Random initialisation fills the box it was given",
 "The random creators of chromosomes, coordinates and velocities return exactly the requested number of vectors, each with one component per interval and every component inside its own closed interval, and draw every component of every vector separately, reaching the lower and the upper part of each interval; zero velocities are zero with the requested shape. Empty or inverted intervals are refused, as are intervals without numbers (NaN), and the chromosome creator refuses an empty population or chromosome.",
 ["inputs", "configurations"], "all counts, dimensions, intervals (tiny, huge, asymmetric), number types, random choices including the extreme ones",
 "Tests use three intervals and f64 only.",
 [T+"mod.rs", G+"creation/vec_float.rs", P+"initializing/mod.rs"], [("RandomCreator", G+"creation/vec_float.rs"), ("RandomVectorCreator", T+"mod.rs"), ("RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer", P+"initializing/mod.rs")])

prop("C20", "Numeric crossovers combine their parents as documented",
 "The mean crossover returns one child, the arithmetic mean of all its parents (whose sum can be represented), and the geometric crossover the n-th root of the (non-negative, representable) product of its n parents. The exponent/mantissa crossover returns one child whose mantissa and exponent are single-point crossings of the parents' mantissas and exponents, at positions any of which can occur, and whose sign is that of either parent, whenever the number so composed can be represented. The vector crossover returns one child built gene by gene, position by position, from exactly two parents. A wrong number of parents (fewer than two, for the last two any but two) is refused.",
 ["inputs"], "all numbers of parents, gene values (normal finite floats, both widths, both signs) and dimensions",
 "Doc tests use one to three positive examples, compared one-sidedly.",
 [G+"cross/mod.rs"], [("CrossMean, FloatCrossGeometricMean, FloatCrossExp, VecCrossAllGenes", G+"cross/mod.rs")])

prop("C21", "Iteration limit, threshold and composite stop criteria decide exactly",
 "The iteration limit says stop if and only if at least that many iterations are completed; the threshold if and only if there is a solution whose goal value does not exceed it (never for NaN). The composite criteria say stop exactly when any, respectively all, of their members do, where every member sees every state and so answers as it would on its own, independently of order and nesting. Criteria without members are refused.",
 ["histories", "inputs", "configurations"], "all sequences of states, members (also stateful and nested), limits (0 too), thresholds and goal values",
 "Stop criteria have no unit test.",
 [T+"stopchecker/mod.rs"], [("MaxIterations, Threshold, CompositeAny, CompositeAll", T+"stopchecker/mod.rs")])

prop("C22", "The no-change criterion measures stagnation per run",
 "The no-change criterion says stop if and only if more than the configured number of iterations have passed since the best goal value last moved by more than delta from the value recorded at its previous such move (the first value seen always counts as a move, smaller drifts add up until they exceed delta), and never while there is no solution. A criterion used for a new run judges it as a fresh one would, and on a resumed run it goes on counting.",
 ["histories", "inputs"], "all histories of goal values, deltas (also 0), limits, repeated and resumed runs",
 "No test; the optimisation tests that use it do not look at when it stops.",
 [T+"stopchecker/mod.rs"], [("GoalNotChange", T+"stopchecker/mod.rs")], [("old_goal, change_iter, last_iter", "last recorded move", T+"stopchecker/mod.rs")])

prop("C23", "Statistics record every run and iteration faithfully",
 "The statistics logger records for every run, in order, the best solution after each of its iterations and one final result, whatever the number of iterations, pauses and resumptions, so that the run count, results and convergence histories have the same length and index. Uniting statistics appends the other's runs after the own ones without changing, dropping or reordering any.",
 ["histories"], "all sequences of runs, iteration counts (0 too), solutions (none, changing), resumptions and unions of statistics",
 "Unit tests unite hand-made vectors; the logger itself is not tested.",
 [T+"statistics/mod.rs"], [("StatisticsLogger", T+"statistics/mod.rs"), ("Statistics::unite / add_result / add_convergence", T+"statistics/mod.rs")],
 [("results, convergence", "per-run records", T+"statistics/mod.rs")])

prop("C24", "Aggregate statistics are the defined means and deviations",
 "Averages and (n-1) standard deviations of goal values and of solutions, per component, are taken over exactly the runs that found a solution; they are absent when there is none, and deviations also when fewer than two runs found one. The average convergence has the length of the shortest run, and each entry averages the runs that had a solution at that iteration, absent if none had.",
 ["inputs"], "all lists of results (any mix of found and not found), dimensions, and convergence tables (ragged, empty)",
 "Unit tests use at most three runs.",
 [T+"statistics/mod.rs"], [("StatFunctionsGoal, StatFunctionsSolution, StatFunctionsConvergence", T+"statistics/mod.rs")])

prop("C25", "Success rate counts exactly the successful runs",
 "The success rate is the number of runs whose solution satisfies the predicate divided by the number of all runs, a run without solution counting as a failure, and is absent when there are no runs. The goal predicate accepts exactly goal values closer than delta to the expected value; the solution predicate accepts exactly points of which every coordinate is within its delta of the expected one; NaN is never a success.",
 ["inputs"], "all result lists, expected values, deltas, dimensions, special values",
 "A few hand-made lists, no NaN, no boundary values.",
 [T+"statistics/mod.rs"], [("get_success_rate, get_predicate_success_goal, get_predicate_success_vec_solution", T+"statistics/mod.rs")])

prop("C26", "Goal-call counting is exact",
 "A counted goal function passes every point and value through unchanged and adds exactly one call to the current run's counter, opening a first run if none is open; starting a run opens a new counter at 0 and adding n calls adds exactly n. Uniting appends the other's counters, and the average is the mean of all counters, absent without runs. Over a whole search the counter equals the number of points the optimizer created.",
 ["histories"], "all sequences of run starts, calls, additions, unions and whole optimizer runs",
 "Unit tests build the counters by hand; the counting goal function is not tested.",
 [T+"statistics/mod.rs"], [("CallCountData", T+"statistics/mod.rs"), ("GoalCalcStatistics", T+"statistics/mod.rs")])

prop("C27", "Text loggers print the true state",
 "The verbose logger prints one line per completed iteration that has a solution, and nothing otherwise: iteration number, every coordinate in order, and the goal value, with the configured number of decimals. The result logger prints at every finish the solution's coordinates in order and its goal value, or that no solution was found, and in both cases the iteration count. The time logger prints one elapsed-time line per finish, covering the time since the loop was last entered.",
 ["inputs", "histories"], "all solutions (dimension, magnitude, special values), precisions, iteration counts, resumed and repeated runs",
 "No test reads logger output.",
 [T+"logging/mod.rs"], [("VerboseLogger, ResultOnlyLogger, TimeLogger", T+"logging/mod.rs")])

prop("C28", "Test functions have their documented values and minima",
 "For every dimension and both float types the test functions take the values of their formulas: paraboloid is the sum of (x_n - n)^2 with n counted from 1, Rosenbrock the sum of 100*(x_{n+1} - x_n^2)^2 + (1 - x_n)^2 over consecutive coordinates, Rastrigin 10 per dimension plus the sum of x^2 - 10*cos(2*pi*x), Schwefel 418.9829 per dimension minus the sum of x*sin(sqrt(|x|)). Inside their documented domains they are not negative (beyond rounding) and reach 0 only at the documented minimum.",
 ["inputs"], "all points of lattices on which the formulas are exact (integers; quarter-integers for Rastrigin; squares of multiples of pi/2 for Schwefel), dimensions, f32 and f64",
 "One doc test per function, at the minimum only.",
 ["optlib-testfunc/src/lib.rs"], [("paraboloid, schwefel, rastrigin, rosenbrock", "optlib-testfunc/src/lib.rs")])

prop("C29", "A population or swarm is the same from every side",
 "Whichever way a plug-in looks at a population or swarm - length, iteration (also mutable), indexing, or the list of agents with their parameters and goal values - it finds the same individuals or particles with the same points and values in the same order; the number of live ones is the number of those alive, and the best solution and iteration number are the same through every accessor. Killing individuals through the index or the mutable iteration kills exactly those, changes nothing else, and does not affect or depend on copies. A new swarm is empty.",
 ["histories", "inputs"], "all populations and swarms that arise in runs (any size, duplicates, dead individuals, special values), at every plug-in call",
 "No test looks at a population or swarm in more than one way.",
 [G+"mod.rs", P+"mod.rs", "optlib/src/lib.rs"], [("Population: len, len_alive, iter, iter_mut, Index, IndexMut, AgentsState, AlgorithmState", G+"mod.rs"), ("Individual: Agent, kill, Clone", G+"mod.rs"), ("Swarm, Particle: AgentsState, AlgorithmState, Agent", P+"mod.rs")],
 [("individuals, particles", "the agents", G+"mod.rs, "+P+"mod.rs")], ["population and swarm arguments of plug-ins"])

prop("C30", "Searches driven by shipped stop criteria end exactly when they say",
 "A search or continuation with any combination of the shipped stop criteria makes exactly as many iterations as the criteria's meaning for the course of its best value demands: with an iteration limit n it ends after max(0, n - completed) further iterations, with a threshold at the first state whose best value does not exceed it, with the no-change criterion after the first stagnation longer than configured, and with composites when any or all members say so. Every call bounded by an iteration limit terminates. Resuming a search that its criterion has ended makes no iteration and returns the same result; a new search, and a replaced criterion, are judged afresh.",
 ["histories", "configurations"], "both optimizers, all trees of criteria, all courses of the best value (none, rising, falling, ties, infinities, NaN), all sequences of searches, continuations and replaced criteria",
 "Tests only check that some run eventually came near the optimum, not when it ended.",
 [T+"stopchecker/mod.rs", G+"mod.rs", P+"mod.rs"], [("MaxIterations, Threshold, GoalNotChange, CompositeAny, CompositeAll", T+"stopchecker/mod.rs"), ("next_iterations", G+"mod.rs"), ("next_iterations", P+"mod.rs")],
 [("iteration, best solution", "what criteria judge", G+"mod.rs, "+P+"mod.rs")], ["questions to the criteria", "return value"])

prop("C31", "A search depends on nothing but its own plug-ins",
 "A search is determined by its plug-ins: repeated with a new optimizer whose plug-ins make the same choices (and draw the same random numbers) it calls the same plug-ins with the same arguments in the same order and returns the same result. This holds whatever other optimizers and components did before, do in other threads, or do inside its own plug-ins (nested searches), and the nested search too behaves as alone.",
 ["histories", "schedules", "configurations"], "all scenarios of both optimizers with scripted and shipped plug-ins, repeated, nested at any plug-in call, and next to other threads",
 "Tests run each search once and look at the optimum only; nothing is nested or compared.",
 [G+"mod.rs", P+"mod.rs", T+"mod.rs"], [("GeneticOptimizer", G+"mod.rs"), ("ParticleSwarmOptimizer", P+"mod.rs")],
 [], ["all plug-in calls and the return value"])

prop("C32", "A panicking plug-in ends the search and leaves the optimizer usable",
 "When a plug-in panics during a search, the panic reaches the caller unchanged and no plug-in is called after it within that call. The optimizer keeps nothing of the interrupted search: a new search on it calls the same plug-ins with the same arguments in the same order, and returns the same result, as if the interrupted one had never been started - however often this happens and whichever call was the one that panicked.",
 ["crash points", "histories", "configurations"], "all points at which a search or continuation of either optimizer can be cut off by a plug-in, with scripted and shipped plug-ins, repeatedly",
 "No test lets a plug-in panic.",
 [G+"mod.rs", P+"mod.rs"], [("find_min, next_iterations", G+"mod.rs"), ("find_min, next_iterations", P+"mod.rs")],
 [("population, swarm, plug-in lists", "what a search could leave behind", G+"mod.rs, "+P+"mod.rs")], ["panic payload", "all plug-in calls and the return value of the next search"])

prop("C33", "Contradictory shapes and configurations are refused",
 "Contradictory data or configurations are refused by a panic - always, and nothing else is: an interval filter given a newborn or an individual, the boundary correction or the random teleport given a point, and the per-dimension velocity limiter given a velocity, whose number of components is not its number of intervals or limits (wherever in a list it stands, and whether or not its components are acceptable); initializers that make different numbers of positions and velocities (before any point is evaluated); the average or the standard deviation of found solutions of different lengths; a success predicate with different numbers of expected values and tolerances; a canonical velocity rule unless its two phi sum to more than 4 and its alpha lies strictly between 0 and 1 (NaN never does); a composite of no stop criteria; a crossover of two parents (bitwise, exponent/mantissa, gene by gene) given another number of parents, or a mean given fewer than two. This holds in debug and in release builds alike. A refused call leaves the component - and the point it was to correct - as it was: later calls do what they would have done without it.",
 ["inputs", "configurations", "histories"], "all sizes of data against all configured sizes, all constants (also NaN, infinities and neighbours of the bounds) in both float types, all sequences of fitting and unfitting calls of one component",
 "The tests refuse one wrong vector for one limiter and some intervals; a check that is only made in debug builds, for the first element, or after an early exit passes them all.",
 [G+"selection/vec_float.rs", G+"pre_birth/vec_float.rs", G+"cross/mod.rs", P+"mod.rs", P+"postmove/mod.rs", P+"postvelocitycalc/mod.rs", P+"velocitycalc/mod.rs", "optlib/src/tools/statistics/mod.rs"],
 [("CheckChromoInterval::kill / check_chromo", G+"selection/vec_float.rs"), ("MoveToBoundary / RandomTeleport::post_move", P+"postmove/mod.rs"), ("MaxVelocityDimensions::correct_velocity", P+"postvelocitycalc/mod.rs"), ("renew_swarm", P+"mod.rs"), ("CanonicalVelocityCalculator::new", P+"velocitycalc/mod.rs"), ("get_average, get_standard_deviation, get_predicate_success_vec_solution", "optlib/src/tools/statistics/mod.rs"), ("CrossBitwise, FloatCrossExp, VecCrossAllGenes, CrossMean, FloatCrossGeometricMean", G+"cross/mod.rs")],
 [], ["panic or result of every call"])

for p in props:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
