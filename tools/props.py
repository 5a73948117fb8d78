"""The properties.  tools/gen.py writes properties.jsonl and MANIFEST.json from this table."""

P = []


def prop(id, title, statement, over, text, why, files, mech, hook=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if hook:
        d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)


RNG = "eoRng::rand() under PARADISEO_VERIF: the harness supplies every raw random word"

# ------------------------------------------------------------------ EO core
prop("E01", "A solution never carries a fitness that is not its own",
     """Whenever a solution is marked as evaluated, its fitness is the value the objective function gives
     for its current genotype. This holds for every solution in every population, at every moment when
     user code (evaluation, continuator, statistics, replacement) can look at it, through initialisation,
     operator dispatch, breeding, evaluation, merging, replacement, crossover/mutation chaining and
     copying, for every combination of operators and every random outcome.""",
     ["inputs", "histories", "configurations"],
     "all small start populations x all operator/breeder/replacement combinations x all random outcomes of one or more generations",
     "Tests run one seed with one operator set and never compare cached fitness with a fresh evaluation; a stale value only appears when an operator reports its effect wrongly for a particular draw.",
     ["eo/src/EO.h", "eo/src/eoOp.h", "eo/src/eoGenOp.h", "eo/src/eoOpContainer.h", "eo/src/eoSGATransform.h", "eo/src/eoInvalidateOps.h", "eo/src/eoPopulator.h", "eo/src/eoBreed.h", "eo/src/eoGeneralBreeder.h", "eo/src/eoInit.h"],
     [("changed flag of operators followed by invalidate()", "eo/src/eoGenOp.h, eo/src/eoInvalidateOps.h, eo/src/eoSGATransform.h"), ("evaluation skipped when already valid", "eo/src/eoEvalFunc*.h, eo/src/apply.h")],
     RNG, ["every call of the evaluation function", "population after each generation"])

prop("E02", "Variation operators yield valid genotypes and report every change",
     """Every mutation and crossover of the library, applied to well-formed parents, ends and returns
     well-formed offspring of the declared representation (bit strings keep their length, permutations stay
     permutations, bounded vectors stay inside their bounds, variable-length genotypes stay within their
     length limits), built only from material the operator is allowed to use. An operator with a discrete choice
     can produce exactly the outcomes of its definition, no fewer and no more. If an operator says nothing
     changed then nothing changed, and operands passed as read-only are left as they were.""",
     ["inputs"],
     "all genotypes up to the size bound x all parameter values of the menu x all sequences of random words of the menu",
     "Operator tests print or check one random outcome; boundary draws, sizes 1 and 2, and retry loops are never reached.",
     ["eo/src/ga/eoBitOp.h", "eo/src/ga/eoStandardBitMutation.h", "eo/src/eoSwapMutation.h", "eo/src/eoShiftMutation.h", "eo/src/eoTwoOptMutation.h", "eo/src/eoOrderXover.h", "eo/src/eoPartiallyMappedXover.h", "eo/src/eoVariableLengthCrossover.h", "eo/src/eoVariableLengthMutation.h", "eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/es/eoEsMutate.h", "eo/src/eoRealToIntMonOp.h"],
     [("operator bodies and their return values", "eo/src/ga, eo/src/es, eo/src/eo*Mutation.h, eo/src/eo*Xover.h")],
     RNG)

prop("E03", "Selectors draw only members, with the probabilities their scheme defines",
     """Every selector returns members of the population it was given and leaves that population unchanged;
     tournament, stochastic tournament, proportional, ranking, sequential, random, best and truncation
     selection pick each individual with exactly the frequency their definition implies, for maximisation and
     for minimisation. Selectors for many individuals return exactly the number requested by count or rate.""",
     ["inputs"],
     "all fitness vectors (with ties) over small populations x all selector parameters x all random outcomes, distribution computed exactly",
     "A test sees one sample of a distribution; a reversed comparison or an index that is off by one still returns a member of the population.",
     ["eo/src/eoDetTournamentSelect.h", "eo/src/eoStochTournamentSelect.h", "eo/src/eoProportionalSelect.h", "eo/src/eoFitnessScalingSelect.h", "eo/src/eoRankingSelect.h", "eo/src/eoSequentialSelect.h", "eo/src/eoRandomSelect.h", "eo/src/eoBestSelect.h", "eo/src/eoDetSelect.h", "eo/src/eoTruncSelect.h", "eo/src/eoSelectMany.h", "eo/src/eoSelectPerc.h", "eo/src/eoSelectNumber.h", "eo/src/eoStochasticUniversalSelect.h", "eo/src/eoSelectFromWorth.h", "eo/src/utils/selectors.h"],
     [("selection primitives", "eo/src/utils/selectors.h, eo/src/utils/eoRNG.h"), ("worth computation", "eo/src/eoPerf2Worth.h, eo/src/eoRanking.h, eo/src/eoLinearFitScaling.h")],
     RNG)

prop("E04", "Replacement keeps the population size and invents or loses nobody",
     """Every replacement, merge, reduce and split operation leaves the requested number of individuals,
     each of which was among the parents or offspring it was given, none used more often than it occurred.
     Elitist, plus, comma, steady-state and truncation schemes keep or discard the individuals that their
     definition names, for all fitness orders, ties, and population and offspring sizes.""",
     ["inputs"],
     "all parent and offspring fitness vectors with ties up to the size bound x all schemes and parameters x all random outcomes",
     "Tests check one size combination without ties and never track which individuals survive.",
     ["eo/src/eoReplacement.h", "eo/src/eoMerge.h", "eo/src/eoReduce.h", "eo/src/eoReduceMerge.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoMergeReduce.h", "eo/src/eoMGGReplacement.h", "eo/src/eoReduceSplit.h", "eo/src/eoSurviveAndDie.h", "eo/src/eoPop.h"],
     [("merge and reduce building blocks", "eo/src/eoMerge.h, eo/src/eoReduce.h"), ("partial sorting of populations", "eo/src/eoPop.h")],
     RNG)

prop("E05", "Evolutionary algorithms keep their generation invariants",
     """At the end of every generation of every evolutionary algorithm the population has its nominal size,
     all its members are evaluated, and the continuator has been consulted exactly once on that population.
     With an elitist or plus replacement the best fitness never worsens, for every seed, every start
     population and every number of generations.""",
     ["inputs", "histories", "configurations"],
     "all small start populations x algorithm assemblies x all random outcomes of each generation within the bound",
     "Tests run one seed to a fixed generation and look at the final population at most.",
     ["eo/src/eoEasyEA.h", "eo/src/eoSGA.h", "eo/src/eoCellularEasyEA.h", "eo/src/eoSimpleDEA.h", "eo/src/ga/eoFastGA.h", "eo/src/eoParallel*.h", "eo/src/eoEDA.h", "eo/src/eoSIGContinue.h"],
     [("main loop and size check", "eo/src/eoEasyEA.h, eo/src/eoSGA.h, eo/src/eoFastGA.h")],
     RNG)

prop("E06", "Stopping criteria stop exactly when their condition becomes true",
     """Each stopping criterion (generations, evaluations, fitness target, steady fitness, combined, inverted,
     time-free variants) lets a run continue exactly while its documented condition does not hold, for every
     sequence of populations and counters, and again after it has been reset. Evaluation budgets expressed
     by throwing evaluators never allow more than the stated number of evaluations.""",
     ["histories", "configurations"],
     "all sequences of best fitness values up to the length bound x all thresholds of the menu x all combinations of two criteria",
     "Tests exercise one growing sequence; plateaus, repeated use after stopping, and thresholds of zero are not reached.",
     ["eo/src/eoGenContinue.h", "eo/src/eoSteadyFitContinue.h", "eo/src/eoFitContinue.h", "eo/src/eoEvalContinue.h", "eo/src/eoSecondsElapsedContinue.h", "eo/src/eoCombinedContinue.h", "eo/src/eoInvertedContinue.h", "eo/src/eoEvalCounterThrowException.h", "eo/src/eoPeriodicContinue.h"],
     [("continuator operator()", "eo/src/eo*Continue.h")])

prop("E07", "A saved state loads back to the same state",
     """Writing a state (generator, parameters, population) and reading it back yields objects
     with the same observable content, and a run resumed from a saved state proceeds exactly like the run that
     was not interrupted. This holds for every representation, for evaluated and unevaluated individuals, and
     whatever the order of registered objects or surrounding text in the file.""",
     ["inputs", "histories", "crash_points"],
     "all small populations and parameter values x all generations at which the run is interrupted x all section orders",
     "The state test saves and loads once without comparing the loaded content with the saved content.",
     ["eo/src/utils/eoState.cpp", "eo/src/utils/eoState.h", "eo/src/EO.h", "eo/src/eoPop.h", "eo/src/eoVector.h", "eo/src/ga/eoBit.h", "eo/src/es/eoEsSimple.h", "eo/src/es/eoEsStdev.h", "eo/src/es/eoEsFull.h", "eo/src/utils/eoRNG.h", "eo/src/utils/eoParam.h"],
     [("section tags and object readers", "eo/src/utils/eoState.cpp"), ("printOn / readFrom pairs", "eo/src/EO.h, eo/src/eoVector.h, eo/src/eoPop.h")])

prop("E08", "The same seed gives the same run",
     """Seeding the library's generator and clearing its stored normal deviate fixes everything an algorithm
     does: two runs of freshly built components with the same seed, parameters and start produce the same
     sequence of populations. No component takes randomness from any other source, such as clocks, other
     generators or memory contents, and nothing that ran earlier in the process changes a later identical run.""",
     ["inputs", "configurations", "histories"],
     "all components that consume randomness x all seeds of the menu x outcomes of every other entropy source",
     "Tests never run the same configuration twice, and a second entropy source is invisible to a single run.",
     ["eo/src/utils/eoRNG.h", "eo/src/eoPop.h", "eo/src/eoInit.h", "eo/src/ga/eoStandardBitMutation.h", "mo/src/neighborhood", "moeo/src/selection"],
     [("single global generator", "eo/src/utils/eoRNG.h")],
     RNG)

prop("E09", "The random generator honours its ranges and can be saved and restored",
     """Every drawing function of the generator returns values inside its documented range for every possible
     underlying word, picks from weighted or sized collections only valid positions with the stated
     probabilities, and follows the reference Mersenne Twister sequence for its seed. Saving the generator at any point and
     restoring it reproduces the exact continuation of every kind of draw.""",
     ["inputs", "histories"],
     "all words of a grid with extremes x all small arguments; all interleavings of draw kinds up to the length bound x all save points",
     "Tests draw a few thousand numbers from one seed; extreme words occur with probability 2^-32 per draw.",
     ["eo/src/utils/eoRNG.h", "eo/src/utils/eoRNG.cpp"],
     [("word to value mappings", "eo/src/utils/eoRNG.h"), ("printOn/readFrom of the generator state", "eo/src/utils/eoRNG.h")],
     RNG)

prop("E10", "Command line and parameter file set exactly the named parameters",
     """The value a parameter ends up with is the last one given by the command line, else by the parameter
     file, else its default, whatever the order, the long or short form, and the surrounding options and
     comments. Unknown options and missing required parameters are reported, and a parameter
     file written by the library reads back to the same values.""",
     ["inputs"],
     "all argument lists up to the length bound over an alphabet of forms x files x registration orders",
     "The parser test reads one command line.",
     ["eo/src/utils/eoParser.cpp", "eo/src/utils/eoParser.h", "eo/src/utils/eoParam.h"],
     [("readFrom/getValue maps", "eo/src/utils/eoParser.cpp")])

prop("E11", "Checkpoints run every observer once per generation on the right data",
     """At each generation a checkpoint computes every statistic once from the current population, calls every
     updater and monitor once afterwards, and consults its continuators; at the end each
     receives exactly one last call. The statistics (best, worst, average, standard deviation, nth, distances, interquartile
     range and fitness-distance correlation) equal their mathematical definition for every population, and measured times
     add up to the time elapsed.""",
     ["inputs", "histories", "configurations"],
     "all small fitness vectors with ties for both directions x all statistics; all call sequences x all registrations",
     "Tests print statistics without comparing them to a reference.",
     ["eo/src/utils/eoCheckPoint.h", "eo/src/utils/eoStat.h", "eo/src/utils/eoPopStat.h", "eo/src/utils/eoScalarFitnessStat.h", "eo/src/utils/eoFDCStat.h", "eo/src/utils/eoMonitor.h", "eo/src/utils/eoUpdater.h", "eo/src/utils/eoFileMonitor.cpp", "eo/src/utils/eoOStreamMonitor.cpp", "eo/src/utils/eoGenCounter.h", "eo/src/utils/eoTimer.h"],
     [("call order in the checkpoint", "eo/src/utils/eoCheckPoint.h"), ("statistics", "eo/src/utils/eoStat.h")])

prop("E12", "Bounds objects accept, fold, truncate and sample consistently",
     """For every kind of bounds on reals and integers, folding and truncating return a value inside the
     bounds, leave values already inside unchanged, and truncation returns the nearest admissible value;
     uniform sampling and initialisation stay inside. Bounds read from text mean
     what the text says, in every documented form, and copies of bounds behave as the original.""",
     ["inputs"],
     "all bounds with ends in a small set x all probe values incl. far outside and on the ends x all textual forms x all random words of the menu",
     "Tests fold a handful of values in one interval.",
     ["eo/src/utils/eoRealBounds.h", "eo/src/utils/eoRealBounds.cpp", "eo/src/utils/eoIntBounds.h", "eo/src/utils/eoIntBounds.cpp", "eo/src/utils/eoRealVectorBounds.h"],
     [("foldsInBounds/truncate/isInBounds", "eo/src/utils/eoRealBounds.h, eo/src/utils/eoIntBounds.h"), ("text parsing", "eo/src/utils/eoRealBounds.cpp")],
     RNG)

prop("E13", "Program trees stay well formed and within their limits",
     """Initialisation, crossover and every mutation of program trees give trees in which every node has as
     many children as its arity and no tree exceeds the size or depth limit given to the operator.
     Size and depth bookkeeping equals a recount, evaluation equals direct evaluation of the printed expression, and
     writing and reading a tree gives the same tree.""",
     ["inputs"],
     "all trees up to the depth bound x all pairs x all random outcomes of each operator",
     "Tests evolve one symbolic regression from one seed.",
     ["eo/src/gp/node_pool.h", "eo/src/gp/parse_tree.h", "eo/src/gp/eoParseTree.h", "eo/src/gp/eoParseTreeOp.h", "eo/src/gp/eoParseTreeDepthInit.h"],
     [("subtree bookkeeping", "eo/src/gp/parse_tree.h"), ("operator size limits", "eo/src/gp/eoParseTreeOp.h")],
     RNG)

prop("E14", "Particle swarms keep true bests and follow their velocity rule",
     """In every particle swarm run each particle's recorded best is the best position it has evaluated, each
     neighbourhood or global best is the best of its members' bests, velocities stay inside their bounds and
     positions change by exactly the velocity. This holds for all topologies, velocity and inertia schemes,
     maximising and minimising fitness, and every random outcome.""",
     ["inputs", "histories"],
     "all small start swarms x all topologies and velocity schemes x all random outcomes for the bounded number of flights",
     "Tests run one swarm from one seed without recomputing bests.",
     ["eo/src/eoEasyPSO.h", "eo/src/eoSyncEasyPSO.h", "eo/src/eoStandardVelocity.h", "eo/src/eoStarTopology.h", "eo/src/eoLinearTopology.h", "eo/src/eoRingTopology.h", "eo/src/eoStandardFlight.h", "eo/src/eoVelocityInit.h", "eo/src/PO.h"],
     [("topology updateNeighborhood / updateGlobal", "eo/src/eo*Topology.h"), ("velocity formula", "eo/src/eo*Velocity.h")],
     RNG)

prop("E15", "Algorithm assembly by index instantiates exactly the selected operators",
     """An assembly that builds an algorithm from an encoded vector of choices instantiates, for every encoding, the operators
     and parameters that the encoding names, for any order of registration and repeated
     selection. Encodings outside the declared ranges are rejected, and registered operators can be
     re-used after any sequence of selections with the parameters they were declared with.""",
     ["inputs", "histories"],
     "all encodings of a small assembly x all sequences of selections up to the bound",
     "The foundry test selects a single encoding.",
     ["eo/src/eoForge.h", "eo/src/eoAlgoFoundry.h", "eo/src/eoAlgoFoundryFastGA.h", "eo/src/eoAlgoFoundryEA.h"],
     [("deferred construction with captured arguments", "eo/src/eoForge.h"), ("encoding to operator mapping", "eo/src/eoAlgoFoundry*.h")],
     RNG)

prop("E16", "Parallel population evaluation equals the sequential one",
     """Evaluating a population with several threads applies the function exactly once to every individual and
     leaves the same population as sequential evaluation, for every population size, thread count, loop
     schedule setting and interleaving of the threads, without data races in the library's own code.""",
     ["schedules", "configurations", "inputs"],
     "all schedules within the preemption bound x all loop distributions x population sizes x thread counts",
     "The parallel tests run on whatever schedule the machine produces and compare nothing.",
     ["eo/src/apply.h", "eo/src/utils/eoParallel.cpp", "eo/src/eoPopEvalFunc.h", "eo/src/eoParallelPopLoopEval.h"],
     [("OpenMP loop over the population", "eo/src/apply.h")])

prop("E19", "Populations and operator pipelines treat exactly the individuals they should",
     """The ordered, shuffled, best, worst and n-th views of a population name exactly its members in the right
     order and leave it alone, and growing it keeps those who were there. An offspring population built by
     reading, advancing, inserting and jumping holds exactly the selected and inserted individuals in their
     places. A sequence of operators applies each one with its rate to every individual from where the
     sequence started, a weighted choice applies exactly one with its share, and exactly the individuals an
     operator says it changed lose their evaluation.""",
     ["inputs", "histories", "configurations"],
     "all small populations x all short sequences of operations x all short lists of operators with rates and all random outcomes",
     "Tests sort one random population and run a breeder once; the exact individuals and probabilities are not looked at.",
     ["eo/src/eoPop.h", "eo/src/eoPopulator.h", "eo/src/eoOpContainer.h", "eo/src/eoGenOp.h"],
     [("iterator over the offspring", "eo/src/eoPopulator.h"), ("dispatch of operators", "eo/src/eoOpContainer.h, eo/src/eoGenOp.h")],
     RNG)

prop("E18", "Covariance matrix adaptation samples and adapts as published",
     """For every dimension, numbers of parents and offspring and weighting scheme, the strategy parameters are those of
     the published method. For every history of selected parents, the next samples come from the normal distribution
     whose mean, covariance and step size that method prescribes, with the stated safeguards against vanishing
     deviations, converged populations, lost precision and bad condition.""",
     ["inputs", "histories", "configurations"],
     "all histories of parents over a grid for a few generations, with the eigen system refreshed or not, x menus of strategy parameters",
     "A wrong factor in the adaptation still converges on the one function the test optimises.",
     ["eo/src/es/CMAState.cpp", "eo/src/es/CMAParams.cpp", "eo/src/es/eoCMABreed.h", "eo/src/es/eoCMAInit.h", "eo/src/es/eig.cpp"],
     [("adaptation of mean, paths, covariance and step size", "eo/src/es/CMAState.cpp"), ("strategy parameters", "eo/src/es/CMAParams.cpp"),
      ("eigen decomposition", "eo/src/es/eig.cpp"), ("breeding", "eo/src/es/eoCMABreed.h")],
     RNG)

# ------------------------------------------------------------------ MO
prop("E17", "Algorithms assembled from parameters do what the parameters say",
     """For every combination of documented parameter values, the selection, replacement, variation, initialisation,
     stopping, reporting and saving parts that the standard assembly functions build from the command line behave as
     the same parts built directly in code, with the documented default for every parameter left out. Rates, sizes and
     arguments given in the text reach the part they belong to, and invalid values are refused.""",
     ["inputs", "configurations"],
     "all combinations of the documented values of each group of parameters, including absent, default and invalid ones",
     "The assembly functions branch on dozens of textual parameters; tests and lessons run one or two command lines.",
     ["eo/src/do", "eo/src/ga/make_op.h", "eo/src/ga/make_genotype_ga.h", "eo/src/es/make_op_real.h", "eo/src/es/make_op_es.h",
      "eo/src/es/make_genotype_real.h", "moeo/src/do"],
     [("text to operator mapping", "eo/src/do/make_algo_scalar.h"), ("proportional combination of operators", "eo/src/ga/make_op.h"),
      ("population and restart", "eo/src/do/make_pop.h"), ("reduce-merge-reduce from text", "eo/src/do/make_general_replacement.h"),
      ("multi-objective engine", "moeo/src/do/make_ea_moeo.h")],
     RNG)

prop("M01", "A neighbourhood enumerates exactly its neighbours, each the stated times",
     """Walking a neighbourhood from start to end visits exactly the neighbours its definition
     gives for the solution: every one once for ordered and without-replacement walks, only legal ones for
     walks with replacement, and the walk ends. This holds for bit, multi-bit, exchange, reversal, insertion, numbered and
     partition neighbourhoods and for lists of neighbourhoods searched in turn, for every solution size and every random outcome.""",
     ["inputs", "histories"],
     "all solution sizes up to the bound x all neighbourhood kinds x all random outcomes, and a second walk after a finished or abandoned one",
     "Tests step through one walk of one size with one seed.",
     ["mo/src/neighborhood", "mo/src/problems/bitString", "mo/src/problems/permutation"],
     [("init/next/cont protocol", "mo/src/neighborhood/mo*Neighborhood.h"), ("index to neighbour decoding", "mo/src/problems/permutation/moShiftNeighbor.h, moSwapNeighborhood.h, moIndexedSwapNeighbor.h")],
     RNG)

prop("M02", "Incremental evaluation agrees with full evaluation, moves undo exactly",
     """For every solution and neighbour, the fitness predicted for the neighbour by any evaluator equals the fitness of the
     solution after really applying the move, evaluating does not alter the solution, and moving then moving back restores
     the genotype without keeping the fitness of another one. This holds along every sequence of moves, for evaluators that keep state between calls.""",
     ["inputs", "histories"],
     "all solutions up to the size bound x all neighbours x all instances of the menu; all move sequences up to the length bound for stateful evaluators",
     "Tests evaluate a few fixed neighbours of one solution.",
     ["mo/src/eval", "mo/src/problems", "problems/eval", "mo/src/neighborhood/moBackableNeighbor.h"],
     [("incremental formulas", "mo/src/problems/*/eval, mo/src/eval"), ("move / moveBack", "mo/src/problems/*/mo*Neighbor.h")],
     RNG)

prop("M03", "Local searches move only as their acceptance rule allows and end right",
     """Hill climbers move only to neighbours their rule permits (best, first, random among best, neutral), end in a local
     optimum when not stopped earlier, and never lose fitness where the rule forbids it. In every local search the fitness recorded
     for the current solution is its true fitness after every move; iterated and variable neighbourhood searches perturb, search
     and accept in the stated order and keep the best solution where they promise to.""",
     ["inputs", "histories", "configurations"],
     "all small landscapes of the menu x all start solutions x all random outcomes x all searches",
     "Tests run a search on one start solution and look at the end state.",
     ["mo/src/algo", "mo/src/explorer", "mo/src/perturb", "mo/src/acceptCrit", "mo/src/comparator"],
     [("explorer accept/move protocol", "mo/src/explorer"), ("main loop", "mo/src/algo/moLocalSearch.h")],
     RNG)

prop("M04", "Tabu search never takes a forbidden move unless aspiration allows it",
     """At every iteration tabu search moves to the best neighbour among those that are not tabu or satisfy the
     aspiration criterion, and tabu memories forbid exactly what was added within the last
     tenure iterations. The best solution reported is the best one visited, for all tabu lists, tenures, intensification and diversification settings.""",
     ["inputs", "histories", "configurations"],
     "all sequences of moves up to the bound x all memory kinds and tenures; all small landscapes and starts",
     "Tests check single add/check calls on the lists.",
     ["mo/src/memory", "mo/src/explorer/moTSexplorer.h", "mo/src/algo/moTS.h"],
     [("tabu lists", "mo/src/memory"), ("move choice", "mo/src/explorer/moTSexplorer.h")],
     RNG)

prop("M05", "Annealing accepts with the stated probability and cools as configured",
     """Simulated annealing and Metropolis-like searches accept an improving move always and a
     worsening one with exactly the probability their rule gives at the current temperature, for maximising and
     minimising problems. Temperatures follow the configured cooling law, and the search stops when the cooling
     schedule says so.""",
     ["inputs", "histories", "configurations"],
     "all pairs of fitness values and temperatures of the menu x all random words of the menu; all temperature sequences up to the bound",
     "Tests look at a single acceptance with one seed.",
     ["mo/src/explorer/moSAexplorer.h", "mo/src/explorer/moMetropolisHastingExplorer.h", "mo/src/coolingSchedule", "mo/src/algo/moSA.h", "mo/src/algo/moMetropolisHasting.h"],
     [("acceptance rule", "mo/src/explorer"), ("cooling schedules", "mo/src/coolingSchedule")],
     RNG)

prop("M06", "Local-search stopping rules, checkpoints and statistics are exact",
     """Local-search continuators stop exactly when their count, fitness, neighbour or evaluation
     condition is reached and start afresh for every run; checkpoints call each statistic and monitor at the stated
     frequency and once at the end. The statistics equal their definition on the solution, its
     neighbourhood, or the recorded trajectory.""",
     ["inputs", "histories"],
     "all call sequences up to the bound x all parameters of the menu; all small landscapes for neighbourhood statistics",
     "Tests call each object a few times from one state.",
     ["mo/src/continuator"],
     [("continuators and statistics", "mo/src/continuator")],
     RNG)

prop("M07", "Landscape sampling reports the true values of what it sampled",
     """Sampling a landscape performs exactly the requested number of steps or solutions, each sampled
     value belongs to the solution it is reported for, and the summary figures (autocorrelation, density of states,
     fitness-distance pairs, neutrality, walk lengths) equal their definition on the sampled data.""",
     ["inputs", "histories"],
     "all small landscapes of the menu x all random outcomes x sampling sizes",
     "Tests run one sampling from one seed and check lengths.",
     ["mo/src/sampling"],
     [("sampling drivers", "mo/src/sampling")],
     RNG)

# ------------------------------------------------------------------ MOEO
prop("P01", "Dominance and ordering comparators are proper orders",
     """Every multi-objective comparator is irreflexive, asymmetric and transitive, agrees with the mathematical definition of its relation,
     and treats minimised and maximised objectives by their declared direction. Comparators used for sorting are strict weak orders on
     all populations, including equal objective vectors, equal fitness and equal diversity.""",
     ["inputs"],
     "all pairs and triples of objective vectors over a small value set x all direction assignments x all comparators",
     "Tests compare a few fixed vectors for one direction.",
     ["moeo/src/comparator", "moeo/src/core/moeoVector.h", "moeo/src/core/moeoRealObjectiveVector.h", "moeo/src/core/moeoScalarObjectiveVector.h"],
     [("comparators", "moeo/src/comparator")])

prop("P02", "An archive is always the non-dominated set of what it was offered",
     """After any sequence of updates an unbounded archive, plain or indexed, contains exactly the non-dominated objective vectors
     among all solutions offered, each once, with the solution that produced it, and its answer says whether the newcomer entered.
     Bounded, box and hypervolume archives contain only offered and mutually non-dominated solutions, never exceed their capacity,
     and when full give up only a member their rule ranks lowest; the environmental archive keeps the front first and thins out the most crowded.""",
     ["inputs", "histories"],
     "all sequences of insertions up to the length bound over a small set of objective vectors, one by one and by population x all archive kinds and comparators",
     "Tests insert four fixed solutions.",
     ["moeo/src/archive"],
     [("update of the archive", "moeo/src/archive/moeoArchive.h, moeoFixedSizeArchive.h, moeoEpsilonBoxArchive.h, moeoBoundedArchive.h, moeoSPEA2Archive.h")],
     RNG)

prop("P03", "Fitness assignment equals its published definition",
     """Dominance depth, count, rank and count-ranking fitness, indicator-based fitness (also when updated after an
     individual leaves or joins), scalarised or constrained fitness and worths derived from fronts give every individual the value of their definition,
     whatever the order of the population, the directions of the objectives and earlier uses. Individuals with equal objective vectors share a
     front unless copies are to be dropped, and normalisation is applied as configured.""",
     ["inputs"],
     "all populations up to the size bound over a small set of objective vectors x all schemes x all permutations of the population",
     "Tests check one four-element population.",
     ["moeo/src/fitness", "moeo/src/scalarStuffs", "eo/src/eoNDSorting.h"],
     [("fast non-dominated sorting and other assignments", "moeo/src/fitness"), ("worths from fronts, with niches or crowding", "eo/src/eoNDSorting.h")],
     RNG)

prop("P04", "Diversity assignment equals its published definition",
     """Crowding distance (per front or over the population), sharing, nearest-neighbour and dummy diversity
     give every individual the value their definition prescribes for every population, including duplicated objective
     vectors, flat objectives and populations of one or two. The result does not depend on
     the order of the population except for how ties are ordered.""",
     ["inputs"],
     "all populations up to the size bound over a small grid of objective vectors x all schemes x all permutations",
     "Tests check one four-element population.",
     ["moeo/src/diversity", "moeo/src/distance"],
     [("diversity assignments", "moeo/src/diversity"), ("distances", "moeo/src/distance")])

prop("P05", "Quality indicators equal their mathematical definition",
     """Hypervolume and hypervolume difference, additive and multiplicative epsilon, contribution, entropy and the
     dominated-volume based binary indicators give, for every pair of sets and reference
     points, the value of their mathematical definition, with normalisation as configured. An objective that does not vary,
     points beyond the reference point and points common to both sets are handled, and the order of the points does not matter.""",
     ["inputs"],
     "all sets and pairs of sets of objective vectors up to the size bound over a small grid, two and three objectives x directions x normalisation settings",
     "Tests compute each indicator for one pair of sets.",
     ["moeo/src/metric", "moeo/src/utils/moeoObjectiveVectorNormalizer.h"],
     [("metrics", "moeo/src/metric")])

prop("P06", "Multi-objective replacement and algorithms keep the right individuals",
     """Multi-objective selection and replacement keep the requested number of individuals, drawn from parents and
     offspring without duplication of identities, preferring those their comparator ranks higher. Multi-objective
     algorithms keep population size and valid objective vectors in all generations, and no kept individual is strictly worse
     under the configured ranking than a discarded one.""",
     ["inputs", "histories", "configurations"],
     "all small parent/offspring populations x all replacement and selection schemes x all random outcomes; bounded runs of each algorithm",
     "Tests run algorithms once without examining who survived.",
     ["moeo/src/replacement", "moeo/src/selection", "moeo/src/algo"],
     [("elitist, environmental and generational replacement", "moeo/src/replacement"), ("NSGA, NSGA-II, IBEA, SPEA2 loops", "moeo/src/algo")],
     RNG)

prop("P07", "Multi-objective local search visits, marks and archives neighbours right",
     """In dominance-based and population local search every neighbour added to the archive has the true
     objective vector of its genotype, a solution is marked visited only when its neighbourhood was explored as
     the chosen strategy requires, and the archive remains non-dominated. The search ends when
     every archived solution is marked visited, and ends only then or when its stopping rule says so.""",
     ["inputs", "histories", "configurations"],
     "all small landscapes of the menu x all explorers and selectors x all random outcomes",
     "Tests call an explorer once on one solution.",
     ["moeo/src/explorer", "moeo/src/algo/moeoUnifiedDominanceBasedLS.h", "moeo/src/algo/moeoPLS1.h", "moeo/src/algo/moeoPLS2.h", "moeo/src/selection/moeoUnvisitedSelect.h"],
     [("explorers and visited flags", "moeo/src/explorer"), ("main loop", "moeo/src/algo/moeoUnifiedDominanceBasedLS.h")],
     RNG)

prop("P08", "Multi-objective statistics, saved fronts and stopping rule are right",
     """Statistics of a multi-objective population give the best and average value of every objective of the current
     population in its own direction, and the individual that reaches it. Saved fronts and progress
     files hold what the archive contains at that generation under the documented names, and a search
     told to stop on a known optimum stops exactly when the archive reaches all of it.""",
     ["inputs", "histories", "configurations"],
     "all small histories of populations and archives x all objective directions and file naming modes",
     "Tests look at one population, once.",
     ["moeo/src/utils", "moeo/src/continue"],
     [("best and average statistics", "moeo/src/utils/moeoBestObjVecStat.h"), ("archive savers", "moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h"), ("hypervolume stopping rule", "moeo/src/continue/moeoHypContinue.h")],
     RNG)

# ------------------------------------------------------------------ SMP
prop("S01", "The master/worker model does every job once and always finishes",
     """Running an algorithm in the shared-memory master/worker model applies the operation exactly
     once to every individual per round and gives the same population as the sequential algorithm, for every number of workers,
     scheduling policy and interleaving. It neither deadlocks nor races on library or individual data, and all
     worker threads are gone when it is destroyed.""",
     ["schedules", "configurations"],
     "all schedules within the preemption bound x number of workers x population sizes x policies",
     "Tests run on whatever interleaving the machine produces.",
     ["smp/src/MWModel.h", "smp/src/MWModel.cpp", "smp/src/scheduler.h", "smp/src/scheduler.cpp", "smp/src/MWAlgo/MWAlgo.h"],
     [("package hand-over between master and workers", "smp/src/scheduler.cpp")])

prop("S02", "Island migration neither loses nor duplicates migrants and always ends",
     """In the island model every emigrant group is delivered exactly once to each island that the topology in force then names as a
     neighbour of the sender, and to nobody else, as copies evaluated by the receiving island. Stopped islands are cut off from the topology
     only after they stopped, a shared stopping rule ends all islands once and only once the target is reached, and replacing the topology takes effect at once.
     The model ends after all islands stop, under all interleavings, topologies and policies, without deadlock, lost wake-up or data race.""",
     ["schedules", "configurations"],
     "all schedules within the preemption bound x topologies x policies x islands",
     "Tests run on whatever interleaving the machine produces and count nothing.",
     ["smp/src/islandModel.h", "smp/src/islandModel.cpp", "smp/src/island.h", "smp/src/island.cpp", "smp/src/migPolicy.h", "smp/src/policyElement.cpp", "smp/src/sharedFitContinue.cpp", "smp/src/islandModelWrapper.h", "smp/src/contWrapper.cpp"],
     [("send queue and message threads", "smp/src/islandModel.cpp, smp/src/island.cpp")])

prop("S03", "Topologies connect exactly the islands their definition says",
     """Complete, ring, star, mesh, random and file-defined topologies return for every node exactly the
     neighbours of their definition for every number of islands. Isolating a node removes it from all neighbourhoods and
     affects nothing else, in every order of isolation, and rebuilding restores the definition.""",
     ["inputs", "histories", "fault_sequences"],
     "all sizes up to the bound x all topologies x all isolation sequences x malformed and well-formed topology files",
     "Tests check one size per topology.",
     ["smp/src/topology"],
     [("neighbourhood construction and isolation", "smp/src/topology")])

# ------------------------------------------------------------------ EDO
prop("D01", "Estimated distributions, their samples and their algorithms match definitions",
     """Estimating a distribution from a population gives exactly the parameters of its definition
     (mean, covariance, bounds, bit frequencies), covariance factorisations reproduce the matrix, and sampling
     returns vectors of the right dimension that are inside the bounds and match the distribution for the drawn
     words. Repairers and bounders return solutions that satisfy the constraints, changing only what violates them.
     The estimation-of-distribution algorithms select, estimate, sample, evaluate and replace in that order until a
     stopping rule says so, and their adaptive and annealing variants update the distribution and the temperature
     by the published rules.""",
     ["inputs"],
     "all small populations over a value grid x all estimators; all matrices of the menu x all factorisations; all random words of the menu",
     "Tests run one convergence experiment from one seed.",
     ["edo/src"],
     [("estimators", "edo/src/edoEstimator*.h"), ("samplers and factorisation", "edo/src/edoSampler*.h, edo/src/utils/edoCholesky.h"), ("repairers and bounders", "edo/src/edoRepairer*.h, edo/src/edoBounder*.h")],
     RNG)

# ------------------------------------------------------------------ MPI / serial / problems
prop("C01", "Distributed jobs process every task once and end, for any message order",
     """A distributed job hands every task to exactly one worker, collects every result exactly once in the right place,
     and brings master and all workers to termination, for every number of workers, assignment policy, packet size and
     order of message arrival. Multi-start and parallel evaluation give the
     same solutions as the sequential computation, and a message sent from one process to another arrives unchanged.""",
     ["schedules", "configurations", "histories"],
     "all message delivery orders within the bound x worker counts x task counts x packet sizes x assignment algorithms",
     "Nothing in the test suite runs this code: it needs an MPI launcher.",
     ["eo/src/mpi/eoMpi.h", "eo/src/mpi/eoMpiAssignmentAlgorithm.h", "eo/src/mpi/eoParallelApply.h", "eo/src/mpi/eoMultiStart.h", "eo/src/mpi/eoMpi.cpp"],
     [("master/worker command protocol", "eo/src/mpi/eoMpi.h"), ("assignment bookkeeping", "eo/src/mpi/eoMpiAssignmentAlgorithm.h")])

prop("C02", "Serialised objects and their text form determine each other",
     """Writing any value, array or nested object in the library's text serialisation and parsing it
     back gives an equal value, including empty containers, quotes, escapes, separators inside strings and surrounding white space.
     Numbers keep their exact value.""",
     ["inputs"],
     "all strings up to the length bound over an alphabet with the special characters; all nested values up to the depth bound",
     "Nothing in the test suite runs this code.",
     ["eo/src/serial"],
     [("parser and printer", "eo/src/serial/Parser.cpp, eo/src/serial/SerialString.h, eo/src/serial/SerialObject.h, eo/src/serial/SerialArray.h, eo/src/serial/Utils.h")])

prop("B01", "Benchmark problems evaluate to their mathematical definition",
     """Every benchmark objective function returns the value of its mathematical definition for every
     solution, including instance files read from text, and constructed instances
     have the structure their parameters request.""",
     ["inputs"],
     "all solutions up to the size bound x all instances of the menu",
     "Tests evaluate one or two fixed solutions.",
     ["problems/eval", "problems/DTLZ/src"],
     [("evaluators", "problems/eval")],
     RNG)
