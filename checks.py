"""What each check builds and runs."""
import os

CXXFLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-DPARADISEO_VERIF", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-pthread"]

LIBS = {
    "eo": ["{R}/eo/src/eoFunctorStore.cpp", "{R}/eo/src/eoPersistent.cpp", "{R}/eo/src/eoPrintable.cpp",
           "{R}/eo/src/eoScalarFitnessAssembled.cpp", "{R}/eo/src/utils/*.cpp"],
    "cma": ["{R}/eo/src/es/CMA*.cpp", "{R}/eo/src/es/eig.cpp"],
    "moeo": ["{R}/moeo/src/core/*.cpp"],
    "smp": [],
    "edo": ["{R}/edo/src/utils/*.cpp"],
}
INC = ["{R}/eo/src", "{R}/mo/src", "{R}/moeo/src", "{R}/edo/src", "{R}/smp/src", "{R}/problems", "{R}"]


def resolve(b, repo, here):
    def r(x):
        return x.replace("{R}", repo).replace("{H}", here)
    out = dict(name=b["name"], cxx=b.get("cxx", "g++"))
    # harnesses that switch stacks themselves, and the four most expensive ones, run without the address sanitizer
    asan = ["-fsanitize=address", "--param", "asan-stack=0", "-D_GLIBCXX_SANITIZE_VECTOR"] if not {"simthread.cpp", "simmpi.cpp", "p06_moea.cpp", "p07_dmls.cpp", "m05_annealing.cpp", "m07_sampling.cpp"} & set(b["src"]) else []
    out["flags"] = CXXFLAGS + asan + [r(x) for x in b.get("flags", [])]
    out["inc"] = [here + "/lib"] + [r(x) for x in b.get("inc", [])] + [r(x) for x in INC]
    src = [os.path.join(here, "harness", s) for s in b["src"]]
    if b.get("main", True):
        src.append(os.path.join(here, "lib", "mc_main.cpp"))
    for l in b.get("libs", ["eo"]):
        src += [r(x) for x in LIBS[l]]
    src += [r(x) for x in b.get("extra", [])]
    out["src"] = src
    out["srcflags"] = b.get("srcflags", {})
    out["ldpre"] = [r(x) for x in b.get("ldpre", [])]
    out["ld"] = ["-pthread"] + asan[:1] + [r(x) for x in b.get("ld", [])]
    return out


def one(name, *src, **kw):
    return dict(name=name, src=list(src), **kw)


CHECKS = {
}

CHECKS["E02"] = dict(
    bins=[one("e02_bits", "e02_bits.cpp", inc=["{R}/eo"]), one("e02_perm", "e02_perm.cpp"), one("e02_real", "e02_real.cpp")],
    bounds="bit strings up to 5 bits (pairs up to 4), permutations up to 5, variable-length genotypes up to 3+3 genes, real vectors of 1-2 coordinates over 4 values, bit strings with marked positions up to 3 (4) bits; all random words of a grid per draw, retries up to the word limit",
    note="Every operator is run on the real code for every genotype, parameter and random word of the stated menus; outcomes are compared with the set its definition allows. Larger sizes and words between the grid points are not run.")

CHECKS["E03"] = dict(
    bins=[one("e03_select", "e03_select.cpp")],
    bounds="populations of 1-4 individuals with every fitness vector over 3-5 values including ties, maximising and minimising, fresh selectors and selectors already used on another population; all random words of a grid that makes the selection probabilities exact or exact to 2/k with k cells",
    note="Selection probabilities are computed exactly by enumerating every random outcome of the real selector on every small fitness vector and compared with those of its definition. Larger populations are not run.")

CHECKS["E04"] = dict(
    bins=[one("e04_replace", "e04_replace.cpp")],
    bounds="up to 4 parents and 4 offspring with every fitness vector over 3 values including ties, maximising and minimising, every count parameter; all random outcomes of tournaments and shuffles",
    note="Each replacement, merge, reduction and split is run on the real code for every small pair of populations and its survivors are compared with those its definition prescribes, or with the exact distribution when it is random. Larger populations are not run.")

CHECKS["E01"] = dict(
    bins=[one("e01_stale", "e01_stale.cpp")],
    bounds="bit strings of 2 bits, populations of 1-3 individuals in every mix of evaluated and unevaluated, 1-3 generations, operators and selectors that may by choice do anything an honest one may, every coin and roulette outcome, an evaluation that throws at any point; real components with up to 2 deviations from a base random stream",
    note="The real algorithms, breeders, operator containers and replacements run with nondeterministic operators, selectors and evaluators; every solution visible to any of them is compared with the objective of its genotype in every execution within the bounds. Larger populations and longer runs are not run.")

CHECKS["E05"] = dict(
    bins=[one("e05_invariants", "e05_invariants.cpp")],
    bounds="bit strings of 2 bits, populations of 1-3 individuals with every genotype, any offspring whatever (every genotype, new or copied), 1-3 generations, ten replacements, every constructor of the standard algorithm, simple, fast, cellular, restarted and distribution-based algorithms; real components with up to 2 deviations from a base random stream over 2-6 generations",
    note="One and two generations of the real algorithms are run from every small population with a breeder that may produce any offspring, so the invariants are shown inductive within the size bound; larger populations are not run.")

CHECKS["E06"] = dict(
    bins=[one("e06_stop", "e06_stop.cpp", extra=["{R}/eo/src/eoCtrlCContinue.cpp", "{R}/eo/src/eoSIGContinue.cpp"])],
    bounds="every sequence of up to 7 generations over 2-3 best-fitness values, limits 0-5, resets and new limits between runs, criteria built in memory with three fill patterns, clock and CPU time supplied by the explorer, signals raised at any generation",
    note="Each criterion of the real code is driven through every short history and compared with a direct reading of its condition; longer histories are not run.")

CHECKS["E09"] = dict(
    bins=[one("e09_rng", "e09_rng.cpp")],
    bounds="raw words: 9 seeds, 2000 words each, reseeded at 6 points; saving at 11 points of the word sequence x 4 states of the normal cache, 1300 further draws of 11 kinds; drawing functions: grids of up to 160000 word combinations plus the extreme words",
    note="The generator itself runs unhooked against an independent Mersenne Twister; the drawing functions run on every word of a grid plus the extreme words, which makes the probabilities of discrete draws exact. The 2^32 words are not all run, continuous laws are compared by moments and quantiles.")

CHECKS["E12"] = dict(
    bins=[one("e12_bounds", "e12_bounds.cpp")],
    bounds="ends from a set of 8-9 values incl. large and non-representable ones, every kind of bounds, up to 200 probe values per bounds incl. neighbours of the ends and multiples of the range, every separator and bracket of the written forms, vectors of 1-6 bounds, grids of random words incl. the extreme ones",
    note="Every bounds object of the real code is compared with interval arithmetic on every probe of the menu; other real values are not run.")

CHECKS["E10"] = dict(
    bins=[one("e10_parser", "e10_parser.cpp")],
    bounds="every list of up to 3 words in all (thorough: 2 in the file and 3 arguments) over 15 forms of long, short, joined, unknown and comment words, file named at any place, both registration orders, two ways to register; every parameter type over small value sets",
    note="The real parser reads every short command line and parameter file and is compared with a word-by-word reading of the documented rules; longer lines are not run. Values with blanks and empty values are outside the documented syntax.")

CHECKS["E07"] = dict(
    bins=[one("e07_state", "e07_state.cpp", libs=("eo", "moeo"), inc=["{R}/eo"])],
    bounds="populations of 0-4 individuals of eleven representations over small gene and fitness sets incl. numbers that need 17 digits, evaluated or not; every order of 1-4 sections with unknown sections, comments and text around; runs of 6 generations interrupted at every generation, 3 seeds, 2 algorithms, with and without a pending normal deviate",
    note="Every small state is saved and loaded by the real code and compared field by field; resumed runs are compared with the uninterrupted run generation by generation. Infinite fitness values and empty bit strings are outside the bounds.")

CHECKS["E11"] = dict(
    bins=[one("e11_checkpoint", "e11_checkpoint.cpp", extra=["{R}/eo/src/serial/*.cpp"])],
    bounds="every registration of 0-2 observers of each kind and 1-2 continuators, 1-2 generations of 1-3 individuals, every answer; every fitness vector of 1-4 (thorough 1-5) over 5 values for both directions; bit populations of 1-3 by 1-3 bits; monitors called up to 5 times with every option",
    note="The real checkpoint, statistics, monitors and counters are compared with direct computations on every small population; larger populations are not run. Quantities that are undefined (deviation of one value, correlation without variation) are not judged.")

CHECKS["E13"] = dict(
    bins=[one("e13_trees", "e13_trees.cpp")],
    bounds="every tree of up to 5-6 nodes over functions of 0-4 arguments for building, copying and text; every history of 2 (thorough 3) edits of trees of up to 4 nodes; every operator on all trees of up to 4 nodes with size limits 1-50 on a grid of 12 random words per draw",
    note="The real trees and operators are compared with a plain recursive structure changed in the same way; larger trees are not run. Strongly typed operators are documented not to prune, so only types and shape are judged for them.")

CHECKS["E14"] = dict(
    bins=[one("e14_swarm", "e14_swarm.cpp")],
    bounds="swarms of up to 4 (thorough 5) particles of 1-2 dimensions, every history of moves up to length 3 under any landscape, every topology and size, 7 velocity rules x bounds x 4 random words per draw, whole runs of 2 generations of 2 particles (thorough: 3 particles)",
    note="The most general landscape (any fitness at any move) stands for every problem. A topology is set up once per run by design.")
CHECKS["E15"] = dict(
    bins=[one("e15_assembly", "e15_assembly.cpp")],
    bounds="every history of 4 (thorough 5) uses and redeclarations of a forge of 2 operators, cached or not; every encoding of two assembled runs in a row over 2-3 operators per slot, any registration order, budgets of 1, 2, 3 and 1000 evaluations; every encoded vector over 8 values per slot with at most one slot out of range",
    note="Operators that record their use stand for all operators. The evaluator of fast genetic algorithm encodings does not compile in the repository and is not covered.")
CHECKS["M01"] = dict(
    bins=[one("m01_neighbourhoods", "m01_neighbourhoods.cpp")],
    bounds="bit strings of up to 6 (thorough 7) bits, permutations of up to 5 (6), partitions of up to 5 (7), numbered exchanges up to size 70 (200), lists of up to 5 neighbourhoods; every abandoned walk first; every order of random walks on grids that reach every index",
    note="Every walk is run with the real neighbourhoods the way explorers use them and compared with the set of results of the moves by definition.")
CHECKS["M02"] = dict(
    bins=[one("m02_incremental", "m02_incremental.cpp")],
    bounds="every bit string of up to 4-6 (thorough 5-8) bits x every flip of one or several bits in either order; every formula of 1-2 clauses of 1-2 literals over 2-3 variables; permutations of 2-4 (5) x every exchange, reversal, insertion; 4 matrices; every history of 3 (4) moves or refused moves over two runs for the stateful evaluator",
    note="Each prediction is compared with the full evaluation of the solution really moved to. Instances of numeric problems come from a menu of matrices whose entries tell apart.")
CHECKS["M03"] = dict(
    bins=[one("m03_climb", "m03_climb.cpp")],
    bounds="every landscape of 2 bits over 3 values and of 3 bits over 2 (thorough 3) values, both directions, every start, every random outcome, one and two runs of each climber and walk; iterated and variable neighbourhood search of up to 2-4 iterations over inner searches that may end anywhere",
    note="A watching continuator sees the solution at every iteration and compares it with the landscape. Inner searches and perturbations that may lead anywhere stand for all of them.")
CHECKS["M04"] = dict(
    bins=[one("m04_tabu", "m04_tabu.cpp")],
    bounds="every history of 3-4 (thorough 4-5) additions, updates and restarts of each memory over 2-3 moves, sizes 1-3, tenures 0-3; every single choice among up to 3 neighbours with any of them forbidden or aspired; whole searches of 4 (5) iterations on every landscape of 2 bits over 3 values, run twice; any jump before each of 2 iterations",
    note="A memory that may forbid anything and an aspiration that may allow anything stand for all of them; the real memories are compared with a plain list of what was added and when. A move counts as added in the iteration that makes it, so a tenure includes that iteration.")
CHECKS["M05"] = dict(
    bins=[one("m05_annealing", "m05_annealing.cpp")],
    bounds="acceptance measured over every word of a grid of 128 for 36 pairs of fitness values, 4 starting temperatures and 6 cooling steps; every sequence of 7 moved/not moved answers for the span law; whole runs of 3 iterations on every landscape of 2 bits over 2 values with any schedule",
    note="The frequency over the grid must lie within one grid cell of the rule. A schedule that may return any temperature and stop at any time stands for all schedules in whole runs.")
CHECKS["M06"] = dict(
    bins=[one("m06_watch", "m06_watch.cpp")],
    bounds="every history of 2 runs of 3-4 calls for each stopping rule with limits 0-4; checkpoints with 0-3 statistics, 1-2 continuators and intervals 1-3 over runs of 4 and 3 calls; walks of 1-3 steps run twice on every landscape of 2 bits over 2 values; neighbourhood statistics on every neighbourhood of 1-4 (5) values",
    note="Time is an interposed clock. Quartiles accept any usual convention. Statistics of an empty neighbourhood are undefined and not judged.")
CHECKS["M07"] = dict(
    bins=[one("m07_sampling", "m07_sampling.cpp")],
    bounds="every landscape of 2 bits (over 2 values, or 4 distinct values) with every sequence of initial solutions and random outcomes for 2-3 samples or 1-3 steps, samplings run twice; summary figures on every series of 0-6 (7) values out of 3 with up to 3 lags",
    note="Correlations with zero variance and lags beyond the data are undefined and not judged. Partial autocorrelation is compared with the solution of the Yule-Walker equations.")
CHECKS["P01"] = dict(
    bins=[one("p01_orders", "p01_orders.cpp", libs=("eo", "moeo"))],
    bounds="every pair and triple of objective vectors of 1-3 objectives over 3 values in every combination of directions, reference points over 3 values, feasible and infeasible vectors, fitness and diversity over 3 values, values within the tolerance, every history of 4 changes of a solution",
    note="The relations are compared with their definitions on every pair and their order axioms on every triple. Fuzzy dominance is not judged.")
CHECKS["P02"] = dict(
    bins=[one("p02_archives", "p02_archives.cpp", libs=("eo", "moeo"))],
    bounds="every history of 4 (5) insertions of objective vectors of 1-3 objectives over 2-4 values in every combination of directions, one by one and as a population, replacing equals or not, capacities 1-4; fitness and diversity by choice for archives that use them",
    note="The reference is a list from which a newcomer drives out what it dominates.")
CHECKS["P03"] = dict(bins=[one("p03_fitness", "p03_fitness.cpp", libs=("eo", "moeo"))],
    bounds="all populations of up to 3-5 individuals over 2-3 values per objective, 1-3 objectives in every direction, with archives of up to 2 members; each assignment used twice on different populations; worths of up to 4 (5) individuals from fronts, niches and crowding; all reference points, weights and normalisations of a small grid",
    note="Executions of the real assignments; oracles recompute fronts, counts, indicators and scalarisations from their definitions.")
CHECKS["P04"] = dict(bins=[one("p04_diversity", "p04_diversity.cpp", libs=("eo", "moeo"))],
    bounds="all populations of up to 3-5 individuals over 2-4 values per objective, 1-3 objectives, all assignments to two fronts, niche sizes, exponents, neighbour indices and archives of up to 2 members",
    note="Executions of the real assignments; crowding is accepted if it belongs to some order of the ties.")
CHECKS["P05"] = dict(bins=[one("p05_metrics", "p05_metrics.cpp", libs=("eo", "moeo"))],
    bounds="all sets of up to 3-5 objective vectors and pairs of sets of up to 2-3, over 2-3 values per objective, two and three objectives in every direction (1-3 for the indicators of two points), normalised or not, two rho values, three reference points",
    note="Executions of the real indicators; the hypervolume oracle sums grid cells, independent of the recursive algorithm.")

CHECKS["P06"] = dict(
    bins=[one("p06_moea", "p06_moea.cpp", libs=("eo", "moeo"))],
    bounds="replacement: up to 3 parents and 4 offspring with every fitness and diversity of 2-3 levels; selection: populations and archives of up to 4, all random words of a 12 cell grid (128 for the wheel); algorithms: populations of 2-3 genotypes out of 4, 1-3 generations, every mutation outcome and tournament draw",
    note="Operators, fitness and diversity assignments are stand-ins that may do, by choice, whatever an honest one may do. Survivors are compared with fronts, ranks and indicator values computed from the definitions.")
CHECKS["P07"] = dict(
    bins=[one("p07_dmls", "p07_dmls.cpp", libs=("eo", "moeo"))],
    bounds="every landscape of 2 bits over 3-4 objective vectors and three landscapes of 3 bits, in two direction settings; every start of 1-2 solutions, every selection subset, the four exploration strategies in fixed and every shuffled order, both selectors, PLS-1, PLS-2 and the general search with limits of 1, 2 and 50 rounds; hybrids over 2-4 calls",
    note="Neighbours are observed through the incremental evaluation. A visited solution must have had every neighbour evaluated; a finished complete search must be a Pareto local optimum set.")
CHECKS["P08"] = dict(
    bins=[one("p08_reports", "p08_reports.cpp", libs=("eo", "moeo"))],
    bounds="statistics over every two successive populations of 1-3 vectors over 2-3 values, 1-3 objectives in every direction; savers over every history of 3 generations; the stopping rule for every optimum of 1-2 vectors and archive of 1-2 vectors over 2-3 values",
    note="Files are written in the scratch directory of the run.")
CHECKS["B01"] = dict(
    bins=[one("b01_problems", "b01_problems.cpp", libs=("eo", "moeo"), flags=["-I{R}/problems/DTLZ/src"], extra=["{R}/problems/DTLZ/src/*.cpp"])],
    bounds="bit strings up to 7 bits (long paths up to 13), permutations up to 6, NK landscapes up to 4 bits with every link set of 3 bits, formulas of up to 2 clauses, quadratic instances up to 4 variables in both file formats, DTLZ1-7 with 2-3 objectives and up to 4 variables over 5 values; generators with up to 1-2 deviations from a base random stream",
    note="Every evaluator runs on every solution of the bound and is compared with a definition written independently; long paths with the path built recursively. Instance files are written and read back.")
CHECKS["D01"] = dict(
    bins=[one("d01_distrib", "d01_distrib.cpp", libs=("eo", "edo"), flags=["-DWITH_EIGEN", "-I/usr/include/eigen3"]),
          one("d01_cholesky", "d01_cholesky.cpp", libs=("eo",))],
    bounds="populations of up to 3-4 points of 1-3 coordinates over 3-4 values (every population), bit populations of up to 4 x 3 bits, 20 covariance matrices incl. singular ones, all random words of symmetric grids (sample moments are compared with mean and covariance), 1-2 successive covariance matrix adaptations, every vote of the stopping rules, 1-3 generations of the algorithms with arbitrary selection and samples",
    note="Moments of the samples are exact over the word grid, so the factorisation is judged by the covariance it produces. Only the Eigen3 implementation is built in this project; the uBLAS variant does not compile and is judged for its factorisations only.")
CHECKS["C02"] = dict(
    bins=[one("c02_serial", "c02_serial.cpp", libs=("eo",), extra=["{R}/eo/src/serial/*.cpp"])],
    bounds="all strings of up to 4 (thorough 6) characters over quote, backslash, separators, brackets and blanks as value, key and element; all nested values of depth 2-3 with up to 2 children; every choice of blanks in up to 2 (3) gaps between tokens; menus of extreme numbers in scalars, vectors, lists, maps and nested containers",
    note="Characters that are themselves blanks, infinities and NaN cannot be read back by the stream operators the format is defined with and are outside the bounds.")
CHECKS["C01"] = dict(
    bins=[one("c01_mpi", "c01_mpi.cpp", "simmpi.cpp", libs=("eo",), extra=["{R}/eo/src/serial/*.cpp", "{R}/eo/src/mpi/*.cpp"], flags=["-DOMPI_SKIP_MPICXX", "-I/usr/lib/x86_64-linux-gnu/openmpi/include"])],
    bounds="1-3 workers (7 ranks with masters of masters), 0-4 (6) tasks, packets of 1-3, seven ways to name the workers, master first or last rank, 1-3 successive jobs; every order of arrival at wildcard receives, with buffered and with synchronous sends; all interleavings of operations with at most 1 (2) preemptions for 2 workers",
    note="The real job, assignment, serialisation and communicator code runs on an in-process message layer; ranks are coroutines. Point-to-point operations with a named source commute, so branching only at wildcard receives once nobody else can move covers every arrival order.")
CHECKS["S03"] = dict(
    bins=[one("s03_topology", "s03_topology.cpp", libs=("eo",), extra=["{R}/smp/src/notifier.cpp", "{R}/smp/src/topology/complete.cpp", "{R}/smp/src/topology/ring.cpp", "{R}/smp/src/topology/star.cpp", "{R}/smp/src/topology/mesh.cpp", "{R}/smp/src/topology/hypercubic.cpp", "{R}/smp/src/topology/custom*.cpp"])],
    bounds="complete, ring and star graphs up to 4 (5) nodes with every sequence of up to 3 (4) isolations, rebuilt with every other size; up to 40 (70) nodes without isolation; hypercubes up to 8 (64); meshes up to 40 (100) nodes for 8 ratios; every topology file of up to 3 nodes with every choice of blanks and empty lines; stochastic files of 1-2 nodes over 5 probabilities with 600 seeds",
    note="Neighbourhoods are compared with the graph of the definition. A ring of one node is not judged. The mesh is any grid whose height is a divisor not above the square root with the ratio closest to the one asked for.")
THREADS = dict(flags=["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"], srcflags={"harness/simthread.cpp": ["-fno-sanitize=thread", "-O2"], "lib/mc_main.cpp": ["-fno-sanitize=thread", "-O2"]}, ld=["-rdynamic", "-ldl"])
CHECKS["S01"] = dict(
    bins=[one("s01_mw", "s01_mw.cpp", "simthread.cpp", libs=("eo",), extra=["{R}/smp/src/notifier.cpp"], **THREADS)],
    bounds="1-3 workers, 0-5 (7) individuals, 1-2 rounds, linear and progressive policies, with at most 2 (3) preemptions and 3 detours for the scheduler alone and 1 (2) preemptions for complete evolutionary and particle swarm algorithms and plain evaluation",
    note="The real scheduler and model run in coroutine threads. Every synchronising operation is a scheduling point; a switch away from a thread that can go on is a preemption, a choice other than the next thread in turn when one blocks or sleeps is a detour. Data races are found with vector clocks whatever the schedule, so switching elsewhere changes nothing. Schedules that order all operations on each object alike are run once. Exceptions thrown by the operation inside a worker end the program and are not claimed. The asynchronous swarm is compared for moves that depend on the particle alone.")
CHECKS["S02"] = dict(
    bins=[one("s02_islands", "s02_islands.cpp", "simthread.cpp", libs=("eo",), extra=["{R}/smp/src/notifier.cpp", "{R}/smp/src/topology/complete.cpp", "{R}/smp/src/topology/ring.cpp", "{R}/smp/src/topology/star.cpp", "{R}/smp/src/topology/mesh.cpp", "{R}/smp/src/topology/hypercubic.cpp", "{R}/smp/src/topology/custom*.cpp"], **THREADS)],
    bounds="1-3 islands on complete, ring and star graphs, 1-2 generations, migrations in every generation, groups of 1-2, up to two successive runs, the topology replaced before or during the run, islands of two kinds, the one-call wrapper, complete evolutionary islands, the shared stopping rule; at most 1-2 (3) preemptions and 1-2 detours",
    note="As for S01. A group taken after its island was found stopped has no destination: stopped islands are cut off from the topology, and the oracle takes the neighbours the topology returns for the sender when the group is passed on. The generator and the log that all islands share are known findings.")
CHECKS["E16"] = dict(
    bins=[one("e16_omp", "e16_omp.cpp", "simthread.cpp", libs=("eo",), flags=THREADS["flags"] + ["-fopenmp"], srcflags={k: v + ["-fno-openmp"] for k, v in THREADS["srcflags"].items()}, ld=THREADS["ld"])],
    bounds="0-5 (7) individuals, 0-2 parents, teams of 1-4 threads or the default, static and dynamic hand-out, parallel loops on and off, measures on and off; all schedules with at most 2 (3) preemptions and 3 detours",
    note="The loops are compiled with OpenMP and linked with a runtime of our own whose threads are coroutines: every hand-out of iterations and every evaluation is a scheduling point. Evaluation functions with state of their own are the user's business; the library's evaluation counter is a known finding. Exceptions leaving a parallel loop end the program and are not claimed.")
CHECKS["E17"] = dict(
    bins=[one("e17_" + n, "e17_" + n + ".cpp", libs=l, extra=["{R}/eo/src/eoCtrlCContinue.cpp"])
          for n, l in (("scalar", ("eo",)), ("real", ("eo",)), ("es", ("eo",)), ("easea", ("eo",)), ("moeo", ("eo", "moeo")))],
    bounds="all combinations of 23 selection x 13 replacement x 7 offspring x 3 elitism texts, of stopping parameters, of population and restart parameters, of rates (multiples of 1/2 or 1/3) of crossovers and mutations with exact outcome distributions over a grid of random words, of recombination types and step sizes, of the reduce-merge-reduce parameters, of 5 fitness x 8 diversity x 5 comparator x 8 selection x 5 replacement texts of multi-objective engines, and of report and save parameters; short runs on populations of at most 6",
    note="each assembled algorithm is run next to one built directly in code on the same random words; the shell commands of the library are replaced by stand-ins confined to the scratch directory")
CHECKS["E18"] = dict(
    bins=[one("e18_cma", "e18_cma.cpp", libs=("eo", "cma"), inc=["{R}/eo/src/es"])],
    bounds="strategy parameters for 1-12 (40) variables over menus of offspring, parent, weighting and generation numbers; all lists of up to 4 smallest or initial deviations; every choice of 1-3 parents from grids of 2-4 values per coordinate in 1-3 dimensions over 1-3 (4) generations, with the eigen system refreshed or not in each; histories of 5 (6) generations of near and far parents getting better or worse; 1-30 generations with one coordinate out of scale",
    note="Mean and covariance are recovered exactly from n+1 samples and the normal deviates they were made of, and compared with an independent implementation of the published update.")
CHECKS["E19"] = dict(
    bins=[one("e19_pipeline", "e19_pipeline.cpp")],
    bounds="all populations of 1-5 (6) individuals with 3 fitness values; all shuffles of up to 4 (5); all sequences of 5 (6) reads, advances, insertions, reservations, selections and jumps on populators over 0-2 (3) individuals; all containers of 1-2 (3) unary, binary, quadratic and general operators with rates 0, 1/2 and 1 and of 1-3 (4) operators with weights 1 and 2, over 0-4 parents; the standard crossover-then-mutation transforms and operators over 0-4 parents with rates 0, 1/2 and 1",
    note="The outcome of every operation is compared with a plain list, and the probability of every outcome of a container with the one its rates imply.")
CHECKS["E08"] = dict(
    bins=[one("e08_eo", "e08_eo.cpp", libs=("eo", "cma"), inc=["{R}/eo/src/es"]),
          one("e08_search", "e08_search.cpp", libs=("eo", "moeo")),
          one("e08_edo", "e08_edo.cpp", libs=("eo", "edo"), flags=["-DWITH_EIGEN", "-I/usr/include/eigen3"])],
    bounds="119 runs of generators, operators, selections, replacements, whole algorithms, local searches, landscape samplings, multi-objective algorithms and distributions; each repeated over 3 seeds (thorough 10) in two worlds that differ in every other source of values (clocks, C and system generators, process number, contents and order of memory blocks, dirty stack), and after every other run (all ordered pairs)",
    note="Inputs are fixed small menus; what is enumerated is everything around the run: the seed, the environment and the history of the process. A run that looks at no random number at all would be reported as vacuous by comparing 40 seeds.")
