"""What each check leaves out and why; goes into DESIGN.md."""
D = {}
D["E01"] = ["The cellular algorithm hands a changed, not yet invalidated solution to the mutation: operators are not observers of the claim, only what ends up in populations, archives and results is."]
D["E02"] = ["A greedy crossover whose gene is larger than the chromosome is outside the domain.", "Variable-length initialisation treats its maximum as exclusive; the claim follows that."]
D["E03"] = ["Linear ranking worths follow the formula in the code.", "Proportional selection with all worths zero, and draws that hit a boundary exactly, are outside the domain."]
D["E04"] = ["The documentation of the G3 and MGG replacements says that parents leave at random while the code removes the worst; either is accepted."]
D["E05"] = ["The one-to-one breeder takes parents in random order; only its pairing is claimed.", "A sequential combination whose rates are all zero makes breeders wait for ever: degenerate configuration, not run."]
D["E06"] = ["The steady-fitness rule stops when generation minus last improvement exceeds the steady number, as its test pins."]
D["E07"] = ["Infinite fitness values, empty bit strings, files without final newline and JSON output are outside the bounds.", "Counters saved by an updater are one generation behind, so only populations are compared on resume."]
D["E08"] = ["Re-use of the same component objects in two runs is outside the claim: the random-order neighbourhood keeps its permutation, by design.", "Reseeding keeps a pending normal deviate by documented design, so the runs also clear it.", "Clocks of time-based stopping rules and one random topology built on the system's random device are legitimate sources of difference."]
D["E09"] = ["Ranges so large that the product overflows, and the exponential of word 0 (infinite), are outside the domain."]
D["E10"] = ["Values with blanks and empty values are outside the documented syntax.", "Unparsable numbers silently become 0: not claimed.", "Values read back are compared at the precision written."]
D["E11"] = ["Median and quartiles follow quality order; quantities without definition (deviation of one value) are not judged.", "Timers are judged one measure per restart."]
D["E12"] = ["Integer intervals never draw their maximum: accepted, documented.", "Values beyond 1e9 outside an interval fold to a random point inside: accepted.", "Infinite bounds only appear in the text form of bounds."]
D["E13"] = ["Strongly typed operators are documented not to prune.", "A default-constructed tree, and assigning a node of another arity, are not judged."]
D["E14"] = ["A topology is set up once per run."]
D["E15"] = ["A budget of 0 evaluations still evaluates once.", "Two evaluators of foundries do not compile and are not claimed.", "An assertion on fractional indices is inverted: not claimed."]
D["E16"] = ["Evaluation functions with state of their own are the user's business.", "Exceptions that leave a parallel loop end the program: not claimed."]
D["E18"] = ["A number of parents of zero is outside the domain.", "A history in which the path length meets the stall threshold to within 1e-9 is not judged."]
D["E17"] = ["The default arguments of the general replacement do not compile when used.", "A truncated restart needs evaluated individuals.", "The deviation in reports is the sample deviation.", "An existing output directory is refused when not to be erased, even if empty (documented).", "Parameters written back to the status file and the population print-out of the multi-objective checkpoint are not judged."]
D["M01"] = ["The keys of the shift neighbourhood are the n(n-1) ordered pairs.", "Multi-bit distances are at most the length; keys that overflow are outside the domain."]
D["M02"] = ["A move leaves the solution invalid; judged when the genotype changed."]
D["M03"] = ["Perturbation by an operator: the number of executions is not claimed.", "The perturbation that walks through a neighbourhood skips the first neighbour after a move: not claimed.", "Variable neighbourhood search goes on in its list after its first iteration even if accepted, as its test pins."]
D["M04"] = ["List size 0 is outside the domain.", "A tenure includes the iteration that makes the move.", "A tenure of 0 means no limit in lists of neighbours and solutions, and never tabu in the indexed list.", "Random tenures may take both ends of their range."]
D["M05"] = ["The simple schedule cools every span + 1 updates and the dynamic span goes on while idle spans do not exceed the maximum: both pinned by tests.", "Acceptance ratios are judged for strictly positive fitness, frequencies within one cell of 128."]
D["M06"] = ["The no-improvement rule follows its documented comparison.", "Quartiles accept any usual convention; statistics of an empty neighbourhood have no definition.", "A vector monitor of fitness types that are not doubles reinterprets memory: not claimed."]
D["M07"] = ["Correlations without variance and lags beyond the length have no definition."]
D["P01"] = ["The epsilon comparator follows the code, g-dominance the cited paper.", "Fuzzy dominance is not judged; dual vectors only with their maximising type."]
D["P02"] = ["Epsilon-box archives: members genuine, mutually non-dominated, never empty, bounds right.", "The SPEA2 archive fills with the best of each batch before it replaces.", "Ties in crowding: any.", "The quad tree's dummy class and the fuzzy archive are not judged; values closer than 1e-6 but different are outside the domain of the quad tree."]
D["P03"] = ["A copy that is removed counts as dominated by all originals and dominates none; it goes to the worst front.", "Depth update by deletion is an approximation: not claimed.", "Scalarising distances follow the code's formulas; the achievement function only for minimisation.", "Empty populations are outside the domain; a flat objective is accepted within 1e-6."]
D["P04"] = ["Crowding is accepted for any order of ties.", "Fuzzy diversities do not compile; deletion updates say that they are not implemented."]
D["P05"] = ["The indicator-based fitness for dual vectors does not compile with the classes of the library: not judged.", "Contribution for fronts without copies; entropy is undefined for one point or a flat first set.", "Tolerance 1e-4."]
D["P06"] = ["MOGA's rank removes copies by default and the oracle follows.", "Crowding is judged only when the split front has distinct vectors.", "Roulette within 2/128.", "The fuzzy algorithms do not compile.", "The adaptive elitist algorithm empties its population by design."]
D["P07"] = ["An archive that replaces equals can make a local search endless on plateaus, so termination is judged for archives that keep the first of equals.", "Strategies that accept non-improving neighbours may go on until their stopping rule."]
D["P08"] = ["The hypervolume rule is judged when the given optimum weakly dominates the archive."]
D["B01"] = ["NK tables are saved with 6 digits (1e-5).", "Long path lengths satisfy (l-1) mod k = 0; queens n >= 1.", "The evaluators that do not compile, and the IOH logger, are not judged."]
D["D01"] = ["Bounders do not invalidate the fitness; modulo is the C one.", "Variants for another matrix library only as far as they compile (Cholesky, definite matrices).", "Snapshots are numbered by calls."]
D["C01"] = ["The real communicator code runs over a simulated message layer whose delivery order, matching of wildcards and buffering are decisions of the explorer.", "Exceptions are judged when thrown by the master's own termination test.", "User-chosen assignments must match the ranks that run."]
D["C02"] = ["Infinities, NaN, single blank characters and malformed text are outside the bounds.", "Unpacking appends to containers."]
D["S01"] = ["Exceptions in a worker end the program: not claimed.", "The parallel asynchronous swarm evaluates after all moves."]
D["S02"] = ["A group taken after its island was stopped has no destination, by design.", "The shared stopping rule cannot be repaired without editing its test: known finding."]
D["S03"] = ["A ring of one node is not judged.", "In the star every node sends to the centre, and the centre to nobody, as its test pins.", "A mesh takes the divisor pair with the closest ratio; ties any.", "Probabilities of the stochastic custom topology come from the system's random device, which the harness replaces."]

# planted bugs that were not caught at once
CAUGHT = {"b08": "yes, after a scenario was added in which a memory is filled past its room, emptied and filled again"}
