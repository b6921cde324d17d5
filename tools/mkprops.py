#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays valid and readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

UNIT = "The four stable tests cover two container classes and one run of tiger.95; "

prop("C01", "Exact solution methods compute the optimal finite-horizon value function",
 "For every valid POMDP, every exact method (enumeration, two-pass, witness, incremental pruning in each of its variants) with any of the non-approximating purge settings, and every horizon, the maximum over the written alpha vectors equals the optimal n-step expected discounted reward at every belief state, up to the solver's numerical precision. Consequently all the exact methods agree with each other.",
 ["inputs", "configurations"],
 "all valid POMDPs (any number of states, actions, observations; impossible observations; deterministic and zero-probability entries; rewards of any sign or dependence), all exact methods and purge options, all horizons, all belief points",
 UNIT + "the number of vectors of one model is all that is checked, never a value, another method or another option.",
 ["src/projection.c", "src/inc-prune.c", "src/two-pass.c", "src/witness.c", "src/enumeration.c", "src/cross-sum.c", "src/parsimonious.c", "src/region.c", "src/neighbor.c", "src/common.c", "src/pomdp-solve.c"],
 [("dynamic-programming backup", "src/projection.c makeAllProjections, src/cross-sum.c"), ("per-action construction and merge", "src/pomdp-solve.c improveByQ"), ("LP based purging", "src/parsimonious.c normalPrune, src/region.c findRegionPoint")],
 ["the .alpha files written by the solver"])

prop("C02", "Every written vector is the value of the policy its graph line describes",
 "For every epoch and every method, approximate ones included, each value vector that is written is exactly the one-step backup of its own action and of the previous epoch's vectors that its policy-graph line names for each observation: immediate reward plus the discounted expected value of those vectors. An observation that cannot occur after that action is marked as such and contributes nothing, so the values are never more than some policy really earns.",
 ["inputs", "configurations"],
 "all valid POMDPs, all methods, purge and variation options, all epochs and all vectors and observations in them",
 UNIT + "no test reads a policy graph or relates a vector to the vectors it was built from.",
 ["src/projection.c", "src/cross-sum.c", "src/alpha.c", "src/pg.c", "src/pomdp-solve.c", "src/common.c"],
 [("choice bookkeeping per observation", "src/alpha.c obs_source, relinkObsSources"), ("graph writer", "src/pg.c APG_writePolicyGraph"), ("sorting keeps ids and vectors together", "src/alpha.c sortAlphaList")],
 [".alphaN and .pgN files of -save_all, the final .alpha and .pg"])

prop("C03", "Exact solutions are parsimonious",
 "With pruning by linear programs selected (the default), no vector written by an exact method is superfluous: for each one there is a belief state at which it is better than all the others (vectors closer together than the fixed tolerances of the linear programs aside), and no vector appears twice. Domination-only purging never leaves a vector that another one exceeds in every component.",
 ["inputs", "configurations"],
 "all valid POMDPs, all exact methods with LP or domination purging, all epochs, all vectors",
 UNIT + "the count of nine vectors for one model is the only evidence; no other model or method is looked at.",
 ["src/parsimonious.c", "src/region.c", "src/common.c", "src/lp-interface.c"],
 [("domination check", "src/parsimonious.c dominationCheck"), ("witness LPs", "src/region.c"), ("duplicate removal", "src/alpha.c")],
 ["the .alpha files written by the solver"])

prop("C04", "Value iteration stops when, and only when, its stopping rule says so",
 "A run ends exactly at the requested horizon unless its stopping criterion was met earlier, and when it stops early the criterion really holds between the last two value functions: identical vector sets for the exact criterion, the documented error bound for the weak and Bellman ones. Without a horizon the solution of a discounted problem is then within the distance of the optimal infinite-horizon value function that the stopping tolerance promises.",
 ["inputs", "histories", "configurations"],
 "all valid discounted POMDPs, stopping criteria, tolerances, discounts and horizons, and whole sequences of epochs",
 UNIT + "that tiger.95 stops with nine vectors does not show the criterion was evaluated correctly, nor what happens with other criteria, tolerances or horizons.",
 ["src/pomdp-solve.c", "src/common.c", "src/alpha.c"],
 [("stop test", "src/pomdp-solve.c meetStopCriteria, weakBound"), ("Bellman residual", "src/common.c bellmanError"), ("horizon count", "src/pomdp-solve.c solvePomdp")],
 ["epoch lines on stdout, .alphaN files"])

prop("C05", "A model file means what the file format says it means",
 "Loading a model file yields exactly the transition and observation probabilities, rewards, discount, value sense and initial belief that the documented format assigns to it, whichever of the equivalent syntaxes is used: names or numbers, single entries, rows or whole matrices, wildcards, the uniform, identity and reset keywords, include and exclude start lists, comments and any layout. Where several lines address the same entry, the last one in the file wins.",
 ["inputs"],
 "all syntactically and semantically valid POMDP and MDP files",
 UNIT + "one model file in one style is parsed, and its parameters are never inspected.",
 ["src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/mdp.c", "src/mdp/imm-reward.c", "src/mdp/decision-tree.c", "src/mdp/sparse-matrix.c", "src/mdp/parse_hash.c"],
 [("matrix contexts and wildcards", "src/mdp/parser.y setMatrixContext, enterMatrix"), ("reward specifications", "src/mdp/imm-reward.c, src/mdp/decision-tree.c"), ("sparse storage", "src/mdp/sparse-matrix.c")],
 ["the model held in memory after loading, read through the library's public accessors"])

prop("C06", "A model file that is not a valid model is refused",
 "A file that breaks a rule of the format - probabilities that are not a distribution, an out-of-range or unknown state, action or observation, a missing preamble line, a bad discount or count, a syntax error, too many or too few entries - is never solved: the program reports at least one error that names the problem, exits with a failure status and writes no solution. A valid file is never refused.",
 ["inputs"],
 "all files obtained from valid ones by violating one or more rules of the format, and all valid files",
 UNIT + "no test gives the parser a wrong file.",
 ["src/mdp/parser.y", "src/mdp/parse_err.c", "src/mdp/mdp.c", "src/pomdp.c"],
 [("distribution checks", "src/mdp/parser.y checkProbs"), ("preamble checks", "src/mdp/parser.y verifyPreamble"), ("error collection", "src/mdp/parse_err.c ERR_enter, ERR_dump")],
 ["exit status, stderr/stdout, files created"])

prop("C07", "No model file, however malformed, corrupts memory or hangs the loader",
 "For an arbitrary sequence of bytes given as model file, loading ends, in time and memory bounded by the file's length and the counts it declares, with either a usable model or a reported failure, without reading or writing outside its memory, using uninitialised or freed memory, or any other undefined behaviour.",
 ["inputs"],
 "all byte sequences as model files",
 UNIT + "all of them feed one well-formed file.",
 ["src/mdp/parser.y", "src/mdp/scanner.l", "src/mdp/mdp.c", "src/mdp/imm-reward.c", "src/mdp/decision-tree.c", "src/mdp/parse_err.c", "src/mdp/parse_hash.c", "src/mdp/sparse-matrix.c"],
 [("bounds of matrix entry", "src/mdp/parser.y enterMatrix"), ("token buffers", "src/mdp/scanner.l"), ("error table", "src/mdp/parse_err.c")],
 ["sanitizer reports, exit status and time of the loader"])

prop("C08", "Solving a valid model never breaks memory safety, whatever the options",
 "For every valid model and every combination of solver options, a run neither accesses memory out of bounds, after free or uninitialised, nor executes other undefined behaviour, nor aborts on an internal consistency check; it ends with status 0 and a complete solution.",
 ["inputs", "configurations", "histories"],
 "all valid models including degenerate ones (one state, action or observation, no rewards, impossible observations, ties) and all option combinations that are documented as available",
 UNIT + "one model with default options runs without instrumentation.",
 ["src/pomdp-solve.c", "src/alpha.c", "src/region.c", "src/lp-interface.c", "src/lp-solve/solve.c", "src/lp-solve/lpkit.c", "src/finite-grid.c", "src/zlz_speedup.c", "src/params.c"],
 [("list ownership", "src/alpha.c destroyAlphaList, clearObsSourceAlphaList"), ("preallocated work areas", "src/common.c initCommon, src/lp-interface.c")],
 ["sanitizer reports and exit status of instrumented solver runs"])

prop("C09", "Hostile auxiliary inputs cannot corrupt memory or hang the programs",
 "Whatever bytes are supplied as value-function, policy-graph, belief or configuration file, as interactive belief-update lines or as command-line words, the solver and the tools end in bounded time and memory with a result or a reported error, without memory errors or other undefined behaviour.",
 ["inputs"],
 "all contents of the auxiliary files and of standard input, and all command lines",
 UNIT + "no test exercises the tools program or any auxiliary file.",
 ["src/alpha.c", "src/belief.c", "src/pg.c", "src/utils.c", "src/config-file.c", "src/command-line.c", "src/program-options.c", "src/params.c"],
 [("file readers", "src/alpha.c readAlphaList, src/belief.c readBeliefList, src/pg.c LPG_scanf"), ("option parsing", "src/program-options.c, src/command-line.c, src/config-file.c"), ("line reader", "src/utils.c UTIL_doBeliefUpdates")],
 ["sanitizer reports, exit status, time and memory of instrumented runs"])

prop("C10", "Per-epoch and penultimate files record exactly the epochs they are named after",
 "When every epoch is saved, the value-function and policy-graph files numbered n are those of a run with horizon n, for each n up to the last epoch, and the last ones equal the final solution. The penultimate file equals the value function of the epoch before the last one, and saving never changes the solution.",
 ["inputs", "histories", "configurations"],
 "all valid models, methods, horizons and combinations of the saving options",
 UNIT + "no saving option is used by any test.",
 ["src/pomdp-solve.c", "src/alpha.c", "src/pg.c"],
 [("saving each epoch", "src/pomdp-solve.c handleSaveAll"), ("penultimate solution", "src/pomdp-solve.c solvePomdp")],
 ["files written by paired runs"])

prop("C11", "A solution file used as terminal values continues the same computation",
 "Running k epochs, and then m more with the written value function supplied as terminal values, gives the same value function as k+m epochs in one run; a terminal value function given by the user is what the first epoch backs up. This holds across methods, so that an interrupted or finite computation can be resumed.",
 ["inputs", "histories", "configurations"],
 "all valid models, all splits k+m, all method pairs, all user-written terminal value functions",
 UNIT + "terminal values are never supplied.",
 ["src/alpha.c", "src/pomdp-solve.c", "src/params.c"],
 [("value-function reader and writer", "src/alpha.c readAlphaList, saveAlphaList"), ("initial policy", "src/pomdp-solve.c initPomdpSolve")],
 ["solution files of split and unsplit runs"])

prop("C12", "Runs are reproducible",
 "Two runs with the same model, options and random seed write byte-identical solution, policy-graph and belief files, whatever the time, process id, environment or working directory. Options that only randomize the search change neither the value function computed by an exact method nor its size.",
 ["inputs", "configurations", "histories"],
 "all models and option sets, repeated runs under differing environments, all seeds",
 UNIT + "nothing is run twice.",
 ["src/random.c", "src/params.c", "src/common.c", "src/finite-grid.c"],
 [("seeding", "src/random.c setRandomSeedFromString"), ("random witness points", "src/common.c, src/parsimonious.c")],
 ["files written by repeated runs"])

prop("C13", "Options mean the same on the command line, in a config file and when echoed",
 "Every option set has the same effect given on the command line, in a configuration file (with comments, blank lines and any spacing), or split between both, the command line taking precedence; an option that is absent behaves as its documented default. The settings a run prints are the ones it uses, and feeding that printed block back as a configuration file reproduces the run.",
 ["inputs", "configurations"],
 "all options with all legal values, all distributions of them over command line and configuration file",
 UNIT + "one command line is used.",
 ["src/program-options.c", "src/command-line.c", "src/config-file.c", "src/associative-array.c", "src/pomdp-solve-options.c", "src/params.c"],
 [("precedence", "src/program-options.c"), ("parsing of both sources", "src/command-line.c, src/config-file.c"), ("defaults", "src/pomdp-solve-options.c")],
 ["printed settings and solution files of paired runs"])

prop("C14", "Illegal option values are refused before anything is computed",
 "A value outside an option's legal range or set, a value that is not a number where one is required, a missing value, an unknown option, a malformed configuration line or a missing model file name makes the program exit with a failure status and a message, without writing any solution. A legal command line is never refused.",
 ["inputs", "configurations"],
 "all options of the solver and the tools with out-of-range, non-numeric, empty or missing values",
 UNIT + "only legal options are used.",
 ["src/program-options.c", "src/command-line.c", "src/pomdp-solve-options.c", "src/pomdp-tools-options.c"],
 [("range checks", "src/program-options.c PO_getIntegerOption, PO_getDoubleOption, PO_getEnumOption")],
 ["exit status, messages, files created"])

prop("C15", "Equivalent models get equivalent solutions",
 "Renaming or reordering states, actions or observations, stating the problem in costs instead of negated rewards, adding a constant to or scaling all rewards, splitting an observation into indistinguishable copies, duplicating an action, or overriding the discount instead of editing it changes the optimal value function only in the corresponding, predictable way.",
 ["inputs"],
 "all valid models and all of these transformations of them, with any exact method",
 UNIT + "single runs cannot relate two models.",
 ["src/mdp/imm-reward.c", "src/pomdp.c", "src/projection.c", "src/pomdp-solve.c", "src/params.c"],
 [("cost conversion", "src/pomdp.c getAdjustedReward"), ("discount override", "src/pomdp-solve.c initPomdpSolve"), ("possible observations", "src/pomdp.c setPossibleObservations")],
 ["solution files of pairs of runs"])

prop("C16", "Point-based finite-grid solutions are sound lower bounds over a valid grid",
 "In the finite-grid method each grid belief is a probability distribution that belongs there: reachable from the initial belief for the grids grown from it, reachable from the uniform belief and the observations' beliefs for the searched ones, a vertex or a midpoint of two of them for the simplex ones; the grid has no more points than allowed plus one expansion. At each epoch the written vectors attain, at every grid belief, exactly the best one-step backup of the previous epoch's vectors, and nowhere exceed the optimal n-step value.",
 ["inputs", "configurations"],
 "all valid models, grid types, grid sizes, purge options, horizons",
 UNIT + "the grid method is never run.",
 ["src/finite-grid.c", "src/belief.c", "src/common.c"],
 [("grid generation", "src/finite-grid.c, src/belief.c"), ("point backup", "src/finite-grid.c improveFiniteGrid")],
 ["saved belief file, .alphaN files"])

prop("C17", "Approximation options stay within their error and never exceed the optimum",
 "With epsilon pruning every epoch's value function is no more than the optimum and below it by at most the pruning tolerance accumulated over the epochs. The adjustable-precision and the accelerated variations of value iteration never exceed the optimum, and at convergence their value function agrees with that of plain value iteration within the stopping tolerance and the precision in force; the precision is tightened exactly when the sizes of the last epochs were steady and its final value is not yet reached.",
 ["inputs", "configurations", "histories"],
 "all valid models, tolerances, variation parameters and horizons",
 UNIT + "no approximate option is used.",
 ["src/parsimonious.c", "src/zlz_speedup.c", "src/pomdp-solve.c"],
 [("epsilon pruning", "src/parsimonious.c epsilonPrune"), ("adjustable precision", "src/pomdp-solve.c doAdjustableEpsilonVariation"), ("acceleration", "src/zlz_speedup.c")],
 [".alphaN files, epoch lines"])

prop("C18", "The belief-update tool performs exact Bayesian filtering",
 "For every model and every sequence of action-observation lines, each belief printed is the Bayes posterior of the previous belief, starting from the model's initial belief; it is a probability distribution, however improbable the observation was. An observation that cannot occur in the belief is answered by the zero vector, which stays from then on. A line that is not a valid action and observation changes nothing and is answered as invalid, and the sequence ends at end of input or on exit.",
 ["inputs", "histories"],
 "all models, all histories of actions and observations including impossible ones, all invalid lines",
 UNIT + "the tool is never run.",
 ["src/utils.c", "src/belief.c", "src/pomdp-tools-main.c"],
 [("filter step", "src/belief.c updateBeliefState"), ("line protocol", "src/utils.c UTIL_doBeliefUpdates")],
 ["output of the tools program for scripted input"])

prop("C19", "Sorting and purging value-function files preserves what they represent",
 "Sorting a value-function file yields the same vectors with their actions, in lexicographic order. Purging one yields a subset of the input vectors, with their actions, whose maximum at every belief equals that of the input, free of superfluous vectors; both are idempotent, and reading and rewriting a file loses no more than the printed precision.",
 ["inputs"],
 "all value-function files: duplicates, ties, dominated and barely useful vectors, any number of states",
 UNIT + "the tools are never run on a file.",
 ["src/utils.c", "src/alpha.c", "src/parsimonious.c", "src/region.c"],
 [("sort", "src/alpha.c sortAlphaList"), ("purge", "src/parsimonious.c purgeAlphaList")],
 ["files written by the tools program"])

prop("C20", "Value-function comparison tools report true maxima and distances",
 "The belief mapping tool reports for each belief a vector that maximizes the inner product, with that value; the belief-based comparison of two value functions reports each belief's true values under both and their differences; the vector comparison reports for each vector the truly nearest vector of the other list and their largest distance.",
 ["inputs"],
 "all pairs of value-function files and belief files, ties and different list lengths included",
 UNIT + "the tools are never run.",
 ["src/utils.c", "src/alpha.c", "src/belief.c", "src/common.c"],
 [("best vector", "src/common.c bestVector"), ("nearest vector", "src/alpha.c"), ("reports", "src/utils.c")],
 ["output files of the tools program"])

prop("C21", "Policy-graph evaluation solves the graph's value equations",
 "For every model with discount below one and every policy graph, the value reported for each node and state satisfies, to the printed precision, the linear equations of following the graph: immediate reward of the node's action plus discounted expected value of the successor nodes; the reported best node for the initial belief is one of highest expected value.",
 ["inputs"],
 "all models and all policy graphs over their actions and observations",
 UNIT + "the evaluation tool is never run.",
 ["src/pg-eval.c", "src/pg.c", "src/laspack-util.c", "src/laspack/itersolv.c", "src/laspack/qmatrix.c"],
 [("equation system", "src/pg-eval.c"), ("iterative solver", "src/laspack/itersolv.c")],
 ["output of the tools program"])

prop("C22", "Relinking a policy graph preserves its nodes and picks nearest successors",
 "Relinking replaces each successor of each node, previously an index into the earlier value function, by the index of a vector of the current value function with the smallest largest-component distance to it; node count, order and actions, and the marks of impossible observations, do not change.",
 ["inputs"],
 "all policy graphs and pairs of value-function files that fit them",
 UNIT + "the tool is never run.",
 ["src/utils.c", "src/pg.c", "src/alpha.c"],
 [("relink", "src/utils.c"), ("graph reader and writer", "src/pg.c PG_scanf, PG_printf")],
 ["files written by the tools program"])

prop("C23", "An interrupt or time limit never yields an inconsistent solution",
 "Whenever an interrupt arrives during value iteration, the run completes the current epoch, writes the complete value function and policy graph of that epoch, equal to those of an undisturbed run with that horizon, and exits normally without leaving temporary files. Reaching the time limit ends the run, without memory errors or hang, and never leaves a wrong or partial solution reported as complete.",
 ["schedules", "crash_points", "inputs"],
 "all arrival times of one or more interrupts or of the time limit, in all methods",
 UNIT + "no signal is ever sent.",
 ["src/signal-handler.c", "src/pomdp-solve.c", "src/inc-prune.c", "src/two-pass.c", "src/witness.c", "src/enumeration.c"],
 [("flag checked between epochs", "src/pomdp-solve.c solvePomdp"), ("handlers", "src/signal-handler.c")],
 ["files and exit status of interrupted runs"])

prop("C24", "A killed run leaves its latest epoch behind, a finished one leaves nothing extra",
 "While an epoch is being computed the recovery file in the working directory holds the complete value function of the previous epoch, so that a run killed there can be resumed from it. A run that ends normally removes it, leaves only the files it was asked for and touches no other run's.",
 ["crash_points", "histories"],
 "kills at any point of the computation of an epoch, all methods and models",
 UNIT + "nothing is killed and the files left are not looked at.",
 ["src/pomdp-solve.c", "src/alpha.c"],
 [("recovery file", "src/pomdp-solve.c saveAlphaList( next_alpha_list, param->backup_file ), removeFile")],
 ["recovery file after a kill; directory listing after a normal end"])

prop("C25", "Concurrent runs do not disturb each other",
 "Any number of runs started at the same time in the same directory, with distinct or default output names, produce the files each of them would have produced alone.",
 ["schedules"],
 "all interleavings of simultaneous runs sharing a working directory and input files",
 UNIT + "runs are made one at a time.",
 ["src/pomdp-solve.c", "src/params.c", "src/signal-handler.c"],
 [("names made unique by process id", "src/pomdp-solve.c SAVE_FILE_NAME_FORMAT, src/params.c default prefix")],
 ["files of concurrent and solitary runs"])

prop("C26", "Linear programs solved during pruning are solved correctly",
 "Each linear program that pruning and region tests hand to the built-in solver is answered correctly: a solution reported optimal satisfies all constraints and bounds and attains the true optimum, and a program reported infeasible or unbounded is so, up to numerical tolerance.",
 ["inputs", "histories"],
 "all linear programs that arise from any model, method and epoch",
 UNIT + "no linear program is examined.",
 ["src/lp-interface.c", "src/lp-solve/solve.c", "src/lp-solve/lpkit.c", "src/region.c", "src/parsimonious.c", "src/two-pass.c"],
 [("translation to the solver's form", "src/lp-interface.c LP_loadLpSolveLP"), ("simplex", "src/lp-solve/solve.c")],
 ["problem and answer at the call that solves a linear program"])

prop("C27", "Vector and index containers behave like sequences",
 "Under every sequence of operations the vector lists and growable index lists behave as plain sequences: appending, prepending, queueing, copying, uniting, clearing and searching give the elements in the right order with the right length, copies are independent of their originals, and no memory is lost twice or used after release.",
 ["histories", "inputs"],
 "all sequences of public operations of the two containers, any size",
 "The unit tests run a few fixed short sequences, in one order and size.",
 ["src/double-vector.c", "src/index-list.c", "src/value-function.c", "src/belief-state.c"],
 [("list maintenance", "src/double-vector.c"), ("growth", "src/index-list.c IL_resize")],
 ["container contents after each operation"])

prop("C28", "Progress and statistics reports tell the truth",
 "The epoch lines and the statistics summary of a run report consecutive epochs from 1, the number of vectors that the epoch really produced, the error that was compared with the stopping tolerance and the precision in force; the named solution files exist with that number of vectors, in the documented layout, and the final message appears exactly when they were written. What is reported (-stat_summary, -verbose, -stdout) does not change the solution.",
 ["inputs", "configurations", "histories"],
 "all runs: models, methods, options, numbers of epochs",
 UNIT + "one message of one run is searched for.",
 ["src/stats.c", "src/pomdp-solve.c", "src/alpha.c", "src/pg.c"],
 [("epoch report", "src/stats.c epochEndStats, reportEpochSummary"), ("final report", "src/pomdp-solve.c endPomdpSolve")],
 ["stdout and files of instrumented runs"])

prop("C29", "Following the solution's policy graph earns the value it promises",
 "For a converged solution, the controller given by the written policy graph, relinked to the final vectors, started at the best vector of any belief, has an expected discounted reward within the convergence error of the value promised there. For a finite horizon, executing the saved per-epoch graphs from the last to the first earns exactly the promised value.",
 ["inputs", "histories"],
 "all valid discounted models, all start beliefs, all observation histories",
 UNIT + "no policy is executed or evaluated.",
 ["src/pg.c", "src/alpha.c", "src/pomdp-solve.c", "src/utils.c", "src/pg-eval.c"],
 [("graph construction", "src/pg.c APG_writePolicyGraph"), ("sorted ids", "src/alpha.c sortAlphaList")],
 ["policy-graph and value-function files, execution of the graph on the model"])

prop("C30", "Output that cannot be written or memory that cannot be had is reported",
 "If an input file cannot be opened or read to its end, if a solution or output file cannot be created or completely written, or if memory is exhausted, the program says so on its error output; it does not crash with a memory error and it never presents a truncated or missing file as a found solution, or the part of a file that could be read as the whole of it, without any complaint.",
 ["fault_sequences", "crash_points"],
 "every failing call of the file and memory interfaces at any point of a run",
 UNIT + "no fault is ever injected.",
 ["src/alpha.c", "src/pg.c", "src/belief.c", "src/xalloc.c", "src/pomdp-solve.c"],
 [("open checks", "src/alpha.c saveAlphaList, src/pg.c"), ("allocation checks", "src/xalloc.c")],
 ["exit status, error output and files of runs with injected faults"])

prop("C31", "Memory use does not grow with the number of epochs",
 "Once the number of vectors is stable, further epochs of value iteration need no further memory, apart from the one statistics record each epoch leaves: what else an epoch allocates is released by the time the next but one is complete, for every method.",
 ["histories", "configurations"],
 "all valid models and methods, arbitrarily long sequences of epochs",
 UNIT + "memory is not measured and runs are short.",
 ["src/pomdp-solve.c", "src/alpha.c", "src/projection.c", "src/inc-prune.c", "src/region.c", "src/lp-interface.c"],
 [("release of old value functions and projections", "src/pomdp-solve.c solvePomdp, src/projection.c freeAllProjections")],
 ["live heap at each epoch"])

prop("C32", "The times a run reports add up",
 "The time of each epoch, the accumulated total, the part of an accelerated epoch before its acceleration, the user, system and total times at the end and the statistics summary (rows, totals, time per part of the computation) are differences of the processor clock between the events they name, and agree with each other: the total never runs behind the epochs, the parts of an epoch never exceed it, totals are the sums of their rows, and seconds agree with hours and minutes.",
 ["histories", "configurations"],
 "all runs: models, methods, numbers of epochs, and all courses of the processor clock",
 UNIT + "the times of a short run are all zero.",
 ["src/stats.c", "src/timing.c", "src/zlz_speedup.c", "src/pomdp-solve.c"],
 [("epoch and context clocks", "src/stats.c epochStartStats, epochEndStats, startContext, endContext"), ("final report", "src/stats.c reportStats, src/timing.c reportTimes")],
 ["stdout of instrumented runs under a clock that the monitor controls"])

prop("C33", "The model library loads, shows, writes and releases models one after another",
 "Any sequence of model files, MDPs as well as POMDPs, is loaded in one process as if each were the only one, whatever was loaded, refused or cut short before: what the library's accessors and its display of a state say is what the file means. The file that the library writes for a model is read back as the same model to the six decimals written, and what a model needed in memory is given back with it.",
 ["histories", "inputs"],
 "all sequences of model files, valid and broken, of both kinds",
 UNIT + "no test loads an MDP, loads a second model or writes one.",
 ["src/mdp/mdp.c", "src/mdp/parser.y", "src/mdp/imm-reward.c", "src/mdp/decision-tree.c", "src/mdp/sparse-matrix.c", "src/mdp/parse_hash.c"],
 [("loading and releasing", "src/mdp/mdp.c readMDP, deallocateMDP"), ("writing and showing", "src/mdp/mdp.c writeMDP, displayMDPSlice"), ("rewards", "src/mdp/decision-tree.c")],
 ["dumps of the loaded models, files written, live heap"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
