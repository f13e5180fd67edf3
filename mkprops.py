import json
R="mbqc_scheduling/src/"
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,title
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
props=[
P("C01","Every returned schedule is executable and complete",
"Every path that a scheduling run returns - the direct time-optimal one or any search result, exhaustive or probabilistic, with or without a timeout, with any number of threads - lists every node of the time ordering exactly once, in non-empty steps. A node never appears in the same step as, or in an earlier step than, a node it depends on.",
["inputs","configurations"],"all spacial graphs and time orderings (layered DAGs as documented for PartialOrderGraph), all search modes, thread counts, task bounds, accept functions, seeds and timeouts",
"No existing test calls the run/search functions at all; the roundtrip test re-implements the search loop over at most 7 nodes and never checks a path for validity.",
[R+"interface.rs",R+"search.rs",R+"search/threaded.rs",R+"scheduler.rs",R+"scheduler/time.rs"],
[("dependency counters gate the measurable set",R+"scheduler/time.rs"),("depth-first search pushes/pops the current path",R+"search.rs"),("per-task initial path",R+"search/threaded.rs")],
[("current_path","the schedule under construction",R+"search.rs")],["interface::run"]),
P("C02","Reported time and space costs are the true costs of the reported steps",
"For every returned path, `time` equals the number of its steps and `space` equals the largest number of qubits that are simultaneously initialised and not yet measured when the steps are executed by the rules: before a step is measured, all its nodes and all their neighbours have to be initialised, and a node leaves memory only once its step is done. This holds in every mode and in both debug and release builds.",
["inputs","configurations"],"all graphs, orderings and run configurations, both build profiles",
"The memory accounting of full schedules is only compared with itself in the roundtrip test (a consistent error stays invisible) and with constants on one 4-node graph; release builds use a separate unchecked code path that no test runs.",
[R+"scheduler/space.rs",R+"scheduler.rs",R+"search.rs",R+"search/threaded.rs"],
[("measure/initialize/update_memory",R+"scheduler/space.rs"),("debug/release split of the space update",R+"scheduler.rs"),("leaf memory reported on backward step",R+"search.rs")],
[("current_memory, max_memory","running and peak qubit count",R+"scheduler/space.rs")],["interface::run","Path.space","Path.time"]),
P("C03","Without search, the one time-optimal schedule is returned",
"A run without search returns exactly one path, and it has the minimum possible number of steps, i.e. the length of the longest dependency chain. It measures every node in the earliest step its dependencies allow.",
["inputs"],"all graphs and time orderings, up to hundreds of nodes",
"Never called by a test.",
[R+"search.rs",R+"scheduler/time.rs"],[("greedy focus on the whole measurable set",R+"search.rs get_time_optimal")],None,["interface::run(do_search=false)"]),
P("C04","Exhaustive sequential search returns exactly the space-time Pareto front",
"For every problem, the exhaustive (non-probabilistic, no timeout) single-threaded search returns, sorted by time, exactly one path for each Pareto-optimal (time, space) pair over all valid schedules: nothing better exists, no optimal trade-off is missing, no dominated one is listed. In particular the first path is time-optimal and the last is space-optimal.",
["inputs"],"all graphs and time orderings (brute-force checkable sizes)",
"The search function is not called by any test; the roundtrip test checks a copy of its pruning loop (not the shipped one) against exhaustive enumeration with the same Graph code.",
[R+"search.rs",R+"scheduler/tree.rs",R+"scheduler/time.rs",R+"scheduler/space.rs"],
[("pruning by best memory per path length",R+"search.rs forward/backward/minimum_path_length"),("final non-domination filter",R+"search.rs search")],
[("best_memory","best known space per time",R+"search.rs")],["interface::run"]),
P("C05","Parallel search finds the same trade-offs as sequential search, always",
"For every problem, exhaustive search with any number of threads, any task bound and under any interleaving of the worker threads returns exactly the same set of (time, space) pairs as the single-threaded search. A result found by one worker is never lost or replaced by a worse one because of what another worker does.",
["inputs","schedules","configurations"],"all problems, thread counts, task bounds and thread interleavings, including runs long enough for workers to exchange bounds while searching",
"No test runs the threaded search; a lost result needs two workers that exchange bounds in a particular order.",
[R+"search/threaded.rs",R+"search.rs"],
[("shared best_memory and periodic update",R+"search/threaded.rs update"),("merge of a finished task",R+"search/threaded.rs task"),("single-step task special case",R+"search/threaded.rs do_search")],
[("best_memory, results","bounds and paths shared between workers",R+"search/threaded.rs")],["interface::run(nthreads>1)","custom accept function as scheduling point"]),
P("C06","Result lists are sorted and contain only strict trade-offs",
"Whatever the mode (exhaustive, probabilistic, interrupted by a timeout, multi-threaded), the returned list is strictly increasing in time and strictly decreasing in space.",
["inputs","configurations"],"all problems and all search configurations",
"Never checked; probabilistic and interrupted searches produce partial result sets that the exhaustive cases do not.",
[R+"search.rs",R+"search/threaded.rs"],[("final filter and sort",R+"search.rs search")],None,["interface::run"]),
P("C07","The accept function governs which steps a probabilistic search may take",
"In a probabilistic search a step that could still improve on the paths found so far is taken with the probability the accept function returns: always if it is at least 1 (a search that accepts everything equals the exhaustive search), never if it is 0. (In a parallel search, the first measurement set of a task that is split off is taken unconditionally, as is documented in the source; the function governs all the other steps.) The function is called with the documented arguments: the best space known so far for a full path within the bound and overall (the largest integer while none is known), the peak space before the step, the occupied memory after the previous step and after this step, the number of nodes still left to measure, and the total number of nodes.",
["inputs","configurations"],"all problems, custom accept functions, probabilities and seeds",
"No test runs the probabilistic search or looks at the arguments.",
[R+"search.rs",R+"search/threaded.rs",R+"probabilistic.rs",R+"scheduler/time.rs"],
[("probabilistic_forward",R+"search.rs"),("num_remaining_nodes",R+"scheduler/time.rs")],None,["AcceptFunc::Custom"]),
P("C08","Built-in accept functions compute their documented formulas",
"The built-in and the parametrised Heaviside accept functions return the value of their documented formula for every argument and parameter set: 0 below the cutoff and a non-negative number above it, and the built-in one is the parametrised one with parameters (0, 2, 1, 1, 3, 1). The default accept function is the built-in one.",
["inputs","configurations"],"all argument values (including the largest-integer placeholder) and parameters",
"The formulas exist only as ignored doc-tests.",
[R+"probabilistic.rs"],[("builtin_heavyside, create_parametrized_heavyside",R+"probabilistic.rs")],None,["AcceptFunc::get_accept_func"]),
P("C09","A seeded sequential probabilistic search is reproducible",
"Running the single-threaded probabilistic search twice with the same problem, accept function and seed - in one process or in several - returns identical paths, and the seed is what decides: different seeds explore differently. A single-threaded exhaustive search, and a run without search, are the same every time.",
["inputs","configurations"],"all problems, accept functions and seeds with fewer than two threads",
"No test runs the probabilistic search.",
[R+"search.rs",R+"interface.rs"],[("seeded Pcg64",R+"search.rs do_probabilistic_search")],None,["interface::run"]),
P("C10","A timeout stops the search soon and loses no result already found",
"When a timeout is given, the search ends after a bounded amount of further work once it has expired - for every thread count and however many parallel tasks are still pending - and returns the results found until then: no trade-off that was already known when it stopped is lost. A timeout that does not expire changes nothing, and the run does not wait for it.",
["inputs","configurations","schedules"],"all problems, thread counts, task counts and timeouts, deterministic and probabilistic",
"Only the Timer itself has (flaky, excluded) tests; the search under a timeout has none.",
[R+"search.rs",R+"search/threaded.rs",R+"timer.rs"],
[("timer.finished() checks in the search loops",R+"search.rs, "+R+"search/threaded.rs update"),("Drop of the timer",R+"timer.rs")],None,["interface::run(timeout)"]),
P("C11","The timer reports expiry exactly: never early, never without start",
"A timer that was not started never reports having finished; a started one reports it only after its duration has elapsed and then keeps reporting it, to every thread. Dropping a timer returns promptly, however much of its duration is left.",
["inputs","schedules"],"all durations and start/query/drop histories, from several threads",
"The two timer tests are excluded as flaky and one of them asserts nothing.",
[R+"timer.rs"],[("condvar wait with timeout, atomic flag, notify on drop",R+"timer.rs")],None,["Timer::finished","Drop"]),
P("C12","Sweeping enumerates every admissible measurement path exactly once",
"Iterating a path generator or scheduler visits every sequence of non-empty measurement sets that is compatible with the time ordering exactly once, marks exactly the complete ones as leaves (with the correct peak memory, for the scheduler), and takes one backward step per visited forward step. Skipping the current node removes exactly the paths through it and nothing else.",
["inputs","histories"],"all time orderings and all choices of skipped nodes",
"Tests cover one 4-node ordering and the antichain path counts up to 5 nodes; skipping is only compared after filtering to optima.",
[R+"scheduler/tree.rs",R+"scheduler/time.rs",R+"scheduler/combinatoric.rs",R+"scheduler.rs"],
[("Sweep stack",R+"scheduler/tree.rs"),("subset enumeration",R+"scheduler/combinatoric.rs"),("next_and_focus",R+"scheduler/time.rs")],
[("stack, current","position in the tree",R+"scheduler/tree.rs")],["Sweep as Iterator","Sweep::skip_current"]),
P("C13","Manual scheduling accepts exactly the valid instructions and rejects cleanly",
"In any history of instructions, a scheduler or path generator accepts a measurement set exactly if it consists of distinct nodes that are currently measurable, and then its measurable set, remaining-node count and memory figures are those implied by the instructions so far. Any other instruction - unknown, blocked, already measured or repeated nodes, of any length - is reported as not measurable, naming the offending nodes, without panicking and without changing the state. In-place and copying instructions agree, and the copying one leaves the original untouched.",
["inputs","histories"],"all problems and all instruction sequences, valid and invalid",
"One test feeds four single-node instructions to one 4-node ordering.",
[R+"scheduler.rs",R+"scheduler/time.rs",R+"scheduler/space.rs"],
[("partition checks the instruction",R+"scheduler/time.rs partition"),("update_unchecked",R+"scheduler/time.rs"),("Scheduler::focus / focus_inplace",R+"scheduler.rs")],
[("measurable, deps_counter","what can be measured next",R+"scheduler/time.rs")],["Scheduler::focus","Scheduler::focus_inplace","time()","space()"]),
P("C14","Graph memory accounting is exact for every measurement history",
"For any sequence of measurement sets applied to a graph, the state of every node (sleeping, in memory, measured), the number of qubits currently in memory and the peak are exactly those implied by initialising each measured node and its neighbours, measuring the whole set at once, and then freeing it. Measuring a node again is reported with that node.",
["inputs","histories"],"all graphs and all sequences of sets, independent of any time ordering",
"One test with two hand-computed histories on one graph.",
[R+"scheduler/space.rs"],[("impl_measure!, initialize, update_memory",R+"scheduler/space.rs")],
[("nodes, current_memory, max_memory","qubit states and counts",R+"scheduler/space.rs")],["Graph::nodes","Graph::current_memory","Graph::max_memory"]),
P("C15","Graph and ordering construction is faithful",
"Building a graph from an edge list gives every edge in both directions, applies the node mapping, and with the check enabled drops self-loops and repeated edges in either direction; building from neighbour lists gives the same graph. A path generator built with a node mapping, or with a dependency buffer used before for another ordering, behaves exactly like one built directly from the renamed ordering with a fresh buffer.",
["inputs","histories"],"all edge lists (with loops, multi-edges), mappings, and sequences of buffer reuse",
"One edge list and one mapping are tested.",
[R+"scheduler/space.rs",R+"scheduler/time.rs"],[("new_loop!/new_body!",R+"scheduler/space.rs"),("from_dependency_graph",R+"scheduler/time.rs")],None,["GraphBuffer::as_buffer","PathGenerator iteration"]),
P("C16","The file interface computes what the in-memory interface computes",
"Running on files gives, for every input and for each combination of the supported formats, an output file that deserialises to exactly the result of the in-memory run with the same options, creating missing parent directories and fully replacing an older file. An unknown format, a missing or a malformed input file yields an error, not a panic, and no output file (an older one is left as it was).",
["inputs","configurations"],"all problems, format combinations, option combinations, and corrupted input files",
"No test touches the file interface.",
[R+"interface.rs"],[("serialize_to_file, deserialize_from_file, create",R+"interface.rs")],None,["interface::run_serialized"]),
P("C17","The command line tool computes what the library computes",
"For every combination of its options, the command line tool writes the same result as the library call with the corresponding parameters and exits successfully; when inputs or options are invalid it exits with failure and leaves no result file behind.",
["inputs","configurations"],"all problems, formats and flag combinations (search, threads, timeout, task bound, probabilistic)",
"The binary is only compiled.",
[R+"main.rs",R+"cli.rs",R+"interface.rs"],[("argument parsing",R+"cli.rs"),("mapping to run_serialized",R+"main.rs")],None,["process exit status","output file"]),
P("C18","Results depend on the problem, not on its representation",
"Renaming nodes, reordering neighbour lists, layers or dependency lists, or listing dependencies that are already implied by transitivity does not change the trade-offs found. Adding an edge or a time constraint never improves any trade-off.",
["inputs"],"all problems and all equivalent or tightened representations, including sizes beyond brute force",
"Tests never compare two representations of a problem.",
[R+"search.rs",R+"scheduler/time.rs",R+"scheduler/space.rs"],[("dependency resolution",R+"scheduler/time.rs from_dependency_graph"),("search",R+"search.rs")],None,["interface::run"]),
P("C19","The Python binding is a faithful wrapper",
"Running through the Python binding gives exactly the paths of the Rust interface for the same arguments (timeout in seconds), whether the time ordering is the binding's own type or any object convertible to a plain graph. Problems and results are written down, and read, in the format of the Rust interface and its files. Accept functions of each kind behave like their Rust counterparts, a custom callable receiving the seven documented values in order, and an error in it never passing as an answer; inconsistent or unsupported configurations (unknown kind, missing parameters, custom callable with several threads) raise a value error.",
["inputs","configurations"],"all problems and argument combinations of the binding's run function and classes",
"The binding has only a demonstration script without assertions and is not built by the test suite.",
["python_lib/rust/src/lib.rs","python_lib/rust/src/probabilistic.rs"],[("run",  "python_lib/rust/src/lib.rs"),("AcceptFunc::to_real","python_lib/rust/src/probabilistic.rs")],None,["run","Paths","Path","AcceptFunc"]),
P("C20","The benchmark generator produces valid problems and honest statistics",
"Every random problem the results program generates is valid: a symmetric, loop-free graph and an acyclic, properly layered ordering over all its nodes, with the requested edge and correction densities. The runs are made on fresh problems, as many and of such sizes as the output says, with timeouts that together fit into the stated walltime; the means and deviations written (for the first, time-optimal, and the last, space-optimal, paths) are those of the results of the runs made, and the output names the parameters used.",
["inputs","configurations"],"all sizes, density types, density values and seeds",
"The results program has no tests and is not built by the test suite.",
["results/src/plots.rs","results/src/plots/density.rs","results/src/plots/node.rs"],[("get_graph, get_order, do_it","results/src/plots.rs")],None,["output/*.json","calls to interface::run"]),
P("C21","The task bound limits how many parallel tasks are split off",
"A multi-threaded search splits off at most `task_bound` tasks (100000 if none is given; each with its own first measurement set), plus the one task that covers all remaining first sets; together they cover every possible first measurement set exactly once.",
["inputs","configurations"],"all problems, thread counts and task bounds including 0 and bounds above the number of first sets",
"No test runs the threaded search.",
[R+"search/threaded.rs",R+"interface.rs"],[("task spawning loop",R+"search/threaded.rs search")],None,["interface::run(task_bound) with a custom accept function"]),
P("C22","The figures show what the results program has recorded",
"For every recording in the layout which the results program writes, the plotting scripts draw exactly the recorded numbers of the parameters in question: the mean costs (in the appendix with deviations) of each kind of schedule against the number of nodes, all of them inside of the axes and under the right label; the costs over edge and correction density, on one colour scale that covers all of them; and the run times in nanoseconds.",
["inputs"],"all recordings: sizes, numbers of exact searches, densities and values",
"The scripts have no tests.",
["results/plotting/nodes.py","results/plotting/densities.py","results/plotting/runtimes.py","results/plotting/utils.py","results/plotting/plot.py"],[("get_data",  "results/plotting/nodes.py"),("draw_images","results/plotting/densities.py"),("get_data","results/plotting/runtimes.py")],None,["output/*.pdf (what matplotlib is asked to draw)"]),
P("C23","The job scripts make every run once and keep its output",
"For every parameter file, the local script runs the results program exactly once with the words of each line, whatever becomes of the other runs, and each job of the array on the cluster runs it once with its own line, also while other jobs run. After a job, every file which the program (or the hardware query) wrote is in the output directory of the submission directory, older files there are left, and the scratch directory of the job - and nothing else - is removed. The array consists of the lines of the parameter file, different lines do not write to the same file, and a job reserves at least the walltime and the processors that the program counts on.",
["inputs","histories","configurations"],"all parameter files, job numbers, users and directories, and jobs that overlap in any way",
"The scripts have no tests.",
["results/scripts/exe_density_hpc.bash","results/scripts/exe_density_local.bash","results/scripts/exe_node_hpc.bash","results/scripts/hardware_info_hpc.bash","results/scripts/loop_hardware_info_hpc.bash","results/parameters","results/src/plots/density.rs","results/src/plots/node.rs"],[("choice of the line, scratch directory","results/scripts/exe_density_hpc.bash"),("one run per line","results/scripts/exe_density_local.bash"),("name of the output file, WALLTIME","results/src/plots/density.rs")],None,["calls of the results program","output/*"]),
P("C24","The more time-optimal patterns are tried first",
"At every point of a sweep or a search, the measurement sets that are possible next are tried from the largest to the smallest, beginning with everything that can be measured, so that the first complete path is the time-optimal one; the tasks which a parallel search splits off are those with the largest first sets, and are taken up in this order, before the remaining one. Hence a single-threaded (or not split up) exhaustive search which is stopped after it has found anything returns a path of the least possible time.",
["inputs","schedules"],"all problems, all moments at which a search is stopped, all task bounds",
"The tests look at completed searches only, or at the order for four nodes.",
[R+"interface.rs",R+"scheduler/combinatoric.rs",R+"scheduler/time.rs",R+"scheduler/tree.rs",R+"search.rs",R+"search/threaded.rs"],[("documentation of run: the algorithm always first tries the more time optimal patterns",R+"interface.rs"),("powerset of what is kept, from the empty set on",R+"scheduler/combinatoric.rs"),("next_and_focus",R+"scheduler/time.rs")],None,["order of Step::Forward in a Sweep","calls of a custom accept function","interface::run with a timeout"]),
]
with open("properties.jsonl","w") as f:
    for p in props:f.write(json.dumps(p)+"\n")
