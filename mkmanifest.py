#!/usr/bin/env python3
"""Writes MANIFEST.json and rules.json (what check.py puts into the evidence)."""
import json

GEN = ("Problems are made by construction (random graph; random acyclic dependencies, chains, "
       "layers, antichains; layered as documented; node labels, list orders, implied "
       "dependencies and nodes outside of the ordering varied). ")
INT = ("the problem has at least 3 ordered nodes, an edge, and its order is not a chain")

COMMON = ["inputs are valid problems: at least one node, simple symmetric graph, layered acyclic "
          "ordering without repeated dependencies",
          "the reference model in harness/src/model.rs is right (it shares no code with the "
          "library)"]

# id: (technique, rule, extra assumptions, level note)
CHECKS = {
 "C01": ("property-based testing against an independent schedule executor",
   GEN + "Run configurations (mode, threads, task bound, accept function, seed, timeout) are drawn "
   "with them. Non-trivial: " + INT + " and at least one path is returned.", [],
   "Every returned path of every generated run is executed by an independent model."),
 "C02": ("property-based testing against an independent schedule executor",
   GEN + "Run configurations as for C01. Non-trivial: " + INT + " and at least one path is "
   "returned.", [], "Costs are recomputed by an independent model, in both build profiles."),
 "C03": ("property-based testing against an independent longest-chain model",
   GEN + "Up to 600 nodes, some with more than 65 536. Non-trivial: at least 3 nodes and 2 levels.", [],
   "The single path is compared with the earliest level of every node."),
 "C04": ("property-based differential testing against an exact dynamic program",
   GEN + "Non-trivial: " + INT + " and the front has at least 2 points.", [],
   "The result is compared with the exact front from a dynamic program over down-closed sets."),
 "C05": ("property-based differential testing, with generated schedules of the worker threads",
   GEN + "Threads and task bound are drawn. In part 'schedule' the harness decides which worker "
   "takes the next steps, from a generated list. Non-trivial: " + INT + " and the front has at "
   "least 2 points; in part 'schedule': the schedule switched workers at least twice.",
   ["the schedule is controlled at the calls of the accept function only"],
   "Parallel and sequential results are compared, under free and under generated schedules. "
   "Interleavings inside of a step are left to the operating system."),
 "C06": ("property-based testing of an invariant of result lists",
   GEN + "Run configurations as for C01, searches only. Non-trivial: at least 2 paths.", [],
   "Every pair of neighbours in every returned list is compared."),
 "C07": ("property-based testing against a model of the filtered search tree",
   GEN + "Accept functions are pseudo-random predicates of their arguments, or constants. "
   "Non-trivial: " + INT + " (part 'trace': at least 10 calls; part 'frequency': probability "
   "strictly between 0 and 1).",
   ["the measured frequency of acceptance is compared with margins that random numbers exceed "
    "with probability below 1e-9 per case"],
   "What is found is compared with a brute-force search of the filtered tree; every call's "
   "arguments are compared with the model's."),
 "C08": ("property-based differential testing against the documented formula",
   "Arguments (integers up to the placeholder) and parameters are drawn. Non-trivial: the formula "
   "is defined and not zero.", ["floating point is compared with a relative tolerance of 1e-9"],
   "Values are recomputed from the documentation's formula."),
 "C09": ("property-based testing: repetition, and variation of the seed",
   GEN + "Non-trivial: " + INT + ", and at least 3 of the decisions were random "
   "(not in part 'not random'; at least 150 in part 'every bit').", [],
   "Runs are repeated (in both profiles, and in other processes) and traces of different seeds are compared."),
 "C10": ("property-based testing with generated timeouts, and accept functions that hold the "
         "search until the timer has expired",
   GEN + "Non-trivial, by part: a search of at least 18 nodes that the timeout has to stop "
   "(endless); the timer expires at a generated step and something had been found (kept); tasks "
   "are pending when it expires (pending); the first steps find something (known); " + INT + " (enough).",
   ["a search that has not stopped 15 s after a timeout of milliseconds, three times in a row, "
    "does not stop"],
   "Searches that would not end are stopped by the timeout in processes of their own; results "
   "known at expiry are compared with those returned."),
 "C11": ("property-based testing of generated start/query/drop histories of several threads",
   "Durations, query times and threads are drawn. Non-trivial: the timer is started and queried.",
   ["comparisons with the clock are one-sided, with margins of seconds for 'promptly'"],
   "Expiry is compared with the clock in the safe direction only."),
 "C12": ("property-based differential testing against brute-force enumeration; generated skips",
   GEN + "Skips are drawn. Non-trivial: at least 8 nodes of the tree are visited.", [],
   "The visited tree is compared with brute-force enumeration."),
 "C13": ("stateful property-based testing against a reference model",
   GEN + "Histories of valid and invalid instructions are drawn. Non-trivial: at least 2 accepted "
   "and 1 rejected instruction.",
   ["after Graph reports AlreadyMeasured, the graph's own state is unspecified and not used"],
   "After every instruction the whole observable state is compared with the model's."),
 "C14": ("stateful property-based testing against a reference model",
   "Graphs and sequences of measurement sets are drawn, independent of any ordering. Non-trivial: "
   "an edge and at least 2 applied sets.", [],
   "After every set, node states and memory are compared with the model's."),
 "C15": ("property-based differential and metamorphic testing",
   "Edge lists (with loops and repetitions), mappings, and sequences of buffer reuse are drawn. "
   "Non-trivial: at least 2 edges; a mapping or a used buffer with at least 3 nodes.", [],
   "Constructed graphs are compared with a model, mapped orderings with renamed ones."),
 "C16": ("property-based round trips and differential testing, generated corruption of files",
   GEN + "Formats, options, older files and corruptions are drawn. Non-trivial: " + INT + " and a "
   "path is written; the run is parallel (parameters); every corruption (errors); the search "
   "reaches the timeout (timeout); the result does not fit (no space).",
   ["malformed: cannot be deserialised as the expected type",
    "results that are not determined by the parameters are compared by validity only"],
   "Files written by the library are compared with the in-memory run."),
 "C17": ("property-based differential testing of the built program, generated command lines",
   GEN + "Options and their spelling are drawn. Non-trivial: " + INT + " and a path is written; "
   "every failure; no probabilistic run finds the front (probabilistic); the search reaches the "
   "timeout (effects); the result does not fit (no space).",
   ["that -p, -n and -b take effect is seen in results, thread counts and processor time"],
   "The program is built from the repository's main.rs and compared with the library."),
 "C18": ("metamorphic property-based testing",
   GEN + "Renamings, reorderings, implied dependencies and tightenings are drawn. Non-trivial: "
   + INT + " and the front has at least 2 points (or the run is direct).", [],
   "Results of related problems are compared with each other."),
 "C21": ("property-based testing of the set of tasks, seen through the accept function",
   GEN + "Pendant nodes make every state recognisable by its memory. Non-trivial: at least 3 "
   "possible first sets (tasks), " + INT + " (coverage).", [],
   "The calls of an accept function that refuses everything show which tasks there are."),
 "C19": ("property-based differential testing of the binding against the library, observed calls, "
         "stateful testing of the wrapper objects",
   GEN + "Arguments (positional, by keyword or left out), accept functions of all kinds, callables, "
   "orderings of the binding's own and of foreign types, and kind names are drawn. Non-trivial, by "
   "part: the problem and the answer are not empty (calls); " + INT + " and a path is returned "
   "(results); the configuration is inconsistent (refused); at least 2 operations (objects); the callable is "
   "called and fails (failing); every "
   "case (accept, package).",
   ["the binding's sources are compiled against stand-ins for pyo3 and pauli_tracker_pyo3 "
    "(binding/pyo3, binding/macros, binding/pauli_tracker_pyo3), which do with the annotated "
    "functions and classes what pyo3's documentation says"],
   "The binding's sources are compiled against stand-ins for pyo3, calls are made on dynamic "
   "values; the conversion by the real pyo3 is not exercised."),
 "C20": ("property-based testing of the built program against recorded calls: validity, exact tail "
         "bounds for the distribution, recomputed statistics",
   "Command lines of the results program (mode, density types and values, sizes) and the results "
   "that its searches get are drawn; each run makes 63000 (density) or 132000 (node) problems. "
   "Non-trivial: some problems have edges and some have dependencies.",
   ["the results program is compiled with a run function that records the problems and answers "
    "with generated results; the real search is C01-C12's matter",
    "the program seeds itself, so that a replay draws other problems of the same kind",
    "statistical margins are wrong less than once in 1e15"],
   "The program is built from the repository's sources against a recording library."),
 "C22": ("property-based testing (Hypothesis) of the plotting scripts with a recording stand-in for "
         "matplotlib",
   "Recordings as the results program writes them are drawn (numbers of sizes, of exact searches, of "
   "densities; values; parameters). Non-trivial: at least 2 densities, and exact searches for some but "
   "not all sizes.",
   ["matplotlib is not available; a stand-in keeps what the scripts ask it to draw",
    "means lie between 1 and the number of nodes, as costs do"],
   "Everything that is drawn is compared with the recording."),
 "C23": ("stateful property-based testing (Hypothesis) of the job scripts with stand-ins for the queue "
         "and the results program",
   "Parameter files, directories, users, job numbers, and orders of jobs that run one after another or "
   "during each other are drawn. Non-trivial: at least 2 lines (local), 2 jobs (array, single, hardware); "
   "every case (program).",
   ["the queue is a stand-in, which sets the variables that PBS sets and starts a job while the program "
    "of another one runs; jobs do not overlap within their other commands",
    "the directory of the scratch directories is replaced in the scripts' text"],
   "The scripts run as an unprivileged user in a directory of their own."),
 "C24": ("property-based testing of the order of steps: sweeps, calls of the accept function, stopped "
         "searches",
   GEN + "Accept functions, task bounds and timeouts are drawn. Non-trivial: 3 steps at one node "
   "(sweep, trace); " + INT + " and a path is found (first); there are tasks and something is left to "
   "the remaining one (tasks); something is found (stopped).",
   ["a worker may be late with the first call of the task it has taken up"],
   "Sizes of successive steps are compared, the first path with the earliest level of every node."),
}
NOT_APPLICABLE = {}

rules = {k: {"rule": r, "assumptions": COMMON + a} for k, (_, r, a, _) in CHECKS.items()}
json.dump(rules, open("rules.json", "w"), indent=1)
open("rules.json", "a").write("\n")
manifest = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{
   "property": k,
   "quick_cmd": f"python3 check.py {k}",
   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {k}",
   "technique": t,
   "level": "exploration",
   "level_note": n,
 } for k, (t, _, _, n) in CHECKS.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
 "notes": "No hooks in /repo: everything is observed through its public interface.",
}
json.dump(manifest, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
