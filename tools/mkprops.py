import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=m,where=files[min(i,len(files)-1)]) for i,m in enumerate(mech)],**kw))
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Every experiment gets a result folder of its own",
"Every observer that is created gets a result folder that did not exist before and that no other observer, in the same process or in any other process running at the same time, ever gets, however many of them ask for the same folder name. Nothing that was in the output directory before (finished experiments, leftovers of killed ones, plain files) is modified, truncated or removed by a later experiment.",
["schedules","crash_points","histories"],
"all interleavings of up to four processes creating observers with colliding folder names at file-system-call granularity, all pre-existing directory contents, all kill points and restarts",
"The unit tests create folders one after another in one process; no test runs two processes, and none inspects what a second experiment does to the data of the first.",
["src/coco_utilities.c","src/coco_observer.c","src/observer_bbob.c","src/observer_biobj.c","src/observer_rw.c","src/observer_toy.c"],
["coco_create_unique_directory claims the folder with an exclusive mkdir and appends -0001.. on EEXIST","coco_observer stores the claimed folder; all loggers build their paths from it"])

p("C02","Logged results survive a kill of the experiment at any moment",
"When the experiment process is killed at an arbitrary moment, every data record that the single-objective, real-world and toy loggers owe for an evaluation that had already returned, and every entry of the archive of all non-dominated solutions, is completely and correctly in its file. What is in the files is a prefix of what the uninterrupted experiment would have written, except that the last line of a file may be cut short; nothing recorded earlier is lost or damaged, also when the experiment is started again with the same settings.",
["crash_points","schedules","histories"],
"every seam call and byte boundary of a write as a kill point, over generated experiments and write-splitting choices",
"No test kills the process: the tests only read files after the loggers were closed, when the C library has flushed everything anyway.",
["src/logger_bbob.c","src/logger_rw.c","src/logger_toy.c","src/logger_biobj.c"],
["fflush after each data line in logger_bbob_output, per evaluation in logger_rw and logger_toy, per archive update in logger_biobj_output"])

p("C03","Single-objective logs are an exact record of the experiment",
"For every observed single-objective problem, the data files contain exactly the records owed by the documented triggers: the first evaluation, each newly reached target, each evaluation count on the logarithmic and base grids, each restart, each target-reaching recommendation, and the final state when it was not recorded. Each record carries the true evaluation counts, best value so far, measured value, constraint digits and solution; and the index file names every problem instance once with its total number of evaluations and final precision.",
["histories","inputs","configurations"],
"all sequences of evaluations (any points, including infinite and NaN coordinates), constraint evaluations, recommendations, restarts, observer options and problem orders, across suites with known and unknown optima, constraints, integer variables and noise",
"Unit tests exercise the triggers in isolation and one short logger run; regression data exist for a few fixed runs only, and no test relates file contents to an arbitrary call history.",
["src/logger_bbob.c","src/observer_bbob.c","src/coco_observer.c"],
["logger_bbob_evaluate / logger_bbob_recommend / logger_bbob_free drive coco_observer_targets_trigger and coco_observer_evaluations_trigger","observer_bbob_data_t.last_function/last_dimension decide when a new index line and new data files start"])

p("C04","Bi-objective logs are an exact record of the experiment",
"For every observed bi-objective problem, the archive of all solutions lists exactly the evaluated points that were non-dominated when evaluated, the final archive lists exactly the non-dominated set of all evaluated points, and the indicator files contain exactly the records owed by the target, evaluation-count and restart triggers with the correct indicator value. Feeding recorded solutions back instead of evaluating them yields the same archives and indicator records.",
["histories","inputs","configurations"],
"all evaluation, recommendation and restart histories, archive and variable logging options, on the bi-objective suites, including points of interest beyond nadir, repeated and dominated points",
"The unit tests feed a handful of hand-written points and check the hypervolume of small sets; file contents are compared for a few fixed runs only.",
["src/logger_biobj.c","src/observer_biobj.c","src/mo_avl_tree.c","src/mo_utilities.c"],
["logger_biobj_tree_update / logger_biobj_indicators_update keep the archive and hypervolume incrementally","logger_biobj_finalize writes the last records and the final archive"])

p("C05","Full-history and toy logs are an exact record of the experiment",
"The real-world logger writes exactly one line per evaluation (or per improvement when so configured), in order, with the evaluation counts, objective values and, when enabled, the solution, constraint values and elapsed time; the toy logger writes exactly one line for each newly reached target of each problem, in order. Options that switch parts of a line off remove that part only.",
["histories","inputs","configurations"],
"all evaluation histories, logging options, suites, and clock behaviours including jumps",
"No test reads the files of either logger against the history of calls that produced them.",
["src/logger_rw.c","src/observer_rw.c","src/logger_toy.c","src/observer_toy.c"],
["logger_rw_evaluate writes and flushes one line per call","logger_toy_evaluate shares one file among all problems of an observer"])

p("C06","Observing a problem never changes the problem",
"A problem to which an observer is attached returns the same objective and constraint values, identity, bounds, evaluation counts and target-hit status for the same calls as the same problem without an observer. This holds for every observer, any stacking of observers, attaching and detaching at any moment, and also while writing the log fails. (Recommendations, which evaluate the problem underneath in order to log it, may draw from the noise of a noisy problem.)",
["histories","inputs","fault_sequences","configurations"],
"all call histories and all log-device failures that leave the process running, for each observer and suite",
"No test compares an observed with an unobserved problem call by call, and none lets the log device fail.",
["src/coco_problem.c","src/logger_bbob.c","src/logger_biobj.c","src/logger_rw.c","src/logger_toy.c","src/coco_observer.c"],
["loggers are transformed problems that forward to the inner problem and keep their own state","coco_problem_add_observer / coco_problem_remove_observer"])

p("C07","Function values depend on the problem and the point only",
"Evaluating a non-noisy problem at a point gives bit-identical objective and constraint values no matter what was evaluated before, which other problems, suites, random generators or observers are open or were opened before, in which order they were created, which way the problem was obtained, what uninitialised memory contained, and what other processes do. The stream of numbers of a random generator likewise depends on its seed and its own draws only.",
["histories","schedules","inputs","configurations"],
"all interleavings of operations on several live problems, suites and generators, over all suites, functions, dimensions and instances, and all initial memory contents",
"The tests evaluate each problem once, freshly created, in a fixed order and compare with one stored value.",
["src/coco_suite.c","src/coco_problem.c","src/suite_bbob.c","src/suite_biobj.c","src/suite_cons_bbob.c","src/suite_bbob_mixint.c","src/suite_largescale.c","src/f_gallagher.c","src/transform_vars_permblockdiag.c","src/coco_random.c"],
["each problem owns its data; per-problem workspaces in transformations","file-level static state in suite_bbob_legacy_code.c, transform_vars_permutation_helpers.c, coco_string.c"])

p("C08","Evaluation accounting is exact",
"A problem's counters of objective and constraint evaluations equal the number of such calls made on it with a valid (finite, non-NaN) point, independently of each other; recommendations and calls with invalid points do not count. The best observed value is the minimum objective value of the counted feasible evaluations and never increases, and the final target counts as hit exactly when that value has come within the documented precision of the optimum.",
["histories","inputs","configurations"],
"all histories of evaluations, constraint evaluations, recommendations and invalid points on all suites, observed or not, with problems interleaved",
"The tests check counters after a few calls on one problem of one suite.",
["src/coco_problem.c","src/coco_suite.c"],
["coco_evaluate_function, coco_evaluate_constraint, coco_recommend_solution, coco_problem_final_target_hit"])

p("C09","A sweep over a suite visits every selected problem exactly once",
"Iterating over a suite returns every problem selected by the suite's options exactly once and in the documented order, instances varying fastest, then functions, then dimensions, then signals the end; a year stands for the instances of that year's workshop; direct access by index or by function, dimension and instance gives the same problem, index encoding and decoding are inverse to each other, and a combination outside the selection is refused. Freeing problems or suites, creating others, and access by index between the steps do not disturb the sweep.",
["histories","configurations"],
"all filter strings of the option language (ranges, lists, years) over all suites and all interleavings of sweep, lookup, create and free",
"The tests count problems for a few filters and never interleave two sweeps or look-ups with a sweep.",
["src/coco_suite.c","src/coco_string.c","src/coco_utilities.c"],
["coco_suite_get_next_problem with the three current indices, coco_suite_filter_dimensions / filter_ids, coco_suite_encode_problem_index / decode"])

p("C10","Batches of a parallel experiment partition the problems",
"When an experiment is split into any number of batches that are run as separate processes in any order, each selected problem is executed by exactly one batch and all repetitions and instances of the same function and dimension fall into the same batch, the batches differing by at most one function/dimension pair. A batch that is killed and run again executes the problems it had before, and several schedulers, in one process or in separate ones, do not influence each other.",
["schedules","crash_points","configurations"],
"all numbers of batches, problem lists, execution orders and interleavings of the batch processes, kills and reruns",
"The doctest of the scheduler runs a single configuration in a single process.",
["build/python/src/cocoex/utilities.py"],
["BatchScheduler.is_in_batch counts function/dimension changes and resets at the first problem"])

p("C11","Failing allocations and file operations stop the run cleanly",
"When an allocation, a directory creation or the opening of a file needed for logging fails, the call that needed it ends the process with a failure status and an error message, never with a crash, a hang, silently missing output or a wrong result. Records that were complete before the failure remain in the files.",
["fault_sequences","histories"],
"every allocation, directory and open call of generated experiments as failure point",
"No test makes an allocation or a file operation fail.",
["src/coco_runtime_c.c","src/coco_utilities.c","src/logger_bbob.c","src/logger_biobj.c","src/logger_rw.c","src/observer_toy.c"],
["coco_allocate_memory and the open helpers call coco_error, which terminates the process"])

p("C12","A failing log device affects only the log",
"When writing log data fails (full or broken disk, short writes, errors on flush or close), the process does not crash or hang, the returned values and counters stay correct, and other result files stay correct. Data written before the failure stays intact, and once the device works again later problems are recorded correctly, or the run ends with an error message.",
["fault_sequences","histories"],
"all sequences of write failures (transient and permanent, on one file or the whole device) over generated experiments",
"No test makes a write fail.",
["src/logger_bbob.c","src/logger_biobj.c","src/logger_rw.c","src/logger_toy.c"],
["loggers ignore the results of fprintf, fflush and fclose and re-open files per problem"])

p("C13","Every legal lifecycle releases everything and touches nothing freed",
"For every legal order of creating, using and freeing suites, observers, problems, archives and random generators, including freeing the observer or the suite while a problem is still observed, detaching observers and abandoning sweeps midway, no memory is accessed after it was released or out of bounds, and once all objects are freed no memory, open file or directory handle is left.",
["histories","configurations"],
"all legal orders of lifecycle operations over all suites and observers, under all initial memory contents",
"The tests create and free objects in one canonical order and do not measure what is left.",
["src/coco_suite.c","src/coco_observer.c","src/coco_problem.c","src/coco_archive.c","src/observer_bbob.c","src/observer_biobj.c"],
["ownership chain of transformed problems in coco_problem_free","mutual unlinking of observer and observed problem"])

p("C14","Directory removal removes that tree and nothing else",
"Removing a directory (given by its name, not by a link to it) deletes that directory and everything in it, deletes and changes nothing outside of it whatever links the tree contains, and reports success only when the directory no longer exists. Under failing system calls it neither crashes nor leaks handles nor reports success for a directory that is still there.",
["fault_sequences","inputs"],
"all directory trees (nested, hidden names, symbolic links in and out of the tree) and all failure points of the system calls involved",
"The tests remove one freshly created directory with regular files, with no fault.",
["src/coco_utilities.c"],
["coco_remove_directory_portable recursion over readdir with stat and unlink"])

p("C15","The same experiment writes the same files",
"An experiment with fixed settings writes byte-identical result files each time it is run, apart from recorded running times: independent of the wall clock and its jumps, the process id and environment, uninitialised memory, buffer sizes and how writes are split, earlier experiments in the same process, and other processes running at the same time.",
["schedules","histories","configurations"],
"all generated experiments run under pairs of different clocks, memory contents, write splittings, histories and neighbours",
"The regression tests compare with stored data of a few runs, on one machine, one process, one clock.",
["src/logger_bbob.c","src/logger_biobj.c","src/logger_rw.c","src/logger_toy.c","src/coco_observer.c","src/coco_suite.c"],
["all logged quantities derive from the call history; the only clock reads are the progress banner and the optional timing column"])

p("C16","The non-dominated archive is exact and order-independent",
"After any sequence of additions, an archive contains exactly the non-dominated ones among the extreme points and the added points that it accepted, reports for each addition whether it was accepted, has the hypervolume of that set, and lists every contained solution exactly once. The same points in any order give the same set and the same hypervolume up to rounding.",
["histories","inputs"],
"all sequences of additions (ties, duplicates, dominated, dominating several, beyond the reference point) interleaved with queries, and several archives in use at once",
"The unit test adds a few fixed points in one order.",
["src/coco_archive.c","src/mo_avl_tree.c","src/mo_utilities.c"],
["coco_archive_add_solution prunes dominated neighbours in the AVL tree; coco_archive_update recomputes the hypervolume"])

p("C17","Looking up the optimum disqualifies the problem from benchmarking",
"Once the location of the optimum of a single-objective problem has been requested, no further evaluation of that problem under a benchmarking (bbob-type) observer is performed or recorded: the run is stopped with an error. The same holds when the optimum was requested before or after the observer was attached, through the observed problem or through the problem underneath. Other problems are unaffected, and a problem whose optimum was never requested is never refused. Where the optimum is printed to a file, that file holds the optimum of exactly the requested problem, through any layer of observers; for bi-objective problems, which have no single optimum, printing gives the optima of the two objectives or nothing, and never disturbs the process or foreign memory.",
["histories","configurations"],
"all orders of optimum requests, attaching and detaching observers and evaluations, on all suites and observers",
"The unit tests check one order on one observer.",
["src/coco_problem.c","src/coco_observer.c","src/logger_bbob.c","src/logger_biobj.c"],
["is_tainted flag copied to transformed problems and checked on evaluation"])

p("C18","Noise is reproducible and logs stay noise-free",
"With the noise seeds reset, the same sequence of operations on noisy problems gives bit-identical values, whatever the clock, memory or other processes do; the noise stream is consumed only by evaluations of and recommendations on noisy problems, so observing, sweeping or using noise-free problems between them does not change it. Logs of directly observed noisy problems record noise-free values, identical for every state of the noise generator.",
["histories","schedules","configurations"],
"all evaluation histories on the noisy suite interleaved with operations on other problems, observers and generators, and all noise seeds",
"The tests evaluate noisy problems once in a fixed order.",
["src/suite_bbob_noisy.c","src/suite_bbob_noisy_utilities.c","src/transform_obj_gaussian_noise.c","src/transform_obj_uniform_noise.c","src/transform_obj_cauchy_noise.c","src/logger_bbob.c"],
["global seeds of the noise generators, coco_reset_seeds, last_noise_free_values"])

p("C19","Repeated sweeps of an experiment terminate and stay balanced",
"A repeated experiment ends: once every problem was solved often enough, or its budget or the sweep limit is exhausted, the repeater reports done, and it never reports done before; it never starts more sweeps than its limit. In each sweep exactly the problems that still lack trials or budget are run, so that restarts are spread evenly over the instances.",
["histories","configurations"],
"all outcomes (solved, unsolved, aborted before the first evaluation) of all problems in all sweeps and all repeater settings",
"The doctest runs one random search with one setting.",
["build/python/src/cocoex/utilities.py"],
["ExperimentRepeater.track / done, per-problem result lists"])

p("C20","Budget-wise benchmarking records each evaluation count once",
"When a solver is benchmarked over a sequence of increasing budgets, every evaluation returns the true value of the problem, and a call is recorded by the observer exactly when its count within the current budget exceeds everything recorded before, so that each evaluation count is recorded once and in order. A delivered solution that improves on or differs in value from the best recorded one is always recorded, deliveries out of budget order are refused, and both underlying problems are released at the end, also when the solver fails midway.",
["histories","fault_sequences"],
"all sequences of budgets, calls, deliveries, resets and solver failures, over all observed values",
"No test uses the class.",
["build/python/src/cocoex/utilities.py"],
["ProblemNonAnytime switches between an observed and an unobserved copy of the problem"])

p("C21","Python interface is faithful and safe in any order of use and collection",
"Through the Python package, every suite, problem, observer and bare problem gives what the same calls of the C library give: the same problems in the same order, the same values, counters, properties and log files, with results that are copies and arguments that are left unchanged. This holds whatever the order in which objects are created, aliased, freed, dropped, put into reference cycles, garbage-collected or alive when the interpreter ends, and wherever user code raises. Using a freed problem or passing a wrong-sized or non-numeric point raises a Python exception and never reads foreign memory or ends the interpreter; creating a Suite restarts the noise sequences; and once nothing refers to an object, what it held in the library is released and its log files are complete.",
["histories","crash_points"],
"all sequences of calls on suites, problems, observers and bare problems, all argument types and shapes, all moments of garbage collection and interpreter exit",
"The doc tests use a few short sequences with references that live until the end.",
["build/python/src/cocoex/interface.pyx","build/python/src/cocoex/bare_problem.pyx","build/python/src/cocoex/__init__.py"],
["Suite, Problem and Observer wrap C objects that refer to each other; their lifetime is decided by reference counting and the collector"])

p("C22","Java and MATLAB bindings are faithful and memory-safe",
"Every native method of the Java interface and every function of the MATLAB/Octave interface returns what the same call of the C library returns (problems, values, counters, properties, log files), for arrays that the host hands out as copies or in place, and leaves the arrays it is given unchanged. A point that is null, of the wrong size or of the wrong type gives an error of the host language and changes nothing in the library. No call reads or writes outside its arrays, keeps or leaks what it borrowed from the host, calls the host while an exception is pending, or ends the host process, also when the host runs out of memory at any of its allocations during the call.",
["histories","inputs","fault_sequences"],
"all sequences of legal calls of both interfaces on valid handles, all sizes and types of points, every failing allocation of the host",
"No test runs these interfaces.",
["build/java/CocoJNI.c","build/matlab/cocoCall.c"],
["JNI and mex wrappers around the C library"])

p("C23","Suites used in separate threads do not influence each other",
"Threads of one process that share no suite, problem, observer, archive or generator - which the Rust interface allows by making suites and problems sendable - get exactly the results, problem properties and log files that each of them gets alone, however their execution interleaves, and none of them crashes, corrupts memory or changes what another one sees. (Noisy problems draw from one noise stream per process and are excluded.)",
["schedules","histories"],
"all interleavings, at any instruction block, of all pairs and triples of operation histories on separate objects, and all suites except the noisy one",
"All tests are single-threaded.",
["src/coco_string.c","src/transform_vars_permutation_helpers.c","src/suite_bbob_legacy_code.c","src/coco_utilities.c","src/coco_suite.c","build/rust/src/suite.rs"],
["no mutable state outside the objects passed to the functions, except log level and noise seeds"])

p("C24","Rust interface is faithful, panics on misuse and is memory-safe",
"Through the Rust crate, every suite, problem, observer and random state gives what the same calls of the C library give: the same problems in the same order, the same values, counters, properties, random numbers and log files; every suite and observer the crate names exists. This holds for every order of creating, cloning, using and dropping that the borrow rules allow (a toy observer must outlive the problems it observes, and a bbob observer their first evaluation); what an object held in the library is released when it is dropped and only then. A slice of the wrong length or a string with a null character panics and changes nothing in the library, arguments are not modified, and no call of safe code reads or writes foreign memory.",
["histories","inputs"],
"all sequences of calls of safe code that are not errors of the C library, all lengths of slices, all orders of drops",
"No test runs the crate.",
["build/rust/src/suite.rs","build/rust/src/problem.rs","build/rust/src/observer.rs","build/rust/src/random.rs","build/rust/coco-sys/wrapper.c","src/coco_observer.c"],
["Suite, Problem, Observer and RandomState own C objects and free them when dropped; coco_suite_forget_current_problem hands ownership to Rust"])

p("C25","Options mean what they say",
"Every option given to coco_suite (instance and option string) or coco_observer has the effect of its value and no other, wherever it stands in the string, however the spaces around it are placed, and whatever the other values are, including quoted text that looks like options and values of any length. An unknown option, an option without a value, and an option with an unsuitable value are ignored (an unknown one with a warning that names it, and without one no such warning), and of two contradicting options of a suite (year and instances, dimensions and dimension_indices) the one that comes first applies. Lists and the ranges that abbreviate them mean the same, and a list counts up to its first malformed part (as if it were not given if nothing is left). So two strings that say the same give the same problems, values and log files, byte for byte, whatever uninitialised memory holds, and no option string makes the library read or write outside its buffers.",
["inputs","histories"],
"all orders, spacings and decorations of all option strings of all suites and observers, all lengths of values, all contents of uninitialised memory, all histories after them",
"The tests give a few short, well-formed strings and look at few effects; nothing compares whole experiments.",
["src/coco_utilities.c","src/coco_observer.c","src/coco_suite.c","src/observer_bbob.c","src/observer_biobj.c","src/observer_rw.c","src/observer_toy.c"],
["coco_options_read and its relatives search the string for the name and scan the value into a buffer; coco_option_keys finds the unknown ones"])

p("N01","Test functions conform to their published definitions",
"Each function of each suite computes the values of its published definition, and its stated optimum is its true optimum.",
["inputs"],
"all points, instances and dimensions of all suites",
"The tests compare a stored sample of points and instances.",
["src/f_sphere.c","src/f_gallagher.c","src/suite_bbob.c"],
["pure functions of the point"])

with open(ROOT + '/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
