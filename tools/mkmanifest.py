"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
"C01": "Up to four simulated processes race for folder names at file-system-call granularity, with pre-populated output folders, kills and restarts.",
"C02": "Kill points at every seam call and inside writes; the surviving files are compared with an independent model of the log.",
"C03": "An independent reference model of the bbob-type log recomputes every file byte for byte from the recorded call history.",
"C04": "An independent reference model of the bi-objective log (archives, hypervolume, triggers); indicator values compared up to rounding.",
"C05": "An independent reference model of the rw and toy logs.",
"C06": "The same calls run with and without observers, including failing log devices; the two histories must be bit-identical.",
"C07": "Values in a busy interleaved world against values of a fresh process that only evaluates that point.",
"C08": "A small model of the counters, best value and target status is run beside every call.",
"C09": "An independent parser of the selection options gives the expected sweep; index arithmetic is checked against it.",
"C10": "Real BatchScheduler objects in simulated processes with interleaving, kills and re-runs.",
"C11": "One injected allocation or file-operation failure per run; outcome must be completion with correct output or a clean error exit.",
"C12": "Injected write, flush and close errors, short writes and a full disk; values, other files and later problems checked.",
"C13": "Tracked heap with guard zones, poisoning and quarantine over generated lifecycles; leak accounting at the end.",
"C14": "Generated trees with links and concurrent failing system calls on the in-memory file system; nothing real is touched.",
"C15": "The same plan under different clocks, process ids, memory contents, buffer sizes and neighbours; files compared bytewise.",
"C16": "Reference archive by brute-force dominance and exact hypervolume, over generated insertion orders.",
"C17": "Tainting at generated points of generated histories; the process must stop at the next observed evaluation and only then.",
"C18": "Noise streams compared between runs with different bystanders; logs compared between different noise states.",
"C19": "Real ExperimentRepeater driven by generated outcomes; a reference model decides which problems may run and when it ends.",
"C20": "Real ProblemNonAnytime on stand-in problems with generated budgets, solver failures and deliveries.",
"C21": "The compiled package and a reference model on the C library run the same plan, which decides every reference drop, cycle, collection, exception and the end of the interpreter; address sanitizer and allocation counts watch the package.",
"C22": "The bindings run inside stand-ins for the Java virtual machine and MATLAB that count, check and fail what the native code asks of its host; results, files and allocations are compared with a reference model on the C library.",
"C23": "Threads of one simulated process are fibers that share the library's data and are preempted at basic blocks chosen by the plan; histories and files are compared with those of each thread alone.",
"C24": "The crate, compiled by rustc and driven by safe code, and a reference model on the C library run the same plan, which decides every creation, drop and wrong call; address sanitizer and allocation counts watch the library.",
"C25": "The same experiment is simulated with plain option strings and with strings decorated in ways that must not matter, under generated contents of uninitialised memory; histories and files are compared bytewise.",
}
ASSUME = " Seeded search, not exhaustive: it shows absence of violations on the explored runs only. Trusts the simulated file system, allocator and clock, and the reference models in /verif/sim."
checks = [dict(property=p, quick_cmd=f"python3 sim/check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 sim/check.py {p}",
     technique="deterministic simulation with fault injection (seeded search over schedules, histories and faults)",
     level="exploration", level_note=n + ASSUME) for p, n in NOTES.items()]
json.dump(dict(version=1, setup_cmd="python3 sim/build.py", checks=checks,
  not_applicable=[dict(property="N01", reason="The functions are pure computations of a point: no concurrency, time, I/O, randomness or history is involved, so there is no schedule or fault to simulate; conformance to the published formulas is an input-coverage question for another technique. (Dependence on anything but the point is C07.)")],
  notes="No hooks in /repo: all seams are libc calls, intercepted when the amalgamated sources are linked."),
  open(ROOT + '/MANIFEST.json', 'w'), indent=1)
