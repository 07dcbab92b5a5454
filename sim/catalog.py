"""What each check runs for real and what it stubs (goes into the evidence)."""
REAL = ["the C library built from /repo/src (suites, problems, transformations, observers, loggers, archive, random numbers, runtime)", "glibc stdio on top of the simulated files"]
STUB = ["file system (in-memory, with injected errors, full disk, short and torn writes)", "memory allocator (order and content of allocations, injected failures)",
        "clock, process id", "process creation and death (each simulated process is a fiber with its own copy of the library's data)", "the optimizer (generated operations)"]
ASSUME = ["the reference instance is the same build, run without faults and without history", "a kill loses what was not handed to the operating system by write(2), and nothing else",
          "function definitions themselves are not judged (N01)"]
CATALOG = {p: {"sim": "c", "real": REAL, "stub": STUB, "assume": ASSUME} for p in
           ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C25"]}
PYREAL = ["the Python module of /repo's cocoex package that defines the class under test"]
PYSTUB = ["the compiled interface (suite and problems are recorded stand-ins)", "clocks", "process death between calls"]
for p in ("C10", "C19", "C20"):
    CATALOG[p] = {"sim": "python", "real": PYREAL, "stub": PYSTUB, "assume": ["the stand-in problems behave like the compiled interface's documented behaviour"]}
CATALOG["C21"] = {"sim": "pyx", "gate": 8, "real": ["the compiled Python interface (interface.pyx, bare_problem.pyx) and package of /repo/build/python", "the C library", "CPython, numpy"],
                  "stub": ["when the garbage collector runs, references are dropped, user code raises and the interpreter ends (decided by the plan)", "exit() of the library", "allocator (counted)"],
                  "assume": ["the reference model of the interface (sim/pyxsim.py) calls the same C library", "an observer observes one open problem at a time, as documented"]}
CATALOG["C22"] = {"sim": "bind", "gate": 8, "real": ["the native code of the Java interface (build/java/CocoJNI.c) and of the MATLAB/Octave interface (build/matlab/cocoCall.c)", "the C library"],
                  "stub": ["the Java virtual machine and MATLAB (sim/host): strings, arrays, exceptions, failing allocations, copied or pinned arrays", "exit() of the library", "allocator (counted)"],
                  "assume": ["the stand-in hosts follow the documentation of JNI and of the MATLAB C API", "handles passed to the interface are valid, as for the C library"]}
CATALOG["C24"] = {"sim": "rust", "gate": 8, "real": ["the Rust crate (build/rust/src) and the C file of its sys crate, compiled by rustc", "the C library"],
                  "stub": ["the foreign function declarations (generated from coco.h instead of by bindgen)", "the user's program (the plan decides what is created, used and dropped in which order, and which calls are wrong)",
                           "exit() of the library", "allocator (counted)"],
                  "assume": ["the reference model (sim/rustsim.py) calls the same C library", "a toy observer outlives the problems it observes", "calls that are errors of the C library (coco_error) are not made"]}
CATALOG["C23"] = {"sim": "c", "real": REAL, "stub": STUB + ["threads (fibers on the library's shared data, preempted at basic blocks by the plan; a preemption inside a basic block or inside libc is not simulated)"],
                  "assume": ASSUME + ["libc itself is thread-safe where its documentation says so; the static buffers of the functions for which it does not (strtok, localtime ...) are shared by the simulated threads"]}
