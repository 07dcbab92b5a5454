"""Builds the simulator against /repo's current working tree (cached by content hash)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import amalgamate

REPO = os.environ.get("COCO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NLIBS = 6
SEAMS = """__assert_fail _exit abort access asctime asprintf atexit calloc chdir chmod clock clock_gettime close closedir creat ctime
drand48 exit fclose fdopen fflush fileno fdatasync fopen fopen64 fork free freopen fstat fsync ftruncate ftruncate64 getcwd getenv getpid gettimeofday gmtime kill link localtime lseek lstat
malloc mkdir mkdtemp mkstemp nanosleep open open64 opendir pclose perror popen printf putchar puts raise rand random read readdir realloc
remove rename rewinddir rmdir setenv setvbuf signal sleep srand srand48 srandom stat stderr stdin stdout strdup strndup strtok symlink
system time tmpfile truncate unlink usleep vasprintf vprintf write""".split()
SIM_SRC = ["kernel.cpp", "seams.cpp", "interp.cpp", "models.cpp", "biobj.cpp", "gen.cpp", "props.cpp", "main.cpp"]

SHIM = """
#line 1 "shim"
double sim_shim_best_value(coco_problem_t *p, int i) { return p->best_value ? p->best_value[i] : 0.0 / 0.0; }
double sim_shim_noise_free(coco_problem_t *p, int i) { return p->last_noise_free_values ? p->last_noise_free_values[i] : 0.0 / 0.0; }
"""

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fo:
            h.update(fo.read())
    return h.hexdigest()[:20]

def source_files():
    return [f for f in glob.glob(REPO + "/src/**", recursive=True) if os.path.isfile(f) and f.endswith((".c", ".h"))]

def flags_extra():
    return os.environ.get("SIM_CFLAGS", "").split()

def build(quiet=True):
    """returns the directory with cocosim and libcoco_*.so"""
    os.makedirs(BUILD, exist_ok=True)
    simfiles = [f for f in glob.glob(HERE + "/*") if f.endswith((".cpp", ".h"))]
    kl = digest(source_files() + [os.path.join(HERE, "amalgamate.py"), os.path.join(HERE, "build.py")]) + "".join(flags_extra())
    ks = digest(simfiles + [os.path.join(HERE, "build.py")])
    libdir, simdir = os.path.join(BUILD, "lib-" + kl), os.path.join(BUILD, "sim-" + ks)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        if not os.path.exists(simdir + "/ok"):
            os.makedirs(simdir, exist_ok=True)
            for s in SIM_SRC:
                if os.path.exists(os.path.join(HERE, s)):
                    jobs.append((s, subprocess.Popen(["g++", "-std=c++17", "-O2", "-fno-omit-frame-pointer", "-g1", "-Wall", "-Wno-unused-function", "-ffp-contract=off", "-c", os.path.join(HERE, s), "-o", "%s/%s.o" % (simdir, s)],
                                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if not os.path.exists(libdir + "/ok"):
            os.makedirs(libdir, exist_ok=True)
            amalgamate.amalgamate(REPO + "/src", amalgamate.CORE, libdir + "/coco.c")
            # read-only accessors used by the reference models (optional: the models degrade without them)
            plain = open(libdir + "/coco.c", encoding="utf-8").read()
            with open(libdir + "/coco.c", "a", encoding="utf-8") as f:
                f.write(SHIM)
            if subprocess.run(["gcc", "-fsyntax-only", "-w", "-I", REPO + "/src", libdir + "/coco.c"], stderr=subprocess.DEVNULL).returncode:
                open(libdir + "/coco.c", "w", encoding="utf-8").write(plain)
            with open(libdir + "/syms", "w") as f:
                for s in sorted(set(SEAMS)):
                    f.write("%s sim_%s\n" % (s, s))
            # with assertions (C builds of the project) and without (its Python package)
            variants = [("", []), ("/ndebug", ["-DNDEBUG"]), ("/mt", ["-fsanitize-coverage=trace-pc"])]   # mt: a scheduling point at every basic block
            cc = []
            for v, fl in variants:
                os.makedirs(libdir + v, exist_ok=True)
                cc.append(subprocess.Popen(["gcc", "-O1", "-g", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-ffp-contract=off", "-w"] + fl + flags_extra() +
                                           ["-I", REPO + "/src", "-c", libdir + "/coco.c", "-o", libdir + v + "/coco.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            for p in cc:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError(o[-4000:])
            for v, _ in variants:
                d = libdir + v
                run(["objcopy", "--redefine-syms=" + libdir + "/syms", d + "/coco.o", d + "/coco_sim.o"])
                run(["gcc", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", "-Wl,-z,now", d + "/coco_sim.o", "-lm", "-o", d + "/libcoco_0.so"])
                for i in range(1, NLIBS):
                    shutil.copyfile(d + "/libcoco_0.so", "%s/libcoco_%d.so" % (d, i))
                os.unlink(d + "/coco.o")
                os.unlink(d + "/coco_sim.o")
            open(libdir + "/ok", "w").write("ok")
        if jobs:
            for s, j in jobs:
                o, _ = j.communicate()
                if j.returncode:
                    raise BuildError("%s:\n%s" % (s, o[-6000:]))
                if o and not quiet:
                    print(o)
            objs = ["%s/%s.o" % (simdir, s) for s, _ in jobs]
            run(["g++", "-fsanitize=address", "-rdynamic"] + objs + ["-ldl", "-o", simdir + "/cocosim"])
            open(simdir + "/ok", "w").write("ok")
        # keep the cache small
        for pat, keep in (("lib-*", libdir), ("sim-*", simdir)):
            old = sorted((d for d in glob.glob(os.path.join(BUILD, pat)) if d != keep), key=os.path.getmtime)
            for d in old[:-3]:
                shutil.rmtree(d, ignore_errors=True)
    return simdir + "/cocosim", libdir

PYX_SHIM = """
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long live;
long sim_py_live(void) { return live; }
void *sim_malloc(size_t n) { void *p = malloc(n); live += p != 0; return p; }
void *sim_calloc(size_t n, size_t m) { void *p = calloc(n, m); live += p != 0; return p; }
void *sim_realloc(void *q, size_t n) { void *p = realloc(q, n); live += p && !q; return p; }
char *sim_strdup(const char *s) { char *p = strdup(s); live += p != 0; return p; }
void sim_free(void *p) { live -= p != 0; free(p); }
void sim_exit(int st) { (void)st; _exit(67); }
"""
VENV = os.environ.get("COCO_VENV", "/opt/vp/venv")

def build_pyx():
    """the compiled modules of the Python package (with sanitizer and counted allocations); returns (python command, environment, arguments)"""
    py = VENV + "/bin/python"
    src = REPO + "/build/python/src/cocoex"
    files = [f for f in glob.glob(src + "/*") if f.endswith((".py", ".pyx", ".pxd", ".pxi")) and not f.endswith("_version.py")]
    os.makedirs(BUILD, exist_ok=True)
    k = digest(source_files() + files + [os.path.join(HERE, "amalgamate.py"), os.path.join(HERE, "build.py")])
    d = os.path.join(BUILD, "pyx-" + k)
    pkg = d + "/site/cocoex"
    with open(os.path.join(BUILD, "lock-pyx"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(d + "/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(pkg)
            for f in files:
                shutil.copy(f, pkg if f.endswith(".py") else d)
            open(pkg + "/_version.py", "w").write('__version__ = "sim"\n')
            amalgamate.amalgamate(REPO + "/src", amalgamate.CORE, d + "/coco.c")
            shutil.copy(REPO + "/src/coco.h", d)
            open(d + "/shim.c", "w").write(PYX_SHIM)
            with open(d + "/syms", "w") as f:
                for s in "malloc calloc realloc free strdup exit".split():
                    f.write("%s sim_%s\n" % (s, s))
            cfl = ["-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-ffp-contract=off", "-w", "-DNDEBUG", "-I", d]
            inc = run([py, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"]).split()
            jobs = [subprocess.Popen(["gcc", "-O1"] + cfl + ["-c", d + "/coco.c", "-o", d + "/coco0.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
                    subprocess.Popen(["gcc", "-O1"] + cfl + ["-c", d + "/shim.c", "-o", d + "/shim.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)]
            for m in ("interface", "bare_problem"):
                sh = "set -e; cd %s; %s/bin/cython -3 %s.pyx -o %s.c; gcc -O0 %s -DNPY_NO_DEPRECATED_API=NPY_1_23_API_VERSION -I%s -I%s -c %s.c -o %s.o" % (
                    d, VENV, m, m, " ".join(cfl), inc[0], inc[1], m, m)
                jobs.append(subprocess.Popen(["bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            for p in jobs:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError(o[-4000:])
            run(["objcopy", "--redefine-syms=" + d + "/syms", d + "/coco0.o", d + "/coco.o"])
            for m, out in (("interface", pkg + "/interface.so"), ("bare_problem", pkg + "/bare_problem.so"), (None, d + "/oracle.so")):
                run(["gcc", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", d + "/coco.o", d + "/shim.o"] + ([d + "/%s.o" % m] if m else []) + ["-lm", "-o", out])
            for f in glob.glob(d + "/*.o") + glob.glob(d + "/*.c"):
                os.unlink(f)
            open(d + "/ok", "w").write("ok")
        for e in sorted((e for e in glob.glob(os.path.join(BUILD, "pyx-*")) if e != d), key=os.path.getmtime)[:-2]:
            shutil.rmtree(e, ignore_errors=True)
    asan = run(["gcc", "-print-file-name=libasan.so"]).strip()
    return py, {"LD_PRELOAD": asan, "PYTHONMALLOC": "malloc", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}, ["--site", d + "/site", "--oracle", d + "/oracle.so"]

JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"

def build_bind():
    """the native parts of the Java and MATLAB interfaces, linked with their stand-in hosts; returns (command, environment, arguments)"""
    files = [REPO + "/build/java/CocoJNI.c", REPO + "/build/matlab/cocoCall.c"]
    host = glob.glob(HERE + "/host/*")
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "bind-" + digest(source_files() + files + host + [os.path.join(HERE, "amalgamate.py"), os.path.join(HERE, "build.py")]))
    with open(os.path.join(BUILD, "lock-bind"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(d + "/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            amalgamate.amalgamate(REPO + "/src", amalgamate.CORE, d + "/coco.c")
            for f in files + host + [REPO + "/src/coco.h"]:
                shutil.copy(f, d)
            open(d + "/CocoJNI.h", "w").write("#include <jni.h>\n")
            open(d + "/shim.c", "w").write(PYX_SHIM)
            with open(d + "/syms", "w") as f:
                for s in "malloc calloc realloc free strdup exit".split():
                    f.write("%s sim_%s\n" % (s, s))
            cfl = ["-O1", "-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-ffp-contract=off", "-w", "-I", d, "-I", JDK, "-I", JDK + "/linux", "-c"]
            jobs = [subprocess.Popen(["gcc"] + cfl + ["%s/%s.c" % (d, n), "-o", "%s/%s0.o" % (d, n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    for n in ("coco", "CocoJNI", "cocoCall", "fakejvm", "fakemex", "shim")]
            for p in jobs:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError(o[-4000:])
            for n in ("coco", "CocoJNI", "cocoCall"):
                run(["objcopy", "--redefine-syms=" + d + "/syms", "%s/%s0.o" % (d, n), "%s/%s.o" % (d, n)])
            for n, objs in (("oracle", ["coco.o"]), ("java", ["CocoJNI.o", "fakejvm0.o"]), ("matlab", ["cocoCall.o", "fakemex0.o"])):
                run(["gcc", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic"] + [d + "/" + x for x in objs + ["shim0.o"]] + ["-lm", "-o", "%s/%s.so" % (d, n)])
            for f in glob.glob(d + "/*.o"):
                os.unlink(f)
            open(d + "/ok", "w").write("ok")
        for e in sorted((e for e in glob.glob(os.path.join(BUILD, "bind-*")) if e != d), key=os.path.getmtime)[:-2]:
            shutil.rmtree(e, ignore_errors=True)
    asan = run(["gcc", "-print-file-name=libasan.so"]).strip()
    return sys.executable, {"LD_PRELOAD": asan, "PYTHONMALLOC": "malloc"}, ["--oracle", d + "/oracle.so", "--java", d + "/java.so", "--matlab", d + "/matlab.so"]

def rust_sys(headers):
    """what bindgen would generate for the headers: the coco_sys crate"""
    import re
    out = ["#![allow(warnings)]", "use std::os::raw::*;"]
    opaque, seen = set(), set()

    def typ(t):
        t = re.sub(r"\bCOCO_NORETURN\b", "", t).strip()
        m = re.match(r"^(.*?)\s*((?:\*\s*(?:const\s*)?)*)$", t)
        base, stars = m.group(1), m.group(2).count("*")
        const = bool(re.search(r"\bconst\b", base))
        base = " ".join(w for w in base.split() if w not in ("const", "struct"))
        r = {"size_t": "usize", "double": "f64", "int": "c_int", "char": "c_char", "void": "c_void", "uint32_t": "u32", "long": "c_long", "unsigned long": "c_ulong", "unsigned int": "c_uint"}.get(base)
        if r is None:
            opaque.add(base)
            r = base
        for i in range(stars):
            r = ("*const " if const and i == 0 else "*mut ") + r
        return r

    decl = []
    for h in headers:
        s = re.sub(r"/\*.*?\*/", "", open(h, encoding="utf-8").read(), flags=re.S)
        s = "\n".join(l for l in s.split("\n") if not l.lstrip().startswith("#"))
        for m in re.finditer(r"extern\s+(const\s+char\s*\*)\s*(\w+)\s*;", s):
            decl.append("pub static %s: *const c_char;" % m.group(2))
        for m in re.finditer(r"^([a-zA-Z][\w\s\*]*?)\b(\w+)\s*\(([^;{}()]*)\)\s*;", s, re.M):
            ret, name, args = m.group(1).strip(), m.group(2), m.group(3).strip()
            if name in seen or ret.split()[0] in ("typedef", "static"):
                continue
            seen.add(name)
            a = []
            for i, x in enumerate(args.split(",") if args not in ("", "void") else []):
                x = x.strip()
                if x == "...":
                    a.append("...")
                    continue
                k = re.match(r"^(.*?[\s\*])(\w+)$", x)
                a.append("a%d: %s" % (i, typ(k.group(1) if k and k.group(2) not in ("double", "char", "int", "size_t") else x)))
            r = typ(ret)
            decl.append("pub fn %s(%s)%s;" % (name, ", ".join(a), "" if r == "c_void" else " -> " + r))
    out += ["#[repr(C)] pub struct %s { _private: [u8; 0] }" % t for t in sorted(opaque)]
    return "\n".join(out + ['extern "C" {'] + decl + ["}"]) + "\n"

def build_rust():
    """the Rust interface on the C library, with entry points for the simulator; returns (command, environment, arguments)"""
    base = REPO + "/build/rust"
    files = sorted(glob.glob(base + "/src/*.rs")) + [base + "/coco-sys/wrapper.c", base + "/coco-sys/wrapper.h"]
    host = [HERE + "/host/rustdrv.rs"]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "rust-" + digest(source_files() + files + host + [os.path.join(HERE, "amalgamate.py"), os.path.join(HERE, "build.py")]))
    with open(os.path.join(BUILD, "lock-rust"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(d + "/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + "/src")
            os.makedirs(d + "/vendor")
            for f in glob.glob(base + "/src/*.rs"):
                shutil.copy(f, d + "/src")
            for f in files[-2:] + host:
                shutil.copy(f, d)
            for f in glob.glob(REPO + "/src/*.h"):
                shutil.copy(f, d + "/vendor")
            amalgamate.amalgamate(REPO + "/src", amalgamate.CORE, d + "/coco.c")
            shutil.copy(REPO + "/src/coco.h", d)
            open(d + "/shim.c", "w").write(PYX_SHIM)
            with open(d + "/syms", "w") as f:
                for s in "malloc calloc realloc free strdup exit".split():
                    f.write("%s sim_%s\n" % (s, s))
            open(d + "/coco_sys.rs", "w").write(rust_sys([REPO + "/src/coco.h", d + "/wrapper.h"]))
            cfl = ["-O1", "-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-ffp-contract=off", "-w", "-I", d, "-c"]
            jobs = [subprocess.Popen(["gcc"] + cfl + ["%s/%s.c" % (d, n), "-o", "%s/%s0.o" % (d, n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    for n in ("coco", "wrapper", "shim")]
            env = dict(os.environ, TMPDIR=d)
            rc = ["rustc", "--edition", "2021", "-C", "opt-level=1", "-C", "relocation-model=pic", "-A", "warnings", "-L", d, "--out-dir", d]
            run(rc + ["--crate-type", "rlib", "--crate-name", "coco_sys", d + "/coco_sys.rs"], env=env)
            run(rc + ["--crate-type", "rlib", "--crate-name", "coco_rs", "--extern", "coco_sys=" + d + "/libcoco_sys.rlib", d + "/src/lib.rs"], env=env)
            run(rc + ["--crate-type", "staticlib", "--crate-name", "rustdrv", "--extern", "coco_rs=" + d + "/libcoco_rs.rlib", d + "/rustdrv.rs"], env=env)
            for p in jobs:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError(o[-4000:])
            for n in ("coco", "wrapper"):
                run(["objcopy", "--redefine-syms=" + d + "/syms", "%s/%s0.o" % (d, n), "%s/%s.o" % (d, n)])
            run(["gcc", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", d + "/coco.o", d + "/wrapper.o", d + "/shim0.o", "-lm", "-o", d + "/oracle.so"])
            run(["gcc", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", "-Wl,--whole-archive", d + "/librustdrv.a", "-Wl,--no-whole-archive", d + "/coco.o", d + "/wrapper.o", d + "/shim0.o",
                 "-lm", "-lpthread", "-ldl", "-o", d + "/rust.so"])
            for f in glob.glob(d + "/*.o") + glob.glob(d + "/*.a") + glob.glob(d + "/*.rlib") + [d + "/coco.c"]:
                os.unlink(f)
            open(d + "/ok", "w").write("ok")
        for e in sorted((e for e in glob.glob(os.path.join(BUILD, "rust-*")) if e != d), key=os.path.getmtime)[:-2]:
            shutil.rmtree(e, ignore_errors=True)
    asan = run(["gcc", "-print-file-name=libasan.so"]).strip()
    return sys.executable, {"LD_PRELOAD": asan, "PYTHONMALLOC": "malloc"}, ["--oracle", d + "/oracle.so", "--rust", d + "/rust.so"]

if __name__ == "__main__":
    print(*build(quiet=False))
    print(*build_pyx())
    print(*build_bind())
    print(*build_rust())
