#!/usr/bin/env python3
"""Decides one property: check.py <property> (environment: VERIF_SEED, VERIF_TIER).

Builds the simulator from /repo's working tree, checks that it is deterministic, replays the regression
plans and the known findings, and then searches seeds with all cores until the time budget is used up or a
violation is found. A violation is minimised, replayed in fresh processes and reported."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from catalog import CATALOG

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=0:exitcode=66:abort_on_error=0",
           LC_ALL="C", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
BUDGET = {"quick": float(os.environ.get("SIM_BUDGET", "50")), "thorough": float(os.environ.get("SIM_BUDGET", "1500"))}
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 2))
PER_WORKER = 1000000


class Error(Exception):
    pass


class Runner:
    """The simulator of one property, as a command line."""
    def __init__(self, prop, scratch):
        self.prop, self.scratch, self.env = prop, scratch, {}
        if CATALOG[prop]["sim"] == "python":
            self.cmd, self.tail = [sys.executable, "-B", os.path.join(HERE, "pysim.py")], []
        elif CATALOG[prop]["sim"] == "pyx":
            py, self.env, self.tail = build.build_pyx()
            self.cmd, self.tail = [py, "-B", os.path.join(HERE, "pyxsim.py")], self.tail + ["--tmp", scratch]
        elif CATALOG[prop]["sim"] == "bind":
            py, self.env, self.tail = build.build_bind()
            self.cmd, self.tail = [py, "-B", os.path.join(HERE, "bindsim.py")], self.tail + ["--tmp", scratch]
        elif CATALOG[prop]["sim"] == "rust":
            py, self.env, self.tail = build.build_rust()
            self.cmd, self.tail = [py, "-B", os.path.join(HERE, "rustsim.py")], self.tail + ["--tmp", scratch]
        else:
            binary, libs = build.build()
            self.cmd, self.tail = [binary], ["--libs", libs]

    def popen(self, args, **kw):
        kw.setdefault("stdout", subprocess.PIPE)
        kw.setdefault("stderr", subprocess.STDOUT)
        return subprocess.Popen(self.cmd + args + self.tail, env=dict(ENV, **self.env, **kw.pop("extra", {})), cwd=self.scratch, text=True, errors="replace", **kw)

    def replay(self, text, timeout=90):
        """-> (class, message, trace); class '' when the plan holds"""
        fd, path = tempfile.mkstemp(dir=self.scratch, suffix=".plan")
        with os.fdopen(fd, "w") as f:
            f.write(text)
        p = self.popen(["replay", path])
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return "hang", "no answer in wall time", ""
        finally:
            os.unlink(path)
        return classify(p.returncode, out)


def classify(rc, out):
    m = re.search(r"^RESULT (\w+)\t([^\t]*)\t([^\t]*)\ttrace=(\w+)", out, re.M)
    if rc == 0 and m:
        return "", "", m.group(4)
    if rc == 1 and m:
        return m.group(2) or "violation", m.group(3), m.group(4)
    if rc == 3:
        raise Error("simulator error: " + out[-2000:])
    if rc == 5:
        return "hang", "no progress", ""
    if rc == 4:
        m = re.search(r"cocosim: reference instance.*", out)
        return "fatal", m.group(0) if m else "reference instance failed", ""
    m = re.search(r"ERROR: AddressSanitizer: ([^\n(]*)", out)
    if m:
        fr = [g for g in re.findall(r"#\d+ \S+ in (\w+) [^\n]*/src/", out)][:3]
        return "memory", re.sub(r"0x[0-9a-f]+", "0x..", m.group(1)).strip() + " in " + " < ".join(fr), ""
    return "crash", "the simulated system crashed (status %s): %s" % (rc, out.strip()[-300:]), ""


# ---------------------------------------------------------------- minimisation
def minimise(run, text, cls, budget):
    """ddmin over the lines of a plan, keeping the class of the violation"""
    t0 = time.time()
    head = [l for l in text.split("\n") if l.startswith(("#", "prop\t", "seed\t"))]
    body = [l for l in text.split("\n") if l and l not in head]
    pool = ThreadPoolExecutor(WORKERS)
    tries = [0]

    def fails(lines):
        tries[0] += 1
        try:
            return run.replay("\n".join(head + lines) + "\n", timeout=30)[0] == cls
        except Error:
            return False

    def first(cands):
        """the first candidate (in order) that still fails"""
        for i in range(0, len(cands), WORKERS):
            if time.time() - t0 > budget:
                return None
            for c, ok in zip(cands[i:i + WORKERS], pool.map(fails, cands[i:i + WORKERS])):
                if ok:
                    return c
        return None

    if not fails(body):
        return text, tries[0]
    n = 2
    while len(body) >= 2 and time.time() - t0 < budget:
        size = max(1, len(body) // n)
        cands = [body[:i] + body[i + size:] for i in range(0, len(body), size)]
        c = first(cands)
        if c is not None:
            body, n = c, max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(body), n * 2)
    # shorter bursts
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for i, l in enumerate(body):
            f = l.split("\t")
            if f[0] == "op" and len(f) > 4 and f[2] == "evn" and f[4].isdigit() and int(f[4]) > 1:
                k = int(f[4])
                c = first([body[:i] + ["\t".join(f[:4] + [str(v)] + f[5:])] + body[i + 1:] for v in sorted({1, k // 2, k - 1} - {0, k})])
                if c is not None:
                    body, changed = c, True
    pool.shutdown()
    return "\n".join(head + body) + "\n", tries[0]


# ---------------------------------------------------------------- the search
def search(run, seed0, budget, stop_on_violation=True):
    workers = []
    for w in range(WORKERS):
        base = os.path.join(run.scratch, "w%d" % w)
        out = open(base + ".out", "w")
        p = run.popen(["run", "--prop", run.prop, "--seed0", str(seed0 + w * PER_WORKER), "--count", str(PER_WORKER), "--budget", "%g" % budget,
                       "--ndebug", "1" if w % 8 in (2, 5) else "0", "--plan", base + ".plan", "--state", base + ".state", "--stats", base + ".stats"], stdout=out)
        workers.append((w, p, base))
    t0 = time.time()
    found, pending, stats = None, list(workers), []
    while pending:
        time.sleep(0.1)
        for it in list(pending):
            w, p, base = it
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > budget + 120:
                    p.kill()
                    rc = 5
                else:
                    continue
            pending.remove(it)
            txt = open(base + ".out", errors="replace").read()
            if os.path.exists(base + ".stats"):
                stats.append(json.load(open(base + ".stats")))
            if rc == 0:
                continue
            if rc == 3:
                raise Error("simulator error: " + txt[-2000:])
            if found is None:
                src = base + (".plan" if rc == 1 else ".state")
                found = {"worker": w, "seed0": seed0 + w * PER_WORKER, "plan": open(src).read() if os.path.exists(src) else "", "out": txt, "rc": rc}
        if found and stop_on_violation:
            for w, p, base in pending:
                p.kill()
                p.wait()
            break
    return found, stats, time.time() - t0


def gate(run, seed0, n, procs):
    """the same seeds in several processes must give the same executions"""
    ps = [run.popen(["run", "--prop", run.prop, "--seed0", str(seed0), "--count", str(n)], stderr=subprocess.DEVNULL,
                    extra={"PYTHONHASHSEED": str(i * 7 + 1), "SIM_PAD": "x" * (i * 991)}) for i in range(procs)]
    outs = [(p.communicate()[0], p.returncode) for p in ps]
    chains = [re.search(r"DONE runs=(\d+) chain=(\w+)", o) for o, _ in outs]
    keys = set((m.group(0) if m else "rc=%s" % rc) for m, (_, rc) in zip(chains, outs))
    return len(keys) == 1, sorted(keys)


def load_known(prop):
    known = []
    for l in open(os.path.join(VERIF, "known_findings.txt")) if os.path.exists(os.path.join(VERIF, "known_findings.txt")) else []:
        m = re.match(r"finding: property=(\w+) plan=(\S+) class=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            known.append({"plan": m.group(2), "cls": m.group(3), "what": m.group(4)})
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    print("check property=%s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    cat = CATALOG[prop]
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    scratch = tempfile.mkdtemp(prefix="cocosim-")
    violation = None     # (class, message, plan text, origin)
    known_lines, corpus, shrink = [], 0, 0
    try:
        run = Runner(prop, scratch)
        # known findings first, then plans that once failed
        known = load_known(prop)
        for k in known:
            text = open(os.path.join(VERIF, k["plan"])).read()
            cls, msg, _ = run.replay(text)
            if cls == k["cls"]:
                known_lines.append("KNOWN-FINDING: property=%s %s (replay %s: %s)" % (prop, k["what"], k["plan"], msg[:160]))
            elif cls and violation is None:
                violation = (cls, msg, text, k["plan"])
        plans = [] if os.environ.get("SIM_NOCORPUS") else sorted(glob.glob(os.path.join(VERIF, "known", "regress", prop + "-*.plan")))
        with ThreadPoolExecutor(WORKERS) as pool:
            for f, (cls, msg, _) in zip(plans, pool.map(lambda f: run.replay(open(f).read()), plans)):
                corpus += 1
                if cls and violation is None:
                    violation = (cls, msg, open(f).read(), os.path.relpath(f, VERIF))
        for l in known_lines:
            print(l, flush=True)
        seed0 = 1 + seed * 100 * PER_WORKER
        det_ok, det_keys = gate(run, seed0 + 90 * PER_WORKER, cat.get("gate", 40), 4 if tier == "quick" else 16)
        if not det_ok and violation is None:
            if prop == "C15":
                violation = ("nondeterminism", "the same run in several processes gives different executions: %s" % det_keys, None, "determinism gate")
            else:
                print("note: executions differ between processes: %s" % det_keys, flush=True)
        stats, wall = [], 0.0
        if violation is None:
            found, stats, wall = search(run, seed0, BUDGET[tier])
            if found:
                cls, msg, tr = run.replay(found["plan"]) if found["plan"] else ("", "", "")
                if cls:
                    violation = (cls, msg, found["plan"], "seed search")
                else:
                    # not a function of the plan alone: reproduce with the history of the worker
                    m = re.search(r"VIOLATION seed=(\d+)\t([^\t]*)\t(.*)", found["out"])
                    last = int(m.group(1)) if m else int((re.search(r"^seed\t(\d+)", found["plan"], re.M) or [0, found["seed0"]])[1])
                    r = ""
                    p = run.popen(["run", "--prop", prop, "--seed0", str(found["seed0"]), "--count", str(last - found["seed0"] + 1)])
                    out, _ = p.communicate()
                    if p.returncode in (0, 3):
                        raise Error("a violation could not be reproduced:\n" + found["out"][-3000:])
                    violation = (m.group(2) if m else "crash", (m.group(3) if m else out[-300:]), None, "seeds %d-%d in one process" % (found["seed0"], last))
        replay_file = None
        if violation:
            cls, msg, text, origin = violation
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            if text is not None:
                small, shrink = minimise(run, text, cls, 40 if tier == "quick" else 240)
                a, b = run.replay(small), run.replay(small)
                if a[0] != cls or a != b:
                    small, a = text, run.replay(text)
                    if a != run.replay(text):
                        raise Error("a violation does not replay exactly: %s %s" % (a, b))
                msg = a[1]
                m = re.search(r"^seed\t(\d+)", small, re.M)
                replay_file = os.path.join(VERIF, "replays", "%s-%s.plan" % (prop, m.group(1) if m else "0"))
                with open(replay_file, "w") as f:
                    f.write("# property %s violated (%s): %s\n# found by %s; replay: python3 sim/replay.py %s\n" % (prop, cls, msg.replace("\n", " "), origin, os.path.relpath(replay_file, VERIF)))
                    f.write("\n".join(l for l in small.split("\n") if not l.startswith("#")))
            else:
                replay_file = os.path.join(VERIF, "replays", "%s-seeds.txt" % prop)
                with open(replay_file, "w") as f:
                    f.write("# property %s violated (%s): %s\n# %s\n" % (prop, cls, msg, origin))
            print("violated: %s: %s" % (cls, msg))
            print("found by: %s; minimised with %d replays" % (origin, shrink))
            print("VIOLATION property=%s replay=%s" % (prop, replay_file), flush=True)
        write_evidence(ev_path, prop, tier, seed, cat, stats, wall, time.time() - t0, violation, known_lines, corpus, det_ok, det_keys)
        sys.exit(1 if violation else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(path, prop, tier, seed, cat, stats, wall, total, violation, known_lines, corpus, det_ok, det_keys):
    add = lambda k: sum(s.get(k, 0) for s in stats)
    def maps(k):
        m = {}
        for s in stats:
            for a, b in s.get(k, {}).items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))
    sets = lambda k: len(set(x for s in stats for x in s.get(k, [])))
    runs = add("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sets("progs"),
        "rule": "one evaluation = one seed: a generated plan (workload, environment, schedule, faults) executed and judged; counted as distinct and "
                "non-trivial when at least four operations were executed and the hash over every seam call, its arguments and results and every scheduling decision of "
                "all simulations of that seed is new",
        "samples": [x for s in stats for x in s.get("samples", [])][:4],
        "simulations": add("sims"),
        "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulations_per_hour": int(add("sims") / wall * 3600) if wall else 0,
        "operations": add("ops"),
        "seam_calls": add("seams"),
        "simulated_seconds": round(add("sim_time"), 1),
        "faults_fired": maps("fired"),
        "probes": maps("probes"),
        "distinct_traces": sets("traces"),
        "distinct_interleavings": sets("ileaves"),
        "interleaving_measure": "hash of the sequence of scheduling decisions of a simulation with more than one process, combined with its trace",
        "regression_plans_replayed": corpus,
        "determinism_gate": {"same": det_ok, "chains": det_keys[:4]},
        "workers": WORKERS,
        "real_components": cat["real"],
        "stubbed_components": cat["stub"],
        "known_findings": known_lines,
    }
    if violation:
        cov["violation"] = {"class": violation[0], "message": violation[1][:1000], "origin": violation[3]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": cat["assume"],
          "wall_s": round(total, 2), "violations": 1 if violation else 0}
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)


if __name__ == "__main__":
    try:
        main()
    except (Error, build.BuildError) as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(3)
