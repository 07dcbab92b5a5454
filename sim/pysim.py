#!/usr/bin/env python3
"""Simulator for the experiment helpers of the Python package (batches, repeated sweeps, budgeted runs).

run --prop P --seed0 S --count N [--budget T] [--plan F] [--state F] [--stats F] | replay FILE | gen --prop P --seed S
A plan is a text file of tab-separated lines; the simulation is a pure function of it and the code."""
import builtins, contextlib, hashlib, io, json, os, random, re, signal, sys, time, types, warnings

REPO = os.environ.get("COCO_REPO", "/repo")
SRC = os.path.join(REPO, "build/python/src/cocoex/utilities.py")
CODE = None
SEAM = ("time", "os", "random")


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Killed(BaseException):
    """the simulated process dies: nothing of it survives"""


class OptimizerError(Exception):
    pass


def load_module():
    """a fresh instance of the module: a process of its own"""
    global CODE
    if CODE is None:
        CODE = compile(open(SRC, encoding="utf-8").read(), SRC, "exec")
        try:
            import numpy  # noqa
        except ImportError:
            sys.modules["numpy"] = types.ModuleType("numpy")
    pkg = types.ModuleType("cocoex_sim")
    m = types.ModuleType("cocoex_sim.utilities")
    m.__dict__["__package__"] = "cocoex_sim"
    exec(CODE, m.__dict__)
    return m


class Stats:
    def __init__(self):
        self.d = {"runs": 0, "sims": 0, "ops": 0, "seams": 0, "steps": 0, "sim_time": 0.0}
        self.fired, self.probes, self.traces, self.ileaves, self.progs, self.samples = {}, {}, set(), set(), set(), []

    def fire(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n


ST = Stats()


class Plan:
    def __init__(self, prop, seed):
        self.prop, self.seed, self.env, self.lines = prop, seed, {}, []

    def text(self):
        return "\n".join(["# replay plan: sim/replay.py <this file>", "prop\t" + self.prop, "seed\t%d" % self.seed] +
                         ["env\t%s\t%s" % e for e in sorted(self.env.items())] + ["\t".join(map(str, l)) for l in self.lines]) + "\n"

    @staticmethod
    def parse(t):
        p = Plan("", 0)
        for l in t.split("\n"):
            f = l.split("\t")
            if not l or l[0] == "#":
                continue
            if f[0] == "prop":
                p.prop = f[1]
            elif f[0] == "seed":
                p.seed = int(f[1])
            elif f[0] == "env":
                p.env[f[1]] = f[2]
            else:
                p.lines.append(f)
        return p

    def geti(self, k, d=0):
        return int(self.env.get(k, d))


class Trace:
    def __init__(self):
        self.h = hashlib.blake2b(digest_size=8)

    def __call__(self, *a):
        self.h.update(repr(a).encode())
        ST.d["seams"] += 1


class P:
    """a stand-in for cocoex.Problem"""
    def __init__(self, f, d, i, index=0):
        self.id_function, self.dimension, self.id_instance, self.index = f, d, i, index
        self.id = "sim_f%03d_i%02d_d%02d" % (f, i, d)
        self.info = self.name = self.id
        self.evaluations = 0
        self.final_target_hit = False
        self.asked = []

    def __call__(self, x):
        self.evaluations += 1
        return 0.0

    def initial_solution_proposal(self, k=None):
        self.asked.append(k)
        return k


def groups(r, maxd=3, maxf=6, maxi=5):
    """the problems of a suite in its order: dimensions, functions, instances; possibly filtered"""
    out = []
    dims = sorted(r.sample([2, 3, 5, 10, 20, 40], r.randint(1, maxd)))
    funs = sorted(r.sample(range(1, 25), r.randint(1, maxf)))
    insts = [r.randint(1, 15) for _ in range(r.randint(1, maxi))]
    keep = r.choice([1.0, 1.0, 0.8, 0.5])
    for d in dims:
        for f in funs:
            for i in insts:
                if r.random() < keep:
                    out.append((f, d, i))
    return out or [(1, 2, 1)]


# ---------------------------------------------------------------- C10
def gen10(seed):
    r = random.Random("C10-%d" % seed)
    p = Plan("C10", seed)
    probs = groups(r)
    nb = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 30])
    p.env["nb"] = nb
    p.env["sweeps"] = r.choice([1, 1, 1, 2, 3])
    p.env["shared"] = r.choice([0, 0, 1])       # batches as separate processes, or schedulers in one process
    p.env["stick"] = r.choice([0, 0, 5, 50, 100000])     # how long a process runs before another one may
    p.env["one"] = r.choice([0, 0, 1, -1])      # ways to ask for the only batch
    for q in probs:
        p.lines.append(["p"] + list(q))
    for b in range(nb):
        if r.random() < 0.25:
            for _ in range(r.randint(1, 2)):
                p.lines.append(["kill", b, r.randint(0, len(probs) * p.env["sweeps"])])
        if r.random() < 0.2:                    # the script of this batch uses other schedulers on other problems as well
            n = r.randint(1, 6)
            p.lines.append(["other", b, r.choice([0, 0, r.randint(0, len(probs))]), n, r.randrange(n), r.randrange(1000), r.randint(1, 40)])
    for _ in range(r.choice([0, 0, 1, 3])):
        n = r.randint(1, 6)
        b = r.choice([-1, -2, n, n + 1, n + 7])
        if not (n == 1 and b == 1):
            p.lines.append(["bad", n, b])
    return p


def check10(p):
    tr = Trace()
    nb, sweeps = p.geti("nb", 1), p.geti("sweeps", 1)
    probs = [tuple(map(int, l[1:4])) for l in p.lines if l[0] == "p"]
    # regroup: a suite never interleaves functions or dimensions
    order = list(dict.fromkeys((f, d) for f, d, i in probs))
    probs = [q for g in order for q in probs if q[:2] == g]
    kills = {}
    for l in p.lines:
        if l[0] == "kill":
            kills.setdefault(int(l[1]), []).append(int(l[2]))
    others = {}
    for l in p.lines:
        if l[0] == "other":
            others.setdefault((int(l[1]), int(l[2])), []).append([int(v) for v in l[3:7]])
    out = io.StringIO()
    shared = load_module() if p.geti("shared") else None
    attempts = {b: [] for b in range(nb)}      # per batch: list of lists of executed (sweep, position)

    def process(b, attempt):
        """one run of the experiment script of batch b; yields at every step"""
        m = shared or load_module()
        arg = b
        if nb == 1:
            arg = {0: 0, 1: 1, -1: None}[p.geti("one")]
        with contextlib.redirect_stdout(out):
            batcher = m.BatchScheduler(nb, arg)
        done = []
        attempts[b].append(done)
        left = kills.get(b, [])[attempt] if attempt < len(kills.get(b, [])) else None
        step = 0
        for s in range(sweeps):
            for k, q in enumerate(probs):
                for l in others.get((b, step), ()):
                    with contextlib.redirect_stdout(out):
                        oth = m.BatchScheduler(l[0], l[1])
                    for x in groups(random.Random("other-%d" % l[2]))[:l[3]]:
                        oth.is_in_batch(P(*x, index=0))
                    ST.probe("other_schedulers")
                if left is not None and step >= left:
                    ST.fire("kill_batch")
                    raise Killed()
                step += 1
                yield
                r = batcher.is_in_batch(P(*q, index=k))
                ST.d["ops"] += 1
                if r is not True and r is not False:
                    raise Violation("answer", "is_in_batch returned %r" % (r,))
                tr(b, attempt, s, k, r)
                if r:
                    done.append((s, k))
                yield          # the optimizer runs here
        return

    rng = random.Random("sched-%d" % p.seed)
    live = [(b, 0) for b in range(nb)]
    rng.shuffle(live)
    gens = [[b, a, process(b, a)] for b, a in live]
    stick = p.geti("stick")
    il = hashlib.blake2b(digest_size=8)
    while gens:
        it = gens[rng.randrange(len(gens))]
        il.update(b"%d," % it[0])
        ST.d["steps"] += 1
        try:
            for _ in range(1 + rng.randint(0, stick) if stick else 1):
                next(it[2])
        except StopIteration:
            gens.remove(it)
        except Killed:
            gens.remove(it)
            gens.append([it[0], it[1] + 1, process(it[0], it[1] + 1)])
    # every problem of every sweep by exactly one batch
    owner = {}
    for b in range(nb):
        final = attempts[b][-1]
        if len(set(final)) != len(final):
            raise Violation("twice", "batch %d executes a problem twice in a sweep" % b)
        for e in final:
            if e in owner:
                raise Violation("twice", "problem %s of sweep %d is executed by batches %d and %d of %d" % (probs[e[1]], e[0], owner[e], b, nb))
            owner[e] = b
        for n, a in enumerate(attempts[b][:-1]):
            if a != final[:len(a)]:
                raise Violation("rerun", "batch %d executes other problems when it is run again after a kill" % b)
            ST.probe("reruns")
    for s in range(sweeps):
        for k in range(len(probs)):
            if (s, k) not in owner:
                raise Violation("missing", "problem %s of sweep %d is executed by none of the %d batches" % (probs[k], s, nb))
    per = {}
    for (s, k), b in owner.items():
        g = probs[k][:2]
        if per.setdefault(g, b) != b:
            raise Violation("split", "function %d in dimension %d is split over batches %d and %d" % (g[0], g[1], per[g], b))
    cnt = [sum(1 for g in per if per[g] == b) for b in range(nb)]
    if max(cnt) - min(cnt) > 1:
        raise Violation("uneven", "the batches get %s functions/dimensions" % cnt)
    ST.probe("problems_distributed", len(owner))
    # wrong batch numbers are refused
    for l in p.lines:
        if l[0] == "bad":
            m = load_module()
            try:
                with contextlib.redirect_stdout(out):
                    m.BatchScheduler(int(l[1]), int(l[2]))
            except ValueError:
                ST.probe("refused_batch_numbers")
                tr("refused", l[1], l[2])
            else:
                raise Violation("accepted", "batch %s of %s is accepted" % (l[2], l[1]))
    ST.ileaves.add(il.hexdigest() + tr.h.hexdigest())
    return tr


# ---------------------------------------------------------------- C19
class RepeaterModel:
    """what the documentation says, recomputed from the recorded trials"""
    def __init__(self, mult, minsucc):
        self.mult, self.minsucc, self.rec, self.started, self.maxsweeps = mult, minsucc, [], 0, 10000

    def of(self, f, d):
        r = {}
        for t in self.rec:
            if t[0] == f and t[1] == d:
                r.setdefault(t[2], []).append((t[3], t[4]))
        return r

    def insts(self, f, d):
        return sorted(self.of(f, d))

    def trials(self, f, d):
        r = self.of(f, d)
        return [len(r[i]) for i in sorted(r)]

    def missing(self, f, d, i):
        r = self.of(f, d)
        return max([1] + [len(v) for v in r.values()]) - len(r.get(i, []))

    def evals(self, f, d):
        r = self.of(f, d)
        return [sum(e for e, _ in r[i]) for i in sorted(r)]

    def succ(self, f, d):
        r = self.of(f, d)
        return [sum(1 for _, h in r[i] if h) for i in sorted(r)]

    def exhausted(self, f, d):
        return sum(self.evals(f, d)) >= max(1, len(self.of(f, d))) * d * self.mult

    def succeeded(self, f, d):
        return sum(self.succ(f, d)) >= self.minsucc

    def needs(self, f, d, i):
        return self.missing(f, d, i) > 0 or not (self.succeeded(f, d) or self.exhausted(f, d))

    def remaining(self):
        return [k for k in dict.fromkeys(t[:3] for t in self.rec) if self.needs(*k)]


def gen19(seed):
    r = random.Random("C19-%d" % seed)
    p = Plan("C19", seed)
    probs = groups(r, 2, 3, 5)
    probs = list(dict.fromkeys(probs)) if r.random() < 0.8 else probs
    p.env["mult"] = r.choice(["0", "0.5", "1", "2", "3", "5", "10"])
    p.env["minsucc"] = r.choice([1, 2, 3, 5, 11, 11, 0])
    if r.random() < 0.3:
        p.env["maxsweeps"] = r.randint(2, 6)
    p.env["psucc"] = r.choice([0, 10, 30, 50, 90, 100])
    p.env["pabort"] = r.choice([0, 0, 0, 5, 30])       # the optimizer raises: the trial is not tracked
    p.env["pzero"] = r.choice([0, 0, 0, 10, 50])       # ends before the first evaluation
    p.env["pfreed"] = r.choice([0, 0, 0, 10])          # the problem was freed before it is tracked
    p.env["maxev"] = r.choice([1, 3, 10, 50, 1000])
    p.env["pquery"] = r.choice([0, 20, 60])
    p.env["second"] = r.choice([0, 0, 1])              # another repeater in the same process
    p.env["msg"] = r.choice([0, 1])
    for q in probs:
        p.lines.append(["p"] + list(q))
    return p


def check19(p):
    tr = Trace()
    mult = float(p.env.get("mult", "1"))
    if mult == int(mult):
        mult = int(mult)
    m = load_module()
    probs = [tuple(map(int, l[1:4])) for l in p.lines if l[0] == "p"]
    if not probs:
        return tr
    rng = random.Random("run-%d" % p.seed)
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        rep = m.ExperimentRepeater(mult, min_successes=p.geti("minsucc", 11)) if p.geti("minsucc", 11) != 11 else m.ExperimentRepeater(mult)
        other = m.ExperimentRepeater(3, 1) if p.geti("second") else None
        if "maxsweeps" in p.env:
            rep.max_sweeps = p.geti("maxsweeps")
        mod = RepeaterModel(mult, p.geti("minsucc", 11))
        mod.maxsweeps = p.geti("maxsweeps", 10000)

        def expect(what, got, want):
            ST.d["ops"] += 1
            tr(what, repr(got))
            if got != want:
                raise Violation(what.split("(")[0], "%s is %r, expected %r; trials so far: %r" % (what, got, want, mod.rec[-12:]))

        def forms(f, d, i):
            return rng.choice([P(f, d, i), (f, d, i), [f, d, i]])

        def query():
            f, d, i = rng.choice(probs)
            k = rng.randrange(13)
            two = rng.choice([(f, d), (f, d, None), (f, d, i), P(f, d, i)])
            if k == 0:
                expect("trials((%d,%d))" % (f, d), list(rep.trials(two)), mod.trials(f, d))
            elif k == 1:
                expect("successes((%d,%d))" % (f, d), list(rep.successes(two)), mod.succ(f, d))
            elif k == 2:
                expect("evaluations((%d,%d))" % (f, d), list(rep.evaluations(two)), mod.evals(f, d))
            elif k == 3:
                expect("budget_exhausted((%d,%d))" % (f, d), bool(rep.budget_exhausted(two)), mod.exhausted(f, d))
            elif k == 4:
                expect("succeeded((%d,%d))" % (f, d), bool(rep.succeeded(two)), mod.succeeded(f, d))
            elif k == 5:
                expect("instances((%d,%d))" % (f, d), list(rep.instances(two)), mod.insts(f, d))
            elif k == 6:
                expect("n_trials()", rep.n_trials(), len(mod.rec))
            elif k == 7:
                expect("n_problems", rep.n_problems, len(set(t[:2] for t in mod.rec)))
            elif k == 8:
                expect("n_problem_instances()", rep.n_problem_instances(), len(set(t[:3] for t in mod.rec)))
            elif k == 9:
                expect("missing_trials(%d,%d,%d)" % (f, d, i), rep.missing_trials(forms(f, d, i)), mod.missing(f, d, i))
            elif k == 10:
                expect("trials((%d,%d), %d)" % (f, d, i), rep.trials(two, i), len(mod.of(f, d).get(i, [])))
            elif k == 11:
                expect("data_of_instance(%d,%d,%d)" % (f, d, i), list(rep.data_of_instance(forms(f, d, i))), mod.of(f, d).get(i, []))
            else:
                q = P(f, d, i)
                odds = rng.choice([14, 14, 1, 3, 0])
                rep.initial_solution_proposal(q, odds) if odds != 14 else rep.initial_solution_proposal(q)
                n = sum(mod.trials(f, d))
                expect("initial_solution_proposal(%d,%d,%d)" % (f, d, i), q.asked, [n + 1 if odds == 0 else (n if n % (odds + 1) else 0)])

        faulted = False
        budget = max(d for _, d, _ in probs) * mult
        limit = min(mod.maxsweeps, 40)
        while True:
            got = rep.done(message=bool(p.geti("msg", 1)))
            tr("done()", bool(got))
            ST.d["steps"] += 1
            if mod.started == 0:
                must = mod.maxsweeps <= 0
                may = mod.maxsweeps <= 1
            else:
                finished = not mod.rec or not mod.remaining()
                must = finished or mod.started >= mod.maxsweeps
                may = must or mod.started >= mod.maxsweeps - 1
            if got and not may:
                raise Violation("early", "done after %d sweeps, but these problems lack trials or budget: %r" % (mod.started, mod.remaining() if mod.started else probs))
            if must and not got:
                raise Violation("endless", "not done after %d sweeps although nothing is left to run" % mod.started)
            if got:
                ST.probe("finished_experiments")
                break
            mod.started += 1
            if mod.started > limit:
                ST.probe("cut_off_experiments")
                break
            clean = True
            before = {k: mod.trials(*k) for k in set(q[:2] for q in probs)}
            equal = {k: len(set(v)) <= 1 and len(v) in (0, len(set(q for q in probs if q[:2] == k))) for k, v in before.items()}
            ran = []
            for q in probs:
                if rng.random() * 100 < p.geti("pquery"):
                    query()
                if other is not None and rng.random() < 0.3:
                    o = P(*rng.choice(probs)); o.evaluations = 7
                    other.done(message=False) if rng.random() < 0.2 else other.track(o)
                want = mod.started > 1 and not mod.needs(*q)
                expect("done(%d,%d,%d)" % q, bool(rep.done(forms(*q))), want)
                if want:
                    continue
                pr = P(*q)
                ran.append(q)
                if rng.random() * 100 < p.geti("pabort"):
                    ST.fire("optimizer_exception")
                    clean = False
                    continue
                pr.evaluations = 0 if rng.random() * 100 < p.geti("pzero") else rng.randint(1, p.geti("maxev", 10))
                if not pr.evaluations:
                    ST.fire("no_evaluation")
                pr.final_target_hit = rng.choice([True, 1]) if rng.random() * 100 < p.geti("psucc") else rng.choice([False, 0])
                if rng.random() * 100 < p.geti("pfreed"):
                    pr.info = "invalid (freed) problem"
                    ST.fire("freed_problem")
                    clean = False
                    try:
                        rep.track(pr)
                    except ValueError:
                        continue
                    raise Violation("freed", "a freed problem was tracked")
                rep.track(pr)
                mod.rec.append(q + (pr.evaluations, pr.final_target_hit))
                ST.d["ops"] += 1
                tr("track", q, pr.evaluations, bool(pr.final_target_hit))
            if clean and len(set(probs)) == len(probs):
                for k in before:
                    t = rep.trials(k)
                    if equal[k] and len(set(t)) > 1:
                        raise Violation("unbalanced", "after sweep %d the instances of %r have %r trials" % (mod.started, k, t))
                ST.probe("balanced_sweeps")
            if p.geti("msg", 1):
                rep.message_sweep()
            if mod.rec:
                expect("remaining_problems()", sorted(rep.remaining_problems()), sorted(k for k in dict.fromkeys(t[:3] for t in mod.rec) if mod.started <= 1 or mod.needs(*k)))
        if not (p.geti("pabort") or p.geti("pzero") or p.geti("pfreed")) and "maxsweeps" not in p.env and mod.started > 2 + budget * (1 if len(set(probs)) == len(probs) else len(probs)):
            raise Violation("endless", "%d sweeps for a budget of %g evaluations" % (mod.started, budget))
    return tr


# ---------------------------------------------------------------- C20
class World:
    """an observed and an unobserved instance of a problem share the function; the log is what the observed one saw"""
    def __init__(self, salt, level):
        self.salt, self.level, self.opened, self.log = salt, level, [], []

    def f(self, x):
        v = int(hashlib.blake2b(("%s %r" % (self.salt, x)).encode(), digest_size=4).hexdigest(), 16)
        return float(v % self.level)       # few levels: ties happen

    def __getitem__(self, index):
        q = NP(self, index)
        self.opened.append(q)
        return q

    def __len__(self):
        return 60

    dimensions = [2, 3, 5]


class NP:
    def __init__(self, w, index):
        self.w, self.index, self.evaluations, self.observer, self.freed = w, index, 0, None, 0
        self.dimension = self.number_of_variables = 2 + index % 3
        self.id = "sim_f001_i%02d_d%02d" % (index, self.dimension)
        self.name = self.info = "name " + self.id
        self.initial_solution = [0.0] * self.dimension
        self.lower_bounds, self.upper_bounds = [-5.0] * self.dimension, [5.0] * self.dimension
        self.number_of_constraints, self.number_of_objectives = 0, 1
        self.best_observed_fvalue1 = float("inf")

    def add_observer(self, o):
        self.observer = o
        return self

    def __call__(self, x):
        if self.freed:
            raise Violation("freed", "a freed problem is evaluated")
        self.evaluations += 1
        v = self.w.f(x)
        self.best_observed_fvalue1 = min(self.best_observed_fvalue1, v)
        if self.observer is not None:
            self.w.log.append((x, v))
        return v

    @property
    def final_target_hit(self):
        return self.best_observed_fvalue1 <= 0

    def free(self):
        self.freed += 1


def gen20(seed):
    r = random.Random("C20-%d" % seed)
    p = Plan("C20", seed)
    p.env["level"] = r.choice([2, 3, 10, 1000000])
    p.env["index"] = r.randrange(60)
    b = 0
    for _ in range(r.randint(1, 7)):
        b += r.choice([0, 1, 1, 2, 3, 7, 20])
        how = r.choice(["best", "best", "last", "new", "first"])
        p.lines.append(["budget", b, how, r.choice(["same", "fresh", "fresh"]), r.randint(0, 10 ** 6)])
        if r.random() < 0.08:
            p.lines.append(["raise", r.randint(0, max(0, b))] + (["out"] if r.random() < 0.4 else []))
    return p


def check20(p):
    tr = Trace()
    m = load_module()
    w = World(p.seed, p.geti("level", 10))
    obs = object()
    aborted = False
    try:
        with m.ProblemNonAnytime(w, obs, p.geti("index")) as pr:
            for a in ("dimension", "id", "index", "name", "number_of_variables", "number_of_objectives", "number_of_constraints", "info"):
                if getattr(pr, a) != getattr(w.opened[0], a):
                    raise Violation("attribute", "%s is %r" % (a, getattr(pr, a)))
            runs, raise_at = [], None
            lines = list(p.lines)
            k = 0
            while k < len(lines):
                l = lines[k]
                k += 1
                if l[0] != "budget":
                    continue
                budget, how, kind, sd = int(l[1]), l[2], l[3], int(l[4])
                raise_at = int(lines[k][1]) if k < len(lines) and lines[k][0] == "raise" else None
                escapes = raise_at is not None and len(lines[k]) > 2     # the error leaves the with block
                rng = random.Random("opt-%d-%d" % (p.seed, 0 if kind == "same" else sd))
                xs, vs = [], []
                seen0 = len(w.log)
                try:
                    for e in range(budget):
                        if raise_at is not None and e >= raise_at:
                            ST.fire("optimizer_exception")
                            raise OptimizerError()
                        x = round(rng.random(), 6)
                        n0 = len(w.log)
                        v = pr(x)
                        ST.d["ops"] += 1
                        tr("call", e, x, v, len(w.log))
                        if v != w.f(x):
                            raise Violation("value", "the value of %r is %r instead of %r" % (x, v, w.f(x)))
                        # evaluation e+1 is observed iff fewer than e+1 evaluations have been observed
                        if (len(w.log) > n0) != (n0 <= e):
                            raise Violation("observed", "evaluation %d of a run is %s although %d evaluations were observed before" % (e + 1, "observed" if len(w.log) > n0 else "not observed", n0))
                        if len(w.log) > n0 and (len(w.log) != n0 + 1 or w.log[-1] != (x, v)):
                            raise Violation("observed", "evaluation %d is logged wrongly" % (e + 1))
                        if pr.evaluations != e + 1:
                            raise Violation("count", "%d evaluations are reported after %d" % (pr.evaluations, e + 1))
                        xs.append(x); vs.append(v)
                except OptimizerError:
                    if escapes:
                        raise
                    pr.reset()
                    continue
                if not xs:
                    xs, vs = [0.5], [w.f(0.5)]
                x = {"best": xs[vs.index(min(vs))], "last": xs[-1], "first": xs[0], "new": round(rng.random(), 6)}[how]
                n0 = len(w.log)
                small = budget < n0
                try:
                    pr.delivered(x)
                except ValueError:
                    if not small:
                        raise Violation("delivery", "a delivery after %d evaluations is refused with %d observed" % (budget, n0))
                    ST.probe("refused_deliveries")
                    tr("refused")
                    pr.reset()
                    continue
                tr("delivered", x, len(w.log))
                if small:
                    raise Violation("delivery", "a delivery from a smaller budget (%d, observed %d) is accepted" % (budget, n0))
                if len(w.log) > n0 + 1:
                    raise Violation("delivery", "a delivery costs %d observed evaluations" % (len(w.log) - n0))
                if not any(v == w.f(x) for _, v in w.log):
                    raise Violation("lost", "the delivered solution %r with value %r was never observed" % (x, w.f(x)))
                ST.probe("recorded_deliveries" if len(w.log) > n0 else "known_deliveries")
                if pr.best_observed_fvalue1 != min(v for _, v in w.log):
                    raise Violation("best", "best observed value %r" % pr.best_observed_fvalue1)
                if bool(pr.final_target_hit) != (min(v for _, v in w.log) <= 0):
                    raise Violation("hit", "final_target_hit is %r" % pr.final_target_hit)
    except OptimizerError:
        ST.probe("escaped_errors")
        tr("escaped")
    observed = [q for q in w.opened if q.observer is not None]
    if len(w.opened) != 2 or len(observed) != 1 or observed[0].observer is not obs:
        raise Violation("open", "%d problems are opened, %d observed" % (len(w.opened), len(observed)))
    for q in w.opened:
        if q.freed != 1:
            raise Violation("free", "a problem is freed %d times" % q.freed)
    return tr


PROPS = {"C10": (gen10, check10), "C19": (gen19, check19), "C20": (gen20, check20)}


def execute(p):
    """-> (class, message, trace)"""
    ST.d["sims"] += 1
    try:
        tr = PROPS[p.prop][1](p)
        ST.d["sim_time"] += 1.0
        return "", "", tr.h.hexdigest()
    except Violation as v:
        return v.cls, v.msg, "violated"
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        tb = e.__traceback__
        where = ""
        while tb is not None:
            if tb.tb_frame.f_code.co_filename == SRC:
                where = "utilities.%s" % tb.tb_frame.f_code.co_name
            tb = tb.tb_next
        if not where:
            raise
        return "exception", "%s raised %s: %s" % (where, type(e).__name__, e), "violated"


def opts(argv):
    o, pos, i = {}, [], 0
    while i < len(argv):
        if argv[i].startswith("--") and i + 1 < len(argv):
            o[argv[i][2:]] = argv[i + 1]
            i += 2
        else:
            pos.append(argv[i])
            i += 1
    return pos, o


def main():
    pos, o = opts(sys.argv[1:])
    signal.signal(signal.SIGALRM, lambda *a: os._exit(5))
    if pos[0] == "gen":
        sys.stdout.write(PROPS[o["prop"]][0](int(o["seed"])).text())
        return 0
    if pos[0] == "replay":
        signal.alarm(60)
        p = Plan.parse(open(pos[1]).read())
        cls, msg, tr = execute(p)
        print("RESULT %s\t%s\t%s\ttrace=%s" % ("violation" if cls else "ok", cls, msg.replace("\t", " ").replace("\n", " "), tr))
        return 1 if cls else 0
    t0, seed0, n = time.time(), int(o["seed0"]), int(o["count"])
    budget = float(o.get("budget", "1e9"))
    chain = hashlib.blake2b(digest_size=8)
    rc = done = 0
    for k in range(n):
        if time.time() - t0 >= budget:
            break
        signal.alarm(60)
        p = PROPS[o["prop"]][0](seed0 + k)
        p = Plan.parse(p.text())
        if "state" in o:
            open(o["state"], "w").write(p.text())
        ops0 = ST.d["ops"]
        cls, msg, tr = execute(p)
        ST.d["runs"] += 1
        done += 1
        chain.update(tr.encode())
        ST.traces.add(tr)
        if ST.d["ops"] - ops0 >= 4:
            ST.progs.add(tr)
        if len(ST.samples) < 2 and k % 7 == 3:
            ST.samples.append(p.text()[:1500])
        if cls:
            if "plan" in o:
                open(o["plan"], "w").write(p.text())
            print("VIOLATION seed=%d\t%s\t%s" % (p.seed, cls, msg.replace("\n", " ")))
            rc = 1
            break
    if "stats" in o:
        json.dump(dict(ST.d, wall=time.time() - t0, chain=chain.hexdigest(), fired=ST.fired, probes=ST.probes, traces=sorted(ST.traces), ileaves=sorted(ST.ileaves),
                       progs=sorted(ST.progs), samples=ST.samples), open(o["stats"], "w"))
    print("DONE runs=%d chain=%s" % (done, chain.hexdigest()))
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
