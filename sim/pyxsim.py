#!/usr/bin/env python3
"""Simulator for the compiled interface of the Python package (Suite, Problem, Observer, BareProblem).

run --prop C21 --seed0 S --count N [--budget T] [--plan F] [--state F] [--stats F] | replay FILE | gen --prop C21 --seed S
(with --site DIR and --oracle LIB, see build.py). A plan is a text file of tab-separated lines. Each plan is run twice, each
time in a forked process with a working directory of its own: first by a small reference model of the
interface on top of the C library (ctypes), then by the package itself, where the plan alone decides when
references are dropped, when the garbage collector runs, where user code raises and when the interpreter ends."""
import ctypes as C, gc, hashlib, json, os, random, shutil, signal, struct, sys, tempfile, time

from pysim import Plan, Stats, opts
ST = Stats()
NS, NP, NO, NG, NB = 3, 6, 3, 2, 2      # slots for suites, problems, observers, iterators, bare problems
OPTS = {}


class Skip(Exception):
    pass


def hexd(v):
    return struct.pack(">d", float(v)).hex()


def point(code, n, lo, hi):
    """the point a code of a plan stands for"""
    k, _, a = code.partition(":")
    r = random.Random("pt-" + a)
    if k == "u":
        return [r.uniform(-5, 5) for _ in range(n)]
    if k == "w":
        return [r.uniform(-50, 50) for _ in range(n)]
    if k == "g":
        return [float(r.randint(-5, 5)) for _ in range(n)]
    if k == "z":
        return [0.0] * n
    if k == "lo":
        return list(lo)
    if k == "hi":
        return list(hi)
    x = [r.uniform(-5, 5) for _ in range(n)]
    x[r.randrange(n)] = {"nan": float("nan"), "inf": float("inf"), "ninf": float("-inf"), "big": 1e300}[k]
    return x


# ---------------------------------------------------------------- the plan
SUITES = [
    ("bbob", ["", "instances: 1-3", "instances: 5,2", "year: 2016"], [2, 3, 5], 24, 3, ["bbob", "bbob", "bbob", "toy", "rw"]),
    ("bbob-boxed", ["", "instances: 1-3"], [2, 3, 5], 24, 3, ["bbob"]),
    ("bbob-noisy", ["", "instances: 1-3"], [2, 3, 5], 30, 3, ["bbob"]),
    ("bbob-constrained", ["", "instances: 1-3"], [2, 3, 5], 54, 3, ["bbob", "bbob", "rw"]),
    ("bbob-largescale", ["", "instances: 1-3"], [20], 24, 3, ["bbob"]),
    ("bbob-mixint", ["", "instances: 1-3"], [5, 10], 24, 3, ["bbob"]),
    ("bbob-biobj", ["", "instances: 1-3"], [2, 3, 5], 55, 3, ["bbob-biobj", "bbob-biobj", "rw"]),
    ("bbob-biobj-ext", ["", "instances: 1-2"], [2, 3, 5], 92, 2, ["bbob-biobj"]),
    ("bbob-biobj-mixint", ["", "instances: 1-2"], [5, 10], 92, 2, ["bbob-biobj"]),
]


def gen(seed):
    r = random.Random("C21-%d" % seed)
    p = Plan("C21", seed)
    p.env["end"] = r.choice(["clean", "clean", "exit", "exit", "exitgc"])
    L = p.lines
    kinds = [r.choice(SUITES) for _ in range(r.choice([1, 1, 2, 3]))]
    fam = {}

    def suite_line(s):
        name, insts, dims, nf, ni, obs = kinds[s % len(kinds)]
        fam[s] = kinds[s % len(kinds)]
        d = sorted(r.sample(dims, min(len(dims), r.choice([1, 1, 2]))))
        f = sorted(r.sample(range(1, nf + 1), r.choice([1, 1, 2, 3])))
        o = ["dimensions: " + ",".join(map(str, d))]
        if r.random() < 0.9:
            o.append("function_indices: " + ",".join(map(str, f)))
        else:
            o[0] = "dimensions: %d" % d[0]
            o.append("function_indices: %d-%d" % (f[0], min(nf, f[0] + 1)))
        if r.random() < 0.8:
            o.append("instance_indices: " + r.choice(["1", "1-2", "2", "1,2"]))
        r.shuffle(o)
        L.append(["suite", s, name, r.choice(insts), " ".join(o)])

    def obs_line(o, s=None):
        names = fam[s][5] if s in fam else ["bbob"]
        n = r.choice(names) if r.random() < 0.95 else "no_observer"
        opt = ["result_folder: r%d" % o]
        if r.random() < 0.3:
            opt.append("algorithm_name: ALG%d" % o)
        if r.random() < 0.2 and n != "no_observer":
            opt.append("number_target_triggers: %d" % r.choice([1, 5, 20]))
        if n == "bbob-biobj" and r.random() < 0.15:
            opt.append("log_nondominated: read")
        form = r.choice(["str", "str", "bytes"]) if len(opt) > 1 else r.choice(["str", "bytes", "dict"])
        L.append(["obs", o, n, " ".join(opt), form])

    def pt():
        z = r.random()
        k = "u" if z < 0.6 else r.choice(["w", "g", "z", "lo", "hi", "nan", "inf", "ninf", "big"])
        return "%s:%d" % (k, r.randrange(10 ** 6))

    def form():
        return r.choice(["list", "list", "arr", "arr", "tuple", "f32", "strided", "ro", "fort", "row", "col", "short", "long", "empty", "str", "none", "obj"]) if r.random() < 0.4 else r.choice(["list", "arr"])

    for s in range(len(kinds)):
        suite_line(s)
    for o in range(r.choice([0, 1, 1, 2])):
        obs_line(o, r.randrange(len(kinds)))
    S = lambda: r.randrange(len(kinds))

    def filled(ops, pos, n):
        """a slot that was filled before, mostly"""
        have = sorted(set(l[pos] for l in L if l[0] in ops))
        return r.choice(have) if have and r.random() < 0.93 else r.randrange(n)
    GETS = ("next", "get", "fdi", "idsget")
    P = lambda: filled(GETS, 2, NP)
    O = lambda: filled(("obs",), 1, NO)
    G = lambda: filled(("iter",), 2, NG)
    Q = lambda: r.randrange(r.choice([2, NP]))
    mo = lambda: r.choice([-1, O()])
    L.append(["next", S(), Q(), mo()] if r.random() < 0.7 else ["get", S(), Q(), "i", r.randrange(100), mo()])
    n = r.choice([8, 15, 25, 40, 60])
    while len(L) < n:
        z = r.random()
        if z < 0.10:
            L.append(["next", S(), Q(), mo()])
        elif z < 0.17:
            L.append(["get", S(), Q(), r.choice(["i", "i", "np", "fl", "id", "item", "neg", "far", "bad", "half"]), r.randrange(100), mo()])
        elif z < 0.20:
            L.append(["fdi", S(), Q(), r.choice(["in", "in", "in", "no", "negf"]), r.randrange(100), mo()])
        elif z < 0.22:
            L.append(["idsget", S(), Q(), r.randrange(100)])
        elif z < 0.25:
            L.append(["iter", S(), r.randrange(NG)])
        elif z < 0.31:
            L.append([r.choice(["inext", "inext", "inext", "inext", "iclose", "ithrow", "idrop"]), G(), Q()])
        elif z < 0.34:
            L.append([r.choice(["reset", "sprops", "ids"]), S(), r.randrange(100)])
        elif z < 0.50:
            q = P()
            for _ in range(r.choice([1, 1, 2, 5])):
                L.append(["eval", q, pt(), form()])
        elif z < 0.55:
            L.append(["cons", P(), pt(), form()])
        elif z < 0.60:
            L.append(["rec", P(), pt(), form()])
        elif z < 0.66:
            L.append([r.choice(["props", "evals", "init", "str", "lfvi"]), P()])
        elif z < 0.675:
            L.append(["scribble", P(), S()])
        elif z < 0.69:
            q = P()
            L.append(["feed", q, r.randrange(10 ** 6), r.randint(1, 9), form()]) if any(l[0] == "obs" and "read" in l[3] for l in L) else L.append(["scribble", q, S()])
        elif z < 0.70:
            L.append(["proposal", P(), r.choice(["none", "0", "1", "3"]), r.randrange(1000)])
        elif z < 0.74:
            if r.random() < 0.6:
                L.append(["gc"])
            q = P()
            L.append([r.choice(["observe", "oobserve", "add"]), q, O()])
            for _ in range(r.choice([0, 1, 3, 6])):
                L.append(["eval", q, pt(), form()])
        elif z < 0.76:
            L.append(["restart", O(), P()])
        elif z < 0.81:
            L.append([r.choice(["pfree", "pfree", "pforce", "with", "withexc"]), P()])
        elif z < 0.85:
            L.append([r.choice(["pdrop", "palias", "cycle", "cycle2", "pcycle"]), P(), Q()])
        elif z < 0.88:
            L.append(["gc"])
        elif z < 0.91:
            o = O()
            s = S()
            obs_line(o, s) if r.random() < 0.5 else L.append([r.choice(["ofree", "odrop", "oprops", "ocycle"]), o])
        elif z < 0.93:
            s = S()
            if r.random() < 0.5:
                suite_line(s)
            else:
                L.append([r.choice(["sfree", "sfree", "sdrop", "scycle"]), s])
        elif z < 0.95:
            L.append([r.choice(["badsuite", "badobs", "rawproblem", "loglevel", "resetseeds"]), r.randrange(100)])
        elif z < 0.97:
            L.append(["bare", r.randrange(NB), r.choice([r.randint(1, 24), r.randint(1, 24), 0, 25]), r.choice([2, 3, 5, 7, 2, 3, 5, 7, 2, 3, 0, 1, 45, 64]), r.randint(1, 60), r.randrange(2)])
        else:
            b = filled(("bare",), 1, NB)
            L.append([r.choice(["beval", "beval", "bbatch", "bprops", "bdrop", "bbest"]), b, pt(), form(), r.randint(0, 4)])
    return p


# ---------------------------------------------------------------- the reference model
class Lib:
    """the functions of coco.h, by ctypes"""
    def __init__(self, path):
        l = C.CDLL(path)
        P, S, D, Z = C.c_void_p, C.c_char_p, C.POINTER(C.c_double), C.c_size_t
        for n, res, args in [
                ("coco_suite", P, [S, S, S]), ("coco_suite_free", None, [P]), ("coco_suite_get_next_problem", P, [P, P]), ("coco_suite_get_problem", P, [P, Z]),
                ("coco_suite_get_problem_by_function_dimension_instance", P, [P, Z, Z, Z]), ("coco_observer", P, [S, S]), ("coco_observer_free", None, [P]),
                ("coco_observer_get_result_folder", S, [P]), ("coco_observer_signal_restart", None, [P, P]), ("coco_problem_add_observer", P, [P, P]), ("coco_problem_free", None, [P]),
                ("coco_problem_get_initial_solution", None, [P, D]), ("coco_evaluate_function", None, [P, D, D]), ("coco_evaluate_constraint", None, [P, D, D]),
                ("coco_recommend_solution", None, [P, D]), ("coco_problem_get_suite_dep_index", Z, [P]), ("coco_problem_get_dimension", Z, [P]),
                ("coco_problem_get_number_of_objectives", Z, [P]), ("coco_problem_get_number_of_constraints", Z, [P]), ("coco_problem_get_number_of_integer_variables", Z, [P]),
                ("coco_problem_get_id", S, [P]), ("coco_problem_get_name", S, [P]), ("coco_problem_get_smallest_values_of_interest", D, [P]),
                ("coco_problem_get_largest_values_of_interest", D, [P]), ("coco_problem_get_largest_fvalues_of_interest", D, [P]), ("coco_problem_get_evaluations", Z, [P]),
                ("coco_problem_get_evaluations_constraints", Z, [P]), ("coco_reset_seeds", None, []), ("coco_problem_get_best_observed_fvalue1", C.c_double, [P]),
                ("coco_problem_final_target_hit", C.c_int, [P]), ("coco_set_log_level", S, [S]), ("coco_get_bbob_problem", P, [Z, Z, Z]), ("coco_problem_get_best_value", C.c_double, [P]), ("coco_problem_get_best_parameter", C.c_int, [P, C.POINTER(C.c_double)]), ("coco_problem_is_tainted", C.c_int, [P]),
                ("coco_problem_get_best_parameter", C.c_int, [P, D]), ("coco_problem_is_tainted", C.c_int, [P]), ("coco_logger_biobj_feed_solution", C.c_int, [P, Z, D]), ("sim_py_live", C.c_long, [])]:
            f = getattr(l, n)
            f.restype, f.argtypes = res, args
            setattr(self, n[5:] if n.startswith("coco_") else n, f)


def arr(x):
    return (C.c_double * max(1, len(x)))(*x)


def pid(s, k):
    """the number after '_f' or '_i' of a problem id"""
    i = s.find(k)
    return int(s[i + len(k):].split("_")[0])


class MProblem:
    def __init__(self, lib, ptr, suite):
        self.l, self.c, self.suite, self.obs = lib, ptr, suite, []
        self.n, self.m, self.k = lib.problem_get_dimension(ptr), lib.problem_get_number_of_objectives(ptr), lib.problem_get_number_of_constraints(ptr)
        self.ni = lib.problem_get_number_of_integer_variables(ptr)
        self.index = lib.problem_get_suite_dep_index(ptr)
        self.lo = [lib.problem_get_smallest_values_of_interest(ptr)[i] for i in range(self.n)]
        self.hi = [lib.problem_get_largest_values_of_interest(ptr)[i] for i in range(self.n)]
        self.calls = 0

    def free(self):
        if self.c:
            self.l.problem_free(self.c)
            self.c = None
            for o in self.obs:
                o.open.discard(self)


class MSuite:
    def __init__(self, lib, name, inst, opt):
        lib.reset_seeds()
        self.l, self.args = lib, (name, inst, opt)
        s = lib.suite(name.encode(), inst.encode(), opt.encode())
        self.items = []
        while True:
            p = lib.suite_get_next_problem(s, None)
            if not p:
                break
            self.items.append((lib.problem_get_suite_dep_index(p), lib.problem_get_id(p).decode(), lib.problem_get_name(p).decode(), lib.problem_get_dimension(p),
                               lib.problem_get_number_of_objectives(p)))
        lib.suite_free(s)
        self.c = lib.suite(name.encode(), inst.encode(), opt.encode())
        self.open, self.cur, self.idx = True, None, None

    def reset(self):
        if self.cur:
            self.cur.free()
        self.cur, self.idx = None, None

    def make(self, i):
        return MProblem(self.l, self.l.suite_get_problem(self.c, self.items[i][0]), self)

    def next(self):
        if self.cur:
            self.cur.free()
        self.idx = -1 if self.idx is None else self.idx
        self.idx += 1
        self.cur = self.make(self.idx) if self.idx < len(self.items) else None
        return self.cur


class MObserver:
    def __init__(self, lib, name, opt):
        self.name, self.opt, self.open, self.freed = name, opt, set(), False
        self.c = lib.observer(name.encode(), opt.encode())
        self.folder = (lib.observer_get_result_folder(self.c) or b"").decode()


class MIter:
    def __init__(self, s):
        self.s, self.started, self.done, self.last = s, False, False, None


EXC = ["exc"]       # an exception, whatever its class
ANY = ["any"]       # whatever, as long as the interpreter survives


class Model:
    def __init__(self, lib, plan):
        self.l = lib
        self.s, self.p, self.o, self.g, self.b = {}, {}, {}, {}, {}
        self.limbo = []         # in a cycle, until the collector runs
        self.every = []

    # what is still referenced
    def live(self):
        out = set()
        for x in list(self.p.values()) + self.limbo:
            if isinstance(x, MProblem):
                out.add(x)
        suites = list(self.s.values()) + [x for x in self.limbo if isinstance(x, MSuite)]
        for g in self.g.values():
            suites.append(g.s)
            out.add(g.last)
        for s in suites:
            out.add(s.cur)
        return out

    def collect(self):
        self.limbo = []
        live = self.live()
        for q in self.every:
            if q not in live:
                q.free()
        self.every = [q for q in self.every if q.c]

    def slot(self, d, k):
        if k not in d:
            raise Skip()
        return d[k]

    def reg(self, q):
        if q and q not in self.every:
            self.every.append(q)
        return q

    def pt(self, q, code):
        return point(code, q.n, q.lo, q.hi)

    def attach(self, q, o):
        q.c = self.l.problem_add_observer(q.c, o.c)
        q.obs.append(o)
        if o.c:
            o.open.add(q)

    def can_attach(self, m, o, suite, ignore=None):
        """legal by the documentation of the observers"""
        if o.freed:
            raise Skip()
        if any(q.c for q in o.open if q is not ignore):
            raise Skip()
        bi = o.name == "bbob-biobj"
        if o.name not in ("no_observer", "rw") and bi != (m == 2):
            raise Skip()
        if o.name == "toy" and suite.args[0] != "bbob":
            raise Skip()

    def ident(self, q):
        i = self.l.problem_get_id(q.c).decode()
        return [i, self.l.problem_get_name(q.c).decode(), q.index, q.n, q.m, q.k, q.ni, pid(i, "_f"), pid(i, "_i")]

    def taken(self, q, slot):
        """a problem handed out to a slot"""
        self.reg(q)
        if slot in self.p:
            self.p.pop(slot)
        if q is not None:
            self.p[slot] = q
        return ["val", self.ident(q) if q is not None else None]

    def obs_or_none(self, k, m, s, ignore=None):
        if k < 0 or k not in self.o:
            return None
        self.can_attach(m, self.o[k], s, ignore)
        return self.o[k]

    # ---- operations: return what must be observed
    def op_suite(self, k, name, inst, opt):
        k = int(k)
        self.s.pop(k, None)
        self.s[k] = s = MSuite(self.l, name, inst, opt)
        return ["val", [len(s.items), [i[1] for i in s.items]]]

    def op_sprops(self, k, _=0):
        s = self.slot(self.s, int(k))
        I = s.items
        return ["val", [len(I), [i[1] for i in I], [i[2] for i in I], sorted(set(i[3] for i in I)), sorted(set(i[4] for i in I)), [i[0] for i in I], s.idx,
                        self.ident(s.cur) if s.cur and s.cur.c else None]]

    def op_ids(self, k, a):
        s = self.slot(self.s, int(k))
        r = random.Random(int(a))
        one = r.choice(s.items)[1] if s.items else "x"
        sn = [r.choice(one.split("_")) for _ in range(r.choice([0, 1, 1, 2]))]
        return ["val", [sn, [i[1] for i in s.items if all(t in i[1] for t in sn)]]]

    def op_reset(self, k, _=0):
        self.slot(self.s, int(k)).reset()
        return ["val", None]

    def op_next(self, k, slot, o):
        s = self.slot(self.s, int(k))
        if not s.open:
            return EXC
        i = (-1 if s.idx is None else s.idx) + 1
        ob = None
        if i < len(s.items):
            ob = self.obs_or_none(int(o), s.items[i][4], s, s.cur)
        q = s.next()
        if q and ob:
            self.attach(q, ob)
        return self.taken(q, int(slot))

    def op_get(self, k, slot, how, a, o):
        s = self.slot(self.s, int(k))
        a, n = int(a), len(s.items)
        if how == "neg":
            return ANY + [-1 - a % max(1, n)]
        if not s.open or not n:
            return EXC + [a]
        if how in ("far", "bad", "half"):
            return EXC + [a]
        i = a % n
        if how == "id":
            i = [x[1] for x in s.items].index(s.items[i][1])
        ob = self.obs_or_none(int(o), s.items[i][4], s)
        q = s.make(i)
        if ob:
            self.attach(q, ob)
        return self.taken(q, int(slot)) + [s.items[i][1] if how == "id" else i]

    def op_fdi(self, k, slot, how, a, o):
        s = self.slot(self.s, int(k))
        a, n = int(a), len(s.items)
        if how == "negf":
            return EXC + [[-1, 2, 1]]
        if how == "no":
            return EXC + [[1 + a % 24, 4, 1]]
        if not n:
            raise Skip()
        x = s.items[a % n]
        t = [pid(x[1], "_f"), x[3], pid(x[1], "_i")]
        if not s.open:
            return EXC + [t]
        ob = self.obs_or_none(int(o), x[4], s)
        c = self.l.suite_get_problem_by_function_dimension_instance(s.c, *t)
        if not c:
            return EXC + [t]
        q = MProblem(self.l, c, s)
        if ob:
            self.attach(q, ob)
        return self.taken(q, int(slot)) + [t]

    def op_idsget(self, k, slot, a):
        s = self.slot(self.s, int(k))
        if not s.open or not s.items:
            raise Skip()
        x = s.items[int(a) % len(s.items)][1]
        return self.taken(s.make([i[1] for i in s.items].index(x)), int(slot)) + [x.split("_")]

    def op_iter(self, k, g):
        self.g[int(g)] = MIter(self.slot(self.s, int(k)))
        return ["val", None]

    def op_inext(self, g, slot):
        it = self.slot(self.g, int(g))
        if it.done:
            return ["stop"]
        it.last = None
        if not it.started:
            it.started = True
            it.s.reset()
        if not it.s.open:
            it.done = True
            return EXC
        q = it.s.next()
        if q is None:
            it.done = True
            return ["stop"]
        it.last = q
        return self.taken(q, int(slot))

    def op_iclose(self, g, _):
        it = self.slot(self.g, int(g))
        it.done, it.last = True, None
        return ["val", None]

    def op_ithrow(self, g, _):
        it = self.slot(self.g, int(g))
        it.done, it.last = True, None
        return ["exc"]

    def op_idrop(self, g, _):
        self.slot(self.g, int(g))
        self.g.pop(int(g))
        return ["val", None]

    def judged(self, q, form, need):
        """how an argument must be treated: None: like a vector of the right size"""
        if not q.c:
            return EXC
        if form in ("short", "long", "empty", "str", "none", "obj"):
            return EXC
        return None

    def op_eval(self, k, code, form):
        q = self.slot(self.p, int(k))
        j = self.judged(q, form, True)
        x = self.pt(q, code)
        if j:
            return j + [x]
        if form in ("row", "col"):
            return ["either", x]
        if any("read" in o.opt for o in q.obs):
            raise Skip()
        x = self.cast(x, form)
        y = arr([0.0] * q.m)
        self.l.evaluate_function(q.c, arr(x), y)
        return ["val", [hexd(v) for v in y][:q.m], x]

    def cast(self, x, form):
        return [struct.unpack("f", struct.pack("f", v))[0] if abs(v) < 1e38 or v != v or v in (float("inf"), float("-inf")) else v for v in x] if form == "f32" else x

    def op_cons(self, k, code, form):
        q = self.slot(self.p, int(k))
        x = self.pt(q, code)
        if q.k == 0:
            return (["val", None] if q.c else ANY) + [x]
        j = self.judged(q, form, True)
        if j:
            return j + [x]
        if form in ("row", "col"):
            return ["either", x]
        x = self.cast(x, form)
        y = arr([0.0] * q.k)
        self.l.evaluate_constraint(q.c, arr(x), y)
        return ["val", [hexd(v) for v in y][:q.k], x]

    def op_rec(self, k, code, form):
        q = self.slot(self.p, int(k))
        x = self.pt(q, code)
        j = self.judged(q, form, True)
        if j:
            return j + [x]
        if form in ("row", "col"):
            return ["either", x]
        if not all(v == v and abs(v) < 1e200 for v in x) or any("read" in o.opt for o in q.obs):
            raise Skip()
        x = self.cast(x, form)
        self.l.recommend_solution(q.c, arr(x))
        return ["val", None, x]

    def op_feed(self, k, seed, step, form):
        """a solution from an archive"""
        q = self.slot(self.p, int(k))
        r = random.Random("feed-" + seed)
        y = [r.choice([-1, 1]) * r.choice([1, 10, 1000]) * r.random() for _ in range(q.m)]
        q.fed = getattr(q, "fed", 0) + int(step)
        j = self.judged(q, form, True)
        if j:
            return j + [q.fed, y]
        if form in ("row", "col") or not q.obs or "read" not in q.obs[-1].opt:
            raise Skip()
        y = self.cast(y, form)
        return ["val", self.l.logger_biobj_feed_solution(q.c, q.fed, arr(y)), q.fed, y]

    def op_scribble(self, k, s):
        self.slot(self.p, int(k)), self.slot(self.s, int(s))
        return ["val", None]

    def op_props(self, k):
        q = self.slot(self.p, int(k))
        base = [q.n, q.m, q.k, q.ni, [hexd(v) for v in q.lo], [hexd(v) for v in q.hi], q.index, len(q.obs)]
        return ["val", base + [self.ident(q) if q.c else None]]

    def op_evals(self, k):
        q = self.slot(self.p, int(k))
        if not q.c:
            return EXC
        hit = self.l.problem_final_target_hit(q.c) if q.m == 1 else 0
        return ["val", [self.l.problem_get_evaluations(q.c), self.l.problem_get_evaluations_constraints(q.c),
                        hexd(self.l.problem_get_best_observed_fvalue1(q.c)) if q.m == 1 else None, bool(hit)], q.m]

    def op_init(self, k):
        q = self.slot(self.p, int(k))
        if not q.c:
            return EXC
        y = arr([0.0] * q.n)
        self.l.problem_get_initial_solution(q.c, y)
        return ["val", [hexd(v) for v in y]]

    def op_lfvi(self, k):
        q = self.slot(self.p, int(k))
        if not q.c:
            return ANY
        v = self.l.problem_get_largest_fvalues_of_interest(q.c) if q.m > 1 else None
        return ["val", [hexd(v[i]) for i in range(q.m)] if v else None]

    def op_str(self, k):
        q = self.slot(self.p, int(k))
        return ["str", self.l.problem_get_id(q.c).decode() if q.c else ""]

    def op_proposal(self, k, n, seed):
        q = self.slot(self.p, int(k))
        if not q.c:
            return ANY
        t = int(n) if n != "none" else q.calls
        if n == "none":
            q.calls += 1
        y = arr([0.0] * q.n)
        self.l.problem_get_initial_solution(q.c, y)
        if t <= 0:
            return ["val", [hexd(v) for v in y]]
        return ["in", [[v - 1, v + 1] if q.k else [a, b] for v, a, b in zip(y, q.lo, q.hi)], [[a, b] for a, b in zip(q.lo, q.hi)], q.ni]

    def op_observe(self, k, o):
        q, ob = self.slot(self.p, int(k)), self.slot(self.o, int(o))
        if not q.c:
            return EXC if not ob.freed else ANY
        self.can_attach(q.m, ob, q.suite)
        if any(b.name == "toy" for b in q.obs):
            raise Skip()
        self.attach(q, ob)
        return ["val", None]
    op_oobserve = op_add = op_observe

    def op_restart(self, o, k):
        q, ob = self.slot(self.p, int(k)), self.slot(self.o, int(o))
        if not q.c:
            return EXC if not ob.freed and ob.c else ANY
        if ob.freed or q.obs and q.obs[-1] is not ob and q.obs[-1].name == ob.name:
            raise Skip()
        self.l.observer_signal_restart(ob.c, q.c)
        return ["val", None]

    def op_pfree(self, k):
        self.slot(self.p, int(k)).free()
        return ["val", None]
    op_pforce = op_with = op_pfree
    op_withexc = op_pfree

    def op_pdrop(self, k, _=0):
        self.slot(self.p, int(k))
        self.p.pop(int(k))
        return ["val", None]

    def op_palias(self, k, j):
        q = self.slot(self.p, int(k))
        self.p[int(j)] = q
        return ["val", None]

    def op_cycle(self, k, j):
        q = self.slot(self.p, int(k))
        self.p.pop(int(k))
        self.limbo.append(q)
        return ["val", None]
    op_cycle2 = op_cycle

    def op_pcycle(self, k, j):
        """two problems (and what they refer to) in one cycle"""
        a, b = self.slot(self.p, int(k)), self.slot(self.p, int(j))
        self.p.pop(int(k))
        self.p.pop(int(j), None)
        self.limbo += [a, b]
        return ["val", None]

    def op_gc(self):
        self.collect()
        return ["val", None]

    def op_obs(self, k, name, opt, form):
        k = int(k)
        self.o.pop(k, None)
        self.o[k] = MObserver(self.l, name, opt)
        return ["val", self.o[k].folder]

    def op_ofree(self, k):
        o = self.slot(self.o, int(k))
        if any(q.c for q in o.open):
            raise Skip()
        if o.c and not o.freed:
            self.l.observer_free(o.c)
        o.freed = True
        return ["val", None]

    def op_odrop(self, k):
        self.slot(self.o, int(k))
        self.o.pop(int(k))
        return ["val", None]

    op_ocycle = op_odrop

    def op_oprops(self, k):
        o = self.slot(self.o, int(k))
        return ANY if o.freed else ["val", o.folder]

    def op_sfree(self, k):
        s = self.slot(self.s, int(k))
        s.open = False
        return ["val", None]

    def op_sdrop(self, k):
        self.slot(self.s, int(k))
        self.s.pop(int(k))
        return ["val", None]

    def op_scycle(self, k):
        self.limbo.append(self.slot(self.s, int(k)))
        self.s.pop(int(k))
        return ["val", None]

    def op_badsuite(self, a):
        return EXC

    def op_badobs(self, a):
        return EXC

    def op_rawproblem(self, a):
        return ANY

    def op_loglevel(self, a):
        old = self.l.set_log_level(b"").decode()
        new = ["error", "warning"][int(a) % 2]
        self.l.set_log_level(new.encode())
        return ["val", [old, new]]

    def op_resetseeds(self, a):
        raise Skip()

    def op_bare(self, k, f, d, i, t):
        k, f, d, i = int(k), int(f), int(d), int(i)
        if not 1 <= f <= 24 or d < 1:
            return EXC
        self.b.pop(k, None)
        c = self.l.get_bbob_problem(f, d, i)
        q = MProblem(self.l, c, None)
        self.b[k] = (q, f, d, i)
        x = arr([0.0] * d)
        return ["val", [self.l.problem_get_id(c).decode(), f, d, i]]

    def op_bprops(self, k, *_):
        q, f, d, i = self.slot(self.b, int(k))
        return ["val", [self.l.problem_get_id(q.c).decode(), f, d, i, hexd(self.l.problem_get_best_value(q.c))]]

    def op_bbest(self, k, *_):
        q, f, d, i = self.slot(self.b, int(k))
        t = self.l.problem_is_tainted(q.c)
        x = (C.c_double * d)()
        if not self.l.problem_get_best_parameter(q.c, x):
            x = None
        return ["val", [bool(t), None if x is None else [hexd(v) for v in x], bool(self.l.problem_is_tainted(q.c))]]

    def op_bdrop(self, k, *_):
        self.slot(self.b, int(k))
        self.b.pop(int(k))
        return ["val", None]

    def op_beval(self, k, code, form, n):
        q = self.slot(self.b, int(k))[0]
        x = self.pt(q, code)
        if form in ("short", "long", "empty", "str", "none", "obj"):
            return EXC + [x]
        if form in ("row", "col", "tuple", "ro"):
            return ["either", x]
        x = self.cast(x, form)
        y = arr([0.0])
        self.l.evaluate_function(q.c, arr(x), y)
        return ["val", [hexd(y[0])], x]

    def op_bbatch(self, k, code, form, n):
        q = self.slot(self.b, int(k))[0]
        n = int(n)
        X = [point("u:%s-%d" % (code, j), q.n, q.lo, q.hi) for j in range(n)]
        if form in ("short", "long"):
            return (EXC if n else ANY) + [X]
        if form not in ("list", "arr"):
            return ["either", X]
        v = []
        for x in X:
            y = arr([0.0])
            self.l.evaluate_function(q.c, arr(x), y)
            v.append(hexd(y[0]))
        return ["val", v, X]


def model_main(lib, plan):
    """-> the expectations, one per operation"""
    m = Model(lib, plan)
    out = []
    for l in plan.lines:
        try:
            out.append(getattr(m, "op_" + l[0])(*l[1:]))
        except Skip:
            out.append(["skip"])
    if plan.env.get("end") == "clean":
        m.s, m.p, m.o, m.g, m.b = {}, {}, {}, {}, {}
        m.collect()
    return out


# ---------------------------------------------------------------- the package itself
class Boom(Exception):
    pass


def shaped(np, x, form):
    n = len(x)
    if form == "list":
        return list(x)
    if form == "tuple":
        return tuple(x)
    a = np.array(x, dtype=float)
    if form == "f32":
        return np.array([v if abs(v) < 1e38 or v != v or v in (float("inf"), float("-inf")) else v for v in x], dtype=np.float32 if all(abs(v) < 1e38 or v != v or v in (float("inf"), float("-inf")) for v in x) else float)
    if form == "strided":
        b = np.full(2 * n, 7.7)
        b[::2] = a
        return b[::2]
    if form == "fort":
        return np.asfortranarray(np.stack([a, a + 1]))[0, :]
    if form == "ro":
        a.flags.writeable = False
        return a
    if form == "row":
        return a.reshape(1, n)
    if form == "col":
        return a.reshape(n, 1)
    if form == "short":
        return a[:-1].copy()
    if form == "long":
        return np.concatenate([a, a[:1]])
    if form == "empty":
        return []
    if form == "str":
        return "not a point"
    if form == "none":
        return None
    if form == "obj":
        return [object() for _ in range(n)]
    return a


class Box:
    pass


class Real:
    def __init__(self):
        import numpy as np, cocoex
        self.np, self.ex = np, cocoex
        self.s, self.p, self.o, self.g, self.b = {}, {}, {}, {}, {}
        self.kept = []
        self.old = [[] for _ in range(5)]     # older than the problems put into them

    def keep(self, v):
        """results must stay what they were"""
        np = self.np
        if isinstance(v, np.ndarray):
            self.kept.append((v, v.tobytes()))
            return [hexd(t) for t in v.ravel()]
        return [hexd(v)]

    def check_kept(self):
        for i, (a, b) in enumerate(self.kept):
            if a.tobytes() != b:
                return "a result returned earlier (number %d) changed afterwards" % i
        return ""

    def ident(self, q):
        return [q.id, q.name, q.index, q.dimension, q.number_of_objectives, q.number_of_constraints, q.number_of_integer_variables, q.id_function, q.id_instance]

    def taken(self, q, slot):
        self.p.pop(slot, None)
        if q is not None:
            self.p[slot] = q
        return self.ident(q) if q is not None else None

    def ob(self, k):
        return self.o.get(int(k)) if int(k) >= 0 else None

    def op_suite(self, e, k, name, inst, opt):
        k = int(k)
        self.s.pop(k, None)
        self.s[k] = s = self.ex.Suite(name, inst, opt)
        return [len(s), s.ids()]

    def op_sprops(self, e, k, _=0):
        s = self.s[int(k)]
        str(s), repr(s)
        cur = s.current_problem
        return [len(s), s.ids(), s.problem_names, s.dimensions, s.number_of_objectives, s.indices, s.current_index, self.ident(cur) if cur is not None and cur.id else None]

    def op_ids(self, e, k, a):
        sn = e[1][0]
        return [sn, self.s[int(k)].ids(*sn)]

    def op_reset(self, e, k, _=0):
        self.s[int(k)].reset()

    def op_next(self, e, k, slot, o):
        return self.taken(self.s[int(k)].next_problem(self.ob(o)) if self.ob(o) is not None else self.s[int(k)].next_problem(), int(slot))

    def op_get(self, e, k, slot, how, a, o):
        s, i = self.s[int(k)], e[-1]
        key = {"i": i, "np": self.np.int64(i) if isinstance(i, int) else i, "fl": i, "id": i, "item": i, "neg": i, "far": len(s) + int(a), "bad": "no_such_%s" % a, "half": 0.5}[how]
        if how == "neg":
            try:
                s.get_problem(key)
            except Exception:
                pass
            return None
        if how == "item" and self.ob(o) is None:
            return self.taken(s[key], int(slot))
        return self.taken(s.get_problem(key, self.ob(o)), int(slot))

    def op_fdi(self, e, k, slot, how, a, o):
        return self.taken(self.s[int(k)].get_problem_by_function_dimension_instance(*e[-1], self.ob(o)), int(slot))

    def op_idsget(self, e, k, slot, a):
        return self.taken(self.s[int(k)].ids("_".join(e[-1]), get_problem=True), int(slot))

    def op_iter(self, e, k, g):
        self.g[int(g)] = iter(self.s[int(k)])

    def op_inext(self, e, g, slot):
        return self.taken(next(self.g[int(g)]), int(slot))

    def op_iclose(self, e, g, _):
        self.g[int(g)].close()

    def op_ithrow(self, e, g, _):
        self.g[int(g)].throw(Boom())

    def op_idrop(self, e, g, _):
        self.g.pop(int(g))

    def call(self, f, x, form):
        a = shaped(self.np, x, form)
        b = None if form in ("none", "obj", "str", "empty") else [hexd(v) for v in self.np.asarray(a, dtype=float).ravel()]
        r = f(a)
        if b is not None and b != [hexd(v) for v in self.np.asarray(a, dtype=float).ravel()]:
            raise AssertionError("the argument was modified")
        return r

    def op_eval(self, e, k, code, form):
        return self.keep(self.call(self.p[int(k)], e[-1], form))

    def op_cons(self, e, k, code, form):
        v = self.call(self.p[int(k)].constraint, e[-1], form)
        return None if v is None else self.keep(v)

    def op_rec(self, e, k, code, form):
        return self.call(self.p[int(k)].recommend, e[-1], form)

    def op_feed(self, e, k, seed, step, form):
        return self.call(lambda a: self.p[int(k)].logger_biobj_feed_solution(e[-2], a), e[-1], form)

    def op_scribble(self, e, k, s):
        """the user writes into what was returned"""
        q, s = self.p[int(k)], self.s[int(s)]
        for a, _ in self.kept:
            if a.flags.writeable:
                a[...] = 77
        self.kept = []
        for a in (q.lower_bounds, q.upper_bounds):
            a[...] = 77
        for a in (q.observers, s.ids(), s.indices, s.problem_names, s.dimensions, s.number_of_objectives):
            del a[:]

    def op_props(self, e, k):
        q = self.p[int(k)]
        return [q.number_of_variables, q.number_of_objectives, q.number_of_constraints, q.number_of_integer_variables, [hexd(v) for v in q.lower_bounds],
                [hexd(v) for v in q.upper_bounds], q.index, q.is_observed, self.ident(q) if q.id is not None else None]

    def op_evals(self, e, k):
        q = self.p[int(k)]
        m = e[-1] if e[0] == "val" else 1
        if e[0] == "exc":
            bad = []
            for n in ("evaluations", "evaluations_constraints", "final_target_hit", "best_observed_fvalue1"):
                try:
                    v = getattr(q, n)
                    bad.append("%s=%r" % (n, v))
                except Exception:
                    pass
            if bad:
                return bad
            raise Boom()
        return [q.evaluations, q.evaluations_constraints, hexd(q.best_observed_fvalue1) if m == 1 else None, bool(q.final_target_hit) if m == 1 else False]

    def op_init(self, e, k):
        return self.keep(self.p[int(k)].initial_solution)

    def op_lfvi(self, e, k):
        v = self.p[int(k)].largest_fvalues_of_interest
        return None if v is None else self.keep(v)

    def op_str(self, e, k):
        return str(self.p[int(k)]) + repr(self.p[int(k)]) + self.p[int(k)].info

    def op_proposal(self, e, k, n, seed):
        self.np.random.seed(int(seed))
        return self.keep(self.p[int(k)].initial_solution_proposal(None if n == "none" else int(n)))

    def op_observe(self, e, k, o):
        self.p[int(k)].observe_with(self.o[int(o)])

    def op_oobserve(self, e, k, o):
        self.o[int(o)].observe(self.p[int(k)])

    def op_add(self, e, k, o):
        self.p[int(k)].add_observer(self.o[int(o)])

    def op_restart(self, e, o, k):
        self.o[int(o)].signal_restart(self.p[int(k)])

    def op_pfree(self, e, k):
        self.p[int(k)].free()

    def op_pforce(self, e, k):
        self.p[int(k)].free(True)

    def op_with(self, e, k):
        with self.p[int(k)]:
            pass

    def op_withexc(self, e, k):
        try:
            with self.p[int(k)]:
                raise Boom()
        except Boom:
            pass

    def op_pdrop(self, e, k, _=0):
        self.p.pop(int(k))

    def op_palias(self, e, k, j):
        self.p[int(j)] = self.p[int(k)]

    def op_cycle(self, e, k, j):
        b = Box()
        b.me, b.q = b, self.p.pop(int(k))

    def op_cycle2(self, e, k, j):
        l = self.old.pop() if self.old else []
        l += [self.p.pop(int(k)), l]

    def op_pcycle(self, e, k, j):
        a, b = Box(), Box()
        a.x, b.x = b, a
        a.q = self.p.pop(int(k))
        b.q = self.p.pop(int(j), None)

    def op_gc(self, e):
        gc.collect()

    def op_obs(self, e, k, name, opt, form):
        k = int(k)
        self.o.pop(k, None)
        if form == "dict":
            a, _, b = opt.partition(": ")
            opt = {a: b}
        elif form == "bytes":
            opt = opt.encode()
        self.o[k] = self.ex.Observer(name, opt)
        return self.o[k].result_folder

    def op_ofree(self, e, k):
        self.o[int(k)].free()

    def op_odrop(self, e, k):
        self.o.pop(int(k))

    def op_ocycle(self, e, k):
        b = Box()
        b.me, b.o = b, self.o.pop(int(k))

    def op_oprops(self, e, k):
        o = self.o[int(k)]
        o.name, o.options, o.state
        return o.result_folder

    def op_sfree(self, e, k):
        self.s[int(k)].free()

    def op_sdrop(self, e, k):
        self.s.pop(int(k))

    def op_scycle(self, e, k):
        b = Box()
        b.me, b.s = b, self.s.pop(int(k))

    def op_badsuite(self, e, a):
        return len(self.ex.Suite(["nosuch", "bbob-nosuch", "", None, 7][int(a) % 5], "", ""))

    def op_badobs(self, e, a):
        self.ex.Observer([7, None, 1.5][int(a) % 3], "")

    def op_rawproblem(self, e, a):
        from cocoex import interface
        q = interface.Problem()
        f = ["evaluations", "evaluations_constraints", "initial_solution", "id", "name", "index", "best_observed_fvalue1", "final_target_hit", "largest_fvalues_of_interest", "id_triple", "info"]
        for n in f:
            try:
                getattr(q, n)
            except Exception:
                pass
        for g in (lambda: q([1, 2]), lambda: q.constraint([1, 2]), lambda: q.recommend([1, 2]), lambda: q.free(), lambda: str(q)):
            try:
                g()
            except Exception:
                pass

    def op_loglevel(self, e, a):
        old = self.ex.log_level()
        new = ["error", "warning"][int(a) % 2]
        self.ex.log_level(new)
        return [old, new]

    def op_bare(self, e, k, f, d, i, t):
        k = int(k)
        name = "".join(["bb", "ob"]) if int(t) else "bbob"
        q = self.ex.BareProblem(name, int(f), int(d), int(i))
        del name
        self.b[k] = q
        return [str(q), q.function, q.dimension, q.instance]

    def op_bprops(self, e, k, *_):
        q = self.b[int(k)]
        if repr(q) != "BareProblem('bbob', %d, %d, %d)" % (q.function, q.dimension, q.instance):
            raise AssertionError("repr is %r" % repr(q))
        return [str(q), q.function, q.dimension, q.instance, hexd(q.best_value())]

    def op_bbest(self, e, k, *_):
        q = self.b[int(k)]
        t = q.is_tainted
        x = q.best_parameter()
        return [t, None if x is None else [hexd(v) for v in x], q.is_tainted]

    def op_bdrop(self, e, k, *_):
        self.b.pop(int(k))

    def op_beval(self, e, k, code, form, n):
        return self.keep(self.call(self.b[int(k)], e[-1], form))

    def op_bbatch(self, e, k, code, form, n):
        np = self.np
        X = np.array(e[-1], dtype=float)
        if X.ndim != 2:
            X = X.reshape(0, self.b[int(k)].dimension)
        X = {"short": X[:, :-1].copy(), "long": np.concatenate([X, X], axis=1), "list": X, "arr": X, "strided": X[::-1], "ro": X, "fort": np.asfortranarray(X)}.get(form, X)
        if form == "ro":
            X.flags.writeable = False
        return self.keep(self.b[int(k)](X))


def canon(v):
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, bytes):
        return v.decode()
    if hasattr(v, "item") and not isinstance(v, str):
        return v.item()
    return v


REAL = None     # global, so that its objects are alive when the interpreter ends


def real_main(plan, expect, log, live):
    """runs the plan with the package; writes one line per operation; -> violation"""
    global REAL
    gc.disable()
    REAL = r = Real()
    base = live()
    for n, (l, e) in enumerate(zip(plan.lines, expect)):
        log.write("start\t%d\t%s\n" % (n, l[0]))
        log.flush()
        if e[0] == "skip":
            continue
        got, exc = None, ""
        try:
            got = canon(getattr(r, "op_" + l[0])(e, *l[1:]))
        except StopIteration:
            exc = "StopIteration"
        except Exception as x:
            exc = type(x).__name__
            text = str(x)
            del x
        what = "operation %d '%s'" % (n, "\t".join(map(str, l)).replace("\t", " "))
        log.write("event\t%s\t%s\n" % (exc, json.dumps(got)))
        if e[0] == "stop":
            if exc != "StopIteration":
                return "result", what + ": the iteration should be over but gives %s" % (exc or got)
        elif e[0] == "exc":
            if not exc or exc == "StopIteration":
                return "noexception", what + ": no exception but %s" % (got,)
        elif e[0] == "val":
            if exc:
                return "exception", what + " raises %s: %s" % (exc, text)
            want = canon(e[1])
            if got != want:
                if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
                    i = [a == b for a, b in zip(got, want)].index(False)
                    what, got, want = what + " (item %d)" % i, got[i], want[i]
                return "result", what + ": %s instead of %s" % (json.dumps(got)[:300], json.dumps(want)[:300])
        elif e[0] == "str":
            if exc:
                return "exception", what + " raises %s: %s" % (exc, text)
            if e[1] not in got:
                return "result", what + ": %s lacks %s" % (got[:200], e[1])
        elif e[0] == "in":
            if exc:
                return "exception", what + " raises %s: %s" % (exc, text)
            vals = [struct.unpack(">d", bytes.fromhex(h))[0] for h in got]
            for i, v in enumerate(vals):
                lo, hi = e[2][i] if i < e[3] else e[1][i]
                if not (lo - 1e-9 <= v <= hi + 1e-9) or (i < e[3] and v != int(v)):
                    return "proposal", what + ": coordinate %d of the proposal is %r, not in [%r, %r]" % (i, v, lo, hi)
        elif e[0] == "either" and not exc:
            pass
    bad = r.check_kept()
    if bad:
        return "alias", bad
    if plan.env.get("end") == "clean":
        log.write("start\t-1\tclean\n")
        log.flush()
        for d in (r.g, r.p, r.s, r.o, r.b):
            d.clear()
        r.kept = []
        gc.collect()
        if live() != base:
            return "leak", "%d blocks of the library are still allocated when nothing refers to it any more" % (live() - base)
    elif plan.env.get("end") == "exitgc":
        gc.collect()
    return None


# ---------------------------------------------------------------- running
def tree(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


class Child(BaseException):
    """unwinds the forked process, which then ends like any interpreter"""


def forked(d, name, fn):
    """runs fn in a forked process in directory d; -> exit status; stdout and stderr go to d/../name.err"""
    os.makedirs(d)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        fd = os.open(os.path.join(os.path.dirname(d), name + ".err"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.chdir(d)
        fn()
        raise Child()
    _, st = os.waitpid(pid, 0)
    return st


def describe(st, err):
    import re
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 67:
        m = re.findall(r"COCO FATAL ERROR: [^\n]*", err)
        return "fatal", "the library ends the interpreter: %s" % (m[-1] if m else err[-200:])
    m = re.search(r"ERROR: AddressSanitizer: ([^\n(]*)", err)
    if m:
        fr = re.findall(r"#\d+ \S+ in (\w+) ", err)
        fr = [f for f in fr if f.startswith(("coco_", "logger_", "observer_", "suite_", "f_", "transform", "__pyx", "bbob", "c_", "problem_"))][:3]
        return "memory", re.sub(r"on address 0x\S+.*|0x[0-9a-f]+", "", m.group(1)).strip() + " in " + " < ".join(fr)
    if os.WIFSIGNALED(st):
        return ("hang", "no progress") if os.WTERMSIG(st) == signal.SIGALRM else ("crash", "signal %d" % os.WTERMSIG(st))
    return "crash", "exit status %d: %s" % (os.WEXITSTATUS(st), err.strip()[-200:])


def execute(p, lib, live):
    """-> (class, message, trace)"""
    ST.d["sims"] += 1
    me = os.getpid()
    top = tempfile.mkdtemp(prefix="pyxsim-", dir=OPTS.get("tmp"))
    try:
        A, B = os.path.join(top, "a"), os.path.join(top, "b")
        ef, rf, lf = os.path.join(top, "expect"), os.path.join(top, "result"), os.path.join(top, "log")

        def model():
            out = model_main(lib, p)
            with open(ef, "w") as f:
                json.dump(out, f)
        st = forked(B, "b", model)
        if st != 0:
            err = open(os.path.join(top, "b.err"), errors="replace").read()
            if "Traceback" in err and "AddressSanitizer" not in err:
                raise RuntimeError("model: " + err[-1500:])
            cls, msg = describe(st, err)
            return "library-" + cls, "the C library itself, on the same calls: " + msg, "violated"
        expect = json.load(open(ef))

        def real():
            with open(lf, "w") as log:
                v = real_main(p, expect, log, live)
                with open(rf, "w") as f:
                    json.dump(v, f)
        st = forked(A, "a", real)
        log = open(lf).read() if os.path.exists(lf) else ""
        if st != 0:
            err = open(os.path.join(top, "a.err"), errors="replace").read()
            if "Traceback" in err and "pyxsim.py" in err and "AddressSanitizer" not in err and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1:
                raise RuntimeError("real: " + err[-1500:])
            cls, msg = describe(st, err)
            last = [l for l in log.split("\n") if l.startswith("start")]
            at = last[-1].split("\t")[2] if last and not os.path.exists(rf) else "the end of the interpreter"
            return cls, "%s, in '%s'" % (msg, at), "violated"
        v = json.load(open(rf))
        if v:
            return v[0], v[1], "violated"
        a, b = tree(A), tree(B)
        ST.probe("files", len(b))
        if set(a) != set(b):
            return "files", "other files: %s" % sorted(set(a) ^ set(b))[:4], "violated"
        for n in b:
            if p.env.get("end") == "clean":
                if a[n] != b[n]:
                    return "files", "file %s has other contents than with the C library" % n, "violated"
        done = [l for l in log.split("\n") if l.startswith("event")]
        ST.d["ops"] += len(done)
        ST.d["seams"] += len(done)
        for l, e in zip(p.lines, expect):
            if e[0] == "skip":
                ST.probe("skipped")
                continue
            if l[0] in ("gc", "cycle", "cycle2", "pcycle", "pdrop", "sdrop", "odrop", "ocycle", "scycle", "idrop", "ithrow", "withexc", "sfree", "pfree", "ofree", "badsuite", "badobs", "scribble"):
                ST.fire(l[0])
            if e[0] == "exc":
                ST.fire("misuse:" + l[0])
        ST.fire("end:" + p.env.get("end", ""))
        h = hashlib.blake2b(digest_size=8)
        h.update(log.encode())
        for n in sorted(a):
            h.update(n.encode() + (a[n] if p.env.get("end") == "clean" else b""))
        return "", "", h.hexdigest()
    finally:
        if os.getpid() == me:
            shutil.rmtree(top, ignore_errors=True)


def main():
    pos, o = opts(sys.argv[1:])
    OPTS.update(o)
    if pos[0] == "gen":
        sys.stdout.write(gen(int(o["seed"])).text())
        return 0
    signal.signal(signal.SIGALRM, lambda *a: os._exit(5))
    sys.path.insert(0, o["site"])
    import numpy, cocoex  # noqa: before the forks
    import cocoex.interface as itf
    lib = Lib(o["oracle"])
    lib.set_log_level(b"error")
    cocoex.log_level("error")
    f = C.CDLL(itf.__file__).sim_py_live
    f.restype = C.c_long
    import cocoex.bare_problem as bp
    f2 = C.CDLL(bp.__file__).sim_py_live
    f2.restype = C.c_long
    live = lambda: f() + f2()
    gc.collect()
    gc.freeze()
    return drive(pos, o, gen, lambda p: execute(p, lib, live))


def drive(pos, o, gen, execute):
    if pos[0] == "replay":
        p = Plan.parse(open(pos[1]).read())
        signal.alarm(150)
        cls, msg, tr = execute(p)
        print("RESULT %s\t%s\t%s\ttrace=%s" % ("violation" if cls else "ok", cls, msg.replace("\t", " ").replace("\n", " "), tr))
        return 1 if cls else 0
    t0, seed0, n = time.time(), int(o["seed0"]), int(o["count"])
    budget = float(o.get("budget", "1e9"))
    chain = hashlib.blake2b(digest_size=8)
    rc = done = 0
    for k in range(n):
        if time.time() - t0 >= budget:
            break
        signal.alarm(150)
        p = Plan.parse(gen(seed0 + k).text())
        if "state" in o:
            open(o["state"], "w").write(p.text())
        ops0 = ST.d["ops"]
        cls, msg, tr = execute(p)
        ST.d["runs"] += 1
        ST.d["sim_time"] += 1.0
        done += 1
        chain.update(tr.encode())
        ST.traces.add(tr)
        ST.ileaves.add(tr)
        if ST.d["ops"] - ops0 >= 4:
            ST.progs.add(tr)
        if len(ST.samples) < 2 and k % 7 == 3:
            ST.samples.append(p.text()[:1500])
        if cls:
            if "plan" in o:
                open(o["plan"], "w").write(p.text())
            print("VIOLATION seed=%d\t%s\t%s" % (p.seed, cls, msg.replace("\n", " ")))
            rc = 1
            break
    if "stats" in o:
        json.dump(dict(ST.d, wall=time.time() - t0, chain=chain.hexdigest(), fired=ST.fired, probes=ST.probes, traces=sorted(ST.traces), ileaves=sorted(ST.ileaves),
                       progs=sorted(ST.progs), samples=ST.samples), open(o["stats"], "w"))
    print("DONE runs=%d chain=%s" % (done, chain.hexdigest()))
    return rc


def toplevel(main):
    try:
        code = main()
    except Child:
        return          # a simulated process: let the interpreter end by itself
    except Exception:
        import traceback
        traceback.print_exc()
        code = 3
        if os.environ.get("SIM_DEBUG"):
            raise
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    toplevel(main)
