#!/usr/bin/env python3
"""Simulator for the Rust interface (build/rust): the crate, called by a driver in safe Rust (sim/host/rustdrv.rs).

Same commands as pyxsim.py; needs --oracle LIB --rust LIB (see build.py). The plan decides the order in which objects are
created, used and dropped, and which calls are wrong; a reference model makes the corresponding calls of the C library
(ctypes) in a process of its own. Results, log files and allocations of the library must be the same, a wrong call must
panic and change nothing."""
import ctypes as C, hashlib, json, os, random, shutil, signal, sys, tempfile

import pyxsim
from pysim import Plan, opts
from pyxsim import Lib, Skip, arr, describe, forked, hexd, pid, point, tree
ST, OPTS = pyxsim.ST, pyxsim.OPTS
NS, NO, NR = 3, 3, 2
# name, dimensions, functions, observers
SUITES = [("bbob", [2, 3, 5, 10], 24, ["bbob", "bbob", "toy"]), ("bbob-biobj", [2, 3, 5], 55, ["bbob-biobj"]), ("bbob-biobj-ext", [2, 3, 5], 92, ["bbob-biobj"]),
          ("bbob-largescale", [20], 24, ["bbob"]), ("bbob-constrained", [2, 3, 5], 54, ["bbob"]), ("bbob-mixint", [5, 10], 24, ["bbob"]),
          ("bbob-biobj-mixint", [5, 10], 92, ["bbob-biobj"]), ("bbob-boxed", [2, 3, 5], 24, ["bbob"]), ("toy", [2, 3], 6, ["toy"])]
NAMES = [s[0] for s in SUITES]
OBS = ["bbob", "bbob-biobj", "toy", "no-observer"]
LEVELS = ["error", "warning", "info", "debug"]


# ---------------------------------------------------------------- the plan
def gen(seed):
    r = random.Random("C24-%d" % seed)
    p = Plan("C24", seed)
    L = p.lines
    kind = [r.choice(SUITES + [SUITES[4]] * 2) for _ in range(NS)]
    if r.random() < 0.5:
        kind = kind[:1] * NS

    def suite_line(s):
        name, dims, nf, _ = kind[s]
        z = r.random()
        inst = r.choice(["", "instances: 1-3", "instances: 5,2", "year: 2016"]) if name == "bbob" else r.choice(["", "instances: 1-3"])
        d = sorted(r.sample(dims, min(len(dims), r.choice([1, 1, 2]))))
        o = ["dimensions: " + ",".join(map(str, d)), "function_indices: " + ",".join(map(str, sorted(r.sample(range(1, nf + 1), r.choice([1, 1, 2, 3])))))]
        if r.random() < 0.8 and name != "toy":
            o.append("instance_indices: " + r.choice(["1", "1-2", "2", "1,2"]))
        r.shuffle(o)
        if z < 0.03:
            inst += "\\0x"
        elif z < 0.06:
            o.append("\\0")
        L.append(["suite", s, name, inst, " ".join(o)])

    def obs_line(o):
        n = r.choice(kind[r.randrange(NS)][3]) if r.random() < 0.95 else "no-observer"
        opt = ["result_folder: r%d" % o]
        if r.random() < 0.3:
            opt.append("algorithm_name: ALG%d" % o)
        if r.random() < 0.2:
            opt.append("number_target_triggers: %d" % r.choice([1, 5, 20]))
        if r.random() < 0.1:
            opt.append(r.choice(["precision_x: 3", "precision_f: 4", "base_evaluation_triggers: 1,3", "log_discrete_as_int: 1"]))
        if r.random() < 0.03:
            opt.append("\\0")
        L.append(["obs", o, n, " ".join(opt)])

    def pt():
        k = "u" if r.random() < 0.6 else r.choice(["w", "g", "z", "lo", "hi", "nan", "inf", "ninf"])
        return "%s:%d" % (k, r.randrange(10 ** 6))

    def form():
        return r.choice(["ok"] * 8 + ["xshort", "xlong", "yshort", "ylong", "empty"])

    have = lambda ops, n: r.choice(sorted(set(l[1] for l in L if l[0] in ops)) or [0]) if r.random() < 0.93 else r.randrange(n)
    S = lambda: have(("suite", "clone"), NS)
    P = lambda: have(("next", "get", "fdi"), NS)
    O = lambda: have(("obs",), NO)
    mo = lambda: r.choice([-1, O()])
    suite_line(0)
    if r.random() < 0.8:
        obs_line(0)
    L.append(["next", 0, mo()] if r.random() < 0.7 else ["get", 0, r.randrange(100)])
    n = r.choice([6, 12, 25, 50, 80])
    while len(L) < n:
        z = r.random()
        if z < 0.12:
            q = S()
            if r.random() < 0.7:
                L.append(["pdrop", q])
            L.append(["next", q, mo()])
        elif z < 0.18:
            L.append(["get", S(), r.choice([r.randrange(90), r.randrange(100), 10 ** 9])])
        elif z < 0.22:
            L.append(["fdi", S(), r.randrange(100)])
        elif z < 0.42:
            q = P()
            for _ in range(r.choice([1, 1, 2, 5])):
                L.append(["eval", q, pt(), form()])
        elif z < 0.48:
            q = P()
            for _ in range(r.choice([1, 3])):
                L.append(["cons", q, pt(), form()])
        elif z < 0.58:
            L.append([r.choice(["props", "props", "evals", "values"]), P()])
        elif z < 0.61:
            L.append(["init", P(), form()])
        elif z < 0.68:
            q = P()
            L.append(["add", q, O()])
            for _ in range(r.choice([0, 1, 3])):
                L.append(["eval", q, pt(), form()])
        elif z < 0.71:
            L.append(["rem", P(), O()])
        elif z < 0.75:
            L.append(["restart", O(), P()])
        elif z < 0.79:
            L.append(["pdrop", P()])
        elif z < 0.82:
            L.append([r.choice(["odrop", "folder"]), O()])
        elif z < 0.84:
            L.append(["sdrop", S()])
        elif z < 0.86:
            L.append(["clone", r.randrange(NS), S()])
        elif z < 0.88:
            L.append([r.choice(["count", "index"]), S(), r.randrange(3), r.randrange(60)])
        elif z < 0.91:
            suite_line(r.randrange(NS))
        elif z < 0.94:
            obs_line(r.randrange(NO))
        elif z < 0.97:
            L.append(["rng", r.randrange(NR), r.choice([r.randrange(2 ** 32), r.randrange(5)])])
        elif z < 0.985:
            L.append(["draw", have(("rng",), NR), r.choice([1, 7, 1300]), r.randrange(2)])
        else:
            L.append(r.choice([["loglevel", r.choice(["error", "warning"])], ["version"], ["rdrop", r.randrange(NR)]]))
    return p


# ---------------------------------------------------------------- the reference model
class Suite:
    pass


class Obs:
    def __init__(self, c, name):
        self.c, self.name, self.on = c, name, set()


class Prob:
    def __init__(self, l, c, suite):
        self.c, self.suite, self.obs, self.seen = c, suite, [], set()
        self.n, self.m, self.k = l.problem_get_dimension(c), l.problem_get_number_of_objectives(c), l.problem_get_number_of_constraints(c)
        self.lo = [l.problem_get_smallest_values_of_interest(c)[i] for i in range(self.n)]
        self.hi = [l.problem_get_largest_values_of_interest(c)[i] for i in range(self.n)]


PANIC = ["panic"]


class Model:
    def __init__(self, lib):
        self.l, self.s, self.o, self.p, self.r = lib, {}, {}, {}, {}

    def get(self, d, k):
        x = d.get(int(k))
        if x is None:
            raise Skip()
        return x

    def suite(self, k):
        """a suite that is not borrowed by its problem"""
        if int(k) in self.p:
            raise Skip()
        return self.get(self.s, k)

    def ident(self, q):
        l = self.l
        return [l.problem_get_id(q.c).decode(), l.problem_get_name(q.c).decode(), None if q.suite.name == "toy" else l.problem_get_type(q.c).decode(), q.n, q.m, q.k,
                l.problem_get_number_of_integer_variables(q.c), l.problem_get_suite_dep_index(q.c), [hexd(v) for v in q.lo], [hexd(v) for v in q.hi]]

    def open(self, args):
        s = Suite()
        s.args, s.name = args, args[0]
        a = [x.encode() for x in args]
        s.c = self.l.suite(*a)
        s.n = self.l.suite_get_number_of_problems(s.c)
        s.valid = []
        for i in range(s.n):
            q = self.l.suite_get_problem(s.c, i)
            if q:
                s.valid.append(i)
                self.l.problem_free(q)
            if len(s.valid) > 40:
                break
        return s

    def op_suite(self, k, name, inst, opt):
        if int(k) in self.s:
            raise Skip()
        if "\\0" in inst + opt:
            return PANIC
        self.s[int(k)] = self.open([name, inst, opt])
        return ["val", None]

    def op_clone(self, k, other):
        if int(k) in self.s:
            raise Skip()
        self.s[int(k)] = self.open(self.suite(other).args)
        return ["val", None]

    def op_sdrop(self, k):
        s = self.suite(k)
        self.l.suite_free(s.c)
        del self.s[int(k)]
        return ["val", None]

    def op_count(self, k, *a):
        return ["val", self.suite(k).n]

    def op_index(self, k, what, i):
        s, i, w = self.suite(k), int(i), int(what)
        if s.name == "toy":
            raise Skip()
        # beyond the suite's numbers the library ends the process
        n = [SUITES[NAMES.index(s.name)][2], 3, 2][w]
        f = [self.l.suite_get_function_from_function_index, self.l.suite_get_dimension_from_dimension_index, self.l.suite_get_instance_from_instance_index][w]
        return ["val", f(s.c, i % n), i % n]

    def take(self, k, c, obs=None):
        if not c:
            return ["val", None]
        q = self.p[int(k)] = Prob(self.l, c, self.s[int(k)])
        if obs:
            q.obs.append(obs)
            obs.on.add(q)
        return ["val", self.ident(q)]

    def fits(self, s, o):
        if o.on or (o.name == "bbob-biobj") != ("biobj" in s.name) or (o.name == "toy" and s.name not in ("bbob", "toy")) or (o.name == "bbob" and s.name == "toy"):
            raise Skip()

    def op_next(self, k, o):
        s, ob = self.suite(k), None
        if int(o) >= 0:
            ob = self.get(self.o, o)
            self.fits(s, ob)
        c = self.l.suite_get_next_problem(s.c, ob.c if ob else None)
        if c:
            self.l.suite_forget_current_problem(s.c)
        return self.take(k, c, ob)

    def op_get(self, k, a):
        s, a = self.suite(k), int(a)
        if not s.valid:
            raise Skip()
        i = s.valid[a % len(s.valid)] if a < 90 else a % s.n if a < 100 else s.n + a % 7
        return self.take(k, self.l.suite_get_problem(s.c, i)) + [i]

    def op_fdi(self, k, a):
        s = self.suite(k)
        if not s.valid or s.name == "toy":
            raise Skip()
        c = self.l.suite_get_problem(s.c, s.valid[int(a) % len(s.valid)])
        x = self.l.problem_get_id(c).decode()
        t = [pid(x, "_f"), self.l.problem_get_dimension(c), pid(x, "_i")]
        self.l.problem_free(c)
        return self.take(k, self.l.suite_get_problem_by_function_dimension_instance(s.c, *t)) + [t]

    def op_pdrop(self, k):
        q = self.get(self.p, k)
        self.l.problem_free(q.c)
        for o in q.obs:
            o.on.discard(q)
        del self.p[int(k)]
        return ["val", None]

    def calc(self, k, code, form, cons):
        q = self.get(self.p, k)
        m = q.k if cons else q.m
        if cons and not q.k:
            raise Skip()        # an error of the C library
        x = point(code, q.n, q.lo, q.hi)
        if form != "ok":
            return PANIC + [x, m]
        y = arr([0.0] * m)
        (self.l.evaluate_constraint if cons else self.l.evaluate_function)(q.c, arr(x), y)
        if not cons and all(v == v and abs(v) < 1e200 for v in x):
            q.seen |= set(q.obs)
        return ["val", [hexd(v) for v in y][:m], x, m]

    def op_eval(self, k, code, form):
        return self.calc(k, code, form, False)

    def op_cons(self, k, code, form):
        return self.calc(k, code, form, True)

    def op_init(self, k, form):
        q = self.get(self.p, k)
        if form in ("yshort", "ylong"):
            raise Skip()
        if form != "ok":
            return PANIC + [[0.0] * q.n, 0]
        x = arr([0.0] * q.n)
        self.l.problem_get_initial_solution(q.c, x)
        return ["val", [hexd(v) for v in x], [0.0] * q.n, 0]

    def op_props(self, k):
        return ["val", self.ident(self.get(self.p, k))]

    def op_evals(self, k):
        q = self.get(self.p, k)
        return ["val", [self.l.problem_get_evaluations(q.c), self.l.problem_get_evaluations_constraints(q.c), int(self.l.problem_final_target_hit(q.c))]]

    def op_values(self, k):
        q = self.get(self.p, k)
        if q.m != 1:
            raise Skip()
        return ["val", [hexd(f(q.c)) for f in (self.l.problem_get_final_target_fvalue1, self.l.problem_get_best_value, self.l.problem_get_best_observed_fvalue1)]]

    def op_add(self, k, o):
        q, ob = self.get(self.p, k), self.get(self.o, o)
        self.fits(q.suite, ob)
        if any(b.name == "toy" for b in q.obs):
            raise Skip()
        q.c = self.l.problem_add_observer(q.c, ob.c)
        q.obs.append(ob)
        ob.on.add(q)
        q.seen.discard(ob)
        return ["val", None]

    def op_rem(self, k, o):
        q, ob = self.get(self.p, k), self.get(self.o, o)
        if not q.obs or q.obs[-1] is not ob:
            raise Skip()
        q.c = self.l.problem_remove_observer(q.c, ob.c)
        q.obs.pop()
        ob.on.discard(q)
        return ["val", None]

    def op_restart(self, o, k):
        q, ob = self.get(self.p, k), self.get(self.o, o)
        self.l.observer_signal_restart(ob.c, q.c)
        return ["val", None]

    def op_obs(self, k, name, opt):
        if int(k) in self.o:
            raise Skip()
        if "\\0" in opt:
            return PANIC
        c = self.l.observer(name.encode(), opt.encode())
        if c:
            self.o[int(k)] = Obs(c, name)
        return ["val", bool(c)]

    def op_folder(self, k):
        return ["val", self.l.observer_get_result_folder(self.get(self.o, k).c).decode()]

    def op_odrop(self, k):
        o = self.get(self.o, k)
        if o.on and (o.name == "toy" or any(o not in q.seen for q in o.on)):
            raise Skip()        # its logger writes to the observer's file; the bbob logger needs it at the first evaluation
        self.l.observer_free(o.c)
        del self.o[int(k)]
        return ["val", None]

    def op_rng(self, k, seed):
        if int(k) in self.r:
            raise Skip()
        self.r[int(k)] = self.l.random_new(int(seed))
        return ["val", None]

    def op_draw(self, k, n, normal):
        r = self.get(self.r, k)
        f = self.l.random_normal if int(normal) else self.l.random_uniform
        return ["val", [hexd(f(r)) for _ in range(int(n))]]

    def op_rdrop(self, k):
        self.l.random_free(self.get(self.r, k))
        del self.r[int(k)]
        return ["val", None]

    def op_loglevel(self, level):
        self.l.set_log_level(level.encode())
        return ["val", None]

    def op_version(self):
        return ["val", C.c_char_p.in_dll(self.l.so, "coco_version").value.decode()]

    def end(self):
        out = []
        for name, d, f in (("pdrop", self.p, self.op_pdrop), ("sdrop", self.s, self.op_sdrop), ("odrop", self.o, self.op_odrop), ("rdrop", self.r, self.op_rdrop)):
            for k in sorted(d):
                out.append([name, k])
                f(k)
        return out


def model_main(lib, plan):
    m = Model(lib)
    base = lib.sim_py_live()
    out = []
    for l in plan.lines:
        try:
            out.append(getattr(m, "op_" + l[0])(*l[1:]))
        except Skip:
            out.append(["skip"])
    end = m.end()
    return dict(expect=out, end=end, live=lib.sim_py_live() - base)


# ---------------------------------------------------------------- the crate
class Panic(Exception):
    pass


class Violation(Exception):
    pass


class Rust:
    def __init__(self, path):
        l = self.l = C.CDLL(path)
        P, Z, I, S, D = C.c_void_p, C.c_size_t, C.c_int, C.c_char_p, C.c_double
        for n, res, args in [("quiet", None, []), ("panicked", I, []), ("version", Z, [P, Z]), ("log_level", None, [I]), ("suite", P, [I, S, Z, S, Z]), ("suite_clone", P, [P]),
                             ("suite_drop", None, [P]), ("suite_count", Z, [P]), ("suite_from_index", Z, [P, I, Z]), ("next", P, [P, P]), ("problem", P, [P, Z]),
                             ("problem_fdi", P, [P, Z, Z, Z]), ("problem_drop", None, [P]), ("problem_text", Z, [P, I, P, Z]), ("problem_number", C.c_uint64, [P, I]),
                             ("problem_value", D, [P, I]), ("problem_ranges", Z, [P, P, P, Z]), ("eval", I, [P, I, P, Z, P, Z]), ("add", None, [P, P]), ("remove", None, [P, P]),
                             ("observer", P, [I, S, Z]), ("observer_folder", Z, [P, P, Z]), ("restart", None, [P, P]), ("observer_drop", None, [P]), ("random", P, [C.c_uint32]),
                             ("draw", D, [P, I]), ("random_drop", None, [P])]:
            f = getattr(l, "rs_" + n)
            f.restype, f.argtypes = res, args
        l.rs_quiet()
        self.s, self.o, self.p, self.r = {}, {}, {}, {}

    def call(self, name, *a):
        r = getattr(self.l, "rs_" + name)(*a)
        if self.l.rs_panicked():
            raise Panic()
        return r

    def text(self, name, *a):
        b = C.create_string_buffer(5000)
        n = self.call(name, *a, b, 5000)
        return b.raw[:n].decode()

    def ident(self, q, toy=False):
        num = [self.call("problem_number", q, i) for i in range(5)]
        lo, hi = arr([0.0] * 64), arr([0.0] * 64)
        n = self.call("problem_ranges", q, lo, hi, 64)
        return [self.text("problem_text", q, 0), self.text("problem_text", q, 1), None if toy else self.text("problem_text", q, 2)] + num + [[hexd(lo[i]) for i in range(n)], [hexd(hi[i]) for i in range(n)]]

    def taken(self, k, q, e):
        if not q:
            return None
        self.p[k] = q
        return self.ident(q, bool(e[1]) and e[1][2] is None)

    def calc(self, q, what, x, m, form):
        x = {"xshort": x[:-1], "xlong": x + [1.0], "empty": []}.get(form, x)
        m = {"yshort": m - 1, "ylong": m + 1}.get(form, m)
        xa, ya = arr(x), arr([0.25] * m)
        same = self.call("eval", q, what, xa, len(x), ya, m)
        if what == 2:
            return [hexd(v) for v in xa][:len(x)]
        if not same:
            raise Violation("the caller's point was changed")
        return [hexd(ya[i]) for i in range(m)]

    def run(self, l, e):
        n, a = l[0], l[1:]
        k = int(a[0]) if a and str(a[0]).isdigit() else None
        raw = lambda s: s.replace("\\0", "\0").encode()
        if n == "suite":
            i, o = raw(a[2]), raw(a[3])
            s = self.call("suite", NAMES.index(a[1]), i, len(i), o, len(o))
            if not s:
                raise Violation("no suite")
            self.s[k] = s
            return None
        if n == "clone":
            self.s[k] = self.call("suite_clone", self.s[int(a[1])])
            return None
        if n == "sdrop":
            return self.call("suite_drop", self.s.pop(k))
        if n == "count":
            return self.call("suite_count", self.s[k])
        if n == "index":
            return self.call("suite_from_index", self.s[k], int(a[1]), e[2])
        if n == "next":
            return self.taken(k, self.call("next", self.s[k], self.o[int(a[1])] if int(a[1]) >= 0 else None), e)
        if n == "get":
            return self.taken(k, self.call("problem", self.s[k], e[-1]), e)
        if n == "fdi":
            return self.taken(k, self.call("problem_fdi", self.s[k], *e[-1]), e)
        if n == "pdrop":
            return self.call("problem_drop", self.p.pop(k))
        if n in ("eval", "cons", "init"):
            return self.calc(self.p[k], ("eval", "cons", "init").index(n), e[-2], e[-1], a[-1])
        if n == "props":
            return self.ident(self.p[k], e[1][2] is None)
        if n == "evals":
            return [self.call("problem_number", self.p[k], i) for i in (5, 6, 7)]
        if n == "values":
            return [hexd(self.call("problem_value", self.p[k], i)) for i in range(3)]
        if n == "add":
            return self.call("add", self.p[k], self.o[int(a[1])])
        if n == "rem":
            return self.call("remove", self.p[k], self.o[int(a[1])])
        if n == "restart":
            return self.call("restart", self.o[k], self.p[int(a[1])])
        if n == "obs":
            o = raw(a[2])
            x = self.call("observer", OBS.index(a[1]), o, len(o))
            if x:
                self.o[k] = x
            return bool(x)
        if n == "folder":
            return self.text("observer_folder", self.o[k])
        if n == "odrop":
            return self.call("observer_drop", self.o.pop(k))
        if n == "rng":
            self.r[k] = self.call("random", int(a[1]))
            return None
        if n == "draw":
            return [hexd(self.call("draw", self.r[k], int(a[2]))) for _ in range(int(a[1]))]
        if n == "rdrop":
            return self.call("random_drop", self.r.pop(k))
        if n == "loglevel":
            return self.call("log_level", LEVELS.index(a[0]))
        if n == "version":
            return self.text("version")
        raise RuntimeError(n)


def real_main(plan, m, log, path):
    r = Rust(path)
    r.l.sim_py_live.restype = C.c_long
    r.l.coco_set_log_level.argtypes, r.l.coco_set_log_level.restype = [C.c_char_p], C.c_char_p
    r.l.coco_set_log_level(b"error")
    base = r.l.sim_py_live()
    todo = list(zip(plan.lines, m["expect"])) + [(l, ["val", None]) for l in m["end"]]
    for n, (l, e) in enumerate(todo):
        log.write("start\t%d\t%s\n" % (n, l[0]))
        log.flush()
        if e[0] == "skip":
            continue
        what = "operation %d '%s'" % (n, " ".join(map(str, l)))
        got, panic = None, False
        try:
            got = r.run(l, e)
        except Panic:
            panic = True
        except Violation as v:
            return "result", what + ": " + str(v)
        log.write("event\t%s\t%s\n" % (panic, json.dumps(got)))
        if e[0] == "panic":
            if not panic:
                return "nopanic", what + ": no panic but %s" % json.dumps(got)[:200]
        elif panic:
            return "panic", what + " panics"
        elif got != e[1]:
            want = e[1]
            if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
                i = [a == b for a, b in zip(got, want)].index(False)
                what, got, want = what + " (item %d)" % i, got[i], want[i]
            return "result", what + ": %s instead of %s" % (json.dumps(got)[:300], json.dumps(want)[:300])
    if r.l.sim_py_live() - base != m["live"]:
        return "leak", "%d blocks of the library stay allocated, %d with the C library" % (r.l.sim_py_live() - base, m["live"])
    return None


# ---------------------------------------------------------------- running
def leave():
    C.CDLL(None).fflush(None)
    os._exit(0)


def execute(p, lib, path):
    ST.d["sims"] += 1
    me = os.getpid()
    top = tempfile.mkdtemp(prefix="rustsim-", dir=OPTS.get("tmp"))
    try:
        A, B = os.path.join(top, "a"), os.path.join(top, "b")
        ef, rf, lf = os.path.join(top, "expect"), os.path.join(top, "result"), os.path.join(top, "log")

        def model():
            out = model_main(lib, p)
            with open(ef, "w") as f:
                json.dump(out, f)
            leave()
        st = forked(B, "b", model)
        if st != 0:
            err = open(os.path.join(top, "b.err"), errors="replace").read()
            if "Traceback" in err and "AddressSanitizer" not in err:
                raise RuntimeError("model: " + err[-1500:])
            cls, msg = describe(st, err)
            return "library-" + cls, "calls that safe code can make end in the C library: " + msg, "violated"
        m = json.load(open(ef))
        if os.environ.get("SIM_DEBUG"):
            for l, e in zip(p.lines, m["expect"]):
                print(l, str(e)[:60])

        def real():
            with open(lf, "w") as log:
                v = real_main(p, m, log, path)
                with open(rf, "w") as f:
                    json.dump(v, f)
            leave()
        st = forked(A, "a", real)
        log = open(lf).read() if os.path.exists(lf) else ""
        if st != 0:
            err = open(os.path.join(top, "a.err"), errors="replace").read()
            if "Traceback" in err and "rustsim.py" in err and "AddressSanitizer" not in err and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1:
                raise RuntimeError("real: " + err[-1500:])
            last = [l for l in log.split("\n") if l.startswith("start")]
            at = last[-1].split("\t")[2] if last and not os.path.exists(rf) else "the end of the process"
            cls, msg = describe(st, err)
            return cls, "%s, in '%s'" % (msg, at), "violated"
        v = json.load(open(rf))
        if v:
            return v[0], v[1], "violated"
        a, b = tree(A), tree(B)
        ST.probe("files", len(b))
        if set(a) != set(b):
            return "files", "other files: %s" % sorted(set(a) ^ set(b))[:4], "violated"
        for n in b:
            if a[n] != b[n]:
                return "files", "file %s has other contents than with the C library" % n, "violated"
        done = [l for l in log.split("\n") if l.startswith("event")]
        ST.d["ops"] += len(done)
        ST.d["seams"] += len(done)
        for l, e in zip(p.lines, m["expect"]):
            if e[0] == "skip":
                ST.probe("skipped")
            elif e[0] == "panic":
                ST.fire("misuse:" + l[0])
            else:
                ST.probe("op_" + l[0])
                if l[0] in ("pdrop", "sdrop", "odrop", "rdrop", "clone"):
                    ST.fire(l[0])
        h = hashlib.blake2b(digest_size=8)
        h.update(log.encode())
        for n in sorted(a):
            h.update(n.encode() + a[n])
        return "", "", h.hexdigest()
    finally:
        if os.getpid() == me:
            shutil.rmtree(top, ignore_errors=True)


def main():
    pos, o = opts(sys.argv[1:])
    OPTS.update(o)
    if pos[0] == "gen":
        sys.stdout.write(gen(int(o["seed"])).text())
        return 0
    signal.signal(signal.SIGALRM, lambda *a: os._exit(5))
    lib = Lib(o["oracle"])
    P, Z, D = C.c_void_p, C.c_size_t, C.c_double
    lib.so = C.CDLL(o["oracle"])
    for n, res, args in [("coco_suite_get_number_of_problems", Z, [P]), ("coco_problem_remove_observer", P, [P, P]), ("coco_suite_forget_current_problem", None, [P]),
                         ("coco_problem_get_type", C.c_char_p, [P]), ("coco_problem_get_final_target_fvalue1", D, [P]), ("coco_random_new", P, [C.c_uint32]), ("coco_random_uniform", D, [P]),
                         ("coco_random_normal", D, [P]), ("coco_random_free", None, [P]), ("coco_suite_get_function_from_function_index", Z, [P, Z]),
                         ("coco_suite_get_dimension_from_dimension_index", Z, [P, Z]), ("coco_suite_get_instance_from_instance_index", Z, [P, Z])]:
        f = getattr(lib.so, n)
        f.restype, f.argtypes = res, args
        setattr(lib, n[5:], f)
    lib.set_log_level(b"error")
    return pyxsim.drive(pos, o, gen, lambda p: execute(p, lib, o["rust"]))


if __name__ == "__main__":
    pyxsim.toplevel(main)
