#!/usr/bin/env python3
"""Simulator for the native parts of the Java and the MATLAB/Octave interface.

Same commands as pyxsim.py; needs --oracle LIB --java LIB --matlab LIB (see build.py). The binding runs inside a
stand-in for its host (sim/host), which decides when an allocation of the host fails, whether arrays are handed out as
copies, and which checks what is borrowed, released and changed. A reference model makes the same calls of the C library
(ctypes) in a process of its own; results, counters, log files and allocations of the library must be the same."""
import ctypes as C, hashlib, json, os, random, shutil, signal, struct, sys, tempfile, time

import pyxsim
from pysim import Plan, opts
from pyxsim import SUITES, Child, Lib, Skip, arr, describe, forked, hexd, point, tree
ST = pyxsim.ST
OPTS = pyxsim.OPTS
NS, NP, NO = 2, 4, 2
BADX = ("short", "long", "null", "empty", "int", "single", "char", "square")


# ---------------------------------------------------------------- the plan
def gen(seed):
    r = random.Random("C22-%d" % seed)
    p = Plan("C22", seed)
    host = p.env["host"] = r.choice(["java", "matlab"])
    p.env["copies"] = str(r.choice([0, 1, 1]))
    L = p.lines
    kind = [r.choice(SUITES) for _ in range(NS)]

    def suite_line(s):
        name, insts, dims, nf, ni, obs = kind[s]
        d = sorted(r.sample(dims, min(len(dims), r.choice([1, 1, 2]))))
        f = sorted(r.sample(range(1, nf + 1), r.choice([1, 1, 2, 3])))
        o = ["dimensions: " + ",".join(map(str, d)), "function_indices: " + ",".join(map(str, f))]
        if r.random() < 0.8:
            o.append("instance_indices: " + r.choice(["1", "1-2", "2", "1,2"]))
        r.shuffle(o)
        L.append(["suite", s, name, r.choice(insts), " ".join(o)])

    def obs_line(o):
        n = r.choice(kind[r.choice([0, 0, 1])][5])
        opt = ["result_folder: r%d" % o]
        if r.random() < 0.3:
            opt.append("algorithm_name: ALG%d" % o)
        if r.random() < 0.2:
            opt.append("number_target_triggers: %d" % r.choice([1, 5, 20]))
        L.append(["obs", o, n, " ".join(opt)])

    def pt():
        z = r.random()
        k = "u" if z < 0.6 else r.choice(["w", "g", "z", "lo", "hi", "nan", "inf", "ninf"])
        return "%s:%d" % (k, r.randrange(10 ** 6))

    def form():
        z = r.random()
        if z < 0.75:
            return r.choice(["row", "col"])
        return r.choice(["short", "long", "null", "empty"] if host == "java" else ["short", "long", "empty", "int", "single", "char", "square"])

    suite_line(0)
    if r.random() < 0.8:
        obs_line(0)
    L.append(["next", 0, 0, r.choice([-1, 0] if host == "java" else [0])] if r.random() < 0.6 else ["get", 0, 0, r.randrange(100)])
    have = lambda ops, pos, n: r.choice(sorted(set(l[pos] for l in L if l[0] in ops)) or [0]) if r.random() < 0.93 else r.randrange(n)
    P = lambda: have(("next", "get", "fdi"), 2, NP)
    O = lambda: have(("obs",), 1, NO)
    S = lambda: have(("suite",), 1, NS)
    Q = lambda: r.randrange(r.choice([2, NP]))
    n = r.choice([6, 12, 25, 50])
    while len(L) < n:
        z = r.random()
        if z < 0.12:
            L.append(["next", S(), Q(), r.choice([-1 if host == "java" else O(), O()])])
        elif z < 0.20:
            L.append(["get", S(), Q(), r.randrange(100)])
        elif z < 0.24:
            L.append(["fdi", S(), Q(), r.randrange(100)])
        elif z < 0.46:
            q = P()
            for _ in range(r.choice([1, 1, 2, 5])):
                L.append(["eval", q, pt(), form()])
        elif z < 0.52:
            L.append(["cons", P(), pt(), form()])
        elif z < 0.57:
            L.append(["rec", P(), pt(), form()])
        elif z < 0.67:
            L.append([r.choice(["props", "evals", "init", "lfvi", "best"]), P()])
        elif z < 0.75:
            q = P()
            L.append(["add", q, O()])
            for _ in range(r.choice([0, 1, 3])):
                L.append(["eval", q, pt(), form()])
        elif z < 0.80:
            L.append(["rem", P(), O()])
        elif z < 0.83:
            L.append(["restart", O(), P()])
        elif z < 0.87:
            L.append(["pfree", P()])
        elif z < 0.90:
            L.append([r.choice(["ofree", "ofree", "nofree"]), O()])
        elif z < 0.92:
            L.append(["sfree", S()])
        elif z < 0.94:
            suite_line(r.randrange(NS))
        elif z < 0.96:
            obs_line(r.randrange(NO))
        elif z < 0.98:
            L.append(["loglevel", r.choice(["error", "warning"])])
        else:
            L.append(["badcall", r.randrange(100)])
    if r.random() < 0.35:
        # the host runs out of memory in one of the last calls
        i = r.randrange(max(1, len(L) - 8), len(L))
        del L[i + 1:]
        L.insert(i, ["hostfault", r.choice([0, 0, 1, 1, 2, 3])])
    return p


# ---------------------------------------------------------------- the reference model
class Suite:
    def __init__(self, c, name, n):
        self.c, self.name, self.n, self.cur, self.items = c, name, n, None, []


class Obs:
    def __init__(self, c, name):
        self.c, self.name, self.on = c, name, set()


class Prob:
    def __init__(self, l, c, suite, owned):
        self.c, self.suite, self.owned, self.obs = c, suite, owned, []
        self.n, self.m, self.k = l.problem_get_dimension(c), l.problem_get_number_of_objectives(c), l.problem_get_number_of_constraints(c)
        self.ni = l.problem_get_number_of_integer_variables(c)
        self.lo = [l.problem_get_smallest_values_of_interest(c)[i] for i in range(self.n)]
        self.hi = [l.problem_get_largest_values_of_interest(c)[i] for i in range(self.n)]

    def gone(self):
        self.c = None
        for o in self.obs:
            o.on.discard(self)


ERR = ["err"]       # an error of the host language


class Model:
    def __init__(self, lib, host):
        self.l, self.java = lib, host == "java"
        self.s, self.o, self.p = {}, {}, {}

    def get(self, d, k):
        x = d.get(int(k))
        if x is None or not x.c:
            raise Skip()
        return x

    def ident(self, q):
        l = self.l
        return [l.problem_get_id(q.c).decode(), l.problem_get_name(q.c).decode(), q.n, q.m, q.k, q.ni, l.problem_get_suite_dep_index(q.c) if self.java else 0,
                [hexd(v) for v in q.lo], [hexd(v) for v in q.hi]]

    def op_suite(self, k, name, inst, opt):
        if int(k) in self.s and self.s[int(k)].c:
            raise Skip()
        a = [name.encode(), inst.encode(), opt.encode()]
        c = self.l.suite(*a)
        valid = []
        while True:
            q = self.l.suite_get_next_problem(c, None)
            if not q:
                break
            valid.append(self.l.problem_get_suite_dep_index(q))
        self.l.suite_free(c)
        c = self.l.suite(*a)
        s = self.s[int(k)] = Suite(c, name, self.l.suite_get_number_of_problems(c))
        s.valid = valid
        if self.java:
            return ["val", s.n]
        return ["val", None]

    def fits(self, q_m, s, o, ignore):
        if any(x is not ignore for x in o.on):
            raise Skip()
        if o.name != "rw" and (o.name == "bbob-biobj") != (q_m == 2):
            raise Skip()
        if o.name == "toy" and s.name != "bbob":
            raise Skip()

    def take(self, slot, q):
        old = self.p.get(int(slot))
        if q is None:
            return ["val", None]
        self.p[int(slot)] = q
        return ["val", self.ident(q)]

    def free_slot(self, slot):
        """a handle of the user's own must not be lost in MATLAB (in Java there is no way to free it)"""
        q = self.p.get(int(slot))
        if q is not None and q.c and q.owned and not self.java:
            raise Skip()

    def op_next(self, k, slot, o):
        s = self.get(self.s, k)
        self.free_slot(slot)
        ob = None
        if int(o) >= 0:
            ob = self.get(self.o, o)
            self.fits(2 if "biobj" in s.name else 1, s, ob, s.cur)
        elif not self.java:
            raise Skip()        # the interface has no way to say "no observer" but a null observer, which a script cannot have
        if s.cur is not None and s.cur.obs[s.nat:]:
            raise Skip()        # an observer the suite does not know of
        c = self.l.suite_get_next_problem(s.c, ob.c if ob else None)
        if not c:
            return self.take(slot, None)
        if s.cur is not None:
            s.cur.gone()
        q = s.cur = Prob(self.l, c, s, False)
        s.nat = 0
        if ob:
            q.obs.append(ob)
            ob.on.add(q)
            s.nat = 1
        return self.take(slot, q)

    def op_get(self, k, slot, a):
        s = self.get(self.s, k)
        self.free_slot(slot)
        if not s.n or not s.valid:
            raise Skip()
        i = s.valid[int(a) % len(s.valid)] if int(a) < 90 else int(a) % s.n
        c = self.l.suite_get_problem(s.c, i)
        return self.take(slot, Prob(self.l, c, s, True) if c else None) + [i]

    def op_fdi(self, k, slot, a):
        s = self.get(self.s, k)
        if not self.java or not s.valid:
            raise Skip()
        i = s.valid[int(a) % len(s.valid)]
        c = self.l.suite_get_problem(s.c, i)
        if not c:
            raise Skip()
        x = self.l.problem_get_id(c).decode()
        t = [pyxsim.pid(x, "_f"), self.l.problem_get_dimension(c), pyxsim.pid(x, "_i")]
        self.l.problem_free(c)
        c = self.l.suite_get_problem_by_function_dimension_instance(s.c, *t)
        return self.take(slot, Prob(self.l, c, s, True) if c else None) + [t]

    def op_eval(self, k, code, form):
        q = self.get(self.p, k)
        x = point(code, q.n, q.lo, q.hi)
        if form in BADX:
            return ERR + [x]
        y = arr([0.0] * q.m)
        self.l.evaluate_function(q.c, arr(x), y)
        return ["val", [hexd(v) for v in y][:q.m], x]

    def op_cons(self, k, code, form):
        q = self.get(self.p, k)
        if not q.k:
            raise Skip()        # an error of the C library
        x = point(code, q.n, q.lo, q.hi)
        if form in BADX:
            return ERR + [x]
        y = arr([0.0] * q.k)
        self.l.evaluate_constraint(q.c, arr(x), y)
        return ["val", [hexd(v) for v in y][:q.k], x]

    def op_rec(self, k, code, form):
        q = self.get(self.p, k)
        x = point(code, q.n, q.lo, q.hi)
        if form in BADX:
            return ERR + [x]
        if not all(v == v and abs(v) < 1e200 for v in x):
            raise Skip()
        self.l.recommend_solution(q.c, arr(x))
        return ["val", None, x]

    def op_props(self, k):
        return ["val", self.ident(self.get(self.p, k))]

    def op_evals(self, k):
        q = self.get(self.p, k)
        return ["val", [self.l.problem_get_evaluations(q.c), self.l.problem_get_evaluations_constraints(q.c), int(self.l.problem_final_target_hit(q.c))]]

    def op_init(self, k):
        q = self.get(self.p, k)
        if self.java:
            raise Skip()
        y = arr([0.0] * q.n)
        self.l.problem_get_initial_solution(q.c, y)
        return ["val", [hexd(v) for v in y]]

    def op_best(self, k):
        q = self.get(self.p, k)
        if self.java or q.m != 1:
            raise Skip()
        return ["val", hexd(self.l.problem_get_best_value(q.c))]

    def op_lfvi(self, k):
        q = self.get(self.p, k)
        if q.m == 1:
            return ["val", None] if self.java else ERR
        v = self.l.problem_get_largest_fvalues_of_interest(q.c)
        return ["val", [hexd(v[i]) for i in range(q.m)]]

    def op_add(self, k, o):
        q, ob = self.get(self.p, k), self.get(self.o, o)
        if not q.owned or not q.suite.c or any(b.name == "toy" for b in q.obs):
            raise Skip()
        self.fits(q.m, q.suite, ob, None)
        q.c = self.l.problem_add_observer(q.c, ob.c)
        q.obs.append(ob)
        ob.on.add(q)
        return ["val", None]

    def op_rem(self, k, o):
        q, ob = self.get(self.p, k), self.get(self.o, o)
        if not q.owned or not q.obs or q.obs[-1] is not ob:
            raise Skip()
        q.c = self.l.problem_remove_observer(q.c, ob.c)
        q.obs.pop()
        ob.on.discard(q)
        return ["val", None]

    def op_restart(self, o, k):
        q, ob = self.get(self.p, k), self.get(self.o, o)
        if q.obs and q.obs[-1] is not ob and q.obs[-1].name == ob.name:
            raise Skip()
        self.l.observer_signal_restart(ob.c, q.c)
        return ["val", None]

    def op_pfree(self, k):
        q = self.get(self.p, k)
        if self.java or not q.owned:
            raise Skip()
        self.l.problem_free(q.c)
        q.gone()
        return ["val", None]

    def op_obs(self, k, name, opt):
        if int(k) in self.o and self.o[int(k)].c:
            raise Skip()
        self.o[int(k)] = Obs(self.l.observer(name.encode(), opt.encode()), name)
        return ["val", None]

    def op_ofree(self, k):
        o = self.get(self.o, k)
        if o.on:
            raise Skip()
        self.l.observer_free(o.c)
        o.c = None
        return ["val", None]

    def op_nofree(self, k):
        raise Skip()

    def op_sfree(self, k):
        s = self.get(self.s, k)
        if s.cur is not None and s.cur.obs[s.nat:]:
            raise Skip()
        for q in self.p.values():
            if q.c and q.owned and q.suite is s and q.obs:
                raise Skip()    # its log needs the suite
        self.l.suite_free(s.c)
        s.c = None
        if s.cur is not None:
            s.cur.gone()
        return ["val", None]

    def op_loglevel(self, level):
        old = self.l.set_log_level(level.encode()).decode()
        return ["val", None if self.java else old]

    def op_badcall(self, a):
        if self.java:
            raise Skip()
        return ERR if int(a) % 4 < 3 else ["val", None]

    def op_hostfault(self, n):
        return ["fault"]

    def end(self):
        """the user's last calls, in a legal order"""
        out = []
        for k in sorted(self.p):
            q = self.p[k]
            if q.c and q.owned and not self.java:
                self.op_pfree(k)
                out.append(["pfree", k])
        for k in sorted(self.s):
            if self.s[k].c:
                try:
                    self.op_sfree(k)
                    out.append(["sfree", k])
                except Skip:
                    pass
        for k in sorted(self.o):
            if self.o[k].c and not self.o[k].on:
                self.op_ofree(k)
                out.append(["ofree", k])
        return out


def model_main(lib, plan):
    m = Model(lib, plan.env["host"])
    base = lib.sim_py_live()
    out, fault = [], False
    for l in plan.lines:
        if fault:
            # what the call does before the host fails is not known: only the call itself is made
            try:
                out.append(getattr(m, "op_" + l[0])(*l[1:]))
            except Skip:
                out.append(["skip"])
            break
        try:
            out.append(getattr(m, "op_" + l[0])(*l[1:]))
        except Skip:
            out.append(["skip"])
        fault = l[0] == "hostfault"
    end = [] if fault else m.end()
    return dict(expect=out, end=end, live=lib.sim_py_live() - base, fault=fault)


# ---------------------------------------------------------------- the hosts
class HostError(Exception):
    pass


class Violation(Exception):
    pass


class Unimplemented(Exception):
    pass


class Java:
    def __init__(self, lib, copies):
        self.l, self.copies = lib, copies
        P, Z = C.c_void_p, C.c_int64
        for n, res, args in [("fj_env", P, []), ("fj_class", P, []), ("fj_string", P, [C.c_char_p]), ("fj_array", P, [C.c_int, P]), ("fj_len", C.c_int, [P]), ("fj_data", C.POINTER(C.c_double), [P]),
                             ("fj_str", C.c_char_p, [P]), ("fj_begin", None, [C.c_long, C.c_int]), ("fj_end", C.c_int, []), ("fj_error", C.c_char_p, []), ("fj_clear", None, [])]:
            f = getattr(lib, n)
            f.restype, f.argtypes = res, args
        self.env = lib.fj_env()
        self.fail = -1
        self.fired = False

    def call(self, name, res, *args):
        """args: int (a handle or number), str, list of doubles or None; -> python value"""
        l = self.l
        f = getattr(l, "Java_CocoJNI_" + name)
        a, t = [self.env, l.fj_class()], [C.c_void_p, C.c_void_p]
        for x in args:
            if isinstance(x, int):
                a.append(x)
                t.append(C.c_int64)
            elif isinstance(x, str):
                a.append(l.fj_string(x.encode()))
                t.append(C.c_void_p)
            elif x is None:
                a.append(None)
                t.append(C.c_void_p)
            else:
                b = arr(x)
                a.append(l.fj_array(len(x), C.addressof(b)))
                t.append(C.c_void_p)
        f.argtypes = t
        f.restype = {"v": None, "j": C.c_int64, "i": C.c_int32, "d": C.c_void_p, "s": C.c_void_p}[res]
        l.fj_begin(self.fail, self.copies)
        r = f(*a)
        st = l.fj_end()
        try:
            if st & 2:
                self.fired = True
            if st & 4:
                raise Violation("%s: %s" % (name, l.fj_error().decode()))
            if st & 2 and not st & 1:
                raise Violation("%s swallows the virtual machine's error" % name)
            if st & 1:
                raise HostError()
            if res == "d":
                return [l.fj_data(r)[i] for i in range(l.fj_len(r))] if r else None
            if res == "s":
                return l.fj_str(r).decode() if r else None
            return r
        finally:
            l.fj_clear()

    def x(self, v, form):
        return {"short": v[:-1], "long": v + [1.0], "null": None, "empty": []}.get(form, v)

    def suite(self, *a):
        h = self.call("cocoGetSuite", "j", *a)
        return h, self.call("cocoSuiteGetNumberOfProblems", "j", h)

    def observer(self, *a):
        return self.call("cocoGetObserver", "j", *a)

    def ident(self, h):
        c = self.call
        return [c("cocoProblemGetId", "s", h), c("cocoProblemGetName", "s", h), c("cocoProblemGetDimension", "i", h), c("cocoProblemGetNumberOfObjectives", "i", h), c("cocoProblemGetNumberOfConstraints", "i", h),
                c("cocoProblemGetNumberOfIntegerVariables", "i", h), c("cocoProblemGetIndex", "j", h), c("cocoProblemGetSmallestValuesOfInterest", "d", h), c("cocoProblemGetLargestValuesOfInterest", "d", h)]

    def evals(self, h):
        return [self.call("cocoProblemGetEvaluations", "j", h), self.call("cocoProblemGetEvaluationsConstraints", "j", h), self.call("cocoProblemIsFinalTargetHit", "i", h)]

    def next(self, s, o):
        return self.call("cocoSuiteGetNextProblem", "j", s, o)

    def get(self, s, i):
        return self.call("cocoSuiteGetProblem", "j", s, i)

    def fdi(self, s, t):
        return self.call("cocoSuiteGetProblemByFuncDimInst", "j", s, *t)

    def eval(self, h, x, form):
        return self.call("cocoEvaluateFunction", "d", h, self.x(x, form))

    def cons(self, h, x, form):
        return self.call("cocoEvaluateConstraint", "d", h, self.x(x, form))

    def rec(self, h, x, form):
        self.call("cocoRecommendSolution", "v", h, self.x(x, form))

    def lfvi(self, h):
        return self.call("cocoProblemGetLargestFValuesOfInterest", "d", h)

    def add(self, h, o):
        return self.call("cocoProblemAddObserver", "j", h, o)

    def rem(self, h, o):
        return self.call("cocoProblemRemoveObserver", "j", h, o)

    def restart(self, o, h):
        self.call("cocoObserverSignalRestart", "v", o, h)

    def ofree(self, o):
        self.call("cocoFinalizeObserver", "v", o)

    def sfree(self, s):
        self.call("cocoFinalizeSuite", "v", s)

    def loglevel(self, v):
        self.call("cocoSetLogLevel", "v", v)


DOUBLE, SINGLE, CHAR, INT32, INT64, LOGICAL = 6, 7, 4, 12, 14, 3


class Matlab:
    def __init__(self, lib, copies):
        self.l = lib
        P = C.c_void_p
        for n, res, args in [("fm_new", P, [C.c_int, C.c_size_t, C.c_size_t]), ("fm_string", P, [C.c_char_p]), ("fm_data", P, [P]), ("fm_class", C.c_int, [P]), ("fm_m", C.c_size_t, [P]),
                             ("fm_n", C.c_size_t, [P]), ("fm_error", C.c_char_p, []), ("fm_call", C.c_int, [C.c_int, C.POINTER(P), C.c_int, C.POINTER(P), C.c_long]), ("fm_clear", None, [])]:
            f = getattr(lib, n)
            f.restype, f.argtypes = res, args
        self.fail = -1
        self.fired = False

    def mk(self, cls, m, n, vals):
        a = self.l.fm_new(cls, m, n)
        t = {DOUBLE: "d", SINGLE: "f", CHAR: "H", INT32: "i", INT64: "q"}[cls]
        b = struct.pack("=%d%s" % (len(vals), t), *vals)
        C.memmove(self.l.fm_data(a), b, len(b))
        return a

    def to(self, x):
        if isinstance(x, str):
            return self.l.fm_string(x.encode())
        if isinstance(x, int):
            return self.mk(INT64, 1, 1, [x])
        if isinstance(x, float):
            return self.mk(DOUBLE, 1, 1, [x])
        return self.mk(*x)

    def call(self, *args, nlhs=1):
        l = self.l
        R = (C.c_void_p * max(1, len(args)))(*[self.to(x) for x in args])
        L = (C.c_void_p * max(1, nlhs))()
        st = l.fm_call(nlhs, L, len(args), R, self.fail)
        try:
            if st & 3 == 1:
                self.fired = True
            if st & 4:
                raise Violation("%s: %s" % (args[0], l.fm_error().decode()))
            if st:
                raise HostError()
            a = L[0]
            if not a:
                return None
            cls, m, n = l.fm_class(a), l.fm_m(a), l.fm_n(a)
            b = C.string_at(l.fm_data(a), m * n * {DOUBLE: 8, INT64: 8, SINGLE: 4, INT32: 4, CHAR: 2, LOGICAL: 1}.get(cls, 8)) if m * n else b""
            if cls == CHAR:
                return b.decode("utf-16-le")
            v = list(struct.unpack("=%d%s" % (m * n, {DOUBLE: "d", SINGLE: "f", INT32: "i", INT64: "q", LOGICAL: "B"}[cls]), b))
            return v if cls == DOUBLE else v[0]
        finally:
            l.fm_clear()

    def x(self, v, form):
        n = len(v)
        if form == "int":
            return (INT32, 1, n, [1] * n)
        if form == "single":
            return (SINGLE, 1, n, [1.0] * n)
        if form == "char":
            return (CHAR, 1, n, [65] * n)
        if form == "square":
            return (DOUBLE, n, n, v * n)
        v = {"short": v[:-1], "long": v + [1.0], "empty": []}.get(form, v)
        return (DOUBLE, len(v), 1, v) if form == "col" else (DOUBLE, 1, len(v), v)

    def suite(self, *a):
        return self.call("cocoSuite", *a), None

    def observer(self, *a):
        return self.call("cocoObserver", *a)

    def ident(self, h):
        c = self.call
        return [c("cocoProblemGetId", h), c("cocoProblemGetName", h), c("cocoProblemGetDimension", h), c("cocoProblemGetNumberOfObjectives", h), c("cocoProblemGetNumberOfConstraints", h),
                c("cocoProblemGetNumberOfIntegerVariables", h), 0, c("cocoProblemGetSmallestValuesOfInterest", h), c("cocoProblemGetLargestValuesOfInterest", h)]

    def evals(self, h):
        return [self.call("cocoProblemGetEvaluations", h), self.call("cocoProblemGetEvaluationsConstraints", h), self.call("cocoProblemFinalTargetHit", h)]

    def next(self, s, o):
        h = self.call("cocoSuiteGetNextProblem", s, o)
        if bool(self.call("cocoProblemIsValid", h)) != bool(h):
            raise Violation("cocoProblemIsValid is wrong")
        return h

    def get(self, s, i):
        return self.call("CocoSuiteGetProblem", s, float(i))

    def eval(self, h, x, form):
        return self.call("cocoEvaluateFunction", h, self.x(x, form))

    def cons(self, h, x, form):
        return self.call("cocoEvaluateConstraint", h, self.x(x, form))

    def rec(self, h, x, form):
        self.call("cocoRecommendSolution", h, self.x(x, form), nlhs=0)

    def lfvi(self, h):
        return self.call("cocoProblemGetLargestFValuesOfInterest", h)

    def init(self, h):
        return self.call("cocoProblemGetInitialSolution", h)

    def best(self, h):
        return self.call("cocoProblemGetBestValue", h)[0]

    def add(self, h, o):
        return self.call("cocoProblemAddObserver", h, o)

    def rem(self, h, o):
        return self.call("cocoProblemRemoveObserver", h, o)

    def restart(self, o, h):
        self.call("cocoObserverSignalRestart", o, h, nlhs=0)

    def pfree(self, h):
        self.call("cocoProblemFree", h, nlhs=0)

    def ofree(self, o):
        self.call("cocoObserverFree", o, nlhs=0)

    def sfree(self, s):
        self.call("cocoSuiteFree", s, nlhs=0)

    def loglevel(self, v):
        return self.call("cocoSetLogLevel", v)

    def badcall(self, a):
        f = ["cocoEvaluateFunction", "cocoEvaluateConstraint", "cocoRecommendSolution", "cocoObserver", "cocoProblemAddObserver", "cocoProblemRemoveObserver", "cocoSuite", "cocoSuiteGetNextProblem", "cocoSuiteGetProblem"]
        k = a % 4
        if k == 0:
            self.call(f[a // 4 % len(f)], 0, nlhs=0)                # too few arguments
        elif k == 1:
            self.call("cocoProblemGetId", 0, 0, 0, 0, nlhs=0)      # too many
        elif k == 2:
            self.call("cocoSuite", nlhs=0)
        else:
            self.call("cocoNoSuchFunction", 0, nlhs=0)


class Real:
    def __init__(self, host):
        self.h, self.s, self.o, self.p = host, {}, {}, {}

    def hexs(self, v):
        return [hexd(x) for x in v] if v is not None else None

    def taken(self, slot, h):
        if not h:
            return None
        self.p[int(slot)] = h
        return self.ident(h)

    def ident(self, h):
        v = self.h.ident(h)
        return v[:7] + [self.hexs(v[7]), self.hexs(v[8])]

    def run(self, l, e):
        h, n, a = self.h, l[0], l[1:]
        k = int(a[0]) if a and a[0].lstrip("-").isdigit() else None
        if n == "suite":
            self.s[k], v = h.suite(a[1], a[2], a[3])
            return v
        if n == "obs":
            self.o[k] = h.observer(a[1], a[2])
            return None
        if n == "next":
            return self.taken(a[1], h.next(self.s[k], self.o[int(a[2])] if int(a[2]) >= 0 else 0))
        if n == "get":
            return self.taken(a[1], h.get(self.s[k], e[-1]))
        if n == "fdi":
            return self.taken(a[1], h.fdi(self.s[k], e[-1]))
        if n in ("eval", "cons"):
            return self.hexs(getattr(h, n)(self.p[k], e[-1], a[2]))
        if n == "rec":
            return h.rec(self.p[k], e[-1], a[2])
        if n == "props":
            return self.ident(self.p[k])
        if n == "evals":
            return h.evals(self.p[k])
        if n in ("init", "lfvi"):
            return self.hexs(getattr(h, n)(self.p[k]))
        if n == "best":
            return hexd(h.best(self.p[k]))
        if n in ("add", "rem"):
            self.p[k] = getattr(h, n)(self.p[k], self.o[int(a[1])])
            return None
        if n == "restart":
            return h.restart(self.o[k], self.p[int(a[1])])
        if n == "pfree":
            return h.pfree(self.p[k])
        if n == "ofree":
            return h.ofree(self.o[k])
        if n == "sfree":
            return h.sfree(self.s[k])
        if n == "loglevel":
            return h.loglevel(a[0])
        if n == "badcall":
            return h.badcall(k)
        raise RuntimeError(n)


def real_main(plan, m, log, libs):
    lib = C.CDLL(libs[plan.env["host"]])
    lib.sim_py_live.restype = C.c_long
    lib.coco_set_log_level.argtypes, lib.coco_set_log_level.restype = [C.c_char_p], C.c_char_p
    lib.coco_set_log_level(b"error")
    host = (Java if plan.env["host"] == "java" else Matlab)(lib, int(plan.env.get("copies", "1")))
    r = Real(host)
    base = lib.sim_py_live()
    todo = list(zip(plan.lines, m["expect"])) + [(list(map(str, l)), ["val", None]) for l in m["end"]]
    after = False
    for n, (l, e) in enumerate(todo):
        log.write("start\t%d\t%s\n" % (n, l[0]))
        log.flush()
        if e[0] == "skip":
            continue
        if e[0] == "fault":
            host.fail, after = int(l[1]), True
            continue
        what = "operation %d '%s'" % (n, " ".join(map(str, l)))
        got, err = None, False
        try:
            got = r.run(l, e)
        except HostError:
            err = True
        except Violation as v:
            return "host", what + ": " + str(v)
        log.write("event\t%s\t%s\n" % (err, json.dumps(got)))
        if after and host.fired:
            log.write("fired\n")
            return None
        if e[0] == "err":
            if not err:
                return "noerror", what + ": no error of the host language but %s" % (got,)
        elif err:
            return "error", what + " fails"
        elif got != e[1]:
            want = e[1]
            if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
                i = [a == b for a, b in zip(got, want)].index(False)
                what, got, want = what + " (item %d)" % i, got[i], want[i]
            return "result", what + ": %s instead of %s" % (json.dumps(got)[:300], json.dumps(want)[:300])
    if not m["fault"] and lib.sim_py_live() - base != m["live"]:
        return "leak", "%d blocks of the library stay allocated, %d with the C library" % (lib.sim_py_live() - base, m["live"])
    return None


# ---------------------------------------------------------------- running
def leave():
    """what exit() does to the library's open files"""
    C.CDLL(None).fflush(None)
    os._exit(0)


def execute(p, lib, libs):
    ST.d["sims"] += 1
    me = os.getpid()
    top = tempfile.mkdtemp(prefix="bindsim-", dir=OPTS.get("tmp"))
    try:
        A, B = os.path.join(top, "a"), os.path.join(top, "b")
        ef, rf, lf = os.path.join(top, "expect"), os.path.join(top, "result"), os.path.join(top, "log")

        def model():
            out = model_main(lib, p)
            with open(ef, "w") as f:
                json.dump(out, f)
            leave()
        st = forked(B, "b", model)
        if st != 0:
            err = open(os.path.join(top, "b.err"), errors="replace").read()
            if "Traceback" in err and "AddressSanitizer" not in err:
                raise RuntimeError("model: " + err[-1500:])
            print(describe(st, err), err[-300:]) if os.environ.get("SIM_DEBUG") else None
            ST.probe("library_stops")       # judged by the other checks
            return "", "", "unjudged"
        m = json.load(open(ef))
        if os.environ.get("SIM_DEBUG"):
            for l, e in zip(p.lines, m["expect"]):
                print(l, str(e)[:60])

        def real():
            with open(lf, "w") as log:
                v = real_main(p, m, log, libs)
                with open(rf, "w") as f:
                    json.dump(v, f)
            leave()
        st = forked(A, "a", real)
        log = open(lf).read() if os.path.exists(lf) else ""
        last = [l for l in log.split("\n") if l.startswith("start")]
        at = last[-1].split("\t")[2] if last and not os.path.exists(rf) else "the end of the process"
        if st != 0:
            err = open(os.path.join(top, "a.err"), errors="replace").read()
            if "FAKEHOST: function not implemented" in err:
                ST.probe("host_function_missing")
                return "", "", "unjudged"
            if "Traceback" in err and "bindsim.py" in err and "AddressSanitizer" not in err and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1:
                raise RuntimeError("real: " + err[-1500:])
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 68:
                return "null", err.strip()[-100:] + ", in '%s' (%s)" % (at, p.env["host"]), "violated"
            cls, msg = describe(st, err)
            return cls, "%s, in '%s' (%s)" % (msg, at, p.env["host"]), "violated"
        v = json.load(open(rf))
        if v:
            return v[0], v[1] + " (%s)" % p.env["host"], "violated"
        a, b = tree(A), tree(B)
        if not m["fault"]:
            ST.probe("files", len(b))
            if set(a) != set(b):
                return "files", "other files: %s" % sorted(set(a) ^ set(b))[:4], "violated"
            for n in b:
                if a[n] != b[n]:
                    return "files", "file %s has other contents than with the C library" % n, "violated"
        done = [l for l in log.split("\n") if l.startswith("event")]
        ST.d["ops"] += len(done)
        ST.d["seams"] += len(done)
        if "\nfired" in log:
            ST.fire("hostalloc:" + p.env["host"])
        for l, e in zip(p.lines, m["expect"]):
            if e[0] == "skip":
                ST.probe("skipped")
            elif e[0] == "err":
                ST.fire("misuse:" + l[0])
            else:
                ST.probe("op_" + l[0])
        h = hashlib.blake2b(digest_size=8)
        h.update(log.encode())
        for n in sorted(a):
            h.update(n.encode() + (b"" if m["fault"] else a[n]))
        return "", "", h.hexdigest()
    finally:
        if os.getpid() == me:
            shutil.rmtree(top, ignore_errors=True)


def main():
    pos, o = opts(sys.argv[1:])
    OPTS.update(o)
    if pos[0] == "gen":
        sys.stdout.write(gen(int(o["seed"])).text())
        return 0
    signal.signal(signal.SIGALRM, lambda *a: os._exit(5))
    lib = Lib(o["oracle"])
    for n, res, args in [("coco_suite_get_number_of_problems", C.c_size_t, [C.c_void_p]), ("coco_problem_remove_observer", C.c_void_p, [C.c_void_p, C.c_void_p])]:
        f = getattr(C.CDLL(o["oracle"]), n)
        f.restype, f.argtypes = res, args
        setattr(lib, n[5:], f)
    lib.set_log_level(b"error")
    libs = {"java": o["java"], "matlab": o["matlab"]}
    return pyxsim.drive(pos, o, gen, lambda p: execute(p, lib, libs))


if __name__ == "__main__":
    pyxsim.toplevel(main)
