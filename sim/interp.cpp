#include "interp.h"
#include <cerrno>
#include <cmath>
#include <list>
#include <tuple>

static long L(const str &s) { return atol(s.c_str()); }

// ---------------------------------------------------------------- reference instance
struct RefObj { coco_problem_t *p; vec<double> opt, opt2; double fopt; bool hasOpt; long use; };
static std::map<std::tuple<str, str, str>, coco_suite_t *> g_rs;
static std::map<RefKey, RefObj> g_rp;
static long g_use = 0;
static str fileOf(Sim &s, const char *name) { str t; s.vfs.read(VFS::abs(name), t); return t; }
RefKey keyOf(const ProbInfo &p) { return {p.suite, p.inst, p.opts, p.index}; }
static void refDropProblems() { CocoApi *A = g_ref->api; for (auto &e : g_rp) if (e.second.p) A->coco_problem_free(e.second.p); g_rp.clear(); }
void refFlush() {
  RefScope rs;
  refDropProblems();
  for (auto &s : g_rs) g_ref->api->coco_suite_free(s.second);
  g_rs.clear();
  g_ref->restore();
  g_ref->api->coco_set_log_level("error");
}
static coco_suite_t *refSuite(const str &n, const str &i, const str &o) {
  auto k = std::make_tuple(n, i, o);
  auto it = g_rs.find(k);
  if (it != g_rs.end()) return it->second;
  if (g_rs.size() > 64) { refDropProblems(); for (auto &s : g_rs) g_ref->api->coco_suite_free(s.second); g_rs.clear(); }
  coco_suite_t *s = g_ref->api->coco_suite(n.c_str(), i.c_str(), o.c_str());
  g_rs[k] = s;
  return s;
}
static RefObj *refObj(const RefKey &k) {
  auto it = g_rp.find(k);
  if (it != g_rp.end()) { it->second.use = ++g_use; return &it->second; }
  if (g_rp.size() > 40) {
    auto old = g_rp.begin();
    for (auto i = g_rp.begin(); i != g_rp.end(); ++i) if (i->second.use < old->second.use) old = i;
    if (old->second.p) g_ref->api->coco_problem_free(old->second.p);
    g_rp.erase(old);
  }
  coco_suite_t *s = refSuite(k.suite, k.inst, k.opts);
  RefObj o; o.p = s ? g_ref->api->coco_suite_get_problem(s, k.index) : nullptr; o.hasOpt = false; o.fopt = 0; o.use = ++g_use;
  if (o.p) {
    size_t d = g_ref->api->coco_problem_get_dimension(o.p);
    o.opt.resize(d);
    o.hasOpt = g_ref->api->coco_problem_get_best_parameter(o.p, o.opt.data()) != 0;
    if (g_ref->api->coco_problem_get_best_value && g_ref->api->coco_problem_get_number_of_objectives(o.p) == 1) o.fopt = g_ref->api->coco_problem_get_best_value(o.p);
    if (g_ref->api->coco_problem_get_number_of_objectives(o.p) == 2 && g_ref->api->bbob_biobj_problem_best_parameter_print) {
      // the optima of the two objectives
      g_ref->api->bbob_biobj_problem_best_parameter_print(o.p);
      str t = fileOf(*g_sim, "._bbob_biobj_problem_best_parameter.txt");
      g_sim->vfs.unlink(VFS::abs("._bbob_biobj_problem_best_parameter.txt"));
      const char *c = t.c_str(); char *e = nullptr; vec<double> v;
      for (double x = strtod(c, &e); e != c; x = strtod(c = e, &e)) v.push_back(x);
      if (v.size() == 2 * d) { o.opt.assign(v.begin(), v.begin() + (long)d); o.opt2.assign(v.begin() + (long)d, v.end()); }
    }
  }
  return &(g_rp[k] = o);
}
coco_problem_t *refProblem(const RefKey &k) { RefScope rs; return refObj(k)->p; }
str refBestPrint(const RefKey &k) {
  RefScope rs;
  RefObj *o = refObj(k);
  if (!o->p) return "";
  bool bi = g_ref->api->coco_problem_get_number_of_objectives(o->p) == 2;
  for (auto f : {"._bbob_biobj_problem_best_parameter.txt", "._bbob_problem_best_parameter.txt"}) g_sim->vfs.unlink(VFS::abs(f));
  if (bi) g_ref->api->bbob_biobj_problem_best_parameter_print(o->p); else g_ref->api->bbob_problem_best_parameter_print(o->p);
  return fileOf(*g_sim, bi ? "._bbob_biobj_problem_best_parameter.txt" : "._bbob_problem_best_parameter.txt");
}
bool refExtreme(const RefKey &k, bool second, vec<double> &x) {
  RefScope rs;
  RefObj *o = refObj(k);
  x = second ? o->opt2 : o->opt;
  return o->p && !o->opt2.empty();
}
bool refOptimum(const RefKey &k, vec<double> &x, double &fopt) {
  RefScope rs;
  RefObj *o = refObj(k);
  x = o->opt; fopt = o->fopt;
  return o->p && o->hasOpt;
}
void refEval(const RefKey &k, const vec<double> &x, vec<double> &y, vec<double> *cons, size_t nobj, size_t ncons) {
  RefScope rs;
  RefObj *o = refObj(k);
  y.assign(nobj, NAN);
  if (!o->p) return;
  g_ref->api->coco_evaluate_function(o->p, x.data(), y.data());
  if (k.suite == "bbob-noisy" && g_ref->api->shim_noise_free) y[0] = g_ref->api->shim_noise_free(o->p, 0);   // noise-free value
  if (cons) { cons->assign(ncons, NAN); if (ncons) g_ref->api->coco_evaluate_constraint(o->p, x.data(), cons->data()); }
}
const SuiteInfo &suiteInfo(const str &suite, const str &inst) {
  static std::map<std::pair<str, str>, SuiteInfo> cache;
  auto k = std::make_pair(suite, inst);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  SuiteInfo si;
  RefScope rs;
  coco_suite_t *s = refSuite(suite, inst, "");
  if (s) {
    si.ok = true;
    si.n = g_ref->api->coco_suite_get_number_of_problems(s);
    std::set<size_t> nf, nd, ni;
    for (size_t j = 0; j < si.n; j++) { size_t f = 0, d = 0, i = 0; g_ref->api->coco_suite_decode_problem_index(s, j, &f, &d, &i); nf.insert(f); nd.insert(d); ni.insert(i); }
    for (size_t f = 0; f < nf.size(); f++) si.f.push_back(g_ref->api->coco_suite_get_function_from_function_index(s, f));
    for (size_t d = 0; d < nd.size(); d++) si.d.push_back(g_ref->api->coco_suite_get_dimension_from_dimension_index(s, d));
    si.i.resize(ni.size());
  }
  return cache[k] = si;
}

static const vec<size_t> &selectedOf(const str &n, const str &i, const str &o) {
  static std::map<std::tuple<str, str, str>, vec<size_t>> cache;
  auto k = std::make_tuple(n, i, o);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  if (cache.size() > 500) cache.clear();
  vec<size_t> v;
  RefScope rs;
  CocoApi *A = g_ref->api;
  coco_suite_t *s = refSuite(n, i, o);
  if (s) for (size_t j = 0, t = A->coco_suite_get_number_of_problems(s); j < t; j++) {
    size_t f = 0, d = 0, ii = 0;
    A->coco_suite_decode_problem_index(s, j, &f, &d, &ii);
    if (A->coco_suite_get_function_from_function_index(s, f) && A->coco_suite_get_dimension_from_dimension_index(s, d) && A->coco_suite_get_instance_from_instance_index(s, ii)) v.push_back(j);
  }
  return cache[k] = v;
}

// ---------------------------------------------------------------- points
bool Interp::point(const str &spec, const ProbInfo &pi, vec<double> &x) {
  auto v = split(spec, ':');
  const str &k = v[0];
  size_t n = pi.dim;
  x.assign(n, 0.0);
  auto seed = [&](size_t i) { return (uint64_t)strtoull(v.size() > i ? v[i].c_str() : "1", 0, 10); };
  auto unif = [&](Rng &r, size_t i) { return pi.lo[i] + (pi.hi[i] - pi.lo[i]) * r.u(); };
  auto gauss = [&](Rng &r) { double a = r.u() + 1e-300, b = r.u(); return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); };
  if (k == "u") { Rng r(seed(1)); for (size_t i = 0; i < n; i++) { x[i] = unif(r, i); if (i < pi.nint && r.chance(0.7)) x[i] = std::round(x[i]); } }
  else if (k == "w") { Rng r(seed(1)); for (size_t i = 0; i < n; i++) { double m = (pi.lo[i] + pi.hi[i]) / 2, h = (pi.hi[i] - pi.lo[i]); x[i] = m + h * 1.5 * (2 * r.u() - 1); } }
  else if (k == "b") { Rng r(seed(1)); double s = std::pow(10.0, (double)r.range(1, 9)); for (size_t i = 0; i < n; i++) x[i] = s * (2 * r.u() - 1); }
  else if (k == "t") {  // on the way from one point to another one
    Rng r(seed(1)); double t = (double)seed(2) * 1e-6;
    for (size_t i = 0; i < n; i++) { double a = unif(r, i), b = unif(r, i); x[i] = a + t * (b - a); }
  }
  else if (k == "z") {}
  else if (k == "i") x = pi.init;
  else if (k == "o") {
    vec<double> opt; double fo;
    Rng r(seed(2));
    if (!refOptimum(keyOf(pi), opt, fo) && !refExtreme(keyOf(pi), seed(2) & 1, opt)) { for (size_t i = 0; i < n; i++) x[i] = unif(r, i); return true; }
    long e = v.size() > 1 ? L(v[1]) : 99;
    double s = e >= 99 ? 0 : std::pow(10.0, -(double)e);
    for (size_t i = 0; i < n; i++) { x[i] = opt[i] + s * gauss(r); }
  }
  else if (k == "r") {  // around the best point so far
    Rng r(seed(2));
    double s = std::pow(10.0, -(double)(v.size() > 1 ? L(v[1]) : 1));
    auto it = bestX.find(pi.uid);
    if (it == bestX.end()) { for (size_t i = 0; i < n; i++) x[i] = unif(r, i); }
    else for (size_t i = 0; i < n; i++) x[i] = it->second[i] + s * gauss(r);
  }
  else if (k == "p") { auto it = lastX.find(pi.uid); x = it == lastX.end() ? pi.init : it->second; }
  else if (k == "n") { Rng r(seed(2)); for (size_t i = 0; i < n; i++) x[i] = unif(r, i); x[seed(1) % n] = NAN; }
  else if (k == "f") { Rng r(seed(2)); for (size_t i = 0; i < n; i++) x[i] = unif(r, i); x[seed(1) % n] = (seed(2) & 1) ? INFINITY : -INFINITY; }
  else if (k == "nf") { Rng r(seed(2)); for (size_t i = 0; i < n; i++) x[i] = unif(r, i); x[seed(1) % n] = NAN; x[(seed(1) + 1) % n] = INFINITY; }
  else if (k == "l") { for (size_t i = 0; i < n && i + 1 < v.size(); i++) x[i] = strtod(v[i + 1].c_str(), 0); }
  else return false;
  return true;
}

// ---------------------------------------------------------------- execution
static __attribute__((noinline)) void paintStack(int c) {
  // give uninitialised locals of the called code a known content
  char *b = (char *)__builtin_alloca(48 * 1024);
  size_t n = 48 * 1024 - 64;
  asm volatile("rep stosb" : "+D"(b), "+c"(n) : "a"(c) : "memory");
}
void interpRun(Proc *p) {
  Interp *in = p->in;
  in->api = p->lib->api;
  Sim *s = p->sim;
  in->api->coco_set_log_level(s->plan->gets("loglevel", "error").c_str());
  for (size_t i = 0; i < p->plan->ops.size(); i++) {
    p->curOp = (long)i;
    s->seam("op");
    paintStack(s->fill == 0 ? 0 : s->fill == 1 ? 0xff : 0xcb);
    in->exec(p->plan->ops[i]);
    p->nOp++;
    if (p->wantQuiet && p->files.empty()) { std::map<str, size_t> m; for (auto &e : s->vfs.tree("/work")) if (e.second[0] == 'f') m[e.first] = e.second.size() - 1; p->quiet.push_back({(long)i, m}); }
    s->clock += 0.01;
    s->seamEnd("op");
  }
  p->curOp = -1;
}

// the name without the observers that wrap the problem: "rw(bbob(NAME))" -> NAME
static str bareName(Interp *I, coco_problem_t *p) {
  str s = I->api->coco_problem_get_name(p);
  for (bool again = true; again;) {
    again = false;
    for (auto &o : I->observers) if (s.compare(0, o.name.size() + 1, o.name + "(") == 0 && s.back() == ')') { s = s.substr(o.name.size() + 1, s.size() - o.name.size() - 2); again = true; break; }
  }
  return s;
}
static void fillInfo(Interp *I, coco_problem_t *p, ProbInfo &pi, const SuiteSlot &ss) {
  CocoApi *A = I->api;
  pi.suite = ss.name; pi.inst = ss.inst; pi.opts = ss.opts;
  pi.index = A->coco_problem_get_suite_dep_index(p);
  pi.dim = A->coco_problem_get_dimension(p);
  pi.nobj = A->coco_problem_get_number_of_objectives(p);
  pi.ncons = A->coco_problem_get_number_of_constraints(p);
  pi.nint = A->coco_problem_get_number_of_integer_variables(p);
  pi.id = A->coco_problem_get_id(p);
  if (ss.name != "toy") { const char *ty = A->coco_problem_get_type(p); pi.type = ty ? ty : ""; }   // problems of the toy suite have none
  const double *lo = A->coco_problem_get_smallest_values_of_interest(p), *hi = A->coco_problem_get_largest_values_of_interest(p);
  pi.lo.assign(lo, lo + pi.dim); pi.hi.assign(hi, hi + pi.dim);
  pi.init.resize(pi.dim);
  A->coco_problem_get_initial_solution(p, pi.init.data());
  if (pi.nobj == 2) { const double *nd = A->coco_problem_get_largest_fvalues_of_interest(p); if (nd) pi.nadir.assign(nd, nd + 2); }
  size_t fi = 0, di = 0, ii = 0;
  A->coco_suite_decode_problem_index(ss.s, pi.index, &fi, &di, &ii);
  pi.f = (long)A->coco_suite_get_function_from_function_index(ss.s, fi);
  size_t q = pi.id.rfind("_i");
  pi.i = q == str::npos ? -1 : atol(pi.id.c_str() + q + 2);
  pi.origName = bareName(I, p);
}
static bool obsExclusive(const str &n) { return n != "rw" && n != "toy"; }

// everything a problem says about itself, except for the names of its observers
static str identity(Interp *I, coco_problem_t *p, const str &suite) {
  CocoApi *A = I->api;
  size_t d = A->coco_problem_get_dimension(p);
  uint64_t h = 7;
  const double *lo = A->coco_problem_get_smallest_values_of_interest(p), *hi = A->coco_problem_get_largest_values_of_interest(p);
  vec<double> init(d);
  A->coco_problem_get_initial_solution(p, init.data());
  for (size_t i = 0; i < d; i++) for (double v : {lo[i], hi[i], init[i]}) { uint64_t b; memcpy(&b, &v, 8); h = hash64(h, b); }
  const char *ty = suite == "toy" ? nullptr : A->coco_problem_get_type(p);
  return fmt("%s %s d%zu o%zu c%zu z%zu n%zu b%llx %s", A->coco_problem_get_id(p), ty ? ty : "-", d, A->coco_problem_get_number_of_objectives(p), A->coco_problem_get_number_of_constraints(p), A->coco_problem_get_number_of_integer_variables(p), A->coco_problem_get_suite_dep_index(p), (unsigned long long)h, bareName(I, p).c_str());
}
bool Interp::callPoint(const str &n, int q, const str &spec) {
  CocoApi *A = api;
  int uid = pr[q].uid;
  if (n == "cons" && probs[uid].ncons == 0) return false;
  const size_t dim = probs[uid].dim;
  vec<double> x;
  if (!point(spec, probs[uid], x)) return false;
  // recommending a point without a nearest integer value on a mixed-integer problem is refused (fatal error) by design
  if (n == "rec" && probs[uid].nint > 0) for (double v : x) if (!std::isfinite(v)) return false;
  { Ev e; e.k = n == "eval" ? EvEval : n == "cons" ? EvCons : EvRec; e.op = p->curOp; ev.push_back(std::move(e)); }
  size_t k = ev.size() - 1;
  ev[k].uid = uid; ev[k].slot = q; ev[k].x = x; ev[k].wrap = pr[q].wrap;
  size_t ny = n == "eval" ? probs[uid].nobj : n == "cons" ? probs[uid].ncons : 0;
  // exact-size heap copies so that the address sanitizer sees any overrun
  double *xv = (double *)malloc(sizeof(double) * dim), *yv = (double *)malloc(sizeof(double) * (ny ? ny : 1));
  for (size_t i = 0; i < dim; i++) xv[i] = x[i];
  for (size_t i = 0; i < ny; i++) yv[i] = -12345.678;
  tmp = {xv, yv};
  if (n == "eval") A->coco_evaluate_function(pr[q].p, xv, yv);
  else if (n == "cons") A->coco_evaluate_constraint(pr[q].p, xv, yv);
  else A->coco_recommend_solution(pr[q].p, xv);
  tmp.clear();
  ev[k].y.assign(yv, yv + ny);
  for (size_t i = 0; i < dim; i++) if (memcmp(&xv[i], &x[i], sizeof(double))) ev[k].rc = 77;   // the point itself was modified
  free(xv); free(yv);
  ev[k].done = true;
  if (n != "cons") {
    bool fin = true;
    for (double v : x) fin &= std::isfinite(v);
    if (fin) for (auto &c : pr[q].seen) c++;
  }
  ev[k].ne = A->coco_problem_get_evaluations(pr[q].p); ev[k].nc = A->coco_problem_get_evaluations_constraints(pr[q].p);
  ev[k].best = A->coco_problem_get_best_observed_fvalue1(pr[q].p); ev[k].hit = A->coco_problem_final_target_hit(pr[q].p);
  if (n == "eval") {
    lastX[uid] = x;
    double y0 = ev[k].y[0];
    if (y0 == y0 && (!bestY.count(uid) || y0 < bestY[uid])) { bestY[uid] = y0; bestX[uid] = x; }
  }
  return true;
}

void Interp::exec(const Op &o) {
  const str &n = o.name;
  auto &a = o.a;
  CocoApi *A = api;
  const bool noobs = p->sim->plan->geti("noobs", 0) != 0;   // reference run without observers
  auto skip = [&]() { skipped++; };
  // no options: an empty string or none at all
  auto optArg = [&](const str &t) { return t.empty() && p->sim->plan->geti("nullopt", 0) ? (const char *)nullptr : t.c_str(); };
  auto begin = [&](EvKind k) -> size_t { Ev e; e.k = k; e.op = p->curOp; ev.push_back(std::move(e)); return ev.size() - 1; };
  auto slotOf = [&](int i, int m) -> int { return (int)((size_t)i < a.size() ? ((L(a[i]) % m) + m) % m : 0); };
  auto snap = [&](Ev &e, coco_problem_t *q) {
    e.ne = A->coco_problem_get_evaluations(q); e.nc = A->coco_problem_get_evaluations_constraints(q);
    e.best = A->coco_problem_get_best_observed_fvalue1(q); e.hit = A->coco_problem_final_target_hit(q);
  };
  // a problem went away with its observers
  auto dropProb = [&](ProbSlot &q) {
    for (int u : q.wrap) if (observers[u].observing == q.uid) observers[u].observing = -1;
    q = ProbSlot();
  };
  if (n == "deco") return;   // decoration of the option strings (C25), see there
  if (n == "suite") {
    int s = slotOf(0, 4);
    if (su[s].s || a.size() < 4) return skip();
    size_t k = begin(EvSuite); ev[k].slot = s; ev[k].s = a[1] + "|" + a[2] + "|" + a[3];
    coco_suite_t *r = A->coco_suite(a[1].c_str(), optArg(a[2]), optArg(a[3]));
    ev[k].done = true; ev[k].rc = r != nullptr;
    if (r) { su[s] = SuiteSlot(); su[s].s = r; su[s].name = a[1]; su[s].inst = a.size() > 5 ? a[4] : a[2]; su[s].opts = a.size() > 5 ? a[5] : a[3]; ev[k].a = A->coco_suite_get_number_of_problems(r); }
  } else if (n == "sfree") {
    int s = slotOf(0, 4);
    if (!su[s].s) return skip();
    size_t k = begin(EvSuiteFree); ev[k].slot = s;
    A->coco_suite_free(su[s].s);
    ev[k].done = true;
    for (auto &q : pr) if (q.p && q.suiteSlot == s) { if (q.byNext) { ev[k].uid = q.uid; ev[k].wrap = q.wrap; dropProb(q); } else q.suiteSlot = -2; }
    su[s] = SuiteSlot();
  } else if (n == "obs") {
    int s = slotOf(0, 4);
    if (ob[s] >= 0 || a.size() < 3) return skip();
    size_t k = begin(EvObs); ev[k].slot = s;
    ObsInfo oi; oi.uid = (int)observers.size(); oi.name = a[1]; oi.opts = a.size() > 3 ? a[3] : a[2]; oi.alive = false;
    observers.push_back(oi);
    ev[k].obs = oi.uid;
    if (noobs) { ev[k].done = true; ev[k].rc = 1; observers[oi.uid].alive = true; ob[s] = oi.uid; return; }
    coco_observer_t *r = A->coco_observer(a[1] == "@null" ? nullptr : a[1].c_str(), optArg(a[2]));
    ObsInfo &oo = observers[oi.uid];
    ev[k].done = true; ev[k].rc = r != nullptr;
    if (r) { oo.o = r; oo.alive = true; oo.folder = A->coco_observer_get_result_folder(r); ob[s] = oi.uid; }
  } else if (n == "ofree") {
    int s = slotOf(0, 4);
    if (ob[s] < 0) return skip();
    ObsInfo &oo = observers[ob[s]];
    // a toy log needs its observer; a problem not evaluated yet opens its files through the observer
    for (auto &q : pr) if (q.p) for (size_t w = 0; w < q.wrap.size(); w++) if (q.wrap[w] == ob[s] && (oo.name == "toy" || (oo.name != "rw" && q.seen[w] == 0))) {
      if (oo.name == "toy" || p->sim->plan->geti("strict", 1)) return skip();
    }
    size_t k = begin(EvObsFree); ev[k].obs = ob[s];
    if (!noobs) A->coco_observer_free(oo.o);
    ev[k].done = true; oo.alive = false; oo.o = nullptr; ob[s] = -1;
  } else if (n == "next") {
    // next <probslot> <suite> <observer|-1>
    int q = slotOf(0, 6), s = slotOf(1, 4);
    int oslot = a.size() > 2 ? (int)L(a[2]) : -1;
    int ou = oslot >= 0 ? ob[oslot % 4] : -1;
    if (!su[s].s || su[s].ended) return skip();
    if (ou >= 0 && observers[ou].name != "rw" && (observers[ou].name.find("biobj") != str::npos) != (su[s].name.find("biobj") != str::npos)) return skip();
    int prevSlot = -1;
    for (int i = 0; i < 6; i++) if (pr[i].p && pr[i].byNext && pr[i].suiteSlot == s) prevSlot = i;
    if (pr[q].p && q != prevSlot) return skip();
    if (ou >= 0 && obsExclusive(observers[ou].name) && observers[ou].observing >= 0 && !(prevSlot >= 0 && observers[ou].observing == pr[prevSlot].uid)) return skip();
    size_t k = begin(EvOpen); ev[k].slot = q; ev[k].obs = ou; ev[k].s2 = "next"; ev[k].d = (size_t)s;
    if (prevSlot >= 0) ev[k].b = (size_t)(pr[prevSlot].uid + 1);   // closed by this call
    coco_problem_t *r = A->coco_suite_get_next_problem(su[s].s, ou >= 0 && !noobs ? observers[ou].o : nullptr);
    if (!r) { ev[k].k = EvEnd; ev[k].done = true; su[s].ended = true; ev[k].b = 0; return; }
    if (prevSlot >= 0) dropProb(pr[prevSlot]);
    ProbInfo pi; pi.uid = (int)probs.size();
    fillInfo(this, r, pi, su[s]);
    probs.push_back(pi);
    ev[k].uid = pi.uid; ev[k].a = pi.index; ev[k].done = true; ev[k].s = identity(this, r, pi.suite);
    pr[q] = ProbSlot(); pr[q].p = r; pr[q].uid = pi.uid; pr[q].suiteSlot = s; pr[q].byNext = true;
    su[s].curUid = pi.uid; su[s].visited++;
    if (ou >= 0) { pr[q].wrap.push_back(ou); pr[q].seen.push_back(0); observers[ou].observing = pi.uid; }
  } else if (n == "get" || n == "getfdi") {
    int q = slotOf(0, 6), s = slotOf(1, 4);
    if (!su[s].s || pr[q].p) return skip();
    size_t k = begin(EvOpen); ev[k].slot = q; ev[k].s2 = n; ev[k].d = (size_t)s;
    coco_problem_t *r = nullptr;
    size_t want = 0;
    if (n == "get") {
      size_t tot = A->coco_suite_get_number_of_problems(su[s].s);
      bool beyond = a[2][0] == '+';     // an index beyond the end
      bool raw = a[2][0] == '=';        // any index of the suite; otherwise one that its options select
      const vec<size_t> *sel = beyond || raw ? nullptr : &selectedOf(su[s].name, su[s].inst, su[s].opts);
      if (raw) want = tot ? (size_t)strtoull(a[2].c_str() + 1, 0, 10) % tot : 0;
      else if (sel && !sel->empty()) want = (*sel)[(size_t)strtoull(a[2].c_str(), 0, 10) % sel->size()];
      else want = beyond ? tot + (size_t)strtoull(a[2].c_str() + 1, 0, 10) : tot ? (size_t)strtoull(a[2].c_str(), 0, 10) % tot : 0;
      ev[k].a = want;
      r = A->coco_suite_get_problem(su[s].s, want);
    } else {
      ev[k].s = a[2] + "," + a[3] + "," + a[4];
      r = A->coco_suite_get_problem_by_function_dimension_instance(su[s].s, (size_t)L(a[2]), (size_t)L(a[3]), (size_t)L(a[4]));
    }
    ev[k].done = true; ev[k].rc = r != nullptr;
    if (!r) return;
    ProbInfo pi; pi.uid = (int)probs.size();
    fillInfo(this, r, pi, su[s]);
    probs.push_back(pi);
    ev[k].uid = pi.uid; if (n == "getfdi") ev[k].a = pi.index; else ev[k].s = identity(this, r, pi.suite);
    pr[q] = ProbSlot(); pr[q].p = r; pr[q].uid = pi.uid; pr[q].suiteSlot = s; pr[q].byNext = false;
  } else if (n == "add") {
    int q = slotOf(0, 6), s = slotOf(1, 4);
    if (!pr[q].p || ob[s] < 0 || pr[q].byNext || pr[q].suiteSlot == -2) return skip();
    ObsInfo &oo = observers[ob[s]];
    if (obsExclusive(oo.name) && oo.observing >= 0) return skip();
    if (pr[q].wrap.size() >= 3) return skip();
    if (!pr[q].wrap.empty() && probs[pr[q].uid].suite == "bbob-noisy" && p->sim->plan->geti("strict", 1)) return skip();   // known finding
    size_t nobj = probs[pr[q].uid].nobj;
    bool bi = oo.name.find("biobj") != str::npos;
    if (oo.name != "rw" && (bi ? nobj != 2 : nobj != 1)) return skip();
    size_t k = begin(EvAdd); ev[k].uid = pr[q].uid; ev[k].obs = ob[s]; ev[k].slot = q;
    ev[k].s2 = A->coco_problem_get_name(pr[q].p);
    if (!noobs) pr[q].p = A->coco_problem_add_observer(pr[q].p, oo.o);
    ev[k].done = true;
    pr[q].wrap.push_back(ob[s]); pr[q].seen.push_back(0); oo.observing = pr[q].uid;
    ev[k].wrap = pr[q].wrap;
    snap(ev[k], pr[q].p);
    ev[k].s = identity(this, pr[q].p, probs[pr[q].uid].suite);
  } else if (n == "rem") {
    int q = slotOf(0, 6);
    if (!pr[q].p || pr[q].byNext || pr[q].wrap.empty()) return skip();
    int ou = pr[q].wrap.back();
    if (!observers[ou].alive) return skip();
    size_t k = begin(EvRem); ev[k].uid = pr[q].uid; ev[k].obs = ou; ev[k].slot = q;
    if (!noobs) pr[q].p = A->coco_problem_remove_observer(pr[q].p, observers[ou].o);
    ev[k].done = true;
    pr[q].wrap.pop_back(); pr[q].seen.pop_back();
    if (observers[ou].observing == pr[q].uid) { bool still = false; for (int u : pr[q].wrap) still |= u == ou; if (!still) observers[ou].observing = -1; }
    ev[k].wrap = pr[q].wrap;
    snap(ev[k], pr[q].p);
    ev[k].s = identity(this, pr[q].p, probs[pr[q].uid].suite);
  } else if (n == "eval" || n == "cons" || n == "rec") {
    int q = slotOf(0, 6);
    if (!pr[q].p || a.size() < 2) return skip();
    if (n == "rec" && pr[q].wrap.size() > 1 && p->sim->plan->geti("strict", 1)) return skip();
    if (!callPoint(n, q, a[1])) return skip();
  } else if (n == "evn") {
    // evn <slot> <count> <mode> <seed>: a burst of evaluations
    int q = slotOf(0, 6);
    if (!pr[q].p || a.size() < 4) return skip();
    long m = L(a[1]);
    Rng r(strtoull(a[3].c_str(), 0, 10));
    for (long i = 0; i < m; i++) {
      str sp;
      uint64_t sd = r.next() % 1000000007ULL;
      double z = r.u();
      if (a[2] == "t") sp = fmt("t:%s:%ld", a[3].c_str(), (long)(1e6 * (double)i / (double)m));
      else if (a[2] == "u") sp = fmt("u:%llu", (unsigned long long)sd);
      else if (a[2] == "w") sp = fmt("w:%llu", (unsigned long long)sd);
      else if (a[2] == "c") sp = i + 1 == m && m > 2 ? "o:99:1" : fmt("o:%ld:%llu", (long)(12.0 * (double)i / (double)m), (unsigned long long)sd);
      else if (a[2] == "r") sp = fmt("r:%ld:%llu", (long)(z * 6), (unsigned long long)sd);
      else sp = z < 0.25 ? fmt("u:%llu", (unsigned long long)sd) : z < 0.35 ? fmt("w:%llu", (unsigned long long)sd) : z < 0.7 ? fmt("r:%ld:%llu", (long)(sd % 7), (unsigned long long)sd) : z < 0.9 ? fmt("o:%ld:%llu", (long)(sd % 12), (unsigned long long)sd) : z < 0.97 ? str("p") : fmt("b:%llu", (unsigned long long)sd);
      callPoint("eval", q, sp);
    }
  } else if (n == "restart") {
    int q = slotOf(0, 6);
    if (!pr[q].p) return skip();
    if (a.size() > 1) {
      // from an observer of another kind than the one that observes the problem: without effect
      int s = slotOf(1, 4);
      if (ob[s] < 0 || (!pr[q].wrap.empty() && observers[pr[q].wrap.back()].name == observers[ob[s]].name)) return skip();
      size_t k = begin(EvMisc); ev[k].uid = pr[q].uid; ev[k].s = "restart-unobserved";
      if (!noobs) A->coco_observer_signal_restart(observers[ob[s]].o, pr[q].p);
      ev[k].done = true;
      return;
    }
    if (pr[q].wrap.empty()) return skip();
    int ou = pr[q].wrap.back();
    if (!observers[ou].alive) return skip();
    size_t k = begin(EvRestart); ev[k].uid = pr[q].uid; ev[k].obs = ou; ev[k].wrap = pr[q].wrap;
    if (!noobs) A->coco_observer_signal_restart(observers[ou].o, pr[q].p);
    ev[k].done = true;
  } else if (n == "pfree") {
    int q = slotOf(0, 6);
    if (!pr[q].p || pr[q].byNext) return skip();
    size_t k = begin(EvClose); ev[k].uid = pr[q].uid; ev[k].wrap = pr[q].wrap;
    A->coco_problem_free(pr[q].p);
    ev[k].done = true;
    dropProb(pr[q]);
  } else if (n == "bestp") {
    int q = slotOf(0, 6);
    if (!pr[q].p) return skip();
    size_t k = begin(EvBest); ev[k].uid = pr[q].uid; ev[k].wrap = pr[q].wrap; ev[k].slot = q;
    vec<double> x(probs[pr[q].uid].dim);
    ev[k].rc = A->coco_problem_get_best_parameter(pr[q].p, x.data());
    ev[k].a = (size_t)A->coco_problem_is_tainted(pr[q].p);
    ev[k].x = x;
    ev[k].done = true;
  } else if (n == "bestprint") {
    int q = slotOf(0, 6);
    if (!pr[q].p) return skip();
    bool bi = probs[pr[q].uid].nobj == 2;
    if (bi ? !A->bbob_biobj_problem_best_parameter_print : !A->bbob_problem_best_parameter_print) return skip();
    size_t k = begin(EvMisc); ev[k].uid = pr[q].uid; ev[k].wrap = pr[q].wrap; ev[k].s = "bestprint";
    if (bi) A->bbob_biobj_problem_best_parameter_print(pr[q].p); else A->bbob_problem_best_parameter_print(pr[q].p);
    ev[k].s += "\n" + fileOf(*p->sim, bi ? "._bbob_biobj_problem_best_parameter.txt" : "._bbob_problem_best_parameter.txt");
    ev[k].done = true;
  } else if (n == "reset") {
    size_t k = begin(EvMisc); ev[k].s = "reset";
    A->coco_reset_seeds();
    ev[k].done = true;
  } else if (n == "sleep") {
    p->sim->clock += (double)L(a[0]);
  } else if (n == "rnew") {
    int r = slotOf(0, 4);
    if (rn[r]) return skip();
    size_t k = begin(EvRng); ev[k].slot = r; ev[k].s = "new"; ev[k].a = (size_t)strtoull(a[1].c_str(), 0, 10);
    rn[r] = A->coco_random_new((uint32_t)ev[k].a);
    ev[k].done = true;
  } else if (n == "rdraw") {
    int r = slotOf(0, 4);
    if (!rn[r]) return skip();
    size_t k = begin(EvRng); ev[k].slot = r; ev[k].s = a[1];
    long m = L(a[2]);
    vec<double> v;
    for (long i = 0; i < m; i++) v.push_back(a[1] == "n" ? A->coco_random_normal(rn[r]) : A->coco_random_uniform(rn[r]));
    ev[k].y = v; ev[k].done = true;
  } else if (n == "rfree") {
    int r = slotOf(0, 4);
    if (!rn[r]) return skip();
    size_t k = begin(EvRng); ev[k].slot = r; ev[k].s = "free";
    A->coco_random_free(rn[r]); rn[r] = nullptr; ev[k].done = true;
  } else if (n == "anew") {
    int r = slotOf(0, 4);
    if (ar[r]) return skip();
    size_t k = begin(EvArch); ev[k].slot = r; ev[k].s = "new"; ev[k].s2 = a[1] + "," + a[2] + "," + a[3] + "," + a[4];
    ar[r] = A->coco_archive(a[1].c_str(), (size_t)L(a[2]), (size_t)L(a[3]), (size_t)L(a[4]));
    ev[k].rc = ar[r] != nullptr; ev[k].done = true;
  } else if (n == "aadd") {
    int r = slotOf(0, 4);
    if (!ar[r]) return skip();
    size_t k = begin(EvArch); ev[k].slot = r; ev[k].s = "add"; ev[k].s2 = a[3];
    ev[k].x = {strtod(a[1].c_str(), 0), strtod(a[2].c_str(), 0)};
    // relative to the extremes reported by the generator: values are given in normalised units and mapped by the property
    ev[k].rc = A->coco_archive_add_solution(ar[r], ev[k].x[0], ev[k].x[1], a[3].c_str());
    ev[k].done = true;
  } else if (n == "anum" || n == "ahyp" || n == "atext") {
    int r = slotOf(0, 4);
    if (!ar[r]) return skip();
    size_t k = begin(EvArch); ev[k].slot = r; ev[k].s = n;
    if (n == "anum") ev[k].a = A->coco_archive_get_number_of_solutions(ar[r]);
    else if (n == "ahyp") ev[k].y = {A->coco_archive_get_hypervolume(ar[r])};
    else { const char *t = A->coco_archive_get_next_solution_text(ar[r]); ev[k].s2 = t ? t : "(null)"; }
    ev[k].done = true;
  } else if (n == "afree") {
    int r = slotOf(0, 4);
    if (!ar[r]) return skip();
    size_t k = begin(EvArch); ev[k].slot = r; ev[k].s = "free";
    A->coco_archive_free(ar[r]); ar[r] = nullptr; ev[k].done = true;
  } else if (n == "rmdir") {
    size_t k = begin(EvRmdir); ev[k].s = a[0];
    ev[k].rc = A->coco_remove_directory(a[0].c_str());
    ev[k].done = true;
  } else if (n == "feed") {
    // feed <slot> <evaluation> <y1> <y2>
    int q = slotOf(0, 6);
    if (!pr[q].p || pr[q].wrap.empty() || observers[pr[q].wrap.back()].name.find("biobj") == str::npos) return skip();
    size_t k = begin(EvMisc); ev[k].uid = pr[q].uid; ev[k].s = "feed"; ev[k].slot = q; ev[k].wrap = pr[q].wrap;
    double y[2] = {strtod(a[2].c_str(), 0), strtod(a[3].c_str(), 0)};
    ev[k].a = (size_t)L(a[1]); ev[k].y = {y[0], y[1]};
    ev[k].rc = A->coco_logger_biobj_feed_solution(pr[q].p, ev[k].a, y);
    ev[k].done = true;
    pr[q].seen.back()++;
  } else if (n == "feedh") {
    // feedh <slot> <only-nondominated>: feed back what an earlier problem with the same id was evaluated at
    int q = slotOf(0, 6);
    if (!pr[q].p || pr[q].wrap.empty()) return skip();
    const ObsInfo &oo = observers[pr[q].wrap.back()];
    if (oo.name.find("biobj") == str::npos || oo.opts.find("log_nondominated: read") == str::npos) return skip();
    int uid = pr[q].uid, src = -1;
    for (int u = 0; u < uid; u++) if (probs[u].id == probs[uid].id && probs[u].suite == probs[uid].suite) src = u;
    if (src < 0) return skip();
    for (auto &e : ev) if (e.k == EvMisc && e.uid == uid && e.s == "feed") return skip();     // once only
    vec<std::pair<size_t, vec<double>>> sols;
    vec<vec<double>> front;
    size_t cnt = 0;
    for (auto &e : ev) {
      if (e.k != EvEval || e.uid != src || e.wrap.empty()) continue;
      bool ok = true;
      for (double v : e.x) ok &= std::isfinite(v);
      if (!ok) continue;
      cnt++;
      if (a.size() > 1 && L(a[1])) {
        bool dom = false;
        for (auto &f : front) dom |= f[0] <= e.y[0] && f[1] <= e.y[1];
        if (dom) continue;
        front.push_back(e.y);
      }
      sols.push_back({cnt, e.y});
    }
    for (auto &so : sols) {
      size_t k = begin(EvMisc); ev[k].uid = uid; ev[k].s = "feed"; ev[k].slot = q; ev[k].wrap = pr[q].wrap;
      ev[k].a = so.first; ev[k].y = so.second;
      ev[k].rc = A->coco_logger_biobj_feed_solution(pr[q].p, so.first, so.second.data());
      ev[k].done = true;
    }
  } else if (n == "sinfo") {
    // enumerate the index functions of a suite
    int s = slotOf(0, 4);
    if (!su[s].s) return skip();
    size_t k = begin(EvMisc); ev[k].s = "sinfo"; ev[k].slot = s;
    size_t tot = A->coco_suite_get_number_of_problems(su[s].s);
    ev[k].a = tot;
    for (size_t j = 0; j < tot; j++) {
      size_t f = 9999, d = 9999, i = 9999;
      A->coco_suite_decode_problem_index(su[s].s, j, &f, &d, &i);
      ev[k].x.push_back((double)f); ev[k].x.push_back((double)d); ev[k].x.push_back((double)i);
      ev[k].y.push_back((double)A->coco_suite_encode_problem_index(su[s].s, f, d, i));
      ev[k].c.push_back((double)A->coco_suite_get_function_from_function_index(su[s].s, f));
      ev[k].c.push_back((double)A->coco_suite_get_dimension_from_dimension_index(su[s].s, d));
      ev[k].c.push_back((double)A->coco_suite_get_instance_from_instance_index(su[s].s, i));
    }
    ev[k].done = true;
  } else {
    fprintf(stderr, "cocosim: unknown op %s\n", n.c_str());
    _Exit(3);
  }
}
