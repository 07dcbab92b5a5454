#include "biobj.h"
#include <algorithm>
#include <cfloat>

static const double PREC = 1e-13, DISC = 5 * 1e-13;
static bool aeq(double a, double b) { return std::fabs(a - b) < PREC; }

const BiScale &biScale(const RefKey &k) {
  static std::map<RefKey, BiScale> cache;
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  if (cache.size() > 3000) cache.clear();
  BiScale s;
  coco_problem_t *p = refProblem(k);
  RefScope rs;
  if (p && g_ref->api->shim_best_value) {
    const double *nd = g_ref->api->coco_problem_get_largest_fvalues_of_interest(p);
    if (nd) for (int i = 0; i < 2; i++) { s.nadir[i] = nd[i]; s.ideal[i] = g_ref->api->shim_best_value(p, i); s.ok = true; }
  }
  return cache[k] = s;
}
double refBestIndicator(const RefKey &k) {
  static std::map<RefKey, double> cache;
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  if (cache.size() > 3000) cache.clear();
  double v = NAN;
  RefScope rs;
  CocoApi *A = g_ref->api;
  coco_suite_t *s = A->coco_suite(k.suite.c_str(), k.inst.c_str(), k.opts.c_str());
  coco_observer_t *o = A->coco_observer("bbob-biobj", "result_folder: refbest log_nondominated: none precision_f: 17");
  str folder = A->coco_observer_get_result_folder(o);
  coco_problem_t *p = A->coco_suite_get_problem(s, k.index);
  p = A->coco_problem_add_observer(p, o);
  A->coco_problem_free(p);
  A->coco_observer_free(o);
  A->coco_suite_free(s);
  for (auto &f : g_sim->vfs.tree(VFS::abs(folder))) {
    size_t q = f.first.size();
    if (q > 4 && f.first.compare(q - 4, 4, ".dat") == 0) { size_t z = f.second.find("reference value = "); if (z != str::npos) v = strtod(f.second.c_str() + z + 18, 0); }
  }
  // forget the files
  Ino d; str last;
  if (g_sim->vfs.lookupParent(folder, d, last) == 0) d->ents.erase(last);
  return cache[k] = v;
}
void biNormalize(const BiScale &s, double y0, double y1, double &n0, double &n1) {
  double y[2] = {y0, y1}, n[2];
  for (int i = 0; i < 2; i++) {
    n[i] = (y[i] - s.ideal[i]) / (s.nadir[i] - s.ideal[i]);
    n[i] = std::floor(n[i] / DISC + 0.5) * DISC;
    if (n[i] < 0) n[i] = 0;
  }
  for (int i = 0; i < 2; i++) if (aeq(n[i], 0) && n[1 - i] < 1) n[1 - i] = 1;   // nothing is better than the extremes
  n0 = n[0]; n1 = n[1];
}
int biDom(double a0, double a1, double b0, double b1) {
  bool w = false, l = false;
  for (auto &e : {std::make_pair(a0, b0), std::make_pair(a1, b1)}) {
    if (aeq(e.first, e.second)) continue;
    if (e.first < e.second) w = true;
    if (e.first > e.second) l = true;      // two infinite values are neither
  }
  return w && !l ? 1 : !w && l ? -1 : w && l ? 0 : -2;
}
bool BiFront::add(const BiPoint &p) {
  for (auto &q : pts) { int d = biDom(p.n0, p.n1, q.n0, q.n1); if (d == -1 || d == -2) return false; }
  pts.erase(std::remove_if(pts.begin(), pts.end(), [&](const BiPoint &q) { return biDom(p.n0, p.n1, q.n0, q.n1) == 1; }), pts.end());
  pts.push_back(p);
  return true;
}
static bool inRoi(double v) { return aeq(v, 0) || aeq(v, 1) || (v > 0 && v < 1); }
double BiFront::hyp() const {
  vec<std::pair<double, double>> v;
  for (auto &p : pts) if (inRoi(p.n0) && inRoi(p.n1)) v.push_back({p.n1, p.n0});
  std::sort(v.begin(), v.end());
  double h = 0, prev = 1;
  for (auto &q : v) { if (q.second < prev) { h += (prev - q.second) * (1 - q.first); prev = q.second; } }
  return h;
}

// ---------------------------------------------------------------- logger
static str num(double v, int prec) { return fmt("\x01%.17g,%d\x02", v, prec); }   // compared numerically
struct BiModel::O { const ObsInfo *oi; str mode, vars; bool compute; long pf = -1, pd = -1; };
struct BiModel::W {
  O *o; const ProbInfo *pi; RefKey key;
  str adat, mdat, info, base;
  size_t fe = 0, prevFe = 0; bool restart = false, logVars = true, asInt = false;
  int px, pf; size_t evalLogged = 0; bool targetHit = false, evLogged = false;
  double best = NAN, overall = 0, prevOverall = 0, penalty = DBL_MAX;
  BiFront front; Targets tg; EvalTriggers et; bool noscale = false;
  W(O *oo, const ProbInfo *p)
      : o(oo), pi(p), key(keyOf(*p)),
        tg(p->suite != "bbob-biobj-mixint", (long)optNum(oo->oi->opts, "number_target_triggers", 100), optNum(oo->oi->opts, "log_target_precision", 1e-8), optNum(oo->oi->opts, "lin_target_precision", 1e-5)),
        et(oo->oi->opts, p->dim) {}
};
static str removeInst(const str &id) {
  // f_i_d -> f_d
  size_t a = id.find("_i"), b = id.find("_d", a == str::npos ? 0 : a);
  if (a == str::npos || b == str::npos) return id;
  return id.substr(0, a) + id.substr(b);
}
static str varsOf(const vec<double> &x, size_t nint, bool asInt, int px) {
  str s;
  for (size_t i = 0; i < x.size(); i++) s += i < nint && asInt ? fmt("%d\t", (int)std::floor(x[i] + 0.5)) : fmt("%.*e\t", px, x[i]);
  return s;
}
void BiModel::attach(int uid, int ou, const str &name) {
  while (obs.size() <= (size_t)ou) { obs.push_back(std::make_shared<O>()); obs.back()->oi = nullptr; }
  O &o = *obs[ou];
  const ObsInfo &oi = in->observers[ou];
  if (!o.oi) {
    o.oi = &oi;
    o.mode = optStr(oi.opts, "log_nondominated", "all");
    o.vars = optStr(oi.opts, "log_decision_variables", "low_dim");
    o.compute = optNum(oi.opts, "compute_indicators", 1) != 0;
    if (optNum(oi.opts, "produce_all_data", 0) != 0) { o.mode = "all"; o.vars = "low_dim"; o.compute = true; }
  }
  if (o.mode == "none" && !o.compute) return;    // nothing to log: the observer is inactive
  const ProbInfo &p = in->probs[uid];
  auto w = std::make_shared<W>(&o, &p);
  w->px = (int)optNum(oi.opts, "precision_x", 8); w->pf = (int)optNum(oi.opts, "precision_f", 15);
  w->asInt = optNum(oi.opts, "log_discrete_as_int", 0) == 1;
  w->logVars = !(o.vars == "none" || (o.vars == "low_dim" && p.dim > 5));
  const str &F = oi.folder;
  str prefix = removeInst(p.id);
  if (o.mode == "all" || o.mode == "final") {
    w->adat = F + "/archive/" + p.id + "_nondom_" + o.mode + ".adat";
    files[w->adat] += fmt("%% instance = %ld, name = ", p.i) + name + fmt("\n%% | %zu objectives", p.nobj) + (w->logVars ? fmt(" | %zu variables\n", p.dim) : "\n");
  }
  if (o.compute) {
    w->best = refBestIndicator(w->key);
    w->info = F + "/" + p.type + "_hyp.info";
    bool exists = files.count(w->info) != 0;
    str &f = files[w->info];
    if (!exists) f += "suite = '" + p.suite + "', algorithm = '" + optStr(oi.opts, "algorithm_name", "ALG") + "', indicator = 'hyp', folder = '" + p.type + "', coco_version = 'V'\n% " + optStr(oi.opts, "algorithm_info", "") + (o.mode == "read" ? " (reconstructed)" : "");
    if (o.pf != p.f || o.pd != (long)p.dim) f += fmt("\nfunction = %2ld, dim = %2zu, ", p.f, p.dim) + prefix + "_hyp.dat";
    o.pf = p.f; o.pd = (long)p.dim;
    w->base = F + "/" + p.type + "/" + prefix + "_hyp";
    for (const char *x : {".dat", ".tdat", ".rdat"}) files[w->base + x] += fmt("%%\n%% index = %zu, name = ", p.index) + name + fmt("\n%% instance = %ld, reference value = ", p.i) + num(w->best, w->pf) + "\n% | \n";
  }
  w->mdat = F + "/" + p.type + "/" + prefix + ".mdat";
  files[w->mdat] += fmt("%% instance = %ld, name = ", p.i) + name + fmt("\n%% | %zu objectives", p.nobj);
  if (p.ncons) files[w->mdat] += fmt(" | %zu constraints", p.ncons);
  files[w->mdat] += w->logVars ? fmt(" | %zu variables\n", p.dim) : "\n";
  live[{uid, ou}] = w;
}
void BiModel::detach(int uid, int ou) {
  auto it = live.find({uid, ou});
  if (it == live.end()) return;
  W &w = *it->second;
  if (w.o->mode == "final") {
    vec<BiPoint> v = w.front.pts;
    std::sort(v.begin(), v.end(), [](const BiPoint &a, const BiPoint &b) { return a.eval < b.eval; });
    for (auto &q : v) {
      files[w.adat] += fmt("%lu\t%.*e\t%.*e\t", (unsigned long)q.eval, w.pf, q.y[0], w.pf, q.y[1]) + (w.logVars ? varsOf(q.x, w.pi->nint, w.asInt, w.px) : "") + "\n";
      archived++;
    }
  }
  if (w.o->compute) {
    if (!w.targetHit) { files[w.base + ".dat"] += fmt("%lu\t", (unsigned long)w.fe) + num(w.overall, w.pf) + "\t" + num(w.tg.last(), w.pf) + "\n"; finals++; }
    if (!w.evLogged) { files[w.base + ".tdat"] += fmt("%lu\t", (unsigned long)w.fe) + num(w.overall, w.pf) + "\n"; finals++; }
    files[w.info] += fmt(", %ld:%lu|", w.pi->i, (unsigned long)w.fe) + num(w.overall, 1);
    infoLines++;
    durable[w.info] = files[w.info];
    for (const char *x : {".dat", ".tdat", ".rdat"}) durable[w.base + x] = files[w.base + x];
  }
  if (!w.adat.empty()) { files[w.adat] += fmt("%% evaluations = %lu\n", (unsigned long)w.fe); durable[w.adat] = files[w.adat]; }
  durable[w.mdat] = files[w.mdat];
  live.erase(it);
}
void BiModel::point(W &w, size_t n, const vec<double> &x, const vec<double> &y, bool read) {
  const BiScale &sc = biScale(w.key);
  w.prevFe = w.fe;
  w.fe = n;
  if (!sc.ok) { w.noscale = true; return; }
  BiPoint q; q.eval = n; q.x = x; q.y = y;
  biNormalize(sc, y[0], y[1], q.n0, q.n1);
  bool upd = w.front.add(q);
  if (upd && w.o->mode == "all") {
    files[w.adat] += fmt("%lu\t%.*e\t%.*e\t", (unsigned long)n, w.pf, y[0], w.pf, y[1]) + (w.logVars ? varsOf(x, w.pi->nint, w.asInt, w.px) : "") + "\n";
    archived++;
    durable[w.adat] = files[w.adat];
  }
  if (w.o->compute) {
    w.targetHit = false;
    w.prevOverall = w.overall;
    if (upd) {
      double h = w.front.hyp();
      if (aeq(h, 0)) {
        double d0 = q.n0 - 1, d1 = q.n1 - 1, d;
        if (inRoi(q.n0) && inRoi(q.n1)) d = 0;
        else d = d0 > 0 && d1 > 0 ? std::sqrt(d0 * d0 + d1 * d1) : d0 > 0 ? d0 : d1;
        w.penalty = std::min(w.penalty, d);
      } else w.penalty = 0;
      if (h > 0 && h < 1e-12) ambiguous.insert(w.base + ".dat");
      w.overall = w.best - h + w.penalty;
      Targets lo = w.tg, hi = w.tg;
      double tol = 1e-12 + 1e-13 * std::fabs(w.overall);
      bool hl = lo.hit(w.overall - tol), hh = hi.hit(w.overall + tol);
      w.targetHit = w.tg.hit(w.overall);
      if (hl != hh || lo.last() != hi.last()) ambiguous.insert(w.base + ".dat");
      if (w.targetHit) { files[w.base + ".dat"] += fmt("%lu\t", (unsigned long)n) + num(w.overall, w.pf) + "\t" + num(w.tg.last(), w.pf) + "\n"; targetRecords++; }
    }
    if (read) for (size_t j = w.prevFe + 1; j < n; j++) if (w.et.hit(j)) { files[w.base + ".tdat"] += fmt("%lu\t", (unsigned long)j) + num(w.prevOverall, w.pf) + "\n"; evalRecords++; }
    w.evLogged = w.et.hit(n);
    if (w.evLogged) { files[w.base + ".tdat"] += fmt("%lu\t", (unsigned long)n) + num(w.overall, w.pf) + "\n"; evalRecords++; }
    if (w.restart) { files[w.base + ".rdat"] += fmt("%lu\t", (unsigned long)n) + num(w.overall, w.pf) + "\n"; restartRecords++; }
  }
  w.restart = false;
}
static bool isBi(const str &n) { return n.find("biobj") != str::npos; }
void BiModel::apply(const Ev &e) {
  switch (e.k) {
    case EvOpen:
      if (e.b) { int pu = (int)e.b - 1; vec<int> w; for (auto &l : live) if (l.first.first == pu) w.push_back(l.first.second); for (int o : w) detach(pu, o); }
      if (e.uid >= 0 && e.obs >= 0 && isBi(in->observers[e.obs].name)) attach(e.uid, e.obs, in->probs[e.uid].origName);
      break;
    case EvAdd: if (isBi(in->observers[e.obs].name)) attach(e.uid, e.obs, e.s2); break;
    case EvRem: detach(e.uid, e.obs); break;
    case EvClose: case EvSuiteFree:
      if (e.uid >= 0) for (size_t i = e.wrap.size(); i-- > 0;) detach(e.uid, e.wrap[i]);
      break;
    case EvRestart: { auto it = live.find({e.uid, e.obs}); if (it != live.end() && it->second->fe > 0) it->second->restart = true; break; }
    case EvEval: {
      for (double v : e.x) if (v != v || std::isinf(v)) return;
      for (int ou : e.wrap) {
        auto it = live.find({e.uid, ou});
        if (it == live.end()) continue;
        vec<double> y = e.y;
        if (!e.done) refEval(keyOf(in->probs[e.uid]), e.x, y, nullptr, 2, 0);
        point(*it->second, it->second->fe + 1, e.x, y, false);
      }
      break;
    }
    case EvMisc:
      if (e.s == "feed") {
        auto it = live.find({e.uid, e.wrap.back()});
        if (it == live.end()) break;
        feeds++;
        point(*it->second, e.a, vec<double>(in->probs[e.uid].dim, 0.0), e.y, true);
      }
      break;
    case EvRec: {
      if (e.wrap.size() != 1) break;
      auto it = live.find({e.uid, e.wrap[0]});
      if (it == live.end()) break;
      W &w = *it->second;
      vec<double> y;
      refEval(keyOf(in->probs[e.uid]), e.x, y, nullptr, 2, 0);
      files[w.mdat] += fmt("%lu\t%.*e\t%.*e\t", (unsigned long)w.fe, w.pf, y[0], w.pf, y[1]) + (w.logVars ? varsOf(e.x, w.pi->nint, w.asInt, w.px) : "") + "\n";
      recs++;
      break;
    }
    default: break;
  }
}
