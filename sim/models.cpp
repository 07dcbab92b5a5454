#include "models.h"
#include <cfloat>
#include <climits>

static const double INF_LOG = 3e21, NAN_LOG = 2e21;

str optStr(const str &opts, const str &key, const str &dflt) {
  // "key: value key2: value2", values may be quoted
  size_t i = 0;
  while (i < opts.size()) {
    size_t c = opts.find(':', i);
    if (c == str::npos) break;
    size_t ks = opts.find_last_of(" \t", c);
    str k = opts.substr(ks == str::npos ? 0 : ks + 1, c - (ks == str::npos ? 0 : ks + 1));
    size_t vs = c + 1;
    while (vs < opts.size() && opts[vs] == ' ') vs++;
    str v; size_t e;
    if (vs < opts.size() && opts[vs] == '"') { e = opts.find('"', vs + 1); v = opts.substr(vs + 1, e - vs - 1); e++; }
    else { e = opts.find(' ', vs); if (e == str::npos) e = opts.size(); v = opts.substr(vs, e - vs); }
    if (k == key) return v;
    i = e;
  }
  return dflt;
}
double optNum(const str &opts, const str &key, double d) { str v = optStr(opts, key, ""); return v.empty() ? d : strtod(v.c_str(), 0); }

bool LogTargets::hit(double v) {
  // index of the best target reached; targets are 10^(k/n), then 0, then -10^(k/n)
  long e; double val;
  if (v >= 0) {
    double w = v == 0 ? prec / 10 : v < prec ? prec : v;
    e = (long)std::ceil(std::log10(w) * (double)n);
    val = v == 0 ? 0 : std::pow(10.0, (double)e / (double)n);
  } else {
    double w = v > -prec ? prec : -v;
    long k = (long)std::floor(std::log10(w) * (double)n);
    e = 2 * (long)std::ceil(std::log10(prec / 10) * (double)n) - k - 1;
    val = -std::pow(10.0, (double)k / (double)n);
  }
  if (!first && e >= lastExp) return false;
  if (first && e >= INT_MAX) return false;
  first = false; lastExp = e; value = val;
  return true;
}
bool LinTargets::hit(double v) {
  double q = v / prec;
  double up = std::ceil(q) * prec, rd = std::floor(q + 0.5) * prec, t;
  if (std::fabs(rd - up) < prec) t = up;
  else t = std::fabs(v - rd) < 1e-12 ? rd : up;
  if (t < value) { value = t; return true; }
  return false;
}
EvalTriggers::EvalTriggers(const str &opts, size_t d) : dim(d) {
  num = optNum(opts, "number_evaluation_triggers", 20);
  if (num < 4) num = 20;
  str b = optStr(opts, "base_evaluation_triggers", "1,2,5");
  for (auto &s : split(b, ',')) base.push_back((size_t)atol(s.c_str()));
  v2 = dim * base[0];
}
bool EvalTriggers::hit(size_t n) {
  bool a = false, b = false;
  if (n >= v1) {
    a = true;
    for (long e = 0;; e++) { size_t c = (size_t)std::llround(std::floor(std::pow(10.0, (double)e / num))); if (c > v1) { v1 = c; break; } }
  }
  if (n >= v2) {
    b = true;
    if (++bi == base.size()) { bi = 0; e2++; }
    v2 = (size_t)std::llround(std::pow(10.0, (double)e2) * (double)dim * (double)base[bi]);
  }
  return a || b;
}

bool isBbobFamily(const str &n) {
  return n == "bbob" || n == "bbob-boxed" || n == "bbob-largescale" || n == "bbob-mixint" || n == "bbob-noisy" || n.compare(0, 16, "bbob-constrained") == 0;
}

// ---------------------------------------------------------------- log model
struct LogModel::O {
  const ObsInfo *oi; long lastF = 0; size_t lastD = 0; str lastFile; bool everInfo = false;
  str toyFile;
};
struct LogModel::W {
  O *o; const ProbInfo *pi; str kind;
  bool init = false; str base, info;
  size_t fe = 0, ge = 0, lastDat = 0, lastT = 0, lastM = 0; bool restart = false;
  double best = DBL_MAX, bestRec = INF_LOG, fopt = 0; vec<double> bestX, bestRecX;
  Targets tg, mt; EvalTriggers et; bool asInt;
  // rw
  str file; bool lv = true, lc = true, better = false, ltime = false; int px = 8, pf = 15, pg = 3; double rwBest = DBL_MAX;
  // toy
  LogTargets toy;
  W(O *oo, const ProbInfo *p)
      : o(oo), pi(p), tg(p->suite != "bbob-biobj-mixint", (long)optNum(oo->oi->opts, "number_target_triggers", 100), optNum(oo->oi->opts, "log_target_precision", 1e-8), optNum(oo->oi->opts, "lin_target_precision", 1e-5)),
        mt(tg), et(oo->oi->opts, p->dim), asInt(optNum(oo->oi->opts, "log_discrete_as_int", 0) == 1),
        toy{(long)optNum(oo->oi->opts, "number_target_triggers", 100), optNum(oo->oi->opts, "log_target_precision", 1e-8)} {}
};
LogModel::LogModel(const Interp *i) : in(i) {}
LogModel::~LogModel() {}

static int digit(double c) {
  static const double lim[9] = {0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1};
  for (int i = 0; i < 9; i++) if (c <= lim[i]) return i;
  return 9;
}
static double sane(double v) { return v != v ? NAN_LOG : std::isinf(v) ? INF_LOG : v; }
static int toInt(double v) { return (int)std::floor(v + 0.5); }

void LogModel::initBbob(W &w) {
  O &o = *w.o;
  const ProbInfo &p = *w.pi;
  str rel = fmt("data_f%ld/bbobexp_f%ld_DIM%zu", p.f, p.f, p.dim);
  const str &fold = o.oi->folder;
  w.info = fold + "/" + optStr(o.oi->opts, "prefix", "bbobexp") + fmt("_f%ld.info", p.f);
  bool newline = o.lastF != p.f || o.lastD != p.dim;
  bool infoExists = files.count(w.info) != 0;
  if (newline) {
    str cand = rel;
    for (int c = 1; files.count(fold + "/" + cand + ".dat"); c++) cand = rel + fmt("-%04d", c);
    o.lastFile = cand; o.lastF = p.f; o.lastD = p.dim;
    str &f = files[w.info];
    if (infoExists) f += "\n";
    f += fmt("suite = '%s', funcId = %ld, DIM = %zu, Precision = %.3e, algId = '%s', coco_version = 'V', logger = '%s', data_format = 'bbob-new2'\n%%\n%s.dat",
             p.suite.c_str(), p.f, p.dim, 1e-8, optStr(o.oi->opts, "algorithm_name", "ALG").c_str(), o.oi->name.c_str(), cand.c_str());
  }
  w.base = fold + "/" + o.lastFile;
  files[w.info] += fmt(", %ld", p.i);
  for (const char *x : {".dat", ".tdat", ".rdat", ".mdat"}) files[w.base + x] += fmt("%% | (%13.12e)\n", w.fopt);
  w.init = true;
}
static str bbobLine(size_t fe, size_t ge, double bestMinus, double cur, double best, const vec<double> *cons, size_t ncons, const vec<double> &x, size_t nint, bool asInt) {
  str s = fmt("%lu %lu %+10.9e %+10.9e ", (unsigned long)fe, (unsigned long)ge, bestMinus, cur);
  if (ncons && cons) for (double c : *cons) s += fmt("%d", digit(c));
  else s += fmt("%+10.9e", best);
  if (x.size() < 22) for (size_t i = 0; i < x.size(); i++) s += i < nint && asInt ? fmt(" %d", toInt(x[i])) : fmt(" %+5.4e", x[i]);
  return s + "\n";
}
void LogModel::attach(int uid, int ou, size_t ge, const str &name) {
  while (obs.size() <= (size_t)ou) { obs.push_back(std::make_shared<O>()); obs.back()->oi = &in->observers[obs.size() - 1]; }
  const ProbInfo &p = in->probs[uid];
  auto w = std::make_shared<W>(obs[ou].get(), &p);
  const ObsInfo &oi = in->observers[ou];
  w->ge = ge;
  if (isBbobFamily(oi.name)) {
    w->kind = "bbob";
    vec<double> ox;
    refOptimum(keyOf(p), ox, w->fopt);
  } else if (oi.name == "rw") {
    w->kind = "rw";
    str lv = optStr(oi.opts, "log_variables", "all"), lc = optStr(oi.opts, "log_constraints", "all");
    w->lv = !(lv == "none" || (lv == "low_dim" && p.dim > (size_t)optNum(oi.opts, "low_dim_vars", 10)));
    w->lc = !(lc == "none" || p.ncons == 0 || (lc == "low_dim" && p.ncons > (size_t)optNum(oi.opts, "low_dim_cons", 10)));
    w->better = optNum(oi.opts, "log_only_better", 0) != 0 && p.nobj == 1;
    w->ltime = optNum(oi.opts, "log_time", 0) != 0;
    w->px = (int)optNum(oi.opts, "precision_x", 8); w->pf = (int)optNum(oi.opts, "precision_f", 15); w->pg = (int)optNum(oi.opts, "precision_g", 3);
    w->file = oi.folder + "/" + p.id + "_rw.txt";
    if (w->ltime) timed.insert(VFS::abs(w->file));
    files[w->file] += "\n% suite = '" + p.suite + "', problem_id = '" + p.id + "', problem_name = '" + name + "', coco_version = 'V'\n%" + fmt(" | %zu objective", p.nobj);
    if (w->lv) files[w->file] += fmt(" | %zu variable", p.dim);
    if (w->lc) files[w->file] += fmt(" | %zu constraint", p.ncons);
    files[w->file] += w->ltime ? " | time\n" : "\n";
  } else if (oi.name == "toy") {
    w->kind = "toy";
    w->px = (int)optNum(oi.opts, "precision_x", 8); w->pf = (int)optNum(oi.opts, "precision_f", 15);
    w->file = oi.folder + "/" + optStr(oi.opts, "file_name", "first_hitting_times.dat");
    // the name of the problem is the one at the time of wrapping
    files[w->file] += fmt("\nsuite = '%s', problem_id = '%s', problem_name = '%s', coco_version = 'V'\n%% | %zu variable\n", p.suite.c_str(), p.id.c_str(), name.c_str(), p.dim);
  } else w->kind = "other";
  live[{uid, ou}] = w;
}
void LogModel::detach(int uid, int ou) {
  auto it = live.find({uid, ou});
  if (it == live.end()) return;
  W &w = *it->second;
  if (w.kind == "bbob" && w.init) {
    files[w.info] += fmt(":%lu|%.1e", (unsigned long)w.fe, (w.fe ? w.best : DBL_MAX) - w.fopt);
    flush(w.info);
    if (w.fe && w.fe != w.lastDat) { files[w.base + ".dat"] += bbobLine(w.fe, w.ge, w.best - w.fopt, w.best, w.best, nullptr, w.pi->ncons, w.bestX, w.pi->nint, w.asInt); finalRecords++; }
    if (w.fe && w.fe != w.lastT) { files[w.base + ".tdat"] += bbobLine(w.fe, w.ge, w.best - w.fopt, w.best, w.best, nullptr, w.pi->ncons, w.bestX, w.pi->nint, w.asInt); finalRecords++; }
    if (w.lastM && w.fe != w.lastM) { files[w.base + ".mdat"] += bbobLine(w.fe, w.ge, w.bestRec - w.fopt, w.bestRec, w.bestRec, nullptr, w.pi->ncons, w.bestRecX, w.pi->nint, w.asInt); finalRecords++; }
    for (const char *x : {".dat", ".tdat", ".rdat", ".mdat"}) flush(w.base + x);
  } else if (w.kind == "rw") flush(w.file);
  live.erase(it);
}
void LogModel::onEval(const Ev &e) {
  const ProbInfo &p = in->probs[e.uid];
  for (double v : e.x) if (v != v || std::isinf(v)) return;   // invalid point: not an evaluation
  vec<double> y = e.y, yfree, cons;
  bool any = false;
  for (int ou : e.wrap) any |= live.count({e.uid, ou}) != 0;
  if (!any) return;
  refEval(keyOf(p), e.x, yfree, &cons, p.nobj, p.ncons);
  if (!e.done) y = yfree;
  if (p.suite != "bbob-noisy") yfree = y;
  for (int ou : e.wrap) {
    auto it = live.find({e.uid, ou});
    if (it == live.end()) continue;
    W &w = *it->second;
    if (w.kind == "bbob") {
      if (!w.init) initBbob(w);
      w.fe++;
      w.ge = consCount[e.uid];
      double yl = sane(yfree[0]), sum = 0;
      for (double c : cons) if (c > 0) sum += c;
      sum = sane(sum);
      double mv = std::max(yl, w.fopt);
      if (w.fe == 1 || mv + sum < w.best) {
        w.best = mv + sum; w.bestX = e.x;
        if (w.fe == 1 || w.tg.hit(w.best - w.fopt)) {
          if (w.fe > 1) targetRecords++;
          files[w.base + ".dat"] += bbobLine(w.fe, w.ge, w.best - w.fopt, yl, w.best, &cons, p.ncons, e.x, p.nint, w.asInt);
          w.lastDat = w.fe; records++;
          flush(w.base + ".dat");
        }
      }
      if (w.et.hit(w.fe + w.ge)) {
        files[w.base + ".tdat"] += bbobLine(w.fe, w.ge, w.best - w.fopt, yl, w.best, &cons, p.ncons, e.x, p.nint, w.asInt);
        w.lastT = w.fe; records++;
        flush(w.base + ".tdat");
      }
      if (w.restart) {
        files[w.base + ".rdat"] += bbobLine(w.fe, w.ge, w.best - w.fopt, yl, w.best, &cons, p.ncons, e.x, p.nint, w.asInt);
        w.restart = false; restartRecords++;
        flush(w.base + ".rdat");
      }
    } else if (w.kind == "rw") {
      w.fe++;
      w.ge = consCount[e.uid];
      bool log = true;
      if (p.nobj == 1) { if (y[0] < w.rwBest) w.rwBest = y[0]; else log = !w.better; }
      if (w.fe == 1 || log) {
        str s = fmt("%lu\t%lu\t", (unsigned long)w.fe, (unsigned long)w.ge);
        for (double v : y) s += fmt("%+.*e\t", w.pf, v);
        if (w.lv) for (size_t i = 0; i < e.x.size(); i++) s += i < p.nint && w.asInt ? fmt("%d\t", toInt(e.x[i])) : fmt("%+.*e\t", w.px, e.x[i]);
        if (w.lc) for (double c : cons) s += fmt("%+.*e\t", w.pg, c);
        if (w.ltime) s += "TIME\t";
        files[w.file] += s + "\n"; records++;
      }
      flush(w.file);
    } else if (w.kind == "toy") {
      w.fe++;
      if (w.toy.hit(y[0])) {
        str s = fmt("%lu\t%.*e\t%.*e", (unsigned long)w.fe, w.pf, y[0], w.pf, w.toy.value);
        for (double v : e.x) s += fmt("\t%.*e", w.px, v);
        files[w.file] += s + "\n"; records++; targetRecords++;
      }
      flush(w.file);
    }
  }
}
void LogModel::apply(const Ev &e) {
  switch (e.k) {
    case EvObs:
      while (obs.size() <= (size_t)e.obs) { obs.push_back(std::make_shared<O>()); obs.back()->oi = &in->observers[obs.size() - 1]; }
      if (in->observers[e.obs].name == "toy" && (in->observers[e.obs].alive || e.done)) {
        const ObsInfo &oi = in->observers[e.obs];
        files[oi.folder + "/" + optStr(oi.opts, "file_name", "first_hitting_times.dat")] += "";
      }
      break;
    case EvObsFree:
      if (in->observers[e.obs].name == "toy") { const ObsInfo &oi = in->observers[e.obs]; flush(oi.folder + "/" + optStr(oi.opts, "file_name", "first_hitting_times.dat")); }
      break;
    case EvOpen:
      if (e.b) { int pu = (int)e.b - 1; vec<int> w; for (auto &l : live) if (l.first.first == pu) w.push_back(l.first.second); for (int o : w) detach(pu, o); }
      if (e.uid >= 0 && e.obs >= 0) attach(e.uid, e.obs, 0, in->probs[e.uid].origName);
      break;
    case EvAdd: attach(e.uid, e.obs, consCount[e.uid], e.s2); break;
    case EvRem: detach(e.uid, e.obs); break;
    case EvClose: case EvSuiteFree: {
      if (e.uid < 0) break;
      for (size_t i = e.wrap.size(); i-- > 0;) detach(e.uid, e.wrap[i]);
      break;
    }
    case EvEval: onEval(e); break;
    case EvCons: {
      bool ok = true;
      for (double v : e.x) if (v != v || std::isinf(v)) ok = false;
      if (ok) consCount[e.uid]++;
      break;
    }
    case EvRestart: {
      auto it = live.find({e.uid, e.obs});
      if (it != live.end() && it->second->kind == "bbob" && it->second->fe > 0) it->second->restart = true;
      break;
    }
    case EvRec: {
      const ProbInfo &p = in->probs[e.uid];
      // only the outermost recommendation-capable logger sees it; stacked loggers are outside of this model
      if (e.wrap.size() > 1) { unsupported = "recommendation under stacked observers"; break; }
      if (e.wrap.empty()) break;
      auto it = live.find({e.uid, e.wrap[0]});
      if (it == live.end() || it->second->kind != "bbob") break;
      W &w = *it->second;
      if (!w.init) initBbob(w);
      w.ge = consCount[e.uid];
      vec<double> y, cons;
      bool inf = false, nan = false;
      double infv = 0;
      for (double v : e.x) { if (std::isinf(v)) { if (!inf) infv = std::fabs(v); inf = true; } nan |= v != v; }
      if (inf) { y.assign(p.nobj, infv); cons.assign(p.ncons, infv); }
      else if (nan) { y.assign(p.nobj, NAN); cons.assign(p.ncons, NAN); }
      else refEval(keyOf(p), e.x, y, &cons, p.nobj, p.ncons);
      double yl = sane(y[0]), sum = 0;
      for (double c : cons) if (c > 0) sum += c;
      sum = sane(sum);
      double v = std::max(yl, w.fopt) + sum;
      if (v < w.bestRec) {
        w.bestRec = v; w.bestRecX = e.x;
        if (w.mt.hit(v - w.fopt)) {
          files[w.base + ".mdat"] += bbobLine(w.fe, w.ge, v - w.fopt, yl, v, &cons, p.ncons, e.x, p.nint, w.asInt);
          w.lastM = w.fe; recRecords++;
          flush(w.base + ".mdat");
        }
      }
      break;
    }
    default: break;
  }
}

// ---------------------------------------------------------------- comparison
static str replaceQuoted(str s, const str &key) {
  size_t i = s.find(key + " = '");
  if (i == str::npos) return s;
  size_t b = i + key.size() + 4, e = s.find('\'', b);
  if (e == str::npos) return s;
  return s.substr(0, b) + "V" + s.substr(e);
}
str normLine(const str &l) {
  if (!l.empty() && l[0] == '%') {
    // column headings: keep the facts (the optimum, numbers of columns), drop the wording
    if (l.find(" | ") == str::npos) return replaceQuoted(l, "coco_version");
    str r = "% columns";
    for (size_t a = l.find('('); a != str::npos; a = l.find('(', a + 1)) {
      size_t b = l.find(')', a);
      if (b == str::npos) break;
      str in = l.substr(a + 1, b - a - 1);
      char *e; strtod(in.c_str(), &e);
      if (!in.empty() && *e == 0) r += " (" + in + ")";
    }
    for (auto &part : split(l, '|')) {
      size_t n; char w[16];
      if (sscanf(part.c_str(), " %zu %10[a-z]", &n, w) != 2) { if (part.find("time") != str::npos) r += " time"; continue; }
      str word = w;
      for (const char *k : {"objective", "variable", "constraint"}) if (word.compare(0, strlen(k), k) == 0) r += fmt(" %zu ", n) + k;
    }
    return r;
  }
  return replaceQuoted(l, "coco_version");
}
str normFile(const str &c) {
  str r;
  size_t i = 0;
  while (i < c.size()) {
    size_t j = c.find('\n', i);
    if (j == str::npos) { r += normLine(c.substr(i)); break; }
    r += normLine(c.substr(i, j - i)) + "\n";
    i = j + 1;
  }
  return r;
}
// expected text may contain \x01value,digits\x02: a number printed with %.<digits>e, compared up to rounding noise
static bool sameText(const str &x, const str &y, bool prefix = false) {
  size_t i = 0, j = 0;
  while (i < x.size()) {
    if (x[i] != '\x01') { if (j >= y.size()) return prefix; if (x[i] != y[j]) return false; i++; j++; continue; }
    size_t e = x.find('\x02', i);
    size_t c = x.find(',', i);
    double v = strtod(x.c_str() + i + 1, 0);
    int prec = atoi(x.c_str() + c + 1);
    i = e + 1;
    if (j >= y.size()) return prefix;
    char *end;
    double w = strtod(y.c_str() + j, &end);
    size_t len = (size_t)(end - (y.c_str() + j));
    if (len && fmt("%.*e", prec, v) == y.substr(j, len)) { j += len; continue; }
    if (prefix && j + len >= y.size()) return true;    // cut inside of the number
    if (!len || fmt("%.*e", prec, w) != y.substr(j, len)) return false;
    double unit = v == 0 ? 0 : std::pow(10.0, std::floor(std::log10(std::fabs(v))) - prec);
    if (!(v == w || std::fabs(v - w) <= 0.5001 * unit + 1e-9 * std::fabs(v) + 2e-12)) return false;
    j += len;
  }
  return prefix ? j >= y.size() : j == y.size();
}
// every byte of `must` (which may contain numbers up to rounding) is at the start of y
bool startsWith(const str &must, const str &y) {
  size_t i = 0, j = 0;
  while (i < must.size()) {
    if (must[i] != '\x01') { if (j >= y.size() || must[i] != y[j]) return false; i++; j++; continue; }
    size_t e = must.find('\x02', i);
    char *end; strtod(y.c_str() + j, &end);
    size_t len = (size_t)(end - (y.c_str() + j));
    if (!len || !sameText(must.substr(i, e + 1 - i), y.substr(j, len))) return false;
    i = e + 1; j += len;
  }
  return true;
}
bool textMatches(const str &expect, const str &actual, bool prefix) { return sameText(expect, actual, prefix); }
str stripTime(const str &c) {
  str r;
  for (auto &l : split(c, '\n')) {
    str o = l;
    if (!l.empty() && l[0] != '%' && l.back() == '\t') {
      size_t k = l.find_last_of('\t', l.size() - 2);
      if (k != str::npos) { str t = l.substr(k + 1, l.size() - k - 2); char *e; strtod(t.c_str(), &e); if (!t.empty() && *e == 0) o = l.substr(0, k + 1) + "TIME\t"; }
    }
    r += o + "\n";
  }
  r.pop_back();
  return r;
}
str diffFiles(const Files &ex, const Files &ac, const str &what, const std::set<str> *timed) {
  for (auto &e : ex) {
    auto a = ac.find(e.first);
    if (a == ac.end()) return what + ": file " + e.first + " is missing (expected " + fmt("%zu", e.second.size()) + " bytes)";
    str x = normFile(e.second), y = normFile(a->second);
    if (timed && timed->count(e.first)) y = stripTime(y);
    if (!sameText(x, y)) {
      auto vx = split(x, '\n'), vy = split(y, '\n');
      size_t k = 0;
      while (k < vx.size() && k < vy.size() && sameText(vx[k], vy[k])) k++;
      return what + ": file " + e.first + fmt(" line %zu: expected '", k + 1) + (k < vx.size() ? vx[k] : "<end>") + "', found '" + (k < vy.size() ? vy[k] : "<end>") + "'";
    }
  }
  for (auto &a : ac) if (!ex.count(a.first)) return what + ": unexpected file " + a.first;
  return "";
}
