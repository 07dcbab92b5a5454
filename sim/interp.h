// Interpreter of operation lists against one library instance; records the history.
#pragma once
#include "sim.h"
#include "api.h"

struct ObsInfo { int uid; str name, opts, folder; bool alive = true; coco_observer_t *o = nullptr; int observing = -1; };
struct SuiteSlot { coco_suite_t *s = nullptr; str name, inst, opts; int curUid = -1; bool ended = false; long visited = 0; };
struct ProbInfo {
  int uid = -1; str suite, inst, opts; size_t index = 0;
  size_t dim = 0, nobj = 0, ncons = 0, nint = 0; long f = 0, i = 0; str id, type;
  vec<double> lo, hi, init, nadir;
  str origName;
};
struct ProbSlot {
  coco_problem_t *p = nullptr; int uid = -1; int suiteSlot = -1; bool byNext = false;
  vec<int> wrap;   // observer uids, innermost first
  vec<size_t> seen;  // valid evaluations seen by each wrapper (for legality rules)
};
enum EvKind { EvSuite, EvSuiteFree, EvObs, EvObsFree, EvOpen, EvEnd, EvClose, EvAdd, EvRem, EvEval, EvCons, EvRec, EvRestart, EvBest, EvRng, EvArch, EvRmdir, EvMisc };
struct Ev {
  EvKind k; long op = 0; int uid = -1; int obs = -1; int slot = -1; bool done = false;
  vec<double> x, y, c;      // c: constraint values when EvCons
  size_t ne = 0, nc = 0; double best = 0; int hit = 0; int rc = 0;
  str s, s2;
  size_t a = 0, b = 0, d = 0;
  vec<int> wrap;
};
struct Interp {
  Proc *p;
  CocoApi *api;
  SuiteSlot su[4];
  ProbSlot pr[6];
  int ob[4] = {-1, -1, -1, -1};
  coco_archive_t *ar[4] = {nullptr, nullptr, nullptr, nullptr};
  coco_random_state_t *rn[4] = {nullptr, nullptr, nullptr, nullptr};
  vec<ObsInfo> observers;
  vec<ProbInfo> probs;
  std::map<int, vec<double>> bestX, lastX; std::map<int, double> bestY;
  vec<Ev> ev;
  vec<double> xbuf;
  vec<size_t> rngDraws;
  long skipped = 0;
  explicit Interp(Proc *q) : p(q), api(nullptr) {}
  void exec(const Op &o);
  bool callPoint(const str &n, int q, const str &spec);
  vec<void *> tmp;
  ~Interp() { for (void *t : tmp) free(t); }
  bool point(const str &spec, const ProbInfo &pi, vec<double> &x);
};
void interpRun(Proc *p);

// reference instance
struct RefKey { str suite, inst, opts; size_t index; bool operator<(const RefKey &o) const { return std::tie(suite, inst, opts, index) < std::tie(o.suite, o.inst, o.opts, o.index); } };
coco_problem_t *refProblem(const RefKey &k);
bool refExtreme(const RefKey &k, bool second, vec<double> &x);      // the optimum of one of the two objectives
str refBestPrint(const RefKey &k);                                  // what *_best_parameter_print writes
bool refOptimum(const RefKey &k, vec<double> &x, double &fopt);
void refEval(const RefKey &k, const vec<double> &x, vec<double> &y, vec<double> *cons, size_t nobj, size_t ncons);
void refFlush();        // drop all cached objects and restore the pristine state
struct SuiteInfo { vec<size_t> f, d, i; size_t n = 0; bool ok = false; };
const SuiteInfo &suiteInfo(const str &suite, const str &inst);   // unfiltered, from the reference instance
RefKey keyOf(const ProbInfo &p);
