// Executable reference models of the observable behaviour of the loggers.
#pragma once
#include "interp.h"
#include <cmath>

str optStr(const str &opts, const str &key, const str &dflt);
double optNum(const str &opts, const str &key, double dflt);

// documented target grid: logarithmic with N targets per decade (down to a precision), mirrored for negative values
struct LogTargets {
  long n; double prec; bool first = true; long lastExp = 0; double value = 1.7976931348623157e308;
  bool hit(double v);
};
struct LinTargets {
  double prec; double value = 1.7976931348623157e308;
  bool hit(double v);
};
struct Targets {
  bool useLog; LogTargets lg; LinTargets ln;
  Targets(bool known, long n, double logp, double linp) : useLog(known && n > 0), lg{n, logp}, ln{linp} {}
  bool hit(double v) { bool a = useLog && lg.hit(v), b = ln.hit(v); return a || b; }
  double last() const { return useLog && lg.value < ln.value ? lg.value : ln.value; }
};
struct EvalTriggers {
  size_t v1 = 1, v2; size_t dim; double num; vec<size_t> base; size_t bi = 0; int e2 = 0;
  EvalTriggers(const str &obsOpts, size_t d);
  bool hit(size_t n);
};

typedef std::map<str, str> Files;

struct ModelBase {
  const Interp *in;
  Files files;              // expected contents
  bool needRefY = false;    // in-flight evaluation: take the values from the reference instance
  std::set<str> loose;      // files whose data is only guaranteed after closing
};

// Expected files of all observers of one process, from its history. Events up to `upto` (exclusive) are complete;
// with inflight, the event `upto` is applied as if it completed.
struct LogModel {
  const Interp *in;
  Files files;       // everything written so far
  Files durable;     // what must be in the files even if the process dies now
  struct W;          // per wrapped problem
  struct O;          // per observer
  std::vector<std::shared_ptr<O>> obs;
  std::map<std::pair<int, int>, std::shared_ptr<W>> live;   // (problem uid, observer uid)
  std::set<str> timed;   // files whose last column is a running time
  str unsupported;   // non-empty: history outside of the model
  long records = 0, targetRecords = 0, restartRecords = 0, recRecords = 0, finalRecords = 0;
  explicit LogModel(const Interp *i);
  ~LogModel();
  void apply(const Ev &e);
  void closeAll();   // orderly end is not implied: nothing is closed by process end
 private:
  void onEval(const Ev &e);
  void attach(int uid, int ou, size_t evalsC, const str &name);
  void detach(int uid, int ou);
  void initBbob(W &w);
  void flush(const str &path) { durable[path] = files[path]; }
  std::map<int, size_t> consCount;   // constraint evaluations per problem
};
bool isBbobFamily(const str &observer);
// compare expected and actual file sets; comments are compared loosely. Returns "" or the first difference.
str diffFiles(const Files &expect, const Files &actual, const str &what, const std::set<str> *timed = nullptr);
str stripTime(const str &c);   // running times of a timed file replaced
bool startsWith(const str &must, const str &y);
bool textMatches(const str &expect, const str &actual, bool prefix);
str normLine(const str &line);
str normFile(const str &content);
