// Reference models for the bi-objective logger and the archive.
#pragma once
#include "models.h"
struct BiPoint { size_t eval; vec<double> x, y; double n0, n1; };
struct BiScale { double ideal[2], nadir[2]; bool ok = false; };
const BiScale &biScale(const RefKey &k);
double refBestIndicator(const RefKey &k);
void biNormalize(const BiScale &s, double y0, double y1, double &n0, double &n1);
int biDom(double a0, double a1, double b0, double b1);   // 1: a dominates b, -1: b dominates a, 0 incomparable, -2 equal
// non-dominated set
struct BiFront {
  vec<BiPoint> pts;                 // in order of insertion
  bool add(const BiPoint &p);       // false if weakly dominated
  double hyp() const;               // volume of the part of [0,1]^2 dominated by the points within it
};
struct BiModel {
  const Interp *in;
  Files files, durable;
  std::set<str> ambiguous;          // files in which a target lies within rounding of a value
  long archived = 0, targetRecords = 0, evalRecords = 0, restartRecords = 0, finals = 0, recs = 0, feeds = 0, infoLines = 0;
  struct W; struct O;
  std::vector<std::shared_ptr<O>> obs;
  std::map<std::pair<int, int>, std::shared_ptr<W>> live;
  explicit BiModel(const Interp *i) : in(i) {}
  void apply(const Ev &e);
 private:
  void attach(int uid, int ou, const str &name);
  void detach(int uid, int ou);
  void point(W &w, size_t n, const vec<double> &x, const vec<double> &y, bool read);
};
