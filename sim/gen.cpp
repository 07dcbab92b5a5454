#include "props.h"

Gen::Gen(const char *prop, uint64_t seed) : r(hash64(hashs(prop), seed)) {
  p.prop = prop; p.seed = seed; p.procs.resize(1);
}
void Gen::memory() { if (chance(0.3)) env("nullopt", 1); env("fill", range(0, 3)); env("fillseed", range(1, 1000000)); }
void Gen::world() {
  env("clock", range(1000000000, 2000000000));
  if (chance(0.3)) env("clockjump", range(1, 1000000));
  env("bufsize", chance(0.5) ? 4096 : (long[]){1, 7, 64, 1000}[range(0, 3)]);
  if (chance(0.4)) env("split", range(1, 1000000));
  if (chance(0.3)) env("dirorder", range(1, 1000000));
}
static str listOf(Gen &g, long n, long lo, long hi) {
  std::set<long> s;
  while ((long)s.size() < n && (long)s.size() < hi - lo + 1) s.insert(g.range(lo, hi));
  vec<str> v;
  for (long x : s) v.push_back(fmt("%ld", x));
  return join(v, ",");
}
static long instCount(const str &inst) {
  long n = 0;
  for (auto &p : split(inst.substr(inst.find(':') + 2), ',')) { size_t k = p.find('-'); n += k == str::npos ? 1 : atol(p.c_str() + k + 1) - atol(p.c_str()) + 1; }
  return n;
}
SuiteSel pickSuite(Gen &g, const str &cls0, size_t maxDim, bool few) {
  str cls = cls0;
  if (cls == "any") { static const vec<str> all = {"so", "so", "so", "cons", "cons", "mixint", "noisy", "bi", "bi", "bimix", "toy", "large"}; cls = g.pick(all); }
  if (cls == "sofam") { static const vec<str> all = {"so", "so", "so", "cons", "cons", "mixint", "noisy", "large"}; cls = g.pick(all); }
  if (cls == "sodet") { static const vec<str> all = {"so", "so", "so", "cons", "cons", "mixint", "large"}; cls = g.pick(all); }
  SuiteSel s;
  vec<long> dims{2, 3, 5, 10, 20, 40};
  long nf = 24, ni = 15;
  if (cls == "so") { s.name = g.chance(0.75) ? "bbob" : "bbob-boxed"; s.obs = {"bbob", s.name}; }
  else if (cls == "cons") { s.name = "bbob-constrained"; s.cons = true; nf = 54; s.obs = {"bbob", "bbob-constrained"}; }
  else if (cls == "mixint") { s.name = "bbob-mixint"; dims = {5, 10, 20, 40, 80, 160}; s.mix = true; s.obs = {"bbob", "bbob-mixint"}; }
  else if (cls == "noisy") { s.name = "bbob-noisy"; s.noisy = true; nf = 30; s.obs = {"bbob", "bbob-noisy"}; }
  else if (cls == "bi") { s.name = g.chance(0.6) ? "bbob-biobj" : "bbob-biobj-ext"; s.bi = true; nf = s.name == "bbob-biobj" ? 55 : 92; s.obs = {s.name}; }
  else if (cls == "bimix") { s.name = "bbob-biobj-mixint"; s.bi = s.mix = true; nf = 92; dims = {5, 10, 20, 40, 80, 160}; s.obs = {"bbob-biobj-mixint"}; }
  else if (cls == "large") { s.name = "bbob-largescale"; dims = {20, 40, 80, 160, 320, 640}; s.obs = {"bbob", "bbob-largescale"}; }
  else { s.name = "toy"; s.toy = true; nf = 6; ni = 1; dims = {2, 3, 5, 10, 20}; s.obs = {"toy"}; }
  vec<long> ok;
  for (long d : dims) if (d <= (long)maxDim || ok.empty()) ok.push_back(d);
  vec<str> inst = {"", "instances: 1-3", "instances: 1-5", "instances: 2,4,7", "instances: 11"};
  if (s.toy) inst = {""};
  s.inst = g.pick(inst);
  if (!s.toy && !s.bi && g.chance(0.12)) { static const vec<str> more = {"instances: 1-2,1-2", "instances: 51,103", "instances: 77", "instances: 9,8,7", "instances: 101-104", "instances: 3,3"}; s.inst = g.pick(more); }
  bool fresh = s.bi && few && (long)maxDim >= ok[0] && g.chance(0.08);   // instances outside the built-in table
  if (fresh) { static const vec<str> more = {"instances: 16", "instances: 2,17", "instances: 33,21,1"}; s.inst = g.pick(more); ok.resize(1); }
  long nInst = fresh ? 1 + (long)std::count(s.inst.begin(), s.inst.end(), ',') : s.inst.empty() ? ni : instCount(s.inst);
  vec<str> o;
  if (few) {
    std::set<long> dd;
    long nd = g.range(1, 2);
    for (int t = 0; t < 8 && (long)dd.size() < nd; t++) dd.insert(ok[g.r.below(ok.size())]);
    vec<str> dv; for (long d : dd) dv.push_back(fmt("%ld", d));
    o.push_back("dimensions: " + join(dv, ","));
    o.push_back("function_indices: " + listOf(g, g.range(1, 3), 1, nf));
    if (nInst > 1) o.push_back("instance_indices: " + listOf(g, g.range(1, 2), 1, nInst));
  }
  s.opts = join(o, " ");
  return s;
}
str obsOpts(Gen &g, const str &obs, const str &folder, bool plain) {
  vec<str> o;
  if (!folder.empty()) o.push_back("result_folder: " + folder);
  if (plain) return join(o, " ");
  if (g.chance(0.3)) o.push_back(g.chance(0.5) ? "algorithm_name: alg" + g.I(g.range(1, 9)) : "algorithm_name: \"my alg v" + g.I(g.range(1, 9)) + "\"");
  if (g.chance(0.2)) o.push_back("algorithm_info: \"some info here\"");
  if (g.chance(0.4)) o.push_back("number_target_triggers: " + g.pick({"1", "3", "10", "20", "100", "0"}));
  if (g.chance(0.3)) o.push_back("log_target_precision: " + g.pick({"1e-8", "1e-4", "1e-2", "1e-11"}));
  if (g.chance(0.3)) o.push_back("lin_target_precision: " + g.pick({"1e-5", "1e-3", "0.5", "10"}));
  if (g.chance(0.3)) o.push_back("base_evaluation_triggers: " + g.pick({"1,2,5", "3", "1,7", "2,4,6,8", "1,2,3,4,5,6,7,8,9"}));
  if (g.chance(0.25)) o.push_back("log_discrete_as_int: " + g.pick({"0", "1"}));
  if (g.chance(0.08)) o.push_back("outer_folder: " + g.pick({"out", "exdata/deep", "a/b", "./out2"}));
  if (obs != "toy" && obs != "rw" && obs.find("biobj") == str::npos && g.chance(0.08)) o.push_back("prefix: " + g.pick({"pre", "bbobexp2", "x_y"}));
  bool hasP = obs == "rw" || obs == "toy" || obs.find("biobj") != str::npos || g.chance(0.2);
  if (hasP && g.chance(0.3)) o.push_back("precision_x: " + g.I(g.range(1, 15)));
  if (hasP && g.chance(0.3)) o.push_back("precision_f: " + g.I(g.range(1, 15)));
  if (obs == "rw") {
    if (g.chance(0.4)) o.push_back("log_variables: " + g.pick({"none", "low_dim", "all"}));
    if (g.chance(0.2)) o.push_back("low_dim_vars: " + g.pick({"2", "3", "5", "100"}));
    if (g.chance(0.4)) o.push_back("log_constraints: " + g.pick({"none", "low_dim", "all"}));
    if (g.chance(0.2)) o.push_back("low_dim_cons: " + g.pick({"1", "2", "5"}));
    if (g.chance(0.3)) o.push_back("precision_g: " + g.I(g.range(1, 10)));
    if (g.chance(0.35)) o.push_back("log_only_better: " + g.pick({"0", "1"}));
    if (g.chance(0.25)) o.push_back("log_time: " + g.pick({"0", g.p.prop == "C23" || g.p.prop == "C25" ? "0" : "1"}));
  }
  if (obs == "toy" && g.chance(0.2)) o.push_back("file_name: hits.txt");
  if (obs.find("biobj") != str::npos) {
    if (g.chance(0.5)) o.push_back("log_nondominated: " + g.pick({"all", "final", "none", "all"}));
    if (g.chance(0.4)) o.push_back("log_decision_variables: " + g.pick({"all", "none", "low_dim"}));
    if (g.chance(0.15)) o.push_back("compute_indicators: " + g.pick({"0", "1"}));
    if (g.chance(0.1)) o.push_back("produce_all_data: " + g.pick({"0", "1"}));
  }
  for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.r.below(i)]);
  return join(o, " ");
}
str pointSpec(Gen &g, const SuiteSel &s, bool invalid) {
  double z = g.r.u();
  if (invalid && z < 0.06) return g.pick({"n", "f", "nf"}) + ":" + g.I(g.range(0, 4)) + ":" + g.sd();
  if (z < 0.3) return "u:" + g.sd();
  if (z < 0.4) return "w:" + g.sd();
  if (z < 0.45) return "b:" + g.sd();
  if (z < 0.5) return "z";
  if (z < 0.55) return "i";
  if (z < 0.7) return "o:" + g.I(g.chance(0.2) ? 99 : g.range(0, 11)) + ":" + g.sd();
  if (z < 0.75) return "p";
  return "r:" + g.I(g.range(0, 6)) + ":" + g.sd();
}
void bursts(Gen &g, int slot, const SuiteSel &s, int n, const BurstCfg &c) {
  str q = g.I(slot);
  for (int i = 0; i < n; i++) {
    double z = g.r.u();
    if (c.huge > 0 && s.bi && g.chance(c.huge)) g.op({"evn", q, g.I(g.range(300, 1600)), g.pick({"u", "x", "r", "t", "t"}), g.sd()});
    else if (c.huge > 0 && !s.bi && g.chance(c.huge)) g.op({"evn", q, g.I(g.chance(0.15) ? g.range(9000, 30000) : g.range(1000, 3000)), g.pick({"u", "x", "c", "r"}), g.sd()});
    else if (z < 0.3) g.op({"eval", q, pointSpec(g, s, c.invalid)});
    else if (z < 0.55) g.op({"evn", q, g.I(g.chance(c.big) ? g.range(50, 300) : g.range(1, c.maxBurst)), g.pick({"u", "x", "c", "r", "w", "x"}), g.sd()});
    else if (z < 0.7) { if (c.cons && s.cons) g.op({"cons", q, pointSpec(g, s, c.invalid)}); else g.op({"eval", q, pointSpec(g, s, c.invalid)}); }
    else if (z < 0.8 && c.restart) { if (g.chance(0.15)) g.op({"restart", q, g.I(g.range(0, 3))}); else g.op({"restart", q}); }
    else if (z < 0.9 && c.rec) g.op({"rec", q, pointSpec(g, s, c.invalid)});
    else g.op({"eval", q, "o:" + g.I(g.range(0, 12)) + ":" + g.sd()});
  }
}
