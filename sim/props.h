// Properties: plan generators and checks.
#pragma once
#include "interp.h"
#include "models.h"

struct Verdict { bool ok = true; str cls, msg; static Verdict bad(const str &c, const str &m) { Verdict v; v.ok = false; v.cls = c; v.msg = m; return v; } };
struct Prop {
  const char *id;
  Plan (*gen)(uint64_t seed);
  Verdict (*check)(const Plan &);
};
const vec<Prop> &allProps();
extern vec<Switch> g_mainSched;     // schedule of the main simulation of the last check
extern void (*g_planHook)(const Plan &);   // called before a plan is executed (crash attribution)

typedef std::unique_ptr<Sim> SimP;
SimP runPlan(const Plan &p, bool main = false, std::function<void(Sim &)> setup = nullptr);
str badEnd(Sim &s);     // "" if every process ran to its end
Files filesOf(const Sim &s, const str &dir);   // path (relative to /work when below) -> content

// ---- generator toolkit
struct Gen {
  Rng r; Plan p; int cur = 0;
  Gen(const char *prop, uint64_t seed);
  void op(const vec<str> &v) { Op o; o.name = v[0]; o.a.assign(v.begin() + 1, v.end()); p.procs[cur].ops.push_back(o); }
  void env(const str &k, long v) { p.env[k] = fmt("%ld", v); }
  bool chance(double q) { return r.chance(q); }
  long range(long a, long b) { return r.range(a, b); }
  str pick(const vec<str> &v) { return v[r.below(v.size())]; }
  str I(long v) { return fmt("%ld", v); }
  str sd() { return fmt("%llu", (unsigned long long)(r.next() % 1000000007ULL)); }
  void memory();     // uninitialised-memory contents
  void world();      // clock, buffers, write splitting, directory order
};
struct SuiteSel { str name, inst, opts; bool bi = false, cons = false, noisy = false, toy = false, mix = false; vec<str> obs; };
SuiteSel pickSuite(Gen &g, const str &cls, size_t maxDim = 20, bool fewProblems = true);
str obsOpts(Gen &g, const str &obs, const str &folder, bool plain = false);
str pointSpec(Gen &g, const SuiteSel &s, bool invalid = true);
struct BurstCfg { bool cons = true, rec = true, restart = true, invalid = true, bestp = false; int maxBurst = 40; double big = 0.1, huge = 0; };
void bursts(Gen &g, int slot, const SuiteSel &s, int n, const BurstCfg &c);
