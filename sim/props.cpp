#include "props.h"
#include "biobj.h"
#include <algorithm>
#include <cmath>

vec<Switch> g_mainSched;
void (*g_planHook)(const Plan &) = nullptr;

SimP runPlan(const Plan &p, bool main, std::function<void(Sim &)> setup) {
  SimP s(new Sim(&p));
  if (setup) setup(*s);
  s->run();
  if (main) g_mainSched = s->recorded;
  return s;
}
static str procEnd(const Proc *p) {
  const char *n = p->st == PDone ? "finished" : p->st == PExited ? "exited" : p->st == PAborted ? "aborted" : p->st == PKilled ? "was killed" : "did not run";
  str e = p->err; if (e.size() > 200) e = e.substr(e.size() - 200);
  long op = p->curOp;
  return fmt("process %d %s (status %d) in operation %ld '%s': ", p->id, n, p->exitCode, op, op >= 0 ? p->plan->ops[(size_t)op].name.c_str() : "") + p->endMsg + " " + e;
}
str badEnd(Sim &s) {
  if (s.hang) return "no progress within the step limit";
  for (auto p : s.procs) if (p->st != PDone) return procEnd(p);
  return "";
}
Files filesOf(const Sim &s, const str &dir) {
  Files f;
  for (auto &e : s.vfs.tree(VFS::abs(dir))) if (e.second[0] == 'f') f[e.first] = e.second.substr(1);
  return f;
}
static Files outFiles(const Sim &s) { return filesOf(s, "/work"); }    // everything below the working directory
// without the files that were there before the run
static Files newFiles(const Sim &s, const Plan &p) {
  Files f = outFiles(s);
  for (auto &l : p.fs) { auto w = split(l, '\x1f'); if (w.size() > 1) f.erase(VFS::abs(w[1])); }
  return f;
}
static str normPath(const str &p) {
  vec<str> v;
  for (auto &c : split(VFS::abs(p), '/')) if (!c.empty() && c != ".") v.push_back(c);
  return "/" + join(v, "/");
}
static Files absKeys(const Files &f) { Files r; for (auto &e : f) r[normPath(e.first)] = e.second; return r; }
static bool sameBits(double a, double b) { return (a != a && b != b) || !memcmp(&a, &b, sizeof a); }
static bool validX(const vec<double> &x) { for (double v : x) if (!std::isfinite(v)) return false; return true; }
static str showX(const vec<double> &x) { str s; for (size_t i = 0; i < x.size() && i < 6; i++) s += fmt("%s%.17g", i ? "," : "", x[i]); return s + (x.size() > 6 ? ",..." : ""); }
static Plan noFaults(const Plan &p) { Plan q = p; q.faults.clear(); q.env.erase("capacity"); return q; }
static void dryHook(const Plan &p) { if (g_planHook) g_planHook(p); }

// ---------------------------------------------------------------- expected files of one process
struct Expect {
  Files files, durable; std::set<str> timed, ambiguous; str unsupported; long records = 0;
  // events are applied one after the other; the last one may not have completed
  void build(const Interp *in, bool probes = true) {
    LogModel m(in); BiModel b(in);
    for (auto &e : in->ev) { if (!e.done) break; m.apply(e); b.apply(e); }
    files = absKeys(m.files); durable = absKeys(m.durable); timed.clear(); for (auto &t : m.timed) timed.insert(normPath(t)); unsupported = m.unsupported;
    for (auto &f : absKeys(b.files)) files[f.first] = f.second;
    for (auto &f : absKeys(b.durable)) durable[f.first] = f.second;
    for (auto &a : b.ambiguous) ambiguous.insert(normPath(a));
    records = m.records + m.restartRecords + m.recRecords + m.finalRecords + b.archived + b.targetRecords + b.evalRecords + b.restartRecords + b.finals + b.recs;
    if (probes) {
      probe("log_records", m.records); probe("log_target_records", m.targetRecords); probe("log_restart_records", m.restartRecords); probe("log_recommendation_records", m.recRecords); probe("log_final_records", m.finalRecords);
      probe("archive_records", b.archived); probe("indicator_target_records", b.targetRecords); probe("indicator_evaluation_records", b.evalRecords); probe("indicator_restart_records", b.restartRecords); probe("indicator_final_records", b.finals); probe("biobj_recommendation_records", b.recs); probe("fed_solutions", b.feeds);
      if (!b.ambiguous.empty()) probe("ambiguous_indicator_files", (long)b.ambiguous.size());
    }
  }
};
static str diffExpect(const Expect &x, Files actual) {
  Files e = x.files;
  for (auto &a : x.ambiguous) { if (!actual.count(a)) return "file " + a + " is missing"; e.erase(a); actual.erase(a); }
  return diffFiles(e, actual, "log", &x.timed);
}

// ---------------------------------------------------------------- experiments
// now and then an unusual folder name: with format characters, or up to and beyond the longest supported path (works or is refused)
static str oddFolder(Gen &g, const str &base) {
  if (g.chance(0.02)) return g.pick({"100%s", "p%n%s", "50%", "%d%x"}) + base;
  if (g.chance(0.015)) {
    long n = g.chance(0.2) ? g.range(200, 320) : g.range(4000, 4094); str fo;
    while ((long)fo.size() < n) fo += (fo.empty() ? "" : "/") + str((size_t)std::max(1L, std::min(g.range(100, 240), n - (long)fo.size() - 1)), 'l');
    g.env("longpath", 1);
    return fo;
  }
  return base;
}
static bool refusedPath(const Plan &p, const Proc *q) {
  if (!p.geti("longpath", 0) || q->st != PExited || q->exitCode == 0 || q->err.empty()) return false;
  probe("refused_paths");
  return true;
}
static void experiment(Gen &g, const str &cls, const vec<str> &obsNames, int slotBase, const str &folder, const BurstCfg &bc, size_t maxDim = 20, bool plain = false, long maxProb = 4) {
  SuiteSel s = pickSuite(g, cls, maxDim);
  str S = g.I(slotBase), O = g.I(slotBase);
  g.op({"suite", S, s.name, s.inst, s.opts});
  str on = obsNames.empty() ? g.pick(s.obs) : g.pick(obsNames);
  g.op({"obs", O, on, obsOpts(g, on, folder, plain)});
  bool sweep = g.chance(0.6);
  long np = g.range(1, maxProb);
  str Q = g.I(slotBase);
  for (long k = 0; k < np; k++) {
    if (sweep) g.op({"next", Q, S, O});
    else { g.op({"get", Q, S, g.sd()}); if (g.chance(0.2)) bursts(g, slotBase, s, 2, bc); g.op({"add", Q, O}); }
    bursts(g, slotBase, s, (int)g.range(1, 8), bc);
    if (!sweep) {
      if (g.chance(0.3)) { g.op({"rem", Q}); if (g.chance(0.4)) bursts(g, slotBase, s, 2, bc); if (g.chance(0.4)) { g.op({"add", Q, O}); bursts(g, slotBase, s, 2, bc); } }
      g.op({"pfree", Q});
    }
  }
  if (g.chance(0.5)) { g.op({"ofree", O}); g.op({"sfree", S}); } else { g.op({"sfree", S}); g.op({"ofree", O}); }
}

static Verdict logExact(const Plan &p) {
  SimP s = runPlan(p, true);
  for (auto q : s->procs) if (refusedPath(p, q)) return Verdict();
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  Expect all;
  for (auto q : s->procs) {
    Expect x; x.build(q->in);
    if (!x.unsupported.empty()) { probe("unsupported"); return Verdict(); }
    for (auto &f : x.files) all.files[f.first] = f.second;
    all.timed.insert(x.timed.begin(), x.timed.end());
    all.ambiguous.insert(x.ambiguous.begin(), x.ambiguous.end());
  }
  str d = diffExpect(all, outFiles(*s));
  if (!d.empty()) return Verdict::bad("log", d);
  return Verdict();
}

// ================================================================ C03 C04 C05
static Plan gen03(uint64_t seed) {
  Gen g("C03", seed);
  g.memory(); g.world();
  BurstCfg bc; bc.huge = 0.004;
  int n = g.chance(0.25) ? 2 : 1;
  for (int i = 0; i < n; i++) experiment(g, "sofam", {}, i, oddFolder(g, g.chance(0.7) ? "f" + g.I(i) : "same"), bc, g.chance(0.1) ? 40 : 20);
  return g.p;
}
static Plan gen04(uint64_t seed) {
  Gen g("C04", seed);
  g.memory(); g.world();
  BurstCfg bc; bc.cons = false; bc.huge = 0.002;
  if (g.chance(0.25)) {
    // evaluate, then feed the recorded solutions back into a second logger
    SuiteSel s = pickSuite(g, g.chance(0.8) ? "bi" : "bimix", 20);
    g.op({"suite", "0", s.name, s.inst, s.opts});
    str on = s.obs[0];
    g.op({"obs", "0", on, obsOpts(g, on, "first")});
    str ro = obsOpts(g, on, "second");
    for (const char *k : {"log_nondominated: all", "log_nondominated: final", "log_nondominated: none", "produce_all_data: 1", "produce_all_data: 0"}) { size_t i = ro.find(k); if (i != str::npos) ro.erase(i, strlen(k)); }
    str ix = g.sd();
    long n = g.range(1, 2);
    for (long k = 0; k < n; k++) {
      g.op({"next", "0", "0", "0"});
      bc.rec = false;
      bursts(g, 0, s, (int)g.range(1, 6), bc);
    }
    g.op({"sfree", "0"});
    g.op({"ofree", "0"});
    g.op({"suite", "1", s.name, s.inst, s.opts});
    g.op({"obs", "1", on, ro + " log_nondominated: read"});
    for (long k = 0; k < n; k++) { g.op({"next", "1", "1", "1"}); g.op({"feedh", "1", g.pick({"0", "1"})}); }
    g.op({"sfree", "1"}); g.op({"ofree", "1"});
    return g.p;
  }
  int n = g.chance(0.25) ? 2 : 1;
  for (int i = 0; i < n; i++) experiment(g, g.chance(0.8) ? "bi" : "bimix", {}, i, oddFolder(g, g.chance(0.7) ? "f" + g.I(i) : "same"), bc, g.chance(0.1) ? 40 : 20);
  return g.p;
}
static Plan gen05(uint64_t seed) {
  Gen g("C05", seed);
  g.memory(); g.world();
  BurstCfg bc;
  int n = g.chance(0.3) ? 2 : 1;
  for (int i = 0; i < n; i++) {
    bool toy = g.chance(0.35);
    str folder = oddFolder(g, g.chance(0.7) ? "f" + g.I(i) : "same");
    if (toy) experiment(g, g.chance(0.6) ? "toy" : "so", {"toy"}, i, folder, bc);
    else experiment(g, g.pick({"so", "cons", "cons", "mixint", "bi", "bimix", "toy", "noisy"}), {"rw"}, i, folder, bc);
    if (g.chance(0.2)) g.op({"sleep", g.I(g.range(1, 100000))});
  }
  return g.p;
}

// ================================================================ C01
static const vec<str> FOLDERS = {"res", "res", "res", "a", "a/b", "res-0001", "res-0002", "x y", ""};
static Plan gen01(uint64_t seed) {
  Gen g("C01", seed);
  g.memory(); g.world();
  g.env("pswitch", g.range(5, 70));
  // leftovers in the output directory
  str outer = g.chance(0.25) ? g.pick({"out", "o1/o2", "./out"}) : "";
  str base = (outer.empty() ? "exdata" : outer) + "/";
  if (g.chance(0.03)) {      // a long series of earlier experiments
    long n = g.pick({"9", "10", "11", "99", "100", "101", "999", "1000"}) == "1000" ? 1000 : (long[]){9, 10, 11, 99, 100, 101, 250, 999}[g.range(0, 7)];
    g.p.fs.push_back("d\x1f" + base + "res");
    for (long i = 1; i <= n; i++) g.p.fs.push_back("d\x1f" + base + fmt("res-%04ld", i));
    if (g.chance(0.5)) g.p.fs.push_back("f\x1f" + base + fmt("res-%04ld", n) + "/data_f1/bbobexp_f1_DIM2.dat\x1fold record\n");
  }
  str names[] = {"res", "res-0001", "res-0002", "res-0003", "a", "a-0001", "a/b", "default", "x y"};
  if (g.chance(0.7)) for (auto &n : names) {
    double z = g.r.u();
    if (z < 0.25) { g.p.fs.push_back("f\x1f" + base + n + "/bbobexp_f1.info\x1fold data " + n + "\n"); g.p.fs.push_back("f\x1f" + base + n + "/data_f1/bbobexp_f1_DIM2.dat\x1fold record\n"); }
    else if (z < 0.33) g.p.fs.push_back("d\x1f" + base + n);
    else if (z < 0.38 && n.find('/') == str::npos && n != "a") g.p.fs.push_back("f\x1f" + base + n + "\x1fplain file\n");
    else if (z < 0.41 && n.find('/') == str::npos && n != "a") { g.p.fs.push_back("d\x1f" "elsewhere"); g.p.fs.push_back("f\x1f" "elsewhere/precious.txt\x1fkeep\n"); g.p.fs.push_back("l\x1f" + base + n + "\x1f/work/elsewhere"); }
    else if (z < 0.43 && n.find('/') == str::npos && n != "a") g.p.fs.push_back("l\x1f" + base + n + "\x1fnowhere");
  }
  int np = (int)g.range(1, 4);
  g.p.procs.resize((size_t)np);
  BurstCfg bc; bc.maxBurst = 6; bc.big = 0;
  str common = g.pick(FOLDERS);
  for (int i = 0; i < np; i++) {
    g.cur = i;
    if (i && g.chance(0.15)) g.p.procs[(size_t)i].after = i - 1;
    if (g.chance(0.3)) g.p.procs[(size_t)i].env["clockoff"] = g.I(g.range(-100000, 100000));
    int ne = (int)g.range(1, 3);
    for (int k = 0; k < ne; k++) {
      str folder = g.chance(0.7) ? common : g.pick(FOLDERS);
      if (folder.find(' ') != str::npos) folder = "\"" + folder + "\"";
      if (g.chance(0.3)) { g.op({"obs", g.I(k), g.pick({"bbob", "rw", "toy", "bbob-biobj"}), folder.empty() ? "" : "result_folder: " + folder}); if (g.chance(0.5)) g.op({"ofree", g.I(k)}); }
      else {
        str cls = g.pick({"so", "toy", "bi", "cons"});
        experiment(g, cls, cls == "bi" ? vec<str>{"bbob-biobj", "rw"} : cls == "toy" ? vec<str>{"toy", "rw"} : vec<str>{"bbob", "rw", "toy"}, k, folder, bc, 3, true, 2);
      }
    }
    if (g.chance(0.25)) { Fault f; f.proc = i; f.cls = "seam"; f.n = g.range(1, 120); f.kind = g.chance(0.5) ? "kill_before" : "kill_after"; g.p.faults.push_back(f); }
    if (!outer.empty()) for (auto &o : g.p.procs[(size_t)i].ops) if (o.name == "obs" && g.chance(0.85)) o.a[2] = "outer_folder: " + outer + (o.a[2].empty() ? "" : " ") + o.a[2];
  }
  return g.p;
}
static Verdict check01(const Plan &p) {
  std::map<str, str> before;
  SimP s = runPlan(p, true, [&](Sim &z) { before = z.vfs.tree("/work"); });
  if (s->hang) return Verdict::bad("end", "no progress within the step limit");
  for (auto q : s->procs) if (q->st != PDone && q->st != PKilled) return Verdict::bad("end", procEnd(q));
  auto after = s->vfs.tree("/work");
  for (auto &e : before) {
    if (e.second == "d") { if (!after.count(e.first)) return Verdict::bad("leftover", "directory " + e.first + " that existed before is gone"); continue; }
    auto a = after.find(e.first);
    if (a == after.end()) return Verdict::bad("leftover", e.first + " that existed before is gone");
    if (a->second != e.second) return Verdict::bad("leftover", e.first + " that existed before was changed");
  }
  std::map<str, str> owner;
  std::set<str> folders;
  for (auto q : s->procs) {
    if (!q->in) continue;
    for (auto &e : q->in->ev) {
      if (e.k != EvObs || !e.done || !e.rc) continue;
      const ObsInfo &o = q->in->observers[(size_t)e.obs];
      if (o.folder.empty()) continue;
      str f = normPath(o.folder);
      str me = fmt("observer %d of process %d", e.obs, q->id);
      probe("folders_claimed");
      if (owner.count(f)) return Verdict::bad("shared", me + " got the folder " + f + " of " + owner[f]);
      owner[f] = me;
      if (before.count(f)) return Verdict::bad("existing", me + " got the folder " + f + " that existed before");
      Ino n;
      if (s->vfs.lookup(f, n) || n->kind != Inode::Dir) return Verdict::bad("missing", me + ": the folder " + f + " does not exist");
      if (n->byProc != q->id || n->byOp != e.op) return Verdict::bad("existing", me + " got the folder " + f + fmt(" that was there before (created by process %d in its operation %ld)", n->byProc, n->byOp));
    }
  }
  // the data of every experiment is exactly its own
  Expect all; std::set<str> loose;
  for (auto q : s->procs) {
    if (!q->in) continue;
    Expect x; x.build(q->in);
    if (!x.unsupported.empty()) return Verdict();
    if (q->st == PDone) {
      for (auto &f : x.files) all.files[f.first] = f.second;
      all.timed.insert(x.timed.begin(), x.timed.end()); all.ambiguous.insert(x.ambiguous.begin(), x.ambiguous.end());
    }
    probe(q->st == PKilled ? "killed_processes" : "finished_processes");
  }
  Files act = outFiles(*s);
  for (auto i = act.begin(); i != act.end();) {
    bool mine = false;
    Ino n; s->vfs.lookup(i->first, n, false);
    int by = n ? n->byProc : -1;
    mine = by >= 0 && s->procs[(size_t)by]->st == PDone;
    if (by >= 0) {
      // every file lies in a folder its process has claimed
      bool in = false; bool claiming = false;
      for (auto &e : s->procs[(size_t)by]->in->ev) if (e.k == EvObs) {
        if (!e.done) { claiming = true; continue; }
        str f = normPath(s->procs[(size_t)by]->in->observers[(size_t)e.obs].folder);
        in |= i->first.compare(0, f.size() + 1, f + "/") == 0;
      }
      if (!in && !claiming) return Verdict::bad("outside", fmt("process %d wrote ", by) + i->first + " outside of its result folders");
    }
    if (!mine) i = act.erase(i); else ++i;
  }
  str d = diffExpect(all, act);
  if (!d.empty()) return Verdict::bad("mixed", d);
  return Verdict();
}

// ================================================================ C02
static Plan gen02(uint64_t seed) {
  Gen g("C02", seed);
  g.memory(); g.world();
  BurstCfg bc; bc.maxBurst = 25;
  bool lng = g.chance(0.03);                // a long run that is killed late
  int n = lng ? 0 : g.chance(0.3) ? 2 : 1;
  if (lng) {
    SuiteSel s = pickSuite(g, g.pick({"so", "bi", "bi", "bimix"}), 3);
    str on = g.pick(s.obs);
    g.op({"suite", "0", s.name, s.inst, s.opts}); g.op({"obs", "0", on, obsOpts(g, on, "f", g.chance(0.5))}); g.op({"next", "0", "0", "0"});
    g.op({"evn", "0", g.I(s.bi ? g.range(500, 1500) : g.range(2000, 12000)), s.bi ? str("t") : g.pick({"c", "r", "t"}), g.sd()});
    bursts(g, 0, s, (int)g.range(0, 3), bc);
    g.op({"sfree", "0"}); g.op({"ofree", "0"});
  }
  for (int i = 0; i < n; i++) {
    str cls = g.pick({"so", "so", "cons", "mixint", "bi", "bi", "bimix", "toy", "noisy"});
    vec<str> on;
    if (cls == "bi" || cls == "bimix") { if (g.chance(0.2)) on = {"rw"}; }
    else if (cls == "toy") on = {"toy", "toy", "rw"};
    else if (g.chance(0.3)) on = {"rw", "toy"};
    experiment(g, cls, on, i, g.chance(0.6) ? "f" + g.I(i) : "same", bc, 10, false, 3);
  }
  g.p.procs.push_back(g.p.procs[0]);        // the same experiment, started again
  g.p.procs[1].after = 0;
  Plan dry = g.p; dry.procs.resize(1);
  dryHook(dry);
  SimP s = runPlan(dry);
  long tot = s->procs[0]->nSeam;
  Fault f; f.proc = 0; f.cls = "seam"; f.n = g.range(lng ? tot / 2 : 0, tot > 1 ? tot - 1 : 1);
  f.kind = g.pick({"kill_before", "kill_after", "kill_mid", "kill_mid"});
  if (f.kind == "kill_mid") f.arg = g.I(g.range(0, 200));
  g.p.faults.push_back(f);
  return g.p;
}
static Verdict check02(const Plan &p) {
  if (p.procs.size() < 2) return Verdict();
  Plan dry = noFaults(p);
  SimP d = runPlan(dry);
  str b = badEnd(*d);
  if (!b.empty()) return Verdict::bad("end", b);
  std::map<str, str> atDeath;
  bool dead = false;
  SimP s = runPlan(p, true, [&](Sim &z) {
    z.onFs = [&](Proc *q, const char *) { if (q->id == 1 && !dead) { dead = true; } };
  });
  Proc *k = s->procs[0], *r = s->procs[1];
  if (s->hang) return Verdict::bad("end", "no progress within the step limit");
  if (k->st != PKilled && k->st != PDone) return Verdict::bad("end", procEnd(k));
  if (r->st != PDone) return Verdict::bad("restart", "after a kill of the first process, the same experiment fails: " + procEnd(r));
  Expect x, y;
  x.build(k->in); y.build(r->in, false);
  if (!x.unsupported.empty() || !y.unsupported.empty()) return Verdict();
  probe(k->st == PKilled ? "killed" : "not_killed");
  Files act = outFiles(*s), full = outFiles(*d);
  Files mine, second;
  for (auto &a : act) { Ino n; s->vfs.lookup(a.first, n, false); (n && n->byProc == 1 ? second : mine)[a.first] = a.second; }
  for (auto &a : mine) {
    auto f = full.find(a.first);
    if (f == full.end()) return Verdict::bad("extra", "file " + a.first + " is not one of the uninterrupted experiment");
    str u = a.second, v = f->second;
    if (x.timed.count(a.first)) { /* the clock of the uninterrupted run is the same up to the kill */ }
    if (v.compare(0, u.size(), u)) {
      size_t i = 0; while (i < u.size() && i < v.size() && u[i] == v[i]) i++;
      return Verdict::bad("prefix", "file " + a.first + fmt(" is not a prefix of the one of the uninterrupted experiment: it differs from byte %zu on: found '", i) + u.substr(i, 60) + "', uninterrupted '" + v.substr(i, 60) + "'");
    }
    if (u.size() < v.size()) probe("files_cut_by_kill");
  }
  for (auto &f : x.durable) {
    auto a = mine.find(f.first);
    str have = a == mine.end() ? "" : a->second;
    if (x.timed.count(f.first)) have = stripTime(have);
    str must = normFile(f.second); have = normFile(have);
    if (x.ambiguous.count(f.first)) continue;
    if (!startsWith(must, have)) {
      auto vm = split(must, '\n'), vh = split(have, '\n');
      size_t i = 0; while (i < vm.size() && i < vh.size() && startsWith(vm[i], vh[i])) i++;
      return Verdict::bad("lost", "after the kill, file " + f.first + " lacks a record it owes" + fmt(" (line %zu): '", i + 1) + (i < vm.size() ? vm[i] : "") + "', found '" + (i < vh.size() ? vh[i] : "") + "'");
    }
    probe("durable_bytes", (long)must.size());
  }
  str df = diffExpect(y, second);
  if (!df.empty()) return Verdict::bad("restart", "started again: " + df);
  return Verdict();
}

// ================================================================ C06
static void mixOps(Gen &g, const SuiteSel &s, int slots, int n, const BurstCfg &bc, const vec<str> &obsPool, int nobs) {
  // free mixture on several slots: attaching, detaching, stacking, evaluating
  (void)obsPool;
  for (int i = 0; i < n; i++) {
    int q = (int)g.range(0, slots - 1);
    double z = g.r.u();
    if (z < 0.1) g.op({"get", g.I(q), "0", g.sd()});
    else if (z < 0.2) g.op({"next", g.I(q), "0", g.I(g.range(-1, nobs - 1))});
    else if (z < 0.35) g.op({"add", g.I(q), g.I(g.range(0, nobs - 1))});
    else if (z < 0.45) g.op({"rem", g.I(q)});
    else if (z < 0.5) g.op({"pfree", g.I(q)});
    else if (z < 0.53) g.op({"ofree", g.I(g.range(0, nobs - 1))});
    else bursts(g, q, s, (int)g.range(1, 3), bc);
  }
}
static void writeFaults(Gen &g, int proc, long maxOrd) {
  int n = (int)g.range(1, 3);
  for (int i = 0; i < n; i++) {
    Fault f; f.proc = proc; f.kind = "err";
    if (g.chance(0.15)) { f.cls = "close"; f.n = g.range(0, 12); f.arg = g.pick({"EIO", "ENOSPC", "EDQUOT"}); f.count = g.range(1, 4); }
    else { f.cls = "write"; f.n = g.range(0, maxOrd); f.arg = g.pick({"EIO", "ENOSPC", "EDQUOT"}) + "/" + g.I(g.chance(0.5) ? 0 : g.range(1, 60)); f.count = g.chance(0.5) ? 1 : g.chance(0.5) ? g.range(2, 30) : 1000000; }
    g.p.faults.push_back(f);
  }
}
static Plan gen06(uint64_t seed) {
  Gen g("C06", seed);
  g.memory(); g.world();
  SuiteSel s = pickSuite(g, "any", 20);
  BurstCfg bc; bc.maxBurst = 12; if (s.noisy) bc.rec = false;
  g.op({"suite", "0", s.name, s.inst, s.opts});
  int nobs = (int)g.range(1, 3);
  for (int i = 0; i < nobs; i++) {
    str on = s.bi ? g.pick({s.obs[0], "rw"}) : g.pick({s.obs[0], "rw", "toy", "bbob"});
    g.op({"obs", g.I(i), on, obsOpts(g, on, g.chance(0.5) ? "same" : "f" + g.I(i))});
  }
  mixOps(g, s, 3, (int)g.range(10, 40), bc, s.obs, nobs);
  if (g.chance(0.4)) writeFaults(g, 0, 150);
  if (g.chance(0.1)) g.env("capacity", g.range(0, 3000));
  return g.p;
}
static Verdict compareHistories(const Interp *a, const Interp *b, const str &what) {
  if (a->ev.size() != b->ev.size()) return Verdict::bad("shape", what + fmt(": %zu and %zu calls", a->ev.size(), b->ev.size()));
  for (size_t i = 0; i < a->ev.size(); i++) {
    const Ev &x = a->ev[i], &y = b->ev[i];
    str at = what + fmt(": call %zu (operation %ld) ", i, x.op);
    if (x.k != y.k || x.op != y.op || x.uid != y.uid) return Verdict::bad("shape", at + "differs in kind");
    switch (x.k) {
      case EvOpen: case EvAdd: case EvRem: if (x.k != EvOpen || x.s2 != "getfdi") if (x.s != y.s) return Verdict::bad("identity", at + "problem is '" + x.s + "' observed and '" + y.s + "' unobserved"); break;
      default: break;
    }
    if (x.k == EvEval || x.k == EvCons || x.k == EvRec || x.k == EvAdd || x.k == EvRem) {
      if (x.y.size() != y.y.size()) return Verdict::bad("value", at + "number of values differs");
      for (size_t j = 0; j < x.y.size(); j++) if (!sameBits(x.y[j], y.y[j])) return Verdict::bad("value", at + fmt("value %zu is %.17g observed and %.17g unobserved at ", j, x.y[j], y.y[j]) + showX(x.x) + " on " + a->probs[(size_t)x.uid].id);
      if (x.ne != y.ne) return Verdict::bad("count", at + fmt("evaluations %zu observed, %zu unobserved on ", x.ne, y.ne) + a->probs[(size_t)x.uid].id);
      if (x.nc != y.nc) return Verdict::bad("count", at + fmt("constraint evaluations %zu observed, %zu unobserved on ", x.nc, y.nc) + a->probs[(size_t)x.uid].id);
      if (!sameBits(x.best, y.best)) return Verdict::bad("best", at + fmt("best observed value %.17g observed, %.17g unobserved on ", x.best, y.best) + a->probs[(size_t)x.uid].id);
      if (x.hit != y.hit) return Verdict::bad("hit", at + fmt("final target hit %d observed, %d unobserved on ", x.hit, y.hit) + a->probs[(size_t)x.uid].id);
      if (x.rc == 77) return Verdict::bad("argument", at + "modified the point it was given");
      if (!x.wrap.empty()) probe("observed_calls_compared");
      if (x.wrap.size() > 1) probe("stacked_calls_compared");
    }
  }
  return Verdict();
}
static Verdict check06(const Plan &p) {
  SimP s = runPlan(p, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  Plan q = noFaults(p);
  q.env["noobs"] = "1";
  SimP t = runPlan(q);
  b = badEnd(*t);
  if (!b.empty()) return Verdict::bad("end", "unobserved: " + b);
  for (size_t i = 0; i < s->procs.size(); i++) { Verdict v = compareHistories(s->procs[i]->in, t->procs[i]->in, "observed/unobserved"); if (!v.ok) return v; }
  return Verdict();
}

// ================================================================ C07
static Plan gen07(uint64_t seed) {
  Gen g("C07", seed);
  g.memory(); g.world();
  int np = g.chance(0.25) ? (int)g.range(2, 3) : 1;
  g.p.procs.resize((size_t)np);
  BurstCfg bc; bc.maxBurst = 6; bc.big = 0.02; bc.rec = true;
  for (int i = 0; i < np; i++) {
    g.cur = i;
    int ns = (int)g.range(1, 3);
    vec<SuiteSel> su;
    for (int k = 0; k < ns; k++) {
      SuiteSel s = pickSuite(g, g.pick({"so", "cons", "mixint", "bi", "bimix", "toy", "large", "so", "cons", "noisy"}), g.chance(0.01) ? 640 : g.chance(0.06) ? 160 : 20, g.chance(0.7));
      if (s.opts.empty()) { vec<str> d = split(s.name.find("mixint") != str::npos ? "5,10,20" : s.name == "bbob-largescale" ? "20,40" : "2,3,5,10,20", ','); s.opts = "dimensions: " + join(d, ","); }
      su.push_back(s);
      g.op({"suite", g.I(k), s.name, s.inst, s.opts});
    }
    if (g.chance(0.4)) { str on = g.pick({"bbob", "rw"}); g.op({"obs", "0", on, "result_folder: f" + g.I(i)}); }
    int n = (int)g.range(8, 45);
    for (int k = 0; k < n; k++) {
      double z = g.r.u();
      int q = (int)g.range(0, 4), sl = (int)g.range(0, ns - 1);
      if (z < 0.22) g.op({"get", g.I(q), g.I(sl), g.sd()});
      else if (z < 0.32) g.op({"next", g.I(q), g.I(sl), "-1"});
      else if (z < 0.36) g.op({"add", g.I(q), "0"});
      else if (z < 0.40) g.op({"pfree", g.I(q)});
      else if (z < 0.42) { g.op({"sfree", g.I(sl)}); if (g.chance(0.8)) g.op({"suite", g.I(sl), su[(size_t)sl].name, su[(size_t)sl].inst, su[(size_t)sl].opts}); }
      else if (z < 0.46) g.op({"rnew", g.I(g.range(0, 3)), g.I(g.chance(0.3) ? g.range(0, 3) : g.range(0, 4000000000L))});
      else if (z < 0.54) g.op({"rdraw", g.I(g.range(0, 3)), g.pick({"u", "n"}), g.I(g.chance(0.1) ? g.range(100, 1500) : g.range(1, 20))});
      else if (z < 0.55) g.op({"rfree", g.I(g.range(0, 3))});
      else if (z < 0.56) g.op({"bestprint", g.I(q)});
      else bursts(g, q, su[(size_t)sl], (int)g.range(1, 3), bc);
    }
  }
  return g.p;
}
static Verdict check07(const Plan &p) {
  SimP s = runPlan(p, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  // the reference evaluates in another order, obtains the problem by index from an unfiltered suite, from a pristine state
  refFlush();
  Rng r(hash64(p.seed, 77));
  for (auto q : s->procs) {
    const Interp *in = q->in;
    std::map<int, vec<const Ev *>> draws; std::map<int, const Ev *> open;
    for (size_t i = in->ev.size(); i-- > 0;) {
      const Ev &e = in->ev[i];
      if ((e.k != EvEval && e.k != EvCons) || !validX(e.x)) continue;
      const ProbInfo &pi = in->probs[(size_t)e.uid];
      if (e.k == EvEval && pi.suite == "bbob-noisy") continue;
      if (r.chance(0.02)) { refFlush(); probe("pristine_references"); }
      RefKey key = keyOf(pi);
      if (r.chance(0.5) && !(pi.nobj == 2 && pi.i > 15)) key.opts = "";      // new bi-objective instances are found for the selected dimensions
      vec<double> y, c;
      refEval(key, e.x, y, &c, pi.nobj, pi.ncons);
      const vec<double> &w = e.k == EvEval ? y : c;
      probe(e.k == EvEval ? "values_compared" : "constraint_values_compared");
      for (size_t j = 0; j < w.size(); j++) if (!sameBits(w[j], e.y[j])) return Verdict::bad("value", fmt("process %d call %zu: %s value %zu of ", q->id, i, e.k == EvEval ? "objective" : "constraint", j) + pi.id + fmt(" is %.17g, but %.17g for a fresh problem, at ", e.y[j], w[j]) + showX(e.x));
      if (e.rc == 77) return Verdict::bad("argument", "evaluating " + pi.id + " modified the point it was given");
    }
    // random streams
    std::map<int, coco_random_state_t *> st;
    for (auto &e : in->ev) {
      if (e.k != EvRng) continue;
      RefScope rs;
      CocoApi *A = g_ref->api;
      if (e.s == "new") { if (st.count(e.slot)) A->coco_random_free(st[e.slot]); st[e.slot] = A->coco_random_new((uint32_t)e.a); }
      else if (e.s == "free") { A->coco_random_free(st[e.slot]); st.erase(e.slot); }
      else {
        draws[e.slot].push_back(&e);
        for (size_t j = 0; j < e.y.size(); j++) {
          double v = e.s == "n" ? A->coco_random_normal(st[e.slot]) : A->coco_random_uniform(st[e.slot]);
          if (!sameBits(v, e.y[j])) return Verdict::bad("random", fmt("process %d: draw %zu of generator %d is %.17g, but %.17g when drawn alone", q->id, j, e.slot, e.y[j], v));
          if (e.s != "n" && !(v >= 0 && v <= 1)) return Verdict::bad("random", fmt("uniform random number %.17g out of range", v));
          probe("random_draws_compared");
        }
      }
    }
    { RefScope rs; for (auto &g : st) g_ref->api->coco_random_free(g.second); }
  }
  return Verdict();
}

// ================================================================ C08
static Plan gen08(uint64_t seed) {
  Gen g("C08", seed);
  g.memory();
  SuiteSel s = pickSuite(g, "any", 20);
  BurstCfg bc; bc.maxBurst = 10; bc.huge = 0.001;
  g.op({"suite", "0", s.name, s.inst, s.opts});
  int nobs = (int)g.range(0, 2);
  for (int i = 0; i < nobs; i++) { str on = s.bi ? g.pick({s.obs[0], "rw"}) : g.pick({s.obs[0], "rw", "toy", "bbob"}); g.op({"obs", g.I(i), on, obsOpts(g, on, "f")}); }
  int n = (int)g.range(6, 30);
  for (int i = 0; i < n; i++) {
    int q = (int)g.range(0, 2);
    double z = g.r.u();
    if (z < 0.15) g.op({"get", g.I(q), "0", g.sd()});
    else if (z < 0.25) g.op({"next", g.I(q), "0", g.I(g.range(-1, nobs - 1))});
    else if (nobs && z < 0.33) g.op({"add", g.I(q), g.I(g.range(0, nobs - 1))});
    else if (nobs && z < 0.38) g.op({"rem", g.I(q)});
    else if (z < 0.42) g.op({"pfree", g.I(q)});
    else bursts(g, q, s, (int)g.range(1, 3), bc);
  }
  return g.p;
}
static Verdict check08(const Plan &p) {
  SimP s = runPlan(p, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  for (auto q : s->procs) {
    const Interp *in = q->in;
    struct M { size_t ne = 0, nc = 0; double best = 1.7976931348623157e308; };
    std::map<int, M> mm;
    for (size_t i = 0; i < in->ev.size(); i++) {
      const Ev &e = in->ev[i];
      if (e.k != EvEval && e.k != EvCons && e.k != EvRec && e.k != EvAdd && e.k != EvRem) continue;
      const ProbInfo &pi = in->probs[(size_t)e.uid];
      M &m = mm[e.uid];
      bool v = validX(e.x);
      if (e.k == EvEval && v) {
        m.ne++;
        if (e.y[0] < m.best) {
          bool feas = true;
          if (pi.ncons) { vec<double> y, c; refEval(keyOf(pi), e.x, y, &c, pi.nobj, pi.ncons); for (double z : c) feas &= z <= 0; }
          if (feas) m.best = e.y[0]; else probe("infeasible_improvements");
        }
      } else if (e.k == EvEval) {
        probe("invalid_points");
        for (double y : e.y) if (std::isfinite(y)) return Verdict::bad("invalid", fmt("call %zu: an invalid point got the finite value %.17g on ", i, y) + pi.id);
      }
      if (e.k == EvCons && v) m.nc++;
      if (e.k == EvRec) probe("recommendations");
      str at = fmt("process %d call %zu (operation %ld) on ", q->id, i, e.op) + pi.id + ": ";
      if (e.ne != m.ne) return Verdict::bad("evaluations", at + fmt("%zu evaluations reported, %zu made", e.ne, m.ne));
      if (e.nc != m.nc) return Verdict::bad("constraint_evaluations", at + fmt("%zu constraint evaluations reported, %zu made", e.nc, m.nc));
      if (!sameBits(e.best, m.best)) return Verdict::bad("best", at + fmt("best observed value reported %.17g, true %.17g", e.best, m.best));
      probe("calls_checked");
      int hit = 0;
      if (pi.nobj == 1 && m.ne > 0) {
        vec<double> ox; double fo;
        refOptimum(keyOf(pi), ox, fo);
        hit = m.best <= fo + 1e-8;
        if (std::fabs(m.best - fo - 1e-8) < 1e-13 * (1 + std::fabs(fo))) continue;
      }
      if (hit) probe("final_target_hits");
      if (e.hit != hit) return Verdict::bad("hit", at + fmt("final target hit reported %d, true %d (best %.17g)", e.hit, hit, m.best));
    }
  }
  return Verdict();
}

// ================================================================ C09
static str rangeList(Gen &g, long n, std::set<long> &sel) {
  // a list of numbers and ranges, open or closed, in any order
  vec<str> v;
  long k = g.range(1, 3);
  for (long i = 0; i < k; i++) {
    double z = g.r.u();
    long a = g.range(1, n), b = g.range(a, n);
    if (z < 0.5) { v.push_back(fmt("%ld", a)); sel.insert(a); }
    else if (z < 0.85) { v.push_back(fmt("%ld-%ld", a, b)); for (long j = a; j <= b; j++) sel.insert(j); }
    else if (z < 0.92) { v.push_back(fmt("-%ld", a)); for (long j = 1; j <= a; j++) sel.insert(j); }
    else { v.push_back(fmt("%ld-", a)); for (long j = a; j <= n; j++) sel.insert(j); }
  }
  return join(v, ",");
}
struct SuiteDef { const char *name; long nf; vec<long> dims; vec<const char *> insts; };
static const vec<SuiteDef> SUITES = {
  {"bbob", 24, {2, 3, 5, 10, 20, 40}, {"", "year: 2009", "year: 2010", "year: 2012", "year: 2013", "year: 2014", "year: 2015", "year: 2016", "year: 2017", "year: 2018", "year: 2019", "year: 2021", "year: 2022", "year: 2023", "instances: 1-3", "instances: 7", "instances: 5,3,9", "instances: 1-2,1-2", "instances: 4-6,1"}},
  {"bbob-boxed", 24, {2, 3, 5, 10, 20, 40}, {"", "year: 2023", "instances: 1-3", "instances: 5,3,9"}},
  {"bbob-noisy", 30, {2, 3, 5, 10, 20, 40}, {"", "year: 2009", "instances: 1-3", "instances: 5,3,9"}},
  {"bbob-biobj", 55, {2, 3, 5, 10, 20, 40}, {"", "year: 2016", "year: 2018", "instances: 1-3", "instances: 5,3,9", "instances: 2"}},
  {"bbob-biobj-ext", 92, {2, 3, 5, 10, 20, 40}, {"", "year: 2016", "year: 2017", "instances: 1-3", "instances: 5,3,9"}},
  {"bbob-constrained", 54, {2, 3, 5, 10, 20, 40}, {"", "year: 2022", "instances: 1-3", "instances: 5,3,9"}},
  {"bbob-mixint", 24, {5, 10, 20, 40, 80, 160}, {"", "year: 2019", "instances: 1-3", "instances: 5,3,9"}},
  {"bbob-biobj-mixint", 92, {5, 10, 20, 40, 80, 160}, {"", "instances: 1-3", "instances: 5,3"}},
  {"bbob-largescale", 24, {20, 40, 80, 160, 320, 640}, {"", "year: 2016", "instances: 1-3"}},
  {"toy", 6, {2, 3, 5, 10, 20}, {""}},
};
static Plan gen09(uint64_t seed) {
  Gen g("C09", seed);
  g.memory();
  int ns = (int)g.range(1, 3);
  vec<int> def; vec<vec<str>> sargs;
  for (int k = 0; k < ns; k++) {
    const SuiteDef &d = SUITES[g.r.below(SUITES.size())];
    str inst = d.insts[g.r.below(d.insts.size())];
    size_t ni = suiteInfo(d.name, inst).i.size();
    vec<str> o;
    std::set<long> dummy;
    // keep the dimension small where creating problems is costly
    if (g.chance(0.8)) {
      bool small = g.chance(0.9);
      long nd = (long)d.dims.size(); if (small) nd = str(d.name) == "bbob-largescale" ? 2 : std::min(nd, 4L);
      if (g.chance(0.5)) { std::set<long> ds; long m = g.range(1, 3); for (long i = 0; i < m; i++) ds.insert(d.dims[g.r.below((size_t)nd)]); vec<str> v; for (long x : ds) v.push_back(fmt("%ld", x)); if (g.chance(0.3)) std::reverse(v.begin(), v.end()); o.push_back("dimensions: " + join(v, ",")); }
      else { vec<str> v; long m = g.range(1, 2); for (long i = 0; i < m; i++) { long a = g.range(1, nd), b2 = g.range(a, nd); v.push_back(g.chance(0.5) ? fmt("%ld", a) : fmt("%ld-%ld", a, b2)); } o.push_back("dimension_indices: " + join(v, ",")); }
    } else { o.push_back("dimension_indices: 1-2"); }
    if (g.chance(0.85)) o.push_back("function_indices: " + rangeList(g, d.nf, dummy));
    if (g.chance(0.6) && ni > 1) o.push_back("instance_indices: " + rangeList(g, (long)ni, dummy));
    for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.r.below(i)]);
    sargs.push_back({"suite", g.I(k), d.name, inst, join(o, " ")});
    g.op(sargs.back());
  }
  if (g.chance(0.4)) g.op({"obs", "0", "rw", "result_folder: f"});
  int n = (int)g.range(5, 80);
  bool sweeper = g.chance(0.5);
  if (sweeper) n = (int)g.range(60, 200);
  for (int i = 0; i < n; i++) {
    int k = (int)g.range(0, ns - 1);
    double z = g.r.u();
    if (sweeper && z < 0.8) g.op({"next", g.I(k), g.I(k), g.chance(0.05) ? "0" : "-1"});
    else if (z < 0.5) g.op({"next", g.I(k), g.I(k), g.chance(0.1) ? "0" : "-1"});
    else if (z < 0.62) { g.op({"get", g.I(3 + g.range(0, 2)), g.I(k), (g.chance(0.1) ? "+" + g.I(g.range(0, 5)) : g.chance(0.4) ? "=" + g.sd() : g.sd())}); }
    else if (z < 0.74) {
      const str &nm = sargs[(size_t)k][2];
      for (auto &d : SUITES) if (nm == d.name) {
        long f = g.range(0, d.nf + 1); if (nm == "bbob-noisy") f += 100;
        g.op({"getfdi", g.I(3 + g.range(0, 2)), g.I(k), g.I(f), g.I(g.chance(0.8) ? d.dims[g.r.below(std::min<size_t>(d.dims.size(), 4))] : g.range(0, 50)), g.I(g.chance(0.8) ? g.range(1, 10) : g.range(0, 120))});
      }
    }
    else if (z < 0.86) g.op({"pfree", g.I(3 + g.range(0, 2))});
    else if (z < 0.9) g.op({"eval", g.I(g.range(0, 5)), "u:" + g.sd()});
    else if (z < 0.93) g.op({"sinfo", g.I(k)});
    else if (z < 0.95) { g.op({"sfree", g.I(k)}); g.op(sargs[(size_t)k]); }
  }
  return g.p;
}
struct SuiteModel {
  str name, inst, opts; long nf = 0; vec<long> dims; vec<long> insts;  // unfiltered
  std::set<long> fs, ds, is;                                           // selected indices
  vec<size_t> order; size_t pos = 0; bool ok = false;
  static std::set<long> ranges(const str &t, long n) {
    std::set<long> r;
    for (auto &p : split(t, ',')) {
      size_t d = p.find('-');
      long a = d == str::npos ? atol(p.c_str()) : d == 0 ? 1 : atol(p.substr(0, d).c_str());
      long b = d == str::npos ? a : d + 1 == p.size() ? n : atol(p.substr(d + 1).c_str());
      for (long i = std::max(1L, a); i <= std::min(n, b); i++) r.insert(i - 1);
    }
    return r;
  }
  // the instances of the workshop of a year (the default of a suite is the latest of its own)
  static str workshop(const str &nm, const str &in) {
    long y = atol(optStr(in, "year", "0").c_str());
    if (nm == "toy") return "1";
    if (nm == "bbob") {
      if (!y) y = 2018;
      return y >= 2023 ? "1-5,101-110" : y >= 2021 ? "1-5,91-100" : y >= 2018 ? "1-5,71-80" : y == 2017 ? "1-5,61-70" : y == 2016 ? "1-5,51-60" : y == 2015 ? "1-5,41-50" : y >= 2013 ? "1-5,31-40" : y == 2012 ? "1-5,21-30" : y >= 2010 ? "1-15" : "1-5,1-5,1-5";
    }
    if (nm == "bbob-boxed") return "1-5,101-110";
    if (nm == "bbob-biobj" || nm == "bbob-biobj-ext") return y == 2016 ? "1-10" : "1-15";
    return "1-15";
  }
  SuiteModel() {}
  SuiteModel(const str &nm, const str &in, const str &op) : name(nm), inst(in), opts(op) {
    const SuiteDef *d = nullptr;
    for (auto &x : SUITES) if (nm == x.name) d = &x;
    if (!d) return;
    nf = d->nf; dims = d->dims;
    str il = optStr(in, "instances", "");
    if (il.empty()) il = workshop(nm, in);
    if (!il.empty()) {
      for (auto &p : split(il, ',')) { size_t k = p.find('-'); long a = atol(p.c_str()), b = k == str::npos ? a : atol(p.substr(k + 1).c_str()); for (long i = a; i <= b; i++) insts.push_back(i); }
    } else {
      const SuiteInfo &si = suiteInfo(nm, in);
      RefScope rs;
      coco_suite_t *s = g_ref->api->coco_suite(nm.c_str(), in.c_str(), "");
      for (size_t i = 0; i < si.i.size(); i++) insts.push_back((long)g_ref->api->coco_suite_get_instance_from_instance_index(s, i));
      g_ref->api->coco_suite_free(s);
    }
    long nd = (long)dims.size(), ni = (long)insts.size();
    str f = optStr(op, "function_indices", ""), i = optStr(op, "instance_indices", ""), di = optStr(op, "dimension_indices", ""), dv = optStr(op, "dimensions", "");
    fs = f.empty() ? ranges("1-", nf) : ranges(f, nf);
    is = i.empty() ? ranges("1-", ni) : ranges(i, ni);
    ds = di.empty() ? ranges("1-", nd) : ranges(di, nd);
    if (!dv.empty()) { std::set<long> k; for (auto &x : split(dv, ',')) for (long j = 0; j < nd; j++) if (dims[(size_t)j] == atol(x.c_str()) && ds.count(j)) k.insert(j); ds = k; }
    for (long d2 : ds) for (long f2 : fs) for (long i2 : is) order.push_back((size_t)((d2 * nf + f2) * ni + i2));
    ok = !order.empty();
  }
  bool selected(size_t idx) const { return std::binary_search(order.begin(), order.end(), idx); }
  long fnum(long f) const { return f + 1 + (name == "bbob-noisy" ? 100 : 0); }
};
static Verdict check09(const Plan &p) {
  SimP s = runPlan(p, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  for (auto q : s->procs) {
    const Interp *in = q->in;
    SuiteModel m[4];
    auto verify = [&](const SuiteModel &x, size_t idx, const ProbInfo &pi) -> str {
      long ni = (long)x.insts.size();
      long i = (long)idx % ni, f = (long)idx / ni % x.nf, d = (long)idx / ni / x.nf;
      if ((long)pi.dim != x.dims[(size_t)d]) return fmt("dimension %zu instead of %ld", pi.dim, x.dims[(size_t)d]);
      size_t k = pi.id.find("_f");
      long fid = k == str::npos ? -1 : atol(pi.id.c_str() + k + 2);
      if (x.name != "toy" && fid != x.fnum(f)) return fmt("function %ld instead of %ld", fid, x.fnum(f));
      if (x.name != "toy" && pi.i != x.insts[(size_t)i]) return fmt("instance %ld instead of %ld", pi.i, x.insts[(size_t)i]);
      coco_problem_t *r = refProblem({x.name, x.inst, "", idx});
      str id = r ? g_ref->api->coco_problem_get_id(r) : "(none)";
      if (id != pi.id) return "id " + pi.id + " instead of " + id;
      return "";
    };
    for (size_t i = 0; i < in->ev.size(); i++) {
      const Ev &e = in->ev[i];
      str at = fmt("process %d operation %ld: ", q->id, e.op);
      if (e.k == EvSuite) {
        auto v = split(e.s, '|');
        m[e.slot] = SuiteModel(v[0], v[1], v[2]);
        const SuiteModel &x = m[e.slot];
        if (x.ok && !e.rc) return Verdict::bad("suite", at + "suite " + e.s + " was refused");
        if (e.rc && e.a != (size_t)x.nf * x.dims.size() * x.insts.size()) return Verdict::bad("number", at + fmt("suite %s has %zu problems instead of %zu", e.s.c_str(), e.a, (size_t)x.nf * x.dims.size() * x.insts.size()));
      } else if (e.k == EvOpen && e.s2 == "next") {
        SuiteModel &x = m[e.d];
        if (!x.ok) continue;
        const ProbInfo &pi = in->probs[(size_t)e.uid];
        if (x.pos >= x.order.size()) return Verdict::bad("sweep", at + "the sweep of " + x.name + " goes on after the last problem with " + pi.id);
        size_t want = x.order[x.pos++];
        probe("sweep_steps");
        if (e.a != want) return Verdict::bad("sweep", at + fmt("the sweep of %s (%s) returned index %zu (%s) instead of %zu", x.name.c_str(), x.opts.c_str(), e.a, pi.id.c_str(), want));
        str d = verify(x, want, pi);
        if (!d.empty()) return Verdict::bad("sweep", at + fmt("the problem at index %zu of %s has ", want, x.name.c_str()) + d);
      } else if (e.k == EvEnd) {
        const SuiteModel &x = m[e.d];
        if (!x.ok) continue;
        probe("sweeps_ended");
        if (x.pos != x.order.size()) return Verdict::bad("sweep", at + fmt("the sweep of %s (%s) ended after %zu of %zu problems", x.name.c_str(), x.opts.c_str(), x.pos, x.order.size()));
      } else if (e.k == EvOpen && e.s2 == "get") {
        const SuiteModel &x = m[e.d];
        if (!x.ok) continue;
        bool sel = x.selected(e.a);
        probe(sel ? "lookups_hit" : "lookups_refused");
        if (sel != (e.rc != 0)) return Verdict::bad("lookup", at + fmt("index %zu of %s (%s) is %s but was %s", e.a, x.name.c_str(), x.opts.c_str(), sel ? "selected" : "not selected", e.rc ? "returned" : "refused"));
        if (sel) { const ProbInfo &pi = in->probs[(size_t)e.uid]; if (pi.index != e.a) return Verdict::bad("lookup", at + fmt("asked for index %zu, got %zu", e.a, pi.index)); str d = verify(x, e.a, pi); if (!d.empty()) return Verdict::bad("lookup", at + fmt("the problem at index %zu of %s has ", e.a, x.name.c_str()) + d); }
      } else if (e.k == EvOpen && e.s2 == "getfdi") {
        const SuiteModel &x = m[e.d];
        if (!x.ok) continue;
        auto v = split(e.s, ',');
        long f = atol(v[0].c_str()), d = atol(v[1].c_str()), ii = atol(v[2].c_str());
        long want = -1;
        if (f > 0 && d > 0 && ii > 0)
          for (size_t o : x.order) { long ni = (long)x.insts.size(); long i2 = (long)o % ni, f2 = (long)o / ni % x.nf, d2 = (long)o / ni / x.nf; if (x.fnum(f2) == f && x.dims[(size_t)d2] == d && x.insts[(size_t)i2] == ii) { want = (long)o; break; } }
        else continue;
        probe(want >= 0 ? "fdi_hit" : "fdi_refused");
        if ((want >= 0) != (e.rc != 0)) return Verdict::bad("lookup", at + fmt("function %ld dimension %ld instance %ld of %s (%s) is %s but was %s", f, d, ii, x.name.c_str(), x.opts.c_str(), want >= 0 ? "selected" : "not selected", e.rc ? "returned" : "refused"));
        if (e.rc) { const ProbInfo &pi = in->probs[(size_t)e.uid]; if ((long)pi.index != want) return Verdict::bad("lookup", at + fmt("function %ld dimension %ld instance %ld gave index %zu instead of %ld", f, d, ii, pi.index, want)); str df = verify(x, (size_t)want, pi); if (!df.empty()) return Verdict::bad("lookup", at + "problem has " + df); }
      } else if (e.k == EvMisc && e.s == "sinfo") {
        const SuiteModel &x = m[e.slot];
        if (!x.ok) continue;
        long ni = (long)x.insts.size();
        for (size_t j = 0; j < e.a; j++) {
          long i2 = (long)j % ni, f2 = (long)j / ni % x.nf, d2 = (long)j / ni / x.nf;
          if ((long)e.x[3 * j] != f2 || (long)e.x[3 * j + 1] != d2 || (long)e.x[3 * j + 2] != i2) return Verdict::bad("index", at + fmt("index %zu of %s decodes to f%ld d%ld i%ld", j, x.name.c_str(), (long)e.x[3 * j], (long)e.x[3 * j + 1], (long)e.x[3 * j + 2]));
          if ((size_t)e.y[j] != j) return Verdict::bad("index", at + fmt("encoding the decoded index %zu of %s gives %zu", j, x.name.c_str(), (size_t)e.y[j]));
          long wf = x.fs.count(f2) ? x.fnum(f2) : 0, wd = x.ds.count(d2) ? x.dims[(size_t)d2] : 0, wi = x.is.count(i2) ? x.insts[(size_t)i2] : 0;
          if ((long)e.c[3 * j] != wf || (long)e.c[3 * j + 1] != wd || (long)e.c[3 * j + 2] != wi) return Verdict::bad("index", at + fmt("index %zu of %s (%s) stands for f%ld d%ld i%ld instead of f%ld d%ld i%ld", j, x.name.c_str(), x.opts.c_str(), (long)e.c[3 * j], (long)e.c[3 * j + 1], (long)e.c[3 * j + 2], wf, wd, wi));
        }
        probe("indices_checked", (long)e.a);
      }
    }
  }
  return Verdict();
}

// ================================================================ C11
static void mixedWorkload(Gen &g, const str &cls, const BurstCfg &bc, const str &folder) {
  vec<str> on;
  if (cls == "bi" || cls == "bimix") { if (g.chance(0.2)) on = {"rw"}; }
  else if (cls == "toy") on = {"toy", "toy", "rw"};
  else if (g.chance(0.3)) on = {"rw", "toy"};
  experiment(g, cls, on, 0, folder, bc, 10, false, 3);
}
static const vec<str> CLASSES = {"so", "so", "cons", "mixint", "bi", "bi", "bimix", "toy", "noisy"};
static Plan gen11(uint64_t seed) {
  Gen g("C11", seed);
  g.memory(); g.world();
  BurstCfg bc; bc.maxBurst = 12; bc.big = 0.02;
  if (g.chance(0.06)) {       // instances outside the built-in table
    str on = g.pick({"bbob-biobj", "bbob-biobj-ext"});
    g.op({"suite", "0", on, g.pick({"instances: 16", "instances: 2,17"}), "dimensions: 2 function_indices: " + g.I(g.range(1, 55))});
    if (g.chance(0.5)) g.op({"obs", "0", on, ""});
    g.op({"next", "0", "0", g.chance(0.5) ? "0" : "-1"}); g.op({"eval", "0", "z"});
    if (g.chance(0.5)) g.op({"next", "0", "0", "-1"});
  } else mixedWorkload(g, g.pick(CLASSES), bc, g.pick({"f", "a/b", ""}));
  if (g.chance(0.2)) { g.op({"anew", "0", "bbob-biobj", g.I(g.range(1, 55)), g.pick({"2", "5"}), g.I(g.range(1, 5))}); g.op({"aadd", "0", "1e3", "1e3", "text"}); g.op({"anum", "0"}); g.op({"afree", "0"}); }
  if (g.chance(0.2)) { g.op({"rnew", "0", g.sd()}); g.op({"rdraw", "0", "n", "5"}); g.op({"rfree", "0"}); }
  if (g.chance(0.1)) { g.p.fs.push_back("f\x1f" "old/x/y\x1f" "1"); g.op({"rmdir", "old"}); }
  dryHook(g.p);
  SimP s = runPlan(g.p, false, [](Sim &z) { for (auto q : z.procs) q->wantSites = true; });
  Proc *q = s->procs[0];
  Fault f; f.kind = "err";
  vec<long> calls;
  for (size_t i = 0; i < q->fsLog.size(); i++) if (!strcmp(q->fsLog[i], "mkdir") || !strcmp(q->fsLog[i], "fopen")) calls.push_back((long)i);
  if (!calls.empty() && g.chance(0.45)) {
    f.cls = "fs"; f.n = calls[g.r.below(calls.size())];
    f.arg = g.pick({"EACCES", "ENOSPC", "EMFILE", "EIO", "EROFS", "ENOMEM", "EDQUOT"});
    f.count = 1;
    if (g.chance(0.2)) { f.cls = q->fsLog[(size_t)f.n]; f.n = 0; f.count = 1000000; }
  } else {
    f.cls = "alloc"; f.n = q->nAlloc ? g.range(0, q->nAlloc - 1) : 0; f.arg = "ENOMEM";
    int deep = g.chance(0.4);
    if (!q->sites[deep].empty() && g.chance(0.75)) {      // every call site is equally likely, however rarely it is reached
      vec<long> cnt(q->siteIds[deep].size(), 0), rare;
      for (int x : q->sites[deep]) cnt[(size_t)x]++;
      for (size_t i = 0; i < cnt.size(); i++) if (cnt[i] <= 2) rare.push_back((long)i);
      int site = !rare.empty() && g.chance(0.5) ? (int)rare[g.r.below(rare.size())] : (int)g.r.below(q->siteIds[deep].size());
      vec<long> at;
      for (size_t i = 0; i < q->sites[deep].size(); i++) if (q->sites[deep][i] == site) at.push_back((long)i);
      if (at.empty()) at.push_back(f.n);
      f.n = at[g.r.below(at.size())];
    }
    f.count = g.chance(0.8) ? 1 : 1000000;
  }
  g.p.faults.push_back(f);
  return g.p;
}
static bool isPrefixFile(const str &u, const str &v) { return v.size() >= u.size() && !v.compare(0, u.size(), u); }
// the calls completed by a gave the same results as in b
static str sameResults(const Interp *a, const Interp *b) {
  for (size_t i = 0; i < a->ev.size() && i < b->ev.size(); i++) {
    const Ev &x = a->ev[i], &y = b->ev[i];
    if (!x.done) break;
    str at = fmt("call %zu (operation %ld) ", i, x.op);
    if (x.k != y.k || x.op != y.op || x.uid != y.uid || x.rc != y.rc || x.s != y.s) return at + "differs from the undisturbed run";
    if (x.y.size() != y.y.size()) return at + "differs in the number of values";
    for (size_t j = 0; j < x.y.size(); j++) if (!sameBits(x.y[j], y.y[j])) return at + fmt("value %zu is %.17g instead of %.17g", j, x.y[j], y.y[j]);
    if (x.ne != y.ne || x.nc != y.nc) return at + fmt("counters are %zu, %zu instead of %zu, %zu", x.ne, x.nc, y.ne, y.nc);
    if (!sameBits(x.best, y.best) || x.hit != y.hit) return at + fmt("best observed value %.17g hit %d instead of %.17g hit %d", x.best, x.hit, y.best, y.hit);
  }
  return "";
}
static str durableHeld(const Expect &x, const Files &have0, str *file) {
  for (auto &f : x.durable) {
    if (x.ambiguous.count(f.first)) continue;
    auto a = have0.find(f.first);
    str have = a == have0.end() ? "" : a->second;
    if (x.timed.count(f.first)) have = stripTime(have);
    str must = normFile(f.second); have = normFile(have);
    if (!startsWith(must, have)) {
      auto vm = split(must, '\n'), vh = split(have, '\n');
      size_t i = 0; while (i < vm.size() && i < vh.size() && startsWith(vm[i], vh[i])) i++;
      *file = f.first;
      return fmt("line %zu should be '", i + 1) + (i < vm.size() ? vm[i] : "") + "', found '" + (i < vh.size() ? vh[i] : "") + "'";
    }
  }
  return "";
}
static Verdict check11(const Plan &p) {
  Plan dp = noFaults(p);
  SimP d = runPlan(dp);
  str b = badEnd(*d);
  if (!b.empty()) return Verdict::bad("end", b);
  SimP s = runPlan(p, true);
  if (s->hang) return Verdict::bad("hang", "no progress within the step limit after the fault");
  Proc *q = s->procs[0];
  if (q->st == PAborted) return Verdict::bad("crash", procEnd(q));
  bool fired = false;
  for (auto &f : s->fired) fired |= f.first.compare(0, 3, "fs_") == 0 || f.first == "alloc_fail";
  str r = sameResults(q->in, d->procs[0]->in);
  if (!r.empty()) return Verdict::bad("result", "after the fault: " + r);
  Files act = newFiles(*s, p), full = newFiles(*d, p);
  if (q->st == PExited) {
    if (!fired) return Verdict::bad("end", "without a fault: " + procEnd(q));
    probe("clean_stops");
    if (q->exitCode == 0) return Verdict::bad("status", "the run stops with status 0 after the fault: " + procEnd(q));
    if (q->err.empty()) return Verdict::bad("message", "the run stops without an error message: " + procEnd(q));
    for (auto &a : act) {
      auto f = full.find(a.first);
      if (f == full.end()) return Verdict::bad("extra", "file " + a.first + " is not one of the undisturbed run");
      if (!isPrefixFile(a.second, f->second)) return Verdict::bad("damage", "file " + a.first + " is not a prefix of the one of the undisturbed run");
    }
    Expect x; x.build(q->in);
    str file; str l = durableHeld(x, act, &file);
    if (!l.empty()) return Verdict::bad("lost", "after the fault, file " + file + " lacks a record: " + l);
    return Verdict();
  }
  if (q->in->ev.size() != d->procs[0]->in->ev.size()) return Verdict::bad("result", "the run goes on after the fault with other operations");
  if (act != full) {
    for (auto &f : full) { auto a = act.find(f.first); if (a == act.end()) return Verdict::bad("silent", "the run goes on after the fault without " + f.first); if (a->second != f.second) return Verdict::bad("silent", "the run goes on after the fault with other contents of " + f.first); }
    return Verdict::bad("silent", "the run goes on after the fault with other files");
  }
  if (fired) probe("tolerated_faults");
  return Verdict();
}

// ================================================================ C12
static Plan gen12(uint64_t seed) {
  Gen g("C12", seed);
  g.memory(); g.world();
  BurstCfg bc; bc.maxBurst = 25;
  int n = g.chance(0.3) ? 2 : 1;
  for (int i = 0; i < n; i++) mixedWorkload(g, g.pick(CLASSES), bc, "f" + g.I(i));
  dryHook(g.p);
  SimP s = runPlan(g.p);
  long w = s->procs[0]->nWrite;
  if (g.chance(0.2)) { long tot = 0; for (auto &f : outFiles(*s)) tot += (long)f.second.size(); g.env("capacity", g.range(0, tot + 10)); }
  else writeFaults(g, 0, w > 0 ? w - 1 : 0);
  return g.p;
}
static Verdict check12(const Plan &p) {
  Plan dp = noFaults(p);
  SimP d = runPlan(dp, false, [](Sim &z) { for (auto q : z.procs) q->wantQuiet = true; });
  str b = badEnd(*d);
  if (!b.empty()) return Verdict::bad("end", b);
  SimP s = runPlan(p, true);
  if (s->hang) return Verdict::bad("hang", "no progress within the step limit after a write fault");
  for (size_t i = 0; i < s->procs.size(); i++) {
    Proc *q = s->procs[i], *e = d->procs[i];
    if (q->st == PAborted) return Verdict::bad("crash", procEnd(q));
    str r = sameResults(q->in, e->in);
    if (!r.empty()) return Verdict::bad("result", "while writing the log fails: " + r);
    bool fired = false;
    for (auto &f : s->fired) fired |= f.first.compare(0, 6, "write:") == 0 || f.first.compare(0, 7, "fclose:") == 0;
    bool stopped = q->st == PExited;
    if (stopped) {
      if (!fired) return Verdict::bad("end", "without a fault: " + procEnd(q));
      if (q->exitCode == 0) return Verdict::bad("status", "the run stops with status 0: " + procEnd(q));
      if (q->err.empty()) return Verdict::bad("message", "the run stops without an error message: " + procEnd(q));
      probe("clean_stops");
    } else if (q->in->ev.size() != e->in->ev.size()) return Verdict::bad("result", "the run goes on with other operations");
  }
  bool stopped = s->procs[0]->st == PExited;
  Files act = outFiles(*s), full = outFiles(*d);
  for (auto &a : act) if (!full.count(a.first)) return Verdict::bad("extra", "file " + a.first + " is not one of the undisturbed run");
  const std::map<str, size_t> *q0 = nullptr;
  for (auto &z : d->procs[0]->quiet) if (z.first > s->procs[0]->lastWriteFault && s->procs[0]->lastWriteFault >= 0) { q0 = &z.second; break; }
  for (auto &f : full) {
    auto a = act.find(f.first);
    if (a == act.end()) { if (stopped) continue; return Verdict::bad("missing", "file " + f.first + " was not created"); }
    Ino n; s->vfs.lookup(f.first, n, false);
    if (n->failAt < 0) {
      bool good = stopped ? isPrefixFile(a->second, f.second) : a->second == f.second;
      if (!good) return Verdict::bad("other", "file " + f.first + ", on which no write failed, differs from the one of the undisturbed run");
      probe("untouched_files");
      continue;
    }
    probe("damaged_files");
    size_t k = (size_t)n->failAt;
    if (a->second.size() < k || a->second.compare(0, k, f.second, 0, k)) return Verdict::bad("earlier", "file " + f.first + fmt(": the %zu bytes written before the failure are not intact", k));
    if (q0 && !stopped) {
      size_t from = q0->count(f.first) ? q0->at(f.first) : 0;
      str tail = from < f.second.size() ? f.second.substr(from) : "";
      if (a->second.size() < tail.size() || a->second.compare(a->second.size() - tail.size(), str::npos, tail)) return Verdict::bad("later", "file " + f.first + ": what was logged after the device worked again is not recorded correctly");
      if (!tail.empty()) probe("recovered_bytes", (long)tail.size());
    }
  }
  return Verdict();
}

// ================================================================ C13
static Plan gen13(uint64_t seed) {
  Gen g("C13", seed);
  g.memory();
  if (g.chance(0.15)) g.env("strict", 0);
  if (g.chance(0.2)) g.env("bufsize", g.pick({"1", "7"}) == "1" ? 1 : 7);
  int ns = (int)g.range(1, 3);
  vec<SuiteSel> su; vec<vec<str>> so;
  BurstCfg bc; bc.maxBurst = 8; bc.big = 0.02;
  for (int i = 0; i < ns; i++) {
    SuiteSel s = pickSuite(g, "any", g.chance(0.05) ? 80 : 10, true);
    if (g.chance(0.002)) { s = SuiteSel(); s.name = "bbob-biobj-mixint"; s.obs = {s.name}; s.bi = s.mix = true; s.inst = "instances: 16"; s.opts = "dimensions: 80 function_indices: 3"; }
    else if (g.chance(0.08)) s.opts = "dimensions: 7";                     // selects nothing
    else if (g.chance(0.05)) s.opts += " unknown_option: 3";
    su.push_back(s);
    so.push_back({"suite", g.I(i), s.name, s.inst, s.opts});
    g.op(so.back());
  }
  auto newObs = [&](int slot) {
    const SuiteSel &s = su[g.r.below(su.size())];
    str on = g.pick({s.obs[0], s.obs[0], "rw", s.bi ? "rw" : "toy", s.bi ? s.obs[0] : "bbob"});
    if (g.chance(0.06)) g.op({"obs", g.I(slot), g.pick({"no_observer", "@null"}), g.chance(0.5) ? "" : "result_folder: none"});
    else {
      str fo = g.chance(0.5) ? "same" : "f" + g.I(slot);
      str oo = obsOpts(g, on, oddFolder(g, fo));
      if (g.chance(0.1)) oo += " some_unknown_key: " + g.I(g.range(0, 9));
      if (g.chance(0.1)) oo += " algorithm_info: \"100%s of " + str((size_t)g.range(1, 400), 'x') + "\"";
      g.op({"obs", g.I(slot), on, oo});
    }
  };
  int nobs = (int)g.range(1, 3);
  for (int i = 0; i < nobs; i++) newObs(i);
  int n = (int)g.range(8, 50);
  for (int i = 0; i < n; i++) {
    double z = g.r.u();
    int q = (int)g.range(0, 4), k = (int)g.range(0, ns - 1), o = (int)g.range(0, nobs - 1);
    if (z < 0.12) g.op({"get", g.I(q), g.I(k), g.sd()});
    else if (z < 0.26) g.op({"next", g.I(q), g.I(k), g.I(g.range(-1, nobs - 1))});
    else if (z < 0.36) g.op({"add", g.I(q), g.I(o)});
    else if (z < 0.43) g.op({"rem", g.I(q)});
    else if (z < 0.49) g.op({"pfree", g.I(q)});
    else if (z < 0.53) g.op({"sfree", g.I(k)});
    else if (z < 0.55) g.op(so[(size_t)k]);
    else if (z < 0.60) g.op({"ofree", g.I(o)});
    else if (z < 0.63) newObs(o);
    else if (z < 0.65) g.op({"anew", g.I(g.range(0, 2)), g.pick({"bbob-biobj", "bbob-biobj-ext"}), g.I(g.range(1, 55)), g.pick({"2", "3", "5"}), g.I(g.range(1, 5))});
    else if (z < 0.69) g.op({"aadd", g.I(g.range(0, 2)), fmt("%.6g", g.r.u() * 2e3 - 1e3), fmt("%.6g", g.r.u() * 2e3 - 1e3), "t"});
    else if (z < 0.71) g.op({g.pick({"anum", "ahyp", "atext", "afree"}), g.I(g.range(0, 2))});
    else if (z < 0.73) g.op({"rnew", g.I(g.range(0, 2)), g.sd()});
    else if (z < 0.75) { if (g.chance(0.5)) g.op({"rdraw", g.I(g.range(0, 2)), g.pick({"u", "n"}), "3"}); else g.op({"rfree", g.I(g.range(0, 2))}); }
    else if (z < 0.76) g.op({"bestprint", g.I(q)});
    else bursts(g, q, su[(size_t)k], (int)g.range(1, 3), bc);
  }
  return g.p;
}
static Verdict check13(const Plan &p0) {
  Plan p = p0;
  for (auto &pp : p.procs) {
    Rng r(hash64(p.seed, 1313));
    vec<Op> fr;
    for (int i = 0; i < 6; i++) fr.push_back({"pfree", {fmt("%d", i)}});
    for (int i = 0; i < 4; i++) for (const char *nm : {"sfree", "ofree", "rfree", "afree"}) fr.push_back({nm, {fmt("%d", i)}});
    for (size_t i = fr.size(); i > 1; i--) std::swap(fr[i - 1], fr[r.below(i)]);
    pp.ops.insert(pp.ops.end(), fr.begin(), fr.end());
    for (int i = 0; i < 4; i++) pp.ops.push_back({"ofree", {fmt("%d", i)}});     // refused before while still in use
  }
  SimP s = runPlan(p, true);
  if (s->hang) return Verdict::bad("hang", "no progress within the step limit");
  for (auto q : s->procs) {
    if (q->st == PExited && !p.geti("strict", 1) && q->exitCode != 0 && !q->err.empty()) { probe("refused_uses"); continue; }   // use of an observer that is gone is refused
    if (refusedPath(p, q)) continue;
    if (q->st != PDone) return Verdict::bad("end", procEnd(q));
    for (auto &a : q->allocs) return Verdict::bad("leak", fmt("%zu allocations are left after everything was freed, e.g. allocation %ld of %zu bytes", q->allocs.size(), a.second.ord, a.second.size));
    if (!q->files.empty()) return Verdict::bad("file", "file " + q->files[0]->path + " is still open after everything was freed");
    if (!q->dirs.empty()) return Verdict::bad("dir", "a directory is still open after everything was freed");
    probe("complete_lifecycles"); probe("allocations_released", q->nAlloc);
  }
  return Verdict();
}

// ================================================================ C14
static Plan gen14(uint64_t seed) {
  Gen g("C14", seed);
  g.memory();
  auto F = [&](const str &a, const str &b) { g.p.fs.push_back("f\x1f" + a + "\x1f" + b); };
  auto D = [&](const str &a) { g.p.fs.push_back("d\x1f" + a); };
  auto L = [&](const str &a, const str &b) { g.p.fs.push_back("l\x1f" + a + "\x1f" + b); };
  F("keep/precious.txt", "precious"); F("keep/sub/deep.txt", "deep"); D("keep/empty"); F("file.txt", "file"); L("alias", "keep");
  F("victim-0001/other.txt", "other"); F("exdata/victim/old.txt", "old"); F(".hidden", "h");
  vec<str> dirs = {"victim"};
  D("victim");
  int n = (int)g.range(0, 25);
  vec<str> nm = {"a", "b", "c", ".x", "..y", "...", "a b", "data_f1", "longername_with_underscore.dat", "-", "~", "*", "keep", "victim"};
  std::set<str> used;
  for (int i = 0; i < n; i++) {
    str d = g.pick(dirs), path = d + "/" + g.pick(nm);
    if (!used.insert(path).second) continue;
    double z = g.r.u();
    if (z < 0.35) { D(path); dirs.push_back(path); }
    else if (z < 0.7) F(path, "data");
    else L(path, g.pick({"/work/keep", "../keep", "/work/keep/precious.txt", "nowhere", ".", "..", "/", "/work/victim", "/work/file.txt", "/work/alias", "a", "/work/exdata"}));
  }
  if (g.chance(0.05)) {
    str path = "victim"; long lv = g.range(3, 14); str seg((size_t)g.range(20, 120), 'd');
    for (long i = 0; i < lv; i++) { path += "/" + seg; D(path); F(path + "/f", "x"); }
    g.env("deep", 1);
  }
  g.env("dirorder", g.range(0, 1000000)); if (g.chance(0.4)) g.env("dtunknown", 1);
  int np = g.chance(0.2) ? 2 : 1;
  g.p.procs.resize((size_t)np);
  str target = g.chance(0.8) ? "victim" : g.pick(dirs);
  if (target == "victim" && g.chance(0.2)) target = g.pick({"victim/", "./victim", "/work/victim", "keep/../victim"});
  for (int i = 0; i < np; i++) {
    g.cur = i;
    g.op({"rmdir", target});
    if (g.chance(0.2)) g.op({"rmdir", target});
    if (g.chance(0.1)) g.op({"rmdir", "does-not-exist"});
  }
  if (np > 1) g.env("pswitch", g.range(5, 60));
  if (g.chance(0.5)) {
    Plan dry = g.p; dry.procs.resize(1);
    dryHook(dry);
    SimP s = runPlan(dry);
    long tot = (long)s->procs[0]->fsLog.size();
    int nf = (int)g.range(1, 3);
    for (int i = 0; i < nf && tot > 0; i++) {
      Fault f; f.proc = 0; f.kind = "err"; f.cls = "fs"; f.n = g.range(0, tot - 1); f.arg = g.pick({"EACCES", "EIO", "EBUSY", "EPERM", "EMFILE", "ENOMEM", "ELOOP"});
      f.count = g.chance(0.7) ? 1 : g.range(2, 1000);
      g.p.faults.push_back(f);
    }
    if (g.chance(0.3)) { g.p.faults.clear(); Fault f; f.cls = "seam"; f.n = g.range(0, s->procs[0]->nSeam); f.kind = g.chance(0.5) ? "kill_before" : "kill_after"; g.p.faults.push_back(f); }
    if (g.chance(0.15)) { g.p.faults.clear(); Fault f; f.cls = "alloc"; f.kind = "err"; f.n = g.range(0, s->procs[0]->nAlloc); f.arg = "ENOMEM"; g.p.faults.push_back(f); }
  }
  return g.p;
}
static Verdict check14(const Plan &p) {
  std::map<str, str> before;
  SimP s = runPlan(p, true, [&](Sim &z) { before = z.vfs.tree(""); });
  if (s->hang) return Verdict::bad("hang", "no progress within the step limit");
  auto after = s->vfs.tree("");
  std::set<str> targets;
  auto canon = [](const str &t) { vec<str> v; for (auto &c : split(VFS::abs(t), '/')) { if (c.empty() || c == ".") continue; if (c == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(c); } return "/" + join(v, "/"); };
  for (auto &pp : p.procs) for (auto &o : pp.ops) if (o.name == "rmdir") targets.insert(canon(o.a[0]));
  auto inside = [&](const str &f) { for (auto &t : targets) if (f == t || f.compare(0, t.size() + 1, t + "/") == 0) return true; return false; };
  for (auto &f : before) {
    if (inside(f.first)) continue;
    auto a = after.find(f.first);
    if (a == after.end()) return Verdict::bad("outside", "removing the directory also removed " + f.first);
    if (a->second != f.second) return Verdict::bad("outside", "removing the directory changed " + f.first);
  }
  for (auto &f : after) if (!before.count(f.first)) return Verdict::bad("outside", "removing the directory created " + f.first);
  for (auto &f : after) { auto b = before.find(f.first); if (b != before.end() && b->second != f.second) return Verdict::bad("outside", "removing the directory changed " + f.first); }
  bool alone = p.procs.size() == 1 && p.faults.empty();
  for (auto q : s->procs) {
    if (q->st == PAborted) return Verdict::bad("crash", procEnd(q));
    if (q->st == PExited) {
      if (s->fired.count("alloc_fail") || p.geti("deep", 0)) { if (q->exitCode == 0 || q->err.empty()) return Verdict::bad("status", procEnd(q)); probe("clean_stops"); continue; }
      return Verdict::bad("end", procEnd(q));
    }
    if (q->st == PKilled) { probe("killed"); continue; }
    if (!q->dirs.empty()) return Verdict::bad("handle", "a directory handle is left open");
    if (!q->allocs.empty()) return Verdict::bad("memory", fmt("%zu allocations are left", q->allocs.size()));
    std::set<str> done;
    for (auto &e : q->in->ev) {
      if (e.k != EvRmdir) continue;
      str t = canon(e.s);
      bool there = after.count(t) != 0, was = before.count(t) != 0;
      if (e.rc == 0) {
        probe("removed");
        if (there) return Verdict::bad("success", "success is reported, but " + t + " is still there");
        done.insert(t);
      } else {
        probe("failed");
        if (alone && was && !done.count(t) && !p.geti("deep", 0)) return Verdict::bad("failure", "failure is reported for " + t + fmt(" without a fault (status %d)", e.rc));
      }
    }
  }
  return Verdict();
}

// ================================================================ C15
static Plan gen15(uint64_t seed) {
  Gen g("C15", seed);
  g.memory(); g.world();
  g.p.procs.resize(2);
  BurstCfg bc; bc.maxBurst = 25; bc.big = 0.05;
  auto one = [&](int slot, const str &folder) {
    str cls = g.pick(CLASSES);
    vec<str> on;
    if (cls == "bi" || cls == "bimix") { if (g.chance(0.2)) on = {"rw"}; }
    else if (cls == "toy") on = {"toy", "toy", "rw"};
    else if (g.chance(0.3)) on = {"rw", "toy"};
    if (cls == "noisy") g.op({"reset"});
    experiment(g, cls, on, slot, folder, bc, 20, false, 3);
  };
  g.cur = 0;
  one(0, "main");
  g.cur = 1;
  int n = (int)g.range(1, 2);
  for (int i = 0; i < n; i++) one(2, "other");
  if (g.chance(0.3)) { g.op({"rnew", "0", g.sd()}); g.op({"rdraw", "0", "n", "7"}); }
  if (g.chance(0.2)) g.op({"reset"});
  return g.p;
}
static Files mainFiles(const Sim &s) {
  Files r;
  for (auto &f : outFiles(s)) if (f.first.find("/main") != str::npos) r[f.first] = f.second;
  return r;
}
static Verdict check15(const Plan &p) {
  if (p.procs.empty()) return Verdict();
  auto world = [&](Plan &q, uint64_t k) {
    Rng r(hash64(hash64(p.seed, 15), k));
    q.env["clock"] = fmt("%ld", r.range(100000000, 4000000000L)); q.env["clockjump"] = fmt("%ld", r.range(0, 3) ? r.range(1, 1000000) : 0);
    q.env["fill"] = fmt("%ld", r.range(0, 3)); q.env["fillseed"] = fmt("%ld", r.range(1, 1000000));
    q.env["bufsize"] = r.pick(vec<str>{"1", "7", "100", "4096"}); q.env["split"] = fmt("%ld", r.range(0, 1) ? r.range(1, 1000000) : 0); q.env["dirorder"] = fmt("%ld", r.range(0, 1000));
    for (auto &pp : q.procs) { pp.env["pid"] = fmt("%ld", r.range(2, 4000000)); pp.env["clockoff"] = fmt("%ld", r.range(-1000000, 1000000)); }
  };
  Plan a = p; a.procs.resize(1);
  SimP s = runPlan(a, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  Files base = mainFiles(*s);
  Expect x; x.build(s->procs[0]->in, false);
  probe("files", (long)base.size());
  auto cmp = [&](const char *what, Plan q, int main) -> Verdict {
    SimP t = runPlan(q, q.procs.size() > 1);
    str e = badEnd(*t);
    if (!e.empty()) return Verdict::bad("end", str(what) + ": " + e);
    Files o = mainFiles(*t);
    (void)main;
    probe(str("compared_") + what);
    for (auto &f : base) {
      auto i = o.find(f.first);
      if (i == o.end()) return Verdict::bad("missing", str("in a run that differs in ") + what + ", file " + f.first + " is missing");
      str u = f.second, v = i->second;
      if (x.timed.count(f.first)) { u = stripTime(u); v = stripTime(v); }
      if (u != v) {
        auto a1 = split(u, '\n'), a2 = split(v, '\n');
        size_t k = 0; while (k < a1.size() && k < a2.size() && a1[k] == a2[k]) k++;
        return Verdict::bad("differs", str("in a run that differs in ") + what + ", file " + f.first + fmt(" line %zu is '", k + 1) + (k < a2.size() ? a2[k] : "") + "' instead of '" + (k < a1.size() ? a1[k] : "") + "'");
      }
    }
    if (o.size() != base.size()) return Verdict::bad("extra", str("in a run that differs in ") + what + ", there are more files");
    return Verdict();
  };
  Plan w = a; world(w, 1);
  Verdict v = cmp("clock_memory_buffers", w, 0);
  if (!v.ok) return v;
  if (p.procs.size() < 2 || p.procs[1].ops.empty()) return Verdict();
  Plan pre = a;
  pre.procs[0].ops = p.procs[1].ops;
  pre.procs[0].ops.insert(pre.procs[0].ops.end(), p.procs[0].ops.begin(), p.procs[0].ops.end());
  if (hash64(p.seed, 3) & 1) world(pre, 2);
  v = cmp("earlier_experiments", pre, 0);
  if (!v.ok) return v;
  Plan nb = p;
  if (hash64(p.seed, 4) & 1) world(nb, 3);
  nb.env["pswitch"] = fmt("%ld", (long)(5 + hash64(p.seed, 5) % 50));
  return cmp("other_processes", nb, 0);
}

// ================================================================ C16
struct ArSel { str suite; size_t f, d, i; };
static RefKey arKey(const str &spec) { auto v = split(spec, ','); return {v[0], "instances: " + v[3], "dimensions: " + v[2] + " function_indices: " + v[1], 0}; }
static const BiScale *arScale(const str &spec) {
  static std::map<str, BiScale> cache;
  auto it = cache.find(spec);
  if (it != cache.end()) return &it->second;
  if (cache.size() > 5000) cache.clear();
  RefKey k = arKey(spec);
  auto v = split(spec, ',');
  {
    RefScope rs;
    CocoApi *A = g_ref->api;
    coco_suite_t *s = A->coco_suite(k.suite.c_str(), k.inst.c_str(), k.opts.c_str());
    if (!s) return nullptr;
    coco_problem_t *p = A->coco_suite_get_next_problem(s, nullptr);
    BiScale b;
    if (p) { const double *nd = A->coco_problem_get_largest_fvalues_of_interest(p); for (int i = 0; i < 2; i++) { b.nadir[i] = nd[i]; b.ideal[i] = A->shim_best_value(p, i); } b.ok = true; }
    A->coco_suite_free(s);
    cache[spec] = b;
  }
  return &cache[spec];
}
static Plan gen16(uint64_t seed) {
  Gen g("C16", seed);
  g.memory();
  int na = (int)g.range(1, 3);
  vec<str> spec;
  long serial = 0;
  auto mk = [&](int k) {
    str sn = g.pick({"bbob-biobj", "bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"});
    str sp = sn + "," + g.I(g.range(1, sn == "bbob-biobj" ? 55 : 92)) + "," + (sn == "bbob-biobj-mixint" ? g.pick({"5", "10"}) : g.pick({"2", "3", "5", "10"})) + "," + g.I(g.range(1, 15));
    if ((int)spec.size() <= k) spec.resize((size_t)k + 1);
    spec[(size_t)k] = sp;
    auto v = split(sp, ',');
    g.op({"anew", g.I(k), v[0], v[1], v[2], v[3]});
  };
  for (int i = 0; i < na; i++) mk(i);
  // the same points in two orders
  bool twin = na >= 2 && g.chance(0.6);
  if (twin) { spec[1] = spec[0]; auto v = split(spec[0], ','); g.op({"afree", "1"}); g.op({"anew", "1", v[0], v[1], v[2], v[3]}); }
  long grid = g.range(2, 40); int style = (int)g.range(0, 4);
  auto pt = [&](int k, str &a, str &b) {
    const BiScale *s = arScale(spec[(size_t)k]);
    double u, w;
    double z = g.r.u();
    if (style == 0 || z < 0.3) { u = (double)g.range(0, grid) / (double)grid; w = (double)g.range(0, grid) / (double)grid; }
    else if (style == 1 || z < 0.5) { double t = (double)g.range(0, 1000) / 1000.0; u = t; w = 1 - t + (g.chance(0.3) ? 1e-3 * g.r.u() : 0); }
    else if (z < 0.6) { u = g.r.u() * 3; w = g.r.u() * 3; }
    else if (z < 0.65) { u = -g.r.u() * (g.chance(0.4) ? 1e-12 : g.chance(0.5) ? 1e-3 : 0.3); w = g.chance(0.4) ? g.r.u() * 3 : g.r.u(); if (g.chance(0.5)) std::swap(u, w); }
    else if (z < 0.7) { u = g.pick({"0", "1"}) == "0" ? 0 : 1; w = g.r.u(); if (g.chance(0.5)) std::swap(u, w); }
    else { u = g.r.u(); w = g.r.u(); }
    a = fmt("%.17g", s->ideal[0] + u * (s->nadir[0] - s->ideal[0]));
    b = fmt("%.17g", s->ideal[1] + w * (s->nadir[1] - s->ideal[1]));
  };
  int n = g.chance(0.2) ? (int)g.range(100, 400) : (int)g.range(1, 60);
  if (twin) {
    vec<vec<str>> ops;
    for (int i = 0; i < n; i++) { str a, b; pt(0, a, b); ops.push_back({"aadd", "0", a, b, "s" + g.I(serial++)}); }
    for (auto &o : ops) { g.op(o); if (g.chance(0.05)) g.op({g.pick({"anum", "ahyp", "atext"}), "0"}); }
    for (size_t i = ops.size(); i > 1; i--) std::swap(ops[i - 1], ops[g.r.below(i)]);
    for (auto &o : ops) { o[1] = "1"; g.op(o); if (g.chance(0.05)) g.op({g.pick({"anum", "ahyp", "atext"}), "1"}); }
  } else for (int i = 0; i < n; i++) {
    int k = (int)g.range(0, na - 1);
    double z = g.r.u();
    if (z < 0.75) { str a, b; pt(k, a, b); g.op({"aadd", g.I(k), a, b, g.chance(0.05) ? "" : "s" + g.I(serial++)}); }
    else if (z < 0.8) g.op({"anum", g.I(k)});
    else if (z < 0.85) g.op({"ahyp", g.I(k)});
    else if (z < 0.97) { long m = g.range(1, 12); for (long j = 0; j < m; j++) g.op({"atext", g.I(k)}); }
    else { g.op({"afree", g.I(k)}); if (g.chance(0.7)) mk(k); else { auto v = split(spec[(size_t)k], ','); g.op({"anew", g.I(k), v[0], v[1], v[2], v[3]}); } }
  }
  return g.p;
}
static Verdict check16(const Plan &p0) {
  Plan p = p0;
  for (auto &pp : p.procs) for (int k = 0; k < 3; k++) {   // read everything out at the end
    pp.ops.push_back({"anum", {fmt("%d", k)}}); pp.ops.push_back({"ahyp", {fmt("%d", k)}});
    for (int i = 0; i < 450; i++) pp.ops.push_back({"atext", {fmt("%d", k)}});
    pp.ops.push_back({"anum", {fmt("%d", k)}});
    pp.ops.push_back({"afree", {fmt("%d", k)}});
  }
  SimP s = runPlan(p, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  for (auto q : s->procs) {
    struct A { bool on = false; str spec; BiFront fr; std::map<int, str> text; vec<str> listed; str e1, e2; bool fresh = true; std::multiset<str> want; };
    A ar[4];
    // the iteration starts anew after each accepted solution
    auto startList = [&](A &a) { a.listed.clear(); a.want.clear(); for (auto &z : a.fr.pts) if (z.eval > 2) a.want.insert(a.text[(int)z.eval]); a.fresh = false; };
    std::map<str, vec<std::pair<std::multiset<std::pair<double, double>>, double>>> finals;
    std::map<str, vec<std::multiset<std::pair<double, double>>>> inputs;
    std::multiset<std::pair<double, double>> inp[4];
    for (auto &e : q->in->ev) {
      if (e.k != EvArch) continue;
      A &a = ar[e.slot];
      str at = fmt("operation %ld, archive %d (", e.op, e.slot) + (e.s == "new" ? e.s2 : a.spec) + "): ";
      if (e.s == "new") {
        a = A(); a.spec = e.s2; a.on = true; inp[e.slot].clear();
        const BiScale *sc = arScale(a.spec);
        if (!sc || !sc->ok) { a.on = false; continue; }
        BiPoint x; x.eval = 1; biNormalize(*sc, sc->nadir[0], sc->ideal[1], x.n0, x.n1); a.fr.add(x);
        BiPoint y; y.eval = 2; biNormalize(*sc, sc->ideal[0], sc->nadir[1], y.n0, y.n1); a.fr.add(y);
        a.e1 = fmt("0\t%.15e\t%.15e\n", sc->nadir[0], sc->ideal[1]); a.e2 = fmt("0\t%.15e\t%.15e\n", sc->ideal[0], sc->nadir[1]);
      }
      if (!a.on) continue;
      if (e.s == "add") {
        const BiScale *sc = arScale(a.spec);
        BiPoint x; x.eval = a.text.size() + 3; biNormalize(*sc, e.x[0], e.x[1], x.n0, x.n1);
        a.text[(int)x.eval] = e.s2;
        inp[e.slot].insert({e.x[0], e.x[1]});
        bool acc = a.fr.add(x);
        probe(acc ? "accepted" : "rejected");
        if (acc) a.fresh = true;
        if (acc != (e.rc != 0)) return Verdict::bad("accept", at + fmt("point (%.17g, %.17g) is %s but reported %d", e.x[0], e.x[1], acc ? "non-dominated" : "dominated", e.rc));
      } else if (e.s == "anum") {
        if (e.a != a.fr.pts.size()) return Verdict::bad("number", at + fmt("%zu solutions reported, %zu are non-dominated", e.a, a.fr.pts.size()));
        probe("counts_checked");
      } else if (e.s == "ahyp") {
        double h = a.fr.hyp();
        if (!(std::fabs(h - e.y[0]) <= 1e-9)) return Verdict::bad("hypervolume", at + fmt("hypervolume %.17g reported, true %.17g", e.y[0], h));
        probe("hypervolumes_checked");
        for (auto &z : finals[a.spec]) if (z.first == inp[e.slot]) { probe("orders_compared"); if (!(std::fabs(z.second - e.y[0]) <= 1e-9)) return Verdict::bad("order", at + fmt("the same points in another order gave hypervolume %.17g instead of %.17g", z.second, e.y[0])); }
        if (inp[e.slot].size() > 2) finals[a.spec].push_back({inp[e.slot], e.y[0]});
      } else if (e.s == "atext") {
        if (a.fresh) startList(a);
        size_t k = a.listed.size();
        size_t tot = a.fr.pts.size();
        a.listed.push_back(e.s2);
        if (k == 0 || k == 1) {
          // the two extreme points come first
          str w = k == 0 ? a.e1 : a.e2, w2 = k == 0 ? a.e2 : a.e1;
          if (e.s2 != w && e.s2 != w2) return Verdict::bad("list", at + "the listing starts with '" + e.s2 + "' instead of the extreme solutions");
          if (k == 1 && e.s2 == a.listed[0]) return Verdict::bad("list", at + "the listing returns the same extreme solution twice");
        } else if (k < tot) {
          auto it = a.want.find(e.s2);
          if (it == a.want.end()) return Verdict::bad("list", at + "the listing returns '" + e.s2 + "', which is not in the archive or was listed before");
          a.want.erase(it);
          probe("texts_checked");
        } else if (!e.s2.empty()) return Verdict::bad("list", at + "the listing goes on after the last solution with '" + e.s2 + "'");
      } else if (e.s == "free") a.on = false;
    }
  }
  return Verdict();
}

// ================================================================ C17
static Plan gen17(uint64_t seed) {
  Gen g("C17", seed);
  g.memory(); g.world();
  SuiteSel s = pickSuite(g, g.pick({"so", "so", "so", "so", "cons", "cons", "mixint", "mixint", "noisy", "large", "large", "bi"}), 20);
  BurstCfg bc; bc.maxBurst = 8; bc.big = 0.02; bc.rec = false;
  g.op({"suite", "0", s.name, s.inst, s.opts});
  int nobs = (int)g.range(1, 3);
  for (int i = 0; i < nobs; i++) { str on = s.bi && g.chance(0.4) ? "rw" : g.pick(s.obs); g.op({"obs", g.I(i), on, obsOpts(g, s.bi ? on : "bbob", "f" + g.I(i))}); }
  int n = (int)g.range(6, 30);
  double pb = g.pick({"0", "1", "1", "1"}) == "0" ? 0 : 0.06;
  for (int i = 0; i < n; i++) {
    int q = (int)g.range(0, 2);
    double z = g.r.u();
    if (z < pb) g.op({"bestp", g.I(q)});
    else if (g.chance(0.05)) for (long k = g.range(1, 3); k > 0; k--) g.op({"bestprint", g.I(k == 1 ? g.range(0, 2) : q)});
    else if (z < pb + 0.16) g.op({"get", g.I(q), "0", g.sd()});
    else if (z < pb + 0.26) g.op({"next", g.I(q), "0", g.I(g.range(-1, nobs - 1))});
    else if (z < pb + 0.40) g.op({"add", g.I(q), g.I(g.range(0, nobs - 1))});
    else if (z < pb + 0.48) g.op({"rem", g.I(q)});
    else if (z < pb + 0.51) g.op({"pfree", g.I(q)});
    else if (z < pb + 0.53) g.op({"ofree", g.I(g.range(0, nobs - 1))});
    else bursts(g, q, s, (int)g.range(1, 3), bc);
  }
  if (pb > 0 && g.chance(0.5)) { // a disqualified problem is evaluated in the end
    str q = g.I(g.range(0, 2));
    if (g.chance(0.5)) { g.op({"add", q, g.I(g.range(0, nobs - 1))}); g.op({"bestp", q}); } else { g.op({"bestp", q}); g.op({"add", q, g.I(g.range(0, nobs - 1))}); }
    if (g.chance(0.3)) g.op({"restart", q});
    if (g.chance(0.3)) g.op({"rem", q});
    if (g.chance(0.5)) { g.op({"add", q, g.I(g.range(0, nobs - 1))}); }
    g.op({"eval", q, "u:" + g.sd()});
  }
  return g.p;
}
static Verdict check17(const Plan &p) {
  SimP s = runPlan(p, true);
  if (s->hang) return Verdict::bad("hang", "no progress within the step limit");
  for (auto q : s->procs) {
    if (q->st == PAborted || q->st == PKilled) return Verdict::bad("crash", procEnd(q));
    std::set<int> tainted;
    bool refused = false;
    for (size_t i = 0; i < q->in->ev.size(); i++) {
      const Ev &e = q->in->ev[i];
      bool last = i + 1 == q->in->ev.size();
      if (e.k == EvBest && e.done && e.rc) { tainted.insert(e.uid); probe(e.wrap.empty() ? "requests_unobserved" : "requests_observed"); }
      if (e.k == EvMisc && e.done && !e.s.compare(0, 9, "bestprint")) {
        // what is printed is the optimum, or nothing when it cannot be told through the observers of a bi-objective problem
        const ProbInfo &pi = q->in->probs[(size_t)e.uid];
        str got = e.s.substr(10), want = refBestPrint(keyOf(pi));
        if (got != want && !(got.empty() && pi.nobj == 2 && !e.wrap.empty())) return Verdict::bad("print", fmt("operation %ld: the printed optimum of ", e.op) + pi.id + (e.wrap.empty() ? "" : " (observed)") + " differs from that of a fresh problem");
        probe(got.empty() ? "prints_refused" : e.wrap.empty() ? "prints" : "prints_observed");
      }
      if (e.k != EvEval || !validX(e.x)) continue;
      bool under = false;
      for (int u : e.wrap) under |= isBbobFamily(q->in->observers[(size_t)u].name);
      bool bad = under && tainted.count(e.uid);
      str at = fmt("operation %ld: the evaluation of ", e.op) + q->in->probs[(size_t)e.uid].id;
      if (e.done && bad) return Verdict::bad("performed", at + ", whose optimum was requested, is performed under an observer");
      if (!e.done && last && q->st == PExited) {
        if (!bad) return Verdict::bad("refused", at + ", whose optimum was not requested, is refused: " + procEnd(q));
        refused = true;
        if (q->exitCode == 0 || q->err.empty()) return Verdict::bad("status", at + " is refused without an error: " + procEnd(q));
      } else if (under) probe(tainted.empty() ? "evaluations_allowed" : "evaluations_allowed_beside_disqualified");
    }
    if (q->st == PExited && !refused) return Verdict::bad("end", procEnd(q));
    if (refused) probe("evaluations_refused");
    // nothing is recorded of the refused evaluation
    Expect x; x.build(q->in);
    bool bi = false;
    for (auto &pi : q->in->probs) bi |= pi.nobj == 2;
    if (x.unsupported.empty() && !bi) {
      Files outs = outFiles(*s); for (auto n : {"._bbob_problem_best_parameter.txt", "._bbob_biobj_problem_best_parameter.txt"}) outs.erase(VFS::abs(n));
      str d = diffExpect(x, outs);
      if (!d.empty() && refused) return Verdict::bad("recorded", "after the refused evaluation: " + d);
      if (!d.empty()) return Verdict::bad("log", d);
    }
  }
  return Verdict();
}

// ================================================================ C18
// procs[0]: operations on noisy problems (suite slot 0, problems 0-2); procs[1]: operations without noise that are
// spread between them in the second run (suite slots 1-3, problems 3-5)
static Plan gen18(uint64_t seed) {
  Gen g("C18", seed);
  g.memory(); g.world();
  g.p.procs.resize(2);
  SuiteSel s = pickSuite(g, "noisy", 20);
  BurstCfg bc; bc.maxBurst = 12; bc.big = 0.05;
  g.cur = 0;
  g.op({"suite", "0", s.name, s.inst, s.opts});
  str on = g.pick({"bbob", "bbob-noisy"});
  g.op({"obs", "0", on, obsOpts(g, on, "noisy")});
  if (g.chance(0.3)) bursts(g, 0, s, 2, bc);
  g.op({"reset"});
  int n = (int)g.range(5, 25);
  for (int i = 0; i < n; i++) {
    double z = g.r.u();
    int q = (int)g.range(0, 2);
    if (z < 0.15) g.op({"get", g.I(q), "0", g.sd()});
    else if (z < 0.25) g.op({"next", g.I(q), "0", g.I(g.range(-1, 0))});
    else if (z < 0.35) g.op({"add", g.I(q), "0"});
    else if (z < 0.38) g.op({"rem", g.I(q)});
    else if (z < 0.41) g.op({"pfree", g.I(q)});
    else if (z < 0.43) g.op({"reset"});
    else bursts(g, q, s, (int)g.range(1, 3), bc);
  }
  g.cur = 1;
  SuiteSel t = pickSuite(g, g.pick({"so", "cons", "bi", "mixint", "toy"}), 10);
  str t2 = t.bi ? t.obs[0] : g.pick({t.obs[0], "rw"});
  g.op({"suite", "1", t.name, t.inst, t.opts});
  g.op({"obs", "1", t2, obsOpts(g, t2, "quiet")});
  n = (int)g.range(4, 25);
  for (int i = 0; i < n; i++) {
    double z = g.r.u();
    int q = (int)g.range(3, 5);
    if (z < 0.15) g.op({"get", g.I(q), "1", g.sd()});
    else if (z < 0.3) g.op({"next", g.I(q), "1", g.I(g.chance(0.5) ? 1 : -1)});
    else if (z < 0.38) g.op({"add", g.I(q), "1"});
    else if (z < 0.41) g.op({"rem", g.I(q)});
    else if (z < 0.44) g.op({"pfree", g.I(q)});
    else if (z < 0.48) g.op({"suite", "2", "bbob-noisy", "", "dimensions: 2 function_indices: 1-3"});
    else if (z < 0.52) g.op({"next", "5", "2", "-1"});     // looking at noisy problems without evaluating them
    else if (z < 0.54) g.op({"sfree", "2"});
    else if (z < 0.57) g.op({"rnew", "0", g.sd()});
    else if (z < 0.62) g.op({"rdraw", "0", g.pick({"u", "n"}), g.I(g.range(1, 9))});
    else if (z < 0.64) g.op({"anew", "0", "bbob-biobj", "1", "2", "1"});
    else if (z < 0.68) g.op({"cons", "3", "u:" + g.sd()});
    else { int q2 = (int)g.range(3, 4); bursts(g, q2, t, (int)g.range(1, 2), bc); }
  }
  return g.p;
}
static Verdict check18(const Plan &p) {
  if (p.procs.empty()) return Verdict();
  Plan a = p; a.procs.resize(1);
  SimP s = runPlan(a);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", b);
  const Interp *in = s->procs[0]->in;
  // logs are noise-free: the model takes its values from the noise-free reference
  Expect x; x.build(in);
  if (x.unsupported.empty()) { str d = diffExpect(x, outFiles(*s)); if (!d.empty()) return Verdict::bad("log", d); }
  auto noisyEvents = [](const Interp *i) { vec<const Ev *> v; for (auto &e : i->ev) if ((e.k == EvEval || e.k == EvRec) && i->probs[(size_t)e.uid].suite == "bbob-noisy") v.push_back(&e); return v; };
  auto resetAt = [](const Interp *i) { size_t k = 0; for (auto &e : i->ev) { if (e.k == EvMisc && e.s == "reset") return k; if ((e.k == EvEval || e.k == EvRec) && i->probs[(size_t)e.uid].suite == "bbob-noisy") k++; } return (size_t)-1; };
  auto cmp = [&](const Interp *j, const str &what, bool fromReset) -> Verdict {
    auto u = noisyEvents(in), v = noisyEvents(j);
    if (u.size() != v.size()) return Verdict::bad("shape", what + fmt(": %zu instead of %zu noisy evaluations", v.size(), u.size()));
    size_t k0 = fromReset ? resetAt(in) : 0;
    if (k0 == (size_t)-1) return Verdict();
    for (size_t k = k0; k < u.size(); k++) {
      if (u[k]->x.size() != v[k]->x.size()) return Verdict::bad("shape", what + ": other problems");
      for (size_t z = 0; z < u[k]->y.size(); z++) if (!sameBits(u[k]->y[z], v[k]->y[z])) return Verdict::bad("noise", what + fmt(": noisy value %zu of ", k) + in->probs[(size_t)u[k]->uid].id + fmt(" is %.17g instead of %.17g", v[k]->y[z], u[k]->y[z]));
      probe("noisy_values_compared");
    }
    return Verdict();
  };
  // another world, and other noise before the reset
  Plan w = a;
  Rng r(hash64(p.seed, 18));
  w.env["clock"] = fmt("%ld", r.range(100000000, 4000000000L)); w.env["clockjump"] = fmt("%ld", r.range(1, 1000000)); w.env["fill"] = fmt("%ld", r.range(0, 3)); w.env["fillseed"] = fmt("%ld", r.range(1, 1000)); w.env["bufsize"] = "1";
  w.procs[0].env["pid"] = fmt("%ld", r.range(2, 100000));
  SimP t = runPlan(w);
  b = badEnd(*t);
  if (!b.empty()) return Verdict::bad("end", "in another environment: " + b);
  Verdict v = cmp(t->procs[0]->in, "in another environment", false);
  if (!v.ok) return v;
  // the noise-free operations in between
  if (p.procs.size() > 1) {
    Plan m = a;
    vec<Op> &mo = m.procs[0].ops; mo.clear();
    size_t i = 0, j = 0;
    const auto &A = p.procs[0].ops, &B = p.procs[1].ops;
    while (i < A.size() || j < B.size()) { if (j < B.size() && (i >= A.size() || r.chance((double)B.size() / (double)(A.size() + B.size())))) mo.push_back(B[j++]); else mo.push_back(A[i++]); }
    SimP z = runPlan(m, false);
    b = badEnd(*z);
    if (!b.empty()) return Verdict::bad("end", "with noise-free operations in between: " + b);
    v = cmp(z->procs[0]->in, "with noise-free operations in between", false);
    if (!v.ok) return v;
    // both in processes of their own at the same time
    Plan c = p; c.env["pswitch"] = "30";
    SimP y = runPlan(c, true);
    b = badEnd(*y);
    if (!b.empty()) return Verdict::bad("end", "beside another process: " + b);
    v = cmp(y->procs[0]->in, "beside another process", false);
    if (!v.ok) return v;
  }
  // other noise before: values after the reset and the logs are the same
  Plan n = a;
  vec<Op> pre = {{"suite", {"3", "bbob-noisy", "", r.chance(0.5) ? "dimensions: 2" : "dimensions: 2,5 function_indices: " + fmt("%ld-30", r.range(1, 30))}}};
  for (long k = r.range(1, 4); k > 0; k--) {     // all three noise models
    pre.push_back({"get", {"5", "3", fmt("%ld", r.range(0, 1000000))}});
    pre.push_back({"evn", {"5", fmt("%ld", r.range(1, 20)), "u", "5"}});
    pre.push_back({"pfree", {"5"}});
  }
  pre.push_back({"sfree", {"3"}});
  n.procs[0].ops.insert(n.procs[0].ops.begin(), pre.begin(), pre.end());
  Plan nr = n;
  nr.procs[0].ops.insert(nr.procs[0].ops.begin() + (long)pre.size(), Op{"reset", {}});
  Plan ar = a;
  ar.procs[0].ops.insert(ar.procs[0].ops.begin(), Op{"reset", {}});
  SimP z1 = runPlan(ar), z2 = runPlan(nr);
  b = badEnd(*z1) + badEnd(*z2);
  if (!b.empty()) return Verdict::bad("end", "after a reset: " + b);
  {
    auto u = noisyEvents(z1->procs[0]->in), v2 = noisyEvents(z2->procs[0]->in);
    size_t skip = v2.size() - std::min(u.size(), v2.size());
    for (size_t k = 0; k < u.size(); k++) for (size_t i = 0; i < u[k]->y.size(); i++) {
      if (u[k]->y.size() != v2[k + skip]->y.size() || !sameBits(u[k]->y[i], v2[k + skip]->y[i])) return Verdict::bad("noise", fmt("after other noise and a reset: noisy value %zu is %.17g instead of %.17g", k, v2[k + skip]->y[i], u[k]->y[i]));
      probe("reset_values_compared");
    }
  }
  SimP y = runPlan(n);
  b = badEnd(*y);
  if (!b.empty()) return Verdict::bad("end", "after other noise: " + b);
  Interp *j = y->procs[0]->in;
  Files f1 = outFiles(*s), f2 = outFiles(*y);
  if (f1 != f2) {
    Expect q; q.build(j, false);
    for (auto &f : f1) if (f2[f.first] != f.second && !q.timed.count(f.first)) {
      // points chosen relative to the best noisy value differ with the noise: only the model can tell
      str d = diffExpect(q, f2);
      if (!d.empty()) return Verdict::bad("log", "after other noise: " + d);
      break;
    }
  }
  return Verdict();
}

// ================================================================ C23
// every "process" of the plan is a thread of one process; none shares an object with another
static Plan gen23(uint64_t seed) {
  Gen g("C23", seed);
  g.memory(); g.world();
  g.env("threads", 1);
  g.env("prebb", (long[]){2, 10, 40, 200, 1000, 5000}[g.range(0, 5)]);
  g.env("preburst", (long[]){1, 10, 100}[g.range(0, 2)]);
  g.env("bursts", g.range(3, 40));
  g.env("pswitch", g.pick({"0", "2", "20"}) == "0" ? 0 : g.range(1, 30));
  int np = g.chance(0.25) ? 3 : 2;
  g.p.procs.resize((size_t)np);
  BurstCfg bc; bc.maxBurst = 6; bc.big = 0.01;
  const vec<str> classes = {"so", "so", "cons", "mixint", "bi", "bimix", "toy", "large"};
  str common = g.pick(classes);
  if (g.chance(0.6)) {
    // short: the same kind of problem is created and used by all threads at about the same time
    SuiteSel s = pickSuite(g, common, common == "large" ? 80 : 10);
    str obs = g.chance(0.5) ? "" : s.bi ? g.pick({s.obs[0], "rw"}) : s.toy ? g.pick({"toy", "rw"}) : g.pick({s.obs[0], s.obs[0], "rw", "toy"});
    str ix = g.sd();
    long n = g.range(1, 4);
    bool same = g.chance(0.6), before = g.chance(0.3);
    for (int i = 0; i < np; i++) {
      g.cur = i;
      g.op({"suite", "0", s.name, s.inst, s.opts});
      if (!obs.empty()) g.op({"obs", "0", obs, obsOpts(g, obs, "t" + g.I(i))});
      for (long k = 0; k < n; k++) {
        if (!same) ix = g.sd();
        g.op({"get", "0", "0", ix});
        if (!obs.empty()) g.op({"add", "0", "0"});
        bursts(g, 0, s, (int)g.range(before ? 0 : 1, 3), bc);
        if (g.chance(0.3)) g.op({"pfree", "0"});
      }
      if (g.chance(0.5)) { g.op({"ofree", "0"}); g.op({"sfree", "0"}); }
    }
    return g.p;
  }
  bool same = g.chance(0.5);
  SuiteSel first;
  for (int i = 0; i < np; i++) {
    g.cur = i;
    auto cls = [&]() { return same || g.chance(0.3) ? common : g.pick(classes); };
    SuiteSel s = pickSuite(g, cls(), 20);
    if (i == 0) first = s;
    else if (same && g.chance(0.5)) s = first;       // the same problems in several threads
    g.op({"suite", "0", s.name, s.inst, s.opts});
    bool obs = g.chance(0.6);
    str on = s.bi ? g.pick({s.obs[0], "rw"}) : s.toy ? g.pick({"toy", "rw"}) : g.pick({s.obs[0], s.obs[0], "rw", "toy"});
    if (obs) g.op({"obs", "0", on, obsOpts(g, on, "t" + g.I(i))});
    SuiteSel s2 = s;
    bool two = g.chance(0.2);
    if (two) { s2 = pickSuite(g, cls(), 20); g.op({"suite", "1", s2.name, s2.inst, s2.opts}); }
    int n = (int)g.range(2, 14);
    for (int k = 0; k < n; k++) {
      double z = g.r.u();
      int q = (int)g.range(0, 2);
      if (k == 0 || z < 0.2) { if (obs && g.chance(0.7)) g.op({"next", "0", "0", "0"}); else g.op({"get", g.I(q), two ? g.I(g.range(0, 1)) : str("0"), g.sd()}); }
      else if (z < 0.28) g.op({"next", g.I(q), two ? g.I(g.range(0, 1)) : str("0"), "-1"});
      else if (z < 0.33) g.op({"pfree", g.I(q)});
      else if (z < 0.37) g.op({"add", g.I(q), "0"});
      else if (z < 0.40) g.op({"rem", g.I(q)});
      else if (z < 0.43) g.op({"rnew", g.I(g.range(0, 1)), g.I(g.range(0, 1000))});
      else if (z < 0.48) g.op({"rdraw", g.I(g.range(0, 1)), g.pick({"u", "n"}), g.I(g.range(1, 20))});
      else if (z < 0.50) { g.op({"anew", "0", "bbob-biobj", g.I(g.range(1, 55)), "2", g.I(g.range(1, 10))}); long m = g.range(1, 8); for (long j = 0; j < m; j++) g.op({"aadd", "0", fmt("%.3f", g.r.u() * 1000), fmt("%.3f", g.r.u() * 1000), "s" + g.I(j)}); g.op({"anum", "0"}); g.op({"ahyp", "0"}); g.op({"atext", "0"}); }
      else if (z < 0.52) { g.op({"sfree", "1"}); two = false; }
      else bursts(g, obs ? 0 : q, two ? s2 : s, (int)g.range(1, 3), bc);
    }
    if (g.chance(0.5)) { g.op({"ofree", "0"}); g.op({"sfree", "0"}); } else { g.op({"sfree", "0"}); g.op({"ofree", "0"}); }
  }
  return g.p;
}
static Verdict check23(const Plan &p) {
  // each thread alone, in a process of its own
  Files want; std::set<str> timed; vec<SimP> alone;
  for (size_t i = 0; i < p.procs.size(); i++) {
    Plan q = p;
    q.env.erase("threads"); q.procs = {p.procs[i]}; q.sw.clear(); q.replaySched = false;
    SimP t = runPlan(q);
    str b = badEnd(*t);
    if (!b.empty()) { probe("unsupported"); return Verdict(); }      // judged by the other properties
    Expect x; x.build(t->procs[0]->in, false);
    timed.insert(x.timed.begin(), x.timed.end());
    for (auto &f : outFiles(*t)) want[f.first] = f.second;
    alone.push_back(std::move(t));
  }
  Plan q = p;
  long bb = 0;
  for (auto &a : alone) bb += a->procs[0]->nBB;
  q.env["pregap"] = fmt("%ld", bb / p.geti("bursts", 10) + 1);
  probe("basic_blocks", bb);
  SimP s = runPlan(q, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", "with other threads: " + b);
  for (size_t i = 0; i < p.procs.size(); i++) {
    const Interp *a = s->procs[i]->in, *c = alone[i]->procs[0]->in;
    str r = sameResults(a, c);
    if (r.empty() && a->ev.size() != c->ev.size()) r = "the number of calls differs";
    if (!r.empty()) return Verdict::bad("result", fmt("thread %zu, compared with the same calls in a process of its own: ", i) + r);
    probe("calls_compared", (long)a->ev.size());
  }
  Files have = outFiles(*s);
  for (auto &f : want) {
    auto i = have.find(f.first);
    if (i == have.end()) return Verdict::bad("file", "with other threads, file " + f.first + " is missing");
    str u = f.second, v = i->second;
    if (timed.count(f.first)) { u = stripTime(u); v = stripTime(v); }
    if (u != v) {
      auto a1 = split(u, '\n'), a2 = split(v, '\n');
      size_t k = 0; while (k < a1.size() && k < a2.size() && a1[k] == a2[k]) k++;
      return Verdict::bad("file", "with other threads, file " + f.first + fmt(" line %zu is '", k + 1) + (k < a2.size() ? a2[k] : "") + "' instead of '" + (k < a1.size() ? a1[k] : "") + "'");
    }
    probe("files_compared");
  }
  if (have.size() != want.size()) return Verdict::bad("file", "with other threads there are more files");
  return Verdict();
}

// ================================================================ C25
// The plan holds option strings of the plainest form; "deco" operations decorate them in ways that must not matter:
//   deco KIND SLOT style KEY STYLE     another way of writing "key: value"
//   deco KIND SLOT val KEY VALUE       another value with the same meaning (names: see neutral names)
//   deco KIND SLOT move KEY POS        another position
//   deco KIND SLOT ins POS PIECE       an option that must be ignored
//   deco KIND SLOT warn POS PIECE      the same, the library has to name it in a warning
//   deco KIND SLOT after KEY PIECE     an option that must be ignored because it contradicts an earlier one
//   deco KIND SLOT end PIECE           an option without a value at the end of the string
// KIND is inst, opts (arguments of a suite) or obs. {{text*n}} in a piece stands for n repetitions, {{t}} and {{n}} for tab and newline.
struct Pair { str key, val, style; };
static vec<Pair> pairsOf(const str &o) {
  vec<Pair> r;
  size_t i = 0;
  while (i < o.size()) {
    size_t c = o.find(": ", i);
    if (c == str::npos) break;
    Pair q; q.key = o.substr(i, c - i);
    size_t v = c + 2, e;
    if (v < o.size() && o[v] == '"') e = o.find('"', v + 1) + 1; else { e = o.find(' ', v); if (e == str::npos) e = o.size(); }
    q.val = o.substr(v, e - v); r.push_back(q);
    i = e + 1;
  }
  return r;
}
static str expandPiece(const str &t) {
  str r;
  for (size_t i = 0; i < t.size();) {
    if (t.compare(i, 2, "{{")) { r += t[i++]; continue; }
    size_t e = t.find("}}", i); if (e == str::npos) return r + t.substr(i);
    str b = t.substr(i + 2, e - i - 2); size_t st = b.rfind('*');
    if (b == "t") r += '\t'; else if (b == "n") r += '\n';
    else if (st != str::npos) { long n = std::min(100000L, std::max(0L, atol(b.c_str() + st + 1))); for (long k = 0; k < n; k++) r += b.substr(0, st); }
    i = e + 2;
  }
  return r;
}
struct Deco { str text; bool odd = false; vec<str> warn; std::map<str, str> neutral; };
static Deco decorate(const Plan &p, const str &kind, const str &slot, const str &plain) {
  Deco d; vec<Pair> v = pairsOf(plain); vec<vec<str>> ds;
  for (auto &o : p.procs[0].ops) if (o.name == "deco" && o.a.size() >= 4 && o.a[0] == kind && o.a[1] == slot) ds.push_back(o.a);
  str tail;
  for (auto &a : ds) for (auto &q : v) if (a.size() > 4 && a[3] == q.key) {
    if (a[2] == "style") { q.style = a[4]; if (a[4] != "1" && a[4] != "2" && a[4] != "0") d.odd = true; }
    else if (a[2] == "val") {
      str nv = expandPiece(a[4]);
      if (!q.val.compare(0, 3, "QQQ")) d.neutral[q.val] = nv.size() > 1 && nv[0] == '"' ? nv.substr(1, nv.size() - 2) : nv;
      q.val = nv;
    }
  }
  for (auto &a : ds) if (a.size() > 4 && a[2] == "move") for (size_t i = 0; i < v.size(); i++) if (v[i].key == a[3]) { Pair q = v[i]; v.erase(v.begin() + (long)i); v.insert(v.begin() + (long)((size_t)atol(a[4].c_str()) % (v.size() + 1)), q); break; }
  for (auto &a : ds) {
    if (a.size() > 4 && (a[2] == "ins" || a[2] == "warn")) {
      Pair q; q.style = "raw"; q.val = expandPiece(a[4]);
      v.insert(v.begin() + (long)((size_t)atol(a[3].c_str()) % (v.size() + 1)), q);
      if (v.size() == 1 && q.val.find_first_not_of(" \"") == str::npos) d.odd = true;
      if (a[2] == "warn") d.warn.push_back(a[4].substr(0, a[4].find(':')));
    }
    if (a[2] == "end") tail = a[3];
  }
  for (auto &a : ds) if (a.size() > 4 && a[2] == "after") for (size_t i = 0; i < v.size(); i++) if (v[i].key == a[3]) { Pair q; q.style = "raw"; q.val = expandPiece(a[4]); v.push_back(q); break; }
  vec<str> out;
  for (auto &q : v) {
    str s = q.style, w;
    if (s == "raw") w = q.val;
    else if (s == "1") w = q.key + ":" + q.val;
    else if (s == "2") w = q.key + " :" + q.val;
    else if (s == "3") w = "\t" + q.key + "\t:\t" + q.val;
    else if (s == "4") w = "  " + q.key + "  :  " + q.val + "\n";
    else if (s == "5") w = q.key + ":\n" + q.val + "\t";
    else w = q.key + ": " + q.val;
    out.push_back(w);
  }
  if (!tail.empty()) out.push_back(tail);
  d.text = join(out, " ");
  return d;
}
static Plan gen25(uint64_t seed) {
  Gen g("C25", seed);
  g.memory();
  if (g.chance(0.3)) g.world();
  str cls = g.pick(CLASSES);
  SuiteSel s = pickSuite(g, cls, 10);
  if (g.chance(0.3) && !s.toy && !s.bi) { static const vec<str> more = {"instances: 1-400", "instances: 1-9", "instances: 3-7,12", "instances: 90-110,1-3", "instances: 1-12,30-33,40-999", "instances: 1-999", "instances: 5-700", "instances: 900-1800,1-80"}; s.inst = g.pick(more); }
  if (g.chance(0.15) && s.name == "bbob") s.inst = g.pick({"year: 2009", "year: 2010", "year: 2016", "year: 2018"});
  if (s.inst.find("year") == 0 || s.inst.find("-") != str::npos) { auto v = pairsOf(s.opts); vec<str> w; for (auto &q : v) if (q.key != "instance_indices") w.push_back(q.key + ": " + q.val); w.push_back("instance_indices: " + g.I(g.range(1, 3))); s.opts = join(w, " "); }
  if (g.chance(0.25)) { auto v = pairsOf(s.opts); vec<str> w; for (auto &q : v) w.push_back(q.key == "dimensions" ? "dimension_indices: " + g.pick({"1", "2", "1,3", "1-2"}) : q.key + ": " + q.val); s.opts = join(w, " "); }
  if (g.chance(0.06)) { auto v = pairsOf(s.opts); vec<str> w; for (auto &q : v) if (q.key != "function_indices") w.push_back(q.key + ": " + q.val); w.push_back("function_indices: " + g.pick({"1-6", "2-5", "1-3,5"})); s.opts = join(w, " "); }
  str on = g.chance(0.25) && !s.toy ? "rw" : g.pick(s.obs);
  bool bi = on.find("biobj") != str::npos;
  // the plain observer options, with neutral names
  vec<str> o; std::map<str, str> ov;
  for (auto &q : pairsOf(obsOpts(g, on, ""))) {
    if (q.key == "algorithm_name" || q.key == "algorithm_info" || q.key == "outer_folder" || q.key == "file_name") continue;
    if (q.val[0] == '"') continue;
    o.push_back(q.key + ": " + q.val); ov[q.key] = q.val;
  }
  auto name = [&](const str &k, const str &v, double pr) { if (g.chance(pr)) { o.push_back(k + ": " + v); ov[k] = v; } };
  name("algorithm_name", "QQQ1", 0.6); name("algorithm_info", "QQQ2", 0.5); name("result_folder", "QQQ3", 0.6); name("outer_folder", "QQQ4", 0.3);
  if (on == "toy") name("file_name", "QQQ5", 0.4);
  str O = join(o, " ");
  if (g.chance(0.06)) { O.clear(); ov.clear(); }
  g.op({"suite", "0", s.name, s.inst, s.opts});
  g.op({"obs", "0", on, O});
  BurstCfg bc; bc.maxBurst = 25; bc.big = 0.05;
  long np = g.range(1, 4);
  bool sweep = g.chance(0.8);
  for (long k = 0; k < np; k++) {
    if (sweep) g.op({"next", "0", "0", "0"}); else { g.op({"get", "0", "0", g.sd()}); g.op({"add", "0", "0"}); }
    bursts(g, 0, s, (int)g.range(1, 6), bc);
    if (!sweep) g.op({"pfree", "0"});
  }
  if (g.chance(0.3)) g.op({"sinfo", "0"});
  g.op({"ofree", "0"}); g.op({"sfree", "0"});
  // ---- decorations
  auto deco = [&](const str &kind, const vec<str> &v) { vec<str> w = {"deco", kind, "0"}; w.insert(w.end(), v.begin(), v.end()); g.op(w); };
  auto pos = [&]() { return g.I(g.range(0, 11)); };
  static const vec<str> DECOY = {"\"precision_x: 3 log_time: 1 result_folder: zzz\"", "\"prefix: q precision_f: 2\"", "\"number_target_triggers: 1\"", "\"log_nondominated: none log_variables: none\"", "\"year: 2009 instances: 3 dimensions: 2\"", "\" file_name: w\"",
    "precision_x", "log_only_better", "my_precision_x", "\"outer_folder: w algorithm_name: v\"", "\"base_evaluation_triggers: 9\"", "{{ab*3000}}", "{{xy*12000}}", "\"{{long text *900}}\"", "\"{{precision_x: 3 *700}}\"", "a,b", "\"compute_indicators: 0 produce_all_data: 1\"", "\"a: b: c\"", "\"precision_g: 2,low_dim_vars: 0\""};
  static const vec<str> PATHS = {"precision_x", "log_time", "my_precision_f", "\"precision_x: 3\"", "\"log_only_better: 1 x\"", "\"two words\"", "\"prefix: q\"", "result_folder2", "\"algorithm_name: w\"", "w,precision_x", "\"log_nondominated: none\""};
  auto styles = [&](const str &kind, const vec<Pair> &v) {
    for (auto &q : v) { if (g.chance(0.3)) deco(kind, {"style", q.key, g.I(g.range(0, 5))}); if (g.chance(0.3)) deco(kind, {"move", q.key, pos()}); }
  };
  // nothing but quotation marks
  if (O.empty() && g.chance(0.5)) { deco("obs", {"ins", "0", g.pick({"\"\"", "\"", "\"\"\"\"", " \"\" "})}); if (s.inst.empty() && g.chance(0.5)) deco("inst", {"ins", "0", g.pick({"\"\"", "\""})}); return g.p; }
  // observer
  styles("obs", pairsOf(O));
  for (auto &e : ov) if (!e.second.compare(0, 3, "QQQ")) { if (g.chance(0.7)) deco("obs", {"val", e.first, e.second == "QQQ1" || e.second == "QQQ2" ? g.pick(DECOY) : g.pick(PATHS)}); }
    else if ((e.first == "prefix" || e.first.find("log_v") == 0 || e.first.find("log_n") == 0 || e.first.find("log_c") == 0 || e.first == "log_decision_variables" || e.first == "base_evaluation_triggers") && g.chance(0.3)) deco("obs", {"val", e.first, "\"" + e.second + "\""});
  vec<str> bad;   // options that are not there, with values that must be ignored
  auto unsuitable = [&](const str &k, const vec<str> &vals) { if (!ov.count(k)) for (auto &x : vals) bad.push_back(k + ": " + x); };
  for (auto k : {"precision_x", "precision_f", "precision_g"}) unsuitable(k, {"0", "33", "-3", "abc", "\"3\"", "{{9*300}}x"});
  unsuitable("log_discrete_as_int", {"2", "-1", "yes"});
  unsuitable("log_target_precision", {"0", "-1e-4", "none", "-{{1*500}}"});
  unsuitable("lin_target_precision", {"0", "-0.1", "x"});
  unsuitable("number_target_triggers", {"-4", "many", "-1"});
  unsuitable("number_evaluation_triggers", {"3", "0", "many"});
  unsuitable("algorithm_info", {"\"\"", "\"\""}); unsuitable("algorithm_name", {"\"\"", "\"\""}); unsuitable("result_folder", {"\"\""});
  if (on == "toy") unsuitable("file_name", {"\"\""});
  unsuitable("base_evaluation_triggers", {"3-1", "-", "1-2-3", "5-", "many", "2-1,1", "1;2", "\"\"", "--"});
  if (on == "rw") { unsuitable("log_variables", {"some", "ALL", "none_at_all"}); unsuitable("log_constraints", {"yes", "low_dimx"}); unsuitable("log_only_better", {"x"}); unsuitable("log_time", {"x"}); unsuitable("low_dim_vars", {"x"}); unsuitable("low_dim_cons", {"none"}); }
  if (bi) { unsuitable("log_nondominated", {"some", "finally"}); unsuitable("log_decision_variables", {"x", "never"}); unsuitable("compute_indicators", {"x"}); unsuitable("produce_all_data", {"x"}); }
  std::set<str> used;
  for (long k = g.chance(0.6) ? g.range(1, 4) : 0; k > 0; k--) { str x = g.pick(bad), key = x.substr(0, x.find(':')); if (used.insert(key).second) deco("obs", {"ins", pos(), x}); }
  vec<str> unknown = {"foo: 3", "my_precision_x: 3", "precision_xx: 3", "xprefix: q", "PRECISION_X: 3", "result_folder2: w", "precision: 3", "x_number_target_triggers: 1", "log_time_unit: 1", "bar: \"precision_x: 3 log_time: 1\"", "foo2: {{y*7000}}", "function_indices: 1", "my_log_nondominated: none", "log: 1", "algorithm: w"};
  if (on != "rw") { unknown.push_back("log_variables: none"); unknown.push_back("log_only_better: 1"); unknown.push_back("low_dim_vars: 1"); }
  if (!bi) { unknown.push_back("log_nondominated: none"); unknown.push_back("log_decision_variables: all"); unknown.push_back("compute_indicators: 0"); }
  if (on == "rw" || on == "toy" || bi) unknown.push_back("prefix: w");
  if (on != "toy") unknown.push_back("file_name: w");
  if (g.chance(0.5)) for (long k = g.range(1, 3); k > 0; k--) deco("obs", {"warn", pos(), g.pick(unknown)});
  if (g.chance(0.25)) {
    vec<str> e;
    for (auto k : {"precision_x:", "precision_f: ", "algorithm_name:", "algorithm_info:", "result_folder:", "outer_folder:   ", "number_target_triggers:", "log_target_precision:", "lin_target_precision: ", "base_evaluation_triggers:", "log_discrete_as_int:", "precision_g:"}) { str key = k; key = key.substr(0, key.find(':')); if (!ov.count(key) && !used.count(key)) e.push_back(k); }
    auto more = [&](const str &k) { if (!ov.count(k) && !used.count(k)) e.push_back(k + ":"); };
    if (on == "rw") for (auto k : {"log_variables", "log_constraints", "low_dim_vars", "log_only_better", "log_time"}) more(k);
    else if (on == "toy") more("file_name");
    else if (bi) for (auto k : {"log_nondominated", "log_decision_variables", "compute_indicators", "produce_all_data"}) more(k);
    else for (int t = 0; t < 4; t++) more("prefix");
    if (!e.empty()) deco("obs", {"end", g.pick(e)});
  }
  // suite
  auto spaced = [&](const str &v) { str r; for (char c : v) { r += c; if (c == ',' && g.chance(0.7)) r += g.pick({" ", "  ", "{{t}}"}); } return r; };
  auto listed = [&](const str &v) { vec<str> w; for (auto &x : split(v, ',')) { size_t d = x.find('-'); if (d == str::npos || d == 0 || d + 1 == x.size()) { w.push_back(x); continue; } for (long i = atol(x.c_str()); i <= atol(x.c_str() + d + 1); i++) w.push_back(fmt("%ld", i)); } return join(w, ","); };
  // a list counts up to its first malformed part
  auto broken = [&](const str &v, bool openEnd) { str t = openEnd && g.chance(0.4) ? g.pick({"-", "5-", "2-,3"}) : g.pick({"1-2-3", "3-1", "9-2", "4-4-4", "1--2", "-2-", "7-1,5", "2-1-1,1", "3-2,2-3-4"}); return v.empty() ? t : v + "," + t; };
  bool year = false, list = false, dims = false, dimi = false;
  auto si = pairsOf(s.inst), so = pairsOf(s.opts);
  styles("inst", si); styles("opts", so);
  for (auto &q : si) { if (q.key == "year") year = true; else list = true; if (q.key == "instances" && g.chance(0.6)) { str v = g.chance(0.8) ? listed(q.val) : q.val; if (v.size() > 900 || g.chance(0.5)) { if (g.chance(0.25)) v = broken(v, true); deco("inst", {"val", q.key, g.chance(0.3) ? spaced(v) : v}); } } }
  for (auto &q : so) {
    if (q.key == "dimensions") dims = true;
    if (q.key == "dimension_indices") dimi = true;
    if (!g.chance(0.5)) continue;
    str v = q.val;
    if (q.key != "dimensions") { if (g.chance(0.6)) v = listed(v); }
    auto w = split(v, ',');
    if (w.size() > 1 && g.chance(0.4)) { std::reverse(w.begin(), w.end()); v = join(w, ","); }
    if (g.chance(0.2)) { str u = v; for (int k = 0; k < 120; k++) u += "," + v; v = u; }      // the same again and again
    if (split(v, ',').size() > 900) v = q.val;
    if (q.key != "dimensions" && g.chance(0.2)) v = broken(v, false);
    deco("opts", {"val", q.key, spaced(v)});
  }
  if (!s.opts.empty() && g.chance(0.15)) { vec<str> e; for (auto k : {"function_indices", "instance_indices", "dimension_indices"}) if (s.opts.find(k) == str::npos && !(dims && str(k) == "dimension_indices")) e.push_back(str(k) + ": " + (g.chance(0.2) ? g.pick({"1;2", "1/3", "2.5", "#3", "*"}) : broken("", false))); if (!e.empty()) deco("opts", {"ins", pos(), g.pick(e)}); }
  if (ov.count("base_evaluation_triggers") && g.chance(0.3)) { str v = ov["base_evaluation_triggers"]; deco("obs", {"val", "base_evaluation_triggers", broken(v, true)}); }
  if (g.chance(0.3) && !s.toy && s.name == "bbob") { if (year) deco("inst", {"after", "year", "instances: " + g.pick({"1-2", "7", "31-40"})}); else if (list) deco("inst", {"after", "instances", "year: " + g.pick({"2009", "2010", "2018"})}); }
  if (g.chance(0.35)) { if (dims) deco("opts", {"after", "dimensions", "dimension_indices: " + g.pick({"1", "2-3", "6"})}); else if (dimi) deco("opts", {"after", "dimension_indices", "dimensions: " + g.pick({"2", "5,10", "40"})}); }
  if (!s.inst.empty() && g.chance(0.3)) deco("inst", {"warn", pos(), g.pick({"foo: 3", "my_year: 2009", "instancesx: 3", "function_indices: 1", "yearly: 2010", "xinstances: 4", "bar: {{w*5000}}", "fob: \"instances: 3 year: 2009\""})});
  if (!s.opts.empty() && g.chance(0.3)) deco("opts", {"warn", pos(), g.pick({"foo: 3", "my_dimensions: 2", "function_indices2: 1", "year: 2009", "instances: 3", "xinstance_indices: 1", "bar: {{w*5000}}", "fob: \"dimensions: 2 function_indices: 1\"", "dim: 2"})});
  if (g.chance(0.15)) { vec<str> e; for (auto k : {"function_indices", "instance_indices"}) if (s.opts.find(k) == str::npos) e.push_back(str(k) + ":"); if (!e.empty()) deco("opts", {"end", g.pick(e)}); }
  return g.p;
}
static str replaceAll(str t, const str &a, const str &b) { for (size_t i = 0; (i = t.find(a, i)) != str::npos; i += b.size()) t.replace(i, a.size(), b); return t; }
static Verdict check25(const Plan &p) {
  SimP s = runPlan(p, true);
  str b = badEnd(*s);
  if (!b.empty()) return Verdict::bad("end", "plain options: " + b);
  Plan q = noFaults(p);
  q.env["loglevel"] = "warning";
  std::map<str, str> neutral; bool odd = false; vec<str> warn; long decos = 0; bool any = false;
  for (auto &o : p.procs[0].ops) if (o.name == "deco") decos++;
  for (auto &o : q.procs[0].ops) {
    vec<Deco> ds;
    if (o.name == "suite" && o.a.size() == 4) { ds.push_back(decorate(p, "inst", o.a[0], o.a[2])); ds.push_back(decorate(p, "opts", o.a[0], o.a[3])); o.a.push_back(o.a[2]); o.a.push_back(o.a[3]); o.a[2] = ds[0].text; o.a[3] = ds[1].text; any = true; }
    else if (o.name == "obs" && o.a.size() == 3) { ds.push_back(decorate(p, "obs", o.a[0], o.a[2])); o.a.push_back(o.a[2]); o.a[2] = ds[0].text; any = true; }
    for (auto &d : ds) { odd |= d.odd; warn.insert(warn.end(), d.warn.begin(), d.warn.end()); neutral.insert(d.neutral.begin(), d.neutral.end()); if (d.text.size() > 4200) probe("long_option_strings"); probe("option_strings"); }
  }
  if (!any) return Verdict();
  probe("option_decorations", decos);
  SimP t = runPlan(q);
  b = badEnd(*t);
  if (!b.empty()) return Verdict::bad("end", "decorated options: " + b);
  for (size_t i = 0; i < s->procs.size(); i++) { Verdict v = compareHistories(t->procs[i]->in, s->procs[i]->in, "options with/without decoration"); if (!v.ok) { v.msg = replaceAll(replaceAll(v.msg, "unobserved", "with plain options"), "observed", "with decorated options"); return v; } }
  Files have = outFiles(*t), want;
  for (auto &f : outFiles(*s)) { str k = f.first, c = f.second; for (auto &n : neutral) { k = replaceAll(k, n.first, n.second); c = replaceAll(c, n.first, n.second); } want[normPath(k)] = c; }
  str d = diffFiles(want, absKeys(have), "options");
  if (!d.empty()) return Verdict::bad("file", "with decorated options: " + d);
  probe("files_compared", (long)want.size());
  const str &err = t->procs[0]->err;
  for (auto &w : warn) if (err.find("were ignored") == str::npos || err.find(w) == str::npos) return Verdict::bad("warning", "no warning about the unknown option " + w);
  if (warn.empty() && !odd && err.find("Some keys in") != str::npos) return Verdict::bad("warning", "a warning about an unknown option without there being one: " + err.substr(err.find("Some keys in"), 200));
  probe("unknown_options", (long)warn.size());
  return Verdict();
}

const vec<Prop> &allProps() {
  static const vec<Prop> v = {
    {"C01", gen01, check01}, {"C02", gen02, check02}, {"C03", gen03, logExact}, {"C04", gen04, logExact}, {"C05", gen05, logExact},
    {"C06", gen06, check06}, {"C07", gen07, check07}, {"C08", gen08, check08}, {"C09", gen09, check09}, {"C11", gen11, check11},
    {"C12", gen12, check12}, {"C13", gen13, check13}, {"C14", gen14, check14}, {"C15", gen15, check15}, {"C16", gen16, check16},
    {"C17", gen17, check17}, {"C18", gen18, check18}, {"C23", gen23, check23}, {"C25", gen25, check25},
  };
  return v;
}
