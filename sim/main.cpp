#include "props.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

static int g_stateFd = -1;
static void statePlan(const Plan &p) {
  if (g_stateFd < 0) return;
  str t = p.text();
  if (ftruncate(g_stateFd, 0) == 0) { lseek(g_stateFd, 0, SEEK_SET); ssize_t w = write(g_stateFd, t.data(), t.size()); (void)w; }
}
static void onHang(int) { static const char m[] = "cocosim: HANG (no progress in wall time)\n"; ssize_t w = write(2, m, sizeof m - 1); (void)w; _exit(5); }
static void guard(long secs) {
  struct itimerval it = {{0, 0}, {secs, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static str slurp(const char *f) { str s; FILE *fp = fopen(f, "r"); if (!fp) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp); return s; }
static str jstr(const str &s) { str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += (char)c; } return r + "\""; }
static void statsOut(const char *file, uint64_t chain, double wall, const vec<str> &samples) {
  FILE *f = fopen(file, "w");
  if (!f) return;
  auto mapj = [](const std::map<str, long> &m) { str s = "{"; bool first = true; for (auto &e : m) { s += (first ? "" : ",") + jstr(e.first) + ":" + fmt("%ld", e.second); first = false; } return s + "}"; };
  auto setj = [](const std::set<uint64_t> &m) { str s = "["; bool first = true; for (auto e : m) { s += fmt("%s\"%llx\"", first ? "" : ",", (unsigned long long)e); first = false; } return s + "]"; };
  fprintf(f, "{\"runs\":%ld,\"sims\":%ld,\"ops\":%ld,\"seams\":%ld,\"steps\":%ld,\"sim_time\":%.3f,\"wall\":%.3f,\"chain\":\"%llx\",\"fired\":%s,\"probes\":%s,\"traces\":%s,\"ileaves\":%s,\"progs\":%s,\"samples\":[",
          g_stats.runs, g_stats.sims, g_stats.ops, g_stats.seams, g_stats.steps, g_stats.simTime, wall, (unsigned long long)chain, mapj(g_stats.fired).c_str(), mapj(g_stats.probes).c_str(), setj(g_stats.traces).c_str(), setj(g_stats.ileaves).c_str(), setj(g_stats.progs).c_str());
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
}
uint64_t g_lastTrace;
static const Prop *find(const str &id) { for (auto &p : allProps()) if (id == p.id) return &p; fprintf(stderr, "cocosim: unknown property %s\n", id.c_str()); _exit(3); }

int main(int argc, char **argv) {
  std::map<str, str> o;
  vec<str> pos;
  for (int i = 1; i < argc; i++) { str a = argv[i]; if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a); }
  if (pos.empty() || !o.count("libs")) { fprintf(stderr, "usage: cocosim run|replay|gen|list --libs DIR ...\n"); return 3; }
  Plan rp;
  if (pos[0] == "replay") {
    str err;
    if (pos.size() < 2 || !rp.parse(slurp(pos[1].c_str()), err)) { fprintf(stderr, "cocosim: cannot read plan: %s\n", err.c_str()); return 3; }
    if (rp.geti("ndebug")) o["ndebug"] = "1";
  }
  const bool ndebug = o.count("ndebug") && o["ndebug"] == "1";
  const bool mt = (pos[0] == "replay" ? rp.prop : o["prop"]) == "C23";
  loadLibs(o["libs"] + (mt ? "/mt" : ndebug ? "/ndebug" : ""), 6);
  signal(SIGVTALRM, onHang);
  g_planHook = statePlan;
  if (o.count("state")) g_stateFd = open(o["state"].c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  if (pos[0] == "list") { for (auto &p : allProps()) puts(p.id); return 0; }
  if (pos[0] == "gen") {
    Plan p = find(o["prop"])->gen(strtoull(o["seed"].c_str(), 0, 10));
    fputs(p.text().c_str(), stdout);
    fflush(stdout); _exit(0);
  }
  if (pos[0] == "replay") {
    Plan &p = rp;
    guard(60);
    statePlan(p);
    Verdict v = find(p.prop)->check(p);
    uint64_t chain = 0;
    for (auto t : g_stats.traces) chain = hash64(chain, t);
    printf("RESULT %s\t%s\t%s\ttrace=%llx\n", v.ok ? "ok" : "violation", v.cls.c_str(), esc(v.msg).c_str(), (unsigned long long)chain);
    if (o.count("stats")) statsOut(o["stats"].c_str(), chain, 0, {});
    fflush(stdout);
    _exit(v.ok ? 0 : 1);
  }
  if (pos[0] == "run") {
    const Prop *pr = find(o["prop"]);
    uint64_t s0 = strtoull(o["seed0"].c_str(), 0, 10), n = strtoull(o["count"].c_str(), 0, 10);
    double budget = o.count("budget") ? atof(o["budget"].c_str()) : 1e9, t0 = now();
    uint64_t chain = 0;
    vec<str> samples;
    int rc = 0;
    uint64_t i;
    for (i = 0; i < n && now() - t0 < budget; i++) {
      guard(60);
      uint64_t seed = s0 + i;
      std::set<uint64_t> before; before.swap(g_stats.traces);
      long ops0 = g_stats.ops;
      Plan p = pr->gen(seed);
      if (ndebug) p.env["ndebug"] = "1";
      statePlan(p);
      Verdict v = pr->check(p);
      g_stats.runs++;
      if (o.count("verbose")) { uint64_t c = 0; for (auto t : g_stats.traces) c = hash64(c, t); printf("%llu %llx %s\n", (unsigned long long)seed, (unsigned long long)c, v.ok ? "ok" : v.msg.c_str()); }
      uint64_t one = 0;
      for (auto t : g_stats.traces) { chain = hash64(chain, t); one = hash64(one, t); }
      if (g_stats.ops - ops0 >= 4) g_stats.progs.insert(one);     // distinct executions of at least four operations
      // the set is bounded: counting stays exact by hashing into the merged set
      for (auto t : before) g_stats.traces.insert(t);
      if (samples.size() < 2 && i % 7 == 3) samples.push_back(p.text().substr(0, 1500));
      if (!v.ok) {
        Plan q = p;
        if (p.procs.size() > 1 && !p.replaySched) { q.replaySched = true; q.sw = g_mainSched; }
        if (o.count("plan")) { FILE *f = fopen(o["plan"].c_str(), "w"); if (f) { fputs(q.text().c_str(), f); fclose(f); } }
        printf("VIOLATION seed=%llu\t%s\t%s\n", (unsigned long long)seed, v.cls.c_str(), esc(v.msg).c_str());
        rc = 1;
        i++;
        if (!o.count("keep")) break;
      }
    }
    if (o.count("stats")) statsOut(o["stats"].c_str(), chain, now() - t0, samples);
    printf("DONE runs=%llu chain=%llx\n", (unsigned long long)i, (unsigned long long)chain);
    fflush(stdout);
    _exit(rc);
  }
  return 3;
}
