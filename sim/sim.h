// Core of the deterministic simulator: virtual file system, simulated processes, scheduler, faults, plans.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <time.h>

typedef std::string str;
template <class T> using vec = std::vector<T>;

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(seed); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }  // inclusive
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return u() < p; }
  template <class T> const T &pick(const vec<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t hash64(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL + (a << 6)); return Rng::mix(x); }
static inline uint64_t hashs(const str &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
vec<str> split(const str &s, char sep);
str join(const vec<str> &v, const str &sep);
str esc(const str &s);    // newline/tab/backslash escaping for plan files
str unesc(const str &s);

// ---------------------------------------------------------------- virtual file system
struct Inode;
typedef std::shared_ptr<Inode> Ino;
struct Inode {
  enum Kind { File, Dir, Sym } kind = File;
  int id = 0;
  str data;                  // file contents / link target
  std::map<str, Ino> ents;   // directory
  int byProc = -1; long byOp = -1;   // who created it, in which operation
  long failAt = -1;          // size when the first write failed
};
struct VEvent { int proc; str op; str path; str path2; int err; };
struct VFS {
  Ino root;
  int nextId = 1;
  long capacity = -1;  // bytes of file data, -1 unlimited
  long used = 0;
  vec<VEvent> events;
  VFS();
  Ino mk(Inode::Kind k);
  // resolves; returns 0 or errno. If parent/last are given, resolution of the last component is left to the caller
  int lookup(const str &path, Ino &out, bool follow = true, int depth = 0, Ino *parent = nullptr, str *last = nullptr);
  int lookupParent(const str &path, Ino &parent, str &last);
  int mkdir(const str &path);
  int create(const str &path, Ino &out, bool excl, bool trunc, bool creat);
  int unlink(const str &path);
  int rmdir(const str &path);
  int rename(const str &a, const str &b);
  int symlink(const str &target, const str &path);
  void addFile(const str &path, const str &data);
  void addDirs(const str &path);
  std::map<str, str> tree(const str &prefix = "") const;  // path -> "d" | "f"+data | "l"+target
  bool exists(const str &path) { Ino o; return lookup(path, o, true) == 0; }
  bool read(const str &path, str &data) { Ino o; if (lookup(path, o) || o->kind != Inode::File) return false; data = o->data; return true; }
  static str abs(const str &p);
};

// ---------------------------------------------------------------- plans
struct Op { str name; vec<str> a; };
struct Fault {
  int proc = 0;
  str cls;      // seam | fs | write | alloc | op
  long n = 0;   // ordinal in the class, per process
  str kind;     // kill_before kill_after kill_mid err
  str arg;      // errno name / byte count
  long count = 1;
};
struct Switch { int proc; long ord; int next; };
struct ProcPlan { int after = -1; vec<Op> ops; std::map<str, str> env; };
struct Plan {
  str prop; uint64_t seed = 0;
  std::map<str, str> env;
  vec<str> fs;          // initial tree: "d path", "f path data", "l path target"
  vec<ProcPlan> procs;
  vec<Switch> sw;
  vec<Fault> faults;
  bool replaySched = false;  // use sw instead of the seeded scheduler
  str text() const;
  bool parse(const str &t, str &err);
  long geti(const str &k, long d = 0) const { auto i = env.find(k); return i == env.end() ? d : atol(i->second.c_str()); }
  str gets(const str &k, const str &d = "") const { auto i = env.find(k); return i == env.end() ? d : i->second; }
};

// ---------------------------------------------------------------- library instances
struct CocoApi;
struct Lib {
  int idx;
  void *h;
  CocoApi *api;
  struct Range { char *p; size_t n; vec<char> snap; };
  vec<Range> ranges;
  void restore();
  bool inUse = false;
};
extern vec<Lib *> g_libs;   // [0] is the reference instance
extern Lib *g_ref;
void loadLibs(const str &dir, int n);

// ---------------------------------------------------------------- processes
enum PState { PNotStarted, PReady, PDone, PKilled, PExited, PAborted };
struct SimFile { int proc; Ino ino; FILE *fp; size_t pos; bool app, rd, wr, dead; str path; char *buf; bool inCb; int fd = -1; };
struct SimDir { vec<std::pair<str, int>> names; size_t pos; void *ent; };
struct AllocInfo { size_t size; long ord; };
struct Interp;
struct Sim;
static const size_t STACK = 1 << 20;
struct Proc {
  int id = 0;
  Sim *sim = nullptr;
  Lib *lib = nullptr;
  const ProcPlan *plan = nullptr;
  PState st = PNotStarted;
  int exitCode = 0;
  str endMsg;
  void *sp = nullptr;           // saved stack pointer of the fiber
  char *stack = nullptr;
  void *fake = nullptr;
  bool started = false;
  str out, err;
  std::unordered_map<void *, AllocInfo> allocs;
  vec<SimFile *> files;
  std::set<SimDir *> dirs;
  long nSeam = 0, nFs = 0, nWrite = 0, nAlloc = 0, nYield = 0, nOp = 0, nClose = 0;
  long curOp = -1;
  long nBB = 0;                 // basic blocks executed outside of thread mode
  long nextPre = 0, burst = 0;             // threads: yield count at which the next preemption is considered
  vec<const char *> fsLog;      // names of the file-system calls, in order
  long lastWriteFault = -1;     // operation in which the last write fault happened
  vec<std::pair<long, std::map<str, size_t>>> quiet;   // (operation, file sizes) after which no file was open
  bool wantQuiet = false, wantSites = false;
  vec<int> sites[2]; std::map<uint64_t, int> siteIds[2];   // call site of each allocation, numbered in order of appearance
  int savedErrno = 0;
  char *strtokState = nullptr;
  struct tm tmbuf;
  char cbuf[64];
  uint64_t fillState = 0;
  uint64_t prng = 12345;
  int pid = 0;
  long clockOff = 0;
  Interp *in = nullptr;
  bool ref = false;
};

struct FaultStat { std::map<str, long> fired; };

struct Sim {
  VFS vfs;
  const Plan *plan;
  vec<Proc *> procs;
  void *mainSp = nullptr;
  void *mainFake = nullptr;
  Rng sched;
  double pswitch = 0;
  bool threads = false;         // all processes of the plan are threads of one process: they share one copy of the library
  Lib *shared = nullptr;
  long preemptions = 0;
  long prebb = 100, preburst = 0, pregap = 0;   // threads: mean number of basic blocks between preemptions, in bursts and between bursts
  vec<Switch> recorded;
  std::map<std::pair<int, long>, int> swMap;
  int wantNext = -1;
  double clock = 1.7e9;
  long steps = 0;
  long maxSteps = 4000000;
  bool hang = false;
  uint64_t trace = 1469598103934665603ULL;
  uint64_t ileave = 0;
  std::map<str, long> fired;
  int fill = 0;
  uint64_t fillSeed = 0;
  int bufsize = 4096;
  uint64_t splitSeed = 0;
  bool record = true;      // event log
  std::function<void(Proc *, const char *)> onFs;    // invariant hook after each fs seam
  explicit Sim(const Plan *p);
  ~Sim();
  void run();
  Proc *cur() const;
  // called from the fiber
  void yieldPoint();
  void seam(const char *what);       // counts, kill_before
  void seamEnd(const char *what);    // kill_after, yield
  const Fault *faultFor(Proc *p, const char *cls, long n);
  [[noreturn]] void endProc(Proc *p, PState st, int code, const str &msg);
  void note(uint64_t v) { trace = hash64(trace, v); }
  void cleanupProc(Proc *p);
  int pickNext(Proc *from, bool must);
  void threadYield(Proc *p, bool seam);
  long drawPre(Proc *p);
  bool startable(Proc *p);
};
extern Sim *g_sim;
extern Proc *g_cur;
extern Proc *g_refProc;
int errnoOf(const str &name);

// run code in the reference instance (its own file system, no faults)
struct RefScope { Sim *s; Proc *c; int e; RefScope(); ~RefScope(); };

// statistics over all runs of the worker
struct Stats {
  long runs = 0, sims = 0, ops = 0, seams = 0, steps = 0;
  double simTime = 0;
  std::map<str, long> fired;
  std::map<str, long> probes;
  std::set<uint64_t> traces, ileaves, progs;
};
extern Stats g_stats;
static inline void probe(const str &n, long k = 1) { g_stats.probes[n] += k; }
