#include "sim.h"
#include "api.h"
#include "interp.h"
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

Sim *g_sim = nullptr;
Proc *g_cur = nullptr;
Proc *g_refProc = nullptr;
Stats g_stats;
vec<Lib *> g_libs;
Lib *g_ref = nullptr;
static Sim *g_refSim = nullptr;

// ---------------------------------------------------------------- utilities
str fmt(const char *f, ...) {
  va_list ap; va_start(ap, f);
  char b[512];
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n < (int)sizeof b) { va_end(ap2); return str(b, n); }
  str s(n + 1, 0);
  vsnprintf(&s[0], n + 1, f, ap2);
  va_end(ap2);
  s.resize(n);
  return s;
}
vec<str> split(const str &s, char sep) {
  vec<str> v; size_t i = 0;
  for (;;) {
    size_t j = s.find(sep, i);
    if (j == str::npos) { v.push_back(s.substr(i)); return v; }
    v.push_back(s.substr(i, j - i)); i = j + 1;
  }
}
str join(const vec<str> &v, const str &sep) {
  str r;
  for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; }
  return r;
}
str esc(const str &s) {
  str r;
  for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else r += c; }
  return r;
}
str unesc(const str &s) {
  str r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i]; } else r += s[i];
  }
  return r;
}
int errnoOf(const str &n) {
  static const std::map<str, int> m = {{"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENOENT", ENOENT},
    {"ENOMEM", ENOMEM}, {"EROFS", EROFS}, {"EINTR", EINTR}, {"EDQUOT", EDQUOT}, {"EBUSY", EBUSY}, {"EPERM", EPERM}, {"ENFILE", ENFILE}, {"EEXIST", EEXIST}, {"ENOTDIR", ENOTDIR}};
  auto i = m.find(n);
  return i == m.end() ? EIO : i->second;
}

// ---------------------------------------------------------------- VFS
VFS::VFS() { root = mk(Inode::Dir); addDirs("/work"); addDirs("/tmp"); }
Ino VFS::mk(Inode::Kind k) { auto i = std::make_shared<Inode>(); i->kind = k; i->id = nextId++; if (g_cur) { i->byProc = g_cur->id; i->byOp = g_cur->curOp; } return i; }
str VFS::abs(const str &p) { return !p.empty() && p[0] == '/' ? p : "/work/" + p; }
int VFS::lookup(const str &path0, Ino &out, bool follow, int depth, Ino *parent, str *last) {
  if (path0.empty()) return ENOENT;
  if (path0.size() >= 4096) return ENAMETOOLONG;
  if (depth > 10) return ELOOP;
  str path = abs(path0);
  bool trailing = path.size() > 1 && path.back() == '/';
  vec<str> comps;
  for (auto &c : split(path, '/')) if (!c.empty() && c != ".") comps.push_back(c);
  vec<Ino> stack{root};
  str curPath = "";
  vec<str> names;
  for (size_t i = 0; i < comps.size(); i++) {
    const str &c = comps[i];
    if (c.size() > 255) return ENAMETOOLONG;
    Ino d = stack.back();
    if (d->kind != Inode::Dir) return ENOTDIR;
    if (parent && i + 1 == comps.size()) { *parent = d; *last = c; if (c == "..") return EINVAL; auto e = d->ents.find(c); if (e != d->ents.end()) out = e->second; return 0; }
    if (c == "..") { if (stack.size() > 1) { stack.pop_back(); names.pop_back(); } continue; }
    auto e = d->ents.find(c);
    if (e == d->ents.end()) return ENOENT;
    Ino n = e->second;
    bool lastc = i + 1 == comps.size();
    if (n->kind == Inode::Sym && (!lastc || follow || trailing)) {
      str base = "/" + join(names, "/");
      str rest;
      for (size_t k = i + 1; k < comps.size(); k++) rest += "/" + comps[k];
      str t = n->data[0] == '/' ? n->data : base + "/" + n->data;
      return lookup(t + rest, out, follow, depth + 1, parent, last);
    }
    stack.push_back(n); names.push_back(c);
  }
  if (parent) return EEXIST;  // path is "/"
  if (trailing && stack.back()->kind != Inode::Dir) return ENOTDIR;
  out = stack.back();
  return 0;
}
int VFS::lookupParent(const str &path, Ino &parent, str &last) { Ino o; return lookup(path, o, false, 0, &parent, &last); }
int VFS::mkdir(const str &path) {
  Ino p; str l;
  if (int e = lookupParent(path, p, l)) return e;
  if (p->ents.count(l)) return EEXIST;
  p->ents[l] = mk(Inode::Dir);
  return 0;
}
int VFS::create(const str &path, Ino &out, bool excl, bool trunc, bool creat) {
  int e = lookup(path, out, true);
  if (e == 0) {
    if (excl) return EEXIST;
    if (out->kind == Inode::Dir) return EISDIR;
    if (trunc) { used -= (long)out->data.size(); out->data.clear(); }
    return 0;
  }
  if (e != ENOENT || !creat) return e;
  Ino p; str l;
  if ((e = lookupParent(path, p, l))) return e;
  auto it = p->ents.find(l);
  if (it != p->ents.end()) {  // dangling symlink
    if (excl) return EEXIST;
    if (it->second->kind == Inode::Sym) {
      str abspath = it->second->data[0] == '/' ? it->second->data : abs(path).substr(0, abs(path).rfind('/') + 1) + it->second->data;
      if ((e = lookupParent(abspath, p, l))) return e;
    }
  }
  out = mk(Inode::File);
  p->ents[l] = out;
  return 0;
}
int VFS::unlink(const str &path) {
  Ino p; str l;
  if (int e = lookupParent(path, p, l)) return e;
  auto i = p->ents.find(l);
  if (i == p->ents.end()) return ENOENT;
  if (i->second->kind == Inode::Dir) return EISDIR;
  used -= i->second->kind == Inode::File ? (long)i->second->data.size() : 0;
  p->ents.erase(i);
  return 0;
}
int VFS::rmdir(const str &path) {
  Ino p; str l;
  if (int e = lookupParent(path, p, l)) return e;
  auto i = p->ents.find(l);
  if (i == p->ents.end()) return ENOENT;
  if (i->second->kind != Inode::Dir) return ENOTDIR;
  if (!i->second->ents.empty()) return ENOTEMPTY;
  p->ents.erase(i);
  return 0;
}
int VFS::rename(const str &a, const str &b) {
  Ino pa, pb; str la, lb;
  if (int e = lookupParent(a, pa, la)) return e;
  if (int e = lookupParent(b, pb, lb)) return e;
  auto i = pa->ents.find(la);
  if (i == pa->ents.end()) return ENOENT;
  Ino n = i->second;
  auto j = pb->ents.find(lb);
  if (j != pb->ents.end()) {
    if (j->second->kind == Inode::Dir && n->kind != Inode::Dir) return EISDIR;
    if (j->second->kind != Inode::Dir && n->kind == Inode::Dir) return ENOTDIR;
    if (j->second->kind == Inode::Dir && !j->second->ents.empty()) return ENOTEMPTY;
  }
  pa->ents.erase(la);
  pb->ents[lb] = n;
  return 0;
}
int VFS::symlink(const str &t, const str &path) {
  Ino p; str l;
  if (int e = lookupParent(path, p, l)) return e;
  if (p->ents.count(l)) return EEXIST;
  Ino n = mk(Inode::Sym); n->data = t; p->ents[l] = n;
  return 0;
}
void VFS::addDirs(const str &path) {
  str p = abs(path), acc;
  for (auto &c : split(p, '/')) { if (c.empty()) continue; acc += "/" + c; mkdir(acc); }
}
void VFS::addFile(const str &path, const str &data) {
  str p = abs(path);
  addDirs(p.substr(0, p.rfind('/')));
  Ino o;
  if (create(p, o, false, true, true) == 0) { o->data = data; used += (long)data.size(); }
}
static void walk(const Ino &n, const str &p, std::map<str, str> &m) {
  if (n->kind == Inode::File) m[p] = "f" + n->data;
  else if (n->kind == Inode::Sym) m[p] = "l" + n->data;
  else { m[p.empty() ? "/" : p] = "d"; for (auto &e : n->ents) walk(e.second, p + "/" + e.first, m); }
}
std::map<str, str> VFS::tree(const str &prefix) const {
  std::map<str, str> m, r;
  walk(root, "", m);
  if (prefix.empty()) return m;
  for (auto &e : m) if (e.first.compare(0, prefix.size(), prefix) == 0 && (e.first.size() == prefix.size() || e.first[prefix.size()] == '/')) r[e.first] = e.second;
  return r;
}

// ---------------------------------------------------------------- plan text
str Plan::text() const {
  str t = "# replay plan: cocosim replay <this file>\n";
  t += "prop\t" + prop + "\n" + fmt("seed\t%llu\n", (unsigned long long)seed);
  for (auto &e : env) t += "env\t" + e.first + "\t" + esc(e.second) + "\n";
  for (auto &f : fs) { t += "fs\t"; auto v = split(f, '\x1f'); for (size_t i = 0; i < v.size(); i++) t += (i ? "\t" : "") + esc(v[i]); t += "\n"; }
  for (size_t p = 0; p < procs.size(); p++) {
    t += fmt("proc\t%zu\t%d\n", p, procs[p].after);
    for (auto &e : procs[p].env) t += fmt("penv\t%zu\t", p) + e.first + "\t" + esc(e.second) + "\n";
  }
  for (size_t p = 0; p < procs.size(); p++)
    for (auto &o : procs[p].ops) { t += fmt("op\t%zu\t", p) + o.name; for (auto &a : o.a) t += "\t" + esc(a); t += "\n"; }
  for (auto &f : faults) t += fmt("fault\t%d\t%s\t%ld\t%s\t%s\t%ld\n", f.proc, f.cls.c_str(), f.n, f.kind.c_str(), f.arg.empty() ? "-" : f.arg.c_str(), f.count);
  if (replaySched) t += "sched\treplay\n";
  for (auto &s : sw) t += fmt("sw\t%d\t%ld\t%d\n", s.proc, s.ord, s.next);
  return t;
}
bool Plan::parse(const str &t, str &err) {
  *this = Plan();
  for (auto &line : split(t, '\n')) {
    if (line.empty() || line[0] == '#') continue;
    auto v = split(line, '\t');
    for (auto &x : v) x = unesc(x);
    if (v[0] == "prop" && v.size() == 2) prop = v[1];
    else if (v[0] == "seed") seed = strtoull(v[1].c_str(), 0, 10);
    else if (v[0] == "env" && v.size() == 3) env[v[1]] = v[2];
    else if (v[0] == "fs") { vec<str> w(v.begin() + 1, v.end()); fs.push_back(join(w, "\x1f")); }
    else if (v[0] == "proc") { size_t p = atol(v[1].c_str()); if (procs.size() <= p) procs.resize(p + 1); procs[p].after = atoi(v[2].c_str()); }
    else if (v[0] == "penv") { size_t p = atol(v[1].c_str()); if (procs.size() <= p) procs.resize(p + 1); procs[p].env[v[2]] = v[3]; }
    else if (v[0] == "op") { size_t p = atol(v[1].c_str()); if (procs.size() <= p) procs.resize(p + 1); Op o; o.name = v[2]; o.a.assign(v.begin() + 3, v.end()); procs[p].ops.push_back(o); }
    else if (v[0] == "fault") { Fault f; f.proc = atoi(v[1].c_str()); f.cls = v[2]; f.n = atol(v[3].c_str()); f.kind = v[4]; f.arg = v[5] == "-" ? "" : v[5]; f.count = v.size() > 6 ? atol(v[6].c_str()) : 1; faults.push_back(f); }
    else if (v[0] == "sched") replaySched = true;
    else if (v[0] == "sw") sw.push_back({atoi(v[1].c_str()), atol(v[2].c_str()), atoi(v[3].c_str())});
    else { err = "bad line: " + line; return false; }
  }
  return true;
}

// ---------------------------------------------------------------- library instances
static void rawcopy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void rawfill(char *d, int c, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
void Lib::restore() { for (auto &r : ranges) rawcopy(r.p, r.snap.data(), r.n); }
static int phdrCb(struct dl_phdr_info *i, size_t, void *d) {
  auto *a = (std::pair<uintptr_t, Lib *> *)d;
  if (i->dlpi_addr != a->first) return 0;
  uintptr_t rl = 0, rh = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rl = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rh = rl + i->dlpi_phdr[k].p_memsz; }
  rl &= ~4095UL; rh = (rh + 4095) & ~4095UL;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &ph = i->dlpi_phdr[k];
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
    if (rh > lo && rl <= lo) lo = rh;
    if (lo < hi) { Lib::Range r; r.p = (char *)lo; r.n = hi - lo; r.snap.resize(r.n); rawcopy(r.snap.data(), r.p, r.n); a->second->ranges.push_back(r); }
  }
  return 1;
}
void loadLibs(const str &dir, int n) {
  for (int i = 0; i < n; i++) {
    str f = fmt("%s/libcoco_%d.so", dir.c_str(), i);
    void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cocosim: %s\n", dlerror()); _exit(3); }
    Lib *l = new Lib; l->idx = i; l->h = h; l->api = new CocoApi;
#define API_LOAD(r, nm, a) *(void **)&l->api->nm = dlsym(h, #nm); if (!l->api->nm) { fprintf(stderr, "cocosim: missing public symbol %s\n", #nm); _exit(3); }
    API_LIST(API_LOAD)
    *(void **)&l->api->coco_problem_get_best_value = dlsym(h, "coco_problem_get_best_value");
    *(void **)&l->api->shim_best_value = dlsym(h, "sim_shim_best_value");
    *(void **)&l->api->shim_noise_free = dlsym(h, "sim_shim_noise_free");
    Dl_info di; dladdr((void *)l->api->coco_suite, &di);
    std::pair<uintptr_t, Lib *> a((uintptr_t)di.dli_fbase, l);
    dl_iterate_phdr(phdrCb, &a);
    g_libs.push_back(l);
  }
  g_ref = g_libs[0];
  static Plan refPlan;
  g_refSim = new Sim(&refPlan);
  g_refSim->record = false;
  g_refProc = new Proc; g_refProc->ref = true; g_refProc->id = 99; g_refProc->sim = g_refSim; g_refProc->lib = g_ref; g_refProc->st = PReady;
  RefScope rs;
  g_ref->api->coco_set_log_level("error");
}
RefScope::RefScope() { s = g_sim; c = g_cur; e = errno; g_sim = g_refSim; g_cur = g_refProc; g_refProc->out.clear(); g_refProc->err.clear(); }
RefScope::~RefScope() { g_sim = s; g_cur = c; errno = e; }

// ---------------------------------------------------------------- simulator
static vec<char *> g_stackPool;
static char *getStack() {
  if (!g_stackPool.empty()) { char *s = g_stackPool.back(); g_stackPool.pop_back(); return s; }
  char *s = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (s == MAP_FAILED) { perror("mmap"); _exit(3); }
  return s;
}
Sim::Sim(const Plan *p) : plan(p), sched(p->seed * 7919 + 17) {
  for (auto &f : p->fs) {
    auto v = split(f, '\x1f');
    if (v.size() < 2) continue;
    if (v[0] == "d") vfs.addDirs(v[1]);
    else if (v[0] == "f") vfs.addFile(v[1], v.size() > 2 ? v[2] : "");
    else if (v[0] == "l") { str pp = VFS::abs(v[1]); vfs.addDirs(pp.substr(0, pp.rfind('/'))); vfs.symlink(v.size() > 2 ? v[2] : "x", v[1]); }
  }
  fill = (int)p->geti("fill", 2);
  fillSeed = (uint64_t)p->geti("fillseed", 1);
  bufsize = (int)p->geti("bufsize", 4096);
  splitSeed = (uint64_t)p->geti("split", 0);
  clock = (double)p->geti("clock", 1700000000);
  pswitch = p->geti("pswitch", 20) / 100.0;
  threads = p->geti("threads", 0) != 0;
  prebb = p->geti("prebb", 100); preburst = p->geti("preburst", 0); pregap = p->geti("pregap", 0);
  if (threads) maxSteps = 400000000;
  long cap = p->geti("capacity", -1);
  if (cap >= 0) vfs.capacity = vfs.used + cap;
  if (p->replaySched) for (auto &s : p->sw) swMap[{s.proc, s.ord}] = s.next;
  for (size_t i = 0; i < p->procs.size(); i++) {
    Proc *q = new Proc; q->id = (int)i; q->sim = this; q->plan = &p->procs[i];
    auto pe = [&](const char *k, long d) { auto it = q->plan->env.find(k); return it == q->plan->env.end() ? d : atol(it->second.c_str()); };
    q->pid = (int)pe("pid", 1000 + (long)i * 7);
    q->clockOff = pe("clockoff", 0);
    q->fillState = hash64(fillSeed, i);
    procs.push_back(q);
  }
}
Sim::~Sim() {
  for (auto p : procs) {
    cleanupProc(p);
    delete p->in;
    delete p;
  }
}
void Sim::cleanupProc(Proc *p) {
  Sim *os = g_sim; Proc *oc = g_cur;
  g_sim = this; g_cur = p;
  for (auto f : p->files) {
    f->dead = true;
    if (!f->inCb && f->fp) { FILE *fp = f->fp; f->fp = nullptr; fclose(fp); free(f->buf); delete f; }
    else if (!f->inCb && !f->fp) delete f;
  }
  p->files.clear();
  for (auto d : p->dirs) { free(d->ent); delete d; }
  p->dirs.clear();
  for (auto &a : p->allocs) free(a.first);
  p->allocs.clear();
  if (p->stack) { __asan_unpoison_memory_region(p->stack, STACK); g_stackPool.push_back(p->stack); p->stack = nullptr; }
  if (p->lib && !threads) { p->lib->inUse = false; p->lib = nullptr; }
  g_sim = os; g_cur = oc;
}

// switching fibers without system calls: callee-saved registers go to the stack, the stack pointer to *from
extern "C" void cocosim_switch(void **from, void *to);
#if defined(__x86_64__)
asm(".text\n.globl cocosim_switch\n.hidden cocosim_switch\n.type cocosim_switch,@function\ncocosim_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size cocosim_switch,.-cocosim_switch\n");
static void *firstSp(char *stack, void (*fn)(void)) {
  void **t = (void **)(((uintptr_t)stack + STACK) & ~(uintptr_t)15);
  *--t = nullptr;            // keeps the alignment of a called function, and ends backtraces
  *--t = (void *)fn;
  for (int i = 0; i < 6; i++) *--t = nullptr;
  return t;
}
#else
#error "the fibers are written for x86-64"
#endif
static void *g_mainBottom; static size_t g_mainSize;
static void toMain(Proc *p, bool dying) {
  p->savedErrno = errno;
  __sanitizer_start_switch_fiber(dying ? nullptr : &p->fake, g_mainBottom, g_mainSize);
  cocosim_switch(&p->sp, p->sim->mainSp);
  __sanitizer_finish_switch_fiber(p->fake, nullptr, nullptr);
  errno = p->savedErrno;
}
static void fiberMain() {
  Proc *p = g_cur;
  __sanitizer_finish_switch_fiber(nullptr, (const void **)&g_mainBottom, &g_mainSize);
  interpRun(p);
  auto v = p->files;
  for (auto f : v) if (f->wr && f->fp && !f->dead) fflush(f->fp);   // main() returns: stdio is flushed
  p->sim->endProc(p, PDone, 0, "");
}
void Sim::endProc(Proc *p, PState st, int code, const str &msg) {
  p->st = st; p->exitCode = code; p->endMsg = msg;
  note(hash64(st, (uint64_t)p->id));
  wantNext = -1;
  toMain(p, true);
  abort();
}
bool Sim::startable(Proc *p) {
  if (p->st != PNotStarted) return false;
  int a = p->plan->after;
  return a < 0 || a >= (int)procs.size() || procs[a]->st >= PDone;
}
int Sim::pickNext(Proc *from, bool must) {
  vec<int> r;
  for (auto p : procs) if (p->st == PReady || startable(p)) { if (p != from || !must) r.push_back(p->id); }
  if (r.empty()) return -1;
  int fid = from ? from->id : -1;
  long ord = !from ? 0 : must ? -1 : from->nYield;
  int nx;
  if (plan->replaySched) {
    auto i = swMap.find({fid, ord});
    if (i != swMap.end()) { nx = i->second; bool ok = false; for (int x : r) ok |= x == nx; if (!ok) nx = must ? r[0] : fid; }
    else nx = must ? r[0] : fid;
    if (nx != fid) recorded.push_back({fid, ord, nx});
    return nx;
  }
  if (must) nx = r.size() == 1 ? r[0] : sched.pick(r);
  else {
    if (r.size() < 2 || !sched.chance(pswitch)) return fid;
    do nx = sched.pick(r); while (nx == fid);
  }
  if (nx != fid && !(must && nx == r[0])) recorded.push_back({fid, ord, nx});
  return nx;
}
void Sim::yieldPoint() {
  Proc *p = g_cur;
  if (p->ref) return;
  p->nYield++;
  steps++;
  if (steps > maxSteps) { hang = true; endProc(p, PAborted, 0, "simulated step limit exceeded (no progress)"); }
  if (procs.size() < 2) return;
  if (threads) { threadYield(p, true); return; }
  int nx = pickNext(p, false);
  if (nx < 0 || nx == p->id) return;
  ileave = hash64(ileave, hash64((uint64_t)p->nSeam, (uint64_t)nx + 100 * p->id));
  wantNext = nx;
  toMain(p, false);
}
// threads: a preemption may happen at every basic block of the library and at every seam call
long Sim::drawPre(Proc *p) {
  double u = sched.u(), m = (double)prebb;
  if (preburst > 0 && p->burst-- <= 0) { p->burst = sched.range(1, 2 * preburst); m = (double)pregap; }
  return 1 + (long)(-std::log(u > 1e-12 ? u : 1e-12) * m);
}
void Sim::threadYield(Proc *p, bool atSeam) {
  int nx = p->id;
  if (plan->replaySched) {
    auto i = swMap.lower_bound({p->id, p->nYield});
    if (i != swMap.end() && i->first == std::make_pair(p->id, p->nYield)) {
      int w = i->second;
      if (w >= 0 && w < (int)procs.size() && (procs[w]->st == PReady || startable(procs[w]))) nx = w;
      ++i;
    }
    p->nextPre = i != swMap.end() && i->first.first == p->id ? i->first.second : LONG_MAX;
  } else {
    bool due = p->nYield >= p->nextPre;
    if (due) p->nextPre = p->nYield + drawPre(p);
    if (due || (atSeam && sched.chance(pswitch))) {
      vec<int> r;
      for (auto q : procs) if (q != p && (q->st == PReady || startable(q))) r.push_back(q->id);
      if (!r.empty()) nx = r.size() == 1 ? r[0] : sched.pick(r);
    }
  }
  if (nx == p->id) return;
  recorded.push_back({p->id, p->nYield, nx});
  ileave = hash64(ileave, hash64((uint64_t)p->nYield, (uint64_t)nx + 100 * (uint64_t)p->id));
  preemptions++;
  wantNext = nx;
  toMain(p, false);
}
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc(void) {
  Proc *p = g_cur;
  if (!p || p->ref) return;
  if (!p->sim->threads) { p->nBB++; return; }
  if (++p->nYield < p->nextPre) return;
  p->sim->steps++;
  p->sim->threadYield(p, false);
}
const Fault *Sim::faultFor(Proc *p, const char *cls, long n) {
  if (p->ref) return nullptr;
  for (auto &f : plan->faults)
    if (f.proc == p->id && n >= f.n && n < f.n + f.count && f.cls == cls) return &f;
  return nullptr;
}
void Sim::seam(const char *what) {
  Proc *p = g_cur;
  if (p->ref) return;
  note(hash64(hashs(what), (uint64_t)p->id));
  if (const Fault *f = faultFor(p, "seam", p->nSeam))
    if (f->kind == "kill_before") { fired["kill"]++; endProc(p, PKilled, 137, fmt("killed before %s", what)); }
}
void Sim::seamEnd(const char *what) {
  Proc *p = g_cur;
  if (p->ref) return;
  const Fault *f = faultFor(p, "seam", p->nSeam);
  p->nSeam++;
  if (onFs) onFs(p, what);
  if (f && f->kind == "kill_after") { fired["kill"]++; endProc(p, PKilled, 137, fmt("killed after %s", what)); }
  yieldPoint();
}
static void reapIfEnded(Sim *s, Proc *p) {
  if (p->st >= PDone) {
    // the process is gone: the kernel closes its descriptors; nothing buffered in it survives
    for (auto f : p->files) f->dead = true;
    if (p->lib && !s->threads) { p->lib->inUse = false; p->lib = nullptr; }
    if (p->stack) { __asan_unpoison_memory_region(p->stack, STACK); g_stackPool.push_back(p->stack); p->stack = nullptr; }
  }
}
void Sim::run() {
  g_sim = this;
  g_stats.sims++;
  double c0 = clock;
  int next = pickNext(nullptr, true);
  while (next >= 0) {
    Proc *p = procs[next];
    if (p->st == PNotStarted) {
      if (threads && shared) p->lib = shared;
      else for (size_t i = 1; i < g_libs.size(); i++) if (!g_libs[i]->inUse) { p->lib = g_libs[i]; break; }
      if (!p->lib) { fprintf(stderr, "cocosim: out of library instances\n"); _exit(3); }
      if (!shared) { p->lib->inUse = true; p->lib->restore(); }
      if (threads) { shared = p->lib; p->nextPre = plan->replaySched ? 0 : drawPre(p); }
      p->stack = getStack();
      rawfill(p->stack, fill == 0 ? 0 : fill == 1 ? 0xff : 0xcb, STACK);
      p->sp = firstSp(p->stack, fiberMain);
      p->st = PReady;
      if (!p->in) p->in = new Interp(p);
    }
    wantNext = -1;
    g_cur = p;
    int e = errno;
    __sanitizer_start_switch_fiber(&mainFake, p->stack, STACK);
    cocosim_switch(&mainSp, p->sp);
    __sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
    errno = e;
    g_cur = nullptr;
    reapIfEnded(this, p);
    if (wantNext >= 0) next = wantNext;
    else next = pickNext(p, true);
  }
  if (shared) { shared->inUse = false; fired["preemption"] += preemptions; }
  for (auto p : procs) { g_stats.ops += p->nOp; g_stats.seams += p->nSeam; }
  g_stats.steps += steps;
  g_stats.simTime += clock - c0;
  for (auto &f : fired) g_stats.fired[f.first] += f.second;
  g_stats.traces.insert(trace);
  if (procs.size() > 1) g_stats.ileaves.insert(hash64(ileave, trace));
  g_sim = nullptr;
}
