// The libc symbols of the library under test are renamed to these (objcopy --redefine-syms).
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#define EXP extern "C" __attribute__((visibility("default")))

static inline Proc *C() { return g_cur; }
static inline Sim *S() { return g_cur->sim; }

// a file-system call: returns 0 to go ahead or an errno to fail with
static int fsEnter(const char *what, const str &path) {
  S()->seam(what);
  Proc *p = C();
  if (p->ref) return 0;
  long n = p->nFs++;
  p->fsLog.push_back(what);
  if (const Fault *f = S()->faultFor(p, "fs", n)) {
    if (f->kind == "err") { S()->fired[str("fs_") + what + ":" + f->arg]++; return errnoOf(f->arg); }
  }
  if (const Fault *f = S()->faultFor(p, what, 0)) {  // every call of this kind from the first one on
    if (f->kind == "err") { S()->fired[str("fs_") + what + ":" + f->arg]++; return errnoOf(f->arg); }
  }
  return 0;
}
static int fsExit(const char *what, const str &path, int err, const str &path2 = "") {
  Sim *s = S();
  if (!C()->ref && s->record) s->vfs.events.push_back({C()->id, what, path, path2, err});
  s->note(hash64(hashs(path), (uint64_t)err));
  s->seamEnd(what);
  if (err) { errno = err; return -1; }
  return 0;
}

// ---------------------------------------------------------------- streams
static void record(const char *what, SimFile *f, int err) {
  if (!C()->ref && S()->record) S()->vfs.events.push_back({f->proc, what, f->path, "", err});
}
static ssize_t ckWrite(void *c, const char *buf, size_t n) {
  SimFile *f = (SimFile *)c;
  if (f->dead) return (ssize_t)n;
  Sim *s = S();
  Proc *p = C();
  if (f->ino->kind == Inode::Dir) { errno = EISDIR; return 0; }
  f->inCb = true;
  auto append = [&](const char *b, size_t k) -> size_t {
    long room = s->vfs.capacity < 0 ? (long)k : s->vfs.capacity - s->vfs.used;
    if (room < 0) room = 0;
    size_t w = (long)k <= room ? k : (size_t)room;
    size_t pos = f->app ? f->ino->data.size() : f->pos;
    if (pos + w > f->ino->data.size()) { s->vfs.used += (long)(pos + w - f->ino->data.size()); f->ino->data.resize(pos + w); }
    memcpy(&f->ino->data[pos], b, w);
    f->pos = pos + w;
    return w;
  };
  s->seam("write");
  size_t done = 0;
  int err = 0;
  if (!p->ref) {
    long ord = p->nWrite++;
    const Fault *ff = s->faultFor(p, "write", ord);
    if (ff && ff->kind == "err") {
      // a short write followed by an error
      long k = 0; auto v = split(ff->arg, '/');
      if (v.size() > 1) k = atol(v[1].c_str());
      if (k > (long)n) k = (long)n;
      done = append(buf, (size_t)k);
      err = errnoOf(v[0]);
      s->fired["write:" + v[0]]++;
    } else {
      const Fault *kf = s->faultFor(p, "seam", p->nSeam);
      size_t cut = n;
      if (kf && kf->kind == "kill_mid") {
        cut = (size_t)atol(kf->arg.c_str()) % (n ? n : 1);
        append(buf, cut);
        record("write", f, 0);
        s->fired["kill_torn_write"]++;
        s->endProc(p, PKilled, 137, "killed in the middle of a write");
      }
      if (s->splitSeed) {
        Rng r(hash64(s->splitSeed, hash64((uint64_t)p->id, (uint64_t)ord)));
        if (n > 1 && r.chance(0.5)) cut = 1 + r.below(n - 1);
      }
      size_t w = append(buf, cut);
      done = w;
      if (w < cut) err = ENOSPC;
      else if (cut < n) {
        s->fired["split_write"]++;
        s->seamEnd("write-part");
        s->seam("write");
        w = append(buf + cut, n - cut);
        done += w;
        if (w < n - cut) err = ENOSPC;
      }
      if (err) s->fired["write:disk_full"]++;
    }
  } else done = append(buf, n);
  if (err) { if (f->ino->failAt < 0) f->ino->failAt = (long)f->ino->data.size(); p->lastWriteFault = p->curOp; }
  record("write", f, err);
  s->note(hash64(hashs(str(buf, n)), (uint64_t)f->ino->id));
  s->seamEnd("write");
  f->inCb = false;
  if (done < n) errno = err ? err : EIO;
  return (ssize_t)done;
}
static ssize_t ckRead(void *c, char *buf, size_t n) {
  SimFile *f = (SimFile *)c;
  if (f->dead || f->ino->kind == Inode::Dir) { errno = EISDIR; return -1; }
  size_t have = f->pos < f->ino->data.size() ? f->ino->data.size() - f->pos : 0;
  size_t k = have < n ? have : n;
  memcpy(buf, f->ino->data.data() + f->pos, k);
  f->pos += k;
  return (ssize_t)k;
}
static int ckSeek(void *c, off64_t *off, int wh) {
  SimFile *f = (SimFile *)c;
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)f->pos : (long)f->ino->data.size();
  long np = b + (long)*off;
  if (np < 0) { errno = EINVAL; return -1; }
  f->pos = (size_t)np; *off = np;
  return 0;
}
static int ckClose(void *) { return 0; }

static void attach(SimFile *f, const char *m) {
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  f->fp = fopencookie(f, m, io);
  int bs = S()->bufsize > 0 ? S()->bufsize : 4096;
  f->buf = (char *)malloc((size_t)bs);
  setvbuf(f->fp, f->buf, _IOFBF, (size_t)bs);
}
static FILE *openStream(const str &path, const char *mode, int &err) {
  bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+'), x = strchr(mode, 'x');
  Ino o;
  if (!r && !w && !a) { err = EINVAL; return nullptr; }
  err = S()->vfs.create(path, o, x, w, !r);
  if (err == EISDIR && r && !plus) err = 0;
  if (err) return nullptr;
  SimFile *f = new SimFile{C()->id, o, nullptr, 0, a, r || plus, !r || plus, false, path, nullptr, false};
  attach(f, plus ? "r+" : r ? "r" : "w");
  C()->files.push_back(f);
  return f->fp;
}
EXP FILE *sim_fopen(const char *path, const char *mode) {
  const char *nm = mode[0] == 'r' ? "fopen_r" : "fopen";
  int e = fsEnter(nm, path);
  FILE *fp = nullptr;
  if (!e) fp = openStream(path, mode, e);
  fsExit(nm, str(path) + "," + mode, e);
  if (e) { errno = e; return nullptr; }
  return fp;
}
EXP FILE *sim_fopen64(const char *path, const char *mode) { return sim_fopen(path, mode); }
static SimFile *findFile(FILE *fp) {
  for (auto f : C()->files) if (f->fp == fp) return f;
  return nullptr;
}
static void dropFile(SimFile *f) {
  auto &v = C()->files;
  for (size_t i = 0; i < v.size(); i++) if (v[i] == f) { v.erase(v.begin() + (long)i); break; }
}
extern "C" { __attribute__((visibility("default"))) FILE *sim_stdout, *sim_stderr, *sim_stdin; }
EXP int sim_fclose(FILE *fp) {
  if (fp == sim_stdout || fp == sim_stderr || fp == sim_stdin) return 0;
  SimFile *f = findFile(fp);
  if (!f) S()->endProc(C(), PAborted, 0, "fclose of a stream that is not open");
  S()->seam("fclose");
  int ferr = 0;
  if (!C()->ref) {
    long n = C()->nClose++;
    if (const Fault *ff = S()->faultFor(C(), "close", n)) if (ff->kind == "err") { ferr = errnoOf(ff->arg); S()->fired["fclose:" + ff->arg]++; }
  }
  // flush explicitly first: the write callback may switch processes or kill this one
  int r0 = fflush(fp);
  int e0 = errno;
  f->dead = true;
  int r = fclose(fp);
  if (r0) { r = r0; errno = e0; }
  free(f->buf);
  record("fclose", f, r ? errno : 0);
  dropFile(f);
  str path = f->path;
  delete f;
  int e = ferr ? ferr : r ? errno : 0;
  S()->seamEnd("fclose");
  if (e) { errno = e; return EOF; }
  return 0;
}
EXP int sim_fflush(FILE *fp) {
  if (!fp) {
    int r = 0;
    auto v = C()->files;
    for (auto f : v) if (f->wr && f->fp && fflush(f->fp)) r = EOF;
    return r;
  }
  return fflush(fp);
}
EXP FILE *sim_freopen(const char *path, const char *mode, FILE *fp) { sim_fclose(fp); return path ? sim_fopen(path, mode) : nullptr; }
EXP FILE *sim_tmpfile(void) { static int k; str p = fmt("/tmp/tmpfile%d", k++); return sim_fopen(p.c_str(), "w+"); }
// descriptors: every open file of a process may have one
static SimFile *fdFile(int fd) {
  for (auto f : C()->files) if (f->fd == fd && fd >= 0) return f;
  return nullptr;
}
static int newFd() { int fd = 3; while (fdFile(fd)) fd++; return fd; }
EXP int sim_fileno(FILE *fp) {
  if (fp == sim_stdin) return 0;
  if (fp == sim_stdout) return 1;
  if (fp == sim_stderr) return 2;
  SimFile *f = findFile(fp);
  if (!f) { errno = EBADF; return -1; }
  if (f->fd < 0) f->fd = newFd();
  return f->fd;
}
EXP int sim_ftruncate(int fd, off_t n) {
  SimFile *f = fdFile(fd);
  if (!f) { errno = EBADF; return -1; }
  str path = f->path;
  int e = fsEnter("truncate", path.c_str());
  if (!e) f->ino->data.resize((size_t)n);
  return fsExit("truncate", path, e);
}
EXP int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
EXP int sim_fsync(int) { return 0; }
EXP int sim_fdatasync(int) { return 0; }
EXP int sim_setvbuf(FILE *fp, char *b, int mode, size_t n) { return setvbuf(fp, b, mode, n); }

static ssize_t stdWrite(void *c, const char *b, size_t n) {
  Proc *p = C();
  if (p) (c ? p->err : p->out).append(b, n);
  return (ssize_t)n;
}
__attribute__((constructor)) static void mkstd() {
  cookie_io_functions_t io = {nullptr, stdWrite, nullptr, nullptr};
  sim_stdout = fopencookie(nullptr, "w", io);
  setvbuf(sim_stdout, nullptr, _IONBF, 0);
  sim_stderr = fopencookie((void *)1, "w", io);
  setvbuf(sim_stderr, nullptr, _IONBF, 0);
  sim_stdin = nullptr;
}
EXP int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
EXP int sim_vprintf(const char *f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
EXP int sim_puts(const char *s) { C()->out += s; C()->out += '\n'; return 1; }
EXP int sim_putchar(int c) { C()->out += (char)c; return c; }
EXP void sim_perror(const char *s) { C()->err += str(s ? s : "") + ": " + strerror(errno) + "\n"; }

// ---------------------------------------------------------------- low-level files (not used today)
EXP int sim_open(const char *path, int flags, ...) {
  int e = fsEnter("open", path);
  Ino o;
  if (!e) e = S()->vfs.create(path, o, (flags & O_EXCL) && (flags & O_CREAT), flags & O_TRUNC, flags & O_CREAT);
  fsExit("open", path, e);
  if (e) { errno = e; return -1; }
  int acc = flags & O_ACCMODE;
  SimFile *f = new SimFile{C()->id, o, nullptr, 0, (flags & O_APPEND) != 0, acc != O_WRONLY, acc != O_RDONLY, false, path, nullptr, false};
  f->fd = newFd();
  C()->files.push_back(f);
  return f->fd;
}
EXP FILE *sim_fdopen(int fd, const char *mode) {
  SimFile *f = fdFile(fd);
  if (!f || f->fp) { errno = EBADF; return nullptr; }
  if (mode[0] == 'a') f->app = true;
  attach(f, strchr(mode, '+') ? "r+" : mode[0] == 'r' ? "r" : "w");
  return f->fp;
}
EXP int sim_creat(const char *p, unsigned m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXP int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags); }
EXP int sim_close(int fd) {
  SimFile *f = fdFile(fd);
  if (!f) { errno = EBADF; return -1; }
  S()->seam("close");
  record("fclose", f, 0);
  if (f->fp) { f->dead = true; f->fd = -1; }      // the stream stays, without its descriptor
  else { dropFile(f); delete f; }
  S()->seamEnd("close");
  return 0;
}
EXP ssize_t sim_write(int fd, const void *b, size_t n) {
  if (fd == 1 || fd == 2) return stdWrite(fd == 2 ? (void *)1 : nullptr, (const char *)b, n);
  SimFile *f = fdFile(fd); if (!f || !f->wr) { errno = EBADF; return -1; }
  ssize_t r = ckWrite(f, (const char *)b, n);
  return r == 0 && n ? -1 : r;
}
EXP ssize_t sim_read(int fd, void *b, size_t n) { SimFile *f = fdFile(fd); if (!f || !f->rd) { errno = EBADF; return -1; } return ckRead(f, (char *)b, n); }
EXP off_t sim_lseek(int fd, off_t off, int wh) { SimFile *f = fdFile(fd); if (!f) { errno = EBADF; return -1; } off64_t o = off; return ckSeek(f, &o, wh) ? -1 : o; }

// ---------------------------------------------------------------- directories
EXP int sim_mkdir(const char *path, mode_t) { int e = fsEnter("mkdir", path); if (!e) e = S()->vfs.mkdir(path); return fsExit("mkdir", path, e); }
EXP int sim_rmdir(const char *path) { int e = fsEnter("rmdir", path); if (!e) e = S()->vfs.rmdir(path); return fsExit("rmdir", path, e); }
EXP int sim_unlink(const char *path) { int e = fsEnter("unlink", path); if (!e) e = S()->vfs.unlink(path); return fsExit("unlink", path, e); }
EXP int sim_remove(const char *path) { int e = fsEnter("remove", path); if (!e) { e = S()->vfs.unlink(path); if (e == EISDIR) e = S()->vfs.rmdir(path); } return fsExit("remove", path, e); }
EXP int sim_rename(const char *a, const char *b) { int e = fsEnter("rename", a); if (!e) e = S()->vfs.rename(a, b); return fsExit("rename", a, e, b); }
EXP int sim_symlink(const char *t, const char *p) { int e = fsEnter("symlink", p); if (!e) e = S()->vfs.symlink(t, p); return fsExit("symlink", p, e); }
EXP int sim_link(const char *, const char *) { errno = EPERM; return -1; }
EXP int sim_chmod(const char *path, mode_t) { Ino o; int e = S()->vfs.lookup(path, o); if (e) { errno = e; return -1; } return 0; }
EXP int sim_truncate(const char *path, off_t n) { int e = fsEnter("truncate", path); Ino o; if (!e) e = S()->vfs.lookup(path, o); if (!e) o->data.resize((size_t)n); return fsExit("truncate", path, e); }
static void fillStat(const Ino &o, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_ino = (ino_t)o->id;
  st->st_mode = o->kind == Inode::Dir ? S_IFDIR | 0755 : o->kind == Inode::Sym ? S_IFLNK | 0777 : S_IFREG | 0644;
  st->st_size = (off_t)o->data.size();
  st->st_nlink = 1; st->st_blksize = 4096;
}
static int doStat(const char *path, struct stat *st, bool follow) {
  const char *w = follow ? "stat" : "lstat";
  int e = fsEnter(w, path);
  Ino o;
  if (!e) e = S()->vfs.lookup(path, o, follow);
  if (!e) fillStat(o, st);
  return fsExit(w, path, e);
}
EXP int sim_stat(const char *path, struct stat *st) { return doStat(path, st, true); }
EXP int sim_lstat(const char *path, struct stat *st) { return doStat(path, st, false); }
EXP int sim_fstat(int fd, struct stat *st) { SimFile *f = fdFile(fd); if (!f) { errno = EBADF; return -1; } fillStat(f->ino, st); return 0; }
EXP int sim_access(const char *path, int) { int e = fsEnter("access", path); Ino o; if (!e) e = S()->vfs.lookup(path, o); return fsExit("access", path, e); }
EXP DIR *sim_opendir(const char *path) {
  int e = fsEnter("opendir", path);
  Ino o;
  SimDir *d = nullptr;
  if (!e) e = S()->vfs.lookup(path, o);
  if (!e && o->kind != Inode::Dir) e = ENOTDIR;
  if (!e) {
    d = new SimDir; d->pos = 0; d->ent = malloc(sizeof(struct dirent));
    d->names.push_back({".", DT_DIR}); d->names.push_back({"..", DT_DIR});
    for (auto &x : o->ents) d->names.push_back({x.first, x.second->kind == Inode::Dir ? DT_DIR : x.second->kind == Inode::Sym ? DT_LNK : DT_REG});
    // readdir order is arbitrary: derived from the plan
    Rng r(hash64((uint64_t)S()->plan->geti("dirorder", 0), hashs(path)));
    if (S()->plan->geti("dirorder", 0)) for (size_t i = d->names.size(); i > 1; i--) std::swap(d->names[i - 1], d->names[r.below(i)]);
    C()->dirs.insert(d);
  }
  fsExit("opendir", path, e);
  if (e) { errno = e; return nullptr; }
  return (DIR *)d;
}
EXP struct dirent *sim_readdir(DIR *dp) {
  SimDir *d = (SimDir *)dp;
  if (!C()->dirs.count(d)) S()->endProc(C(), PAborted, 0, "readdir on a directory handle that is not open");
  int e = fsEnter("readdir", "");
  struct dirent *r = nullptr;
  if (!e && d->pos < d->names.size()) {
    r = (struct dirent *)d->ent;
    memset(r, 0, sizeof *r);
    snprintf(r->d_name, sizeof r->d_name, "%s", d->names[d->pos].first.c_str());
    r->d_type = (unsigned char)(S()->plan->geti("dtunknown", 0) ? DT_UNKNOWN : d->names[d->pos].second);
    r->d_ino = 1 + d->pos;
    d->pos++;
  }
  fsExit("readdir", "", e);
  if (e) errno = e;
  return r;
}
EXP int sim_closedir(DIR *dp) {
  SimDir *d = (SimDir *)dp;
  if (!C()->dirs.count(d)) S()->endProc(C(), PAborted, 0, "closedir on a directory handle that is not open");
  C()->dirs.erase(d); free(d->ent); delete d;
  S()->seam("closedir"); S()->seamEnd("closedir");
  return 0;
}
EXP void sim_rewinddir(DIR *dp) { ((SimDir *)dp)->pos = 0; }
EXP int sim_chdir(const char *) { errno = EPERM; return -1; }
EXP char *sim_getcwd(char *b, size_t n) { snprintf(b, n, "/work"); return b; }
EXP int sim_mkstemp(char *t) { return sim_open(t, O_CREAT | O_EXCL | O_RDWR); }
EXP char *sim_mkdtemp(char *t) { return sim_mkdir(t, 0700) ? nullptr : t; }

// ---------------------------------------------------------------- memory
static void *allocImpl(size_t n, bool zero) {
  Proc *p = C();
  if (!p || p->ref) return zero ? calloc(1, n ? n : 1) : malloc(n);
  long ord = p->nAlloc++;
  if (p->wantSites) {
    uint64_t h = 14695981039346656037ull;
    void **fp = (void **)__builtin_frame_address(0);
    for (int i = 0; i < 6; i++) {
      if (i == 4) p->sites[0].push_back(p->siteIds[0].insert({h, (int)p->siteIds[0].size()}).first->second);
      h = (h ^ (uint64_t)fp[1]) * 1099511628211ull;
      void **nx = (void **)fp[0];
      if (nx <= fp || (char *)nx - (char *)fp > 1 << 16 || (char *)nx + 16 > p->stack + STACK || (char *)nx < p->stack) break;
      fp = nx;
    }
    p->sites[1].push_back(p->siteIds[1].insert({h, (int)p->siteIds[1].size()}).first->second);
    if (p->sites[0].size() < p->sites[1].size()) p->sites[0].push_back(0);
  }
  if (const Fault *f = S()->faultFor(p, "alloc", ord)) { (void)f; S()->fired["alloc_fail"]++; errno = ENOMEM; return nullptr; }
  if (n > (1ull << 31)) { errno = ENOMEM; return nullptr; }
  void *q = malloc(n);
  if (!q) { fprintf(stderr, "cocosim: real out of memory\n"); _exit(3); }
  unsigned char *b = (unsigned char *)q;
  if (zero) memset(b, 0, n);
  else {
    Sim *s = S();
    if (s->fill <= 2) memset(b, s->fill == 0 ? 0 : s->fill == 1 ? 0xff : 0xcb, n);
    else { uint64_t x = p->fillState; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = (unsigned char)(x >> 32); } p->fillState = x; }
  }
  p->allocs[q] = {n, ord};
  return q;
}
EXP void *sim_malloc(size_t n) { return allocImpl(n, false); }
EXP void *sim_calloc(size_t a, size_t b) { return allocImpl(a * b, true); }
EXP void sim_free(void *q) {
  if (!q) return;
  Proc *p = C();
  if (p && !p->ref) {
    auto i = p->allocs.find(q);
    if (i != p->allocs.end()) p->allocs.erase(i);
    // otherwise: let the address sanitizer diagnose it
  }
  free(q);
}
EXP void *sim_realloc(void *q, size_t n) {
  Proc *p = C();
  if (!p || p->ref) return realloc(q, n);
  void *r = allocImpl(n, false);
  if (!r) return nullptr;
  if (q) { size_t o = p->allocs.count(q) ? p->allocs[q].size : 0; memcpy(r, q, o < n ? o : n); sim_free(q); }
  return r;
}
EXP char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
EXP char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *r = (char *)sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
EXP int sim_vasprintf(char **o, const char *f, va_list ap) {
  va_list a2; va_copy(a2, ap);
  int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
  *o = (char *)sim_malloc((size_t)n + 1);
  if (!*o) return -1;
  return vsnprintf(*o, (size_t)n + 1, f, ap);
}
EXP int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }

// ---------------------------------------------------------------- time, environment, randomness
static double nowOf() {
  Proc *p = C();
  Sim *s = S();
  if (!p->ref) {
    // each reading advances the clock; jumps come from the plan
    long jp = s->plan->geti("clockjump", 0);
    s->clock += 0.001;
    if (jp) {
      Rng r(hash64((uint64_t)jp, (uint64_t)(s->clock * 1000)));
      if (r.chance(0.3)) { s->clock += (double)r.range(-90000, 90000); s->fired["clock_jump"]++; }
      else if (r.chance(0.3)) s->clock += r.u() * 10;
    }
  }
  return s->clock + (double)p->clockOff;
}
static Proc *T() { Proc *p = C(); return !p->ref && p->sim->threads ? p->sim->procs[0] : p; }   // static buffers are shared by threads
EXP time_t sim_time(time_t *t) { time_t r = (time_t)nowOf(); if (t) *t = r; return r; }
EXP clock_t sim_clock(void) { return (clock_t)(nowOf() * 1e6); }
EXP int sim_gettimeofday(struct timeval *tv, void *) { double x = nowOf(); tv->tv_sec = (time_t)x; tv->tv_usec = (suseconds_t)((x - (double)tv->tv_sec) * 1e6); return 0; }
EXP int sim_clock_gettime(int, struct timespec *tv) { double x = nowOf(); tv->tv_sec = (time_t)x; tv->tv_nsec = (long)((x - (double)tv->tv_sec) * 1e9); return 0; }
EXP struct tm *sim_localtime(const time_t *t) { return gmtime_r(t, &T()->tmbuf); }
EXP struct tm *sim_gmtime(const time_t *t) { return gmtime_r(t, &T()->tmbuf); }
EXP char *sim_ctime(const time_t *t) { struct tm x; gmtime_r(t, &x); return asctime_r(&x, T()->cbuf); }
EXP char *sim_asctime(const struct tm *t) { return asctime_r(t, T()->cbuf); }
EXP char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &T()->strtokState); }
EXP pid_t sim_getpid(void) { return C()->pid; }
EXP char *sim_getenv(const char *) { return nullptr; }
EXP int sim_setenv(const char *, const char *, int) { return 0; }
EXP int sim_rand(void) { Proc *p = T(); p->prng = p->prng * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((p->prng >> 33) & 0x7fffffff); }
EXP void sim_srand(unsigned s) { T()->prng = s; }
EXP long sim_random(void) { return sim_rand(); }
EXP void sim_srandom(unsigned s) { T()->prng = s; }
EXP double sim_drand48(void) { return sim_rand() / 2147483648.0; }
EXP void sim_srand48(long s) { T()->prng = (uint64_t)s; }
EXP unsigned sim_sleep(unsigned n) { S()->clock += n; return 0; }
EXP int sim_usleep(unsigned n) { S()->clock += n * 1e-6; return 0; }
EXP int sim_nanosleep(const struct timespec *t, struct timespec *) { S()->clock += (double)t->tv_sec; return 0; }

// ---------------------------------------------------------------- process end
EXP __attribute__((noreturn)) void sim_exit(int code) {
  Proc *p = C();
  if (p->ref) { fprintf(stderr, "cocosim: reference instance called exit: %s\n", p->err.c_str()); _exit(4); }
  auto v = p->files;
  for (auto f : v) if (f->wr && f->fp && !f->dead) fflush(f->fp);   // exit() flushes stdio
  S()->endProc(p, PExited, code, "");
}
EXP __attribute__((noreturn)) void sim__exit(int code) { S()->endProc(C(), PExited, code, ""); }
EXP __attribute__((noreturn)) void sim_abort(void) {
  if (C()->ref) { fprintf(stderr, "cocosim: reference instance aborted: %s\n", C()->err.c_str()); _exit(4); }
  S()->endProc(C(), PAborted, 134, "abort() called");
}
EXP __attribute__((noreturn)) void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  str m = fmt("assertion failed: %s (%s:%u %s)", e, file, line, fn ? fn : "");
  if (C()->ref) { fprintf(stderr, "cocosim: reference instance: %s\n", m.c_str()); _exit(4); }
  S()->endProc(C(), PAborted, 134, m);
}
EXP int sim_atexit(void (*)(void)) { return 0; }
EXP int sim_system(const char *c) { S()->vfs.events.push_back({C()->id, "system", c ? c : "", "", 0}); return -1; }
EXP FILE *sim_popen(const char *c, const char *) { S()->vfs.events.push_back({C()->id, "system", c ? c : "", "", 0}); return nullptr; }
EXP int sim_pclose(FILE *) { return -1; }
EXP void (*sim_signal(int, void (*h)(int)))(int) { return h; }
EXP int sim_raise(int) { return 0; }
EXP int sim_kill(int, int) { errno = EPERM; return -1; }
EXP pid_t sim_fork(void) { errno = ENOSYS; return -1; }
