// Redirection world: RedirectIO and the C library's real stdio on a simulated
// file system and descriptor table, with other writers and failing operations.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace rt;
extern "C" {
int a_alive(int);
int a_default(int);
int a_make(int, int, const char *, size_t, int);
int a_destroy(int);
int a_move_make(int, int);
int a_move_assign(int, int);
int a_assign_new(int, int, const char *, size_t, int);
int a_swap(int, int);
int a_redirected(int);
int a_has_errors(int);
size_t a_errors(int, const char **, size_t, size_t *);
void a_name(int, const char **, size_t *);
int a_is_diff(int, int *);
int a_diff(int, const char **, size_t *);
void a_drop();
int a_set_pos(int, int *);
int a_reset_pos(int);
int a_traits();
}
namespace {
// ---------------------------------------------------------------- kernel
struct Inode {
  std::string name, data, expect;
  // what a file of gigabytes holds before `data` and `expect` is not kept
  size_t base = 0, ebase = 0;
  size_t size() const { return base + data.size(); }
  size_t want() const { return ebase + expect.size(); }
  // Copies at most `n` bytes at `at`.
  size_t get(void *b, size_t at, size_t n) const {
    if (at < base) {
      n = std::min(n, base - at);
      memset(b, 0, n);
      return n;
    }
    n = std::min(n, size() - at);
    memcpy(b, data.data() + (at - base), n);
    return n;
  }
  bool pipe = false, console = false;
};
struct Ofd {
  Inode *n;
  size_t off = 0;
  bool append = false, rd = true, wr = true;
  int refs = 0;
};
std::map<std::string, Inode *> names;
std::map<int, Ofd *> fds;
std::set<int> ours;  // descriptors opened by the code under test, still open
std::set<int> ever;  // descriptor numbers that were closed before
std::vector<Ofd *> children; // descriptions inherited by other processes
std::set<FILE *> streams, closed_streams;
bool faults_on = false, concurrent = false, in_actor = false;
u32 f_open, f_dup, f_read, f_short, f_seek, f_close, f_write, f_alloc, f_flush;
struct Injected {
  int e;           // errno value
  const char *ops; // operations of the C library which fail with it
};
std::vector<Injected> injected; // the faults of this call
bool dup2_done = false, fclose_failed = false;
std::string trunc_name; // the name a Rewrite construction may empty
bool hit(u32 n) { return faults_on && n && !in_actor && flip(1, n); }
int fail(int e) {
  errno = e;
  return -1;
}
int inject(const char *what, std::initializer_list<int> es) {
  int e = *(es.begin() + choose((u32)es.size()));
  std::string w = what + 6;
  injected.push_back({e, w == "open"    ? "open"
                         : w == "close" ? "close"
                         : w == "read"  ? "read getc gets"
                         : w == "dup2" || w == "fcntl" || w == "fdopen" ? "dup open fcntl"
                         : w == "flush" ? "flush"
                                        : "seek tell flush close open"});
  count(what);
  ev("   %s: %s", what + 6, strerror(e));
  return fail(e);
}
std::string show(const std::string &s) {
  std::string r;
  for (unsigned char c : s.substr(0, 40))
    if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += c;
  if (s.size() > 40)
    r += "...(" + std::to_string(s.size()) + ")";
  return r;
}
void drop(Ofd *o) {
  if (--o->refs == 0)
    delete o;
}
Ofd *get(int fd, const char *call) {
  auto i = fds.find(fd);
  if (i == fds.end())
    violate("C16 C15 C13", ever.count(fd) ? "use-after-close" : "bad-descriptor",
            "%s on descriptor %d, which is %s", call, fd,
            ever.count(fd) ? "already closed" : "not open");
  return i->second;
}
void check_content(Inode *n, const char *when) {
  if (n->data != n->expect || n->base != n->ebase)
    violate("C13 C14", "content",
            "%s: file '%s' holds %zu bytes '%s', written were %zu bytes '%s'",
            when, n->name.c_str(), n->size(), show(n->data).c_str(),
            n->want(), show(n->expect).c_str());
}
size_t ofd_write(Ofd *o, const char *p, size_t n) {
  if (o->append)
    o->off = o->n->size();
  if (o->off < o->n->base) { // somewhere in what is not kept
    o->off += n;
    ++o->n->base; // reported as lost content
    return n;
  }
  size_t at = o->off - o->n->base;
  if (at > o->n->data.size())
    o->n->data.resize(at);
  o->n->data.replace(at, n, p, n);
  o->off += n;
  return n;
}
// ---------------------------------------------------------------- writers
bool mega; // more than a mebibyte was written, once in a run
std::string payload() {
  std::string s;
  u32 k = weighted({64, 32, 16, 8, 8, 8, 4, 1});
  if (k == 7 && mega)
    k = 6;
  if (k == 7) {
    mega = true;
    step_cap = 3000000;
    count("probe.mebibyte");
  }
  u32 n = k == 0   ? 1 + choose(12)
          : k == 1 ? 1
          : k == 2 ? 90 + choose(30)
          : k == 3 ? 4090 + choose(12)
          : k == 4 ? 9000 + choose(200)
          : k == 6 ? 65530 + choose(200)
          : k == 7 ? (1 << 20) + 4000 + choose(200)
                   : 300;
  u32 style = weighted({4, 2, 2, 1});
  u32 a = choose(26);
  for (u32 i = 0; i < n; ++i)
    switch (style) {
    case 0:
      s += (char)('a' + (a + i) % 26);
      break;
    case 1:
      s += (i + a) % 7 == 6 ? '\n' : (char)('A' + (a + i) % 26);
      break;
    case 2:
      s += (char)((a * 5 + i * 3) & 255);
      break;
    default:
      s += (i + a) % 3 ? '\0' : '\n';
    }
  return s;
}
int FROM[] = {1, 2, 7}; // the last one differs from run to run
void other_writes(Ofd *o, const char *who) {
  std::string d = payload();
  size_t n = d.size();
  if (o->n->console || !o->wr || o->n->pipe)
    return;
  if (faults_on && f_write && flip(1, f_write)) {
    n = choose((u32)n + 1);
    count("fault.disk_full");
    ev("   disk full: %zu of %zu bytes fit", n, d.size());
  }
  ofd_write(o, d.data(), n);
  o->n->expect.append(d, 0, n);
  ev("   %s writes '%s' to %s", who, show(d.substr(0, n)).c_str(),
     o->n->name.c_str());
  count("sim.writes");
  check_content(o->n, "after a write");
}
std::set<int> app_open; // descriptors of the application which must be open
void actor() {
  ++in_rt;
  in_actor = true;
  u32 n = (u32)(3 + children.size());
  u32 w = choose(n);
  if (w < 3) {
    auto i = fds.find(FROM[w]);
    if (i != fds.end() && app_open.count(FROM[w]))
      other_writes(i->second, ("descriptor " + std::to_string(FROM[w])).c_str());
  } else
    other_writes(children[w - 3], "child process");
  in_actor = false;
  --in_rt;
}
int actor_left = 0;
void step(const char *what) {
  now += 1000;
  if (++steps > step_cap)
    violate("*", "livelock", "no end after %llu system calls (%s)",
            (unsigned long long)steps, what);
  // other writers pause from time to time, otherwise nobody could ever catch up
  if (concurrent && !in_actor && actor_left > 0 && flip(1, 5)) {
    --actor_left;
    count("probe.concurrent_write");
    actor();
  }
}
// ---------------------------------------------------------------- calls
int s_open(const char *path, int flags) {
  Guard g;
  step("open");
  if (hit(f_open))
    return inject("fault.open", {EMFILE, EACCES, ENFILE, ENOSPC, EINTR, EROFS, ENOMEM});
  std::string p = path;
  auto i = names.find(p);
  if (i == names.end() && (!(flags & O_CREAT) || p.empty() || p.compare(0, 3, "no/") == 0)) {
    injected.push_back({ENOENT, "open"});
    ev("   open '%s': does not exist", path);
    return fail(ENOENT);
  }
  Inode *n;
  if (i == names.end()) {
    n = new Inode();
    n->name = p;
    names[p] = n;
  } else
    n = i->second;
  if (flags & O_TRUNC)
    n->data.clear(), n->base = 0;
  if (p == trunc_name)
    n->expect.clear(), n->ebase = 0;
  int fd = 0;
  while (fds.count(fd))
    ++fd;
  Ofd *o = new Ofd();
  o->n = n;
  o->append = flags & O_APPEND;
  o->rd = (flags & O_ACCMODE) != O_WRONLY;
  o->wr = (flags & O_ACCMODE) != O_RDONLY;
  o->refs = 1;
  fds[fd] = o;
  ours.insert(fd);
  ev("   open '%s' -> %d", path, fd);
  return fd;
}
int s_close(int fd) {
  Guard g;
  step("close");
  Ofd *o = get(fd, "close");
  drop(o);
  fds.erase(fd);
  ours.erase(fd);
  ever.insert(fd);
  ev("   close %d", fd);
  if (hit(f_close))
    return inject("fault.close", {EIO, EINTR, ENOSPC, EDQUOT});
  return 0;
}
ssize_t s_read(int fd, void *b, size_t n) {
  Guard g;
  step("read");
  Ofd *o = get(fd, "read");
  if (!o->rd)
    return fail(EBADF);
  check_range(b, n, true, "read buffer");
  if (hit(f_read))
    return inject("fault.read", {EIO, EINTR, ENOMEM});
  size_t have = o->off < o->n->size() ? o->n->size() - o->off : 0;
  size_t k = std::min(n, have);
  if (k > 1 && hit(f_short)) {
    k = 1 + choose((u32)k - 1);
    count("fault.short_read");
  }
  k = o->n->get(b, o->off, k);
  o->off += k;
  ev("   read %d: %zu bytes", fd, k);
  return (ssize_t)k;
}
ssize_t s_pread(int fd, void *b, size_t n, off_t at) {
  Guard g;
  step("pread");
  Ofd *o = get(fd, "pread");
  if (o->n->pipe)
    return fail(ESPIPE);
  if (at < 0)
    return fail(EINVAL);
  check_range(b, n, true, "read buffer");
  if (hit(f_read))
    return inject("fault.read", {EIO, EINTR, ENOMEM});
  size_t have = (size_t)at < o->n->size() ? o->n->size() - at : 0;
  size_t k = std::min(n, have);
  if (k > 1 && hit(f_short)) {
    k = 1 + choose((u32)k - 1);
    count("fault.short_read");
  }
  k = o->n->get(b, at, k);
  ev("   pread %d at %ld: %zu bytes", fd, (long)at, k);
  return (ssize_t)k;
}
ssize_t s_write(int fd, const void *b, size_t n) {
  Guard g;
  step("write");
  Ofd *o = get(fd, "write");
  check_range(b, n, false, "written data");
  ev("   write %d: %zu bytes", fd, n);
  return (ssize_t)ofd_write(o, (const char *)b, n);
}
off_t s_seek(int fd, off_t d, int wh) {
  Guard g;
  step("lseek");
  Ofd *o = get(fd, "lseek");
  if (o->n->pipe) {
    injected.push_back({ESPIPE, "seek tell flush close open read"});
    return fail(ESPIPE);
  }
  if (hit(f_seek))
    return inject("fault.lseek", {EIO, EOVERFLOW, EINVAL});
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->off : (off_t)o->n->size();
  if (b + d < 0)
    return fail(EINVAL);
  o->off = b + d;
  if (wh != SEEK_CUR || d)
    ev("   lseek %d -> %zu", fd, o->off);
  return (off_t)o->off;
}
int s_stat(int fd, struct stat *st) {
  Guard g;
  step("fstat");
  Ofd *o = get(fd, "fstat");
  memset(st, 0, sizeof *st);
  st->st_mode = o->n->pipe ? S_IFIFO | 0600 : S_IFREG | 0600;
  st->st_size = (off_t)o->n->size();
  st->st_blksize = 4096;
  return 0;
}
int s_dup2(int a, int b) {
  Guard g;
  step("dup2");
  Ofd *o = get(a, "dup2");
  if (hit(f_dup))
    return inject("fault.dup2", {EBUSY, EINTR, EMFILE, EBADF});
  dup2_done = true;
  if (a == b)
    return b;
  if (fds.count(b))
    drop(fds[b]);
  fds[b] = o;
  ++o->refs;
  ev("   dup2 %d -> %d", a, b);
  return b;
}
} // namespace
#define REAL(c) (in_rt > 0 || !cur())
extern "C" {
#define DECL(R, N, ...) R __real_##N(__VA_ARGS__);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real___open(const char *, int, ...);
int __real___open_nocancel(const char *, int, ...);
int __real_openat(int, const char *, int, ...);
#define OPEN(N)                                                                \
  int __wrap_##N(const char *p, int f, ...) {                                  \
    va_list a;                                                                 \
    va_start(a, f);                                                            \
    int m = va_arg(a, int);                                                    \
    va_end(a);                                                                 \
    return REAL() ? __real_##N(p, f, m) : s_open(p, f);                        \
  }
OPEN(open)
OPEN(open64)
OPEN(__open)
OPEN(__open_nocancel)
int __wrap_openat(int d, const char *p, int f, ...) {
  va_list a;
  va_start(a, f);
  int m = va_arg(a, int);
  va_end(a);
  return REAL() ? __real_openat(d, p, f, m) : s_open(p, f);
}
#define W1(R, N, SIM, P, A, C)                                                 \
  R __real_##N P;                                                              \
  R __wrap_##N P { return REAL() ? __real_##N A : SIM C; }
W1(int, close, s_close, (int f), (f), (f))
W1(int, __close, s_close, (int f), (f), (f))
W1(int, __close_nocancel, s_close, (int f), (f), (f))
W1(ssize_t, read, s_read, (int f, void *b, size_t n), (f, b, n), (f, b, n))
W1(ssize_t, __read, s_read, (int f, void *b, size_t n), (f, b, n), (f, b, n))
W1(ssize_t, __read_nocancel, s_read, (int f, void *b, size_t n), (f, b, n), (f, b, n))
W1(ssize_t, write, s_write, (int f, const void *b, size_t n), (f, b, n), (f, b, n))
W1(ssize_t, __write, s_write, (int f, const void *b, size_t n), (f, b, n), (f, b, n))
W1(ssize_t, __write_nocancel, s_write, (int f, const void *b, size_t n), (f, b, n), (f, b, n))
W1(off_t, lseek, s_seek, (int f, off_t o, int w), (f, o, w), (f, o, w))
W1(off_t, lseek64, s_seek, (int f, off_t o, int w), (f, o, w), (f, o, w))
W1(off_t, __lseek64, s_seek, (int f, off_t o, int w), (f, o, w), (f, o, w))
W1(ssize_t, pread, s_pread, (int f, void *b, size_t n, off_t o), (f, b, n, o), (f, b, n, o))
W1(ssize_t, pread64, s_pread, (int f, void *b, size_t n, off_t o), (f, b, n, o), (f, b, n, o))
W1(int, fstat, s_stat, (int f, struct stat *s), (f, s), (f, s))
W1(int, fstat64, s_stat, (int f, struct stat *s), (f, s), (f, s))
W1(int, __fstat64, s_stat, (int f, struct stat *s), (f, s), (f, s))
W1(int, dup2, s_dup2, (int a, int b), (a, b), (a, b))
W1(int, __dup2, s_dup2, (int a, int b), (a, b), (a, b))
static int s_dup(int a) {
  Guard g;
  step("dup");
  Ofd *o = get(a, "dup");
  if (hit(f_dup))
    return inject("fault.dup2", {EMFILE});
  int fd = 0;
  while (fds.count(fd))
    ++fd;
  fds[fd] = o;
  ++o->refs;
  ours.insert(fd);
  return fd;
}
W1(int, dup, s_dup, (int a), (a), (a))
static int s_fcntl(int a, int c, long v) {
  Guard g;
  step("fcntl");
  Ofd *o = get(a, "fcntl");
  if (c == F_GETFL)
    return (o->rd ? o->wr ? O_RDWR : O_RDONLY : O_WRONLY) | (o->append ? O_APPEND : 0);
  if (c == F_SETFL) {
    o->append = v & O_APPEND;
    return 0;
  }
  if (c != F_DUPFD && c != F_DUPFD_CLOEXEC)
    return 0;
  if (hit(f_dup))
    return inject("fault.fcntl", {EMFILE});
  if (v < 0)
    return fail(EINVAL);
  int fd = (int)v;
  while (fds.count(fd))
    ++fd;
  fds[fd] = o;
  ++o->refs;
  ours.insert(fd);
  ev("   fcntl %d duplicated as %d", a, fd);
  return fd;
}
#define FCNTL(N)                                                               \
  int __real_##N(int, int, ...);                                               \
  int __wrap_##N(int f, int c, ...) {                                          \
    va_list a;                                                                 \
    va_start(a, c);                                                            \
    int v = va_arg(a, int);                                                  \
    va_end(a);                                                                 \
    return REAL() ? __real_##N(f, c, v) : s_fcntl(f, c, v);                    \
  }
FCNTL(fcntl)
FCNTL(__fcntl)
FCNTL(fcntl64)
static int s_trunc(int fd, off_t n) {
  Guard g;
  Ofd *o = get(fd, "ftruncate");
  if ((size_t)n < o->n->base)
    o->n->base = n;
  o->n->data.resize(n - o->n->base);
  ev("   ftruncate %d to %ld", fd, (long)n);
  return 0;
}
W1(int, ftruncate, s_trunc, (int f, off_t n), (f, n), (f, n))
static int s_unlink(const char *p) {
  Guard g;
  ev("   unlink '%s'", p);
  return names.erase(p) ? 0 : fail(ENOENT);
}
W1(int, unlink, s_unlink, (const char *p), (p), (p))
W1(int, remove, s_unlink, (const char *p), (p), (p))
static int s_ok(int) { return 0; }
W1(int, fsync, s_ok, (int f), (f), (f))
// streams: the real stdio runs, only their life time is checked here
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
  FILE *f = __real_fopen(p, m);
  if (!REAL() && f) {
    Guard g;
    streams.insert(f);
    closed_streams.erase(f);
  }
  return f;
}
FILE *__real_fdopen(int, const char *);
FILE *__wrap_fdopen(int d, const char *m) {
  if (!REAL() && hit(f_open)) {
    Guard g;
    inject("fault.fdopen", {ENOMEM});
    return nullptr;
  }
  FILE *f = __real_fdopen(d, m);
  if (!REAL() && f) {
    Guard g;
    streams.insert(f);
    closed_streams.erase(f);
  }
  return f;
}
int __real_fclose(FILE *);
static void live(FILE *f, const char *op) {
  if (REAL())
    return;
  Guard g;
  if (!f)
    violate("C15 C16", "null-stream", "%s is called without a stream", op);
  if (!streams.count(f) && f != stdout && f != stderr && f != stdin)
    violate("C16 C15", closed_streams.count(f) ? "stream-use-after-close" : "bad-stream",
            "%s is called for a stream which is %s", op,
            closed_streams.count(f) ? "already closed" : "not open");
}
int __wrap_fclose(FILE *f) {
  live(f, "fclose");
  if (!REAL()) {
    Guard g;
    streams.erase(f);
    closed_streams.insert(f);
  }
  int rc = __real_fclose(f);
  fclose_failed |= rc != 0;
  return rc;
}
#define L1(R, N, P, A, F)                                                      \
  R __real_##N P;                                                              \
  R __wrap_##N P {                                                             \
    live(F, #N);                                                               \
    return __real_##N A;                                                       \
  }
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) {
  if (!REAL() && !f) {
    Guard g;
    violate("C15", "flush-all", "fflush(NULL) flushes every open stream");
  }
  live(f, "fflush");
  if (!REAL() && hit(f_flush)) {
    Guard g;
    return inject("fault.flush", {EIO, ENOSPC});
  }
  return __real_fflush(f);
}
L1(long, ftell, (FILE * f), (f), f)
L1(off_t, ftello, (FILE * f), (f), f)
L1(int, fseek, (FILE * f, long o, int w), (f, o, w), f)
L1(int, fseeko, (FILE * f, off_t o, int w), (f, o, w), f)
L1(void, rewind, (FILE * f), (f), f)
L1(char *, fgets, (char *b, int n, FILE *f), (b, n, f), f)
L1(int, fgetc, (FILE * f), (f), f)
L1(int, getc, (FILE * f), (f), f)
L1(size_t, fread, (void *b, size_t s, size_t n, FILE *f), (b, s, n, f), f)
L1(int, feof, (FILE * f), (f), f)
L1(int, ferror, (FILE * f), (f), f)
L1(void, clearerr, (FILE * f), (f), f)
L1(int, fileno, (FILE * f), (f), f)
L1(int, ungetc, (int c, FILE *f), (c, f), f)
L1(int, setvbuf, (FILE * f, char *b, int m, size_t n), (f, b, m, n), f)
}
namespace {
// ---------------------------------------------------------------- model
struct Iv {
  size_t lo = 0, hi = 0;
};
struct Obj {
  bool exists = false, redirected = false, ok = false, shared = false;
  std::set<int> own;
  std::string name;
  int mode = 0, from = -1;
  Inode *n = nullptr;
  Iv start, mark;
  size_t errs = 0;
  std::vector<std::string> texts;
};
enum { NS = 4 };
Obj O[NS];
std::set<int> before_ours;

Inode *input; // what descriptor 0 is redirected from by the last Read
size_t input_pos = 0;
void begin() {
  injected.clear();
  actor_left = 12;
  fclose_failed = false;
  dup2_done = false;
  before_ours = ours;
  alloc_fired = 0;
  alloc_fail_in = 0;
  if (faults_on && f_alloc && flip(1, f_alloc)) {
    alloc_fail_in = 1 + choose(6);
    alloc_fail_sticky = flip(1, 4);
  }
}
void end() { alloc_fail_in = 0, alloc_fail_sticky = false; }
// A failure which must not be ignored (an interrupted call may be repeated).
bool hard_fault() {
  for (auto &x : injected)
    if (x.e != EINTR)
      return !alloc_fired;
  return false;
}
bool faulty() { return !injected.empty() || alloc_fired; }
#define APP(x)                                                                 \
  ({                                                                           \
    App a_;                                                                    \
    x;                                                                         \
  })
// Descriptors opened during the call and still open.
std::set<int> opened() {
  std::set<int> r;
  for (int f : ours)
    if (!before_ours.count(f))
      r.insert(f);
  return r;
}
void check_owners(const char *op) {
  std::set<int> all;
  for (auto &o : O)
    for (int f : o.own) {
      if (!ours.count(f))
        violate("C16 C13", "closed-too-early",
                "%s: descriptor %d of a live redirection is closed", op, f);
      all.insert(f);
    }
  for (int f : ours)
    if (!all.count(f))
      violate("C16", "not-closed",
              "%s: descriptor %d is still open although no redirection owns it",
              op, f);
  for (int f : app_open)
    if (!fds.count(f))
      violate("C13", "descriptor-lost", "%s: descriptor %d is closed", op, f);
  for (auto &n : names)
    check_content(n.second, op);
}
void bad_rc(int rc, const char *op) {
  if (rc == 1 && !alloc_fired)
    violate("C15", "bad-alloc", "%s throws std::bad_alloc without a reason", op);
  if (rc == 2)
    violate("C15 C16", "exception", "%s throws", op);
  if (rc == 3)
    violate("C16", "assignment-result", "%s does not yield the assigned object", op);
}
// Reads the errors of an object; returns how many are new.
size_t read_errors(int i, const char *op) {
  Obj &o = O[i];
  const char *t[64];
  size_t internal;
  size_t n = APP(a_errors(i, t, 64, &internal));
  bool he = APP(a_has_errors(i));
  if (he != (n + internal > 0))
    violate("C15", "has-errors", "%s: hasErrors() is %d with %zu+%zu errors", op,
            he, n, internal);
  size_t total = n + internal;
  if (total < o.errs)
    violate("C15 C17", "errors-lost", "%s: recorded errors have disappeared", op);
  size_t fresh = total - o.errs;
  for (size_t k = 0; k < n && k < 64; ++k) {
    std::string s = t[k];
    if (k < o.texts.size()) {
      if (s != o.texts[k])
        violate("C15 C17", "errors-changed",
                "%s: a recorded error has become '%s'", op, show(s).c_str());
      continue;
    }
    o.texts.push_back(s);
    ev("   error recorded: %s", s.c_str());
    bool good = false;
    auto es = injected;
    es.push_back({EINVAL, nullptr});
    for (auto &x : es) {
      int e = x.e;
      std::string m = strerror(e);
      m[0] = (char)tolower(m[0]);
      std::string want = "redirect error C" + std::to_string(e) + "(0): " + o.name +
                         ": " + m + " (";
      if (s.compare(0, want.size(), want) == 0 && s.size() > want.size() + 1 &&
          s.back() == ')') {
        if (!x.ops)
          good = true;
        std::string ops = x.ops ? x.ops : "", w;
        for (char c : ops + ' ')
          if (c != ' ')
            w += c;
          else
            good |= s.find(w, want.size()) != std::string::npos, w.clear();
      }
    }
    if (!good)
      violate("C15", "error-text", "%s: the recorded error is '%s'", op,
              s.c_str());
  }
  o.errs = total;
  return fresh;
}
void check_quiet(int i, const char *op) {
  if (!O[i].exists)
    return;
  bool r = APP(a_redirected(i));
  if (r != O[i].redirected)
    violate("C16", "may-redirected", "%s: mayRedirected() is %d", op, r);
  if (!r) {
    if (APP(a_has_errors(i)))
      violate("C15 C16", "has-errors", "%s: an inactive object has errors", op);
    return;
  }
  if (read_errors(i, op))
    violate("C15 C16", "extra-error", "%s: an error is recorded", op);
  const char *p;
  size_t n;
  APP(a_name(i, &p, &n));
  if (std::string(p, n) != O[i].name)
    violate("C16 C13", "file-name", "%s: fileName() is '%s' instead of '%s'", op,
            std::string(p, n).c_str(), O[i].name.c_str());
}
bool in_use(const std::string &nm, bool &append_only) {
  bool u = false;
  append_only = true;
  for (auto &f : fds)
    if (f.second->n->name == nm) {
      u = true;
      append_only &= f.second->append;
    }
  for (auto *c : children)
    if (c->n->name == nm) {
      u = true;
      append_only &= c->append;
    }
  return u;
}
const char *NAMES[] = {"a.txt", "dir/b.log", "50%d %s.txt", "c", "d", "e",
                       "no/such/f", "", "fifo"};
// Fills in the outcome of a construction, `o` gets the result.
void plan(std::string &nm, int &mode, int &from, bool &shared) {
  mode = (int)weighted({6, 5, 2, 2});
  from = mode == 2 ? 0 : FROM[choose(3)];
  u32 k = weighted({8, 5, 3, 3, 3, 2, 1, 1, 1});
  nm = NAMES[k];
  shared = false;
  bool app;
  // reading gigabytes to find the end of a file would take too long
  auto big = [&] { return mode != 0 && mode != 3 && names.count(nm) && names[nm]->ebase; };
  if (in_use(nm, app) || big()) {
    if (!big() && mode == 1 && app && flip(1, 3))
      shared = true;
    else if (mode != 1 || true) {
      // another name which nobody uses
      for (int i = 0;; ++i) {
        nm = "t" + std::to_string(i);
        if (!in_use(nm, app) && !big())
          break;
      }
    }
  }
}
void after_make(int i, Obj o, Ofd *old, size_t sz0, int rc, const char *op) {
  // `i` is where the object is now (if it exists)
  bad_rc(rc, op);
  bool changed = fds.count(o.from) && fds[o.from] != old;
  if (changed && !dup2_done)
    violate("C13", "descriptor-lost", "%s: descriptor %d was changed", op, o.from);
  if (old && !fds.count(o.from))
    violate("C13 C16", "descriptor-lost", "%s: descriptor %d was closed", op, o.from);
  if (!old)
    count("probe.closed_descriptor");
  if (changed)
    app_open.insert(o.from);
  if (rc == 1) {
    check_owners(op);
    return;
  }
  o.exists = o.redirected = true;
  o.own = opened();
  O[i] = o;
  size_t fresh = read_errors(i, op);
  Obj &x = O[i];
  if (!fresh) {
    if (!changed)
      violate("C13 C15", "not-redirected",
              "%s: no error, but descriptor %d is not redirected", op, o.from);
    x.n = fds[o.from]->n;
    if (x.n->name != o.name || !names.count(o.name) || names[o.name] != x.n)
      violate("C13", "wrong-target", "%s: descriptor %d refers to '%s'", op,
              o.from, x.n->name.c_str());
    x.ok = true;
    size_t sz1 = x.n->want();
    x.start.lo = o.mode == 1 ? sz0 : 0;
    x.start.hi = sz1;
    if (o.mode == 2)
      x.start.hi = x.start.lo = 0, input = x.n, input_pos = 0;
    x.mark = x.start;
    count("probe.redirections");
  } else {
    count("probe.failed_redirections");
    if (!faulty())
      violate("C13 C15", "spurious-error", "%s fails without a reason", op);
    if (!x.own.empty())
      violate("C16", "not-closed",
              "%s: the redirection failed, but descriptor %d stays open", op,
              *x.own.begin());
    if (o.mode == 2 && changed)
      input = nullptr;
    bool named = !fclose_failed || op[0] == 'a';
    for (auto &t : x.texts)
      named |= t.find("close") != std::string::npos;
    if (!named)
      violate("C15", "close-not-recorded",
              "%s: closing the target file failed, but that is not recorded", op);
  }
  check_owners(op);
  check_quiet(i, op);
}
void op_make(int i, bool assign) {
  std::string nm;
  int mode, from;
  bool shared;
  plan(nm, mode, from, shared);
  Obj o;
  o.name = nm;
  o.mode = mode == 3 ? 0 : mode;
  o.from = from;
  o.shared = shared;
  if (shared)
    for (auto &x : O)
      if (x.exists && x.n && x.n->name == nm)
        x.shared = true;
  size_t sz0 = names.count(nm) ? names[nm]->want() : 0;
  Ofd *old = fds.count(from) ? fds[from] : nullptr;
  if (old && !app_open.count(from)) {
    ev("descriptor %d belongs to another stream", from);
    return;
  }
  if (old)
    ++old->refs; // keeps its identity
  trunc_name = o.mode == 0 ? nm : "\x01";
  static const char *ms[] = {"Rewrite", "Append", "Read", "default"};
  std::string op = std::string(assign ? "assign" : "construct") + " " +
                   std::to_string(i) + ": " + std::to_string(from) + " -> '" + nm +
                   "' " + ms[mode];
  ev("%s", op.c_str());
  begin();
  int rc;
  if (!assign)
    rc = APP(a_make(i, from, nm.data(), nm.size(), mode));
  else {
    std::set<int> prev = O[i].own;
    rc = APP(a_assign_new(i, from, nm.data(), nm.size(), mode == 3 ? 0 : mode));
    if (rc == 0) {
      for (int f : prev) {
        if (ours.count(f) && before_ours.count(f) && !ever.count(f))
          violate("C16", "not-closed",
                  "%s: descriptor %d of the replaced redirection stays open",
                  op.c_str(), f);
        if (ours.count(f) && ever.count(f)) // closed, and the number reused
          before_ours.erase(f);
      }
    }
  }
  end();
  trunc_name = "\x01";
  if (assign && rc == 0)
    O[i] = Obj();
  after_make(i, o, old, sz0, rc, op.c_str());
  if (old)
    drop(old);
}
bool kept(const Iv &m, size_t b, size_t e, const Inode *n, const std::string &r) {
  for (size_t a = m.lo; a <= m.hi; ++a)
    if (a + r.size() >= b && a + r.size() <= e && a >= n->ebase &&
        n->expect.compare(a - n->ebase, r.size(), r) == 0)
      return true;
  return false;
}
void op_is_diff(int i) {
  Obj &o = O[i];
  ev("isDiff %d", i);
  size_t b = o.n ? o.n->want() : 0;
  begin();
  int out = 0;
  int rc = APP(a_is_diff(i, &out));
  end();
  bad_rc(rc, "isDiff");
  size_t e = o.n ? o.n->want() : 0;
  bool flt = faulty();
  if (rc == 0) {
    size_t fresh = read_errors(i, "isDiff");
    if (!o.ok) {
      if (out || !fresh)
        violate("C15", "failed-object",
                "isDiff of a failed redirection gives %d and records %zu errors", out, fresh);
    } else if (fresh) {
      if (!flt)
        violate("C15 C14", "spurious-error", "isDiff records an error without a reason");
      if (out)
        violate("C15", "error-and-result", "isDiff records an error and gives true");
      count("probe.reported_errors");
    } else if (hard_fault())
      violate("C15", "not-recorded", "isDiff does not record a failure");
    else if (o.mode != 2 && !o.shared) {
      bool f_ok = o.mark.lo <= e && o.mark.hi >= b; // some mark == some size
      bool t_ok = !(o.mark.lo == o.mark.hi && b == e && b == o.mark.lo);
      if (out ? !t_ok : !f_ok)
        violate(flt ? "C14 C15" : "C14", "is-diff",
                "isDiff gives %d: the mark is at %zu..%zu, %zu..%zu bytes are written",
                out, o.mark.lo, o.mark.hi, b, e);
    }
    ev("   -> %d", out);
  }
  auto nw = opened();
  o.own.insert(nw.begin(), nw.end());
  check_owners("isDiff");
}
void op_diff(int i) {
  Obj &o = O[i];
  if (o.mark.lo < o.n->ebase)
    return; // nobody asks for gigabytes
  ev("diff %d", i);
  size_t b = o.n->want();
  begin();
  const char *p = nullptr;
  size_t n = 0;
  int rc = APP(a_diff(i, &p, &n));
  end();
  bad_rc(rc, "diff");
  size_t e = o.n->want();
  bool flt = faulty();
  if (rc == 0) {
    std::string r(p, n);
    size_t fresh = read_errors(i, "diff");
    ev("   -> '%s'", show(r).c_str());
    count("probe.diffs");
    if (fresh) {
      if (!flt)
        violate("C15 C14", "spurious-error", "diff records an error without a reason");
      if (n)
        violate("C15", "error-and-result",
                "diff records an error and gives %zu bytes", n);
      count("probe.reported_errors");
    } else if (hard_fault())
      violate("C15", "not-recorded", "diff does not record a failure");
    else if (!o.shared && !kept(o.mark, b, e, o.n, r))
      violate(flt ? "C14 C15" : "C14", "diff",
              "diff gives %zu bytes '%s': the mark is at %zu..%zu, %zu..%zu "
              "bytes are written, expected is '%s'",
              n, show(r).c_str(), o.mark.lo, o.mark.hi, b, e,
              show(o.n->expect.substr(std::min(o.mark.lo, e) - o.n->ebase)).c_str());
  }
  APP(a_drop());
  auto nw = opened();
  o.own.insert(nw.begin(), nw.end());
  check_owners("diff");
}
void op_set_pos(int i) {
  Obj &o = O[i];
  ev("setDiffPos %d", i);
  size_t b = o.n->want();
  begin();
  int out = 0;
  int rc = APP(a_set_pos(i, &out));
  end();
  bad_rc(rc, "setDiffPos");
  size_t fresh = read_errors(i, "setDiffPos");
  if (rc == 0) {
    if (out == (fresh > 0))
      violate("C15", "set-pos-result", "setDiffPos gives %d and records %zu errors",
              out, fresh);
    if (!fresh && hard_fault())
      violate("C15", "not-recorded", "setDiffPos does not record a failure");
    if (!out && !faulty())
      violate("C15 C14", "spurious-error", "setDiffPos fails without a reason");
    if (out) {
      o.mark.lo = b;
      o.mark.hi = o.n->want();
    }
  }
  check_owners("setDiffPos");
}
// The redirected program writes more than fits an int, all of it is in the file.
void op_long_write(int i) {
  Inode *n = O[i].n;
  if (O[i].shared || n == input || n->console || n->pipe)
    return;
  for (auto &x : names) // one is enough
    if (x.second->base)
      return;
  auto at_end = [&](Ofd *o) { return o->n != n || o->append || o->off == n->size(); };
  for (auto &f : fds)
    if (!at_end(f.second))
      return;
  for (auto *c : children)
    if (!at_end(c))
      return;
  static const size_t gs[] = {(1ull << 31) + 10, (1ull << 32) + 5, (1ull << 31) - 3, 1ull << 32};
  size_t g = gs[choose(4)];
  check_content(n, "before a long write");
  ev("%zu bytes are written to %s", g, n->name.c_str());
  count("probe.long_writes");
  size_t off = n->size() + g;
  for (auto &f : fds)
    if (f.second->n == n)
      f.second->off = off;
  for (auto *c : children)
    if (c->n == n)
      c->off = off;
  n->base = n->ebase = off;
  n->data.clear();
  n->expect.clear();
}
void op_destroy(int i) {
  ev("destroy %d", i);
  begin();
  int rc = APP(a_destroy(i));
  end();
  bad_rc(rc, "destruction");
  O[i] = Obj();
  check_owners("destroy");
}
void moved_from(int i) {
  bool ex = O[i].exists;
  O[i] = Obj();
  O[i].exists = ex;
}
void read_input() {
  if (!input || !fds.count(0) || fds[0]->n != input)
    return;
  size_t n = 1 + choose(50);
  std::string b(n, 0);
  Ofd *o = fds[0];
  size_t have = o->off < o->n->data.size() ? o->n->data.size() - o->off : 0;
  size_t k = std::min(n, have);
  std::string got = o->n->data.substr(std::min(o->off, o->n->data.size()), k);
  o->off += k;
  std::string want = input->expect.substr(std::min(input_pos, input->expect.size()), n);
  ev("descriptor 0 is read: '%s'", show(got).c_str());
  if (got != want)
    violate("C13", "input", "reading descriptor 0 gives '%s' instead of '%s'",
            show(got).c_str(), show(want).c_str());
  input_pos += want.size();
  count("probe.input_reads");
}
int pick(std::function<bool(int)> f) {
  int c[NS], n = 0;
  for (int i = 0; i < NS; ++i)
    if (f(i))
      c[n++] = i;
  return n ? c[choose((u32)n)] : -1;
}
u32 rate(std::initializer_list<u32> w, std::initializer_list<u32> v) {
  return *(v.begin() + weighted(w));
}
void world_redir() {
  Guard g;
  step_cap = 40000;
  disable_preempt();
  if (!APP(a_traits()))
    violate("C16", "copyable", "a redirection can be copied");
  static const int third[] = {7, 20, 127, 128, 255, 256, 1000};
  FROM[2] = third[weighted({6, 1, 1, 1, 1, 1, 1})];
  for (int f : {0, 1, 2, FROM[2]}) {
    Inode *n = new Inode();
    n->console = true;
    n->name = "console" + std::to_string(f);
    Ofd *o = new Ofd();
    o->n = n;
    o->refs = 1;
    fds[f] = o;
    app_open.insert(f);
  }
  {
    Inode *n = new Inode();
    n->name = "fifo";
    n->pipe = true;
    names["fifo"] = n;
  }
  for (int i = 0; i < 3; ++i)
    if (flip(1, 3)) {
      Inode *n = new Inode();
      n->name = NAMES[i];
      n->data = n->expect = payload();
      names[n->name] = n;
    }
  bool flt = weighted({4, 6}) == 1;
  concurrent = weighted({3, 2}) == 1;
  if (flt) {
    f_open = rate({3, 1, 1}, {0, 4, 10});
    f_dup = rate({3, 1, 1}, {0, 4, 10});
    f_read = rate({3, 2, 2}, {0, 3, 10});
    f_short = rate({2, 2}, {0, 3});
    f_seek = rate({3, 2, 2}, {0, 3, 12});
    f_flush = rate({5, 1, 1}, {0, 4, 12});
    f_close = rate({3, 2, 1}, {0, 2, 6});
    f_write = rate({4, 1}, {0, 5});
    f_alloc = rate({4, 1}, {0, 5});
  }
  faults_on = flt;
  u32 mark = heap_mark();
  int n = (int)range(3, 40);
  for (int k = 0; k < n; ++k) {
    now += 1000000;
    auto any = [](int i) { return O[i].exists; };
    auto none = [](int i) { return !O[i].exists; };
    auto act = [](int i) { return O[i].exists && O[i].redirected; };
    auto out = [](int i) { return O[i].exists && O[i].ok && O[i].mode != 2; };
    int i, j;
    switch (weighted({12, 20, 14, 14, 9, 5, 6, 4, 4, 3, 2, 4, 3, 2, 2, 2})) {
    case 0:
      if ((i = pick(none)) >= 0)
        op_make(i, false);
      break;
    case 1:
      ev("output");
      actor();
      break;
    case 2:
      if ((i = pick(act)) >= 0)
        op_is_diff(i);
      break;
    case 3:
      if ((i = pick(out)) >= 0)
        op_diff(i);
      break;
    case 4:
      if ((i = pick(out)) >= 0)
        op_set_pos(i);
      break;
    case 5:
      if ((i = pick(out)) >= 0) {
        ev("resetDiffPos %d", i);
        APP(a_reset_pos(i));
        O[i].mark = O[i].start;
      }
      break;
    case 6:
      if ((i = pick(any)) >= 0)
        op_destroy(i);
      break;
    case 7: {
      i = pick(none), j = pick(any);
      if (i < 0 || j < 0)
        break;
      ev("move-construct %d from %d", i, j);
      begin();
      int rc = APP(a_move_make(i, j));
      end();
      bad_rc(rc, "move construction");
      if (rc == 0) {
        O[i] = O[j];
        moved_from(j);
      }
      check_owners("move construction");
      check_quiet(i, "move construction");
      check_quiet(j, "move construction");
      break;
    }
    case 8: {
      i = pick(any), j = pick(any);
      if (i < 0 || j < 0)
        break;
      ev("move-assign %d from %d", i, j);
      begin();
      int rc = APP(a_move_assign(i, j));
      end();
      bad_rc(rc, "move assignment");
      if (i != j) {
        O[i] = O[j];
        moved_from(j);
      } else
        count("probe.self_assign");
      check_owners("move assignment");
      check_quiet(i, "move assignment");
      check_quiet(j, "move assignment");
      break;
    }
    case 9:
      if ((i = pick(any)) >= 0)
        op_make(i, true);
      break;
    case 10: {
      i = pick(any), j = pick(any);
      if (i < 0 || i == j)
        break;
      ev("swap %d %d", i, j);
      begin();
      int rc = APP(a_swap(i, j));
      end();
      bad_rc(rc, "swap");
      std::swap(O[i], O[j]);
      check_owners("swap");
      check_quiet(i, "swap");
      check_quiet(j, "swap");
      break;
    }
    case 11:
      read_input();
      break;
    case 12:
      if ((i = pick(none)) >= 0) {
        ev("default-construct %d", i);
        int rc = APP(a_default(i));
        bad_rc(rc, "default construction");
        O[i].exists = true;
        check_quiet(i, "default construction");
      }
      break;
    case 13: {
      u32 f = choose(3);
      Ofd *o = fds.count(FROM[f]) ? fds[FROM[f]] : nullptr;
      if (o && !o->n->console && children.size() < 3) {
        ev("a child process inherits descriptor %d", FROM[f]);
        ++o->refs;
        children.push_back(o);
      }
      break;
    }
    case 14: {
      u32 f = choose(4);
      int fd = f == 3 ? 0 : FROM[f];
      if (!app_open.count(fd))
        break;
      ev("the application closes its descriptor %d", fd);
      app_open.erase(fd);
      drop(fds[fd]);
      fds.erase(fd);
      if (!fd)
        input = nullptr;
      break;
    }
    case 15:
      if ((i = pick(out)) >= 0) {
        op_long_write(i);
        op_is_diff(i);
        if (flip(3, 4))
          op_set_pos(i);
      }
      break;
    }
  }
  ev("faults stop");
  faults_on = concurrent = false;
  for (int i = 0; i < NS; ++i)
    if (O[i].exists && O[i].ok && O[i].mode != 2) {
      count("probe.final_checks");
      op_is_diff(i);
      op_diff(i);
      actor();
      op_diff(i);
      op_set_pos(i);
      op_is_diff(i);
      op_diff(i);
    }
  for (int i = 0; i < NS; ++i)
    if (O[i].exists)
      op_destroy(i);
  for (auto &f : fds)
    if (f.first && app_open.count(f.first))
      other_writes(f.second, "descriptor");
  check_owners("end");
  std::string d;
  if (live_since(mark, &d))
    violate("C16 C15 C17", "leak", "memory is never released: %s", d.c_str());
  end_run();
}
World worlds[] = {{"redir", world_redir}};
}
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 1); }
