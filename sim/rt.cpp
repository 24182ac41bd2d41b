// Deterministic simulation runtime (see rt.h).
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
long __real_syscall(long, ...);
int __real_pthread_create(pthread_t *, const pthread_attr_t *,
                          void *(*)(void *), void *);
int __real_clock_gettime(clockid_t, struct timespec *);
size_t __real_strlen(const char *);
void *__real_memchr(const void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
int __real___cxa_guard_acquire(u64 *);
void __real___cxa_guard_release(u64 *);
int __real_nanosleep(const struct timespec *, struct timespec *);
}

namespace rt {
__thread int in_rt = 1;
bool verbose = false;
u64 now = 0;
u64 steps = 0, step_cap = 400000;
static u64 mem_steps = 0, mem_cap = 80000000;
std::function<bool()> on_quiescent;
std::function<void()> on_step_cap;
std::function<int()> thread_create_fault;

// ---------------------------------------------------------------- results
enum { MAXCH = 1 << 18, LOGMAX = 1 << 20, MAXCNT = 256 };
struct Counter {
  char name[56];
  u64 v;
};
struct Shared {
  volatile u32 status; // 0 running, 1 ok, 2 violation, 3 harness error
  char props[128], kind[64], msg[2048];
  u64 hash, sched_hash, simtime, steps, switches;
  u32 nch, overflow;
  u32 ch[MAXCH];
  u32 ncnt;
  Counter cnt[MAXCNT];
  u32 loglen;
  char log[LOGMAX];
};
static Shared *sh;
static u64 g_seed;
static const char *g_focus = "";
static std::string g_focus_s;
u64 run_seed() { return g_seed; }
const char *focus() { return g_focus; }
bool is_focus(const char *id) { return !strcmp(g_focus, id); }

static u64 sm(u64 &s) {
  u64 z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 rng_state, pol_state;
static bool g_replay = false;
static std::vector<u32> g_seq;
static size_t g_pos = 0;
bool replaying() { return g_replay; }

static u32 record(u32 v) {
  if (sh->nch < MAXCH)
    sh->ch[sh->nch++] = v;
  else
    sh->overflow = 1;
  return v;
}
static bool next_replay(u32 n, u32 &v) {
  if (!g_replay)
    return false;
  v = g_pos < g_seq.size() ? g_seq[g_pos] % n : 0;
  ++g_pos;
  record(v);
  return true;
}
u32 choose(u32 n) {
  if (n <= 1)
    return 0;
  u32 v;
  if (next_replay(n, v))
    return v;
  return record((u32)(sm(rng_state) % n));
}
u32 weighted(std::initializer_list<u32> w) {
  u32 n = (u32)w.size(), v;
  if (n <= 1)
    return 0;
  if (next_replay(n, v)) {
    // never answer an impossible (weight 0) value
    if (*(w.begin() + v) == 0) {
      v = 0;
      sh->ch[sh->nch - 1] = 0;
    }
    return v;
  }
  u64 t = 0;
  for (u32 x : w)
    t += x;
  u64 r = t ? sm(rng_state) % t : 0;
  u32 i = 0;
  for (u32 x : w) {
    if (r < x)
      break;
    r -= x;
    ++i;
  }
  if (i >= n)
    i = 0;
  return record(i);
}
bool flip(u32 num, u32 den) {
  if (num == 0)
    return false;
  return weighted({den > num ? den - num : 0, num}) == 1;
}
u32 range(u32 lo, u32 hi) { return lo + choose(hi - lo + 1); }

// ---------------------------------------------------------------- log
static u64 hmix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
void mix(u64 v) { sh->hash = hmix(sh->hash, v); }
void interleave(u64 v) { sh->sched_hash = hmix(sh->sched_hash, v); }
static void logtext(const char *b, size_t n) {
  u64 h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i)
    h = (h ^ (u8)b[i]) * 1099511628211ull;
  mix(h);
  if (verbose && sh->loglen + n + 1 < LOGMAX) {
    memcpy(sh->log + sh->loglen, b, n);
    sh->loglen += n;
    sh->log[sh->loglen++] = '\n';
  }
}
static u64 g_logged, g_idle_ev, g_idle_rounds, g_idle_since;
void ev(const char *fmt, ...) {
  Guard g;
  ++g_logged;
  char b[600];
  int k = snprintf(b, sizeof b, "%8llu.%03llu T%d ",
                   (unsigned long long)(now / 1000000),
                   (unsigned long long)(now / 1000 % 1000), cur_id());
  va_list a;
  va_start(a, fmt);
  int m = vsnprintf(b + k, sizeof b - k, fmt, a);
  va_end(a);
  size_t n = std::min((size_t)(k + m), sizeof b - 1);
  logtext(b, n);
}
static Counter *counter(const char *name) {
  for (u32 i = 0; i < sh->ncnt; ++i)
    if (!strncmp(sh->cnt[i].name, name, sizeof sh->cnt[i].name - 1))
      return &sh->cnt[i];
  if (sh->ncnt == MAXCNT)
    return &sh->cnt[MAXCNT - 1];
  auto *c = &sh->cnt[sh->ncnt++];
  strncpy(c->name, name, sizeof c->name - 1);
  return c;
}
void count(const char *name, u64 by) { counter(name)->v += by; }
void probe_max(const char *name, u64 v) {
  auto *c = counter(name);
  if (v > c->v)
    c->v = v;
}
static void finish_stats() {
  sh->simtime = now;
  sh->steps = steps;
}
void violate(const char *props, const char *kind, const char *fmt, ...) {
  ++in_rt;
  strncpy(sh->props, props, sizeof sh->props - 1);
  strncpy(sh->kind, kind, sizeof sh->kind - 1);
  va_list a;
  va_start(a, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, a);
  va_end(a);
  char b[300];
  int n = snprintf(b, sizeof b, "VIOLATED [%s] %s: %.200s", props, kind,
                   sh->msg);
  logtext(b, std::min((size_t)n, sizeof b - 1));
  finish_stats();
  sh->status = 2;
  _exit(2);
}
void end_run() {
  ++in_rt;
  finish_stats();
  sh->status = 1;
  _exit(0);
}
[[noreturn]] static void harness_error(const char *m) {
  strncpy(sh->kind, "harness-error", sizeof sh->kind - 1);
  strncpy(sh->msg, m, sizeof sh->msg - 1);
  sh->status = 3;
  _exit(3);
}

// ---------------------------------------------------------------- threads
enum { MAXT = 640 };
static int g_nthr;
struct VClock { // entries of threads which do not exist yet are zero
  u32 c[MAXT] = {};
  VClock &operator=(const VClock &o) {
    memcpy(c, o.c, sizeof(u32) * g_nthr);
    return *this;
  }
};
struct Thr {
  int id;
  int state; // 0 runnable 1 blocked 2 finished
  pthread_t handle;
  u32 go;
  VClock vc;
  WaitQ *wq;
  u64 deadline;
  bool timedout;
  void *(*fn)(void *);
  void *arg, *ret;
  bool detached, joined;
  WaitQ joinq;
  VClock fin;
  u64 prio;
  const char *what;
  const void *waddr; // address of the object this thread waits on
  u64 blocked_at;
};
static Thr *g_thr[MAXT];
static Thr *g_cur = nullptr;
static std::multimap<std::pair<u64, u64>, std::function<void()>> *g_events;
static u64 g_evseq = 0;
static bool g_fair = false;
static u32 g_rr = 0, g_run_len = 0;
Thr *cur() { return g_cur; }
int cur_id() { return g_cur ? g_cur->id : -1; }
int thread_count() { return g_nthr; }
int live_threads() {
  int n = 0;
  for (int i = 1; i < g_nthr; ++i)
    n += g_thr[i]->state != 2;
  return n;
}
size_t pending_events() { return g_events->size(); }

// policy (unrecorded randomness: only its outcome is recorded)
static int pol_kind = 0; // 0 random walk, 1 priorities, 2 run to block
static u32 pol_switch = 4;
static u64 pol_change = 0; // PCT: next priority change step
static u32 mem_mode = 0;   // mean gap of memory preemption, 0 = none
static u64 mem_gap = 0;    // accesses until the next one
static void draw_gap() {
  if (!mem_mode) {
    mem_gap = ~0ull;
    return;
  }
  u32 v = choose(2 * mem_mode + 1);
  mem_gap = v ? v : ~0ull;
}
void configure_schedule() {
  static const u32 gaps[] = {0, 12, 60, 300, 1500};
  u32 m = weighted({30, 15, 20, 20, 15});
  mem_mode = gaps[m];
  draw_gap();
  pol_kind = sm(pol_state) % 4;
  if (pol_kind == 3)
    pol_kind = 0;
  static const u32 sw[] = {2, 3, 5, 10, 30};
  pol_switch = sw[sm(pol_state) % 5];
  for (int i = 0; i < g_nthr; ++i)
    g_thr[i]->prio = sm(pol_state);
  pol_change = 1 + sm(pol_state) % 200;
}
void disable_preempt() { mem_gap = ~0ull, mem_mode = 0; }
void set_fair(bool on) { g_fair = on; }

static void fwait(u32 *a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
    __real_syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static void fwake(u32 *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  __real_syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void park_forever() {
  static u32 never = 0;
  for (;;)
    __real_syscall(SYS_futex, &never, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr,
                   0);
}
static void switch_to(Thr *t) {
  if (t == g_cur)
    return;
  Thr *me = g_cur;
  sh->switches++;
  interleave(((u64)t->id << 8) ^ (u64)(uintptr_t)0);
  mix(0x5317ull + t->id);
  g_cur = t;
  fwake(&t->go);
  if (me->state == 2)
    park_forever();
  fwait(&me->go);
}
void at(u64 t, std::function<void()> f) {
  g_events->emplace(std::make_pair(t, g_evseq++), std::move(f));
}
static u64 next_timer() {
  u64 t = ~0ull;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i]->state == 1 && g_thr[i]->deadline < t)
      t = g_thr[i]->deadline;
  if (!g_events->empty())
    t = std::min(t, g_events->begin()->first.first);
  return t;
}
static void unqueue(Thr *t) {
  if (t->wq) {
    auto &q = t->wq->q;
    for (size_t i = 0; i < q.size(); ++i)
      if (q[i] == t) {
        q.erase(q.begin() + i);
        break;
      }
    t->wq = nullptr;
  }
}
static void fire_timers() {
  for (int i = 0; i < g_nthr; ++i) {
    Thr *t = g_thr[i];
    if (t->state == 1 && t->deadline <= now) {
      unqueue(t);
      t->state = 0;
      t->deadline = ~0ull;
      t->timedout = true;
    }
  }
}
static void step_guard() {
  if (++steps > step_cap) {
    if (on_step_cap)
      on_step_cap();
    violate("*", "livelock", "no end after %llu scheduling steps",
            (unsigned long long)steps);
  }
}
// Picks who runs next. `self` is a candidate if runnable. Returns when the
// calling thread may go on.
static void schedule(bool mem) {
  int e = errno;
  for (;;) {
    step_guard();
    now += 200;
    fire_timers();
    Thr *cand[MAXT];
    int n = 0;
    bool self = g_cur->state == 0;
    if (self)
      cand[n++] = g_cur;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i] != g_cur && g_thr[i]->state == 0)
        cand[n++] = g_thr[i];
    int nt = n;
    // ready world events
    int ne = 0;
    auto it = g_events->begin();
    for (; it != g_events->end() && it->first.first <= now && ne < 4; ++it)
      ++ne;
    u64 timer = next_timer();
    bool adv = timer != ~0ull && timer > now;
    int total = nt + ne;
    if (total == 0) {
      if (adv) {
        // threads that only wake up to look and wait again (timed waits in a
        // loop) do not keep the system busy: without any event for many
        // rounds and a long simulated time, nothing will happen any more
        if (g_idle_ev != g_logged || !g_events->empty()) {
          g_idle_ev = g_logged;
          g_idle_rounds = 0;
          g_idle_since = now;
        } else if (++g_idle_rounds > 200 &&
                   now - g_idle_since > 2000000000ull && on_quiescent) {
          g_idle_rounds = 0;
          g_idle_since = now;
          if (on_quiescent())
            continue;
        }
        now = timer;
        continue;
      }
      if (on_quiescent && on_quiescent())
        continue;
      end_run();
    }
    u32 pick = 0;
    int all = total + (adv && !g_fair ? 1 : 0);
    if (self && g_run_len > 400 && total > 1) {
      pick = 1 + (g_rr++ % (total - 1));
    } else if (g_fair) {
      if (total > 1)
        pick = (self && g_run_len < 8) ? 0 : (g_rr++ % total);
    } else if (all > 1) {
      u32 v;
      if (next_replay(all, v))
        pick = v;
      else {
        u64 r = sm(pol_state);
        u32 advw = 24; // one in advw choices advances the clock early
        if (adv && total > 0 && r % advw == 0 && (!self || (r >> 32) % 4 == 0))
          pick = total;
        else if (pol_kind == 1) {
          u64 best = 0;
          for (int i = 0; i < nt; ++i)
            if (cand[i]->prio >= best)
              best = cand[i]->prio, pick = i;
          if (ne && (nt == 0 || (r >> 8) % 6 == 0))
            pick = nt + (u32)((r >> 16) % ne);
          if (steps >= pol_change && nt) {
            cand[std::min<int>(pick, nt - 1)]->prio = (r >> 20) % 1000;
            pol_change = steps + 1 + (r >> 10) % 300;
          }
        } else if (self && !mem && pol_kind == 2 && r % 40 != 0)
          pick = 0;
        else if (self && !mem && pol_kind == 0 && (r >> 3) % pol_switch != 0)
          pick = 0;
        else if (mem && total > 1)
          pick = 1 + (u32)((r >> 7) % (total - 1));
        else
          pick = (u32)((r >> 7) % total);
        record(pick);
      }
    }
    if ((int)pick == total) { // advance the clock although work is pending
      now = timer;
      continue;
    }
    if ((int)pick >= nt) {
      auto k = g_events->begin();
      std::advance(k, pick - nt);
      auto f = std::move(k->second);
      g_events->erase(k);
      interleave(0x7000 + pick - nt);
      g_run_len = 0;
      f();
      continue;
    }
    Thr *t = cand[pick];
    if (t == g_cur) {
      ++g_run_len;
      break;
    }
    g_run_len = 0;
    switch_to(t);
    break; // we were chosen again
  }
  errno = e;
}
void yield(const char *what) {
  Guard g;
  g_cur->what = what;
  schedule(false);
}
bool block(WaitQ &w, const char *what, u64 deadline) {
  Guard g;
  Thr *me = g_cur;
  me->state = 1;
  me->wq = &w;
  w.q.push_back(me);
  me->deadline = deadline;
  me->timedout = false;
  me->what = what;
  me->blocked_at = now;
  schedule(false);
  return !me->timedout;
}
void sleep_until(u64 t, const char *what) {
  static WaitQ nobody;
  block(nobody, what, t);
}
static void unblock(Thr *t) {
  if (t->state == 1) {
    unqueue(t);
    t->state = 0;
    t->deadline = ~0ull;
  }
}
void wake_all(WaitQ &w) {
  while (!w.q.empty())
    unblock(w.q.front());
}
void wake_one(WaitQ &w) {
  if (w.q.empty())
    return;
  u32 i = w.q.size() > 1 ? choose((u32)w.q.size()) : 0;
  unblock(w.q[i]);
}

// ---------------------------------------------------------------- clocks
static void vjoin(VClock &a, const VClock &b) {
  for (int i = 0; i < g_nthr; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}
static std::unordered_map<const void *, VClock> *g_sync;
static void sync_release(const void *a) {
  vjoin((*g_sync)[a], g_cur->vc);
  g_cur->vc.c[g_cur->id]++;
}
static void sync_store(const void *a) {
  (*g_sync)[a] = g_cur->vc;
  g_cur->vc.c[g_cur->id]++;
}
static void sync_acquire(const void *a) {
  auto i = g_sync->find(a);
  if (i != g_sync->end())
    vjoin(g_cur->vc, i->second);
}
void hb_release(VC &v) {
  if (v.c.size() < MAXT)
    v.c.resize(MAXT);
  for (int i = 0; i < g_nthr; ++i)
    v.c[i] = std::max(v.c[i], g_cur->vc.c[i]);
  g_cur->vc.c[g_cur->id]++;
}
void hb_acquire(const VC &v) {
  for (int i = 0; i < g_nthr && i < (int)v.c.size(); ++i)
    g_cur->vc.c[i] = std::max(g_cur->vc.c[i], v.c[i]);
}

// ---------------------------------------------------------------- heap
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 1ull << 30;
struct Block {
  uintptr_t base;
  size_t size;
  u8 kind; // 1 new 2 new[] 3 malloc
  u8 live;
  u16 tid;
};
static uintptr_t g_brk = ARENA;
static u32 *g_gran;     // 16-byte granule -> block index (0 none)
struct Shadow {
  u32 w, r0, r1;
  u8 wm, rm0, rm1, pad;
};
static Shadow *g_shadow;
static std::vector<Block> *g_blocks;
static u64 g_live_blocks, g_live_bytes;
static u8 g_fill = 0xBE;
i64 alloc_fail_in = 0;
u64 alloc_fired = 0, alloc_seen = 0;
bool alloc_fail_sticky = false;
static i64 g_alloc_thr[MAXT + 1];
std::function<void()> on_alloc_fail;
i64 alloc_fail_here(i64 n) {
  i64 o = g_alloc_thr[cur_id()];
  g_alloc_thr[cur_id()] = n;
  return o;
}
static uintptr_t g_gbeg, g_gend; // globals watched for races
static Shadow *g_gshadow;

bool in_arena(const void *p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
HeapStats heap() {
  return {g_live_blocks, g_live_bytes, (u64)g_blocks->size()};
}
u32 heap_mark() { return (u32)g_blocks->size(); }
u64 live_since(u32 mark, std::string *d) {
  u64 n = 0;
  for (u32 i = mark; i < g_blocks->size(); ++i) {
    auto &b = (*g_blocks)[i];
    if (!b.live)
      continue;
    ++n;
    if (d && n <= 8) {
      char t[80];
      snprintf(t, sizeof t, "%s#%u(%zu bytes, thread %d)", n > 1 ? ", " : "", i,
               b.size, b.tid);
      *d += t;
    }
  }
  return n;
}
static void *arena_alloc(size_t n, u8 kind, size_t align = 16) {
  if (align < 16)
    align = 16;
  if (n > (64u << 20))
    return nullptr;
  uintptr_t p = (g_brk + align - 1) & ~(uintptr_t)(align - 1);
  size_t cap = (n + 15) & ~(size_t)15;
  if (p + cap + 64 > ARENA + ARENA_SZ)
    return nullptr;
  g_brk = p + cap + 32;
  u32 idx = (u32)g_blocks->size();
  g_blocks->push_back({p, n, kind, 1, (u8)cur_id()});
  for (size_t i = 0; i < cap; i += 16)
    g_gran[(p - ARENA + i) >> 4] = idx;
  if (!n)
    g_gran[(p - ARENA) >> 4] = idx;
  memset((void *)p, g_fill, cap);
  memset((void *)(p + n), 0xCB, cap + 16 - n); // canary
  ++g_live_blocks;
  g_live_bytes += n;
  return (void *)p;
}
static const char *kindname(u8 k) {
  return k == 1 ? "new" : k == 2 ? "new[]" : "malloc";
}
static bool of(const void *o, size_t n, uintptr_t p) {
  return p - ((uintptr_t)o & ~7ul) < n + 8;
}
static void race_report(const char *what, uintptr_t p, u32 ep, void *pc) {
  // threads may use the standard streams at the same time
  if (of(&std::cout, sizeof std::cout, p) || of(&std::cerr, sizeof std::cerr, p) ||
      of(&std::clog, sizeof std::clog, p) || of(&std::cin, sizeof std::cin, p))
    return;
  violate("*", "data-race",
          "%s by thread %d races with an earlier access by thread %d "
          "(pc=0x%lx%s)",
          what, cur_id(), ep >> 22, (unsigned long)(uintptr_t)pc,
          p - ARENA < ARENA_SZ ? ", heap object" : ", global object");
}
static inline bool hb(u32 ep) {
  return (ep & 0x3fffff) <= g_cur->vc.c[ep >> 22];
}
static inline u32 epoch() {
  return ((u32)g_cur->id << 22) | (g_cur->vc.c[g_cur->id] & 0x3fffff);
}
static inline Shadow *shadow_of(uintptr_t p) {
  if (p - ARENA < ARENA_SZ)
    return &g_shadow[(p - ARENA) >> 3];
  return &g_gshadow[(p - g_gbeg) >> 3];
}
static void race_gran(uintptr_t p, u8 mask, bool w, void *pc) {
  Shadow *s = shadow_of(p);
  u32 e = epoch();
  if (s->wm & mask) {
    if ((s->w >> 22) != (u32)g_cur->id && !hb(s->w))
      race_report(w ? "write" : "read", p, s->w, pc);
  }
  if (w) {
    if ((s->rm0 & mask) && (s->r0 >> 22) != (u32)g_cur->id && !hb(s->r0))
      race_report("write", p, s->r0, pc);
    if ((s->rm1 & mask) && (s->r1 >> 22) != (u32)g_cur->id && !hb(s->r1))
      race_report("write", p, s->r1, pc);
    if ((s->w == e))
      s->wm |= mask;
    else
      s->w = e, s->wm = mask;
  } else {
    if (s->rm0 && (s->r0 >> 22) == (u32)g_cur->id) {
      if (s->r0 == e)
        s->rm0 |= mask;
      else
        s->r0 = e, s->rm0 = mask;
    } else if (s->rm1 && (s->r1 >> 22) == (u32)g_cur->id) {
      if (s->r1 == e)
        s->rm1 |= mask;
      else
        s->r1 = e, s->rm1 = mask;
    } else if (!s->rm0)
      s->r0 = e, s->rm0 = mask;
    else {
      s->r1 = s->r0, s->rm1 = s->rm0;
      s->r0 = e, s->rm0 = mask;
    }
  }
}
static void race_range(uintptr_t p, size_t n, bool w, void *pc) {
  if (g_nthr < 2 || !n)
    return;
  uintptr_t end = p + n;
  while (p < end) {
    uintptr_t g = p & ~7ull;
    u32 lo = p - g, hi = std::min<uintptr_t>(end, g + 8) - g;
    u8 mask = (u8)((0xff << lo) & (0xff >> (8 - hi)));
    race_gran(g, mask, w, pc);
    p = g + 8;
  }
}
static void bounds(uintptr_t p, size_t n, const char *what, void *pc) {
  u32 i = g_gran[(p - ARENA) >> 4];
  if (!i) {
    violate("*", "out-of-bounds", "%s of %zu bytes outside any heap block "
            "(pc=0x%lx)", what, n, (unsigned long)(uintptr_t)pc);
  }
  auto &b = (*g_blocks)[i];
  if (!b.live)
    violate("*", "use-after-free",
            "%s of %zu bytes at offset %zu of a freed %zu-byte block (pc=0x%lx)",
            what, n, (size_t)(p - b.base), b.size,
            (unsigned long)(uintptr_t)pc);
  if (p + n > b.base + b.size)
    violate("*", "out-of-bounds",
            "%s of %zu bytes at offset %zu of a %zu-byte block (pc=0x%lx)",
            what, n, (size_t)(p - b.base), b.size,
            (unsigned long)(uintptr_t)pc);
}
void check_range(const void *p, size_t n, bool w, const char *what) {
  if (!n || (!in_arena(p) && (uintptr_t)p - g_gbeg >= g_gend - g_gbeg))
    return;
  Guard g;
  if (in_arena(p))
    bounds((uintptr_t)p, n, what, __builtin_return_address(0));
  race_range((uintptr_t)p, n, w, __builtin_return_address(0));
}
void check_bounds(const void *p, size_t n, const char *what) {
  if (!n || !in_arena(p))
    return;
  Guard g;
  bounds((uintptr_t)p, n, what, __builtin_return_address(0));
}
void spin_hint(u32 w) { g_run_len += w; }
static void arena_free(void *q, u8 kind, bool app, void *pc) {
  uintptr_t p = (uintptr_t)q;
  Guard g;
  u32 i = g_gran[(p - ARENA) >> 4];
  Block *b = i ? &(*g_blocks)[i] : nullptr;
  if (!b || b->base != p)
    violate("*", "bad-free", "freeing a pointer that is no heap block (pc=0x%lx)",
            (unsigned long)(uintptr_t)pc);
  if (!b->live)
    violate("*", "double-free", "a %zu-byte block is freed twice (pc=0x%lx)",
            b->size, (unsigned long)(uintptr_t)pc);
  if (b->kind != kind)
    violate("*", "alloc-mismatch",
            "a %zu-byte block allocated by %s is released as if by %s (pc=0x%lx)",
            b->size, kindname(b->kind), kindname(kind),
            (unsigned long)(uintptr_t)pc);
  size_t cap = (b->size + 15) & ~(size_t)15;
  for (size_t k = b->size; k < cap + 16; ++k)
    if (((u8 *)p)[k] != 0xCB)
      violate("*", "heap-overflow", "write past a %zu-byte block (pc=0x%lx)",
              b->size, (unsigned long)(uintptr_t)pc);
  for (int t = 0; t < g_nthr; ++t)
    if (g_thr[t]->state == 1 && g_thr[t]->waddr &&
        (uintptr_t)g_thr[t]->waddr - p < b->size)
      violate("*", "destroyed-while-waited",
              "thread %d frees a synchronisation object thread %d waits on",
              cur_id(), t);
  if (app)
    race_range(p, b->size, true, pc);
  b->live = 0;
  --g_live_blocks;
  g_live_bytes -= b->size;
  memset((void *)p, 0xDD, b->size);
}

// ---------------------------------------------------------------- access
static inline void mem_point(u32 w) {
  if (mem_gap <= w) {
    if (g_nthr > 1 || !g_events->empty()) {
      Guard g;
      g_cur->what = "memory access";
      count("preempt.memory");
      schedule(true);
      draw_gap();
    } else
      draw_gap();
  } else if (mem_gap != ~0ull)
    mem_gap -= w;
  if (++mem_steps > mem_cap)
    violate("*", "livelock", "no end after %llu memory accesses",
            (unsigned long long)mem_steps);
}
static inline void access(void *a, size_t n, bool w, void *pc) {
  if (__builtin_expect(in_rt > 0, 0))
    return;
  uintptr_t p = (uintptr_t)a;
  if (p - ARENA < ARENA_SZ) {
    mem_point(1);
    Guard g;
    bounds(p, n, w ? "write" : "read", pc);
    race_range(p, n, w, pc);
  } else if (p - g_gbeg < g_gend - g_gbeg) {
    mem_point(1);
    Guard g;
    race_range(p, n, w, pc);
  } else if (p < 4096) {
    Guard g;
    violate("*", "null-access", "%s through a null pointer (pc=0x%lx)",
            w ? "write" : "read", (unsigned long)(uintptr_t)pc);
  }
}
static inline void range_access(const void *a, size_t n, bool w, void *pc) {
  if (in_rt > 0 || !n)
    return;
  access(const_cast<void *>(a), n, w, pc);
}

// ---------------------------------------------------------------- sync objects
struct Mutex {
  int owner = -1, depth = 0;
  WaitQ q;
};
struct CondV {
  WaitQ q;
};
static std::unordered_map<const void *, Mutex> *g_mutex;
static std::unordered_map<const void *, CondV> *g_cond;
static std::unordered_map<const void *, WaitQ> *g_futex;

static void touch(const void *a, size_t n, const char *what) {
  // sync objects: only liveness is checked, they synchronise themselves
  if (in_arena(a))
    bounds((uintptr_t)a, n, what, __builtin_return_address(0));
}
static void lock_now(const void *m) {
  for (;;) {
    touch(m, sizeof(pthread_mutex_t), "lock of a mutex");
    auto &M = (*g_mutex)[m];
    if (M.owner < 0) {
      M.owner = cur_id();
      sync_acquire(m);
      return;
    }
    if (M.owner == cur_id())
      violate("*", "deadlock", "thread %d locks a mutex it already holds",
              cur_id());
    count("probe.mutex_contention");
    g_cur->waddr = m;
    block(M.q, "mutex");
    g_cur->waddr = nullptr;
  }
}
static void unlock_now(const void *m) {
  touch(m, sizeof(pthread_mutex_t), "unlock of a mutex");
  auto i = g_mutex->find(m);
  if (i == g_mutex->end() || i->second.owner != cur_id())
    violate("*", "bad-unlock", "thread %d unlocks a mutex it does not hold",
            cur_id());
  sync_release(m);
  i->second.owner = -1;
  if (i->second.q.q.empty())
    g_mutex->erase(i);
  else
    wake_all(i->second.q);
}
static bool g_spurious = true;
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
  Guard g;
  touch(c, sizeof *c, "wait on a condition variable");
  auto &C = (*g_cond)[c];
  unlock_now(m);
  u64 dl = deadline;
  bool spurious = false;
  if (g_spurious && !g_fair && flip(1, 24)) {
    spurious = true;
    u64 s = now + 1000 * (1 + choose(200));
    if (s < dl)
      dl = s;
    else
      spurious = false;
  }
  g_cur->waddr = c;
  bool ok = block(C.q, "condition variable", dl);
  g_cur->waddr = nullptr;
  int r = 0;
  if (!ok) {
    if (spurious)
      count("fault.spurious_wakeup");
    else
      r = ETIMEDOUT;
  }
  lock_now(m);
  return r;
}
static u64 ts2ns(const struct timespec *t) {
  return (u64)t->tv_sec * 1000000000ull + t->tv_nsec;
}
static const u64 EPOCH = 1700000000ull * 1000000000ull;
static u64 clk(clockid_t c) {
  return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? EPOCH + now : now;
}
static u64 abs2now(clockid_t c, const struct timespec *t) {
  u64 a = ts2ns(t);
  if (c == CLOCK_REALTIME)
    return a > EPOCH ? a - EPOCH : 0;
  return a;
}

static void thread_finished() {
  Thr *me = g_cur;
  me->state = 2;
  me->fin = me->vc;
  ev("thread ends");
  wake_all(me->joinq);
  schedule(false);
  park_forever();
}
static void *tramp(void *p) {
  Thr *t = (Thr *)p;
  in_rt = 1;
  fwait(&t->go);
  {
    App a;
    t->ret = t->fn(t->arg);
  }
  in_rt = 1;
  thread_finished();
  return nullptr;
}
} // namespace rt
using namespace rt;

// ---------------------------------------------------------------- wraps
#define PC __builtin_return_address(0)
extern "C" {
int __wrap_pthread_create(pthread_t *h, const pthread_attr_t *,
                          void *(*fn)(void *), void *arg) {
  Guard g;
  yield("thread create");
  if (thread_create_fault) {
    int e = thread_create_fault();
    if (e) {
      count("fault.thread_create");
      ev("pthread_create fails (%d)", e);
      alloc_fail_in = 0; // one fault at a time: reporting it may allocate
      return e;
    }
  }
  if (g_nthr >= MAXT)
    harness_error("too many threads");
  Thr *t = new Thr();
  memset((void *)&t->vc, 0, sizeof t->vc);
  t->id = g_nthr;
  t->fn = fn;
  t->arg = arg;
  t->deadline = ~0ull;
  t->prio = sm(pol_state);
  g_thr[g_nthr++] = t;
  t->vc = g_cur->vc;
  t->vc.c[t->id] = 1;
  g_cur->vc.c[g_cur->id]++;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 512 * 1024);
  if (__real_pthread_create(&t->handle, &a, tramp, t) != 0)
    harness_error("real pthread_create failed");
  pthread_attr_destroy(&a);
  *h = (pthread_t)(uintptr_t)(0x51000000ull + t->id);
  ev("thread T%d starts", t->id);
  yield("thread created");
  return 0;
}
static Thr *thr_of(pthread_t h) {
  u64 i = (u64)h - 0x51000000ull;
  if (i < (u64)g_nthr)
    return g_thr[i];
  return nullptr;
}
int __wrap_pthread_join(pthread_t h, void **ret) {
  Guard g;
  yield("join");
  Thr *t = thr_of(h);
  if (!t || t->detached || t->joined)
    violate("*", "bad-join", "joining a thread that is not joinable");
  if (t == g_cur)
    return EDEADLK;
  while (t->state != 2)
    block(t->joinq, "join");
  t->joined = true;
  vjoin(g_cur->vc, t->fin);
  if (ret)
    *ret = t->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t h) {
  Guard g;
  Thr *t = thr_of(h);
  if (!t || t->detached || t->joined)
    violate("*", "bad-detach", "detaching a thread that is not joinable");
  t->detached = true;
  return 0;
}
pthread_t __wrap_pthread_self() {
  return (pthread_t)(uintptr_t)(0x51000000ull + cur_id());
}
void __wrap_pthread_exit(void *r) {
  in_rt = 1;
  g_cur->ret = r;
  thread_finished();
  __builtin_unreachable();
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
  memset((void *)m, 0, sizeof *m);
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
  Guard g;
  auto i = g_mutex->find(m);
  if (i != g_mutex->end() && i->second.owner >= 0)
    violate("*", "bad-destroy", "a locked mutex is destroyed");
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  Guard g;
  if (!g_cur)
    return 0;
  yield("mutex lock");
  lock_now(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  Guard g;
  yield("mutex trylock");
  touch(m, sizeof *m, "trylock of a mutex");
  auto &M = (*g_mutex)[m];
  if (M.owner >= 0)
    return EBUSY;
  M.owner = cur_id();
  sync_acquire(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  Guard g;
  if (!g_cur)
    return 0;
  unlock_now(m);
  yield("mutex unlocked");
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset((void *)c, 0, sizeof *c);
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
  Guard g;
  auto i = g_cond->find(c);
  if (i != g_cond->end() && !i->second.q.q.empty())
    violate("*", "destroyed-while-waited",
            "a condition variable is destroyed while a thread waits on it");
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  Guard g;
  yield("cond wait");
  return cond_wait(c, m, ~0ull);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  const struct timespec *t) {
  Guard g;
  yield("cond timedwait");
  return cond_wait(c, m, abs2now(CLOCK_REALTIME, t));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                                  clockid_t k, const struct timespec *t) {
  Guard g;
  yield("cond clockwait");
  return cond_wait(c, m, abs2now(k, t));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  Guard g;
  yield("cond signal");
  touch(c, sizeof *c, "notification of a condition variable");
  auto i = g_cond->find(c);
  if (i != g_cond->end())
    wake_one(i->second.q);
  yield("cond signalled");
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  Guard g;
  yield("cond broadcast");
  touch(c, sizeof *c, "notification of a condition variable");
  auto i = g_cond->find(c);
  if (i != g_cond->end())
    wake_all(i->second.q);
  yield("cond broadcasted");
  return 0;
}
// pthread_rwlock (std::shared_mutex): modelled as an exclusive lock
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  return __wrap_pthread_mutex_lock((pthread_mutex_t *)m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  return __wrap_pthread_mutex_lock((pthread_mutex_t *)m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  return __wrap_pthread_mutex_unlock((pthread_mutex_t *)m);
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  Guard g;
  if (!g_cur) {
    if (*o == 0) {
      *o = 2;
      f();
    }
    return 0;
  }
  yield("once");
  touch(o, sizeof *o, "call_once");
  while (*o == 1)
    block((*g_futex)[o], "once");
  if (*o == 2) {
    sync_acquire(o);
    return 0;
  }
  *o = 1;
  try {
    App a;
    f();
  } catch (...) {
    *o = 0;
    wake_all((*g_futex)[o]);
    throw;
  }
  *o = 2;
  sync_release(o);
  wake_all((*g_futex)[o]);
  return 0;
}
long __wrap_syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a[6];
  for (int i = 0; i < 6; ++i)
    a[i] = va_arg(v, long);
  va_end(v);
  if (!g_cur || (in_rt > 0 && n != SYS_futex))
    return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  Guard g;
  switch (n) {
  case SYS_futex: {
    u32 *addr = (u32 *)a[0];
    int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      yield("futex wait");
      touch(addr, 4, "futex wait");
      if (*addr != (u32)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      u64 dl = ~0ull;
      if (a[3]) {
        auto *t = (struct timespec *)a[3];
        if (op == FUTEX_WAIT)
          dl = now + ts2ns(t);
        else
          dl = abs2now((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME
                                                     : CLOCK_MONOTONIC,
                       t);
      }
      g_cur->waddr = addr;
      bool ok = block((*g_futex)[addr], "futex", dl);
      g_cur->waddr = nullptr;
      if (!ok) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      auto i = g_futex->find(addr);
      long woke = 0;
      if (i != g_futex->end())
        while (woke < (int)a[2] && !i->second.q.empty())
          wake_one(i->second), ++woke;
      yield("futex wake");
      return woke;
    }
    harness_error("unsupported futex operation");
  }
  case SYS_clock_gettime: {
    auto *t = (struct timespec *)a[1];
    u64 x = clk((clockid_t)a[0]);
    t->tv_sec = x / 1000000000ull;
    t->tv_nsec = x % 1000000000ull;
    return 0;
  }
  case SYS_gettid:
    return 1000 + cur_id();
  default:
    return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  }
}
int __wrap___cxa_guard_acquire(u64 *o) {
  int r = __real___cxa_guard_acquire(o);
  if (!r && g_cur) {
    Guard g;
    sync_acquire(o);
  }
  return r;
}
void __wrap___cxa_guard_release(u64 *o) {
  if (g_cur) {
    Guard g;
    sync_release(o);
  }
  __real___cxa_guard_release(o);
}
// time
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!g_cur)
    return __real_clock_gettime(c, t);
  u64 x = clk(c);
  t->tv_sec = x / 1000000000ull;
  t->tv_nsec = x % 1000000000ull;
  return 0;
}
int __wrap_gettimeofday(struct timeval *t, void *) {
  u64 x = clk(CLOCK_REALTIME);
  t->tv_sec = x / 1000000000ull;
  t->tv_usec = x % 1000000000ull / 1000;
  return 0;
}
time_t __wrap_time(time_t *t) {
  time_t x = clk(CLOCK_REALTIME) / 1000000000ull;
  if (t)
    *t = x;
  return x;
}
static int sim_sleep(u64 d) {
  Guard g;
  count("sim.sleeps");
  sleep_until(now + d, "sleep");
  return 0;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *) {
  return sim_sleep(ts2ns(t));
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t,
                           struct timespec *) {
  if (fl & TIMER_ABSTIME) {
    u64 a = abs2now(c, t);
    return sim_sleep(a > now ? a - now : 0);
  }
  return sim_sleep(ts2ns(t));
}
int __wrap_usleep(useconds_t u) { return sim_sleep((u64)u * 1000); }
unsigned __wrap_sleep(unsigned s) { return sim_sleep((u64)s * 1000000000ull); }
int __wrap_sched_yield() {
  Guard g;
  g_run_len += 50;
  yield("sched_yield");
  return 0;
}
// failures
void __wrap___assert_fail(const char *e, const char *, unsigned,
                          const char *) {
  violate("*", "assertion", "assertion failed: %s", e);
}
void __wrap_abort() {
  violate("*", "abort", "the process aborts (uncaught exception, terminate or "
                        "abort) on thread %d", cur_id());
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
  if (g_cur && in_rt == 0)
    violate("*", "exit", "the code under test ends the process (%d)", c);
  if (!g_cur)
    __real_exit(c);
  _exit(c);
}
void __wrap__ZSt9terminatev() {
  violate("*", "terminate", "std::terminate is called on thread %d", cur_id());
}

// allocation
static bool want_fail() {
  if (in_rt > 0)
    return false;
  ++alloc_seen;
  if (alloc_fail_in > 0 && --alloc_fail_in == 0) {
    ++alloc_fired;
    count("fault.alloc");
    if (alloc_fail_sticky)
      alloc_fail_in = 1;
    if (on_alloc_fail) {
      Guard g;
      on_alloc_fail();
    }
    return true;
  }
  i64 &t = g_alloc_thr[cur_id()];
  if (t > 0 && --t == 0) {
    ++alloc_fired;
    Guard g;
    count("fault.alloc");
    if (on_alloc_fail)
      on_alloc_fail();
    return true;
  }
  return false;
}
static void *do_new(size_t n, u8 kind, size_t al, bool nothrow) {
  if (in_rt > 0 || !g_cur)
    return __real_malloc(n ? n : 1);
  if (want_fail()) {
    if (nothrow)
      return nullptr;
    Guard g;
    ev("allocation of %zu bytes fails", n);
    throw std::bad_alloc();
  }
  Guard g;
  void *p = arena_alloc(n, kind, al);
  if (!p) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  return p;
}
static void do_delete(void *p, u8 kind, void *pc) {
  if (!p)
    return;
  if (in_arena(p)) {
    arena_free(p, kind, in_rt == 0, pc);
    return;
  }
  if (in_rt == 0 && g_cur) {
    Guard g;
    violate("*", "bad-free",
            "freeing a pointer the code under test never allocated (pc=0x%lx)",
            (unsigned long)(uintptr_t)pc);
  }
  __real_free(p);
}
}
// C++ operators (all kinds)
void *operator new(size_t n) { return do_new(n, 1, 16, false); }
void *operator new[](size_t n) { return do_new(n, 2, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return do_new(n, 1, 16, true);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return do_new(n, 2, 16, true);
}
void *operator new(size_t n, std::align_val_t a) {
  return do_new(n, 1, (size_t)a, false);
}
void *operator new[](size_t n, std::align_val_t a) {
  return do_new(n, 2, (size_t)a, false);
}
void operator delete(void *p) noexcept { do_delete(p, 1, PC); }
void operator delete[](void *p) noexcept { do_delete(p, 2, PC); }
void operator delete(void *p, size_t) noexcept { do_delete(p, 1, PC); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, 2, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept {
  do_delete(p, 1, PC);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
  do_delete(p, 2, PC);
}
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, 1, PC); }
void operator delete[](void *p, std::align_val_t) noexcept {
  do_delete(p, 2, PC);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept {
  do_delete(p, 1, PC);
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept {
  do_delete(p, 2, PC);
}
extern "C" {
void *__wrap_malloc(size_t n) {
  if (in_rt > 0 || !g_cur)
    return __real_malloc(n);
  Guard g;
  return arena_alloc(n, 3);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (in_rt > 0 || !g_cur)
    return __real_calloc(a, b);
  Guard g;
  void *p = arena_alloc(a * b, 3);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void __wrap_free(void *p) {
  if (!p)
    return;
  if (in_arena(p))
    arena_free(p, 3, in_rt == 0, PC);
  else
    __real_free(p); // may come from libc itself (strdup, getline, ...)
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p)
    return __wrap_malloc(n);
  if (!in_arena(p))
    return __real_realloc(p, n);
  Guard g;
  auto &b = (*g_blocks)[g_gran[((uintptr_t)p - ARENA) >> 4]];
  size_t old = b.size;
  void *q = arena_alloc(n, 3);
  if (q) {
    memcpy(q, p, std::min(old, n));
    arena_free(p, 3, true, PC);
  }
  return q;
}
// C string functions called by the code under test: checked reads
size_t __wrap_strlen(const char *s) {
  if (in_rt == 0 && in_arena(s)) {
    Guard g;
    size_t i = 0;
    for (;; ++i) {
      bounds((uintptr_t)(s + i), 1, "strlen", PC);
      if (!s[i])
        break;
    }
    race_range((uintptr_t)s, i + 1, false, PC);
    return i;
  }
  size_t n = __real_strlen(s);
  range_access(s, n + 1, false, PC);
  return n;
}
void *__wrap_memchr(const void *s, int c, size_t n) {
  void *r = __real_memchr(s, c, n);
  if (in_rt == 0 && in_arena(s))
    range_access(s, r ? (char *)r - (char *)s + 1 : n, false, PC);
  return r;
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  range_access(a, n, false, PC);
  range_access(b, n, false, PC);
  return __real_memcmp(a, b, n);
}

// ---------------------------------------------------------------- tsan hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n)                                                                 \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }                    \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }                    \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }          \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }          \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }           \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }           \
  void __tsan_read_write##n(void *p) {                                         \
    access(p, n, false, PC);                                                   \
    access(p, n, true, PC);                                                    \
  }                                                                            \
  void __tsan_unaligned_read_write##n(void *p) {                               \
    access(p, n, false, PC);                                                   \
    access(p, n, true, PC);                                                    \
  }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { range_access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { range_access(p, n, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (in_rt > 0)
    return;
  if (in_arena(p) && g_gran[((uintptr_t)p - ARENA) >> 4] && *p == v) {
    Guard g;
    bounds((uintptr_t)p, 8, "write", PC);
    return;
  }
  access(p, 8, true, PC);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  range_access(s, n, false, PC);
  range_access(d, n, true, PC);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  range_access(s, n, false, PC);
  range_access(d, n, true, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  range_access(d, n, true, PC);
  return memset(d, c, n);
}
static bool is_acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static bool is_rel(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
         mo == __ATOMIC_SEQ_CST;
}
static inline void apre(const volatile void *p, size_t n) {
  if (in_rt > 0)
    return;
  mem_point(4);
  Guard g;
  touch((const void *)p, n, "atomic access");
}
static inline void aacq(const volatile void *p, int mo) {
  if (in_rt == 0 && is_acq(mo)) {
    Guard g;
    sync_acquire((const void *)p);
  }
}
static inline void arel(const volatile void *p, int mo) {
  if (in_rt == 0 && is_rel(mo)) {
    Guard g;
    sync_release((const void *)p);
  }
}
#define ATOM(N, T)                                                             \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) {                     \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) {                  \
    apre(p, sizeof(T));                                                        \
    if (in_rt == 0 && is_rel(mo)) {                                            \
      Guard g;                                                                 \
      sync_store((const void *)p);                                             \
    }                                                                          \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) {                  \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) {                 \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) {                 \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) {                 \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) {                  \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) {                 \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) {                \
    apre(p, sizeof(T));                                                        \
    aacq(p, mo);                                                               \
    arel(p, mo);                                                               \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v,     \
                                                 int mo, int fmo) {            \
    apre(p, sizeof(T));                                                        \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,    \
                                          __ATOMIC_SEQ_CST);                   \
    aacq(p, ok ? mo : fmo);                                                    \
    if (ok)                                                                    \
      arel(p, mo);                                                             \
    return ok;                                                                 \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v,       \
                                               int mo, int fmo) {              \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);       \
  }                                                                            \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo,   \
                                            int fmo) {                         \
    __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);             \
    return e;                                                                  \
  }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int) {
  if (in_rt > 0)
    return;
  Guard g;
  static char fence;
  sync_acquire(&fence);
  sync_release(&fence);
}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- crashes
static void on_signal(int s, siginfo_t *si, void *uc) {
  u64 pc = 0;
#ifdef __x86_64__
  pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  bool rt = in_rt > 0;
  const char *n = s == SIGSEGV ? "SIGSEGV"
                  : s == SIGILL ? "SIGILL"
                  : s == SIGFPE ? "SIGFPE"
                  : s == SIGBUS ? "SIGBUS"
                  : s == SIGXCPU ? "hang"
                                 : "SIGABRT";
  if (s == SIGXCPU)
    violate("*", "hang", "the run never reaches another scheduling point "
                         "(CPU limit)");
  violate("*", "crash",
          s == SIGILL ? "undefined behaviour trapped (%s)%s pc=0x%llx"
                      : "%s%s pc=0x%llx",
          n, rt ? " inside a simulated call" : "", (unsigned long long)pc);
}

// ---------------------------------------------------------------- worker
extern "C" char __data_start[] __attribute__((weak)), _end[];
namespace rt {
static void *map_at(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     (a ? MAP_FIXED_NOREPLACE : 0),
                 -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return p;
}
static void init_memory() {
  map_at(ARENA, ARENA_SZ);
  g_gran = (u32 *)map_at(0, ARENA_SZ / 16 * 4);
  g_shadow = (Shadow *)map_at(0, ARENA_SZ / 8 * sizeof(Shadow));
  if (getenv("SIM_NODE")) // in a shared library of another program
    return;
  g_gbeg = (uintptr_t)__data_start & ~7ul;
  g_gend = (uintptr_t)_end;
  g_gshadow = (Shadow *)map_at(0, ((g_gend - g_gbeg) / 8 + 2) * sizeof(Shadow));
}
static void start_thread0() {
  Thr *t = new Thr();
  memset((void *)&t->vc, 0, sizeof t->vc);
  t->id = 0;
  t->deadline = ~0ull;
  t->vc.c[0] = 1;
  g_thr[0] = t;
  g_nthr = 1;
  g_cur = t;
}
static void child(World &w, u64 seed) {
  g_seed = seed;
  rng_state = seed;
  pol_state = seed * 0x9E3779B97F4A7C15ull + 77;
  struct rlimit rl = {15, 20};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit rc = {0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  alarm(90);
  stack_t ss;
  ss.ss_sp = __real_malloc(65536);
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGABRT, SIGXCPU})
    sigaction(s, &sa, nullptr);
  g_events = new std::multimap<std::pair<u64, u64>, std::function<void()>>();
  g_sync = new std::unordered_map<const void *, VClock>();
  g_mutex = new std::unordered_map<const void *, Mutex>();
  g_cond = new std::unordered_map<const void *, CondV>();
  g_futex = new std::unordered_map<const void *, WaitQ>();
  g_blocks = new std::vector<Block>();
  g_blocks->reserve(4096);
  g_blocks->push_back({0, 0, 0, 0, 0});
  start_thread0();
  g_fill = (u8)(seed >> 56) | 1;
  // Uninitialised memory differs from run to run but not from replay to
  // replay of the same choices, so derive it from a recorded choice.
  static const u8 fills[] = {0xBE, 0xFF, 0x01, 0x7F, 0x5A, 0x00};
  g_fill = fills[choose(6)];
  w.fn();
  end_run();
}
struct Outcome {
  u32 status;
  std::string props, kind, msg;
  u64 hash, sched;
  std::vector<u32> ch;
};
static Outcome run_once(World &w, u64 seed, const std::vector<u32> *seq,
                        int retries = 2) {
  sh->status = 0;
  memset(sh->props, 0, sizeof sh->props);
  memset(sh->kind, 0, sizeof sh->kind);
  memset(sh->msg, 0, sizeof sh->msg);
  sh->hash = 0x1234567;
  sh->sched_hash = 0x89abcdef;
  sh->simtime = sh->steps = sh->switches = 0;
  sh->nch = sh->overflow = 0;
  sh->loglen = 0;
  g_replay = seq != nullptr;
  if (seq)
    g_seq = *seq;
  g_pos = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) {
    perror("fork");
    exit(3);
  }
  if (p == 0)
    child(w, seed);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (sh->status == 0 && retries && WIFSIGNALED(st) &&
      (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
    return run_once(w, seed, seq, retries - 1); // the machine was too busy
  if (sh->status == 0) {
    // ended without reporting: killed
    sh->status = 3;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV) {
      // a stack overflow kills the handler as well
      sh->status = 2;
      strcpy(sh->props, "*");
      strcpy(sh->kind, "crash");
      strcpy(sh->msg, "the process is killed by SIGSEGV");
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      sh->status = 2;
      strcpy(sh->props, "*");
      strcpy(sh->kind, "hang");
      strcpy(sh->msg, "killed by the CPU limit");
    } else
      snprintf(sh->msg, sizeof sh->msg, "run ended abnormally (status 0x%x)",
               st);
  }
  Outcome o;
  o.status = sh->status;
  o.props = sh->props;
  o.kind = sh->kind;
  o.msg = sh->msg;
  o.hash = sh->hash;
  o.sched = sh->sched_hash;
  o.ch.assign(sh->ch, sh->ch + sh->nch);
  return o;
}
static bool matters(const Outcome &o) {
  if (o.status != 2)
    return false;
  if (!*g_focus)
    return true;
  if (o.props == "*")
    return true;
  std::string s = " " + o.props + " ", f = std::string(" ") + g_focus + " ";
  return s.find(f) != std::string::npos;
}
static double wall() {
  struct timespec t;
  __real_clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void json_str(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}
static void save_choices(const std::string &path, const Outcome &o, u64 seed) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) {
    perror(path.c_str());
    exit(3);
  }
  fprintf(f, "seed %llu\nhash %016llx\nkind %s\nprops %s\nchoices %zu\n",
          (unsigned long long)seed, (unsigned long long)o.hash, o.kind.c_str(),
          o.props.c_str(), o.ch.size());
  for (size_t i = 0; i < o.ch.size(); ++i)
    fprintf(f, "%u%c", o.ch[i], i % 32 == 31 ? '\n' : ' ');
  fprintf(f, "\n");
  fclose(f);
}
static bool load_choices(const char *path, std::vector<u32> &ch, u64 &seed) {
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  char key[64];
  size_t n = 0;
  seed = 0;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "%63s", key) != 1)
      continue;
    if (!strcmp(key, "seed"))
      seed = strtoull(line + 5, 0, 10);
    else if (!strcmp(key, "choices")) {
      n = strtoull(line + 8, 0, 10);
      break;
    }
  }
  ch.clear();
  for (size_t i = 0; i < n; ++i) {
    unsigned v;
    if (fscanf(f, "%u", &v) != 1)
      break;
    ch.push_back(v);
  }
  fclose(f);
  return ch.size() == n;
}
static void print_outcome(const Outcome &o) {
  printf("{\"status\": %u, \"hash\": \"%016llx\", \"choices\": %zu, "
         "\"steps\": %llu, \"simtime_ns\": %llu, \"props\": ",
         o.status, (unsigned long long)o.hash, o.ch.size(),
         (unsigned long long)sh->steps, (unsigned long long)sh->simtime);
  json_str(stdout, o.props);
  printf(", \"kind\": ");
  json_str(stdout, o.kind);
  printf(", \"msg\": ");
  json_str(stdout, o.msg);
  printf("}\n");
}
static void trim(std::vector<u32> &v) {
  while (!v.empty() && v.back() == 0)
    v.pop_back();
}
static std::vector<u32> shrink(World &w, u64 seed, Outcome best, double limit,
                               u64 &tries) {
  double t0 = wall();
  std::string kind = best.kind;
  auto good = [&](std::vector<u32> c, Outcome &o) {
    ++tries;
    o = run_once(w, seed, &c);
    return matters(o) && o.kind == kind;
  };
  auto better = [](const std::vector<u32> &a, const std::vector<u32> &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  };
  std::vector<u32> cur = best.ch;
  trim(cur);
  auto accept = [&](std::vector<u32> c) {
    trim(c);
    if (!better(c, cur))
      return false;
    Outcome o;
    if (!good(c, o))
      return false;
    auto r = o.ch;
    trim(r);
    cur = better(r, c) ? r : c;
    return true;
  };
  bool progress = true;
  while (progress && wall() - t0 < limit) {
    progress = false;
    // drop the tail
    for (size_t cut = cur.size() / 2; cut >= 1 && wall() - t0 < limit;
         cut /= 2) {
      while (cur.size() >= cut && cut) {
        std::vector<u32> c(cur.begin(), cur.end() - cut);
        if (!accept(c))
          break;
        progress = true;
      }
    }
    // delete blocks
    for (size_t sz = std::max<size_t>(1, cur.size() / 4); sz >= 1; sz /= 2) {
      for (size_t i = 0; i + sz <= cur.size() && wall() - t0 < limit;) {
        std::vector<u32> c = cur;
        c.erase(c.begin() + i, c.begin() + i + sz);
        if (accept(c))
          progress = true;
        else
          i += sz;
      }
      if (sz == 1)
        break;
    }
    // zero blocks
    for (size_t sz = 32; sz >= 1; sz /= 2) {
      for (size_t i = 0; i < cur.size() && wall() - t0 < limit; i += sz) {
        std::vector<u32> c = cur;
        bool any = false;
        for (size_t k = i; k < std::min(i + sz, c.size()); ++k)
          any |= c[k] != 0, c[k] = 0;
        if (any && accept(c))
          progress = true;
      }
      if (sz == 1)
        break;
    }
    // lower values
    for (size_t i = 0; i < cur.size() && wall() - t0 < limit; ++i) {
      for (u32 d : {2u, 1u}) {
        while (i < cur.size() && cur[i] > 1) {
          std::vector<u32> c = cur;
          c[i] = d == 2 ? c[i] / 2 : c[i] - 1;
          if (!accept(c))
            break;
          progress = true;
          if (wall() - t0 > limit)
            break;
        }
      }
    }
  }
  return cur;
}
int main_entry(int argc, char **argv, World *worlds, int nw) {
  // addresses must not differ between runs
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) &&
        personality(p | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2)
    a[argv[i] + 2] = argv[i + 1];
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  init_memory();
  World *w = &worlds[0];
  for (int i = 0; i < nw; ++i)
    if (a["world"] == worlds[i].name)
      w = &worlds[i];
  g_focus_s = a["focus"];
  g_focus = g_focus_s.c_str();
  if (a.count("cpu")) {
    cpu_set_t s;
    CPU_ZERO(&s);
    CPU_SET(atoi(a["cpu"].c_str()), &s);
    sched_setaffinity(0, sizeof s, &s);
  }
  std::string mode = a["mode"];
  u64 base = strtoull(a["seed"].c_str(), 0, 10);
  auto seed_of = [&](u64 i) {
    u64 s = base * 0x2545F4914F6CDD1Dull + i * 0x9E3779B97F4A7C15ull;
    for (const char *c = w->name; *c; ++c)
      s = s * 131 + (u8)*c;
    return sm(s);
  };
  if (mode == "replay") {
    std::vector<u32> ch;
    u64 seed;
    if (!load_choices(a["file"].c_str(), ch, seed)) {
      fprintf(stderr, "cannot read %s\n", a["file"].c_str());
      return 3;
    }
    verbose = true;
    Outcome o = run_once(*w, seed, &ch);
    if (a.count("log")) {
      FILE *f = fopen(a["log"].c_str(), "w");
      fwrite(sh->log, 1, sh->loglen, f);
      fclose(f);
    }
    print_outcome(o);
    return matters(o) ? 1 : o.status == 1 || o.status == 2 ? 0 : 3;
  }
  if (mode == "one") {
    verbose = true;
    u64 i = strtoull(a["index"].c_str(), 0, 10);
    Outcome o = run_once(*w, seed_of(i), nullptr);
    fwrite(sh->log, 1, sh->loglen, stdout);
    print_outcome(o);
    if (a.count("save"))
      save_choices(a["save"], o, seed_of(i));
    return 0;
  }
  if (mode == "shrink") {
    std::vector<u32> ch;
    u64 seed, tries = 0;
    if (!load_choices(a["file"].c_str(), ch, seed))
      return 3;
    // same choices twice must give the same run
    Outcome o1 = run_once(*w, seed, &ch), o2 = run_once(*w, seed, &ch);
    if (!matters(o1) || o1.hash != o2.hash || o1.kind != o2.kind) {
      fprintf(stderr, "not reproducible: %s/%s %016llx/%016llx\n",
              o1.kind.c_str(), o2.kind.c_str(), (unsigned long long)o1.hash,
              (unsigned long long)o2.hash);
      return 4;
    }
    size_t before = o1.ch.size();
    auto c = shrink(*w, seed, o1, atof(a["time"].c_str()), tries);
    Outcome o = run_once(*w, seed, &c);
    if (!matters(o) || o.kind != o1.kind)
      return 4;
    o.ch = c;
    save_choices(a["out"], o, seed);
    printf("{\"before\": %zu, \"after\": %zu, \"tries\": %llu}\n", before,
           c.size(), (unsigned long long)tries);
    return 0;
  }
  // explore
  u64 from = strtoull(a["from"].c_str(), 0, 10),
      to = strtoull(a["to"].c_str(), 0, 10);
  u64 stride = a.count("stride") ? strtoull(a["stride"].c_str(), 0, 10) : 1;
  double limit = a.count("time") ? atof(a["time"].c_str()) : 1e9;
  u64 check_every = a.count("twice") ? strtoull(a["twice"].c_str(), 0, 10) : 0;
  double t0 = wall();
  u64 runs = 0, simns = 0, tsteps = 0, tsw = 0, nviol = 0, nforeign = 0,
      twice = 0, mism = 0, nerr = 0, nchoices = 0;
  std::set<u64> scheds, hashes;
  std::string sample, errmsg, hashfile = a["hashes"];
  FILE *hf = hashfile.empty() ? nullptr : fopen(hashfile.c_str(), "w");
  bool keep = a.count("keep");
  std::map<std::string, u64> kinds;
  std::vector<Outcome> vs;
  u64 vseed = 0, vidx = 0;
  for (u64 i = from; i < to && wall() - t0 < limit; i += stride) {
    Outcome o = run_once(*w, seed_of(i), nullptr);
    ++runs;
    simns += sh->simtime;
    tsteps += sh->steps;
    tsw += sh->switches;
    nchoices += o.ch.size();
    scheds.insert(o.sched);
    hashes.insert(o.hash);
    if (hf)
      fprintf(hf, "%llu %016llx %016llx %u %llu %zu\n", (unsigned long long)i,
              (unsigned long long)o.hash, (unsigned long long)o.sched, o.status,
              (unsigned long long)sh->switches,
              o.ch.size() - (size_t)std::count(o.ch.begin(), o.ch.end(), 0u));
    if (o.status == 3) {
      ++nerr;
      errmsg = o.msg;
      break;
    }
    if (o.status == 2) {
      kinds[o.props + " " + o.kind]++;
      if (matters(o)) {
        ++nviol;
        if (vs.empty()) {
          vs.push_back(o);
          vseed = seed_of(i);
          vidx = i;
        }
        if (!keep)
          break;
      } else
        ++nforeign;
    }
    if (check_every && i % check_every == 0) {
      ++twice;
      Outcome o2 = run_once(*w, seed_of(i), nullptr);
      Outcome o3 = run_once(*w, seed_of(i), &o.ch);
      if (o2.hash != o.hash || o3.hash != o.hash || o2.ch != o.ch) {
        ++mism;
        errmsg = "run not deterministic: index " + std::to_string(i);
      }
    }
  }
  if (hf)
    fclose(hf);
  FILE *f = a.count("out") ? fopen(a["out"].c_str(), "w") : stdout;
  fprintf(f,
          "{\"runs\": %llu, \"wall\": %.3f, \"sim_ns\": %llu, \"steps\": %llu, "
          "\"switches\": %llu, \"choices\": %llu, \"violations\": %llu, "
          "\"foreign\": %llu, \"errors\": %llu, \"twice\": %llu, "
          "\"nondeterministic\": %llu, \"error\": ",
          (unsigned long long)runs, wall() - t0, (unsigned long long)simns,
          (unsigned long long)tsteps, (unsigned long long)tsw,
          (unsigned long long)nchoices, (unsigned long long)nviol,
          (unsigned long long)nforeign, (unsigned long long)nerr,
          (unsigned long long)twice, (unsigned long long)mism);
  json_str(f, errmsg);
  fprintf(f, ", \"counters\": {");
  for (u32 i = 0; i < sh->ncnt; ++i)
    fprintf(f, "%s\"%s\": %llu", i ? ", " : "", sh->cnt[i].name,
            (unsigned long long)sh->cnt[i].v);
  fprintf(f, "}, \"kinds\": {");
  bool first = true;
  for (auto &k : kinds) {
    fprintf(f, "%s", first ? "" : ", ");
    json_str(f, k.first);
    fprintf(f, ": %llu", (unsigned long long)k.second);
    first = false;
  }
  fprintf(f, "}");
  if (!vs.empty()) {
    fprintf(f, ", \"violation\": {\"index\": %llu, \"seed\": \"%llu\", \"kind\": ",
            (unsigned long long)vidx, (unsigned long long)vseed);
    json_str(f, vs[0].kind);
    fprintf(f, ", \"props\": ");
    json_str(f, vs[0].props);
    fprintf(f, ", \"msg\": ");
    json_str(f, vs[0].msg);
    fprintf(f, "}");
    if (a.count("save"))
      save_choices(a["save"], vs[0], vseed);
  }
  fprintf(f, "}\n");
  if (f != stdout)
    fclose(f);
  return nerr || mism ? 3 : nviol ? 1 : 0;
}
}
