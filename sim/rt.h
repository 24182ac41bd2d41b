// Deterministic simulation runtime: choices, scheduler, clock, heap, races.
// Everything here is uninstrumented harness code that runs while the calling
// thread holds the (single) run token, so it needs no locking of its own.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

namespace rt {
// ---- mode ------------------------------------------------------------
extern __thread int in_rt; // >0: harness code (no hooks, real allocator)
struct Guard {             // harness entered from application code
  Guard() { ++in_rt; }
  ~Guard() { --in_rt; }
};
struct App { // application code entered from harness code
  int saved;
  App() : saved(in_rt) { in_rt = 0; }
  ~App() { in_rt = saved; }
};

// ---- choices ---------------------------------------------------------
// Every decision of a run comes from here. 0 is always the simplest answer
// (no fault, continue the current thread, shortest input).
u32 choose(u32 n);
u32 weighted(std::initializer_list<u32> w); // w[i] = weight of answer i
bool flip(u32 num, u32 den);                // true = the unusual answer
u32 range(u32 lo, u32 hi);                  // inclusive, 0 -> lo
bool replaying();

// ---- log / statistics ---------------------------------------------------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(u64 v); // mixes into the run's hash without a log line
void count(const char *name, u64 by = 1);
void probe_max(const char *name, u64 v);
void interleave(u64 v); // mixes into the schedule signature
extern bool verbose;

// ---- violations ---------------------------------------------------------
// props: space separated property ids or "*" for every property of the world
[[noreturn]] void violate(const char *props, const char *kind, const char *fmt,
                          ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void end_run();
// When set, a violation is "soft": used by the shrinker only.
const char *focus();
bool is_focus(const char *id);

// ---- time ------------------------------------------------------------
extern u64 now; // nanoseconds of simulated time
void at(u64 t, std::function<void()> f); // world event
inline void after(u64 d, std::function<void()> f) { at(now + d, std::move(f)); }
size_t pending_events();

// ---- threads -----------------------------------------------------------
struct Thr;
struct WaitQ {
  std::vector<Thr *> q;
};
Thr *cur();
int cur_id();
int thread_count();
int live_threads(); // started and not finished, the main thread excluded
// Scheduling point.
void yield(const char *what);
// Block the current thread until woken; false on time out.
bool block(WaitQ &w, const char *what, u64 deadline = ~0ull);
void wake_all(WaitQ &w);
void wake_one(WaitQ &w);
void sleep_until(u64 t, const char *what);
// Called when nothing can run any more; true if it made something runnable.
extern std::function<bool()> on_quiescent;
// Called whenever the step cap is hit; must not return.
extern std::function<void()> on_step_cap;
extern u64 step_cap;
extern u64 steps;
void set_fair(bool on); // fair round-robin from now on, no further choices
// Called at the moment a pthread is created: returns errno to inject or 0.
extern std::function<int()> thread_create_fault;
void disable_preempt(); // no memory-level preemption from now on
void configure_schedule(); // draws policy for this run

// happens-before edges for harness built synchronisation (e.g. a pipe)
struct VC {
  std::vector<u32> c;
};
void hb_release(VC &v);
void hb_acquire(const VC &v);

// ---- heap --------------------------------------------------------------
struct HeapStats {
  u64 live_blocks, live_bytes, total_blocks;
};
HeapStats heap();
// id of the next block; blocks >= mark are "since mark"
u32 heap_mark();
u64 live_since(u32 mark, std::string *describe = nullptr);
// Heap block list for leak reports
// Allocation failure: the world sets a countdown (0 = none); when it hits, the
// allocation throws bad_alloc (and `alloc_fired` counts).
extern i64 alloc_fail_in;
extern u64 alloc_fired;
extern u64 alloc_seen; // eligible allocations seen so far
extern bool alloc_fail_sticky; // all following allocations fail as well
// The n-th allocation of the calling thread fails (0 = none); independent of
// the countdown above. Answers the previous value.
i64 alloc_fail_here(i64 n);
extern std::function<void()> on_alloc_fail; // called on the thread concerned
// Verify that [p,p+n) may be accessed by the application right now.
void check_range(const void *p, size_t n, bool write, const char *what);
bool in_arena(const void *p);
void check_bounds(const void *p, size_t n, const char *what);
void spin_hint(u32 weight); // the caller is spinning: others go first soon

// ---- worker entry ----------------------------------------------------------
typedef void (*WorldFn)();
struct World {
  const char *name;
  WorldFn fn;
};
int main_entry(int argc, char **argv, World *worlds, int n);
u64 run_seed();
}
