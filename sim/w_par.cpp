// Parts of the library used by several threads at once: every thread has to get
// the results which it gets when it is alone.
#include "rt.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
using namespace rt;
extern "C" {
void a_par_share(u32 seed);
void a_par_alone(int kind, u32 seed, int slot);
void a_par_start(int kind, u32 seed, int slot);
}
namespace {
enum { MAXN = 6 };
struct Job {
  int kind = 0;
  u32 seed = 0;
  bool started = false, done = false, fails = false, failed = false;
  std::string alone, got;
};
Job job[MAXN];
int n = 0, done = 0;
bool concurrent = false;
WaitQ mainq;
const char *kinds[] = {"JSON of a person", "JSON of a rule", "diagnostics",
                       "queues",           "traits",         "containers",
                       "reading a shared object as JSON",
                       "reading shared objects",
                       "JSON of many types", "tuples and value pointers",
                       "JSON documents"};
const char *probes[] = {"par.json_person", "par.json_rule", "par.diagnostics",
                        "par.queues", "par.traits", "par.containers",
                        "par.shared_json", "par.shared_others",
                        "par.json_kit", "par.small", "par.documents"};
std::string show(const std::string &s, size_t at) {
  std::string r = "'";
  for (unsigned char c : s.substr(at, 40)) {
    char b[8];
    if (c < 32 || c > 126)
      snprintf(b, sizeof b, "\\x%02x", c), r += b;
    else
      r += c;
  }
  return r + "'";
}
} // namespace
extern "C" {
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list a) {
  if (in_rt > 0 || !cur())
    return vsnprintf(b, n, f, a);
  Guard g;
  va_list c;
  va_copy(c, a);
  int r = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  if (n && r >= 0) {
    check_range(b, std::min(n, (size_t)r + 1), true, "formatted text");
    vsnprintf(b, n, f, a);
    if (concurrent)
      yield("formatted");
  }
  return r;
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = __wrap_vsnprintf(b, n, f, a);
  va_end(a);
  return r;
}
void h_par_point(int slot) {
  Guard g;
  if (slot < 0)
    return;
  if (job[slot].fails && !job[slot].failed && flip(1, 3)) {
    job[slot].failed = true;
    alloc_fail_here(1 + choose(8));
  }
  yield("point");
}
void h_par_done(int slot, int how, const char *p, size_t len) {
  Guard g;
  Job &j = job[slot];
  if (!concurrent) {
    if (how)
      violate("C27", "failed", "%s: exception", kinds[j.kind]);
    j.alone.assign(p, len);
    return;
  }
  alloc_fail_here(0);
  ev("job %d has ended (%d)", slot, how);
  if (how == 2 || (how == 1 && !j.failed))
    violate("C27", "failed", "%s: an exception beside other threads",
            kinds[j.kind]);
  if (how == 1)
    count("fault.allocation_in_one_thread");
  j.got.assign(p, len);
  j.done = true;
  // what a failed allocation leaves is checked elsewhere
  if (j.failed)
    j.got.clear(), j.alone.clear();
  ++done;
  wake_all(mainq);
}
}
static void alone() {
  for (int i = 0; i < n; ++i) {
    App a;
    a_par_alone(job[i].kind, job[i].seed, i);
  }
}
static void world() {
  configure_schedule();
  n = 2 + weighted({6, 3, 1});
  bool same = flip(1, 2); // the same kind in all threads
  u32 shared = choose(1 << 16);
  {
    App a;
    a_par_share(shared);
  }
  int kind = choose(11);
  for (int i = 0; i < n; ++i) {
    job[i].kind = same ? kind : (int)choose(11);
    job[i].seed = same && flip(1, 4) ? job[0].seed : choose(1 << 20);
    job[i].fails = flip(1, 6);
    count(probes[job[i].kind]);
  }
  // objects which are initialised by their first use have to cope, too
  bool before = flip(1, 2);
  if (before)
    alone();
  else
    count("par.first_use_by_threads");
  concurrent = true;
  on_step_cap = [] { violate("C27", "livelock", "the threads do not end"); };
  for (int i = 0; i < n; ++i) {
    App a;
    a_par_start(job[i].kind, job[i].seed, i);
  }
  while (done < n)
    block(mainq, "threads");
  concurrent = false;
  disable_preempt();
  count("sim.thread_groups");
  if (!before) {
    bool failed[MAXN];
    for (int i = 0; i < n; ++i)
      failed[i] = job[i].failed;
    alone();
    for (int i = 0; i < n; ++i)
      if (failed[i])
        job[i].alone.clear();
  }
  for (int i = 0; i < n; ++i) {
    Job &j = job[i];
    if (j.got == j.alone)
      continue;
    size_t d = 0;
    while (d < j.got.size() && d < j.alone.size() && j.got[d] == j.alone[d])
      ++d;
    size_t at = d > 10 ? d - 10 : 0;
    violate("C27", "wrong-result",
            "%s: thread %d gets %s at %zu, it gets %s when it is alone",
            kinds[j.kind], i, show(j.got, at).c_str(), at,
            show(j.alone, at).c_str());
  }
  end_run();
}
static World worlds[] = {{"par", world}};
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 1); }
