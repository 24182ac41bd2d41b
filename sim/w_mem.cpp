// Memory worlds: Diagnostic and TransparentQueue with allocations and
// formatting failing at any point, against list models.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
using namespace rt;
extern "C" {
int d_make(int, const char *);
int d_destroy(int);
int d_insert(int, int, size_t, uintmax_t, const char *, const char *, int, double, int *);
const char *d_kind(int);
size_t d_size(int);
int d_empty(int);
size_t d_internal(int);
size_t d_list(int, int, const char **, size_t);
int d_clear(int);
int d_swap(int, int, int);
int d_move(int, int);
int q_make(int, int, int);
int q_destroy(int);
int q_push(int, int, int);
int q_pop(int, int *);
int q_copy_make(int, int);
int q_move_make(int, int);
int q_copy(int, int);
int q_move(int, int);
int q_swap(int, int, int);
int q_cmp(int, int, int, int *);
size_t q_size(int);
int q_empty(int);
int q_front(int, int);
int q_back(int, int);
void q_set(int, int, int);
}
#define APP(x)                                                                 \
  ({                                                                           \
    App a_;                                                                    \
    x;                                                                         \
  })
namespace {
u32 f_alloc, f_fmt;
bool fmt_failed;
int fmt_in; // formatting calls until one fails, 0 = none
u32 alloc_range = 4;
void begin() {
  alloc_fired = 0;
  alloc_fail_in = 0;
  alloc_fail_sticky = false;
  fmt_failed = false;
  fmt_in = 0;
  if (f_alloc && flip(1, f_alloc)) {
    alloc_fail_in = 1 + choose(alloc_range);
    alloc_fail_sticky = flip(1, 3);
  }
  if (f_fmt && flip(1, f_fmt))
    fmt_in = 1 + (int)choose(4);
}
void end() {
  alloc_fail_in = 0;
  alloc_fail_sticky = false;
  fmt_in = 0;
}
void rc_ok(const char *P, int rc, const char *op) {
  if (rc == 1 && !alloc_fired)
    violate(P, "bad-alloc", "%s throws std::bad_alloc without a reason", op);
  if (rc == 2)
    violate(P, "exception", "%s throws", op);
  if (rc == 3)
    violate(P, "assignment-result", "%s does not yield the assigned object", op);
}
int pick(int n, std::function<bool(int)> f) {
  int c[8], k = 0;
  for (int i = 0; i < n; ++i)
    if (f(i))
      c[k++] = i;
  return k ? c[choose((u32)k)] : -1;
}
std::string vis(const std::string &s) {
  return s.size() > 80 ? s.substr(0, 80) + "...(" + std::to_string(s.size()) + ")" : s;
}
}
extern "C" {
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list a) {
  if (in_rt > 0 || !cur())
    return vsnprintf(b, n, f, a);
  Guard g;
  now += 1000;
  if (fmt_in && --fmt_in == 0) {
    fmt_failed = true;
    count("fault.format");
    ev("   formatting fails");
    if (n && flip(1, 2)) {
      check_range(b, n, true, "formatted text");
      b[0] = '?';
    }
    errno = EOVERFLOW;
    return -1;
  }
  va_list c;
  va_copy(c, a);
  int r = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  if (n && r >= 0) {
    check_range(b, std::min(n, (size_t)r + 1), true, "formatted text");
    vsnprintf(b, n, f, a);
  }
  return r;
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = __wrap_vsnprintf(b, n, f, a);
  va_end(a);
  return r;
}
}
namespace {
// ---------------------------------------------------------------- diagnostics
struct Diag {
  bool exists = false, usable = false;
  std::string kind;
  std::vector<std::string> e;
  size_t internal = 0;
};
enum { ND = 3 };
Diag M[ND];
void check_diag(int i, const char *op) {
  Diag &m = M[i];
  if (!m.exists || !m.usable)
    return;
  size_t n = APP(d_size(i));
  if (n != m.e.size())
    violate("C17", "size", "%s: container %d has %zu entries instead of %zu", op, i,
            n, m.e.size());
  if (APP(d_empty(i)) != m.e.empty())
    violate("C17", "empty", "%s: empty() is wrong", op);
  size_t k = APP(d_internal(i));
  if (k != m.internal)
    violate("C17", "internal-errors", "%s: container %d has %zu internal errors instead of %zu",
            op, i, k, m.internal);
  if (m.kind != APP(d_kind(i)))
    violate("C17", "kind", "%s: the kind is '%s'", op, APP(d_kind(i)));
  std::vector<const char *> p(m.e.size() + 4);
  int style = (int)choose(6);
  n = APP(d_list(i, style, p.data(), p.size()));
  if (n != m.e.size())
    violate("C17", "iteration", "%s: iteration %d visits %zu of %zu entries", op,
            style, n, m.e.size());
  for (size_t j = 0; j < n; ++j) {
    const std::string &w = m.e[style < 2 ? j : n - 1 - j];
    check_range(p[j], strnlen(p[j], w.size() + 1) + 1, false, "entry");
    if (w != p[j])
      violate("C17", "entry", "%s: entry is '%s' instead of '%s' (container %d)", op,
              vis(p[j]).c_str(), vis(w).c_str(), i);
  }
}
std::string word() {
  std::string s;
  u32 n = weighted({24, 8, 4, 3, 1});
  n = n == 0   ? choose(8)
      : n == 1 ? 20 + choose(30)
      : n == 2 ? 250 + choose(20)
      : n == 3 ? 5000 + choose(10)
               : 65480 + choose(100);
  u32 a = choose(200);
  for (u32 i = 0; i < n; ++i)
    s += (char)(1 + (a * 7 + i * 13) % 255);
  return s;
}
std::string fmt(const char *f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  std::string s(n + 1, 0);
  vsnprintf(&s[0], n + 1, f, b);
  va_end(a);
  va_end(b);
  s.resize(n);
  return s;
}
void world_diag() {
  Guard g;
  disable_preempt();
  bool flt = weighted({2, 6}) == 1;
  if (flt) {
    f_alloc = weighted({1, 2, 2}) ? 2 + choose(6) : 0;
    f_fmt = weighted({1, 2}) ? 2 + choose(8) : 0;
  }
  u32 mark = heap_mark();
  int n = flip(1, 60) ? (int)range(300, 600) : (int)range(4, 40);
  for (int k = 0; k < n; ++k) {
    now += 1000000;
    auto any = [](int i) { return M[i].exists; };
    auto none = [](int i) { return !M[i].exists; };
    auto use = [](int i) { return M[i].exists && M[i].usable; };
    int i, j;
    switch (weighted({5, 24, 2, 4, 3, 2})) {
    case 0: {
      if ((i = pick(ND, none)) < 0)
        break;
      static const char *ks[] = {"error", "warning", "", "redirect error", "%s"};
      std::string kd = ks[choose(5)];
      ev("construct %d '%s'", i, kd.c_str());
      begin();
      int rc = APP(d_make(i, kd.c_str()));
      end();
      rc_ok("C17", rc, "construction");
      if (rc == 0) {
        M[i] = Diag();
        M[i].exists = M[i].usable = true;
        M[i].kind = kd;
      }
      break;
    }
    case 1: {
      if ((i = pick(ND, use)) < 0)
        break;
      static const size_t cs[] = {0, 1, 42, 404, 4294967296ull, ~0ull};
      static const uintmax_t ps[] = {0, 7, 100, 65536, 1ull << 40, ~0ull};
      size_t code = cs[choose(6)];
      uintmax_t pos = ps[choose(6)];
      int shape = (int)choose(5), num = (int)choose(3) == 0 ? -5 : (int)choose(100000);
      double x = choose(1000) / 8.0;
      std::string s = word(), f, msg;
      bool lit = shape == 0 && flip(1, 2);
      switch (shape) {
      case 0:
        f = lit ? "plain text" : "";
        if (!lit)
          for (char c : word())
            f += c == '%' ? std::string("%%") : std::string(1, c);
        msg = lit ? f : "";
        if (!lit)
          for (size_t q = 0; q < f.size(); ++q) {
            msg += f[q];
            if (f[q] == '%')
              ++q;
          }
        break;
      case 1:
        f = flip(1, 2) ? "%s" : "<%s>";
        msg = f == "%s" ? s : "<" + s + ">";
        break;
      case 2:
        f = flip(1, 2) ? "%d" : "n=%06d.";
        msg = fmt(f.c_str(), num);
        break;
      case 3:
        f = "%s: %d";
        msg = s + ": " + std::to_string(num);
        break;
      default:
        f = "%d%% of '%s' %.3f";
        msg = std::to_string(num) + "% of '" + s + "' " + fmt("%.3f", x);
      }
      std::string text = M[i].kind + " C" + std::to_string(code) + "(" +
                         std::to_string(pos) + "): " + msg;
      ev("insert %d: shape %d, %zu bytes", i, shape, text.size());
      begin();
      int out = 0;
      int rc = APP(d_insert(i, shape, code, pos, f.c_str(), s.c_str(), num, x, &out));
      end();
      rc_ok("C17", rc, "insert");
      if (rc == 0) {
        ev("   -> %d", out);
        if (out) {
          M[i].e.push_back(text);
          count("sim.insertions");
        } else {
          if (!fmt_failed)
            violate("C17", "refused", "insert gives false without a reason");
          M[i].internal++;
          count("probe.internal_errors");
        }
      } else
        count("probe.insertions_that_threw");
      break;
    }
    case 2:
      if ((i = pick(ND, use)) >= 0) {
        ev("clear %d", i);
        rc_ok("C17", APP(d_clear(i)), "clear");
        M[i].e.clear();
        M[i].internal = 0;
      }
      break;
    case 3: {
      i = pick(ND, use), j = pick(ND, use);
      if (i < 0)
        break;
      int how = (int)choose(2);
      ev("swap %d %d", i, j);
      begin();
      int rc = APP(d_swap(i, j, how));
      end();
      rc_ok("C17", rc, "swap");
      std::swap(M[i].e, M[j].e);
      std::swap(M[i].internal, M[j].internal);
      break;
    }
    case 4:
      if ((i = pick(ND, any)) >= 0) {
        ev("destroy %d", i);
        rc_ok("C17", APP(d_destroy(i)), "destruction");
        M[i] = Diag();
      }
      break;
    case 5: {
      i = pick(ND, none), j = pick(ND, use);
      if (i < 0 || j < 0)
        break;
      ev("move-construct %d from %d", i, j);
      begin();
      int rc = APP(d_move(i, j));
      end();
      rc_ok("C17", rc, "move construction");
      if (rc == 0) {
        M[i] = M[j];
        M[j].usable = false;
      }
      break;
    }
    }
    for (int q = 0; q < ND; ++q)
      check_diag(q, "after an operation");
  }
  for (int i = 0; i < ND; ++i)
    if (M[i].exists)
      APP(d_destroy(i));
  std::string d;
  if (live_since(mark, &d))
    violate("C17", "leak", "memory is never released: %s", d.c_str());
  end_run();
}
// ---------------------------------------------------------------- queues
enum { NQ = 4, NC = 6 };
bool ex[NQ];
std::deque<int> Qm[NQ];
std::string text(const std::deque<int> &q) {
  std::string s;
  for (int v : q)
    s += (s.empty() ? "" : " ") + std::to_string(v);
  return "[" + s + "]";
}
void check_queue(int i, const char *op) {
  if (!ex[i])
    return;
  auto &m = Qm[i];
  size_t n = APP(q_size(i));
  if (n != m.size())
    violate("C18", "size", "%s: queue %d has %zu elements instead of %s", op, i, n,
            text(m).c_str());
  if (APP(q_empty(i)) != (int)m.empty())
    violate("C18", "empty", "%s: empty() of queue %d is wrong", op, i);
  if (m.empty())
    return;
  int c = (int)choose(2);
  int f = APP(q_front(i, c)), b = APP(q_back(i, c));
  if (f != m.front() || b != m.back())
    violate("C18", "ends", "%s: queue %d has front %d and back %d instead of %s", op, i,
            f, b, text(m).c_str());
}
void world_queue() {
  Guard g;
  disable_preempt();
  alloc_range = 3;
  if (weighted({2, 6}))
    f_alloc = 2 + choose(6);
  u32 mark = heap_mark();
  int n = (int)range(4, 60);
  for (int k = 0; k < n; ++k) {
    now += 1000000;
    auto any = [](int i) { return ex[i]; };
    auto none = [](int i) { return !ex[i]; };
    int i, j, rc = 0;
    switch (weighted({5, 16, 10, 3, 3, 3, 3, 4, 9, 2, 2, 2})) {
    case 0: {
      if ((i = pick(NQ, none)) < 0)
        break;
      int how = (int)choose(2), v = (int)choose(NC) - 1;
      ev("construct %d%s", i, how ? (" with " + std::to_string(v)).c_str() : "");
      begin();
      rc = APP(q_make(i, how, v));
      end();
      rc_ok("C18", rc, "construction");
      if (rc)
        break;
      ex[i] = true;
      Qm[i].clear();
      if (how)
        Qm[i].push_back(v);
      break;
    }
    case 1:
    case 9: {
      if ((i = pick(NQ, any)) < 0)
        break;
      // a burst may cross the block size of the underlying deque
      int many = (int)weighted({10, 4, 1});
      many = many == 0 ? 1 : many == 1 ? 3 : 60 + (int)choose(240);
      int how = (int)choose(2);
      ev("%s %d x %d", how ? "emplace" : "push", i, many);
      for (int q = 0; q < many; ++q) {
        int v = (int)choose(many > 3 ? 1 : NC) - 1;
        if (many > 3)
          v = q % NC;
        begin();
        rc = APP(q_push(i, v, how));
        end();
        rc_ok("C18", rc, "push");
        if (rc) {
          ev("   throws at %d", q);
          count("probe.push_threw");
        } else
          Qm[i].push_back(v);
        check_queue(i, "push");
      }
      break;
    }
    case 2: {
      if ((i = pick(NQ, any)) < 0)
        break;
      int many = weighted({8, 2}) ? 40 : 1;
      ev("pop %d x %d", i, many);
      for (int q = 0; q < many; ++q) {
        int v = -2, w = Qm[i].empty() ? -1 : Qm[i].front();
        begin();
        rc = APP(q_pop(i, &v));
        end();
        rc_ok("C18", rc, "pop");
        if (rc)
          violate("C18", "pop-throws", "pop throws");
        if (v != w)
          violate("C18", "order", "pop of queue %d gives %d instead of %d (%s)", i, v,
                  w, text(Qm[i]).c_str());
        if (!Qm[i].empty())
          Qm[i].pop_front();
        check_queue(i, "pop");
      }
      break;
    }
    case 3:
    case 4: {
      bool mv = false;
      i = pick(NQ, none), j = pick(NQ, any);
      if (i < 0 || j < 0)
        break;
      mv = choose(2);
      ev("%s-construct %d from %d", mv ? "move" : "copy", i, j);
      begin();
      rc = APP(mv ? q_move_make(i, j) : q_copy_make(i, j));
      end();
      rc_ok("C18", rc, "construction");
      if (rc)
        break;
      ex[i] = true;
      Qm[i] = Qm[j];
      if (mv)
        Qm[j].clear();
      break;
    }
    case 5:
    case 6: {
      i = pick(NQ, any), j = pick(NQ, any);
      if (i < 0)
        break;
      bool mv = choose(2);
      ev("%s-assign %d from %d", mv ? "move" : "copy", i, j);
      if (i == j)
        count("probe.self_assign");
      begin();
      rc = APP(mv ? q_move(i, j) : q_copy(i, j));
      end();
      rc_ok("C18", rc, "assignment");
      if (rc) {
        count("probe.assignment_threw");
        break;
      }
      if (i != j) {
        Qm[i] = Qm[j];
        if (mv)
          Qm[j].clear();
      }
      break;
    }
    case 7: {
      i = pick(NQ, any), j = pick(NQ, any);
      if (i < 0)
        break;
      ev("swap %d %d", i, j);
      int how = (int)choose(2);
      begin();
      rc = APP(q_swap(i, j, how));
      end();
      rc_ok("C18", rc, "swap");
      if (!rc)
        std::swap(Qm[i], Qm[j]);
      break;
    }
    case 8: {
      i = pick(NQ, any), j = pick(NQ, any);
      if (i < 0)
        break;
      int op = (int)choose(6), out = -1;
      begin();
      rc = APP(q_cmp(i, j, op, &out));
      end();
      rc_ok("C18", rc, "comparison");
      if (rc)
        break;
      auto &a = Qm[i], &b = Qm[j];
      bool w = op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a < b : op == 3 ? a > b
               : op == 4 ? a <= b : a >= b;
      // The order of a null pointer and another one is not specified.
      bool nulls = false;
      size_t m = 0;
      while (m < a.size() && m < b.size() && a[m] == b[m])
        ++m;
      if (m < a.size() && m < b.size())
        nulls = a[m] < 0 || b[m] < 0;
      ev("compare %d %d op %d -> %d", i, j, op, out);
      if (out != w && !(nulls && op > 1))
        violate("C18", "comparison", "comparison %d of %s and %s gives %d", op,
                text(a).c_str(), text(b).c_str(), out);
      break;
    }
    case 10:
      if ((i = pick(NQ, any)) >= 0) {
        ev("destroy %d", i);
        rc_ok("C18", APP(q_destroy(i)), "destruction");
        ex[i] = false;
        Qm[i].clear();
      }
      break;
    case 11: {
      if ((i = pick(NQ, [](int q) { return ex[q] && !Qm[q].empty(); })) < 0)
        break;
      int back = (int)choose(2), v = (int)choose(NC) - 1;
      ev("replace %s of %d", back ? "back" : "front", i);
      APP(q_set(i, back, v));
      (back ? Qm[i].back() : Qm[i].front()) = v;
      break;
    }
    }
    for (int q = 0; q < NQ; ++q)
      check_queue(q, "after an operation");
  }
  // everything still comes out, in order
  for (int i = 0; i < NQ; ++i)
    if (ex[i]) {
      while (!Qm[i].empty()) {
        int v = -2;
        APP(q_pop(i, &v));
        if (v != Qm[i].front())
          violate("C18", "order", "finally queue %d gives %d instead of %d", i, v,
                  Qm[i].front());
        Qm[i].pop_front();
      }
      check_queue(i, "after the last pop");
      APP(q_destroy(i));
    }
  std::string d;
  if (live_since(mark, &d))
    violate("C18", "leak", "memory is never released: %s", d.c_str());
  end_run();
}
World worlds[] = {{"diag", world_diag}, {"queue", world_queue}};
}
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 2); }
