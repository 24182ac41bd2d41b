// Ownership worlds: trait sets; arrays, value pointers, static maps and tuples,
// with allocations and element constructors failing at any point.
#include "rt.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace rt;
extern "C" {
void *t_rec(int, int);
void t_free(int, void *);
int t_make(int, int);
int t_destroy(int);
int t_put(int, int, void *);
int t_set(int, int);
int t_set2(int, int);
int t_unset(int, int);
int t_unset2(int, int);
void *t_get(int, int, int);
int t_release(int, int, void **);
unsigned t_bits(int, int, int *);
unsigned t_conflict(int, int);
int t_move(int, int, int);
int t_assign(int, int, int);
int t_mix(int, int, int);
int t_map(int, unsigned *);
unsigned d_bits(int);
void d_set(int, int);
void d_unset(int, int);
void d_group(int, int);
void d_clear(int);
void d_more(int, int);
unsigned t_ask(int);
int d_same(int, int);
int t_print(int, int, int);
void w_new();
unsigned long long w_op(int, int, int *);
int m_make(int, int, const size_t *, int);
int m_destroy(int, int);
int m_move(int, int, int, int);
void *m_at(int, int, const size_t *, int);
int o_get(void *);
void o_set(void *, int);
int v_make();
int v_destroy();
int v_add(int, int, int, int);
int v_erase(int);
int v_reserve(unsigned);
int v_shrink();
int v_swap(int, int);
int v_rotate(int);
int v_reverse();
int v_sort();
int v_move_pool();
unsigned v_size();
int v_check(int, int, int);
int s_make(int, int, int);
int s_make_part(int, int);
int s_destroy(int);
int s_destroy_part(int);
int s_transfer(int, int, int);
int s_val(int, int, int);
int s_values();
int s_visit(int, int);
int p_make(int, int, int);
int p_destroy(int, int);
int p_assign(int, int, int, int);
int p_val(int, int, int);
void b_init(int, int);
int b_swap(int, int, int);
int b_pack(int, int, int);
void b_fill(int, int, int);
int b_val(int, int *);
}
#define APP(x)                                                                 \
  ({                                                                           \
    App a_;                                                                    \
    x;                                                                         \
  })
namespace {
u32 f_alloc, f_elem;
int born_in; // element constructions or assignments until one fails
bool born_failed;
u32 alloc_range = 4, elem_range = 6;
const char *P = "C24";
struct Elem {
  int kind, id;
};
std::map<const void *, Elem> *live;
void begin() {
  alloc_fired = 0;
  alloc_fail_in = 0;
  alloc_fail_sticky = false;
  born_failed = false;
  born_in = 0;
  if (f_alloc && flip(1, f_alloc)) {
    alloc_fail_in = 1 + choose(alloc_range);
    alloc_fail_sticky = flip(1, 3);
  }
  if (f_elem && flip(1, f_elem))
    born_in = 1 + (int)choose(elem_range);
}
void end() {
  alloc_fail_in = 0;
  alloc_fail_sticky = false;
  born_in = 0;
}
// true: the operation took place
bool rc_ok(int rc, const char *op, bool refused = false) {
  if (rc == 1 && !alloc_fired && !refused)
    violate(P, "bad-alloc", "%s throws std::bad_alloc without a reason", op);
  if (rc == 3 && !born_failed)
    violate(P, "exception", "%s fails as an element would which did not", op);
  if (rc == 2)
    violate(P, "exception", "%s throws", op);
  if (rc == 4)
    violate(P, "assignment-result", "%s does not yield the assigned object", op);
  return rc == 0;
}
int pick(int n, std::function<bool(int)> f) {
  int c[64], k = 0;
  for (int i = 0; i < n; ++i)
    if (f(i))
      c[k++] = i;
  return k ? c[choose((u32)k)] : -1;
}
bool one_fails(const char *what) {
  if (born_in && --born_in == 0) {
    born_failed = true;
    count("fault.element");
    ev("   %s an element fails", what);
    return true;
  }
  return false;
}
}
extern "C" {
int o_born(const void *A, int Kind, int Id) {
  Guard g;
  bool nofail = Kind == 25;
  if (nofail)
    Kind = 24;
  auto it = live->find(A);
  if (it != live->end())
    violate(P, "overwritten", "element %d is built over element %d which still exists",
            Id, it->second.id);
  if (Kind == 24 && !nofail && one_fails("constructing"))
    return 1;
  (*live)[A] = {Kind, Id};
  return 0;
}
void o_dead(const void *A, int Kind, int Id) {
  Guard g;
  auto it = live->find(A);
  if (it == live->end())
    violate(P, "released-twice", "element %d (kind %d) is destroyed but does not exist",
            Id, Kind);
  if (it->second.kind != Kind)
    violate(P, "wrong-type", "element %d of kind %d is destroyed as kind %d",
            it->second.id, it->second.kind, Kind);
  live->erase(it);
}
int o_use(const void *A, int Kind, int Id, int How) {
  Guard g;
  auto it = live->find(A);
  if (it == live->end() || it->second.kind != Kind)
    violate(P, "dead-element", "an element is used which does not exist");
  if (How == 1)
    return one_fails("assigning");
  return 0;
}
}
namespace {
size_t alive(int kind) {
  size_t n = 0;
  for (auto &e : *live)
    n += kind < 0 ? e.second.kind != 24 : e.second.kind == kind;
  return n;
}
// ---------------------------------------------------------------- trait sets
enum { NT = 10, ND = 3 };
int kind_of(int k) { return k == 4 || k == 6 ? 16 : k == 5 ? 17 : k == 8 ? 18 : k; }
unsigned conf(int k) {
  switch (k) {
  case 1: return 1u << 2 | 1u << 3 | 1u << 4;
  case 2: return 1u << 1 | 1u << 4;
  case 3: return 1u << 1;
  case 4: return 1u << 1 | 1u << 2;
  case 6: return 1u << 7;
  case 7: return 1u << 6;
  }
  return 0;
}
unsigned group(int k) {
  return k == 0 ? 1u : k < 5 ? 0x1eu : k == 5 ? 0x20u : k < 8 ? 0xc0u : 0x300u;
}
struct TSet {
  bool exists = false;
  unsigned bits = 0;
  void *val[NT] = {};
  std::set<void *> maybe; // of a set which was moved from: may still be there
};
TSet T[8];
unsigned DB[ND];
int next_id;
// i: set, or 8 + descriptor; b: its traits
void check_more(int i, unsigned b) {
  static const unsigned m[] = {0xc, 0x221, 0x140};
  unsigned want = 0;
  for (int q = 0; q < 3; ++q) {
    if ((b & m[q]) == m[q])
      want |= 1u << q;
    if (b & m[q])
      want |= 8u << q;
  }
  unsigned a = APP(t_ask(i));
  if (a != want)
    violate("C24", "traits", "%d with traits %x answers %x instead of %x", i, b, a, want);
  int n = APP(t_print(i, 0, 0));
  if (n != (int)b)
    violate("C24", "traits", "%d with traits %x is printed as %x", i, b, n);
  int k = (int)choose(NT);
  if ((n = APP(t_print(i, 1, k))) != 1 << k)
    violate("C24", "traits", "the key of trait %d is printed as that of traits %x", k, n);
  if ((n = APP(t_print(i, 2, k))) != (int)group(k))
    violate("C24", "traits", "the mask of trait %d is printed as %x", k, n);
}
// A descriptor with many traits: 1-3 and (37, 38)-39 exclude each other.
void wide() {
  unsigned long long m = 0;
  APP(w_new());
  for (int n = (int)range(1, 30), i = 0; i < n; ++i) {
    int k = (int)choose(40), how = (int)weighted({4, 1, 1}), calls = 0;
    unsigned long long one = 1ull << k, g = k >= 1 && k < 4 ? 0xeull : k >= 37 ? 7ull << 37 : one,
                       c = k >= 1 && k < 4 ? g & ~one : k == 39 ? 3ull << 37 : k >= 37 ? 1ull << 39 : 0;
    m = how == 0 ? (m & ~c) | one : how == 1 ? m & ~one : m & ~g;
    unsigned long long b = APP(w_op(k, how, &calls));
    if (b != m || calls != __builtin_popcountll(m))
      violate("C24", "traits", "a descriptor of 40 traits holds %llx instead of %llx, visited %d",
              b, m, calls);
  }
  count("probe.wide_descriptor");
}
void t_check(int i, const char *op) {
  TSet &t = T[i];
  if (!t.exists)
    return;
  int calls = 0;
  int how = (int)choose(5);
  unsigned b = APP(t_bits(i, how, &calls));
  if (b != t.bits)
    violate("C24", "traits", "%s: set %d shows traits %x instead of %x (asked way %d)", op, i,
            b, t.bits, how);
  if (calls != __builtin_popcount(b))
    violate("C24", "traits", "%s: set %d visits %d traits instead of %d (way %d)", op, i,
            calls, __builtin_popcount(b), how);
  if (flip(1, 4))
    check_more(i, b);
  int c = (int)choose(2);
  for (int k = 0; k < NT; ++k) {
    void *p = APP(t_get(i, k, c));
    if (p != t.val[k])
      violate("C24", "description", "%s: set %d %s the description of trait %d", op, i,
              !p ? "lost" : t.val[k] ? "exchanged" : "invents", k);
  }
}
void t_all(const char *op) {
  std::set<const void *> need, may;
  for (auto &t : T)
    if (t.exists) {
      for (void *v : t.val)
        if (v)
          need.insert(v);
      may.insert(t.maybe.begin(), t.maybe.end());
    }
  for (auto v : need)
    if (!live->count(v))
      violate("C24", "released-early", "%s: a description in a set was destroyed", op);
  for (auto &e : *live)
    if (!need.count(e.first) && !may.count(e.first))
      violate("C24", "not-released", "%s: description %d was not destroyed", op,
              e.second.id);
  for (int i = 0; i < 8; ++i)
    t_check(i, op);
}
// What a set holds after it was moved from is its own business, but it must
// not share anything.
void t_resync(int i, const std::set<void *> &allowed, const char *op) {
  TSet &t = T[i];
  int calls;
  t.bits = APP(t_bits(i, 0, &calls));
  t.maybe.clear();
  std::set<void *> seen;
  for (int k = 0; k < NT; ++k) {
    t.val[k] = APP(t_get(i, k, 0));
    if (t.val[k] && (!allowed.count(t.val[k]) || !live->count(t.val[k])))
      violate("C24", "shared", "%s: set %d which was moved from keeps the description of trait %d",
              op, i, k);
    if (t.val[k])
      seen.insert(t.val[k]);
  }
  // not reachable any more, but alive: it must disappear with the set
  for (void *p : allowed)
    if (live->count(p) && !seen.count(p))
      t.maybe.insert(p);
}
void t_drop(TSet &t, unsigned bits) {
  t.bits &= ~bits;
  for (int k = 0; k < NT; ++k)
    if (bits >> k & 1)
      t.val[k] = nullptr;
}
void m_set(TSet &t, int k) {
  t_drop(t, conf(k));
  t.bits |= 1u << k;
}
void world_trait() {
  P = "C24";
  disable_preempt();
  live = new std::map<const void *, Elem>();
  f_elem = 0;
  f_alloc = flip(1, 4) ? 0 : 1 + choose(6);
  alloc_range = 1 + choose(5);
  next_id = 0;
  for (auto &t : T)
    t = TSet();
  for (int i = 0; i < ND; ++i)
    APP(d_clear(i)), DB[i] = 0;
  int kinds = (int)choose(3); // 0 ordered map, 1 hash map, 2 both
  auto usable = [&](int i) {
    return i % 4 < 3 && (kinds == 2 || (kinds == 1) == (i >= 4));
  };
  u32 mark = heap_mark();
  u32 ops = range(4, 40);
  if (flip(1, 4))
    wide();
  for (u32 o = 0; o < ops; ++o) {
    auto some = [&](int i) { return usable(i) && T[i].exists; };
    auto none = [&](int i) { return usable(i) && !T[i].exists; };
    int i = -1, j = -1, k = (int)choose(NT), d = (int)choose(ND), rc = 0;
    switch (weighted({3, 8, 4, 4, 2, 3, 2, 4, 2, 3, 2, 3, 1})) {
    case 0:
      if ((i = pick(8, none)) < 0)
        break;
      d = (int)choose(ND + 1) - 1;
      ev("make %d from descriptor %d", i, d);
      begin();
      rc = APP(t_make(i, d));
      end();
      if (rc_ok(rc, "construction"))
        T[i] = TSet(), T[i].exists = true, T[i].bits = d < 0 ? 0 : DB[d];
      break;
    case 1: {
      if ((i = pick(8, some)) < 0)
        break;
      bool null = flip(1, 8);
      int id = ++next_id;
      void *p = null ? nullptr : APP(t_rec(k, id));
      ev("put %d trait %d description %d%s", i, k, id, null ? " (null)" : "");
      if (T[i].bits & conf(k))
        count("probe.put_conflict");
      if (T[i].val[k])
        count("probe.replace");
      begin();
      rc = APP(t_put(i, k, p));
      end();
      if (rc_ok(rc, "set with a description")) {
        m_set(T[i], k);
        T[i].val[k] = p;
      } else {
        count("probe.put_failed");
        if (p && !live->count(p))
          violate("C24", "released-early", "a description was destroyed although it could not be stored");
        if (p)
          APP(t_free(k, p));
      }
      break;
    }
    case 2:
      if ((i = pick(8, some)) < 0)
        break;
      ev("set %d trait %d", i, k);
      begin();
      rc = APP(t_set(i, k));
      end();
      if (rc_ok(rc, "set"))
        m_set(T[i], k);
      break;
    case 3:
      if ((i = pick(8, some)) < 0)
        break;
      ev("unset %d trait %d", i, k);
      begin();
      rc = APP(t_unset(i, k));
      end();
      if (rc_ok(rc, "unset"))
        t_drop(T[i], 1u << k);
      break;
    case 4: {
      if ((i = pick(8, some)) < 0)
        break;
      int how = (int)choose(4);
      ev("set several of %d, way %d", i, how);
      begin();
      rc = APP(t_set2(i, how));
      end();
      static const std::vector<int> L[] = {{0, 5, 9}, {3, 4}, {2, 3}, {6, 8, 2}};
      if (rc_ok(rc, "set"))
        for (int q : L[how])
          m_set(T[i], q);
      break;
    }
    case 5: {
      if ((i = pick(8, some)) < 0)
        break;
      int how = (int)choose(3);
      ev("unset several of %d, way %d", i, how);
      begin();
      rc = APP(t_unset2(i, how));
      end();
      if (rc_ok(rc, "unset"))
        t_drop(T[i], how == 0 ? 1u << 0 | 1u << 4 | 1u << 7
                              : how == 1 ? 1u << 3 | 1u << 9 : 0x3ffu);
      break;
    }
    case 6: {
      if ((i = pick(8, some)) < 0)
        break;
      unsigned b = APP(t_conflict(i, k));
      if (b != (T[i].bits & conf(k)))
        violate("C24", "conflicts", "set %d with %x names %x as conflicting with trait %d",
                i, T[i].bits, b, k);
      break;
    }
    case 7: {
      if ((i = pick(8, some)) < 0)
        break;
      void *p = &p;
      bool had = T[i].val[k];
      ev("release %d trait %d%s", i, k, had ? "" : " (none)");
      begin();
      rc = APP(t_release(i, k, &p));
      end();
      if (!rc_ok(rc, "release"))
        break;
      if (p != T[i].val[k])
        violate("C24", "description", "release of trait %d of set %d yields another description", k, i);
      T[i].val[k] = nullptr;
      if (p && !live->count(p))
        violate("C24", "released-early", "a description was destroyed by release");
      if (!had)
        count("probe.release_none");
      if (p) {
        // the caller owns it now: back into some set, or away
        int to = flip(1, 2) ? pick(8, some) : -1;
        if (to >= 0) {
          ev("   into %d", to);
          rc = APP(t_put(to, k, p));
          rc_ok(rc, "set with a description");
          m_set(T[to], k);
          T[to].val[k] = p;
        } else
          APP(t_free(k, p));
      }
      break;
    }
    case 8:
    case 9: {
      bool cons = choose(2);
      j = pick(8, some);
      if (j < 0)
        break;
      auto same = [&](int q) { return (q < 4) == (j < 4); };
      i = pick(8, [&](int q) { return same(q) && (cons ? none(q) : some(q)); });
      if (i < 0)
        break;
      ev("move-%s %d from %d", cons ? "construct" : "assign", i, j);
      begin();
      rc = APP(t_move(i, j, cons));
      end();
      if (!rc_ok(rc, "move"))
        break;
      if (i == j) {
        count("probe.self_move");
        break; // nothing changes
      }
      std::set<void *> old;
      if (!cons) {
        for (void *v : T[i].val)
          if (v)
            old.insert(v), count("probe.move_over_description");
        old.insert(T[i].maybe.begin(), T[i].maybe.end());
      }
      T[i].exists = true;
      T[i].bits = T[j].bits;
      memcpy(T[i].val, T[j].val, sizeof T[i].val);
      T[i].maybe = T[j].maybe;
      t_resync(j, old, "move");
      break;
    }
    case 10: {
      if ((i = pick(8, some)) < 0)
        break;
      int mv = (int)choose(2);
      ev("assign descriptor %d to %d", d, i);
      begin();
      rc = APP(t_assign(i, d, mv));
      end();
      if (!rc_ok(rc, "assignment of a descriptor"))
        break;
      t_drop(T[i], 0x3ff);
      T[i].bits = DB[d];
      break;
    }
    case 11: {
      int how = (int)choose(8);
      if (how < 4) {
        if ((i = pick(8, some)) < 0)
          break;
        ev("descriptor %d and set %d, way %d", d, i, how);
        begin();
        rc = APP(t_mix(i, d, how));
        end();
        if (!rc_ok(rc, "combination with a descriptor"))
          break;
        TSet &t = T[i];
        if (how == 0)
          DB[d] = t.bits;
        else if (how == 1) {
          for (int q = 0; q < NT; ++q)
            if (t.bits >> q & 1)
              DB[d] = (DB[d] & ~conf(q)) | 1u << q;
        } else if (how == 2) {
          for (int q = 0; q < NT; ++q)
            if (DB[d] >> q & 1)
              m_set(t, q);
            else
              t_drop(t, 1u << q);
        } else
          for (int q = 0; q < NT; ++q)
            if (DB[d] >> q & 1)
              m_set(t, q);
      } else if (flip(1, 3)) {
        int how = (int)choose(6);
        static const unsigned off[] = {0, 0, 0, 0x124, 0, 0x9};
        ev("descriptor %d: several, %d", d, how);
        APP(d_more(d, how));
        DB[d] &= ~off[how];
        auto on = [&](int q) { DB[d] = (DB[d] & ~conf(q)) | 1u << q; };
        if (how == 0)
          DB[d] &= ~(group(0) | group(6));
        else if (how == 1)
          DB[d] &= ~(group(3) | group(5) | group(9));
        else if (how == 2)
          on(0), on(7), on(9);
        else if (how == 4)
          on(4), on(5);
      } else {
        ev("descriptor %d: %d of trait %d", d, how, k);
        if (how == 5)
          APP(d_unset(d, k)), DB[d] &= ~(1u << k);
        else if (how == 6)
          APP(d_group(d, k)), DB[d] &= ~group(k);
        else
          APP(d_set(d, k)), DB[d] = (DB[d] & ~conf(k)) | 1u << k;
      }
      unsigned b = APP(d_bits(d));
      if (b != DB[d])
        violate("C24", "traits", "descriptor %d holds %x instead of %x", d, b, DB[d]);
      check_more(8 + d, b);
      for (int q = 0; q < 3; ++q)
        if (APP(d_same(d, q)) != (DB[d] == DB[q]))
          violate("C24", "traits", "comparison of descriptors %d and %d", d, q);
      break;
    }
    case 12:
      if ((i = pick(8, some)) < 0)
        break;
      if (i < 4 && flip(1, 2)) {
        unsigned b = 0;
        ev("distribute %d", i);
        begin();
        rc = APP(t_map(i, &b));
        end();
        if (rc_ok(rc, "distribution") ? b != T[i].bits : (b & ~T[i].bits) != 0)
          violate("C24", "distribution", "set %d with traits %x is stored under %x", i,
                  T[i].bits, b);
        break;
      }
      ev("destroy %d", i);
      rc_ok(APP(t_destroy(i)), "destruction");
      T[i] = TSet();
      break;
    }
    t_all("after an operation");
  }
  for (int i = 0; i < 8; ++i)
    if (T[i].exists) {
      APP(t_destroy(i));
      T[i] = TSet();
      t_all("destruction");
    }
  std::string d;
  if (live_since(mark, &d))
    violate("C24", "leak", "memory is never released: %s", d.c_str());
  end_run();
}
// ------------------------------------------------------------------- elements
struct Arr {
  bool exists = false, moved = false;
  std::vector<size_t> dim;
  std::vector<int> v;
  std::vector<void *> at;
  size_t maybe = 0; // elements which may hide in it after a move
};
Arr Am[6][2];
int rank_of(int k) { return 2 + k % 3; }
struct PV {
  int slot, id;
};
std::vector<PV> Pm;
bool Pex;
struct Cells {
  bool exists = false;
  int v[5] = {-1, -1, -1, -1, -1}; // -3: anything
};
Cells Sf[2], Sp[2], Tp[4][2];
int Bv[2], Bc[2];
bool huge(int k, std::vector<size_t> &d) {
  int n = rank_of(k);
  d.assign(n, 1);
  switch (choose(4)) {
  case 0: // wraps to nothing
  {
    int p = (int)choose(n), q = (p + 1 + (int)choose(n - 1)) % n;
    d[p] = d[q] = (size_t)1 << 32;
    break;
  }
  case 1: // wraps to a few
  {
    int p = (int)choose(n), q = (p + 1 + (int)choose(n - 1)) % n;
    d[p] = ((size_t)1 << 63) + 1;
    d[q] = 2 + 2 * choose(2);
    break;
  }
  case 2: // fits into the type of sizes but not into memory
    d[0] = (size_t)1 << 20;
    d[1] = (size_t)1 << (10 + choose(30));
    break;
  case 3: // every dimension is moderate
    for (auto &x : d)
      x = (size_t)1 << (64 / n);
    break;
  }
  return true;
}
void a_cells(int k, int i, const char *op) {
  Arr &a = Am[k][i];
  if (!a.exists || a.moved)
    return;
  int n = rank_of(k);
  std::set<void *> seen;
  size_t idx[4] = {0, 0, 0, 0};
  int c = (int)choose(2);
  for (size_t e = 0; e < a.v.size(); ++e) {
    size_t r = e;
    for (int q = n - 1; q >= 0; --q)
      idx[q] = r % a.dim[q], r /= a.dim[q];
    void *p = APP(m_at(k, i, idx, c));
    auto it = live->find(p);
    if (it == live->end() || it->second.kind != 24)
      violate("C25", "no-element", "%s: position %zu of array %d/%d is not an element", op, e, k, i);
    if (!seen.insert(p).second)
      violate("C25", "aliased", "%s: position %zu of array %d/%d is the same element as another", op, e, k, i);
    if (a.at[e] && a.at[e] != p)
      violate("C25", "moved-element", "%s: element %zu of array %d/%d changed its place", op, e, k, i);
    a.at[e] = p;
    int v = APP(o_get(p));
    if (v != a.v[e])
      violate("C25", "value", "%s: element %zu of array %d/%d holds %d instead of %d", op, e, k, i, v, a.v[e]);
  }
}
void v_cells(const char *op) {
  if (!Pex)
    return;
  if (v_size() != Pm.size())
    violate("C25", "value-pointer", "%s: %u values instead of %zu", op, v_size(), Pm.size());
  for (size_t i = 0; i < Pm.size(); ++i) {
    int r = APP(v_check((int)i, Pm[i].slot, Pm[i].id));
    if (r)
      violate("C25", "value-pointer", "%s: value %d at %zu: %s", op, Pm[i].id, i,
              r == 1 ? "its pointer does not point to it"
              : r == 2 ? "the ways to access it disagree"
                       : "it does not hold what was stored");
  }
}
void s_cells(Cells &c, std::function<int(int)> get, int n, const char *what, int i, const char *op) {
  if (!c.exists)
    return;
  for (int q = 0; q < n; ++q) {
    if (c.v[q] == -3)
      continue;
    int v = get(q);
    if (v != c.v[q])
      violate("C25", "cell", "%s: cell %d of %s %d holds %d instead of %d", op, q, what, i, v, c.v[q]);
  }
}
const int part_cells[] = {0, 1, 3};
void c_all(const char *op) {
  size_t lo = 0, hi = 0;
  for (int k = 0; k < 6; ++k)
    for (int i = 0; i < 2; ++i) {
      a_cells(k, i, op);
      Arr &a = Am[k][i];
      if (a.exists && !a.moved)
        lo += a.v.size();
      if (a.exists)
        hi += a.maybe;
    }
  v_cells(op);
  lo += Pm.size();
  for (int i = 0; i < 2; ++i) {
    s_cells(Sf[i], [&](int q) { return APP(s_val(i, 0, q)); }, 5, "map", i, op);
    s_cells(Sp[i], [&](int q) {
      if (q == 2 || q == 4)
        return -1;
      return APP(s_val(i, 1, q)); }, 5, "small map", i, op);
    if (Sf[i].exists)
      lo += 1 + (Sf[i].v[2] >= 0) + (Sf[i].v[4] >= 0);
    lo += Sp[i].exists;
    for (int k = 0; k < 4; ++k) {
      s_cells(Tp[k][i], [&](int q) { return APP(p_val(k, i, q)); }, k == 1 || k == 2 ? 2 : 3,
              k == 3 ? "map of types" : "tuple", i, op);
      lo += Tp[k][i].exists;
    }
    int c;
    int v = APP(b_val(i, &c));
    if (v != Bv[i] || c != Bc[i])
      violate("C25", "exchange", "%s: object %d is damaged", op, i);
  }
  size_t n = alive(24);
  if (n < lo)
    violate("C25", "released-early", "%s: %zu elements exist instead of %zu", op, n, lo);
  if (n > lo + hi)
    violate("C25", "not-released", "%s: %zu elements exist instead of %zu", op, n, lo);
}
// After a copy which failed every cell is old or new.
void mixed(Cells &to, const Cells &from, std::function<int(int)> get, std::vector<int> cells, const char *op) {
  for (int q : cells) {
    int v = get(q);
    if (to.v[q] != -3 && from.v[q] != -3 && v != to.v[q] && v != from.v[q])
      violate("C25", "cell", "%s failed and left %d in cell %d (before %d, wanted %d)", op, v, q,
              to.v[q], from.v[q]);
    to.v[q] = v == -2 ? -3 : v;
  }
}
void world_cells() {
  P = "C25";
  disable_preempt();
  live = new std::map<const void *, Elem>();
  f_alloc = flip(1, 4) ? 0 : 1 + choose(6);
  f_elem = flip(1, 4) ? 0 : 1 + choose(6);
  alloc_range = 1 + choose(6);
  elem_range = 1 + choose(flip(1, 3) ? 60 : 6);
  for (auto &x : Am)
    for (auto &a : x)
      a = Arr();
  Pm.clear();
  Pex = false;
  for (int i = 0; i < 2; ++i) {
    Sf[i] = Sp[i] = Cells();
    for (auto &t : Tp)
      t[i] = Cells();
    Bv[i] = 5 + i, Bc[i] = i;
    APP(b_init(i, Bv[i]));
  }
  u32 mark = heap_mark();
  u32 wa = 1 + choose(4), wv = 1 + choose(4), ws = 1 + choose(4), wt = 1 + choose(4);
  int ak[2] = {(int)choose(6), (int)choose(6)};
  int next = 0;
  u32 ops = range(4, 40);
  for (u32 o = 0; o < ops; ++o) {
    int rc = 0;
    switch (weighted({wa, wa, wa, wa, wv, wv, wv, wv, ws, ws, ws, wt, wt, wt, 1, 1})) {
    case 0: {
      int k = ak[choose(2)], i = pick(2, [&](int q) { return !Am[k][q].exists; });
      if (i < 0)
        break;
      Arr a;
      bool big = flip(1, 6) && huge(k, a.dim);
      if (!big)
        for (int q = 0; q < rank_of(k); ++q)
          a.dim.push_back(flip(1, 12) ? 0 : 1 + choose(4));
      if (!big && flip(1, 50))
        a.dim[choose(rank_of(k))] = 250 + choose(100);
      size_t n = 1;
      for (auto x : a.dim)
        n *= x;
      ev("array %d/%d of %zu x %zu%s", k, i, a.dim[0], a.dim[1], big ? " (too large)" : "");
      size_t dd[4];
      std::copy(a.dim.begin(), a.dim.end(), dd);
      int how = (int)choose(2);
      begin();
      rc = APP(m_make(k, i, dd, how));
      end();
      if (big)
        count("fault.too_large");
      if (big && rc == 0)
        violate("C25", "too-small", "an array of %zu x %zu%s elements is created in memory which cannot hold them",
                a.dim[0], a.dim[1], rank_of(k) > 2 ? " x ..." : "");
      if (!rc_ok(rc, "construction of an array", big))
        break;
      a.exists = true;
      a.v.assign(n, 0);
      a.at.assign(n, nullptr);
      probe_max("probe.max_elements", n);
      Am[k][i] = a;
      break;
    }
    case 1: {
      int k = ak[choose(2)], i = pick(2, [&](int q) { return Am[k][q].exists && !Am[k][q].moved && Am[k][q].v.size(); });
      if (i < 0)
        break;
      Arr &a = Am[k][i];
      size_t e = choose((u32)a.v.size());
      int v = ++next;
      ev("array %d/%d element %zu = %d", k, i, e, v);
      APP(o_set(a.at[e], v));
      a.v[e] = v;
      break;
    }
    case 2: {
      int k = ak[choose(2)], j = pick(2, [&](int q) { return Am[k][q].exists && !Am[k][q].moved; });
      if (j < 0)
        break;
      bool self = flip(1, 8);
      int i = self ? j : 1 - j;
      bool cons = !Am[k][i].exists;
      ev("array %d/%d move-%s from %d", k, i, cons ? "construct" : "assign", j);
      begin();
      rc = APP(m_move(k, i, j, cons));
      end();
      if (!rc_ok(rc, "move of an array"))
        break;
      Arr &a = Am[k][i], &b = Am[k][j];
      if (i == j) {
        count("probe.self_move");
        a.moved = true; // anything may be left, but it still owns it
        a.maybe += a.v.size();
        break;
      }
      size_t old = a.exists ? a.maybe + (a.moved ? 0 : a.v.size()) : 0;
      if (old)
        count("probe.move_over_elements");
      a = b;
      b.moved = true;
      b.maybe = old;
      b.v.clear();
      b.at.clear();
      break;
    }
    case 3: {
      int k = ak[choose(2)], i = pick(2, [&](int q) { return Am[k][q].exists; });
      if (i < 0)
        break;
      ev("array %d/%d is destroyed", k, i);
      rc_ok(APP(m_destroy(k, i)), "destruction");
      Am[k][i] = Arr();
      break;
    }
    case 4:
    case 5: {
      if (!Pex) {
        begin();
        rc = APP(v_make());
        end();
        Pex = rc_ok(rc, "construction");
        break;
      }
      int s = pick(24, [&](int q) {
        for (auto &p : Pm)
          if (p.slot == q)
            return false;
        return true;
      });
      if (s < 0)
        break;
      int at = flip(1, 3) && !Pm.empty() ? (int)choose((u32)Pm.size() + 1) : -1;
      int id = 1 + (int)choose(150), how = (int)choose(3);
      ev("value %d into slot %d at %d", id, s, at);
      begin();
      rc = APP(v_add(at, s, id, how));
      end();
      if (rc_ok(rc, "insertion"))
        Pm.insert(at < 0 ? Pm.end() : Pm.begin() + at, PV{s, id});
      else
        count("probe.insertion_failed");
      break;
    }
    case 6: {
      if (!Pex || Pm.empty())
        break;
      size_t n = Pm.size();
      size_t x = choose((u32)n), y = choose((u32)n);
      int what = (int)choose(7);
      ev("values: operation %d (%zu, %zu)", what, x, y);
      begin();
      switch (what) {
      case 0: rc = APP(v_erase((int)x)); break;
      case 1: rc = APP(v_reserve((unsigned)(n + x * 3))); break;
      case 2: rc = APP(v_shrink()); break;
      case 3: rc = x == y ? 0 : APP(v_swap((int)x, (int)y)); break;
      case 4: rc = APP(v_rotate((int)x)); break;
      case 5: rc = APP(v_reverse()); break;
      case 6: rc = APP(v_sort()); break;
      }
      end();
      if (!rc_ok(rc, "rearrangement"))
        break;
      switch (what) {
      case 0: Pm.erase(Pm.begin() + x); break;
      case 3: std::swap(Pm[x], Pm[y]); break;
      case 4: {
        std::vector<PV> t(Pm.begin() + x, Pm.end());
        t.insert(t.end(), Pm.begin(), Pm.begin() + x);
        Pm = t;
        break;
      }
      case 5: Pm = std::vector<PV>(Pm.rbegin(), Pm.rend()); break;
      case 6: {
        // equal values may stand in any order: find it out by their pointers
        std::vector<PV> t;
        std::vector<bool> used(n, false);
        for (size_t a = 0; a < n; ++a)
          for (size_t b = 0; b < n; ++b)
            if (!used[b] && APP(v_check((int)a, Pm[b].slot, Pm[b].id)) == 0) {
              used[b] = true;
              t.push_back(Pm[b]);
              break;
            }
        if (t.size() != n)
          violate("C25", "value-pointer", "after sorting %zu of %zu values are known by their pointers", t.size(), n);
        for (size_t a = 1; a < n; ++a)
          if (t[a].id < t[a - 1].id)
            violate("C25", "value-pointer", "sorting exchanged values and pointers");
        Pm = t;
        break;
      }
      }
      break;
    }
    case 7:
      if (!Pex)
        break;
      if (flip(3, 4)) {
        begin();
        rc = APP(v_move_pool());
        end();
        rc_ok(rc, "move of the vector");
        break;
      }
      rc_ok(APP(v_destroy()), "destruction");
      Pm.clear();
      Pex = false;
      break;
    case 8: {
      int i = pick(2, [](int q) { return !Sf[q].exists; });
      bool part = choose(2);
      int v = (int)choose(150), own = (int)choose(4);
      if (part)
        i = pick(2, [](int q) { return !Sp[q].exists; });
      if (i < 0)
        break;
      ev("%s %d with %d", part ? "small map" : "map", i, v);
      begin();
      rc = APP(part ? s_make_part(i, v) : s_make(i, v, own));
      end();
      if (!rc_ok(rc, "construction of a map"))
        break;
      Cells &c = part ? Sp[i] : Sf[i];
      c.exists = true;
      c.v[0] = c.v[1] = c.v[3] = v;
      c.v[2] = !part && own & 1 ? v + 1 : -1;
      c.v[4] = !part && own & 2 ? v + 2 : -1;
      break;
    }
    case 9: {
      int i = pick(2, [](int q) { return Sf[q].exists; }), j = pick(2, [](int q) { return Sp[q].exists; });
      if (i < 0 || j < 0)
        break;
      int how = (int)choose(8);
      bool to_full = how == 0 || how == 2 || how == 5 || how == 7, mv = how & 2;
      ev("%s map %d and small map %d, way %d", mv ? "move between" : "copy between", i, j, how);
      begin();
      rc = APP(s_transfer(i, j, how));
      end();
      if (mv && (rc == 1 || rc == 3))
        violate("C25", "move-copies", "moving cells fails as if they were copied");
      bool ok = rc_ok(rc, "transfer");
      Cells &t = to_full ? Sf[i] : Sp[j], &f = to_full ? Sp[j] : Sf[i];
      auto get = [&](int q) { return APP(to_full ? s_val(i, 0, q) : s_val(j, 1, q)); };
      if (!ok) {
        count("probe.transfer_failed");
        mixed(t, f, get, {0, 1, 3}, "copying cells");
        break;
      }
      for (int q : part_cells) {
        t.v[q] = f.v[q];
        if (mv)
          f.v[q] = -3;
      }
      break;
    }
    case 10: {
      bool part = choose(2);
      int i = pick(2, [&](int q) { return part ? Sp[q].exists : Sf[q].exists; });
      if (i < 0)
        break;
      ev("%s %d is destroyed", part ? "small map" : "map", i);
      rc = APP(part ? s_destroy_part(i) : s_destroy(i));
      rc_ok(rc, "destruction of a map");
      (part ? Sp[i] : Sf[i]) = Cells();
      break;
    }
    case 11: {
      int k = (int)choose(4), i = pick(2, [&](int q) { return !Tp[k][q].exists; });
      if (i < 0)
        break;
      int v = (int)choose(150);
      ev("tuple %d/%d with %d", k, i, v);
      begin();
      rc = APP(p_make(k, i, v));
      end();
      if (!rc_ok(rc, "construction of a tuple"))
        break;
      Tp[k][i].exists = true;
      for (int &x : Tp[k][i].v)
        x = v;
      break;
    }
    case 12: {
      int k = (int)choose(4), i = pick(2, [&](int q) { return Tp[k][q].exists; }),
          j = pick(2, [&](int q) { return Tp[k][q].exists; });
      if (i < 0)
        break;
      int mv = (int)choose(2);
      ev("tuple %d/%d %s-assign from %d", k, i, mv ? "move" : "copy", j);
      begin();
      rc = APP(p_assign(k, i, j, mv));
      end();
      if (mv && (rc == 1 || rc == 3))
        violate("C25", "move-copies", "moving a tuple fails as if it was copied");
      bool ok = rc_ok(rc, "assignment of a tuple");
      Cells &t = Tp[k][i], &f = Tp[k][j];
      std::vector<int> cs = {0, 1};
      if (!k || k == 3)
        cs.push_back(2);
      if (!ok)
        mixed(t, f, [&](int q) { return APP(p_val(k, i, q)); }, cs, "copying a tuple");
      else if (i != j)
        for (int q : cs) {
          t.v[q] = f.v[q];
          if (mv)
            f.v[q] = -3;
        }
      else if (mv)
        for (int q : cs)
          t.v[q] = -3;
      break;
    }
    case 13: {
      int k = (int)choose(4), i = pick(2, [&](int q) { return Tp[k][q].exists; });
      if (i < 0 || !flip(1, 3))
        break;
      ev("tuple %d/%d is destroyed", k, i);
      rc_ok(APP(p_destroy(k, i)), "destruction");
      Tp[k][i] = Cells();
      break;
    }
    case 14: {
      int k = (int)choose(5);
      int i = pick(2, [&](int q) { return (k == 0 ? Sf[q] : k == 1 ? Sp[q] : k == 2 ? Tp[3][q] : Tp[k - 3][q]).exists; });
      if (i < 0)
        break;
      static const char *const what[] = {"map", "small map", "map of types", "tuple", "pair"};
      ev("cells of %s %d are visited", what[k], i);
      int r = APP(s_visit(k >= 2 ? k + 1 : k, i));
      if (r)
        violate("C25", "visit", r == 1 ? "cells are not visited once each, in order"
                                       : "a visited cell is not the one which holds the value");
      count("probe.visits");
      break;
    }
    case 15: {
      int i = (int)choose(2), j = (int)choose(2);
      int w = (int)choose(164) - 1, v[2] = {3, 4};
      ev("exchange %d and %d of kind %d", i, j, w);
      if (w >= 0) {
        // the neighbours of the object must not change either
        for (int q = std::max(w - 1, 0); q < std::min(w + 2, 163); ++q)
          for (int k = 0; k < 2; ++k)
            APP(b_fill(k, q, 3 + k));
      }
      begin();
      rc = APP(b_swap(i, j, w));
      end();
      bool done = rc_ok(rc, "exchange");
      if (done && w < 0)
        std::swap(Bv[i], Bv[j]), std::swap(Bc[i], Bc[j]);
      if (done)
        std::swap(v[i], v[j]);
      if (w >= 0)
        for (int q = std::max(w - 1, 0); q < std::min(w + 2, 163); ++q)
          for (int k = 0; k < 2; ++k)
            if (!APP(b_pack(k, q, q == w ? v[k] : 3 + k)))
              violate("C25", "exchange", "object %d of kind %d is damaged", k, q);
      if (!done)
        count("probe.exchange_failed");
      break;
    }
    }
    c_all("after an operation");
  }
  for (int k = 0; k < 6; ++k)
    for (int i = 0; i < 2; ++i)
      if (Am[k][i].exists) {
        APP(m_destroy(k, i));
        Am[k][i] = Arr();
        c_all("destruction");
      }
  if (Pex) {
    APP(v_destroy());
    Pm.clear();
    Pex = false;
  }
  for (int i = 0; i < 2; ++i) {
    if (Sf[i].exists)
      rc_ok(APP(s_destroy(i)), "destruction of a map");
    if (Sp[i].exists)
      APP(s_destroy_part(i));
    Sf[i] = Sp[i] = Cells();
    for (int k = 0; k < 4; ++k)
      if (Tp[k][i].exists) {
        APP(p_destroy(k, i));
        Tp[k][i] = Cells();
      }
  }
  c_all("at the end");
  std::string d;
  if (live_since(mark, &d))
    violate("C25", "leak", "memory is never released: %s", d.c_str());
  end_run();
}
World worlds[] = {{"trait", world_trait}, {"cells", world_cells}};
}
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 2); }
