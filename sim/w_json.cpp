// JSON world: values written and read by bcl/Json.h with allocations and
// formatting failing at any point and documents damaged on the way, against
// an independent reader and value model.
#include "json.h"
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
using namespace rt;
extern "C" {
int j_types();
void j_schema(int);
void j_kind(const char *);
void j_name_key(const char *);
void j_length(size_t, int);
int j_fresh(int, void **);
int j_build(int, void *, const JN *);
int j_dump(int, const void *);
int j_drop(int, void *, int);
int j_unparse(int, const void *, int, void **);
int j_pointers(const JN *, int, void **);
void j_text(void *);
void j_text_drop(void *);
int j_parser(const char *, size_t, void **);
void j_parser_drop(void *);
int j_parse(void *, int, void *, int *);
int j_parse_object(void *, void **, int *);
void j_object_dump(void *, int);
void j_object_drop(void *);
int j_errors(void *);
size_t j_error_list(void *);
}
#define APP(x)                                                                 \
  ({                                                                           \
    App a_;                                                                    \
    x;                                                                         \
  })
namespace {
typedef std::string str;
str sink;
str hex(const char *p, size_t n) {
  str s = "'";
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = p[i];
    if (isalnum(c) || c == ' ' || c == '.' || c == '_')
      s += c;
    else {
      char b[4];
      snprintf(b, sizeof b, "%%%02x", c);
      s += b;
    }
  }
  return s + "'";
}
str hex(const str &s) { return hex(s.data(), s.size()); }
str dbl(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
str shorten(const str &s) {
  str r;
  for (unsigned char c : s)
    if (c >= 32 && c < 127)
      r += (char)c;
    else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  return r.size() > 300 ? r.substr(0, 300) + "..." : r;
}
// ---------------------------------------------------------------- schemas
struct Ty {
  char k;
  std::vector<Ty *> a;
  std::vector<str> names;
};
std::deque<Ty> pool;
Ty *parse_schema(const char *&p) {
  pool.emplace_back();
  Ty *t = &pool.back();
  t->k = *p++;
  if (*p == '(') {
    ++p;
    while (*p != ')') {
      if (t->k == 'R') {
        str n;
        while (*p != ':')
          n += *p++;
        ++p;
        t->names.push_back(n);
      }
      t->a.push_back(parse_schema(p));
      if (*p == ',')
        ++p;
    }
    ++p;
  }
  return t;
}
bool is_int(char k) { return strchr("ilLukK", k); }
bool is_sign(char k) { return strchr("ilL", k); }
// ---------------------------------------------------------------- values
struct Val {
  char k = 0; // i u d b s 0 (null) | v m r o
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  str s;
  std::vector<Val> c, key;
};
u32 budget;
str gen_string(bool nul) {
  u32 n = weighted({6, 3, 1});
  n = n == 0 ? choose(6) : n == 1 ? 6 + choose(12) : flip(1, 60) ? 300 + choose(4000) : 18 + choose(50);
  str s;
  if (n > 4200) { // more than fits 16 bits
    u32 m = 65500 + choose(100), a = choose(90);
    for (u32 i = 0; i < m; ++i)
      s += (char)(i % 97 == 96 ? '"' : 33 + (a + i * 7) % 90);
    return s;
  }
  u32 style = weighted({3, 4, 2});
  static const char tricky[] = "\"\\/\n\t\r\f\v{}[],: nrtfi0'";
  for (u32 i = 0; i < n; ++i)
    if (style == 0)
      s += (char)('a' + choose(26));
    else if (style == 1)
      s += choose(2) ? tricky[choose(sizeof tricky - 1)] : (char)('a' + choose(26));
    else
      s += (char)choose(256);
  if (style == 1 && choose(6) == 1) {
    static const char *w[] = {"null", "true", "name", "Human", "0", "A", "\\", "\"", "/"};
    s = w[choose(9)];
  }
  if (!nul)
    for (char &c : s)
      if (!c)
        c = 'z';
  return s;
}
str canon(const Val &v, const Ty *t);
Val gen(const Ty *t, const str &kind);
// An element, value of a key or field, which may be absent.
Val gen_part(const Ty *t, const str &kind) {
  Val v;
  if (t->k == 'z' && choose(5) == 1) {
    v.k = '0';
    return v;
  }
  return gen(t, kind);
}
// The order of keys.
bool before(const Val &a, const Val &b, const Ty *t) {
  if (t->k == 'c')
    return (signed char)a.s[0] < (signed char)b.s[0];
  return a.k == 'i' || a.k == 'b' ? a.i < b.i : a.k == 'u' ? a.u < b.u : a.s < b.s;
}
Val gen(const Ty *t, const str &kind) {
  Val v;
  switch (t->k) {
  case 'i':
  case 'l':
  case 'L': {
    v.k = 'i';
    static const long long e32[] = {0, 1, -1, 7, 42, 2147483647ll, -2147483648ll, 1000000, -99};
    static const long long e64[] = {0, 1, -1, 9223372036854775807ll, (-9223372036854775807ll - 1), 4294967296ll, -2147483649ll};
    v.i = choose(3) == 0 ? (long long)choose(100) : t->k == 'i' ? e32[choose(9)] : e64[choose(7)];
    break;
  }
  case 'u':
  case 'k':
  case 'K': {
    v.k = 'u';
    static const unsigned long long e32[] = {0, 1, 9, 2147483648ull, 4294967295ull, 4294967294ull};
    static const unsigned long long e64[] = {0, 1, 9223372036854775808ull, 18446744073709551615ull, 4294967296ull, 4294967295ull};
    v.u = choose(3) == 0 ? choose(100) : t->k == 'u' ? e32[choose(6)] : e64[choose(6)];
    break;
  }
  case 'd':
  case 'f':
    v.k = 'd';
    v.d = ((int)choose(2001) - 1000) / (double)(1 << choose(7));
    if (choose(5) == 1)
      v.d *= t->k == 'd' ? 1099511627776.0 : 4096.0;
    break;
  case 'b':
    v.k = 'b';
    v.i = choose(2);
    break;
  case 'c':
    v.k = 's';
    v.s = str(1, choose(2) ? (char)choose(256) : "\"\\/\n\t a0\rn"[choose(10)]);
    break;
  case 's':
    v.k = 's';
    v.s = gen_string(true);
    break;
  case 'z':
    v.k = 's';
    v.s = gen_string(false);
    break;
  case 'v':
  case 'S':
  case 'a': {
    v.k = 'v';
    u32 n = budget ? weighted({2, 3, 3, 2, 1, 1}) : 0;
    u32 copies = 0;
    if (n == 5) {
      bool many = strchr("ilLukKbcs", t->a[0]->k) && flip(1, 12);
      if (many && flip(1, 6)) // more than any fixed table of the library could take
        copies = t->a[0]->k == 's' || flip(2, 3) ? 4000 + choose(300) : 65500 + choose(100);
      n = many && !copies ? 257 + choose(60) : 5 + choose(9);
    }
    if (t->k == 'a' && !n)
      n = 1;
    budget -= std::min(budget, n);
    for (u32 i = 0; i < n; ++i)
      v.c.push_back(gen_part(t->a[0], kind));
    if (copies)
      count("probe.very_long_arrays");
    while (v.c.size() < copies)
      v.c.push_back(v.c[v.c.size() - n]);
    if (t->k == 'S') {
      auto lt = [&](const Val &a, const Val &b) { return before(a, b, t->a[0]); };
      std::sort(v.c.begin(), v.c.end(), lt);
      v.c.erase(std::unique(v.c.begin(), v.c.end(),
                            [&](const Val &a, const Val &b) { return !lt(a, b) && !lt(b, a); }),
                v.c.end());
    }
    break;
  }
  case 'm':
  case 'M': {
    v.k = 'm';
    u32 n = budget ? weighted({2, 3, 3, 2, 1}) : 0;
    budget -= std::min(budget, n);
    std::vector<std::pair<Val, Val>> p;
    for (u32 i = 0; i < n; ++i) {
      Val a = gen(t->a[0], kind);
      p.emplace_back(a, gen_part(t->a[1], kind));
    }
    auto lt = [&](const std::pair<Val, Val> &x, const std::pair<Val, Val> &y) {
      return before(x.first, y.first, t->a[0]);
    };
    std::stable_sort(p.begin(), p.end(), lt);
    if (t->k == 'm')
      p.erase(std::unique(p.begin(), p.end(), [&](auto &a, auto &b) { return !lt(a, b) && !lt(b, a); }), p.end());
    for (auto &x : p) {
      v.key.push_back(x.first);
      v.c.push_back(x.second);
    }
    break;
  }
  case 'o':
    v.k = 'o';
    if (choose(3))
      v.c.push_back(gen(t->a[0], kind));
    break;
  case 'R':
    v.k = 'r';
    for (auto *f : t->a)
      v.c.push_back(gen_part(f, kind));
    break;
  case 'D': {
    v.k = 'v';
    u32 n = weighted({2, 3, 2, 1});
    for (u32 i = 0; i < n; ++i) {
      static const unsigned long long p[] = {0, 5, 100, 18446744073709551615ull};
      Val e;
      e.k = 's';
      e.i = choose(3) ? choose(10) : 404;
      e.u = p[choose(4)];
      e.s = gen_string(false);
      v.c.push_back(e);
    }
    for (auto &e : v.c)
      e.key.push_back(Val()), e.key[0].s = kind + " C" + std::to_string(e.i) + "(" + std::to_string(e.u) + "): " + e.s;
    break;
  }
  }
  return v;
}
// With gap: what the text of the value tells, in which absent values do not
// occur; set if an array cannot be read because of that.
str canon(const Val &v, const Ty *t, bool *gap) {
  str r;
  switch (v.k) {
  case '0': return "~";
  case 'i': return std::to_string(v.i);
  case 'u': return std::to_string(v.u);
  case 'd': return dbl(t->k == 'f' ? (float)v.d : v.d);
  case 'b': return v.i ? "T" : "F";
  case 's': return hex(v.s);
  case 'v':
  {
    r = "[";
    bool hole = false, late = false;
    for (auto &e : v.c)
      if (e.k == '0')
        hole = true;
      else if (hole)
        late = true;
    if (gap && late)
      *gap = true;
    for (size_t i = 0; i < v.c.size(); ++i)
      if (!gap || v.c[i].k != '0') {
        auto &e = v.c[i];
        if (gap && late)
          r += std::to_string(i) + "=";
        r += (t->k == 'D' ? hex(e.key[0].s) : canon(e, t->a[0], gap)) + ",";
      }
    return r + "]";
  }
  case 'm':
    r = "{";
    for (size_t i = 0; i < v.c.size(); ++i)
      if (!gap || v.c[i].k != '0')
        r += canon(v.key[i], t->a[0], nullptr) + ":" + canon(v.c[i], t->a[1], gap) + ",";
    return r + "}";
  case 'o': return v.c.empty() ? "?" : "!" + canon(v.c[0], t->a[0], gap);
  case 'r':
    r = "(";
    for (size_t i = 0; i < v.c.size(); ++i)
      r += canon(v.c[i], t->a[i], gap) + ",";
    return r + ")";
  }
  return "";
}
str canon(const Val &v, const Ty *t) { return canon(v, t, nullptr); }
// What a field which is not in the text keeps.
str canon_default(const Ty *t) {
  str r;
  switch (t->k) {
  case 'd':
  case 'f': return "0";
  case 'b': return "F";
  case 'c': return hex(str(1, 0));
  case 's': return "''";
  case 'z': return "~";
  case 'v':
  case 'S':
  case 'a':
  case 'D': return "[]";
  case 'm':
  case 'M': return "{}";
  case 'o': return "?";
  case 'R':
    r = "(";
    for (auto *f : t->a)
      r += canon_default(f) + ",";
    return r + ")";
  }
  return "0";
}
// As the adapter wants it.
std::deque<JN> jns;
std::deque<std::vector<JN *>> jvs;
JN *to_jn(const Val &v) {
  jns.emplace_back();
  JN *n = &jns.back();
  n->k = v.k;
  n->i = v.i;
  n->u = v.u;
  n->d = v.d;
  n->s = v.k == '0' ? nullptr : v.s.c_str();
  n->n = v.s.size();
  n->nc = v.c.size();
  auto arr = [&](const std::vector<Val> &x) {
    jvs.emplace_back();
    auto *a = &jvs.back();
    for (auto &e : x)
      a->push_back(to_jn(e));
    return a->data();
  };
  if (!v.c.empty())
    n->c = arr(v.c);
  if (!v.key.empty())
    n->key = arr(v.key);
  return n;
}
// ---------------------------------------------------------------- own writer
u32 spaces; // 0 = none
str ws() {
  if (!spaces || !flip(1, spaces))
    return "";
  static const char *w[] = {" ", "\n", "\t", "  ", "\r\n"};
  return w[choose(5)];
}
str quoted(const str &s) {
  str r = "\"";
  for (char c : s)
    switch (c) {
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    case '\v': r += "\\v"; break;
    case '\f': r += "\\f"; break;
    case '\r': r += "\\r"; break;
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    default: r += c;
    }
  return r + "\"";
}
u32 extras; // 0 = none
str name_key = "name";
u32 doubles;        // 0 = none: elements, keys and indexes which make the text wrong
const char *wrong;  // why the composed text must be refused
u32 swaps;          // 0 = none: values of another type; the reader of the harness decides
bool swapped;
// A value of a member nobody asks for.
str extra_value(int depth) {
  switch (weighted({4, 3, 3, depth ? 4u : 0u, depth ? 4u : 0u})) {
  case 0: return std::to_string((int)choose(200) - 50);
  case 1: return quoted(choose(2) ? "}],{:" : "x");
  case 2: return choose(3) ? choose(2) ? "true" : "false" : "null";
  case 3: {
    str r = "[" + ws();
    for (u32 i = 0, n = choose(4); i < n; ++i)
      r += (i ? "," + ws() : "") + extra_value(depth - 1) + ws();
    return r + "]";
  }
  default: {
    static const char *k[] = {"name", "A", "x", "Owner", "B"};
    str r = "{" + ws();
    for (u32 i = 0, n = choose(4); i < n; ++i)
      r += (i ? "," + ws() : "") + quoted(k[choose(5)]) + ws() + ":" + ws() + extra_value(depth - 1) + ws();
    return r + "}";
  }
  }
}
str text(const Val &v, const Ty *t, const char *name = nullptr) {
  str r;
  char b[512];
  if (swaps && flip(1, swaps)) {
    static const char *w[] = {"\"abc\"", "\"null\"", "null", "\"true\"", "true", "\"12\"", "12", "1.5", "\"\"", "[]", "{}", "-3", "\"nul\"", "\"nulls\"", "false"};
    swapped = true;
    switch (choose(4)) {
    case 0: break;
    case 1: return extra_value(2);
    case 2:
      swaps *= 4;
      r = "[" + text(v, t) + "]";
      swaps /= 4;
      return r;
    case 3:
      swaps *= 4;
      r = "{\"0\":" + text(v, t) + "}";
      swaps /= 4;
      return r;
    }
    return w[choose(sizeof w / sizeof *w)];
  }
  switch (v.k) {
  case 'i': return std::to_string(v.i);
  case 'u': return std::to_string(v.u);
  case 'd':
    snprintf(b, sizeof b, "%.*f", 6 + (int)choose(3), v.d);
    return b;
  case 'b': return v.i ? "true" : "false";
  case 's': {
    if (t->k != 'z' || choose(8) != 7)
      return quoted(v.s);
    // an array of characters with the zero at its end
    u32 how = choose(2), turn = choose((u32)v.s.size() + 1);
    r = how ? "{" : "[";
    for (size_t i = 0; i <= v.s.size(); ++i) {
      size_t j = how ? (i + turn) % (v.s.size() + 1) : i;
      r += (i ? "," : "") + ws() + (how ? "\"" + std::to_string(j) + "\":" : "") + ws() +
           quoted(j == v.s.size() ? str(1, 0) : str(1, v.s[j])) + ws();
    }
    count("probe.character_arrays");
    return r + (how ? "}" : "]");
  }
  case 'o': return v.c.empty() ? "null" : text(v.c[0], t->a[0]);
  case 'v': {
    bool obj = !v.c.empty() && (t->k == 'v' || t->k == 'a') && choose(4) == 1;
    for (auto &e : v.c)
      obj |= e.k == '0';
    if (t->k == 'a' && v.c.size() == 1 && choose(2))
      return text(v.c[0], t->a[0]);
    std::vector<size_t> o(v.c.size());
    for (size_t i = 0; i < o.size(); ++i)
      o[i] = i;
    if (obj || t->k == 'S')
      for (size_t i = 1; i < o.size(); ++i)
        std::swap(o[i], o[i - choose((u32)i + 1)]);
    r = obj ? "{" : "[";
    bool some = false;
    for (size_t i = 0; i < o.size(); ++i) {
      if (v.c[o[i]].k == '0')
        continue;
      bool twice = false, moved = false;
      do {
        r += (some ? "," + ws() : ws());
        some = true;
        if (obj) {
          str x = std::to_string(o[i]);
          if (twice || (doubles && flip(1, doubles))) {
            static const char *far[] = {"4294967296", "8589934592", "18446744073709551615", "18446744073709551616", "65536", "256"};
            switch (twice ? 0 : choose(4)) {
            case 0:
              break;
            case 1:
              x = far[choose(6)];
              wrong = "an index is too large";
              break;
            case 2:
              x = std::to_string(o[i] + (1ull << (choose(2) ? 32 : 8 + choose(40))));
              wrong = "an index is too large";
              break;
            case 3: // this element becomes one behind the last
              x = std::to_string(o.size());
              wrong = "an index is missing";
              moved = true;
              count("probe.moved_indexes");
              break;
            }
          }
          r += "\"" + x + "\"" + ws() + ":" + ws();
        }
        if (t->k == 'D' && swaps && flip(1, swaps)) {
          str m = v.c[o[i]].key[0].s;
          size_t at = choose((u32)std::min<size_t>(m.size(), 24));
          swapped = true;
          if (m.empty() || choose(2))
            m.insert(at, 1, " 0C():,x"[choose(8)]);
          else
            m.erase(at, 1);
          r += quoted(m) + ws();
        } else
          r += (t->k == 'D' ? quoted(v.c[o[i]].key[0].s) : text(v.c[o[i]], t->a[0])) + ws();
        twice = !twice && !moved && doubles && (obj || t->k == 'S') && flip(1, doubles);
        if (twice)
          wrong = obj ? "an index is doubled" : "an element is doubled";
      } while (twice);
    }
    if (!some)
      r += ws();
    return r + (obj ? "}" : "]");
  }
  case 'm':
  case 'r': {
    std::vector<size_t> o(v.c.size());
    for (size_t i = 0; i < o.size(); ++i)
      o[i] = i;
    if (t->k != 'M')
      for (size_t i = 1; i < o.size(); ++i)
        std::swap(o[i], o[i - choose((u32)i + 1)]);
    size_t at = name ? choose((u32)o.size() + 1) : ~0u;
    r = "{";
    bool first = true;
    auto sep = [&] {
      r += (first ? ws() : "," + ws());
      first = false;
    };
    for (size_t i = 0; i <= o.size(); ++i) {
      if (i == at) {
        sep();
        r += "\"" + name_key + "\"" + ws() + ":" + ws() + quoted(name) + ws();
      }
      if (v.k == 'r' && extras && flip(1, extras)) {
        // some look like a name which is asked for
        static const char *k[] = {"extra", "@", "", "Extra", "names", "nam", "Names", "Nam", "AA", "a", "Ag", "Agee"};
        sep();
        u32 deep = choose(40) == 39 ? 1 + choose(choose(4) ? 300 : 900) : 0;
        r += quoted(k[choose(12)]) + ws() + ":" + ws();
        if (deep) {
          count("probe.deep_members");
          str e;
          for (u32 q = 0; q < deep; ++q) {
            bool b = choose(2);
            r += b ? "[" : "{\"x\":";
            e += b ? "]" : "}";
          }
          std::reverse(e.begin(), e.end());
          r += extra_value(1) + e + ws();
        } else
          r += extra_value(3) + ws();
        count("probe.unknown_members");
      }
      if (i == o.size())
        break;
      if (v.c[o[i]].k == '0')
        continue;
      sep();
      str k = v.k == 'r' ? t->names[o[i]] : v.key[o[i]].k == 's' ? v.key[o[i]].s : v.key[o[i]].k == 'b' ? text(v.key[o[i]], t->a[0]) : canon(v.key[o[i]], t->a[0]);
      r += quoted(k) + ws() + ":" + ws() + text(v.c[o[i]], v.k == 'r' ? t->a[o[i]] : t->a[1]) + ws();
      if (t->k == 'm' && doubles && flip(1, doubles)) {
        sep();
        r += quoted(k) + ws() + ":" + ws() + text(v.c[choose(2) ? o[i] : choose((u32)o.size())], t->a[1]) + ws();
        wrong = "a key is doubled";
      }
    }
    return r + (first ? ws() : "") + "}";
  }
  }
  return r;
}
// Reading replaces all of a value of this type.
bool replaced(const Ty *t) {
  if (strchr("zaSmMDR", t->k))
    return false;
  for (auto *a : t->a)
    if (!replaced(a))
      return false;
  return true;
}
// ---------------------------------------------------------------- own reader
struct Node {
  char k; // " string, s scalar, [ {
  str raw;
  std::vector<Node> c;
  std::vector<str> key;
};
struct Bad {};
struct Reader {
  const str &s;
  size_t p = 0;
  void sp() {
    while (p < s.size() && isspace((unsigned char)s[p]))
      ++p;
  }
  char peek() {
    sp();
    if (p >= s.size())
      throw Bad();
    return s[p];
  }
  str quotes() {
    if (peek() != '"')
      throw Bad();
    size_t b = ++p;
    while (p < s.size() && s[p] != '"')
      p += s[p] == '\\' ? 2 : 1;
    if (p >= s.size())
      throw Bad();
    return s.substr(b, p++ - b);
  }
  Node value(int depth = 0) {
    if (depth > 2000)
      throw Bad();
    Node n;
    char c = peek();
    n.k = c;
    if (c == '"') {
      n.raw = quotes();
      return n;
    }
    if (c == '[' || c == '{') {
      char e = c == '[' ? ']' : '}';
      ++p;
      if (peek() == e) {
        ++p;
        return n;
      }
      for (;;) {
        if (c == '{') {
          n.key.push_back(quotes());
          if (peek() != ':')
            throw Bad();
          ++p;
        }
        n.c.push_back(value(depth + 1));
        char d = peek();
        ++p;
        if (d == e)
          return n;
        if (d != ',')
          throw Bad();
      }
    }
    n.k = 's';
    while (p < s.size() && !isspace((unsigned char)s[p]) && !strchr("{}[],:\"", s[p] ? s[p] : 'x'))
      n.raw += s[p++];
    if (n.raw.empty())
      throw Bad();
    return n;
  }
};
// Verdict on a document: what reading it as a type must give.
enum { VALID, GREY, REFUSE };
struct Reading {
  int v = VALID;
  str why;
  bool pointers = false; // a pointer could be replaced
  void worst(int x, const char *w) {
    // a piece of which nothing is known leaves the whole open
    if (v == GREY)
      return;
    if (x == GREY || v == VALID) {
      v = x;
      why = w;
    }
  }
};
bool unescape(const str &r, str &o) {
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i] != '\\') {
      o += r[i];
      continue;
    }
    switch (r[++i]) {
    case 'n': o += '\n'; break;
    case 't': o += '\t'; break;
    case 'v': o += '\v'; break;
    case 'f': o += '\f'; break;
    case 'r': o += '\r'; break;
    case '"':
    case '\\': o += r[i]; break;
    default: return false;
    }
  }
  return true;
}
str read_int(const str &raw, char k, Reading &R) {
  size_t b = raw.size() > 1 && raw[0] == '-' ? 1 : 0;
  if (raw.size() == b || raw.size() > 40) {
    R.worst(GREY, "no number");
    return "0";
  }
  for (size_t i = b; i < raw.size(); ++i)
    if (raw[i] < '0' || raw[i] > '9') {
      R.worst(GREY, "no number");
      return "0";
    }
  if (raw[b] == '0' && raw.size() > b + 1) {
    R.worst(GREY, "leading zero");
    return "0";
  }
  if (b && !is_sign(k)) {
    R.worst(GREY, "sign");
    return "0";
  }
  long double x = 0;
  for (size_t i = b; i < raw.size(); ++i)
    x = x * 10 + (raw[i] - '0');
  long double max = k == 'i' ? 2147483647.0L + b : k == 'u' ? 4294967295.0L
                    : is_sign(k) ? 9223372036854775807.0L + b : 18446744073709551615.0L;
  if (x > max) {
    R.worst(REFUSE, "the number does not fit the type");
    return "0";
  }
  return raw == "-0" ? "0" : raw;
}
// One of the words, or something like a number.
bool scalar(const str &raw) {
  if (raw == "true" || raw == "false" || raw == "null")
    return true;
  for (char c : raw)
    if (!c || !strchr("0123456789+-.eE", c))
      return false;
  return raw[0] != 'e' && raw[0] != 'E';
}
bool well_formed(const Node &n) {
  for (auto &c : n.c)
    if (!well_formed(c))
      return false;
  return n.k != 's' || scalar(n.raw);
}
bool plain(const Node &n) {
  for (auto &c : n.c)
    if (!plain(c))
      return false;
  if (n.k != 's' || n.raw == "true" || n.raw == "false" || n.raw == "null")
    return true;
  Reading R;
  read_int(n.raw, 'L', R);
  return R.v == VALID;
}
// Not even something which starts like a number.
bool no_number(const Node &n) {
  if (n.k == '[' || n.k == '{')
    return true;
  size_t i = 0;
  while (i < n.raw.size() && isspace((unsigned char)n.raw[i]))
    ++i;
  return i == n.raw.size() || (n.raw[i] != '\\' && !strchr("0123456789+-", n.raw[i] ? n.raw[i] : 'x'));
}
str read(const Node &n, const Ty *t, Reading &R, const str &kind, bool root = false) {
  switch (t->k) {
  case 'i':
  case 'l':
  case 'L':
  case 'u':
  case 'k':
  case 'K':
    if (no_number(n) || n.k != 's') {
      R.worst(no_number(n) ? REFUSE : GREY, "this is no number");
      return "0";
    }
    return read_int(n.raw, t->k, R);
  case 'd':
  case 'f': {
    size_t i = n.raw[0] == '-' ? 1 : 0, d = 0, e = 0;
    if (n.k != 's' || n.raw.size() > 60) {
      R.worst(n.k == '[' || n.k == '{' ? REFUSE : GREY, "type");
      return "0";
    }
    for (; i < n.raw.size() && isdigit((unsigned char)n.raw[i]); ++i)
      ++d;
    if (d && i + 1 < n.raw.size() && n.raw[i] == '.')
      for (++i; i < n.raw.size() && isdigit((unsigned char)n.raw[i]); ++i)
        ++e;
    if (!d || i != n.raw.size()) {
      R.worst(GREY, "no number");
      return "0";
    }
    double v = t->k == 'f' ? strtof(n.raw.c_str(), nullptr) : strtod(n.raw.c_str(), nullptr);
    if (std::isinf(v) || (v != 0 && std::fabs(v) < 1e-30)) // the C library may report a range error
      R.worst(GREY, "range");
    return dbl(v);
  }
  case 'b':
    if (n.k == 's' && (n.raw == "true" || n.raw == "false"))
      return n.raw == "true" ? "T" : "F";
    R.worst(n.k == '"' ? GREY : REFUSE, "this is neither true nor false");
    return "F";
  case 'c':
  case 's':
  case 'z': {
    str o;
    if (t->k == 'z' && (n.k == '[' || n.k == '{') && !n.c.empty()) {
      std::map<unsigned long long, str> e;
      for (size_t i = 0; i < n.c.size(); ++i) {
        Reading K;
        str k = n.k == '[' ? std::to_string(i) : read_int(n.key[i], 'K', K);
        str x;
        if (K.v == GREY || n.c[i].k != '"' || !unescape(n.c[i].raw, x)) {
          R.worst(GREY, "array of characters");
          return "''";
        }
        if (x.size() != 1 || K.v == REFUSE || !e.emplace(strtoull(k.c_str(), nullptr, 10), x).second) {
          R.worst(REFUSE, "this is no array of characters");
          return "''";
        }
      }
      if (e.rbegin()->first != e.size() - 1) {
        R.worst(REFUSE, "characters of the array are missing");
        return "''";
      }
      for (auto &x : e)
        o += x.second;
      if (o.find('\0') != o.size() - 1) {
        R.worst(GREY, "string");
        return "''";
      }
      o.pop_back();
      return hex(o);
    }
    if (n.k != '"' || !unescape(n.raw, o)) {
      R.worst(t->k != 'z' && (n.k == '[' || n.k == '{') ? REFUSE : GREY, "this is no string");
      return "''";
    }
    if (t->k == 'c' && o.size() != 1) {
      R.worst(REFUSE, "this is not one character");
      return "''";
    }
    if (t->k == 'z' && o.find('\0') != str::npos) {
      R.worst(GREY, "string");
      return "''";
    }
    return hex(o);
  }
  case 'v':
  case 'a': {
    if (t->k == 'a' && n.k == 's')
      return "[" + read(n, t->a[0], R, kind) + ",]";
    if (n.k == '[') {
      str r = "[";
      for (auto &e : n.c)
        r += read(e, t->a[0], R, kind) + ",";
      return r + "]";
    }
    if (n.k != '{') {
      R.worst(t->k == 'v' ? REFUSE : GREY, "this is no array");
      return "[]";
    }
    std::map<unsigned long long, str> e;
    bool dup = false;
    for (size_t i = 0; i < n.c.size(); ++i) {
      Reading K;
      str k = read_int(n.key[i], 'K', K);
      if (K.v == GREY)
        R.worst(GREY, "index");
      if (K.v == REFUSE)
        dup = true;
      str x = read(n.c[i], t->a[0], R, kind);
      if (!e.emplace(strtoull(k.c_str(), nullptr, 10), x).second)
        dup = true;
    }
    bool gap = !e.empty() && e.rbegin()->first != e.size() - 1;
    if (dup || gap)
      R.worst(REFUSE, "elements of the array are missing or doubled");
    str r = "[";
    for (auto &x : e)
      r += (gap ? std::to_string(x.first) + "=" : "") + x.second + ",";
    return r + "]";
  }
  case 'S': {
    if (n.k != '[') {
      R.worst(REFUSE, "this is no set");
      return "[]";
    }
    auto lt = [&](const str &a, const str &b) {
      if (t->a[0]->k == 'c')
        return (signed char)a[0] < (signed char)b[0];
      if (t->a[0]->k == 's')
        return a < b; // sorted again below
      if (a.size() && b.size() && (a[0] == '-') != (b[0] == '-'))
        return a[0] == '-';
      bool neg = a.size() && a[0] == '-';
      if (a.size() != b.size())
        return neg ? a.size() > b.size() : a.size() < b.size();
      return neg ? a > b : a < b;
    };
    std::vector<std::pair<str, str>> e; // sort key, text
    for (auto &x : n.c) {
      str c = read(x, t->a[0], R, kind), k = c;
      if (t->a[0]->k == 's' || t->a[0]->k == 'c') {
        k.clear();
        unescape(x.raw, k);
      }
      e.emplace_back(k, c);
    }
    std::stable_sort(e.begin(), e.end(), [&](auto &a, auto &b) { return lt(a.first, b.first); });
    str r = "[";
    for (size_t i = 0; i < e.size(); ++i) {
      if (i && e[i].first == e[i - 1].first)
        R.worst(REFUSE, "an element of the set is doubled");
      r += e[i].second + ",";
    }
    return r + "]";
  }
  case 'm':
  case 'M': {
    if (n.k != '{') {
      R.worst(n.k == '[' && n.c.empty() ? GREY : REFUSE, "this is no map");
      return "{}";
    }
    struct E {
      str k, c, v;
    };
    std::vector<E> e;
    bool st = t->a[0]->k == 's' || t->a[0]->k == 'c';
    for (size_t i = 0; i < n.c.size(); ++i) {
      E x;
      if (st) {
        if (!unescape(n.key[i], x.k))
          R.worst(GREY, "key");
        x.c = hex(x.k);
        if (t->a[0]->k == 'c' && x.k.size() != 1)
          R.worst(REFUSE, "the key is not one character");
      } else if (t->a[0]->k == 'b') {
        x.c = x.k = n.key[i] == "true" ? "T" : "F";
        if (n.key[i] != "true" && n.key[i] != "false")
          R.worst(n.key[i].find('\\') == str::npos ? REFUSE : GREY, "the key is neither true nor false");
      } else
        x.c = x.k = read_int(n.key[i], t->a[0]->k, R);
      x.v = read(n.c[i], t->a[1], R, kind);
      e.push_back(x);
    }
    auto lt = [&](const E &a, const E &b) {
      if (t->a[0]->k == 'c')
        return (signed char)a.k[0] < (signed char)b.k[0];
      if (st || t->a[0]->k == 'b')
        return a.k < b.k;
      return strtold(a.k.c_str(), nullptr) < strtold(b.k.c_str(), nullptr);
    };
    std::stable_sort(e.begin(), e.end(), lt);
    str r = "{";
    for (size_t i = 0; i < e.size(); ++i) {
      if (t->k == 'm' && i && e[i].k == e[i - 1].k)
        R.worst(REFUSE, "a key of the map is doubled");
      r += e[i].c + ":" + e[i].v + ",";
    }
    return r + "}";
  }
  case 'o':
    if (n.k == 's' && n.raw == "null")
      return "?";
    if (n.k == '"' && n.raw == "null" && t->a[0]->k != 's')
      R.worst(GREY, "null in quotes");
    return "!" + read(n, t->a[0], R, kind);
  case 'R': {
    if (n.k != '{') {
      R.worst(REFUSE, "this is no record");
      return "";
    }
    std::vector<str> f;
    for (auto *x : t->a)
      f.push_back(canon_default(x));
    std::vector<int> seen(f.size());
    for (size_t i = 0; i < n.c.size(); ++i) {
      size_t j = 0;
      while (j < f.size() && t->names[j] != n.key[i])
        ++j;
      if (j == f.size()) {
        // what nobody asks for is skipped
        if (!plain(n.c[i]))
          R.worst(GREY, "unknown key");
        continue;
      }
      if (seen[j]++) {
        R.worst(GREY, "doubled key");
        R.pointers = true;
      }
      f[j] = read(n.c[i], t->a[j], R, kind);
    }
    str r = "(";
    for (auto &x : f)
      r += x + ",";
    return r + ")";
  }
  case 'D': {
    if (n.k != '[') {
      R.worst(n.k == '{' ? GREY : REFUSE, "this is no list");
      return "[]";
    }
    str r = "[";
    for (auto &x : n.c) {
      str o;
      if (x.k != '"' || !unescape(x.raw, o) || o.find('\0') != str::npos) {
        R.worst(GREY, "string");
        continue;
      }
      size_t p = kind.size() + 2;
      if (o.compare(0, p, kind + " C")) {
        R.worst(REFUSE, "the message is of another kind");
        continue;
      }
      size_t a = o.find('(', p), b = a == str::npos ? a : o.find("):", a);
      if (b == str::npos) {
        R.worst(GREY, "form");
        continue;
      }
      Reading A;
      read_int(o.substr(p, a - p), 'K', A);
      read_int(o.substr(a + 1, b - a - 1), 'K', A);
      if (A.v != VALID)
        R.worst(GREY, "number");
      else if (b + 2 == o.size() || o[b + 2] != ' ')
        R.worst(REFUSE, "this is no message");
      r += hex(o) + ",";
    }
    return r + "]";
  }
  }
  return "";
}
// ---------------------------------------------------------------- faults
u32 f_alloc, f_fmt, alloc_range;
bool fmt_failed;
int fmt_in;
void arm() {
  alloc_fired = 0;
  alloc_fail_in = 0;
  alloc_fail_sticky = false;
  fmt_failed = false;
  fmt_in = 0;
  if (f_alloc && flip(1, f_alloc)) {
    alloc_fail_in = 1 + choose(choose(3) ? 12 : alloc_range);
    alloc_fail_sticky = choose(3) == 1;
  }
  if (f_fmt && flip(1, f_fmt))
    fmt_in = 1 + (int)choose(4);
}
void disarm() {
  alloc_fail_in = 0;
  alloc_fail_sticky = false;
  fmt_in = 0;
}
bool fault() { return alloc_fired || fmt_failed; }
}
extern "C" {
void jx_put(const char *p, size_t n) {
  Guard g;
  sink.append(p, n);
}
void jx_hex(const char *p, size_t n) {
  Guard g;
  check_range(p, n, false, "dumped text");
  sink += hex(p, n);
}
void jx_int(long long v) {
  Guard g;
  sink += std::to_string(v);
}
void jx_uint(unsigned long long v) {
  Guard g;
  sink += std::to_string(v);
}
void jx_dbl(double d) {
  Guard g;
  sink += dbl(d);
}
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list a) {
  if (in_rt > 0 || !cur())
    return vsnprintf(b, n, f, a);
  Guard g;
  if (fmt_in && --fmt_in == 0) {
    fmt_failed = true;
    count("fault.format");
    ev("   formatting fails");
    errno = EOVERFLOW;
    return -1;
  }
  va_list c;
  va_copy(c, a);
  int r = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  if (n && r >= 0) {
    check_range(b, std::min(n, (size_t)r + 1), true, "formatted text");
    vsnprintf(b, n, f, a);
  }
  return r;
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = __wrap_vsnprintf(b, n, f, a);
  va_end(a);
  return r;
}
}
namespace {
std::vector<Ty *> types;
str damage(str s) {
  u32 n = weighted({10, 3, 1}) + 1;
  for (u32 i = 0; i < n; ++i) {
    if (s.empty())
      return s;
    u32 at = choose((u32)s.size());
    static const char set[] = "\"\\/{}[],:0123456789-+. ntfik\n\x01\xff";
    switch (weighted({8, 8, 3, 3, 3, 1, 1, 3})) {
    case 0:
      s.resize(at);
      count("fault.truncated");
      break;
    case 1:
      s[at] = set[choose(sizeof set - 1)];
      count("fault.byte_changed");
      break;
    case 2:
      s[at] ^= (char)(1u << choose(8));
      count("fault.bit_flipped");
      break;
    case 3:
      s.erase(at, 1 + choose(4));
      count("fault.bytes_lost");
      break;
    case 4:
      s.insert(at, 1, set[choose(sizeof set - 1)]);
      count("fault.byte_added");
      break;
    case 5: {
      str d = s.substr(at, 1 + choose(12));
      s.insert(at, d);
      count("fault.bytes_doubled");
      break;
    }
    case 6:
      std::swap(s[at], s[choose((u32)s.size())]);
      count("fault.bytes_swapped");
      break;
    case 7: { // another number: near the ends of the types, or the same modulo one
      while (at < s.size() && !(s[at] >= '0' && s[at] <= '9'))
        ++at;
      if (at == s.size())
        break;
      size_t b = at, e = at;
      while (b > 0 && s[b - 1] >= '0' && s[b - 1] <= '9')
        --b;
      while (e < s.size() && s[e] >= '0' && s[e] <= '9')
        ++e;
      unsigned long long v = strtoull(s.substr(b, e - b).c_str(), nullptr, 10);
      static const int sh[] = {8, 16, 31, 32, 33, 63};
      if (choose(2))
        v += 1ull << sh[choose(6)];
      else
        v = (choose(2) ? 0ull : 1ull << sh[choose(6)]) - choose(3);
      s.replace(b, e - b, std::to_string(v));
      count("fault.number_changed");
      break;
    }
    }
  }
  return s;
}
// A set of pointers to texts: null pointers are left out.
void pointers(Ty *T) {
  Val v = gen(T, "error");
  for (size_t i = 0; i < v.c.size();)
    if (v.c[i].s.find('\0') != str::npos)
      v.c.erase(v.c.begin() + i);
    else
      ++i;
  int null = (int)choose(3);
  str want = canon(v, T), doc;
  JN *in = to_jn(v);
  void *s = nullptr;
  arm();
  fmt_in = 0;
  int rc = APP(j_pointers(in, null, &s));
  disarm();
  if (rc) {
    if (rc == 2 || !alloc_fired)
      violate("C20", "write-exception", "writing a set of pointers fails (%d)", rc);
    return;
  }
  sink.clear();
  APP(j_text(s));
  APP(j_text_drop(s));
  doc = sink;
  ev("written pointers: %s", shorten(doc).c_str());
  Reading R;
  str got;
  try {
    Reader rd{doc};
    Node n = rd.value();
    rd.sp();
    if (rd.p != doc.size())
      throw Bad();
    got = read(n, T, R, "error");
  } catch (Bad) {
    violate("C20", "written-broken", "the text written is no document: %s", shorten(doc).c_str());
  }
  if (R.v != VALID || got != want)
    violate("C20", "written-wrong", "a set of pointers to %s was written as %s", shorten(want).c_str(), shorten(doc).c_str());
  count("probe.pointer_sets");
}
void world_json() {
  Guard g;
  disable_preempt();
  if (is_focus("C19"))
    f_alloc = 2;
  else if (weighted({2, 3}))
    f_alloc = 2 + choose(4);
  f_fmt = weighted({3, 1}) ? 3 + choose(6) : 0;
  u32 f_damage = is_focus("C20") ? (weighted({1, 6}) ? 2 : 0) : weighted({2, 3}) ? 2 + choose(3) : 0;
  int nt = APP(j_types());
  for (int i = 0; i < nt; ++i) {
    sink.clear();
    APP(j_schema(i));
    const char *p = sink.c_str();
    types.push_back(parse_schema(p));
  }
  int rounds = (int)range(1, 6);
  for (int r = 0; r < rounds; ++r) {
    now += 1000000;
    u32 mark = heap_mark();
    int t = (int)choose((u32)nt + 4);
    if (t >= nt)
      t = 5 + t % 2; // the types found by name
    Ty *T = types[t];
    if (t == 24 && flip(1, 2)) {
      budget = 3 + choose(20);
      alloc_range = 20 + choose(200);
      pointers(T);
      std::string lost;
      if (live_since(mark, &lost))
        violate("*", "leak", "memory is never released: %s", lost.c_str());
      continue;
    }
    bool root = t == 5 || t == 6; // Human, Dog
    static const char *kinds[] = {"error", "json error", "%s"};
    const char *kind = kinds[choose(3)];
    APP(j_kind(kind));
    budget = 3 + choose(20);
    alloc_range = 20 + choose(200);
    Val v = gen(T, kind);
    str want = canon(v, T);
    // what the text is to tell
    bool gaps = false;
    str told = canon(v, T, &gaps);
    int says = gaps ? REFUSE : VALID;
    static const char *nk[] = {"name", "type", "k:"};
    name_key = nk[weighted({4, 1, 1})];
    APP(j_name_key(name_key.c_str()));
    int rc;
    // ---- written by the library
    str doc;
    bool have = false, misnamed = false;
    doubles = 0;
    int how = root ? (int)choose(3) : 0;
    if (!(T->k == 'a' && v.c.size() != 1) && choose(4) != 1) {
      void *o = nullptr;
      APP(j_length(T->k == 'a' ? v.c.size() : 0, 1));
      JN *in = to_jn(v);
      if (APP(j_fresh(t, &o)) || APP(j_build(t, o, in)))
        violate("*", "harness", "the value could not be built");
      for (int k = 0; k < 4 && !have; ++k) {
        if (k < 3)
          arm();
        else
          disarm(), alloc_fired = 0, fmt_failed = false;
        fmt_in = 0; // only std::to_string() would meet it
        void *s = nullptr;
        rc = APP(j_unparse(t, o, how, &s));
        disarm();
        if (rc == 2 || (rc && !alloc_fired))
          violate(alloc_fired ? "C19" : "C20", "write-exception", "writing a value fails (%d): %s", rc, shorten(want).c_str());
        if (rc) {
          count("probe.writings_that_threw");
          ev("writing type %d throws", t);
          continue;
        }
        sink.clear();
        APP(j_text(s));
        APP(j_text_drop(s));
        doc = sink;
        ev("written type %d: %s", t, shorten(doc).c_str());
        Reading R;
        str got;
        try {
          Reader rd{doc};
          Node n = rd.value();
          rd.sp();
          if (rd.p != doc.size())
            throw Bad();
          got = read(n, T, R, kind, how > 0);
          if (how && (n.key.empty() || std::find(n.key.begin(), n.key.end(), name_key) == n.key.end()))
            violate("C20", "no-name", "the object has no name: %s", shorten(doc).c_str());
        } catch (Bad) {
          violate(alloc_fired ? "C19" : "C20", "written-broken", "the text written is no document: %s", shorten(doc).c_str());
        }
        if (R.v != says || got != told)
          violate(alloc_fired ? "C19" : "C20", "written-wrong", "%s was written as %s (%s)", shorten(want).c_str(),
                  shorten(doc).c_str(), R.why.c_str());
        have = true;
        count("sim.values_written");
      }
      APP(j_length(T->k == 'a' ? v.c.size() : 0, 1));
      sink.clear();
      APP(j_dump(t, o));
      if (sink != want)
        violate("C19", "value-changed", "writing changed the value to %s", shorten(sink).c_str());
      APP(j_drop(t, o, 1));
    }
    if (!have) {
      spaces = choose(2) ? 2 + choose(6) : 0;
      extras = choose(3) == 1 ? 2 + choose(6) : 0;
      doubles = choose(T->k == 'a' || T->k == 'v' ? 3 : 8) == 1 ? 2 + choose(4) : 0;
      swaps = choose(6) == 1 ? 1 + choose(4) : 0;
      swapped = false;
      wrong = nullptr;
      how = root ? (int)choose(2) : 0;
      const char *nm = t == 5 ? "Human" : "Dog";
      if (how && choose(5) == 1) {
        static const char *w[] = {"Hum", "Humans", "", "human", "Do", "Dogs", "Human\n", "Cat"};
        nm = w[choose(8)];
        misnamed = true;
        count("probe.unknown_names");
      }
      doc = ws() + text(v, T, how ? nm : nullptr) + ws();
      ev("composed type %d: %s", t, shorten(doc).c_str());
      count("sim.texts_composed");
      if (wrong)
        count("probe.wrong_texts");
      else
        doubles = 0;
    }
    // ---- on the way
    bool damaged = !have && swapped;
    if (damaged)
      count("fault.other_type");
    if (f_damage && flip(1, f_damage)) {
      str d = damage(doc);
      damaged |= d != doc;
      doc = d;
      ev("damaged: %s", shorten(doc).c_str());
    }
    // ---- what reading it must give
    bool obj = root && how && choose(2);
    int which = t == 5 ? 1 : 2;
    Reading R;
    Node n;
    bool whole = true;
    n.k = 0;
    try {
      Reader rd{doc};
      n = rd.value();
      rd.sp();
      if (rd.p != doc.size())
        throw Bad();
    } catch (Bad) {
      whole = false;
      R.v = REFUSE;
      R.why = "the text is no document";
    }
    str exp;
    if (whole && obj) {
      // the name decides
      int seen = 0;
      for (size_t i = 0; i < n.key.size(); ++i)
        if (n.key[i] == name_key) {
          ++seen;
          if (n.c[i].k != '"')
            R.worst(GREY, "name");
          which = n.c[i].raw == "Human" ? 1 : n.c[i].raw == "Dog" ? 2 : 0;
        }
      if (n.k != '{' || seen == 0)
        R.worst(REFUSE, "no name");
      else if (seen > 1)
        R.worst(GREY, "names");
      else if (!which)
        R.worst(REFUSE, "unknown name");
    }
    if (whole && (!obj || which))
      exp = read(n, obj ? types[which == 1 ? 5 : 6] : T, R, kind, root);
    if (whole && !well_formed(n)) {
      R.v = REFUSE;
      R.why = "a word is none of JSON";
    }
    if (!damaged && ((misnamed && obj) || doubles ? R.v != REFUSE : R.v != says || exp != told))
      violate("*", "harness", "own reader: %s of %s (%s)", shorten(exp).c_str(), shorten(doc).c_str(), R.why.c_str());
    count(R.v == VALID ? "probe.valid_texts" : R.v == GREY ? "probe.open_texts" : "probe.broken_texts");
    size_t len = T->k != 'a' ? 0 : n.k == 's' ? 1 : n.c.size();
    bool arr = n.k == '[' || n.k == '{';
    APP(j_length(len, arr));
    // ---- read by the library
    void *P = nullptr;
    int attempts = f_alloc || f_fmt ? 1 + (int)choose(4) : 1;
    for (int k = 0; k < attempts; ++k) {
      bool last = k == attempts - 1;
      if (P && choose(3) == 1) {
        APP(j_parser_drop(P));
        P = nullptr;
      }
      if (last)
        disarm(), alloc_fired = 0, fmt_failed = false;
      else
        arm();
      if (!P) {
        rc = APP(j_parser(doc.data(), doc.size(), &P));
        if (rc) {
          disarm();
          if (rc == 2 || !alloc_fired)
            violate("C19", "parser-exception", "a parser cannot be created (%d)", rc);
          ev("the parser is not created");
          P = nullptr;
          if (!last)
            continue;
        }
      }
      void *o = nullptr;
      int ok = 0, w = 0;
      if (!obj) {
        auto left = alloc_fail_in;
        auto st = alloc_fail_sticky;
        int fm = fmt_in;
        disarm();
        APP(j_fresh(t, &o));
        if (replaced(T) && choose(3) == 1) {
          // it holds another value
          budget = 6;
          Val old = gen(T, kind);
          JN *in = to_jn(old);
          if (APP(j_build(t, o, in)))
            violate("*", "harness", "the value could not be built");
          count("probe.reused_values");
        }
        alloc_fail_in = left;
        alloc_fail_sticky = st;
        fmt_in = fm;
        rc = APP(j_parse(P, t, o, &ok));
      } else {
        rc = APP(j_parse_object(P, &o, &w));
        ok = w != 0;
      }
      bool f = fault();
      disarm();
      ev("read%s: rc %d ok %d%s", obj ? " object" : "", rc, ok, f ? ", with a fault" : "");
      const char *pr = f ? "C19" : k && !damaged ? "C19" : "C20";
      if (rc == 2 || (rc == 1 && !alloc_fired))
        violate(pr, "read-exception", "reading throws (%d): %s", rc, shorten(doc).c_str());
      if (rc)
        count("probe.readings_that_threw");
      if (rc == 0 && !ok) {
        count("probe.readings_refused");
        if (!APP(j_errors(P)))
          violate(pr, "no-error", "refused without an error: %s", shorten(doc).c_str());
        if (!f && R.v == VALID)
          violate(pr, "refused", "refused: %s", shorten(doc).c_str());
      }
      if (rc == 0 && ok) {
        count("sim.values_read");
        if (R.v == REFUSE)
          violate(f ? "C19" : "C20", "accepted", "accepted although %s: %s", R.why.c_str(), shorten(doc).c_str());
        if (obj && w != which && R.v == VALID)
          violate(pr, "wrong-object", "object %d instead of %d: %s", w, which, shorten(doc).c_str());
        if (R.v == VALID) {
          sink.clear();
          if (obj)
            APP(j_object_dump(o, w));
          else
            APP(j_dump(t, o));
          if (sink != exp)
            violate(pr, "wrong-value", "%s was read as %s instead of %s", shorten(doc).c_str(), shorten(sink).c_str(),
                    shorten(exp).c_str());
        }
      }
      // the errors are readable at any time
      sink.clear();
      size_t ne = APP(j_error_list(P));
      probe_max("probe.max_errors", ne);
      if (obj) {
        if (o)
          APP(j_object_drop(o));
      } else
        APP(j_drop(t, o, 1));
    }
    if (P)
      APP(j_parser_drop(P));
    jns.clear();
    jvs.clear();
    str d;
    if (!R.pointers && live_since(mark, &d))
      violate(f_alloc ? "C19 C20" : "C20", "leak", "memory is never released: %s, text %s", d.c_str(), shorten(doc).c_str());
  }
  end_run();
}
World worlds[] = {{"json", world_json}};
}
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 1); }
