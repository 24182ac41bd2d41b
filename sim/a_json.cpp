// Code under test of the JSON world: bcl/Json.h with the types it supports.
#include <assert.h>
#include <cstring>
#include <bcl/Json.h>
#include <new>
#include "json.h"
JSON_OBJECT_BEGIN(Pt)
JSON_OBJECT_PAIR_2(Pt, A, int, B, std::string)
JSON_OBJECT_END(Pt)
JSON_DEFAULT_TRAITS(::, Pt)
JSON_OBJECT_BEGIN(Big)
JSON_OBJECT_PAIR_6(Big, Id, unsigned long long, List, std::vector<Pt>, Opt, std::optional<double>, On, bool, Ch, char, Map, BCL_JOIN(std::map<std::string, Pt>))
JSON_OBJECT_END(Big)
JSON_DEFAULT_TRAITS(::, Big)
JSON_OBJECT_BEGIN(Human)
JSON_OBJECT_ROOT_PAIR_3(Human, Name, std::string, Age, unsigned, Tags, std::vector<std::string>)
  Human() : JSON_INIT(Human, std::string(), 0u, std::vector<std::string>()), JSON_INIT_ROOT {}
JSON_OBJECT_END(Human)
JSON_DEFAULT_TRAITS(::, Human)
JSON_OBJECT_BEGIN(Dog)
JSON_OBJECT_ROOT_PAIR_2(Dog, Name, std::string, Pos, Pt)
  Dog() : JSON_INIT(Dog, std::string(), Pt()), JSON_INIT_ROOT {}
JSON_OBJECT_END(Dog)
JSON_DEFAULT_TRAITS(::, Dog)
namespace lib {
JSON_OBJECT_BEGIN(Text)
JSON_OBJECT_PAIR(Text, Body, const char *)
JSON_OBJECT_END(Text)
}
JSON_DEFAULT_TRAITS(lib::, Text)
extern "C" {
void jx_put(const char *, size_t);
void jx_hex(const char *, size_t);
void jx_int(long long);
void jx_uint(unsigned long long);
void jx_dbl(double);
}
namespace {
using P = json::Parser<Human, Dog>;
template <class F> int guarded(F &&Fn) {
  try {
    Fn();
    return 0;
  } catch (const std::bad_alloc &) {
    return 1;
  } catch (...) {
    return 2;
  }
}
const char *NameKey = "name";
void put(const char *S) { jx_put(S, strlen(S)); }
template <class T> struct X;
#define INTEGER(T, C, F, OUT)                                                  \
  template <> struct X<T> {                                                    \
    static void schema(std::string &S) { S += C; }                             \
    static void build(T &V, const JN *N) { V = (T)N->F; }                      \
    static void dump(const T &V) { OUT(V); }                                   \
    static void drop(T &) {}                                                   \
  };
INTEGER(int, "i", i, jx_int)
INTEGER(long, "l", i, jx_int)
INTEGER(long long, "L", i, jx_int)
INTEGER(unsigned, "u", u, jx_uint)
INTEGER(unsigned long, "k", u, jx_uint)
INTEGER(unsigned long long, "K", u, jx_uint)
INTEGER(double, "d", d, jx_dbl)
INTEGER(float, "f", d, jx_dbl)
template <> struct X<bool> {
  static void schema(std::string &S) { S += "b"; }
  static void build(bool &V, const JN *N) { V = N->i; }
  static void dump(const bool &V) { put(V ? "T" : "F"); }
  static void drop(bool &) {}
};
template <> struct X<char> {
  static void schema(std::string &S) { S += "c"; }
  static void build(char &V, const JN *N) { V = N->s[0]; }
  static void dump(const char &V) { jx_hex(&V, 1); }
  static void drop(char &) {}
};
template <> struct X<std::string> {
  static void schema(std::string &S) { S += "s"; }
  static void build(std::string &V, const JN *N) { V.assign(N->s, N->n); }
  static void dump(const std::string &V) { jx_hex(V.data(), V.size()); }
  static void drop(std::string &) {}
};
template <class C> struct XZ {
  static void schema(std::string &S) { S += "z"; }
  static void build(C *&V, const JN *N) {
    if (!N->s)
      return;
    char *Q = new char[N->n + 1];
    memcpy(Q, N->s, N->n);
    Q[N->n] = 0;
    V = Q;
  }
  static void dump(C *const &V) {
    if (V)
      jx_hex(V, strlen(V));
    else
      put("~");
  }
  static void drop(C *&V) {
    delete[] V;
    V = nullptr;
  }
};
template <> struct X<char *> : XZ<char> {};
template <> struct X<const char *> : XZ<const char> {};
template <class T> struct X<std::vector<T>> {
  static void schema(std::string &S) {
    S += "v(";
    X<T>::schema(S);
    S += ")";
  }
  static void build(std::vector<T> &V, const JN *N) {
    V.resize(N->nc);
    for (size_t I = 0; I < N->nc; ++I)
      X<T>::build(V[I], N->c[I]);
  }
  static void dump(const std::vector<T> &V) {
    put("[");
    for (auto &E : V) {
      X<T>::dump(E);
      put(",");
    }
    put("]");
  }
  static void drop(std::vector<T> &V) {
    for (auto &E : V)
      X<T>::drop(E);
  }
};
template <class T> struct X<std::set<T>> {
  static void schema(std::string &S) {
    S += "S(";
    X<T>::schema(S);
    S += ")";
  }
  static void build(std::set<T> &V, const JN *N) {
    for (size_t I = 0; I < N->nc; ++I) {
      T E{};
      X<T>::build(E, N->c[I]);
      V.insert(E);
    }
  }
  static void dump(const std::set<T> &V) {
    put("[");
    for (auto &E : V) {
      X<T>::dump(E);
      put(",");
    }
    put("]");
  }
  static void drop(std::set<T> &) {}
};
template <class M, class K, class T> struct XM {
  static void build(M &V, const JN *N) {
    for (size_t I = 0; I < N->nc; ++I) {
      K A{};
      X<K>::build(A, N->key[I]);
      T B{};
      X<T>::build(B, N->c[I]);
      V.emplace(std::move(A), std::move(B));
    }
  }
  static void dump(const M &V) {
    put("{");
    for (auto &E : V) {
      X<K>::dump(E.first);
      put(":");
      X<T>::dump(E.second);
      put(",");
    }
    put("}");
  }
  static void drop(M &V) {
    for (auto &E : V)
      X<T>::drop(E.second);
  }
  static void schema(std::string &S, const char *L) {
    S += L;
    X<K>::schema(S);
    S += ",";
    X<T>::schema(S);
    S += ")";
  }
};
template <class K, class T> struct X<std::map<K, T>> : XM<std::map<K, T>, K, T> {
  static void schema(std::string &S) { XM<std::map<K, T>, K, T>::schema(S, "m("); }
};
template <class K, class T> struct X<std::multimap<K, T>> : XM<std::multimap<K, T>, K, T> {
  static void schema(std::string &S) { XM<std::multimap<K, T>, K, T>::schema(S, "M("); }
};
template <class T> struct X<std::optional<T>> {
  static void schema(std::string &S) {
    S += "o(";
    X<T>::schema(S);
    S += ")";
  }
  static void build(std::optional<T> &V, const JN *N) {
    if (!N->nc)
      return;
    V.emplace();
    X<T>::build(*V, N->c[0]);
  }
  static void dump(const std::optional<T> &V) {
    if (V) {
      put("!");
      X<T>::dump(*V);
    } else
      put("?");
  }
  static void drop(std::optional<T> &V) {
    if (V)
      X<T>::drop(*V);
  }
};
struct Each {
  std::string *S = nullptr;
  const JN *N = nullptr;
  size_t I = 0;
  bool Drop = false;
  template <class C> void operator()(C *Cell) {
    using K = typename C::CellKey;
    using V = typename K::ValueType;
    auto &R = const_cast<V &>(Cell->template value<K>());
    if (S) {
      if (I)
        *S += ",";
      *S += K::name() + ":";
      X<V>::schema(*S);
    } else if (N)
      X<V>::build(R, N->c[I]);
    else if (Drop)
      X<V>::drop(R);
    else {
      X<V>::dump(R);
      put(",");
    }
    ++I;
  }
};
template <class T> struct XR {
  static void schema(std::string &S) {
    S += "R(";
    T V;
    Each E;
    E.S = &S;
    V.for_each(E);
    S += ")";
  }
  static void build(T &V, const JN *N) {
    Each E;
    E.N = N;
    V.for_each(E);
  }
  static void dump(const T &V) {
    put("(");
    Each E;
    V.for_each(E);
    put(")");
  }
  static void drop(T &V) {
    Each E;
    E.Drop = true;
    V.for_each(E);
  }
};
template <> struct X<Pt> : XR<Pt> {};
template <> struct X<Big> : XR<Big> {};
template <> struct X<Human> : XR<Human> {};
template <> struct X<Dog> : XR<Dog> {};
template <> struct X<lib::Text> : XR<lib::Text> {};
// An array behind a pointer; its length is known to the harness only.
size_t Length;
bool IsArray;
template <> struct X<int *> {
  static void schema(std::string &S) { S += "a(i)"; }
  static void build(int *&V, const JN *N) {
    IsArray = true;
    V = new int[N->nc];
    for (size_t I = 0; I < N->nc; ++I)
      V[I] = (int)N->c[I]->i;
  }
  static void dump(int *const &V) {
    put("[");
    for (size_t I = 0; I < Length; ++I) {
      jx_int(V[I]);
      put(",");
    }
    put("]");
  }
  static void drop(int *&V) {
    if (IsArray)
      delete[] V;
    else
      delete V;
    V = nullptr;
  }
};
const char *Kind = "error";
template <> struct X<bcl::Diagnostic> {
  static void schema(std::string &S) { S += "D"; }
  static void build(bcl::Diagnostic &V, const JN *N) {
    for (size_t I = 0; I < N->nc; ++I) {
      const JN *E = N->c[I];
      V.insert((size_t)E->i, "%s", (uintmax_t)E->u, E->s);
    }
  }
  static void dump(const bcl::Diagnostic &V) {
    put("[");
    for (auto E : V) {
      jx_hex(E, strlen(E));
      put(",");
    }
    put("]");
  }
  static void drop(bcl::Diagnostic &) {}
};
struct Type {
  void (*schema)(std::string &);
  void *(*fresh)();
  void (*build)(void *, const JN *);
  void (*dump)(const void *);
  void (*drop)(void *, bool Deep);
  bool (*parse)(P &, void *);
  void (*unparse)(const void *, std::string &, int);
};
template <class T> struct Make {
  static void *fresh() {
    if constexpr (std::is_same<T, bcl::Diagnostic>::value)
      return new T(Kind);
    else
      return new T();
  }
  static void build(void *O, const JN *N) { X<T>::build(*(T *)O, N); }
  static void dump(const void *O) { X<T>::dump(*(const T *)O); }
  static void drop(void *O, bool Deep) {
    if (Deep)
      X<T>::drop(*(T *)O);
    delete (T *)O;
  }
  static bool parse(P &A, void *O) { return A.parse(*(T *)O); }
  static void unparse(const void *O, std::string &S, int How) {
    const T &V = *(const T *)O;
    if constexpr (std::is_base_of<json::Object, T>::value) {
      if (How == 1)
        S = P::unparse(static_cast<const json::Object &>(V), NameKey);
      else if (How == 2)
        S = P::unparseAsObject(V, NameKey);
      else
        S = P::unparse(V);
    } else
      S = P::unparse(V);
  }
  static Type get() { return {X<T>::schema, fresh, build, dump, drop, parse, unparse}; }
};
using std::map;
using std::multimap;
using std::optional;
using std::set;
using std::string;
using std::vector;
bool NullFirst;
struct Before {
  bool operator()(const char *A, const char *B) const {
    return !A || !B ? (NullFirst ? !A && B : A && !B) : strcmp(A, B) < 0;
  }
};
Type Types[] = {
    Make<int>::get(), Make<string>::get(), Make<vector<int>>::get(), Make<vector<string>>::get(), Make<Pt>::get(), Make<Human>::get(), Make<Dog>::get(),
    Make<unsigned>::get(), Make<long>::get(), Make<long long>::get(), Make<unsigned long>::get(), Make<unsigned long long>::get(),
    Make<double>::get(), Make<float>::get(), Make<bool>::get(), Make<char>::get(), Make<const char *>::get(), Make<char *>::get(), Make<int *>::get(),
    Make<vector<const char *>>::get(), Make<vector<vector<string>>>::get(), Make<vector<Pt>>::get(), Make<vector<optional<int>>>::get(),
    Make<set<int>>::get(), Make<set<string>>::get(), Make<map<string, int>>::get(), Make<map<int, string>>::get(),
    Make<map<string, vector<int>>>::get(), Make<multimap<string, int>>::get(), Make<multimap<int, map<string, bool>>>::get(),
    Make<map<string, optional<string>>>::get(), Make<optional<int>>::get(), Make<optional<string>>::get(), Make<optional<vector<int>>>::get(),
    Make<Big>::get(), Make<map<string, Big>>::get(), Make<lib::Text>::get(), Make<bcl::Diagnostic>::get(),
    Make<vector<unsigned long long>>::get(), Make<map<unsigned, char>>::get(), Make<set<unsigned long>>::get(), Make<vector<double>>::get(),
    Make<map<string, const char *>>::get(), Make<multimap<string, char *>>::get(), Make<vector<vector<const char *>>>::get(), Make<vector<lib::Text>>::get(),
    Make<map<bool, int>>::get(), Make<map<char, string>>::get(), Make<multimap<bool, string>>::get(), Make<set<char>>::get(),
};
}
extern "C" {
int j_types() { return sizeof Types / sizeof *Types; }
void j_schema(int T) { // delivered through jx_put
  std::string S;
  Types[T].schema(S);
  jx_put(S.data(), S.size());
}
void j_name_key(const char *K) { NameKey = K; }
void j_kind(const char *K) { Kind = K; }
void j_length(size_t N, int A) {
  Length = N;
  IsArray = A;
}
int j_fresh(int T, void **Out) {
  return guarded([&] { *Out = Types[T].fresh(); });
}
int j_build(int T, void *O, const JN *N) {
  return guarded([&] { Types[T].build(O, N); });
}
int j_dump(int T, const void *O) {
  return guarded([&] { Types[T].dump(O); });
}
int j_drop(int T, void *O, int Deep) {
  return guarded([&] { Types[T].drop(O, Deep); });
}
int j_unparse(int T, const void *O, int How, void **Out) {
  return guarded([&] {
    std::string S;
    Types[T].unparse(O, S, How);
    *Out = new std::string(std::move(S));
  });
}
// A set of texts behind pointers, one of which may be null, is only written:
// what a text that is refused leaves behind is inherent in such sets.
int j_pointers(const JN *N, int Null, void **Out) {
  struct Values {
    std::set<const char *, Before> S;
    ~Values() {
      for (auto V : S)
        delete[] V;
    }
  } V;
  return guarded([&] {
    NullFirst = Null == 1;
    for (size_t I = 0; I < N->nc; ++I) {
      const char *T = nullptr;
      X<const char *>::build(T, N->c[I]);
      std::unique_ptr<const char[]> U(T);
      V.S.insert(T);
      U.release();
    }
    if (Null)
      V.S.insert(nullptr);
    *Out = new std::string(P::unparse(V.S));
  });
}
void j_text(void *S) { jx_put(((std::string *)S)->data(), ((std::string *)S)->size()); }
void j_text_drop(void *S) { delete (std::string *)S; }
int j_parser(const char *S, size_t N, void **Out) {
  return guarded([&] { *Out = new P(std::string(S, N), NameKey); });
}
void j_parser_drop(void *A) { delete (P *)A; }
int j_parse(void *A, int T, void *O, int *Out) {
  return guarded([&] { *Out = Types[T].parse(*(P *)A, O); });
}
// The object is dumped at once, a failure is 0, Human 1, Dog 2, other 3.
int j_parse_object(void *A, void **Obj, int *Which) {
  return guarded([&] {
    auto R = ((P *)A)->parse();
    *Which = !R ? 0 : R->is<Human>() ? 1 : R->is<Dog>() ? 2 : 3;
    *Obj = R.release();
  });
}
void j_object_dump(void *O, int Which) {
  auto *B = (json::Object *)O;
  if (Which == 1)
    X<Human>::dump(B->as<Human>());
  if (Which == 2)
    X<Dog>::dump(B->as<Dog>());
}
void j_object_drop(void *O) { delete (json::Object *)O; }
int j_errors(void *A) { return ((P *)A)->hasErrors(); }
size_t j_error_list(void *A) {
  size_t N = 0;
  for (auto E : static_cast<const P *>(A)->errors()) {
    jx_put(E, strlen(E));
    jx_put("\n", 1);
    ++N;
  }
  return N;
}
}
