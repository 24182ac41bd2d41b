// Code under test of the ownership worlds: bcl/trait.h, bcl/marray.h,
// bcl/marray_f.h, bcl/ValuePtrWrapper.h, bcl/cell.h, bcl/tagged.h,
// bcl/convertible_pair.h and bcl/utility.h, driven operation by operation.
#include <utility>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/cell.h>
#include <bcl/convertible_pair.h>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <bcl/tagged.h>
#include <bcl/trait.h>
#include <algorithm>
#include <bitset>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
// The harness: life of every element. kind: 0..31.
extern "C" {
int o_born(const void *P, int Kind, int Id); // nonzero: construction fails
void o_dead(const void *P, int Kind, int Id);
int o_use(const void *P, int Kind, int Id, int How); // 0 copied from, 1 assigned
}
namespace {
struct Fault {};
template <class F> int guarded(F &&Fn) {
  try {
    Fn();
    return 0;
  } catch (const std::bad_alloc &) {
    return 1;
  } catch (const Fault &) {
    return 3;
  } catch (...) {
    return 2;
  }
}
// ------------------------------------------------------------------ traits
template <int K> struct Rec {
  int Id;
  explicit Rec(int I) : Id(I) { o_born(this, K, Id); }
  Rec(const Rec &) = delete;
  ~Rec() { o_dead(this, K, Id); }
};
template <int K> struct Tr : public Rec<K> { using Rec<K>::Rec; };
typedef Tr<0> T0;
typedef Tr<1> T1;
typedef Tr<2> T2;
typedef Tr<3> T3;
struct T4 {};
struct T5 {};
struct T6 {};
typedef Tr<7> T7;
struct T8 {};
typedef Tr<9> T9;
// T4 and T6 share one description type, T5 and T8 have their own.
using Tags = bcl::TypeList<bcl::tagged<Rec<16>, T4, T6>, bcl::tagged<Rec<17>, T5>,
                           bcl::tagged<Rec<18>, T8>>;
using D = bcl::TraitDescriptor<
    T0, bcl::TraitAlternative<T1, bcl::TraitUnion<T2, T3>, bcl::TraitUnion<T3, T4>>,
    T5, bcl::TraitAlternative<T6, T7>,
    bcl::TraitAlternative<bcl::TraitUnion<T8, T9>>>;
using S0 = bcl::TraitSet<D, std::map<bcl::TraitKey, void *>, Tags>;
using S1 = bcl::TraitSet<D, std::unordered_map<bcl::TraitKey, void *>, Tags>;
template <class T>
using Data = typename std::conditional<
    std::is_void<bcl::get_tagged<T, Tags>>::value, T,
    bcl::get_tagged_t<T, Tags>>::type;
S0 *A0[4];
S1 *A1[4];
D DD[3];
#define ON(K, X)                                                               \
  switch (K) {                                                                 \
  case 0: { typedef T0 T; X; } break;                                          \
  case 1: { typedef T1 T; X; } break;                                          \
  case 2: { typedef T2 T; X; } break;                                          \
  case 3: { typedef T3 T; X; } break;                                          \
  case 4: { typedef T4 T; X; } break;                                          \
  case 5: { typedef T5 T; X; } break;                                          \
  case 6: { typedef T6 T; X; } break;                                          \
  case 7: { typedef T7 T; X; } break;                                          \
  case 8: { typedef T8 T; X; } break;                                          \
  case 9: { typedef T9 T; X; } break;                                          \
  }
#define SET(I, ...)                                                            \
  if (I < 4) { auto &S = *A0[I]; __VA_ARGS__; }                                \
  else { auto &S = *A1[I - 4]; __VA_ARGS__; }
template <class T> struct Num;
#define NUM(k) template <> struct Num<T##k> { enum { value = k }; };
NUM(0) NUM(1) NUM(2) NUM(3) NUM(4) NUM(5) NUM(6) NUM(7) NUM(8) NUM(9)
struct Mark {
  unsigned *Bits;
  int *Calls;
  template <class T> void operator()() {
    *Bits |= 1u << Num<T>::value;
    ++*Calls;
  }
};
using Place = bcl::StaticTraitMap<std::vector<S0 *>, D>;
struct Collect {
  unsigned *Bits;
  S0 *What;
  template <class T> void operator()(std::vector<S0 *> &V) {
    if (V.size() == 1 && V[0] == What)
      *Bits |= 1u << Num<T>::value;
    else if (!V.empty())
      *Bits |= 1u << 31;
  }
};
}
extern "C" {
void *t_rec(int K, int Id) {
  ON(K, return static_cast<void *>(new Data<T>(Id)));
  return nullptr;
}
void t_free(int K, void *P) { ON(K, delete static_cast<Data<T> *>(P)); }
int t_make(int I, int DI) {
  return guarded([&] {
    if (I < 4)
      A0[I] = DI < 0 ? new S0() : new S0(DD[DI]);
    else
      A1[I - 4] = DI < 0 ? new S1() : new S1(D(DD[DI]));
  });
}
int t_destroy(int I) {
  return guarded([&] {
    if (I < 4)
      delete A0[I], A0[I] = nullptr;
    else
      delete A1[I - 4], A1[I - 4] = nullptr;
  });
}
int t_put(int I, int K, void *P) {
  return guarded([&] {
    SET(I, ON(K, S.template set<T>(static_cast<Data<T> *>(P))));
  });
}
int t_set(int I, int K) { return guarded([&] { SET(I, ON(K, S.template set<T>())); }); }
int t_set2(int I, int How) {
  return guarded([&] {
    SET(I, if (How == 0) S.template set<T0, T5, T9>();
        else if (How == 1) S.template set<T3, T4>();
        else if (How == 2) bcl::trait::set<T2, T3>(S);
        else S.template set<T6, T8, T2>());
  });
}
int t_unset(int I, int K) {
  return guarded([&] { SET(I, ON(K, S.template unset<T>())); });
}
int t_unset2(int I, int How) {
  return guarded([&] {
    SET(I, if (How == 0) S.template unset<T0, T4, T7>();
        else if (How == 1) bcl::trait::unset<T3, T9>(S);
        else S.unset_all());
  });
}
void *t_get(int I, int K, int Const) {
  void *P = nullptr;
  SET(I, ON(K, if (Const) {
        const auto &C = S;
        P = const_cast<Data<T> *>(C.template get<T>());
      } else P = S.template get<T>()));
  return P;
}
int t_release(int I, int K, void **P) {
  return guarded([&] { SET(I, ON(K, *P = S.template release<T>())); });
}
unsigned t_bits(int I, int How, int *Calls) {
  unsigned B = 0;
  *Calls = 0;
  auto All = [&](auto &X) {
#define IS(k) if (X.template is<T##k>()) B |= 1u << k, ++*Calls;
#define ANY(k) if (X.template is_any<T##k>()) B |= 1u << k, ++*Calls;
    if (How == 0) { IS(0) IS(1) IS(2) IS(3) IS(4) IS(5) IS(6) IS(7) IS(8) IS(9) }
    else { ANY(0) ANY(1) ANY(2) ANY(3) ANY(4) ANY(5) ANY(6) ANY(7) ANY(8) ANY(9) }
  };
  Mark M{&B, Calls};
  SET(I, if (How < 2) All(S);
      else if (How == 2) { auto X = S.get(); All(X); }
      else if (How == 3) S.for_each(M);
      else {
        S.template for_each_in_group<T0>(M);
        S.template for_each_in_group<T3>(M);
        S.template for_each_in_group<T5>(M);
        S.template for_each_in_group<T6>(M);
        S.template for_each_in_group<T9>(M);
      });
  return B;
}
unsigned t_conflict(int I, int K) {
  unsigned B = 0;
  int N = 0;
  Mark M{&B, &N};
  SET(I, ON(K, S.template for_each_conflict<T>(M)));
  return B;
}
int t_move(int To, int From, int Construct) {
  return guarded([&] {
    if (To < 4) {
      if (Construct)
        A0[To] = new S0(std::move(*A0[From]));
      else
        *A0[To] = std::move(*A0[From]);
    } else {
      if (Construct)
        A1[To - 4] = new S1(std::move(*A1[From - 4]));
      else
        *A1[To - 4] = std::move(*A1[From - 4]);
    }
  });
}
int t_assign(int I, int DI, int Mv) {
  return guarded([&] {
    D X = DD[DI];
    SET(I, if (Mv) S = std::move(X); else S = X);
  });
}
// 0: descriptor := set of traits, 1: united with it, 2: set follows the
// descriptor, 3: set joined with the descriptor
int t_mix(int I, int DI, int How) {
  return guarded([&] {
    SET(I, if (How == 0) DD[DI] = S.get();
        else if (How == 1) bcl::trait::set(S, DD[DI]);
        else if (How == 2) bcl::trait::update(DD[DI], S);
        else bcl::trait::set(DD[DI], S));
  });
}
int t_map(int I, unsigned *Bits) {
  return guarded([&] {
    Place P;
    S0 &S = *A0[I];
    bcl::TraitMapConstructor<S0, Place> C(S, P);
    struct Report {
      Place &P;
      unsigned *Bits;
      S0 *S;
      ~Report() {
        *Bits = 0;
        P.for_each(Collect{Bits, S});
      }
    } R{P, Bits, &S};
    S.for_each(C);
  });
}
unsigned d_bits(int DI) {
  unsigned B = 0;
  int N = 0;
  DD[DI].for_each(Mark{&B, &N});
  return B;
}
void d_set(int DI, int K) { ON(K, DD[DI].template set<T>()); }
void d_unset(int DI, int K) { ON(K, DD[DI].template unset<T>()); }
void d_group(int DI, int K) { ON(K, DD[DI].template unset_group<T>()); }
// Several traits at once.
void d_more(int DI, int How) {
  D &X = DD[DI];
  switch (How) {
  case 0: X.template unset_group<T0, T6>(); break;
  case 1: X.template unset_group<T3, T5, T9>(); break;
  case 2: X.template set<T0, T7, T9>(); break;
  case 3: X.template unset<T2, T5, T8>(); break;
  case 4: bcl::trait::set<T4, T5>(X); break;
  case 5: bcl::trait::unset<T0, T3>(X); break;
  }
}
// Bit i: the i-th question about several traits is answered with yes.
unsigned t_ask(int I) {
  unsigned B = 0;
  auto Ask = [&B](const auto &X) {
    B = X.template is<T2, T3>() | X.template is<T0, T5, T9>() << 1 |
        X.template is<T6, T8>() << 2 | X.template is_any<T2, T3>() << 3 |
        X.template is_any<T0, T5, T9>() << 4 | X.template is_any<T6, T8>() << 5;
  };
  if (I < 8) {
    SET(I, Ask(S));
  } else
    Ask(DD[I - 8]);
  return B;
}
int d_same(int I, int J) {
  bool E = DD[I] == DD[J];
  return E == (DD[I] != DD[J]) ? -1 : E;
}
// What is printed: traits (of this set or descriptor, or of those with the key
// or in the mask of trait K), or -1 if it is no row of bits.
int t_print(int I, int What, int K) {
  struct Out {
    std::string S;
    Out &operator<<(char C) { return S += C, *this; }
    Out &operator<<(const std::string &C) { return S += C, *this; }
    Out &operator<<(const char *C) { return S += C, *this; }
    Out &operator<<(const std::bitset<64> &C) { return S += C.to_string(), *this; }
  } O, Key;
  if (What == 1) {
    ON(K, D::template printKey<T>(O));
  } else if (What == 2) {
    ON(K, D::template printMask<T>(O));
  } else if (I < 8) {
    SET(I, S.print(O));
  } else
    DD[I - 8].print(O);
  int Bits = 0, Ones = 0;
  if (O.S.size() != sizeof(bcl::TraitKey) * 8)
    return -1;
  for (K = 0; K < 10; ++K) {
    Key.S.clear();
    ON(K, D::template printKey<T>(Key));
    if (Key.S.size() != O.S.size())
      return -1;
    for (size_t J = 0; J < O.S.size(); ++J)
      if (Key.S[J] == '1' && O.S[J] == '1')
        Bits |= 1 << K;
  }
  for (char C : O.S)
    if (C != '0' && C != '1')
      return -1;
    else
      Ones += C == '1';
  return Ones == __builtin_popcount(Bits) ? Bits : -2;
}
// A descriptor with more traits than an int has bits.
}
namespace {
template <int N> struct Wt {};
template <int N> struct Num<Wt<N>> { enum { value = N }; };
struct MarkW {
  unsigned long long *Bits;
  int *Calls;
  template <class T> void operator()() {
    *Bits |= 1ull << Num<T>::value;
    ++*Calls;
  }
};
template <class S> struct Wide;
template <int... N> struct Wide<std::integer_sequence<int, N...>> {
  using D = bcl::TraitDescriptor<
      Wt<0>, bcl::TraitAlternative<Wt<1>, Wt<2>, Wt<3>>, Wt<4 + N>...,
      bcl::TraitAlternative<bcl::TraitUnion<Wt<37>, Wt<38>>, Wt<39>>>;
};
using WD = Wide<std::make_integer_sequence<int, 33>>::D;
WD Wx;
template <int K> void w_do(int How) {
  switch (How) {
  case 0: Wx.template set<Wt<K>>(); break;
  case 1: Wx.template unset<Wt<K>>(); break;
  case 2: Wx.template unset_group<Wt<K>>(); break;
  }
}
template <int... N> void w_any(int K, int How, std::integer_sequence<int, N...>) {
  using F = void (*)(int);
  static const F Fs[] = {&w_do<N>...};
  Fs[K](How);
}
template <int... N>
unsigned long long w_is(std::integer_sequence<int, N...>) {
  unsigned long long B = 0;
  const bool Is[] = {Wx.template is<Wt<N>>()...}, Any[] = {Wx.template is_any<Wt<N>>()...};
  for (int I = 0; I < (int)sizeof...(N); ++I)
    if (Is[I] && Any[I])
      B |= 1ull << I;
    else if (Is[I] != Any[I])
      return ~0ull;
  return B;
}
}
extern "C" {
void w_new() { Wx = WD(); }
unsigned long long w_op(int K, int How, int *Calls) {
  w_any(K, How, std::make_integer_sequence<int, 40>());
  unsigned long long B = 0;
  MarkW M{&B, Calls};
  Wx.for_each(M);
  return w_is(std::make_integer_sequence<int, 40>()) == B ? B : ~0ull;
}
void d_clear(int DI) { DD[DI].unset_all(); }
}
// ------------------------------------------------------------------ elements
namespace {
struct Obj { // may fail to be built or copied; moves never fail
  int Id;
  Obj() : Id(0) { born(); }
  Obj(int I) : Id(I) { born(); }
  Obj(const Obj &O) : Id(O.use(0)) { born(); }
  Obj(Obj &&O) noexcept : Id(O.Id) {
    O.use(2);
    O.Id = -1;
    o_born(this, 25, Id);
  }
  Obj &operator=(const Obj &O) {
    int V = O.use(0);
    if (o_use(this, 24, Id, 1))
      throw Fault();
    Id = V;
    return *this;
  }
  Obj &operator=(Obj &&O) noexcept {
    int V = O.use(2);
    use(2);
    if (this != &O)
      O.Id = -1;
    Id = V;
    return *this;
  }
  ~Obj() { o_dead(this, 24, Id); }
  int use(int How) const { return o_use(this, 24, Id, How), Id; }

private:
  void born() {
    if (o_born(this, 24, Id))
      throw Fault();
  }
};
using M2 = bcl::marray<Obj, 2>;
using M3 = bcl::marray<Obj, 3>;
using M4 = bcl::marray<Obj, 4>;
using F2 = bcl::marray_f<Obj, 2>;
using F3 = bcl::marray_f<Obj, 3>;
using F4 = bcl::marray_f<Obj, 4>;
template <class M> M *&slot(int I) {
  static M *A[2];
  return A[I];
}
template <std::size_t N> std::array<std::size_t, N> dims(const std::size_t *P) {
  std::array<std::size_t, N> A;
  for (std::size_t I = 0; I < N; ++I)
    A[I] = P[I];
  return A;
}
template <class M, std::size_t N> void mmake(int I, const std::size_t *P, int How) {
  auto A = dims<N>(P);
  slot<M>(I) = How ? new M(A) : new M(dims<N>(P));
}
template <class M> void mdestroy(int I) {
  M *P = slot<M>(I);
  slot<M>(I) = nullptr;
  delete P;
}
template <class M> int mmove(int To, int From, int Construct) {
  if (Construct) {
    slot<M>(To) = new M(std::move(*slot<M>(From)));
    return 0;
  }
  auto *R = &(*slot<M>(To) = std::move(*slot<M>(From)));
  return R == slot<M>(To) ? 0 : 4;
}
#define ARRAYS(K, X)                                                           \
  switch (K) {                                                                 \
  case 0: { typedef M2 M; enum { N = 2 }; X; } break;                          \
  case 1: { typedef M3 M; enum { N = 3 }; X; } break;                          \
  case 2: { typedef M4 M; enum { N = 4 }; X; } break;                          \
  case 3: { typedef F2 M; enum { N = 2 }; X; } break;                          \
  case 4: { typedef F3 M; enum { N = 3 }; X; } break;                          \
  case 5: { typedef F4 M; enum { N = 4 }; X; } break;                          \
  }
}
extern "C" {
int m_make(int K, int I, const std::size_t *P, int How) {
  return guarded([&] { ARRAYS(K, (mmake<M, N>(I, P, How))); });
}
int m_destroy(int K, int I) { return guarded([&] { ARRAYS(K, mdestroy<M>(I)); }); }
int m_move(int K, int To, int From, int Construct) {
  int R = 0;
  int G = guarded([&] { ARRAYS(K, R = mmove<M>(To, From, Construct)); });
  return G ? G : R;
}
void *m_at(int K, int I, const std::size_t *P, int Const) {
  switch (K) {
  case 0: return &(*slot<M2>(I))[P[0]][P[1]];
  case 1: return &(*slot<M3>(I))[P[0]][P[1]][P[2]];
  case 2: return &(*slot<M4>(I))[P[0]][P[1]][P[2]][P[3]];
  case 3:
    if (Const) {
      const F2 &C = *slot<F2>(I);
      return const_cast<Obj *>(&C(P[0], P[1]));
    }
    return &(*slot<F2>(I))(P[0], P[1]);
  case 4:
    if (Const) {
      const F3 &C = *slot<F3>(I);
      return const_cast<Obj *>(&C(P[0], P[1], P[2]));
    }
    return &(*slot<F3>(I))(P[0], P[1], P[2]);
  case 5:
    if (Const) {
      const F4 &C = *slot<F4>(I);
      return const_cast<Obj *>(&C(P[0], P[1], P[2], P[3]));
    }
    return &(*slot<F4>(I))(P[0], P[1], P[2], P[3]);
  }
  return nullptr;
}
int o_get(void *P) { return static_cast<Obj *>(P)->use(2); }
void o_set(void *P, int V) {
  static_cast<Obj *>(P)->use(2);
  static_cast<Obj *>(P)->Id = V;
}
}
// ------------------------------------------------------------ value pointers
namespace {
struct Val {
  Obj O;
  std::string S;
  Val(int I, std::string T) : O(I), S(std::move(T)) {}
  explicit Val(int I) : O(I), S(I % 3 ? 40 : 3, 'a' + I % 26) {}
  Val(Val &&) noexcept = default;
  Val &operator=(Val &&) noexcept = default;
};
using W = bcl::ValuePtrWrapper<Val>;
std::vector<W> *Pool;
enum { NP = 24 };
Val *Ptr[NP];
}
extern "C" {
int v_make() { return guarded([&] { Pool = new std::vector<W>(); }); }
int v_destroy() {
  return guarded([&] {
    delete Pool;
    Pool = nullptr;
  });
}
int v_add(int At, int Slot, int Id, int How) {
  return guarded([&] {
    if (How == 2) {
      std::string T(Id % 3 ? 40 : 3, 'a' + Id % 26);
      if (At < 0)
        Pool->emplace_back(Ptr[Slot], Id, T);
      else
        Pool->emplace(Pool->begin() + At, Ptr[Slot], Id, T);
    } else if (At < 0)
      Pool->emplace_back(Ptr[Slot], Id);
    else
      Pool->emplace(Pool->begin() + At, Ptr[Slot], Id);
  });
}
int v_erase(int At) {
  return guarded([&] { Pool->erase(Pool->begin() + At); });
}
int v_reserve(unsigned N) { return guarded([&] { Pool->reserve(N); }); }
int v_shrink() { return guarded([&] { Pool->shrink_to_fit(); }); }
int v_swap(int I, int J) {
  return guarded([&] { std::swap((*Pool)[I], (*Pool)[J]); });
}
int v_rotate(int K) {
  return guarded([&] { std::rotate(Pool->begin(), Pool->begin() + K, Pool->end()); });
}
int v_reverse() { return guarded([&] { std::reverse(Pool->begin(), Pool->end()); }); }
int v_sort() {
  return guarded([&] {
    std::sort(Pool->begin(), Pool->end(),
              [](const W &L, const W &R) {
                return static_cast<const Val &>(L).O.Id < static_cast<const Val &>(R).O.Id;
              });
  });
}
int v_move_pool() {
  return guarded([&] {
    std::vector<W> T(std::move(*Pool));
    *Pool = std::move(T);
  });
}
unsigned v_size() { return (unsigned)Pool->size(); }
// 0: all ways to reach element I agree with what Slot knows, and it holds Id
int v_check(int I, int Slot, int Id) {
  W &X = (*Pool)[I];
  Val *P = Ptr[Slot];
  Val &R = X;
  const W &C = X;
  const Val &CR = C;
  if (P != &X)
    return 1;
  if (&R != P || &CR != P || &*X != P || X.operator->() != P)
    return 2;
  if (P->O.use(2) != Id)
    return 3;
  if (P->S != std::string(Id % 3 ? 40 : 3, 'a' + Id % 26))
    return 4;
  return 0;
}
}
// --------------------------------------------------------------- static maps
namespace {
struct KA { typedef Obj ValueType; };
struct KB { typedef std::string ValueType; };
struct KC { typedef Obj *ValueType; };
struct KD { typedef std::vector<int> ValueType; };
struct KE { typedef Obj *ValueType; };
using Full = bcl::StaticMap<KA, KB, KC, KD, KE>;
using Part = bcl::StaticMap<KD, KA, KB>;
Full *FM[2];
Part *PM[2];
std::string str(int V) { return std::string(30 + V % 7, 'a' + V % 26); }
std::vector<int> vec(int V) { return std::vector<int>(3 + V % 3, V); }
struct KX {};
struct KY {};
using TA = bcl::tagged<Obj, KA>;
using TB = bcl::add_alias_tagged<bcl::tagged<std::string, KB>, KX>;
using TD = bcl::add_alias_list_tagged<bcl::tagged<std::vector<int>, KD>, bcl::TypeList<KE, KY>>;
using TT = bcl::tagged_tuple<TA, TB, TD>;
using TP = bcl::tagged_pair<TA, TB>;
using CP = bcl::convertible_pair<Obj, std::string>;
TT *TU[2];
TP *TQ[2];
CP *CC[2];
using SM = bcl::StaticTypeMap<Obj, std::string, std::vector<int>>;
SM *SO[2];
// Visits cells; must not be copied on its way.
struct Visit {
  Visit() {}
  Visit(const Visit &) = delete;
  std::vector<const void *> Where;
  std::vector<int> Keys;
  template <class> struct Num;
  template <class CellTy> void operator()(CellTy *C) {
    typedef typename CellTy::CellKey K;
    Where.push_back(&C->template value<K>());
    Keys.push_back(key((K *)nullptr));
  }
  template <class CellTy> void operator()() {
    Keys.push_back(key((typename CellTy::CellKey *)nullptr));
  }
  static int key(KA *) { return 0; }
  static int key(KB *) { return 1; }
  static int key(KC *) { return 2; }
  static int key(KD *) { return 3; }
  static int key(KE *) { return 4; }
};
struct VisitTypes {
  VisitTypes() {}
  VisitTypes(const VisitTypes &) = delete;
  const void *Where[3] = {};
  int Seen[3] = {};
  void operator()(const Obj &O) { Where[0] = &O, ++Seen[0]; }
  void operator()(const std::string &O) { Where[1] = &O, ++Seen[1]; }
  void operator()(const std::vector<int> &O) { Where[2] = &O, ++Seen[2]; }
  template <class CellTy> void operator()() {
    ++Seen[key((CellTy *)nullptr)];
  }
  static int key(bcl::StaticMapKey<Obj> *) { return 0; }
  static int key(bcl::StaticMapKey<std::string> *) { return 1; }
  static int key(bcl::StaticMapKey<std::vector<int>> *) { return 2; }
  static int key(Obj *) { return 0; }
  static int key(std::string *) { return 1; }
  static int key(std::vector<int> *) { return 2; }
  bool once() const { return Seen[0] == 1 && Seen[1] == 1 && Seen[2] == 1; }
};
// Visits the elements of a tuple.
struct VisitTuple {
  VisitTuple() {}
  VisitTuple(const VisitTuple &) = delete;
  std::vector<const void *> Where;
  std::vector<int> Keys;
  template <class Tagged> void operator()(const typename Tagged::type &V) {
    Where.push_back(&V);
    Keys.push_back(Visit::key((typename Tagged::tag *)nullptr) * 2);
  }
  template <class Tagged> void operator()(typename Tagged::type &V) {
    Where.push_back(&V);
    Keys.push_back(Visit::key((typename Tagged::tag *)nullptr) * 2 + 1);
  }
};
template <class Tag> int number_of() {
  typedef bcl::get_tagged<Tag, TA, TB, TD> T;
  return std::is_same<T, TA>::value ? 1 : std::is_same<T, TB>::value ? 2
       : std::is_same<T, TD>::value ? 3 : std::is_void<T>::value ? 0 : -1;
}
struct Blob {
  int *P;
  char T[21];
  long X[2];
};
Blob Bl[2];
int Cell[2];
}
extern "C" {
int s_make(int I, int V, int Owned) {
  return guarded([&] {
    Obj A(V);
    std::string B = str(V);
    std::vector<int> C = vec(V);
    std::unique_ptr<Obj> P, Q;
    if (Owned & 1)
      P = bcl::make_unique<Obj>(V + 1);
    if (Owned & 2)
      Q = bcl::make_unique_piecewise<Obj>(std::make_tuple(V + 2));
    FM[I] = new Full(A, B, P.get(), C, Q.get());
    P.release();
    Q.release();
  });
}
int s_make_part(int I, int V) {
  return guarded([&] { PM[I] = new Part(vec(V), Obj(V), str(V)); });
}
int s_destroy(int I) {
  return guarded([&] {
    FM[I]->for_each(bcl::ClearCellFunctor());
    FM[I]->for_each(bcl::InitCellFunctor());
    if (FM[I]->value<KC>() || FM[I]->value<KE>())
      throw 1;
    FM[I]->for_each(bcl::ClearCellFunctor());
    delete FM[I];
    FM[I] = nullptr;
  });
}
int s_destroy_part(int I) {
  return guarded([&] {
    delete PM[I];
    PM[I] = nullptr;
  });
}
// Copy or move between maps which share three of the cells.
int s_transfer(int I, int J, int How) {
  return guarded([&] {
    switch (How) {
    case 0: FM[I]->for_each(bcl::CopyToCellFunctor<Part>(PM[J])); break;
    case 1: PM[J]->for_each(bcl::CopyToCellFunctor<Full>(FM[I])); break;
    case 2: FM[I]->for_each(bcl::MoveToCellFunctor<Part>(PM[J])); break;
    case 3: PM[J]->for_each(bcl::MoveToCellFunctor<Full>(FM[I])); break;
    case 4: FM[I]->for_each(bcl::CopyFromCellFunctor<Part>(PM[J])); break;
    case 5: PM[J]->for_each(bcl::CopyFromCellFunctor<Full>(FM[I])); break;
    case 6: FM[I]->for_each(bcl::MoveFromCellFunctor<Part>(PM[J])); break;
    case 7: PM[J]->for_each(bcl::MoveFromCellFunctor<Full>(FM[I])); break;
    }
  });
}
// Values of the cells; -2: damaged
int s_val(int I, int Part_, int Cell) {
  auto Str = [](const std::string &S) {
    for (int V = 0; V < 182; ++V)
      if (S == str(V))
        return V;
    return S.empty() ? -1 : -2;
  };
  auto Vec = [](const std::vector<int> &A) {
    return A.empty() ? -1 : A == vec(A[0]) ? A[0] : -2;
  };
  if (Part_) {
    Part &M = *PM[I];
    const Part &C = M;
    switch (Cell) {
    case 0: return M.value<KA>().use(2);
    case 1: return Str(C.value<KB>());
    case 3: return Vec(M[KD()]);
    }
    return -1;
  }
  Full &M = *FM[I];
  const Full &C = M;
  switch (Cell) {
  case 0: return C.value<KA>().use(2);
  case 1: return Str(M[KB()]);
  case 2: return C[KC()] ? C[KC()]->use(2) : -1;
  case 3: return Vec(M.value<KD>());
  case 4: return M.value<KE>() ? M.value<KE>()->use(2) : -1;
  }
  return -1;
}
int s_values() { return 182; }
// ---- tuples and pairs
int p_make(int K, int I, int V) {
  return guarded([&] {
    switch (K) {
    case 0: TU[I] = new TT(Obj(V), str(V), vec(V)); break;
    case 1: TQ[I] = new TP(Obj(V), str(V)); break;
    case 2: CC[I] = new CP(Obj(V), str(V)); break;
    case 3: {
      auto T = bcl::make_unique<SM>();
      T->value<Obj>() = Obj(V);
      T->value<std::string>() = str(V);
      (*T)[std::vector<int>()] = vec(V);
      SO[I] = T.release();
      break;
    }
    }
  });
}
int p_destroy(int K, int I) {
  return guarded([&] {
    switch (K) {
    case 0: delete TU[I]; TU[I] = nullptr; break;
    case 1: delete TQ[I]; TQ[I] = nullptr; break;
    case 2: delete CC[I]; CC[I] = nullptr; break;
    case 3: delete SO[I]; SO[I] = nullptr; break;
    }
  });
}
int p_assign(int K, int I, int J, int Mv) {
  int R = 0;
  int G = guarded([&] {
    switch (K) {
    case 0: {
      auto *P = Mv ? &(*TU[I] = std::move(*TU[J])) : &(*TU[I] = *TU[J]);
      R = P == TU[I] ? 0 : 4;
      break;
    }
    case 1: {
      auto *P = Mv ? &(*TQ[I] = std::move(*TQ[J])) : &(*TQ[I] = *TQ[J]);
      R = P == TQ[I] ? 0 : 4;
      break;
    }
    case 2: {
      auto *P = Mv ? &(*CC[I] = std::move(*CC[J])) : &(*CC[I] = *CC[J]);
      R = P == CC[I] ? 0 : 4;
      break;
    }
    case 3: {
      auto *P = Mv ? &(*SO[I] = std::move(*SO[J])) : &(*SO[I] = *SO[J]);
      R = P == SO[I] ? 0 : 4;
      break;
    }
    }
  });
  return G ? G : R;
}
int p_val(int K, int I, int Cell) {
  auto Str = [](const std::string &S) {
    for (int V = 0; V < 182; ++V)
      if (S == str(V))
        return V;
    return S.empty() ? -1 : -2;
  };
  if (K == 0) {
    const TT &C = *TU[I];
    if (Cell == 0) return C.get<KA>().use(2);
    if (Cell == 1) return Str(TU[I]->get<KB>());
    auto &A = C.get<KD>();
    return A.empty() ? -1 : A == vec(A[0]) ? A[0] : -2;
  }
  if (K == 1) {
    const TP &C = *TQ[I];
    if (Cell == 0) return C.get<KA>().use(2);
    if (Cell == 1) return Str(TQ[I]->get<KB>());
    return -1;
  }
  if (K == 3) {
    const SM &C = *SO[I];
    if (Cell == 0) return C.value<Obj>().use(2);
    if (Cell == 1) return Str((*SO[I])[std::string()]);
    auto &A = C[std::vector<int>()];
    if (&A != &SO[I]->value<std::vector<int>>()) return -2;
    return A.empty() ? -1 : A == vec(A[0]) ? A[0] : -2;
  }
  const CP &C = *CC[I];
  if (Cell == 0) return static_cast<const Obj &>(C).use(2);
  if (Cell == 1) return Str(static_cast<std::string &>(*CC[I]));
  return -1;
}
// Visit the cells of a map of types (K == 3), a large (0) or small (1) map:
// 0 if every cell is visited once, in order, with its own value.
int s_visit(int K, int I) {
  if (K == 4) {
    TT &M = *TU[I];
    const TT &C = M;
    const void *P[3] = {&std::get<0>(M), &std::get<1>(M), &std::get<2>(M)};
    if (&M.get<KA>() != P[0] || &C.get<KA>() != P[0] || &M.get<KB>() != P[1] ||
        &C.get<KB>() != P[1] || &M.get<KX>() != P[1] || &C.get<KX>() != P[1] ||
        &M.get<KD>() != P[2] || &C.get<KD>() != P[2] || &M.get<KE>() != P[2] ||
        &C.get<KY>() != P[2])
      return 2;
    for (int How = 0; How < 2; ++How) {
      VisitTuple V;
      if (How)
        bcl::for_each(M, V);
      else
        bcl::for_each(C, V);
      if (V.Keys != std::vector<int>{How, 2 + How, 6 + How})
        return 1;
      if (V.Where != std::vector<const void *>(P, P + 3))
        return 2;
    }
    VisitTuple V;
    bcl::tagged_tuple<> E;
    bcl::for_each(E, V);
    bcl::tagged_tuple<TD> One{vec(3)};
    if (!V.Keys.empty())
      return 1;
    bcl::for_each(One, V);
    if (V.Keys != std::vector<int>{7} || V.Where[0] != &std::get<0>(One))
      return 1;
    if (bcl::tagged_tuple_size<TT>::value != 3 || bcl::tagged_tuple_size<bcl::tagged_tuple<>>::value ||
        bcl::tagged_tuple_empty<TT>::value || !bcl::tagged_tuple_empty<bcl::tagged_tuple<>>::value ||
        bcl::tagged_tuple_idx<TA, TT>::value != 0 || bcl::tagged_tuple_idx<TD, TT>::value != 2 ||
        !std::is_same<bcl::tagged_tuple_tag<1, TT>::type, KB>::value ||
        !std::is_same<bcl::tagged_tuple_tag<2, TT>::type, KD>::value)
      return 1;
    if (number_of<KA>() != 1 || number_of<KB>() != 2 || number_of<KX>() != 2 ||
        number_of<KD>() != 3 || number_of<KE>() != 3 || number_of<KY>() != 3 ||
        number_of<KC>() != 0 || !bcl::is_tagged<TA>::value || bcl::is_tagged<Obj>::value)
      return 1;
    return 0;
  }
  if (K == 5) {
    TP &M = *TQ[I];
    const TP &C = M;
    return &M.get<KA>() != &M.first || &C.get<KA>() != &M.first ||
           &M.get<KB>() != &M.second || &C.get<KB>() != &M.second ||
           &M.get<KX>() != &M.second || &C.get<KX>() != &M.second ? 2 : 0;
  }
  if (K == 3) {
    SM &M = *SO[I];
    const SM &C = M;
    for (int How = 0; How < 3; ++How) {
      VisitTypes V;
      if (How == 0)
        M.for_each(V);
      else if (How == 1)
        C.for_each(V);
      else
        SM::for_each_key(V);
      if (!V.once())
        return 1;
      if (How < 2 && (V.Where[0] != &M.value<Obj>() ||
                      V.Where[1] != &M.value<std::string>() ||
                      V.Where[2] != &M.value<std::vector<int>>()))
        return 2;
    }
    return 0;
  }
  for (int How = 0; How < 3; ++How) {
    Visit V;
    std::vector<const void *> W;
    std::vector<int> N;
    if (K == 0) {
      Full &M = *FM[I];
      const Full &C = M;
      How == 0 ? M.for_each(V) : How == 1 ? C.for_each(V) : Full::for_each_key(V);
      W = {&M.value<KA>(), &M.value<KB>(), &M.value<KC>(), &M.value<KD>(), &M.value<KE>()};
      N = {0, 1, 2, 3, 4};
    } else {
      Part &M = *PM[I];
      const Part &C = M;
      How == 0 ? M.for_each(V) : How == 1 ? C.for_each(V) : Part::for_each_key(V);
      W = {&M.value<KD>(), &M.value<KA>(), &M.value<KB>()};
      N = {3, 0, 1};
    }
    if (V.Keys != N)
      return 1;
    if (How < 2 && V.Where != W)
      return 2;
  }
  return 0;
}
// ---- raw exchange
}
namespace {
template <int N> struct Pack {
  unsigned char B[N];
  Pack() {}
  void fill(int V) {
    for (int J = 0; J < N; ++J)
      B[J] = (unsigned char)(V * 7 + J * 3 + J / 256);
  }
  bool holds(int V) const {
    for (int J = 0; J < N; ++J)
      if (B[J] != (unsigned char)(V * 7 + J * 3 + J / 256))
        return false;
    return true;
  }
private:
  Pack &operator=(const Pack &);
};
// Objects of 1 to 160 bytes and some larger ones.
template <int... N> struct Packs : Pack<N>... {};
template <class> struct UpTo;
template <int... N> struct UpTo<std::integer_sequence<int, N...>> {
  typedef Packs<(N < 160 ? N + 1 : N == 160 ? 1003 : N == 161 ? 4099 : 5000)...> type;
  template <class F> static void on(int What, F Fn) {
    (void)std::initializer_list<int>{(What == N ? Fn((Pack<(N < 160 ? N + 1 : N == 160 ? 1003 : N == 161 ? 4099 : 5000)> *)nullptr) : void(), 0)...};
  }
};
typedef UpTo<std::make_integer_sequence<int, 163>> Sizes;
Sizes::type Pk[2];
template <int N> Pack<N> &pack(int I, Pack<N> *) { return Pk[I]; }
}
extern "C" {
void b_init(int I, int V) {
  Bl[I].P = &Cell[I];
  for (int J = 0; J < 21; ++J)
    Bl[I].T[J] = (char)(V * 7 + J);
  Bl[I].X[0] = V;
  Bl[I].X[1] = ~V;
}
int b_swap(int I, int J, int What) {
  return guarded([&] {
    if (What < 0)
      bcl::swapMemory(Bl[I], Bl[J]);
    else
      Sizes::on(What, [=](auto *P) { bcl::swapMemory(pack(I, P), pack(J, P)); });
  });
}
void b_fill(int I, int What, int V) {
  Sizes::on(What, [=](auto *P) { pack(I, P).fill(V); });
}
int b_pack(int I, int What, int V) {
  int R = 0;
  Sizes::on(What, [&](auto *P) { R = pack(I, P).holds(V); });
  return R;
}
// which Cell and V it holds; -1: mixed
int b_val(int I, int *C) {
  int V = (int)Bl[I].X[0];
  *C = Bl[I].P == &Cell[0] ? 0 : Bl[I].P == &Cell[1] ? 1 : -1;
  for (int J = 0; J < 21; ++J)
    if (Bl[I].T[J] != (char)(V * 7 + J))
      return -1;
  return Bl[I].X[1] == ~(long)V ? V : -1;
}
}
