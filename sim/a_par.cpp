// Instrumented adapter: parts of the library used by several threads at once,
// each of them with objects of its own or reading an object they share.
#include <assert.h>
#include <cstring>
#include <utility>
#include <bcl/Diagnostic.h>
#include <bcl/Json.h>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/cell.h>
#include <bcl/convertible_pair.h>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <bcl/tagged.h>
#include <bcl/trait.h>
#include <bcl/transparent_queue.h>
#include <bcl/utility.h>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <thread>
#include <vector>
JSON_OBJECT_BEGIN(Spot)
JSON_OBJECT_PAIR_2(Spot, X, int, Label, std::string)
JSON_OBJECT_END(Spot)
JSON_DEFAULT_TRAITS(::, Spot)
JSON_OBJECT_BEGIN(Person)
JSON_OBJECT_ROOT_PAIR_4(Person, Name, std::string, Age, unsigned, Tags, std::vector<std::string>, Place, BCL_JOIN(std::map<std::string, Spot>))
  Person() : JSON_INIT(Person, std::string(), 0u, std::vector<std::string>(), std::map<std::string, Spot>()), JSON_INIT_ROOT {}
JSON_OBJECT_END(Person)
JSON_DEFAULT_TRAITS(::, Person)
JSON_OBJECT_BEGIN(Rule)
JSON_OBJECT_ROOT_PAIR_3(Rule, Weight, std::optional<double>, On, bool, Order, BCL_JOIN(std::multimap<int, std::string>))
  Rule() : JSON_INIT(Rule, std::optional<double>(), false, BCL_JOIN(std::multimap<int, std::string>())), JSON_INIT_ROOT {}
JSON_OBJECT_END(Rule)
JSON_DEFAULT_TRAITS(::, Rule)
JSON_OBJECT_BEGIN(Kit)
JSON_OBJECT_ROOT_PAIR_8(Kit, L, long, LL, long long, UL, unsigned long, ULL, unsigned long long, F, float, C, char, Set, std::set<std::string>, Text, const char *)
  Kit() : JSON_INIT(Kit, 0l, 0ll, 0ul, 0ull, 0.f, 'x', std::set<std::string>(), nullptr), JSON_INIT_ROOT {}
  ~Kit() { delete[] (*this)[Kit::Text]; }
  Kit(const Kit &) = delete;
  Kit & operator=(const Kit &) = delete;
JSON_OBJECT_END(Kit)
JSON_DEFAULT_TRAITS(::, Kit)

extern "C" {
void h_par_point(int slot);
void h_par_done(int slot, int how, const char *p, size_t n);
}
namespace {
using P = json::Parser<Person, Rule, Kit>;
struct Rng {
  uint32_t S;
  uint32_t operator()(uint32_t N) {
    S = S * 1664525u + 1013904223u;
    return (S >> 9) % N;
  }
};
std::string word(Rng &R) {
  static constexpr char Chars[] = "abcXYZ019 _-{[,:\"\\\n$";
  std::string S;
  for (uint32_t N = R(R(4) ? 6 : 40); N; --N)
    S += Chars[R(sizeof(Chars) - 1)];
  return S;
}
void fill(Spot &V, Rng &R) {
  V[Spot::X] = (int)R(100000) - 50000;
  V[Spot::Label] = word(R);
}
void fill(Person &V, Rng &R) {
  V[Person::Name] = word(R);
  V[Person::Age] = R(1000000);
  for (uint32_t N = R(4); N; --N)
    V[Person::Tags].push_back(word(R));
  for (uint32_t N = R(3); N; --N)
    fill(V[Person::Place][word(R)], R);
}
void fill(Rule &V, Rng &R) {
  if (R(2))
    V[Rule::Weight] = R(1000) / 8.0;
  V[Rule::On] = R(2);
  for (uint32_t N = R(4); N; --N)
    V[Rule::Order].emplace((int)R(5), word(R));
}
void fill(Kit &V, Rng &R) {
  V[Kit::L] = (long)R(1 << 22) * 3000 - 77;
  V[Kit::LL] = -(long long)R(1 << 22) * 1000003;
  V[Kit::UL] = R(1 << 22);
  V[Kit::ULL] = (unsigned long long)R(1 << 22) << 40;
  V[Kit::F] = R(4000) / 16.f;
  V[Kit::C] = (char)('a' + R(26));
  for (uint32_t N = R(4); N; --N)
    V[Kit::Set].insert(word(R));
  if (R(2)) {
    std::string W = word(R);
    char *T = new char[W.size() + 1];
    std::memcpy(T, W.c_str(), W.size() + 1);
    V[Kit::Text] = T;
  }
}
void errors(const P &A, std::string &Out) {
  Out += A.hasErrors() ? "!" : ".";
  for (auto E : A.errors())
    (Out += E) += '\n';
}
template <class T> void roundTrip(Rng &R, int Slot, std::string &Out) {
  T V;
  fill(V, R);
  h_par_point(Slot);
  std::string J = R(2) ? P::unparse(static_cast<const json::Object &>(V))
                       : P::unparseAsObject(V);
  Out += J;
  h_par_point(Slot);
  if (!R(3) && !J.empty())
    J[R((uint32_t)J.size())] = (char)('!' + R(90));
  P A(J);
  if (R(2)) {
    T W;
    Out += A.parse(W) ? "ok" : "failed";
    h_par_point(Slot);
    Out += P::unparse(W);
  } else {
    auto O = A.parse();
    Out += !O ? "none" : O->template is<Person>() ? "person" : O->template is<Rule>() ? "rule" : "kit";
    if (O)
      Out += P::unparse(*O);
  }
  errors(A, Out);
}
void diagnostics(Rng &R, int Slot, std::string &Out) {
  bcl::Diagnostic D(R(2) ? "error" : "warning");
  for (uint32_t N = R(8); N; --N) {
    std::string W = word(R);
    bool Ok = false;
    switch (R(3)) {
    case 0: Ok = D.insert(R(1000), "plain", (uintmax_t)R(5000)); break;
    case 1: Ok = D.insert(R(10), "text %s", (uintmax_t)R(5000), W.c_str()); break;
    case 2: Ok = D.insert(R(10), "%d and %s", (uintmax_t)R(50), (int)R(9), W.c_str()); break;
    }
    Out += Ok ? '+' : '-';
    h_par_point(Slot);
  }
  bcl::Diagnostic E("note");
  E.insert(1, "other", 2);
  D.swap(E);
  for (auto S : E)
    (Out += S) += '\n';
  for (auto I = D.rbegin(); I != D.rend(); ++I)
    (Out += *I) += '\n';
  Out += std::to_string(E.size());
}
void queues(Rng &R, int Slot, std::string &Out) {
  int Cells[8];
  bcl::TransparentQueue<int> A, B;
  for (uint32_t N = 3 + R(20); N; --N) {
    auto &Q = R(3) ? A : B;
    switch (R(4)) {
    case 0:
    case 1: Q.push(&Cells[R(8)]); break;
    case 2:
      if (!Q.empty())
        Out += (char)('0' + (Q.pop() - Cells));
      break;
    case 3:
      if (R(2))
        A.swap(B);
      else
        B = A;
      h_par_point(Slot);
      break;
    }
    Out += A == B ? '=' : A < B ? '<' : '>';
  }
  while (!A.empty())
    Out += (char)('a' + (A.pop() - Cells));
  Out += std::to_string(B.size());
}
struct Ta { int V; };
struct Tb { int V; };
struct Tc { int V; };
struct Td { int V; };
struct Te {};
using TD = bcl::TraitDescriptor<Ta, bcl::TraitAlternative<Tb, bcl::TraitUnion<Tc, Td>>, Te>;
using TS = bcl::TraitSet<TD, std::map<bcl::TraitKey, void *>>;
template <class T> struct Letter;
template <> struct Letter<Ta> { enum { value = 'a' }; };
template <> struct Letter<Tb> { enum { value = 'b' }; };
template <> struct Letter<Tc> { enum { value = 'c' }; };
template <> struct Letter<Td> { enum { value = 'd' }; };
template <> struct Letter<Te> { enum { value = 'e' }; };
struct Spell {
  std::string &Out;
  template <class T> void operator()() { Out += (char)Letter<T>::value; }
};
void look(const TS &S, std::string &Out) {
  Out += S.is<Ta>() ? '1' : '0';
  Out += S.is<Tb>() ? '1' : '0';
  Out += S.is<Tc>() ? '1' : '0';
  Out += S.is<Td>() ? '1' : '0';
  Out += S.is<Te>() ? '1' : '0';
  if (auto *X = S.get<Ta>())
    Out += std::to_string(X->V);
  if (auto *X = S.get<Tc>())
    Out += std::to_string(X->V);
}
void change(TS &S, Rng &R) {
  switch (R(8)) {
  case 0: S.set<Ta>(new Ta{(int)R(99)}); break;
  case 1: S.set<Tb>(new Tb{(int)R(99)}); break;
  case 2: S.set<Tc>(new Tc{(int)R(99)}); break;
  case 3: S.set<Td>(new Td{(int)R(99)}); break;
  case 4: S.set<Te>(); break;
  case 5: S.unset<Ta>(); break;
  case 6: S.unset<Tc, Td>(); break;
  case 7: S.unset<Tb>(); break;
  }
}
void traits(Rng &R, int Slot, std::string &Out) {
  TS S;
  for (uint32_t N = 3 + R(10); N; --N) {
    change(S, R);
    h_par_point(Slot);
    look(S, Out);
    Spell F{Out};
    S.for_each(F);
  }
  TS U(std::move(S));
  look(U, Out);
  U.unset_all();
}
struct KI { typedef int ValueType; };
struct KS { typedef std::string ValueType; };
struct KV { typedef std::vector<int> ValueType; };
using Cells = bcl::StaticMap<KI, KS, KV>;
void containers(Rng &R, int Slot, std::string &Out) {
  std::size_t X = 1 + R(4), Y = 1 + R(4);
  bcl::marray<std::string, 2> M(std::array<std::size_t, 2>{X, Y});
  bcl::marray_f<int, 2> F(std::array<std::size_t, 2>{X, Y});
  for (std::size_t I = 0; I < X; ++I)
    for (std::size_t J = 0; J < Y; ++J) {
      M[I][J] = word(R);
      F(I, J) = (int)R(1000);
    }
  h_par_point(Slot);
  bcl::marray<std::string, 2> N(std::move(M));
  for (std::size_t I = 0; I < X; ++I)
    for (std::size_t J = 0; J < Y; ++J)
      (Out += N[I][J]) += std::to_string(F(I, J));
  auto T = bcl::make_unique<Cells>();
  T->value<KI>() = (int)R(77);
  (*T)[KS()] = word(R);
  T->value<KV>() = std::vector<int>(R(9), 3);
  h_par_point(Slot);
  Out += std::to_string(T->value<KI>()) + T->value<KS>() +
         std::to_string(T->value<KV>().size());
  struct Bytes { char C[77]; } A, B;
  for (int I = 0; I < 77; ++I)
    A.C[I] = (char)R(256), B.C[I] = (char)R(256);
  bcl::swapMemory(A, B);
  Out.append(A.C, 77).append(B.C, 77);
}
// What threads only read at the same time.
struct KA {};
struct KB {};
struct KC {};
using TA = bcl::tagged<int, KA>;
using TB = bcl::add_alias_tagged<bcl::tagged<std::string, KB>, KC>;
using TT = bcl::tagged_tuple<TA, TB>;
using CP = bcl::convertible_pair<std::string, std::vector<int>>;
void small(Rng &R, int Slot, std::string &Out) {
  TT T((int)R(99), word(R));
  h_par_point(Slot);
  TT U(T);
  U.template get<KA>() += 1;
  U.template get<KC>() += word(R);
  Out += std::to_string(U.template get<KA>()) + U.template get<KB>() + std::to_string(T.template get<KA>());
  h_par_point(Slot);
  CP C(word(R), std::vector<int>(R(5), 7));
  (Out += static_cast<std::string &>(C)) += std::to_string(static_cast<std::vector<int> &>(C).size());
  std::string *At[6] = {};
  std::vector<bcl::ValuePtrWrapper<std::string>> Pool;
  uint32_t N = 1 + R(6);
  for (uint32_t I = 0; I < N; ++I) {
    Pool.emplace_back(At[I], word(R));
    h_par_point(Slot);
  }
  for (uint32_t I = 0; I < N; ++I)
    Out += *At[I];
  struct alignas(8) Two { uint32_t X, Y; } V{};
  uint64_t X = R(1 << 20), Y = R(1 << 20), XX = 0, YY = 0;
  if (bcl::shrinkPair(X, Y, V)) {
    h_par_point(Slot);
    bcl::restoreShrinkedPair(V, XX, YY);
  }
  Out += std::to_string(XX) + "," + std::to_string(YY);
}
template <class T> void readAs(const std::string &J, int Slot, std::string &Out) {
  json::Parser<> A(J);
  T V{};
  Out += A.parse(V) ? '+' : '-';
  h_par_point(Slot);
  Out += json::Parser<>::unparse(V);
  for (auto E : A.errors())
    (Out += E) += '\n';
}
void documents(Rng &R, int Slot, std::string &Out) {
  std::string A = "[", O = "{", M = "{";
  uint32_t N = R(5);
  for (uint32_t I = 0; I < N; ++I) {
    std::string S;
    json::Traits<std::string>::unparse(S, word(R));
    A += (I ? "," : "") + std::to_string(R(1000));
    O += (I ? ",\"" : "\"") + std::to_string(N - 1 - I) + "\":[" + std::to_string(R(9)) + "]";
    M += (I ? "," : "") + S + ":" + (R(2) ? "true" : R(2) ? "null" : "false");
  }
  A += "]", O += "}", M += "}";
  readAs<std::vector<long>>(A, Slot, Out);
  readAs<std::vector<std::vector<int>>>(O, Slot, Out);
  readAs<std::map<std::string, std::optional<bool>>>(M, Slot, Out);
  readAs<std::set<unsigned>>(A, Slot, Out);
  {
    json::Parser<> P(R(2) ? A : O);
    int *V = nullptr;
    Out += P.parse(V) ? '+' : '-';
    if (V)
      Out += std::to_string(V[0]);
    h_par_point(Slot);
    delete[] V;
  }
  bcl::Diagnostic D("kind"), E("kind");
  D.insert(R(100), "%s", (uintmax_t)R(100), word(R).c_str());
  std::string J = json::Parser<>::unparse(D);
  json::Parser<> P(J);
  Out += P.parse(E) ? '+' : '-';
  for (auto S : E)
    (Out += S) += '\n';
  // a value of an unknown name
  Person H;
  json::Parser<> Q("{\"Unknown\":" + O + ",\"Age\":" + std::to_string(R(99)) + ",\"More\":{\"a\":" + A + "}}");
  Out += Q.parse(H) ? '+' : '-';
  Out += std::to_string(H[Person::Age]);
}
struct Shared {
  Person H;
  Rule L;
  bcl::Diagnostic D{"error"};
  bcl::TransparentQueue<int> Q, Q2;
  TS S;
  bcl::marray_f<int, 2> F{std::array<std::size_t, 2>{3, 4}};
  std::unique_ptr<P> A;
  Cells M;
  int X[8];
  TT T{5, "shared"};
  CP C{"pair", std::vector<int>(3)};
  std::string *At = nullptr;
  bcl::ValuePtrWrapper<std::string> V{At, "value"};
};
Shared *Sh;
void readJson(int Slot, std::string &Out) {
  const Shared &C = *Sh;
  Out += P::unparse(static_cast<const json::Object &>(C.H));
  h_par_point(Slot);
  Out += P::unparseAsObject(C.L);
  Out += C.H[Person::Name];
  h_par_point(Slot);
  errors(*C.A, Out);
}
void readOther(int Slot, std::string &Out) {
  const Shared &C = *Sh;
  for (auto I = C.D.cbegin(); I != C.D.cend(); ++I)
    (Out += *I) += '\n';
  h_par_point(Slot);
  for (auto I = C.D.end(); I != C.D.begin();)
    (Out += *--I) += '\n';
  Out += C.D.getKind() + std::to_string(C.D.size()) + (C.D.empty() ? "e" : "n");
  h_par_point(Slot);
  Out += C.Q == C.Q2 ? '=' : C.Q < C.Q2 ? '<' : '>';
  Out += std::to_string(C.Q.size());
  if (!C.Q.empty())
    Out += std::to_string(C.Q.front() - C.X) + std::to_string(C.Q.back() - C.X);
  look(C.S, Out);
  h_par_point(Slot);
  for (std::size_t I = 0; I < 3; ++I)
    for (std::size_t J = 0; J < 4; ++J)
      Out += std::to_string(C.F(I, J));
  Out += std::to_string(C.M.value<KI>()) + C.M[KS()];
  h_par_point(Slot);
  Out += std::to_string(C.T.get<KA>()) + C.T.get<KC>();
  Out += static_cast<const std::string &>(C.C);
  Out += static_cast<const std::string &>(C.V);
}
int run(int Kind, uint32_t Seed, int Slot, std::string &Out) {
  try {
    Rng R{Seed};
    switch (Kind) {
    case 0: roundTrip<Person>(R, Slot, Out); break;
    case 1: roundTrip<Rule>(R, Slot, Out); break;
    case 8: roundTrip<Kit>(R, Slot, Out); break;
    case 2: diagnostics(R, Slot, Out); break;
    case 3: queues(R, Slot, Out); break;
    case 4: traits(R, Slot, Out); break;
    case 5: containers(R, Slot, Out); break;
    case 6: readJson(Slot, Out); break;
    case 7: readOther(Slot, Out); break;
    case 9: small(R, Slot, Out); break;
    case 10: documents(R, Slot, Out); break;
    }
    return 0;
  } catch (const std::bad_alloc &) {
    return 1;
  } catch (...) {
    return 2;
  }
}
}
extern "C" {
void a_par_share(uint32_t Seed) {
  Rng R{Seed};
  Sh = new Shared();
  fill(Sh->H, R);
  fill(Sh->L, R);
  for (uint32_t N = R(5); N; --N)
    Sh->D.insert(R(10), "text %d", (uintmax_t)R(100), (int)R(9));
  for (uint32_t N = R(5); N; --N)
    (R(3) ? Sh->Q : Sh->Q2).push(&Sh->X[R(8)]);
  for (uint32_t N = R(6); N; --N)
    change(Sh->S, R);
  for (std::size_t I = 0; I < 3; ++I)
    for (std::size_t J = 0; J < 4; ++J)
      Sh->F(I, J) = (int)R(100);
  Sh->A = bcl::make_unique<P>("{\"name\":\"Person\",\"Age\":[1,2}");
  Person V;
  Sh->A->parse(V);
  Sh->M.value<KI>() = (int)R(100);
  Sh->M.value<KS>() = word(R);
}
void a_par_alone(int Kind, uint32_t Seed, int Slot) {
  std::string Out;
  int How = run(Kind, Seed, -1, Out);
  h_par_done(Slot, How, Out.data(), Out.size());
}
void a_par_start(int Kind, uint32_t Seed, int Slot) {
  std::thread([=] {
    std::string Out;
    int How = run(Kind, Seed, Slot, Out);
    h_par_done(Slot, How, Out.data(), Out.size());
  }).detach();
}
}
