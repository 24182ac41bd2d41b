// Code under test of the memory worlds: bcl/Diagnostic.h and
// bcl/transparent_queue.h, driven operation by operation.
#include <bcl/Diagnostic.h>
#include <bcl/transparent_queue.h>
#include <new>
#include <string>
#include <utility>
namespace {
template <class F> int guarded(F &&Fn) {
  try {
    Fn();
    return 0;
  } catch (const std::bad_alloc &) {
    return 1;
  } catch (...) {
    return 2;
  }
}
bcl::Diagnostic *D[8];
using Q = bcl::TransparentQueue<int>;
Q *T[8];
int Cells[16];
int idx(const int *P) { return P ? (int)(P - Cells) : -1; }
int *ptr(int I) { return I < 0 ? nullptr : &Cells[I]; }
}
extern "C" {
// ---- diagnostics
int d_make(int I, const char *Kind) {
  return guarded([&] { D[I] = new bcl::Diagnostic(Kind); });
}
int d_destroy(int I) {
  return guarded([&] {
    auto *P = D[I];
    D[I] = nullptr;
    delete P;
  });
}
int d_insert(int I, int Shape, size_t Code, uintmax_t Pos, const char *Fmt,
             const char *S, int N, double X, int *Out) {
  return guarded([&] {
    bool R = false;
    auto &A = *D[I];
    switch (Shape) {
    case 0: R = A.insert(Code, Fmt, Pos); break;
    case 1: R = A.insert(Code, Fmt, Pos, S); break;
    case 2: R = A.insert(Code, Fmt, Pos, N); break;
    case 3: R = A.insert(Code, Fmt, Pos, S, N); break;
    case 4: R = A.insert(Code, Fmt, Pos, N, S, X); break;
    }
    *Out = R;
  });
}
const char *d_kind(int I) { return D[I]->getKind(); }
size_t d_size(int I) { return D[I]->size(); }
int d_empty(int I) { return D[I]->empty(); }
size_t d_internal(int I) { return D[I]->internal_size(); }
// Entries in the order of one of the iteration styles.
size_t d_list(int I, int Style, const char **P, size_t Max) {
  const bcl::Diagnostic &A = *D[I];
  size_t N = 0;
  auto Put = [&](const char *S) {
    if (N < Max)
      P[N] = S;
    ++N;
  };
  switch (Style) {
  case 0:
    for (auto S : A) Put(S);
    break;
  case 1:
    for (auto J = A.cbegin(), E = A.cend(); J != E; J++) Put(*J);
    break;
  case 2:
    for (auto J = A.rbegin(), E = A.rend(); !(J == E); ++J) Put(*J);
    break;
  case 3:
    for (auto J = A.crbegin(), E = A.crend(); J != E; J++) Put(*J);
    break;
  case 4:
    for (auto J = A.end(), B = A.begin(); J != B;) Put(*--J);
    break;
  case 5:
    for (auto J = A.end(), B = A.begin(); J != B;) { J--; Put(*J); }
    break;
  }
  return N;
}
int d_clear(int I) {
  return guarded([&] { D[I]->clear(); });
}
int d_swap(int I, int J, int How) {
  return guarded([&] {
    if (How)
      std::swap(*D[I], *D[J]);
    else
      D[I]->swap(*D[J]);
  });
}
int d_move(int To, int From) {
  return guarded([&] { D[To] = new bcl::Diagnostic(std::move(*D[From])); });
}
// ---- queues
int q_make(int I, int How, int V) {
  return guarded([&] { T[I] = How ? new Q(ptr(V)) : new Q(); });
}
int q_destroy(int I) {
  return guarded([&] {
    auto *P = T[I];
    T[I] = nullptr;
    delete P;
  });
}
int q_push(int I, int V, int How) {
  return guarded([&] {
    int *P = ptr(V);
    if (How)
      T[I]->emplace(P);
    else
      T[I]->push(P);
  });
}
int q_pop(int I, int *Out) {
  return guarded([&] { *Out = idx(T[I]->pop()); });
}
int q_copy_make(int To, int From) {
  return guarded([&] { T[To] = new Q(*static_cast<const Q *>(T[From])); });
}
int q_move_make(int To, int From) {
  return guarded([&] { T[To] = new Q(std::move(*T[From])); });
}
int q_copy(int To, int From) {
  bool Ok = true;
  int R = guarded([&] {
    auto &X = (*T[To] = *static_cast<const Q *>(T[From]));
    Ok = &X == T[To];
  });
  return R ? R : Ok ? 0 : 3;
}
int q_move(int To, int From) {
  bool Ok = true;
  int R = guarded([&] {
    auto &X = (*T[To] = std::move(*T[From]));
    Ok = &X == T[To];
  });
  return R ? R : Ok ? 0 : 3;
}
int q_swap(int I, int J, int How) {
  return guarded([&] {
    using std::swap;
    if (How)
      swap(*T[I], *T[J]);
    else
      T[I]->swap(*T[J]);
  });
}
int q_cmp(int I, int J, int Op, int *Out) {
  return guarded([&] {
    const Q &A = *T[I], &B = *T[J];
    switch (Op) {
    case 0: *Out = A == B; break;
    case 1: *Out = A != B; break;
    case 2: *Out = A < B; break;
    case 3: *Out = A > B; break;
    case 4: *Out = A <= B; break;
    case 5: *Out = A >= B; break;
    }
  });
}
size_t q_size(int I) { return T[I]->size(); }
int q_empty(int I) { return T[I]->empty(); }
int q_front(int I, int C) {
  return idx(C ? static_cast<const Q *>(T[I])->front() : T[I]->front());
}
int q_back(int I, int C) {
  return idx(C ? static_cast<const Q *>(T[I])->back() : T[I]->back());
}
void q_set(int I, int Back, int V) {
  if (Back)
    T[I]->back() = ptr(V);
  else
    T[I]->front() = ptr(V);
}
}
