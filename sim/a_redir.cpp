// Code under test of the redirection world: bcl/RedirectIO.h (and
// bcl/Diagnostic.h), driven by single operations on a few slots.
#include <bcl/RedirectIO.h>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
namespace {
struct Slot {
  alignas(bcl::RedirectIO) unsigned char Mem[sizeof(bcl::RedirectIO)];
};
// The objects live on the simulated heap, so that every access is checked.
bcl::RedirectIO *Objs[8];
bcl::RedirectIO &obj(int I) { return *Objs[I]; }
template <class F> int guarded(F &&Fn) {
  try {
    Fn();
    return 0;
  } catch (const std::bad_alloc &) {
    return 1;
  } catch (...) {
    return 2;
  }
}
}
extern "C" {
int a_alive(int I) { return Objs[I] != nullptr; }
int a_default(int I) {
  return guarded([&] { Objs[I] = new bcl::RedirectIO(); });
}
int a_make(int I, int From, const char *To, size_t N, int M) {
  return guarded([&] {
    std::string Name(To, N);
    using E = bcl::RedirectIO::Mode;
    if (M == 3)
      Objs[I] = new bcl::RedirectIO(From, Name);
    else
      Objs[I] = new bcl::RedirectIO(
          From, Name, M == 0 ? E::Rewrite : M == 1 ? E::Append : E::Read);
  });
}
int a_destroy(int I) {
  return guarded([&] {
    bcl::RedirectIO *P = Objs[I];
    Objs[I] = nullptr;
    delete P;
  });
}
int a_move_make(int To, int From) {
  return guarded([&] { Objs[To] = new bcl::RedirectIO(std::move(obj(From))); });
}
int a_move_assign(int To, int From) {
  int Ok = 1;
  int R = guarded([&] {
    bcl::RedirectIO &X = (obj(To) = std::move(obj(From)));
    Ok = &X == &obj(To);
  });
  return R ? R : Ok ? 0 : 3;
}
int a_assign_new(int To, int From, const char *Name, size_t N, int M) {
  return guarded([&] {
    using E = bcl::RedirectIO::Mode;
    obj(To) = bcl::RedirectIO(From, std::string(Name, N),
                              M == 0 ? E::Rewrite : M == 1 ? E::Append : E::Read);
  });
}
int a_swap(int A, int B) {
  return guarded([&] {
    using std::swap;
    swap(obj(A), obj(B));
  });
}
int a_redirected(int I) { return obj(I).mayRedirected(); }
int a_has_errors(int I) { return obj(I).hasErrors(); }
size_t a_errors(int I, const char **Text, size_t Max, size_t *Internal) {
  const bcl::Diagnostic &D = obj(I).errors();
  *Internal = D.internal_size();
  size_t N = 0;
  for (auto P : D) {
    if (N < Max)
      Text[N] = P;
    ++N;
  }
  return N;
}
void a_name(int I, const char **P, size_t *N) {
  const std::string &S = obj(I).fileName();
  *P = S.data();
  *N = S.size();
}
int a_is_diff(int I, int *Out) {
  return guarded([&] { *Out = obj(I).isDiff(); });
}
static std::string *Last;
int a_diff(int I, const char **P, size_t *N) {
  delete Last;
  Last = nullptr;
  std::string S;
  int R = guarded([&] {
    Last = new std::string();
    *Last = obj(I).diff();
  });
  if (!R) {
    *P = Last->data();
    *N = Last->size();
  }
  return R;
}
void a_drop() {
  delete Last;
  Last = nullptr;
}
int a_set_pos(int I, int *Out) {
  return guarded([&] { *Out = obj(I).setDiffPos(); });
}
int a_reset_pos(int I) {
  return guarded([&] { obj(I).resetDiffPos(); });
}
int a_traits() {
  using T = bcl::RedirectIO;
  return !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value;
}
}
