// A scripted server for the Node.js addon.
#include "bcl/Socket.h"
#include <memory>
extern "C" {
void nx_server(const void *S);
void nx_data(int L, const char *P, size_t N);
void nx_closed(int L, int Flag);
void nx_dead(int L);
}
namespace {
// State a listener owns: on the heap, released with its last copy.
struct Token {
  int Id;
  char Pad[40];
  explicit Token(int I) : Id(I) {}
  ~Token() { nx_dead(Id); }
};
}
namespace bcl {
template <> void createServer(const Socket<std::string> *S) { nx_server(S); }
}
extern "C" {
void n_receive(const void *S, int L) {
  auto T = std::make_shared<Token>(L);
  static_cast<const bcl::Socket<std::string> *>(S)->receive([T](const std::string &M) {
    nx_data(T->Id, M.data(), M.size());
    nx_data(-1 - T->Id, M.data(), M.size());
  });
}
void n_closed(const void *S, int L) {
  auto T = std::make_shared<Token>(L);
  static_cast<const bcl::Socket<std::string> *>(S)->closed([T](bool F) {
    nx_closed(T->Id, F);
    nx_closed(-1 - T->Id, F);
  });
}
void n_send(const void *S, const char *P, size_t N) {
  static_cast<const bcl::Socket<std::string> *>(S)->send(std::string(P, N));
}
}
