// Instrumented adapter: application side of the IntrusiveConnection world.
// Everything in here is what a user of the library writes; all decisions are
// taken by the harness (h_* functions).
#include <bcl/IntrusiveConnection.h>
#include <bcl/Socket.h>
#include <memory>
#include <new>
#include <string>
#include <system_error>
#include <vector>

extern "C" {
void h_transport(int id);
int h_send(int id, const char *p, size_t n);
void h_registered(int id, int what);
void h_request(int id, const char *p, size_t n, const char **resp, size_t *rn,
               int *thrw);
int h_next_op(int id, int *s, int *t, int conns);
void h_op_begin(int id, int op, int conn);
void h_op_end(int id, int op, int conn, int result, int calls);
void h_server_start(int id, int arg);
void h_server_end(int id);
int h_mail_put(int id, void *p, int conn);
void *h_mail_get(int id, int *conn);
void h_connect(int id);
void h_connect_failed(int id);
}
namespace {
using IC = bcl::IntrusiveConnection;
struct HandlerError {};

class MockSocket : public bcl::Socket<std::string> {
public:
  explicit MockSocket(int I) : Id(I) {}
  void send(const std::string &M) const override {
    Sends = Sends + 1;
    if (h_send(Id, M.data(), M.size()))
      throw std::bad_alloc();
  }
  void receive(const ReceiveCallback &F) const override { Rcv.push_back(F); }
  void closed(const ClosedCallback &F) const override { Cls.push_back(F); }
  int Id;
  mutable int Sends = 0;
  mutable std::vector<ReceiveCallback> Rcv;
  mutable std::vector<ClosedCallback> Cls;
};
MockSocket *Socks[16];
// The table belongs to the simulator: no access of the code under test.
#define PLAIN __attribute__((noinline, no_sanitize("thread")))
PLAIN MockSocket *sock(int I) { return Socks[I]; }
PLAIN void setSock(int I, MockSocket *S) { Socks[I] = S; }

struct Slot {
  std::unique_ptr<IC> C;
  int Conn = -1; // connection the object was last given (by the harness)
};

void serve(IC First, int Id, std::unique_ptr<int> Arg) {
  h_server_start(Id, *Arg);
  {
    Slot S[3];
    S[0].C.reset(new IC(std::move(First)));
    S[0].Conn = Id;
    for (;;) {
      int a = 0, b = 0;
      int Mask = 0;
      for (int i = 0; i < 3; ++i)
        if (S[i].C)
          Mask |= (1 << i) | (S[i].Conn >= 0 ? 8 << i : 0);
      int Op = h_next_op(Id, &a, &b, Mask);
      if (Op == 0)
        break;
      switch (Op) {
      case 1: { // answer
        int Calls = 0;
        int Conn = S[a].Conn;
        h_op_begin(Id, 1, Conn);
        int R = 0;
        try {
          R = S[a].C->answer([&](const std::string &Req) {
            ++Calls;
            const char *P;
            size_t N;
            int Throw = 0;
            h_request(Conn, Req.data(), Req.size(), &P, &N, &Throw);
            if (Throw)
              throw HandlerError();
            return std::string(P, N);
          });
        } catch (HandlerError &) {
          R = 2;
        } catch (std::bad_alloc &) {
          R = 3;
        }
        h_op_end(Id, 1, Conn, R, Calls);
        break;
      }
      case 2: // move construct a -> b
        h_op_begin(Id, 2, S[a].Conn);
        S[b].C.reset(new IC(std::move(*S[a].C)));
        S[b].Conn = S[a].Conn;
        S[a].Conn = -1;
        h_op_end(Id, 2, S[b].Conn, 0, 0);
        break;
      case 3: // destroy a
        h_op_begin(Id, 3, S[a].Conn);
        {
          int Conn = S[a].Conn;
          S[a].C.reset();
          S[a].Conn = -1;
          h_op_end(Id, 3, Conn, 0, 0);
        }
        break;
      case 4: { // move assign a -> b
        int Old = a == b ? -1 : S[b].Conn;
        h_op_begin(Id, 4, Old);
        IC &R = (*S[b].C = std::move(*S[a].C));
        if (a != b) {
          S[b].Conn = S[a].Conn;
          S[a].Conn = -1;
        }
        h_op_end(Id, 4, Old, &R == S[b].C.get(), 0);
        break;
      }
      case 5: { // hand a over to another server thread
        void *P = new IC(std::move(*S[a].C));
        int Conn = S[a].Conn;
        S[a].Conn = -1;
        if (!h_mail_put(Id, P, Conn)) {
          S[a].C.reset(static_cast<IC *>(P));
          S[a].Conn = Conn;
        }
        break;
      }
      case 6: { // take a connection over into b (empty)
        int Conn = -1;
        void *P = h_mail_get(Id, &Conn);
        if (P) {
          S[b].C.reset(static_cast<IC *>(P));
          S[b].Conn = Conn;
        }
        break;
      }
      case 7: { // swap a and b through moves
        h_op_begin(Id, 7, S[a].Conn);
        std::swap(*S[a].C, *S[b].C);
        std::swap(S[a].Conn, S[b].Conn);
        h_op_end(Id, 7, S[a].Conn, 0, 0);
        break;
      }
      }
    }
    // what is left is destroyed in declaration order
    for (int i = 2; i >= 0; --i) {
      int Conn = S[i].Conn;
      if (!S[i].C)
        continue;
      h_op_begin(Id, 3, Conn);
      S[i].C.reset();
      h_op_end(Id, 3, Conn, 0, 0);
    }
  }
  h_server_end(Id);
}
}
extern "C" {
void a_start_transport(int id) {
  std::thread T([id] { h_transport(id); });
  T.detach();
}
void a_open(int id, char delim, int arg) {
  auto *S = new MockSocket(id);
  setSock(id, S);
  h_connect(id);
  try {
    IC::connect(S, delim, serve, id, std::unique_ptr<int>(new int(arg)));
  } catch (const std::system_error &) {
    h_connect_failed(id);
  } catch (const std::bad_alloc &) {
    h_connect_failed(id);
  }
  h_registered(id, (S->Rcv.size() ? 1 : 0) | (S->Cls.size() ? 2 : 0));
}
int a_deliver(int id, const char *p, size_t n) {
  try {
    std::string Msg(p, n);
    for (auto &F : sock(id)->Rcv)
      F(Msg);
  } catch (const std::bad_alloc &) {
    return 0;
  }
  return 1;
}
void a_close(int id, int ok) {
  for (auto &F : sock(id)->Cls)
    F(ok);
}
void a_drop(void *p) { delete static_cast<IC *>(p); }
void a_destroy(int id) {
  delete sock(id);
  setSock(id, nullptr);
}
}
