// Instrumented adapter: the application on top of the C socket server.
// Everything in here is what a user of the library writes; all decisions are
// taken by the harness (h_* functions).
#include <bcl/CSocket.h>
#include <bcl/IntrusiveConnection.h>
#include <bcl/Socket.h>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

extern "C" {
int h_session_begin();
void h_session_ready(int s);
int h_listeners(int s); // receive | closed << 8 | order << 16 | throw << 24
void h_recv(int s, int l, const char *p, size_t n);
void h_closed(int s, int l, int ok);
void h_token(int s);
void h_token_dead(int s);
int h_next_send(int s, int phase, const char **p, size_t *n);
void h_send_begin(int s, const char *p, size_t n);
void h_send_end(int s);
int h_throws(int s, int phase);
void h_status(int st, const char *sa, int sp, const char *ca, int cp,
              int active);
void h_returned(int how);
// combined stack
int h_stack();
char h_delim(int s);
void h_serve_begin(int s);
int h_serve_next(int s);
void h_request(int s, const char *p, size_t n, const char **r, size_t *rn);
void h_answer_failed(int s);
void h_answered(int s, int ok, int calls);
void h_serve_ending(int s);
void h_serve_end(int s);
void h_connect_failed(int s);
}
namespace {
struct Token {
  int S;
  explicit Token(int S) : S(S) { h_token(S); }
  ~Token() { h_token_dead(S); }
};
struct AppError {};
using TokenP = std::shared_ptr<Token>;

void sendAll(const bcl::Socket<std::string> *S, int I, int Phase) {
  const char *P;
  size_t N;
  while (h_next_send(I, Phase, &P, &N)) {
    std::string M(P, N);
    h_send_begin(I, M.data(), M.size());
    S->send(M);
    h_send_end(I);
  }
  if (h_throws(I, Phase))
    throw AppError();
}
void addReceive(const bcl::Socket<std::string> *S, int I, int L, TokenP T) {
  S->receive([S, I, L, T](const std::string &M) {
    h_recv(I, L, M.data(), M.size());
    sendAll(S, I, 1 + L);
  });
}
void addClosed(const bcl::Socket<std::string> *S, int I, int L, TokenP T) {
  S->closed([I, L, T](bool Ok) {
    h_closed(I, L, Ok);
    if (h_throws(I, 200 + L))
      throw AppError();
  });
}
void serve(bcl::IntrusiveConnection First, int I, TokenP T) {
  h_serve_begin(I);
  {
    bcl::IntrusiveConnection C(std::move(First));
    while (h_serve_next(I)) {
      int Calls = 0;
      bool R = false;
      try {
        R = C.answer([&](const std::string &Q) {
          ++Calls;
          const char *P;
          size_t N;
          h_request(I, Q.data(), Q.size(), &P, &N);
          return std::string(P, N);
        });
        h_answered(I, R, Calls);
      } catch (std::bad_alloc &) {
        h_answer_failed(I);
      }
      if (!R)
        break;
    }
    h_serve_ending(I);
  }
  T.reset();
  h_serve_end(I);
}
int code(bcl::net::SocketStatus S) {
  using E = bcl::net::SocketStatus;
  switch (S) {
  case E::UnknownError: return 0;
  case E::InitializeError: return 1;
  case E::HostnameError: return 2;
  case E::ServerAddressError: return 3;
  case E::CreateError: return 4;
  case E::OptionError: return 5;
  case E::BindError: return 6;
  case E::ListenError: return 7;
  case E::AcceptError: return 8;
  case E::ReceiveError: return 9;
  case E::SendError: return 10;
  case E::CloseError: return 11;
  case E::Listen: return 12;
  case E::Accept: return 13;
  case E::Receive: return 14;
  case E::Send: return 15;
  case E::Close: return 16;
  }
  return -1;
}
}
template <>
void bcl::createServer<std::string>(const bcl::Socket<std::string> *S) {
  int I = h_session_begin();
  auto T = std::make_shared<Token>(I);
  if (h_stack()) {
    addReceive(S, I, 0, T);
    addClosed(S, I, 0, T);
    try {
      bcl::IntrusiveConnection::connect(S, h_delim(I), serve, I, T);
    } catch (...) {
      h_connect_failed(I);
      throw;
    }
    h_session_ready(I);
    return;
  }
  int L = h_listeners(I);
  int R = L & 255, C = (L >> 8) & 255, O = L >> 16;
  sendAll(S, I, 100);
  int r = 0, c = 0;
  while (r < R || c < C) {
    bool First = c >= C || (r < R && (O & 1));
    O >>= 1;
    if (First)
      addReceive(S, I, r++, T);
    else
      addClosed(S, I, c++, T);
  }
  sendAll(S, I, 101);
  T.reset();
  h_session_ready(I);
}
extern "C" {
void a_start(const char *Addr, int Port, size_t Max, size_t Buf) {
  std::string A(Addr);
  std::thread T([A, Port, Max, Buf] {
    try {
      auto On = [](bcl::net::SocketStatus S, const bcl::net::Connection &C) {
        bcl::net::AddressT Sa = C.getServerAddress(),
                           Ca = C.getClientAddress();
        h_status(code(S), Sa.c_str(), C.getServerPort(), Ca.c_str(),
                 C.getClientPort(), C.isActive());
      };
      if (Buf == 65535) // the default
        bcl::net::startServer(A, Port, Max, On);
      else
        bcl::net::startServer(A, Port, Max, On, Buf);
      h_returned(0);
    } catch (...) {
      h_returned(1);
    }
  });
  T.detach();
}
}
