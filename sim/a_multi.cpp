// Instrumented adapter: an application which runs several servers, each of them
// in a thread of its own. Connections are echoed.
#include <bcl/CSocket.h>
#include <bcl/Socket.h>
#include <string>
#include <thread>

extern "C" {
int h_m_session();
void h_m_recv(int s, const char *p, size_t n);
int h_m_throws(int s);
void h_m_sent(int s, size_t n);
void h_m_closed(int s, int ok);
void h_m_begin(int k, int attempt);
void h_m_status(int k, int st, const char *sa, int sp, const char *ca, int cp);
void h_m_returned(int k, int how);
}
template <>
void bcl::createServer<std::string>(const bcl::Socket<std::string> *S) {
  int I = h_m_session();
  S->receive([S, I](const std::string &M) {
    h_m_recv(I, M.data(), M.size());
    if (h_m_throws(I))
      throw I;
    S->send(M);
    h_m_sent(I, M.size());
  });
  S->closed([I](bool Ok) { h_m_closed(I, Ok); });
}
extern "C" void a_server(int K, int Attempt, const char *Addr, int Port,
                         size_t Max, size_t Buf) {
  std::string A(Addr);
  std::thread T([=] {
    h_m_begin(K, Attempt);
    int How = 0;
    try {
      bcl::net::startServer(
          A, Port, Max,
          [K](bcl::net::SocketStatus S, const bcl::net::Connection &C) {
            bcl::net::AddressT Sa = C.getServerAddress(),
                               Ca = C.getClientAddress();
            h_m_status(K, (int)S, Sa.c_str(), C.getServerPort(), Ca.c_str(),
                       C.getClientPort());
          },
          Buf);
    } catch (...) {
      How = 1;
    }
    h_m_returned(K, How);
  });
  T.detach();
}
extern "C" int a_code(int I) {
  using E = bcl::net::SocketStatus;
  static const E All[] = {
      E::UnknownError, E::InitializeError, E::HostnameError,
      E::ServerAddressError, E::CreateError, E::OptionError, E::BindError,
      E::ListenError, E::AcceptError, E::ReceiveError, E::SendError,
      E::CloseError, E::Listen, E::Accept, E::Receive, E::Send, E::Close};
  return (int)All[I];
}
