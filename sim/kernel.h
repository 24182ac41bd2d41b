// Simulated socket layer of one host, and the far ends of its connections.
#pragma once
#include "rt.h"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace k {
struct Listener;
struct Conn {
  int id = -1;
  u32 peer_addr = 0, local_addr = 0; // host order
  int peer_port = 0, local_port = 0;
  int fd = -1;
  bool hostile = false; // fatal faults may hit it
  // towards the server
  std::string in;       // arrived, not yet received
  std::string recv_log; // everything recv() returned
  u32 recv_calls = 0;   // successful, non-empty
  bool fin_in = false, rst = false;
  int so_error = 0;
  bool eof_seen = false;
  int recv_errors = 0; // fatal errors returned by recv
  // towards the client
  std::string out; // everything accepted from the server
  size_t drained = 0;
  bool out_fin = false; // server closed or shut down its side
  int send_errors = 0;
  bool peer_gone = false; // client no longer reads: data provokes a reset
  // life cycle
  bool pending = false, accepted = false, closed = false, aborted = false;
  bool close_failed = false;
  int accept_no = -1;
  Listener *lis = nullptr;
  int accept_tid = -1;
  u64 accepted_at = 0, closed_at = 0, arrived_at = 0;
  bool getsockname_failed = false;
  bool thread_failed = false;
  u64 rcv_timeo = 0, snd_timeo = 0; // SO_RCVTIMEO, SO_SNDTIMEO
  bool linger0 = false;             // close() drops what is not delivered
  rt::WaitQ rq, wq;
  std::function<void()> on_out;   // data or fin for the client
  std::function<void()> on_fate;  // accepted / aborted
};
struct Listener {
  int failed = 0, eintr = 0; // accept()
  int fd = -1;
  bool bound = false, listening = false, closed = false, close_failed = false;
  bool reuse = false, reuse_port = false;
  u32 addr = 0;
  int port = 0;
  std::vector<Conn *> pending;
  rt::WaitQ q;
  int closes = 0, open = 0;
  u64 rcv_timeo = 0, snd_timeo = 0;
  bool linger0 = false;
};
struct Faults {
  // one in N; 0 = off
  u32 eintr_recv = 0, eintr_send = 0, eintr_accept = 0;
  u32 short_recv = 0, short_send = 0;
  u32 recv_err = 0, send_err = 0, close_err = 0;
  u32 accept_err = 0, accept_abort = 0, connname_err = 0;
  // start-up: index of the step which fails (0 none)
  int startup = 0;
};
extern Faults faults;
extern bool faults_on;
extern size_t window;   // send buffer in bytes
extern bool FD0_late;   // ... which only the second descriptor may get
extern int FD0;        // first number of descriptors
extern int fd_limit;    // number of descriptors the process may have
extern bool time_wait;  // requested port is in TIME_WAIT
extern int next_port;   // for port 0
extern std::vector<Conn *> conns;
extern Listener *lst;
extern bool several;   // several servers share the simulated host
extern std::map<int, Listener *> lst_of; // socket made last by a thread
extern std::map<int, int> names_of; // resolved and not freed in a thread
extern std::map<int, int> failed_of;     // start-up step which failed in it
extern int open_conns; // accepted and not closed
extern int accept_failures, accept_eintr;
extern std::vector<std::string> calls; // start-up calls in order
extern std::map<std::string, u32> hosts;
extern int startup_failed; // step that really failed
extern bool bound_ok;
extern u32 bind_addr;
extern int bind_port;

// hooks for the world
extern std::function<void(Conn *)> on_accept, on_close;
extern std::function<void(Conn *, const char *)> on_io;
extern bool all_props; // every violation concerns every property of the world
inline const char *P(const char *p) { return all_props ? "*" : p; }
extern std::function<void(Conn *, const char *)> on_after_close; // misuse

Conn *connect(u32 addr, int port); // a client connects: pending
void client_send(Conn *c, const std::string &d);
void client_fin(Conn *c);
void client_rst(Conn *c);
size_t client_drain(Conn *c, size_t n); // client reads
std::string ip(u32 a);
enum {
  ST_HOST = 1,
  ST_SOCKET,
  ST_OPT,
  ST_BIND,
  ST_NAME,
  ST_LISTEN,
};
}
