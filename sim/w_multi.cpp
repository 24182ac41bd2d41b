// Several servers in one process: each of them has to behave as if it was the
// only one.
#include "kernel.h"
#include <cstring>
using namespace rt;
using k::Conn;

extern "C" {
void a_server(int k, int attempt, const char *addr, int port, size_t max,
              size_t buf);
int a_code(int i);
}
namespace {
enum {
  UnknownError, InitializeError, HostnameError, ServerAddressError, CreateError,
  OptionError, BindError, ListenError, AcceptError, ReceiveError, SendError,
  CloseError, Listen, Accept, Receive, Send, Close, NSTATUS
};
const char *names[] = {"UnknownError",  "InitializeError", "HostnameError",
                       "ServerAddressError", "CreateError", "OptionError",
                       "BindError",     "ListenError",     "AcceptError",
                       "ReceiveError",  "SendError",       "CloseError",
                       "Listen",        "Accept",          "Receive",
                       "Send",          "Close"};
struct Client;
struct Srv {
  int id = 0, attempt = 0, tid = -1;
  std::string addr;
  u32 want = 0;
  int port = 0;
  size_t max = 0, buf = 0;
  bool again = false; // started again if it could not be started
  bool running = false, listening = false, go = false;
  std::vector<int> early;
  int accept_errors = 0;
  k::Listener *l = nullptr;
  std::vector<Client *> clients;
};
struct Client {
  int id = 0;
  Srv *v = nullptr;
  Conn *c = nullptr;
  u32 addr = 0;
  int port = 0;
  bool hostile = false, holder = false;
  bool stuck = false; // its handler does not return for a long time
  std::vector<std::string> msgs;
  std::vector<u64> when;
  std::string sent;
  u64 drain = 0;
  bool draining = false;
};
struct Sess {
  int idx = 0;
  Conn *c = nullptr;
  size_t got = 0, echoed = 0, chunks = 0;
  int closed = 0;
  bool throws = false, threw = false;
};
struct CX {
  Sess *s = nullptr;
  Client *cl = nullptr;
  int n[NSTATUS] = {};
};
std::vector<Srv *> srv;
std::vector<Client *> clients;
std::vector<Sess *> sess;
std::vector<CX *> cx;
Sess *thr2sess[512];
WaitQ mainq, stuckq;
bool released = false;
bool phase_over = false;
u64 last_action = 0;

CX &X(Conn *c) {
  while ((int)cx.size() <= c->id)
    cx.push_back(new CX());
  return *cx[c->id];
}
void broken(const char *kind, const std::string &m) {
  violate("C26", kind, "%s", m.c_str());
}
std::string nm(Srv *v) { return "server " + std::to_string(v->id); }
std::string nm(Conn *c) { return "connection " + std::to_string(c->id); }
std::string str(u64 n) { return std::to_string(n); }
} // namespace
static void drain(Client *cl) {
  Conn *c = cl->c;
  if (cl->draining || c->drained == c->out.size())
    return;
  cl->draining = true;
  after(cl->drain, [cl, c] {
    cl->draining = false;
    k::client_drain(c, 1 << 20);
    drain(cl);
  });
}
static void act(Client *cl, size_t i) {
  last_action = std::max(last_action, now + cl->when[i]);
  after(cl->when[i], [cl, i] {
    if (i < cl->msgs.size()) {
      cl->sent += cl->msgs[i];
      k::client_send(cl->c, cl->msgs[i]);
      act(cl, i + 1);
    } else if (cl->hostile)
      k::client_rst(cl->c);
    else if (!cl->holder)
      k::client_fin(cl->c);
  });
}
static void arrive(Client *cl) {
  k::lst = cl->v->l;
  cl->c = k::connect(cl->addr, cl->port);
  cl->c->hostile = cl->hostile;
  X(cl->c).cl = cl;
  cl->c->on_out = [cl] { drain(cl); };
  act(cl, 0);
}
static void start(Srv *v) {
  ++v->attempt;
  v->running = true;
  v->early.clear();
  App a;
  a_server(v->id, v->attempt, v->addr.c_str(), v->port, v->max, v->buf);
}
extern "C" {
int h_m_session() {
  Guard g;
  Sess *s = new Sess();
  s->idx = (int)sess.size();
  sess.push_back(s);
  thr2sess[cur_id() & 511] = s;
  ev("session %d begins", s->idx);
  yield("session");
  return s->idx;
}
void h_m_recv(int i, const char *p, size_t n) {
  Guard g;
  check_range(p, n, false, "listener reads");
  Sess *s = sess[i];
  Conn *c = s->c;
  if (!c)
    broken("no-data", "session " + str(i) + ": data but nothing received");
  Srv *v = X(c).cl->v;
  ev("%s: %zu bytes", nm(c).c_str(), n);
  if (n > v->buf)
    broken("large-chunk", nm(c) + ": a chunk of " + str(n) + " bytes, " +
                              nm(v) + " has been started with buffers of " +
                              str(v->buf));
  if (c->recv_log.size() < s->got + n ||
      memcmp(c->recv_log.data() + s->got, p, n))
    broken("wrong-data", nm(c) + ": its listener gets wrong data");
  s->got += n;
  ++s->chunks;
  count("sim.chunks");
  yield("listener");
  if (X(c).cl->stuck && !released) {
    count("fault.stalled_handler");
    while (!released)
      block(stuckq, "a handler which does not return");
  }
}
int h_m_throws(int i) {
  Guard g;
  Sess *s = sess[i];
  CX &x = X(s->c);
  s->throws = x.cl->hostile && flip(1, 4);
  if (s->throws) {
    s->threw = true;
    count("fault.listener_throws");
  }
  return s->throws;
}
void h_m_sent(int i, size_t n) {
  Guard g;
  Sess *s = sess[i];
  s->echoed += n;
  count("sim.messages");
  yield("sent");
}
void h_m_closed(int i, int ok) {
  Guard g;
  Sess *s = sess[i];
  ev("session %d: closed (%d)", i, ok);
  if (s->closed++)
    broken("closed-twice", "session " + str(i) + ": closed twice");
  if (s->c && !X(s->c).cl->hostile && !ok)
    broken("closed-flag", nm(s->c) + ": closed listener got false after an "
                                     "orderly end");
}
void h_m_begin(int k, int attempt) {
  Guard g;
  srv[k]->tid = cur_id();
  ev("server %d starts (%d)", k, attempt);
  yield("server starts");
}
void h_m_status(int k, int code, const char *sa, int sp, const char *ca,
                int cp) {
  Guard g;
  int st = 0;
  while (st < NSTATUS && a_code(st) != code)
    ++st;
  Srv *v = srv[k];
  std::string SA = sa, CA = ca;
  if (st == NSTATUS)
    broken("event", nm(v) + ": unknown status " + str(code));
  ev("server %d: status %s %s:%d %s:%d", k, names[st], SA.c_str(), sp,
     CA.c_str(), cp);
  count((std::string("status.") + names[st]).c_str());
  std::string what = nm(v) + ": " + names[st] + " for " + SA + ":" + str(sp) +
                     " " + CA + ":" + str(cp);
  if (st == Listen) {
    auto L = k::lst_of.find(v->tid);
    if (v->listening)
      broken("listen-twice", what + " reported again");
    if (cur_id() != v->tid || L == k::lst_of.end() || !L->second->listening)
      broken("listen", what + ", but it does not listen");
    v->l = L->second;
    if (v->l->addr != v->want || (v->port && v->l->port != v->port))
      broken("wrong-address", nm(v) + " is bound to " + k::ip(v->l->addr) +
                                  ":" + str(v->l->port) + " instead of " +
                                  k::ip(v->want) + ":" + str(v->port));
    if (SA != k::ip(v->l->addr) || sp != v->l->port || cp)
      broken("event-address", what + " instead of " + k::ip(v->l->addr) + ":" +
                                  str(v->l->port));
    for (auto *o : srv)
      if (o != v && o->listening && !o->l->closed &&
          o->l->port == v->l->port &&
          (!o->l->addr || !v->l->addr || o->l->addr == v->l->addr))
        broken("shared-address", nm(v) + " listens at " + SA + ":" + str(sp) +
                                     " which " + nm(o) + " already serves");
    v->listening = true;
    count("sim.servers");
    u64 t = now;
    for (auto *cl : v->clients) {
      t += flip(1, 2) ? 0 : 1000000ull * choose(3000);
      at(t, [cl] { arrive(cl); });
      last_action = std::max(last_action, t);
    }
    return;
  }
  if (!v->listening) {
    v->early.push_back(st);
    return;
  }
  if (st == AcceptError) {
    if (cur_id() != v->tid || SA != k::ip(v->l->addr) || sp != v->l->port || cp)
      broken("event-address", what + " instead of " + k::ip(v->l->addr) + ":" +
                                  str(v->l->port));
    if (++v->accept_errors > v->l->failed + v->l->eintr)
      broken("event", what + " without a reason");
    count("probe.accept_errors");
    return;
  }
  Conn *c = nullptr;
  for (auto *x : k::conns)
    if (x->peer_port == cp && k::ip(x->peer_addr) == CA)
      c = x;
  if (!c)
    broken("event-address", what + ": there is no such connection");
  if (c->lis != v->l)
    broken("foreign-event", what + " reported, it belongs to " +
                                nm(X(c).cl->v));
  if (SA != k::ip(c->local_addr) || sp != c->local_port)
    broken("event-address", what + " instead of " + k::ip(c->local_addr) +
                                ":" + str(c->local_port));
  CX &x = X(c);
  ++x.n[st];
  bool h = x.cl->hostile;
  bool ok = st == Accept ? x.n[st] == 1
            : st == Receive ? x.n[st] <= (int)c->recv_calls
            : st == Send ? x.s && x.n[st] <= (int)x.s->chunks
            : st == Close ? c->closed && x.n[Close] + x.n[CloseError] == 1
            : st == CloseError ? h && c->close_failed
            : st == ReceiveError || st == SendError ? h
            : st == UnknownError ? x.s && x.s->threw
                                 : false;
  if (!ok)
    broken("event", what + " without a reason");
}
void h_m_returned(int k, int how) {
  Guard g;
  Srv *v = srv[k];
  ev("server %d %s", k, how ? "throws" : "returns");
  if (how)
    broken("server-ended", "an exception ended " + nm(v));
  if (v->listening)
    broken("server-ended", nm(v) + " ended while it was serving");
  auto f = k::failed_of.find(v->tid);
  auto L = k::lst_of.find(v->tid);
  if (f == k::failed_of.end())
    broken("server-ended", nm(v) + " ended without a failure");
  static const int codes[] = {-1,          HostnameError, CreateError,
                              OptionError, BindError,     ServerAddressError,
                              ListenError};
  int st = f->second;
  std::vector<int> want{codes[st]};
  if (st > k::ST_SOCKET) {
    want.push_back(L->second->close_failed ? CloseError : Close);
    if (L->second->addr != v->want &&
        (st > k::ST_BIND || (st == k::ST_BIND && L->second->addr)))
      broken("wrong-address", nm(v) + " has used " + k::ip(L->second->addr) +
                                  " instead of " + k::ip(v->want));
  }
  if (v->early != want)
    broken("wrong-status", nm(v) + " could not be started, its handler did "
                                   "not get " + names[codes[st]] +
                               (want.size() > 1 ? " and Close" : ""));
  v->running = false;
  count("probe.start_failed_beside_others");
  if (v->again && v->attempt < 3)
    after(1000000ull * choose(2000), [v] {
      if (v->addr == "no-such-host")
        v->addr = "10.0.0.9", v->want = 0x0a000009;
      if (choose(2))
        v->port += 1000;
      k::faults.startup = 0;
      count("probe.started_again");
      ev("server %d is started again", v->id);
      v->go = true; // from a thread of the application
      wake_all(mainq);
    });
}
}
static void on_io(Conn *c, const char *) {
  CX &x = X(c);
  Sess *s = thr2sess[cur_id() & 511];
  if (!x.s && s && !s->c) {
    s->c = c;
    x.s = s;
  }
}
static void on_accept(Conn *c) {
  Srv *v = X(c).cl->v;
  if (v->max && c->lis->open > (int)v->max)
    broken("limit-exceeded", nm(v) + ": " + str(c->lis->open) +
                                 " connections are open, its maximum is " +
                                 str(v->max));
}
static void on_close(Conn *c) {
  CX &x = X(c);
  --c->lis->open;
  if (!x.cl->hostile && !c->eof_seen)
    broken("closed-without-reason",
           nm(c) + " of " + nm(x.cl->v) + " is closed although it has not ended");
}
static std::string text() {
  u32 n = weighted({4, 2, 1}), z = choose(256);
  n = n == 0 ? 1 + choose(6) : n == 1 ? range(10, 100) : range(100, 3000);
  std::string s;
  for (u32 i = 0; i < n; ++i)
    s += (char)(z + i * 11 + (i >> 5));
  return s;
}
static void wait_for(const char *what, u64 t) {
  phase_over = false;
  at(t, [] {
    phase_over = true;
    wake_all(mainq);
  });
  for (;;) {
    // A server may have to be started again since before this thread waits.
    bool any = false;
    for (auto *v : srv)
      if (v->go) {
        v->go = false;
        any = true;
        start(v);
      }
    if (any)
      continue;
    if (phase_over)
      break;
    block(mainq, what);
  }
}
static void check_all(bool last) {
  for (auto *v : srv) {
    if (!v->running)
      continue;
    if (!v->listening)
      broken("never-started", nm(v) + " does not listen and has not failed");
    if (v->l->closed)
      broken("server-closed", "the socket of " + nm(v) + " has been closed");
    if (v->accept_errors < v->l->failed)
      broken("event", nm(v) + ": accept failed " + str(v->l->failed) +
                          " times, its handler got AcceptError " +
                          str(v->accept_errors) + " times");
  }
  for (auto *cl : clients) {
    Conn *c = cl->c;
    if (!c)
      continue;
    CX &x = X(c);
    Srv *v = cl->v;
    int busy = 0;
    for (auto *o : v->clients)
      busy += o != cl && o->c && o->c->accepted && !o->c->closed;
    std::string who = nm(c) + " of " + nm(v);
    if (c->pending) {
      if (!v->max || busy < (int)v->max)
        broken("never-accepted", who + " is not accepted, " + str(busy) +
                                     " others are open there, its maximum is " +
                                     str(v->max));
      continue;
    }
    if (!c->accepted)
      continue;
    bool stays = cl->holder && !last;
    if (!stays && !c->closed)
      broken("never-closed", who + " has ended but is not closed");
    if (x.n[Accept] != 1 || (!stays && x.n[Close] + x.n[CloseError] != 1))
      broken("event", who + ": Accept or Close not reported");
    if (cl->hostile || (cl->stuck && !last))
      continue;
    if (!x.s)
      broken("never-served", who + ": no session");
    if (c->recv_log != cl->sent || c->out != cl->sent ||
        c->drained != c->out.size())
      broken("not-served", who + ": sent " + str(cl->sent.size()) +
                               " bytes, " + str(c->recv_log.size()) +
                               " were received and " + str(c->out.size()) +
                               " sent back");
    if (x.n[Receive] != (int)x.s->chunks || x.n[Send] != (int)x.s->chunks)
      broken("event", who + ": " + str(x.s->chunks) + " chunks, " +
                          str(x.n[Receive]) + " times Receive and " +
                          str(x.n[Send]) + " times Send reported");
    if (!stays && x.s->closed != 1)
      broken("closed-listeners", who + ": closed listener not invoked");
    count("probe.clients_served");
    if (busy)
      count("probe.served_beside_others");
  }
}
static void world() {
  k::several = true;
  k::on_io = on_io;
  k::on_close = on_close;
  k::on_accept = on_accept;
  k::all_props = true;
  configure_schedule();
  static const char *addrs[] = {"127.0.0.1", "server.example", "other.example",
                                "10.0.0.9",  "localhost", "", "no-such-host"};
  static const u32 ips[] = {0x7f000001, 0x0a000005, 0x0a000006,
                            0x0a000009, 0x7f000001, 0, 0};
  k::hosts["server.example"] = 0x0a000005;
  k::hosts["other.example"] = 0x0a000006;
  k::hosts["localhost"] = 0x7f000001;
  auto rate = [](u32 on, u32 r) { return flip(1, on) ? r : 0u; };
  k::faults.eintr_recv = rate(3, 10);
  k::faults.eintr_send = rate(3, 10);
  k::faults.short_recv = rate(3, 3);
  k::faults.short_send = rate(3, 3);
  k::faults.recv_err = rate(2, 12);
  k::faults.send_err = rate(2, 10);
  k::faults.close_err = rate(3, 3);
  k::faults.accept_err = rate(3, 6);
  k::faults.accept_abort = rate(3, 4);
  k::faults.eintr_accept = rate(3, 8);
  k::faults.startup = (int)weighted({12, 1, 1, 1, 1, 1, 1});
  static const size_t wins[] = {1 << 20, 16, 1000};
  k::window = wins[weighted({4, 1, 1})];
  int n = 2 + weighted({5, 3, 1});
  int ports = weighted({3, 2, 1}); // different, the same, any
  for (int i = 0; i < n; ++i) {
    Srv *v = new Srv();
    v->id = i;
    int a = weighted({3, 4, 4, 1, 1, 2, 1});
    v->addr = addrs[a];
    v->want = ips[a];
    v->port = ports == 0 ? 8000 + i : ports == 1 ? 8080 : 0;
    v->max = weighted({3, 4, 2, 1});
    static const size_t bufs[] = {64, 1, 7, 1000, 4096};
    v->buf = bufs[weighted({3, 1, 2, 2, 2})];
    v->again = flip(1, 2);
    srv.push_back(v);
    int m = (int)weighted({1, 3, 4, 3, 2});
    for (int j = 0; j < m; ++j) {
      Client *cl = new Client();
      cl->id = (int)clients.size();
      cl->v = v;
      cl->addr = 0x0a000100 + (u32)i;
      cl->port = 20000 + j; // the same ports from different hosts
      int kind = weighted({5, 2, 2, 1});
      cl->hostile = kind == 2;
      cl->stuck = kind == 3;
      cl->holder = kind == 1 || cl->stuck;
      cl->drain = flip(1, 4) ? 1000000ull * (1 + choose(300)) : 0;
      int q = (int)weighted({1, 4, 3, 1});
      for (int z = 0; z < q; ++z)
        cl->msgs.push_back(text());
      for (int z = 0; z <= q; ++z)
        cl->when.push_back(flip(1, 2) ? 1000ull * choose(100)
                                      : 1000000ull * choose(4000));
      clients.push_back(cl);
      v->clients.push_back(cl);
    }
  }
  on_step_cap = [] { broken("livelock", "the servers make no progress"); };
  step_cap = 300000;
  u64 t = now;
  for (auto *v : srv) {
    if (flip(1, 3)) {
      t += 1000000ull * choose(3000);
      wait_for("next server", t);
    }
    start(v);
  }
  wait_for("servers", std::max(now, t) + 12000000000ull);
  while (last_action > now)
    wait_for("clients", last_action + 1000000000ull);
  k::faults_on = false;
  set_fair(true);
  disable_preempt();
  ev("faults stop");
  u64 settle = 30000000000ull + 20000000000ull * clients.size();
  for (auto *cl : clients)
    cl->drain = 0;
  wait_for("holders stay", now + settle);
  check_all(false);
  released = true;
  wake_all(stuckq);
  ev("all clients end");
  for (auto *cl : clients)
    if (cl->holder && cl->c)
      k::client_fin(cl->c);
  wait_for("all end", now + settle);
  check_all(true);
  end_run();
}
static World worlds[] = {{"multi", world}};
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 1); }
