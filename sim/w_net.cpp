// Network world: the real C socket server on a simulated kernel, with
// simulated clients; and the combined stack (intrusive connections on top).
#include "kernel.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using namespace rt;
using k::Conn;
using k::P;
extern "C" void a_start(const char *Addr, int Port, size_t Max, size_t Buf);
namespace {
bool stack = false, finale = false, quiet = false;
// in the final phase: clients which never end still hold their connections
bool others_end = false;
std::string F;

struct Session {
  int idx = -1, tid = -1;
  Conn *c = nullptr;
  bool ready = false, threw = false, threw_close = false;
  int R = 0, C = 0;
  // received
  size_t delivered = 0;
  int pos = 0, chunks = 0;
  std::string chunk;
  // sending
  int sending_phase = -1, left = 0, sent_msgs = 0;
  size_t sent_bytes = 0;
  bool in_send = false;
  std::string msg, keep;
  int n_ok = 0, n_err = 0;
  std::string out_expect;
  bool failed = false, failed_in_listener = false, failed_greeting = false;
  // closing
  int closed_calls = 0;
  bool token_dead = true; // until there is one
  int throw_phase = -1, throw_at = 0;
  bool slow_close = false;
  // stack
  char delim = '$';
  std::vector<std::string> reqs;
  size_t given = 0, sent = 0;
  bool has_answer = false;
  std::string answer;
  int ops = 0;
  bool serve_begun = false, end_begun = false, serve_ended = false,
       connect_failed = false, in_handler = false;
};
struct CX { // what the status handler was told about a connection
  Session *s = nullptr;
  int accept = 0, receive = 0, recverr = 0, close = 0, closeerr = 0,
      unknown = 0, sends = 0, senderrs = 0;
};
enum { SEND, FIN, RST, GONE, STALL, RESUME };
struct Action {
  int kind;
  u64 delay;
  std::string data;
};
struct Client {
  int id;
  Conn *c = nullptr;
  bool benign = true, stalled = false, draining = false, throttled = false;
  std::vector<Action> acts;
  size_t next = 0;
  std::string sent;
  u64 drain_delay = 0;
  size_t drain_chunk = 1 << 20;
  u32 addr;
  int port;
};
std::vector<Session *> sess;
std::vector<CX *> cx;
std::vector<Client *> clients;
Session *thr2sess[512], *thr2serv[512];
u32 cfg_alloc = 0;
int lost_allocs = 0; // failures which can not be attributed yet
int server_tid = -1;
Conn *last_accepted = nullptr;
size_t cfg_max = 0, cfg_buf = 0;
std::string cfg_addr;
int cfg_port = 0;
int listen_events = 0, accept_errors = 0, nameless_close = 0,
    nameless_closeerr = 0, nameless_name = 0,
    nameless_unknown = 0;
std::vector<int> startup_events;
bool returned = false;
int returned_how = 0;
u32 cfg_greet = 0, cfg_reply = 0, cfg_big = 0, cfg_throw = 0, cfg_slow = 0,
    cfg_slowclose = 0, cfg_thread = 0;
WaitQ slowq, mainq;
// When a connection was accepted, closed or released last.  A slow client may
// hold the only place of a server for long, those who wait for it are served
// one after another then.
u64 last_change = 0;
bool phase_over = false, startup_mode = false;
int slow_waiting = 0, slow_budget = 12;
u64 last_action = 0;

const char *names[] = {"UnknownError",  "InitializeError", "HostnameError",
                       "ServerAddressError", "CreateError", "OptionError",
                       "BindError",     "ListenError",     "AcceptError",
                       "ReceiveError",  "SendError",       "CloseError",
                       "Listen",        "Accept",          "Receive",
                       "Send",          "Close"};
enum {
  UnknownError, InitializeError, HostnameError, ServerAddressError, CreateError,
  OptionError, BindError, ListenError, AcceptError, ReceiveError, SendError,
  CloseError, Listen, Accept, Receive, Send, Close
};
std::string show(const std::string &s) {
  std::string r = "'";
  for (unsigned char c : s.substr(0, 32)) {
    char b[8];
    if (c < 32 || c > 126)
      snprintf(b, sizeof b, "\\x%02x", c), r += b;
    else
      r += c;
  }
  return r + "'" + (s.size() > 32 ? "...(" + std::to_string(s.size()) + ")" : "");
}
CX &X(Conn *c) {
  while ((int)cx.size() <= c->id)
    cx.push_back(new CX());
  return *cx[c->id];
}
std::string nm(Session *s) {
  return s->c ? "connection " + std::to_string(s->c->id)
              : "session " + std::to_string(s->idx);
}
std::vector<std::string> split(const std::string &d, char delim) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : d)
    if (c == delim)
      r.push_back(cur), cur.clear();
    else
      cur += c;
  if (!cur.empty())
    r.push_back(cur);
  return r;
}
std::string rnd_bytes(u32 kind) {
  static const char al[] = {'a', 'b', '\0', '\n', '\xff', '\0', '$', ' '};
  std::string s;
  switch (kind) {
  case 0: {
    u32 n = choose(7);
    for (u32 i = 0; i < n; ++i)
      s += 'a' + choose(4);
    break;
  }
  case 1: {
    u32 n = 1 + choose(8);
    for (u32 i = 0; i < n; ++i)
      s += al[choose(8)];
    break;
  }
  case 2: {
    u32 n = range(20, 300), z = choose(97);
    for (u32 i = 0; i < n; ++i)
      s += (char)(i * 7 + z);
    break;
  }
  case 3: {
    u32 n = range(300, 6000), z = choose(97);
    for (u32 i = 0; i < n; ++i)
      s += (char)((i * i >> 3) + z);
    break;
  }
  case 4: { // larger than every socket buffer
    u32 n = range(6000, 70000), z = choose(97);
    for (u32 i = 0; i < n; ++i)
      s += (char)((i >> 4) + i * 3 + z);
    break;
  }
  }
  return s;
}
void broken(const char *p, const char *kind, const std::string &m) {
  violate(P(p), kind, "%s", m.c_str());
}
} // namespace

extern "C" {
int h_stack() { return stack; }
int h_session_begin() {
  Guard g;
  Session *s = new Session();
  s->idx = (int)sess.size();
  s->tid = cur_id();
  sess.push_back(s);
  thr2sess[cur_id() & 511] = s;
  s->out_expect.clear();
  if (stack) {
    s->R = s->C = 1;
    s->delim = quiet ? '$' : "$\n\0"[weighted({5, 2, 2})];
    s->ops = quiet ? 1000 : weighted({5, 1}) ? (int)range(0, 5) : 1000;
  } else if (quiet) {
    s->R = s->C = 1;
  } else {
    s->R = (int)weighted({1, 8, 4, 2});
    if (s->R == 0 && choose(3))
      s->R = 1;
    s->C = (int)weighted({1, 8, 4, 2});
    s->slow_close = cfg_slowclose && flip(1, cfg_slowclose);
    if (cfg_throw && flip(1, 4)) {
      static const int ph[] = {100, 101, 1, 2, 200, 201};
      s->throw_phase = ph[choose(6)];
      s->throw_at = (int)choose(3);
    }
  }
  ev("session %d begins (%d receive, %d closed listeners)", s->idx, s->R, s->C);
  yield("session");
  return s->idx;
}
void h_session_ready(int i) {
  Guard g;
  sess[i]->ready = true;
  ev("session %d is ready", i);
}
int h_listeners(int i) {
  Guard g;
  Session *s = sess[i];
  return s->R | s->C << 8 | (quiet ? 0 : (int)choose(64)) << 16;
}
void h_recv(int i, int l, const char *p, size_t n) {
  Guard g;
  check_range(p, n, false, "listener reads");
  std::string m(p, n);
  Session *s = sess[i];
  Conn *c = s->c;
  ev("%s: receive listener %d gets %s", nm(s).c_str(), l, show(m).c_str());
  if (!c)
    broken("C01", "no-data", "session " + std::to_string(i) +
                                 ": data delivered but none received");
  if (c->closed)
    broken("C03 C01", "receive-after-close",
           nm(s) + ": receive listener invoked after the connection was closed");
  if (s->threw)
    broken("C03 C01", "receive-after-throw",
           nm(s) + ": receive listener invoked after the session failed");
  if (l != s->pos)
    broken("C01", "listener-order",
           nm(s) + ": receive listener " + std::to_string(l) +
               " invoked, expected " + std::to_string(s->pos));
  if (l == 0) {
    if (s->failed_in_listener)
      broken("C02 C03", "open-after-failed-send",
             nm(s) + ": data are delivered after a send failed, the connection "
                     "should have been closed");
    if (s->failed_greeting && s->chunks)
      broken("C02 C03", "open-after-failed-send",
             nm(s) + ": the connection stays open after a failed send");
    if (n == 0)
      broken("C01 C03", "empty-chunk", nm(s) + ": empty chunk delivered");
    if (n > cfg_buf)
      broken("C01", "large-chunk",
             nm(s) + ": chunk of " + std::to_string(n) +
                 " bytes exceeds the buffer size " + std::to_string(cfg_buf));
    if (c->recv_log.size() < s->delivered + n ||
        memcmp(c->recv_log.data() + s->delivered, m.data(), n)) {
      std::string want = c->recv_log.substr(s->delivered);
      broken("C01", "wrong-data",
             nm(s) + ": listener gets " + show(m) + ", the client sent " +
                 show(want));
    }
    s->delivered += n;
    s->chunk = m;
    ++s->chunks;
    if (stack) {
      if (s->sent != s->reqs.size() && !s->failed)
        broken("C23", "missing-response",
               nm(s) + ": " + std::to_string(s->reqs.size()) + " requests, " +
                   std::to_string(s->sent) + " responses");
      for (auto &r : split(m, s->delim))
        s->reqs.push_back(r);
    }
  } else if (m != s->chunk)
    broken("C01", "wrong-data",
           nm(s) + ": listener " + std::to_string(l) + " gets " + show(m) +
               ", listener 0 got " + show(s->chunk));
  s->pos = (l + 1) % s->R;
  count("sim.chunks");
  yield("listener");
  if (!quiet && cfg_slow && !finale && slow_budget > 0 && flip(1, cfg_slow)) {
    --slow_budget;
    count("fault.slow_listener");
    sleep_until(now + 1000000ull * (1 + choose(3000)), "slow listener");
  }
}
void h_closed(int i, int l, int ok) {
  Guard g;
  Session *s = sess[i];
  Conn *c = s->c;
  ev("%s: closed listener %d (%d)", nm(s).c_str(), l, ok);
  if (!c || !c->closed)
    broken("C03", "closed-too-early",
           nm(s) + ": closed listener invoked before the connection is closed");
  if (l != s->closed_calls)
    broken("C03", "closed-order",
           nm(s) + ": closed listener " + std::to_string(l) +
               " invoked, expected " + std::to_string(s->closed_calls) +
               (s->closed_calls >= s->C ? " (all have been invoked)" : ""));
  ++s->closed_calls;
  int want = -1; // either is fine
  if (c->close_failed || c->recv_errors || s->failed_in_listener || s->threw)
    want = 0;
  else if (c->eof_seen && !c->rst && !s->failed)
    want = 1;
  if (want >= 0 && want != (ok ? 1 : 0))
    broken("C03", "closed-flag",
           nm(s) + ": closed listener got " + (ok ? "true" : "false") +
               (want ? " after an orderly end" : " after a failure"));
  yield("closed listener");
  if (s->slow_close && !others_end) {
    count("fault.slow_closed_listener");
    ++slow_waiting;
    while (!others_end)
      block(slowq, "slow closed listener");
    --slow_waiting;
  }
}
void h_token(int i) { sess[i]->token_dead = false; }
void h_token_dead(int i) {
  Guard g;
  Session *s = sess[i];
  ev("session %d: listeners are released", i);
  s->token_dead = true;
  last_change = now;
  if (s->ready && !s->connect_failed && s->c && !s->c->closed &&
      s->R + s->C > 0)
    broken("C03 C01", "released-while-open",
           nm(s) + ": listeners are released while the connection is open");
}
int h_next_send(int i, int phase, const char **p, size_t *n) {
  Guard g;
  Session *s = sess[i];
  if (stack || quiet)
    return 0;
  if (s->sending_phase != phase) {
    s->sending_phase = phase;
    s->left = 0;
    if (phase >= 100 ? (cfg_greet && flip(1, cfg_greet))
                     : (cfg_reply && !flip(1, cfg_reply)))
      s->left = 1 + (int)weighted({5, 2, 1});
  }
  if (s->left == 0 || s->sent_msgs > 30 || s->sent_bytes > 200000) {
    s->sending_phase = -1;
    return 0;
  }
  --s->left;
  u32 kind = weighted({4, 3, 2, k::window >= 100, cfg_big});
  std::string m = rnd_bytes(kind);
  if (flip(1, 3))
    m = s->chunk.substr(0, k::window < 100 ? 300 : 5000);
  m.shrink_to_fit();
  ++s->sent_msgs;
  s->sent_bytes += m.size();
  s->keep = m;
  *p = s->keep.data();
  *n = s->keep.size();
  return 1;
}
void h_send_begin(int i, const char *p, size_t n) {
  Guard g;
  Session *s = sess[i];
  s->in_send = true;
  s->msg.assign(p, n);
  s->n_ok = s->n_err = 0;
  ev("%s: send %s", nm(s).c_str(), show(s->msg).c_str());
  count("sim.messages");
}
static void sent_one(Session *s, bool ok) {
  Conn *c = s->c;
  std::string out = c ? c->out : std::string();
  if (ok) {
    if (s->failed && s->msg.size())
      broken("C02", "sent-after-failure",
             nm(s) + ": a message is sent after an earlier one failed");
    std::string want = s->out_expect + s->msg;
    if (out != want) {
      size_t d = 0;
      while (d < out.size() && d < want.size() && out[d] == want[d])
        ++d;
      broken("C02 C23", "wrong-output",
             nm(s) + ": message of " + std::to_string(s->msg.size()) +
                 " bytes reported as sent, but the client was sent " +
                 std::to_string(out.size()) + " instead of " +
                 std::to_string(want.size()) +
                 " bytes so far, the first difference is at " +
                 std::to_string(d));
    }
    s->out_expect = want;
  } else {
    if (c && !c->send_errors && !s->failed && !c->rst)
      broken("C02 C04 C05 C23", "spurious-send-error",
             nm(s) + ": SendError without a failure");
    bool pre = out.size() >= s->out_expect.size() &&
               out.compare(0, s->out_expect.size(), s->out_expect) == 0 &&
               (s->out_expect + s->msg).compare(0, out.size(), out) == 0;
    if (!pre)
      broken("C02 C23", "wrong-output",
             nm(s) + ": failed message left wrong data on the wire");
    if (s->failed && out.size() != s->out_expect.size())
      broken("C02", "sent-after-failure",
             nm(s) + ": data are sent after an earlier message failed");
    s->out_expect = out;
    s->failed = true;
    if (s->ready)
      s->failed_in_listener = true;
    else
      s->failed_greeting = true;
    count("probe.send_failed");
  }
}
void h_send_end(int i) {
  Guard g;
  Session *s = sess[i];
  s->in_send = false;
  ev("%s: send done (%d ok, %d failed)", nm(s).c_str(), s->n_ok, s->n_err);
  if (s->n_ok + s->n_err != 1)
    broken("C02 C04", "send-status",
           nm(s) + ": one message sent, reported as Send " +
               std::to_string(s->n_ok) + " times and as SendError " +
               std::to_string(s->n_err) + " times");
  sent_one(s, s->n_ok == 1);
}
int h_throws(int i, int phase) {
  Guard g;
  Session *s = sess[i];
  if (s->throw_phase != phase || s->throw_at-- > 0)
    return 0;
  s->throw_phase = -1;
  s->threw = true;
  s->threw_close |= phase >= 200;
  count("fault.listener_throws");
  ev("%s: an exception is thrown", nm(s).c_str());
  return 1;
}
// ------------------------------------------------------------- status events
void h_status(int st, const char *sa, int sp, const char *ca, int cp,
              int active) {
  Guard g;
  std::string SA = sa, CA = ca;
  ev("status %s %s:%d %s:%d", names[st], SA.c_str(), sp, CA.c_str(), cp);
  count((std::string("status.") + names[st]).c_str());
  bool listening = listen_events > 0;
  if (st == Listen) {
    if (++listen_events > 1)
      broken("C04", "listen-twice", "Listen reported twice");
    if (!k::lst || !k::lst->listening)
      broken("C04 C07", "listen-event", "Listen reported, but it is not so");
    if (SA != k::ip(k::lst->addr) || sp != k::lst->port || cp != 0 || active)
      broken("C04", "listen-address",
             "Listen reported for " + SA + ":" + std::to_string(sp) +
                 " instead of " + k::ip(k::lst->addr) + ":" +
                 std::to_string(k::lst->port));
    if (!startup_mode) {
      phase_over = true;
      wake_all(mainq);
    }
    return;
  }
  if (!listening) {
    startup_events.push_back(st);
    return;
  }
  bool lstaddr = SA == k::ip(k::lst->addr) && sp == k::lst->port && cp == 0;
  if (st == AcceptError) {
    ++accept_errors;
    if (!lstaddr)
      broken("C04", "event-address",
             "AcceptError reported for " + SA + ":" + std::to_string(sp) + " " +
                 CA + ":" + std::to_string(cp) + " instead of the server");
    if (accept_errors > k::accept_failures + k::accept_eintr)
      broken("C04 C03 C05 C06", "accept-error", "AcceptError without a failed accept");
    return;
  }
  Conn *c = nullptr;
  for (auto *x : k::conns)
    if (x->peer_port == cp && k::ip(x->peer_addr) == CA)
      c = x;
  if (!c) {
    // a connection whose own address could not be found out
    if (st == ServerAddressError && lstaddr)
      ++nameless_name;
    else if (st == UnknownError) {
      ++nameless_unknown;
      return;
    }
    else if (st == Close && lstaddr)
      ++nameless_close;
    else if (st == CloseError && lstaddr)
      ++nameless_closeerr;
    else
      broken("C04", "event-address",
             std::string(names[st]) + " reported for the unknown connection " +
                 SA + ":" + std::to_string(sp) + " " + CA + ":" +
                 std::to_string(cp));
    int okc = 0, erc = 0, n = 0;
    for (auto *x : k::conns)
      if (x->getsockname_failed || x->thread_failed) {
        n += x->getsockname_failed;
        okc += x->closed && !x->close_failed;
        erc += x->closed && x->close_failed;
      }
    if (nameless_name > n || nameless_close > okc || nameless_closeerr > erc)
      broken("C04", "event-address",
             std::string(names[st]) + " reported for the listening socket");
    return;
  }
  CX &x = X(c);
  if (!c->accepted)
    broken("C04", "event-address",
           std::string(names[st]) + " reported for connection " +
               std::to_string(c->id) + ", which is not accepted");
  std::string who = "connection " + std::to_string(c->id);
  if (SA != k::ip(c->local_addr) || sp != c->local_port || !active)
    broken("C04", "event-address",
           who + ": " + names[st] + " reported with server address " + SA +
               ":" + std::to_string(sp) + " instead of " +
               k::ip(c->local_addr) + ":" + std::to_string(c->local_port) +
               (active ? "" : " and as not active"));
  Session *s = thr2sess[cur_id() & 511];
  if (s && s->c && s->c != c && !s->c->closed)
    broken("C04", "event-connection",
           std::string(names[st]) + " reported for connection " +
               std::to_string(c->id) + " by " + nm(s));
  if (st == Accept) {
    if (x.accept++)
      broken("C04", "accept-twice", who + ": Accept reported twice");
  } else if (!x.accept && !c->getsockname_failed)
    broken("C04", "event-order",
           who + ": " + names[st] + " reported before Accept");
  if (x.close + x.closeerr && st != UnknownError)
    broken("C04 C03", "event-order",
           who + ": " + names[st] + " reported after Close");
  switch (st) {
  case Accept:
    break;
  case Receive:
    ++x.receive;
    if (x.receive > (int)c->recv_calls)
      broken("C04", "receive-event", who + ": Receive reported without data");
    break;
  case Send:
  case SendError:
    ++(st == Send ? x.sends : x.senderrs);
    if (!s || (s->c && s->c != c))
      broken("C04", "send-event",
             who + ": " + names[st] + " reported on a wrong connection");
    if (stack) {
      if (s->threw)
        break;
      if (s->sent >= s->reqs.size())
        broken("C23", "extra-response",
               who + ": a response is sent without a request");
      std::string want;
      if (s->has_answer)
        want = s->answer + s->delim;
      else {
        want = std::string("REJECT") + s->delim;
        if (!s->end_begun)
          broken("C23", "early-reject",
                 who + ": request " + show(s->reqs[s->sent]) +
                     " is responded, but not by the server");
      }
      s->has_answer = false;
      s->msg = want;
      sent_one(s, st == Send);
      ++s->sent;
      if (s->given < s->sent)
        s->given = s->sent;
      count(want == std::string("REJECT") + s->delim ? "probe.rejected"
                                                     : "probe.answered");
    } else {
      if (!s->in_send)
        broken("C04 C02", "send-event",
               who + ": " + names[st] + " reported, but nothing is being sent");
      ++(st == Send ? s->n_ok : s->n_err);
    }
    break;
  case ReceiveError:
    if (++x.recverr > c->recv_errors)
      broken("C04 C03 C05", "receive-error",
             who + ": ReceiveError reported without a failure");
    break;
  case Close:
  case CloseError:
    ++(st == Close ? x.close : x.closeerr);
    if (!c->closed)
      broken("C04 C03", "close-event",
             who + ": " + names[st] + " reported before it is closed");
    if ((st == CloseError) != c->close_failed)
      broken("C04", "close-event",
             who + ": closing " + (c->close_failed ? "failed" : "succeeded") +
                 ", reported as " + names[st]);
    break;
  case UnknownError:
    ++x.unknown;
    if (!c->thread_failed && !x.s && !c->closed && lost_allocs > 0) {
      --lost_allocs; // its thread could not begin to serve it
      c->thread_failed = true;
    }
    if (!c->thread_failed && !(x.s && x.s->threw))
      broken("C04 C05", "unknown-error", who + ": UnknownError without a failure");
    if (x.unknown > 1)
      broken("C04", "unknown-error", who + ": UnknownError reported twice");
    break;
  default:
    if (st == ServerAddressError && c->getsockname_failed) {
      ++nameless_name;
      break;
    }
    broken("C04", "event", who + ": unexpected " + names[st]);
  }
}
void h_returned(int how) {
  Guard g;
  ev("startServer %s", how ? "throws" : "returns");
  returned = true;
  returned_how = how;
  if (listen_events)
    broken("C05", "server-ended",
           how ? "an exception ended startServer while it was serving"
               : "startServer returned while it was serving");
  if (how)
    broken("C07", "server-ended", "an exception ended startServer");
  if (k::names_of[cur_id()])
    broken("C07", "leak", "startServer returned without releasing the address "
                          "it has resolved");
}
// ------------------------------------------------------------- stack
char h_delim(int i) { return sess[i]->delim; }
void h_connect_failed(int i) {
  Guard g;
  sess[i]->connect_failed = sess[i]->threw = true;
  ev("%s: connect() failed", nm(sess[i]).c_str());
}
void h_serve_begin(int i) {
  Guard g;
  sess[i]->serve_begun = true;
  thr2serv[cur_id() & 511] = sess[i];
  ev("server %d starts", i);
}
int h_serve_next(int i) {
  Guard g;
  yield("server");
  return sess[i]->ops-- > 0;
}
void h_request(int i, const char *p, size_t n, const char **r, size_t *rn) {
  Guard g;
  check_range(p, n, false, "handler reads");
  std::string m(p, n);
  Session *s = sess[i];
  ev("%s: handler gets %s", nm(s).c_str(), show(m).c_str());
  if (s->given != s->sent || s->given >= s->reqs.size() ||
      m != s->reqs[s->given])
    broken("C23", "wrong-request",
           nm(s) + ": handler gets " + show(m) + ", expected " +
               (s->given < s->reqs.size() ? show(s->reqs[s->given])
                                          : std::string("nothing")));
  if (s->c && s->c->closed)
    broken("C23", "handler-after-close",
           nm(s) + ": handler invoked after the connection was closed");
  ++s->given;
  count("sim.requests");
  yield("handler");
  if (!quiet && cfg_slow && !finale && slow_budget-- > 0 && flip(1, cfg_slow))
    sleep_until(now + 1000000ull * (1 + choose(800)), "slow handler");
  u32 kind = quiet ? 0 : weighted({5, 2, 1, 1, k::window >= 100 ? cfg_big : 0});
  s->answer = kind == 0   ? "<" + m + ">"
              : kind == 1 ? m
              : kind == 2 ? std::string()
              : kind == 3 ? rnd_bytes(2)
                          : rnd_bytes(3);
  s->has_answer = true;
  s->keep = s->answer;
  *r = s->keep.data();
  *rn = s->keep.size();
}
void h_answer_failed(int i) {
  Guard g;
  Session *s = sess[i];
  ev("%s: answer() fails for want of memory", nm(s).c_str());
  s->has_answer = false;
}
void h_answered(int i, int ok, int calls) {
  Guard g;
  Session *s = sess[i];
  ev("%s: answer() -> %d", nm(s).c_str(), ok);
  if (ok ? calls != 1 : calls)
    broken("C23", "answer-calls", nm(s) + ": answer() invoked the handler " +
                                      std::to_string(calls) + " times");
  if (!ok && !(s->c && s->c->closed) && !s->threw)
    broken("C23", "false-while-open",
           nm(s) + ": answer() returned false on an open connection");
  if (!ok)
    count("probe.answer_false");
}
void h_serve_ending(int i) {
  Guard g;
  sess[i]->end_begun = true;
  ev("server %d ends its connection", i);
}
void h_serve_end(int i) {
  Guard g;
  sess[i]->serve_ended = true;
  ev("server %d has ended", i);
}
}
// ---------------------------------------------------------------- kernel hooks
static void on_io(Conn *c, const char *call) {
  CX &x = X(c);
  if (cfg_alloc && !finale && call[0] == 'r' && flip(1, 4 * cfg_alloc))
    alloc_fail_in = 1 + choose(12);
  if (!x.s) {
    Session *s = thr2sess[cur_id() & 511];
    if (s && !s->c) {
      s->c = c;
      x.s = s;
    }
  }
  if (x.s && x.s->failed_in_listener && call[0] == 'r' && !x.s->pos)
    broken("C02 C03", "open-after-failed-send",
           nm(x.s) + ": the connection goes on after a failed send");
}
static void on_close(Conn *c) {
  last_change = now;
  CX &x = X(c);
  Session *s = x.s;
  std::string who = "connection " + std::to_string(c->id);
  bool reason = c->eof_seen || c->recv_errors || (s && s->failed) ||
                c->getsockname_failed || c->thread_failed || (s && s->threw);
  if (!reason && !s && lost_allocs > 0) {
    --lost_allocs; // its thread could not begin to serve it
    c->thread_failed = reason = true;
  }
  if (!reason)
    broken("C03 C05 C01 C23", "closed-without-reason",
           who + " is closed although it has not ended");
  if (!s)
    return;
  if (s->in_send)
    broken("C03", "closed-in-send", who + " is closed while sending");
  if (!s->threw && s->R && s->pos)
    broken("C01 C02 C03", "missed-listener",
           who + " is closed before receive listener " +
               std::to_string(s->pos) + " got the last chunk");
  if (!s->threw && s->R && !s->failed && c->eof_seen && !c->recv_errors &&
      s->delivered != c->recv_log.size())
    broken("C01", "lost-data",
           who + ": " + std::to_string(c->recv_log.size()) +
               " bytes received, " + std::to_string(s->delivered) +
               " delivered before the close");
  if (stack && !s->threw && !s->failed && s->sent != s->reqs.size())
    broken("C23", "missing-response",
           who + ": " + std::to_string(s->reqs.size()) + " requests, " +
               std::to_string(s->sent) + " responses");
}
static void on_accept(Conn *c) {
  last_change = now;
  last_accepted = c;
  if (cfg_alloc && !finale && flip(1, cfg_alloc))
    alloc_fail_in = 1 + choose(12);
  if (cfg_max && (size_t)k::open_conns > cfg_max)
    broken("C06", "limit-exceeded",
           std::to_string(k::open_conns) +
               " connections are open, the maximum is " +
               std::to_string(cfg_max));
}
// ---------------------------------------------------------------- clients
static void drain(Client *cl) {
  Conn *c = cl->c;
  if (cl->stalled || cl->draining || c->drained == c->out.size())
    return;
  cl->draining = true;
  after(cl->drain_delay, [cl, c] {
    cl->draining = false;
    if (cl->stalled)
      return;
    k::client_drain(c, cl->drain_chunk);
    drain(cl);
  });
}
static void act(Client *cl) {
  if (cl->next >= cl->acts.size())
    return;
  Action &a = cl->acts[cl->next++];
  after(a.delay, [cl, &a] {
    Conn *c = cl->c;
    switch (a.kind) {
    case SEND:
      cl->sent += a.data;
      k::client_send(c, a.data);
      break;
    case FIN:
      k::client_fin(c);
      break;
    case RST:
      k::client_rst(c);
      break;
    case GONE:
      count("fault.client_gone");
      c->peer_gone = true;
      k::client_fin(c);
      break;
    case STALL:
      count("fault.client_stalls");
      cl->stalled = !finale;
      break;
    case RESUME:
      cl->stalled = false;
      drain(cl);
      break;
    }
    last_action = std::max(last_action, now);
    act(cl);
  });
}
static void arrive(Client *cl) {
  if (cl->throttled && k::open_conns >= 30) {
    after(1000000000, [cl] { arrive(cl); });
    return;
  }
  cl->c = k::connect(cl->addr, cl->port);
  cl->c->hostile = !cl->benign;
  cl->c->on_out = [cl] { drain(cl); };
  act(cl);
  if (finale && !cl->benign) // arrives after all others were told to end
    after(1000000, [cl] { k::client_fin(cl->c); });
}
static u64 delay() {
  switch (weighted({6, 4, 2, 1})) {
  case 0:
    return 1000ull * choose(50);
  case 1:
    return 1000000ull * (1 + choose(30));
  case 2:
    return 1000000ull * (30 + choose(1500));
  default:
    return 1000000ull * (1500 + choose(9000));
  }
}
static std::string request_text(char delim) {
  std::string d;
  int nr = 1 + weighted({6, 3, 2});
  for (int j = 0; j < nr; ++j) {
    std::string t;
    if (weighted({6, 1}) == 0) {
      u32 n = choose(5);
      for (u32 i = 0; i < n; ++i)
        t += 'a' + choose(3);
    } else
      t = rnd_bytes(1 + choose(2));
    for (auto &c : t)
      if (c == delim)
        c = '.';
    d += t;
    if (j + 1 < nr || !flip(1, 5))
      d += delim;
  }
  return d;
}
static void wait_main(const char *what) {
  while (!phase_over)
    block(mainq, what);
  phase_over = false;
}
static void wait_settled(const char *what) {
  for (int i = 0; i < 60 && now < last_change + 60000000000ull; ++i) {
    count("probe.still_settling");
    at(last_change + 60000000000ull, [] {
      phase_over = true;
      wake_all(mainq);
    });
    wait_main(what);
  }
}
static void final_check() {
  if (returned)
    broken("C05", "server-ended", "startServer has returned");
  int open = 0, pending = 0;
  for (auto *c : k::conns) {
    open += c->accepted && !c->closed;
    pending += c->pending;
  }
  for (auto *c : k::conns) {
    CX &x = X(c);
    Session *s = x.s;
    std::string who = "connection " + std::to_string(c->id);
    if (c->pending && (!cfg_max || (size_t)open < cfg_max))
      broken("C06 C05 C23", "never-accepted",
             who + ": waits for " + std::to_string((now - c->arrived_at) / 1000000000) +
                 " s and is not accepted, " + std::to_string(open) +
                 " connections are open, the maximum is " +
                 std::to_string(cfg_max));
    if (!c->accepted)
      continue;
    if (!c->closed)
      broken("C03 C05 C10 C23", "never-closed",
             who + " has ended but is not closed" +
                 (s ? "" : " (it is not being served)"));
    int closes = x.close + x.closeerr;
    if (c->getsockname_failed) {
      if (x.accept)
        broken("C04", "accept-event", who + ": Accept reported without address");
    } else {
      if (x.accept != 1)
        broken("C04", "accept-event",
               who + ": accepted, Accept reported " +
                   std::to_string(x.accept) + " times");
      if (closes != 1 && !(c->thread_failed && closes == 0 && nameless_close + nameless_closeerr))
        broken("C04", "close-event",
               who + ": closed, Close or CloseError reported " +
                   std::to_string(closes) + " times");
    }
    if (x.recverr != c->recv_errors && !(s && s->threw))
      broken("C04", "receive-error",
             who + ": " + std::to_string(c->recv_errors) +
                 " receive errors, ReceiveError reported " +
                 std::to_string(x.recverr) + " times");
    if (s && !s->threw && s->R && x.receive != s->chunks)
      broken("C04", "receive-event",
             who + ": " + std::to_string(s->chunks) +
                 " chunks delivered, Receive reported " +
                 std::to_string(x.receive) + " times");
    if (s && !s->R && c->recv_calls && !x.receive)
      broken("C04", "receive-event", who + ": Receive never reported");
    if (!s) {
      if (!c->getsockname_failed && !c->thread_failed)
        broken("C05 C01", "never-served", who + ": no session was created");
      if (!c->getsockname_failed && !x.unknown && --nameless_unknown < 0)
        broken("C04", "unknown-error",
               who + " could not be served, UnknownError is not reported");
      continue;
    }
    if (s->ready && !s->threw_close && s->closed_calls != s->C)
      broken("C03", "closed-listeners",
             who + ": " + std::to_string(s->closed_calls) + " of " +
                 std::to_string(s->C) + " closed listeners invoked");
    if (!s->token_dead)
      broken("C03 C23", "not-released",
             who + ": its listeners are never released");
    if (stack && s->serve_begun && !s->serve_ended)
      broken("C23", "server-stuck",
             who + ": the server is still waiting after the close");
  }
  if (accept_errors < k::accept_failures)
    broken("C04", "accept-error",
           std::to_string(k::accept_failures) +
               " accepts failed, AcceptError reported " +
               std::to_string(accept_errors) + " times");
  if (nameless_unknown > 0)
    broken("C04", "unknown-error",
           "UnknownError is reported for a connection which does not exist");
  int gs = 0, quiet = 0;
  for (auto *c : k::conns) {
    gs += c->getsockname_failed;
    if ((c->getsockname_failed || c->thread_failed) && c->closed)
      quiet += X(c).close + X(c).closeerr == 0;
  }
  if (quiet != nameless_close + nameless_closeerr)
    broken("C04", "close-event",
           std::to_string(quiet) + " connections which could not be served "
           "were closed, Close or CloseError reported " +
               std::to_string(nameless_close + nameless_closeerr) + " times");
  if (gs != nameless_name)
    broken("C04", "address-error",
           "the own address of " + std::to_string(gs) +
               " connections could not be found out, ServerAddressError "
               "reported " +
               std::to_string(nameless_name) + " times");
  for (auto *cl : clients) {
    Conn *c = cl->c;
    if (!cl->benign || !c)
      continue;
    CX &x = X(c);
    Session *s = x.s;
    if (c->thread_failed || (s && s->threw))
      continue;
    if (!s)
      continue;
    std::string who = "well-behaved client " + std::to_string(c->id);
    if (c->recv_log != cl->sent && !s->failed)
      broken("C05 C01 C23", "not-served",
             who + ": sent " + std::to_string(cl->sent.size()) + " bytes, " +
                 std::to_string(c->recv_log.size()) + " were received");
    if (s->failed)
      broken("C05 C02 C23", "not-served", who + ": a message to it failed");
    if (c->out != s->out_expect || c->drained != c->out.size())
      broken("C02 C05 C23", "wrong-output", who + ": got wrong data");
    count("probe.benign_clients_served");
  }
}
// System faults have stopped and time has passed, but clients which stall or
// never end still hold their connections, and slow listeners are still busy:
// nobody else may have to wait for them.
static void persistent_check() {
  if (returned)
    broken("C05", "server-ended", "startServer has returned");
  int busy = 0;
  for (auto *c : k::conns) {
    Session *s = X(c).s;
    busy += c->accepted && (!c->closed || (s && !s->token_dead));
  }
  if (busy)
    count("probe.connections_which_stay");
  for (auto *c : k::conns)
    if (c->pending && (!cfg_max || (size_t)busy < cfg_max))
      broken("C06 C05 C23", "never-accepted",
             "connection " + std::to_string(c->id) + ": waits for " +
                 std::to_string((now - c->arrived_at) / 1000000000) +
                 " s and is not accepted, " + std::to_string(busy) +
                 " other connections stay, the maximum is " +
                 std::to_string(cfg_max));
  for (auto *cl : clients) {
    Conn *c = cl->c;
    if (!cl->benign || !c || !c->accepted)
      continue;
    Session *s = X(c).s;
    if (c->getsockname_failed || c->thread_failed || (s && s->threw))
      continue;
    std::string who = "well-behaved client " + std::to_string(c->id);
    if (!s)
      broken("C05 C01", "never-served", who + ": no session was created");
    if (s->failed)
      continue;
    if (c->recv_log != cl->sent || c->out != s->out_expect ||
        c->drained != c->out.size() || !c->closed)
      broken("C05 C23", "not-served",
             who + " has to wait for other connections: sent " +
                 std::to_string(cl->sent.size()) + " bytes, " +
                 std::to_string(c->recv_log.size()) + " were received" +
                 (c->closed ? "" : ", its connection has not been closed"));
    if (!s->threw && s->closed_calls != s->C && !s->slow_close)
      broken("C05 C03 C23", "closed-listeners",
             who + ": its closed listeners wait for other connections");
    if (busy)
      count("probe.served_beside_others");
  }
}
static int weighted_focus(std::initializer_list<u32> a) { return (int)weighted(a); }

static void startup_world() {
  startup_mode = true;
  // a start-up failure of a chosen system call, or a port in TIME_WAIT
  set_fair(true);
  disable_preempt();
  k::faults = k::Faults();
  k::hosts["server.example"] = 0x0a000005;
  k::hosts["localhost"] = 0x7f000001;
  static const char *addrs[] = {"", "127.0.0.1", "server.example", "10.0.0.9",
                                "localhost", "no-such-host"};
  cfg_addr = addrs[weighted({3, 3, 2, 1, 1, 1})];
  u32 want = cfg_addr.empty()               ? 0
             : k::hosts.count(cfg_addr)     ? k::hosts[cfg_addr]
             : cfg_addr == "127.0.0.1"      ? 0x7f000001
             : cfg_addr == "10.0.0.9"       ? 0x0a000009
                                            : 0;
  static const int ports[] = {0, 80, 8080, 65535, 256, 255};
  cfg_port = ports[choose(6)];
  int step = (int)weighted({2, 1, 2, 2, 2, 2, 2});
  if (step == k::ST_HOST && cfg_addr.empty())
    step = 0;
  k::faults.startup = step;
  if (flip(1, 3))
    k::faults.close_err = 1;
  k::time_wait = flip(1, 3);
  if (!k::faults.close_err && flip(1, 4))
    k::next_port = (int)range(1024, 65535);
  cfg_max = choose(3);
  cfg_buf = 64;
  {
    App a;
    a_start(cfg_addr.c_str(), cfg_port, cfg_max, cfg_buf);
  }
  phase_over = false;
  at(60000000000ull, [] {
    phase_over = true;
    wake_all(mainq);
  });
  wait_main("start-up");
  if (cfg_addr == "no-such-host" && !k::startup_failed)
    broken("C07", "unresolved", "the server never resolved its host name");
  if (k::startup_failed) {
    count("probe.startup_failed");
    static const int codes[] = {-1,          HostnameError, CreateError,
                                OptionError, BindError,     ServerAddressError,
                                ListenError};
    int st = k::startup_failed;
    if (st == k::ST_BIND && k::time_wait && k::faults.startup != st)
      broken("C07", "time-wait",
             "the port is in TIME_WAIT and SO_REUSEADDR was not set before "
             "bind, so the server can not be started again");
    std::vector<int> exp{codes[st]};
    if (st > k::ST_SOCKET)
      exp.push_back(k::lst->close_failed ? CloseError : Close);
    std::string got, wants;
    for (int e : startup_events)
      got += std::string(" ") + names[e];
    for (int e : exp)
      wants += std::string(" ") + names[e];
    if (listen_events)
      broken("C07 C04", "listen-after-failure",
             "Listen reported although start-up failed");
    if (!returned)
      broken("C07", "no-return", "startServer does not return after a failure");
    if (startup_events != exp)
      broken("C07", "wrong-status",
             "start-up step " + std::to_string(st) + " failed: reported" + got +
                 " instead of" + wants);
    if (st > k::ST_SOCKET && k::lst->closes != 1)
      broken("C07", "not-closed",
             "the socket of the failed server was closed " +
                 std::to_string(k::lst->closes) + " times");
  } else {
    if (returned)
      broken("C07", "returned", "startServer returned without a failure");
    if (listen_events != 1 || startup_events.size())
      broken("C07 C04", "wrong-status",
             "start-up succeeded, Listen reported " +
                 std::to_string(listen_events) + " times" +
                 (startup_events.size()
                      ? std::string(", first ") + names[startup_events[0]]
                      : std::string()));
    if (!k::lst->listening || k::bind_addr != want || k::bind_port != cfg_port)
      broken("C07", "wrong-address",
             "the server is bound to " + k::ip(k::bind_addr) + ":" +
                 std::to_string(k::bind_port) + " instead of " + k::ip(want) +
                 ":" + std::to_string(cfg_port));
  }
  end_run();
}
static void run(bool st) {
  stack = st;
  k::all_props = st;
  F = focus();
  k::on_io = on_io;
  k::on_close = on_close;
  k::on_accept = on_accept;
  configure_schedule();
  if (!st && (F == "C07" ? !flip(1, 4) : flip(1, 16)))
    startup_world();
  // ---- configuration of this run
  static const char *addrs[] = {"127.0.0.1", "", "10.0.0.1"};
  cfg_addr = addrs[weighted({3, 2, 1})];
  static const int ports[] = {8080, 0, 80, 1, 65535};
  cfg_port = ports[weighted({6, 4, 2, 1, 1})];
  cfg_max = F == "C06" ? 1 + weighted({4, 3, 2, 1, 1})
                       : weighted({6, 1, 1, 1});
  // limits which do not fit the types they might be kept in
  static const size_t big_max[] = {256, 257, 65537, (1ull << 32) + 1, ~(size_t)0};
  if (flip(1, 16))
    cfg_max = big_max[choose(5)];
  static const size_t bufs[] = {64, 1, 2, 7, 16, 4096, 65535, 65536, 256, 70000};
  cfg_buf = bufs[weighted({5, 1, 1, 1, 2, 2, 3, 1, 1, 1})];
  static const size_t wins[] = {1 << 20, 1, 16, 1000, 8192};
  k::window = wins[weighted({6, 1, 2, 3, 3})];
  k::fd_limit = !flip(1, F == "C05" ? 4 : 10) ? 1 << 16 : 2 + (int)choose(4);
  k::FD0 = flip(1, 8) ? 0 : 100; // the standard descriptors may be closed
  k::FD0_late = !k::FD0 && flip(1, 2);
  auto rate = [](u32 on, u32 r) { return flip(1, on) ? r : 0u; };
  k::Faults fl;
  fl.eintr_recv = rate(3, 10);
  fl.eintr_send = rate(3, 10);
  fl.eintr_accept = rate(6, 8);
  fl.short_recv = rate(3, 2);
  fl.short_send = rate(3, 3);
  fl.recv_err = rate(3, 12);
  fl.send_err = rate(3, 10);
  fl.close_err = rate(5, 3);
  fl.accept_err = rate(5, 4);
  fl.accept_abort = rate(5, 4);
  fl.connname_err = rate(7, 3);
  k::faults = fl;
  cfg_greet = rate(3, 2);
  cfg_reply = flip(1, 6) ? 0 : 4;
  cfg_big = k::window < 100 ? 0 : F == "C02" ? 1 : weighted({2, 1});
  cfg_throw = rate(8, 1);
  cfg_slow = rate(3, 6);
  cfg_slowclose = rate(6, 2);
  cfg_thread = rate(6, 4);
  cfg_alloc = rate(8, 4);
  on_alloc_fail = [] {
    Session *s = thr2sess[cur_id() & 511];
    if (!s && thr2serv[cur_id() & 511])
      return; // answer() fails, the server ends
    if (s) {
      s->threw = true;
      s->threw_close |= s->c && s->c->closed;
    } else if (cur_id() == server_tid) {
      if (last_accepted && !X(last_accepted).s && !last_accepted->closed)
        last_accepted->thread_failed = true;
    } else
      ++lost_allocs;
  };
  thread_create_fault = [] {
    if (server_tid < 0 || finale || !cfg_thread)
      return 0;
    Session *s = thr2sess[cur_id() & 511];
    if (!flip(1, cfg_thread))
      return 0;
    if (s) {
      s->threw = true;
    } else if (last_accepted && !X(last_accepted).s && !last_accepted->closed)
      last_accepted->thread_failed = true;
    count("fault.thread_start");
    ev("a thread can not be started");
    return EAGAIN;
  };
  // ---- the server
  quiet = false;
  set_fair(true);
  {
    App a;
    a_start(cfg_addr.c_str(), cfg_port, cfg_max, cfg_buf);
  }
  server_tid = thread_count() - 1;
  on_step_cap = [] {
    broken("C05 C06 C02 C01 C03", "livelock", "the server makes no progress");
  };
  step_cap = 300000;
  phase_over = false;
  at(now + 60000000000ull, [] {
    if (!listen_events)
      broken("C07 C05", "no-listen", "the server does not start to listen");
  });
  wait_main("start");
  set_fair(false);
  // ---- clients
  int n = 1 + (F == "C06" ? (int)std::min<size_t>(cfg_max, 5) + (int)choose(5)
                          : weighted_focus({5, 4, 3, 2, 1, 1}));
  bool many = flip(1, 50); // more connections than anything counts in passing
  if (many) {
    n = 20 + (int)choose(st ? 25 : 60);
    count("probe.many_connections");
  }
  bool lots = many && flip(1, st ? 12 : 6); // more than fit into a byte
  if (lots) {
    n = (st ? 150 : 257) + (int)choose(30);
    count("probe.lots_of_connections");
  }
  int hostile_pct = lots || weighted({2, 3, 1}) == 0 ? 0 : 1;
  u64 t = now + 1000000;
  for (int i = 0; i < n; ++i) {
    Client *cl = new Client();
    cl->id = i;
    cl->throttled = lots;
    cl->benign = hostile_pct ? !flip(1, 2) : true;
    cl->addr = 0x0a000100 + choose(3);
    static const int ports[] = {20000, 1, 65535};
    cl->port = i ? 20000 + i : ports[weighted({8, 1, 1})];
    static const u64 dd[] = {0, 1000, 2000000, 300000000};
    cl->drain_delay = dd[weighted({4, 3, 2, 1})];
    static const size_t dc[] = {1 << 20, 1, 100, 3000};
    cl->drain_chunk = dc[weighted({5, 1, 2, 2})];
    if (cl->drain_chunk < 100 && cfg_big)
      cl->drain_chunk = 100;
    if (cl->drain_delay > 3000000 && cl->drain_chunk < 3000)
      cl->drain_delay = 3000000;
    int na = many ? (int)choose(2) : (int)weighted({1, 4, 4, 2, 1, 1});
    for (int j = 0; j < na; ++j) {
      Action a;
      a.kind = SEND;
      a.delay = delay();
      a.data = stack ? request_text("$\n\0"[weighted({5, 2, 2})])
                     : rnd_bytes(many ? 1 : weighted({8, 8, 4, 2 * (cfg_buf >= 16),
                                           cfg_buf >= 4096}));
      if (a.data.empty())
        a.data = "x";
      if (!cl->benign && flip(1, 5))
        cl->acts.push_back({STALL, delay(), ""});
      cl->acts.push_back(a);
    }
    if (cl->benign)
      cl->acts.push_back({FIN, delay(), ""});
    else
      switch (weighted({2, 2, 2, 1})) {
      case 0: cl->acts.push_back({RST, delay(), ""}); break;
      case 1: cl->acts.push_back({GONE, delay(), ""}); break;
      case 2: cl->acts.push_back({FIN, delay(), ""}); break;
      case 3: break; // never ends by itself
      }
    clients.push_back(cl);
    at(t, [cl] { arrive(cl); });
    t += weighted({3, 1}) ? delay() : 0;
  }
  u64 tot = t;
  for (auto *cl : clients) {
    u64 d = 0;
    for (auto &a : cl->acts)
      d += a.delay;
    tot = std::max(tot, t + d);
  }
  // faults stop after the last action, then everything has to settle
  phase_over = false;
  at(tot + 1000000000ull, [n] {
    finale = true;
    k::faults_on = false;
    alloc_fail_in = 0;
    cfg_alloc = 0;
    k::fd_limit = 1 << 16;
    set_fair(true);
    disable_preempt();
    ev("faults stop");
    for (auto *cl : clients)
      if (cl->benign) {
        cl->stalled = false;
        cl->drain_delay = 0;
        cl->drain_chunk = 1 << 20;
        if (cl->c)
          drain(cl);
      }
    after(30000000000ull + 20000000000ull * n, [] {
      phase_over = true;
      wake_all(mainq);
    });
  });
  wait_main("faults stop");
  wait_settled("faults stop");
  persistent_check();
  others_end = true;
  at(now + 1, [n] {
    ev("all clients end");
    wake_all(slowq);
    for (auto *cl : clients) {
      cl->stalled = false;
      cl->drain_delay = 0;
      cl->drain_chunk = 1 << 20;
      if (!cl->benign && cl->c) {
        if (flip(1, 2))
          k::client_rst(cl->c);
        else
          k::client_fin(cl->c);
      }
      if (cl->c)
        drain(cl);
    }
    after(30000000000ull + 20000000000ull * n + 100000000000ull, [] {
      phase_over = true;
      wake_all(mainq);
    });
  });
  wait_main("run");
  wait_settled("run");
  final_check();
  // ---- resources: sequential connections must not accumulate memory
  if (flip(1, 3)) {
    count("probe.leak_checked");
    quiet = true;
    cfg_throw = cfg_thread = cfg_slow = cfg_alloc = 0;
    u64 blocks[12];
    int base = (int)k::conns.size();
    for (int i = 0; i < 10; ++i) {
      Client *cl = new Client();
      cl->id = base + i;
      cl->addr = 0x0a000200;
      cl->port = 30000 + i;
      cl->acts.push_back({SEND, 1000, "ping$"});
      cl->acts.push_back({FIN, 1000000, ""});
      clients.push_back(cl);
      arrive(cl);
      after(60000000000ull, [] {
        phase_over = true;
        wake_all(mainq);
      });
      wait_main("sequence");
      if (!cl->c->closed)
        broken("C05 C06 C03", "not-served",
               "a connection made after all others had ended is not served");
      blocks[i] = heap().live_blocks;
    }
    if (blocks[9] >= blocks[3] + 6)
      broken("C03 C23", "leak",
             "memory grows with every connection: " +
                 std::to_string(blocks[9] - blocks[3]) +
                 " more blocks after 6 connections");
    final_check();
  }
  end_run();
}
static void world_net() { run(false); }
static void world_stack() { run(true); }
static World worlds[] = {{"net", world_net}, {"stack", world_stack}};
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 2); }
