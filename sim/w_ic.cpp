// IntrusiveConnection world: transports deliver chunks, servers answer, both
// under schedules, spurious wake-ups, closes and thread start failures chosen
// by the simulator. The reference model is the list of requests.
#include "rt.h"
#include <cerrno>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
using namespace rt;
extern "C" {
void a_start_transport(int id);
void a_open(int id, char delim, int arg);
int a_deliver(int id, const char *p, size_t n);
void a_close(int id, int ok);
void a_destroy(int id);
void a_drop(void *);
}
namespace {
struct Chunk {
  std::string data;
};
struct Conn {
  int id;
  char delim;
  std::vector<Chunk> chunks;
  bool close_at_end = true, close_ok = true;
  bool failed = false, broken = false;
  // model
  std::vector<std::string> reqs; // all requests delivered so far
  size_t sent = 0;               // responses sent
  size_t given = 0;              // requests handed to the handler
  bool has_answer = false;       // handler returned a response for `sent`
  bool thrown = false;           // handler threw for request `given-1`
  std::string answer;
  bool in_deliver = false, close_begun = false, close_done = false,
       destroyed = false;
  bool end_begun = false; // destruction of the live object has begun
  bool end_done = false;
  int chunks_done = 0;
  bool transport_done = false;
  bool registered = false;
  int arg = 0;
  std::string resp_keep;
  u64 end_done_at = 0, end_sent = ~0ull;
};
struct Server {
  int id;
  bool started = false, ended = false;
  int ops_left = 0;
  int answers = 0;
  bool closed_seen = false;
  int in_op = 0, in_conn = -1;
  std::string resp;
  int end_bias;
};
static Conn *C[16];
static Server *S[16];
static int N = 0;
static bool warm = false;
static struct {
  void *p;
  int conn;
} mail = {nullptr, -1};
static WaitQ mailq;
static int finished_servers = 0;
static int owner[16];
static u32 cfg_moves, cfg_throw, cfg_mail, cfg_alloc, cfg_send;
static void arm(u32 n) {
  if (!warm && cfg_alloc && flip(1, cfg_alloc))
    alloc_fail_here(1 + choose(n));
}
static VC mail_vc;

static std::string show(const std::string &s) {
  std::string r = "'";
  for (unsigned char c : s.substr(0, 40)) {
    char b[8];
    if (c < 32 || c > 126)
      snprintf(b, sizeof b, "\\x%02x", c), r += b;
    else
      r += c;
  }
  if (s.size() > 40)
    r += "...(" + std::to_string(s.size()) + ")";
  return r + "'";
}
static std::vector<std::string> split(const std::string &d, char delim) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : d) {
    if (c == delim) {
      r.push_back(cur);
      cur.clear();
    } else
      cur += c;
  }
  if (!cur.empty())
    r.push_back(cur);
  return r;
}
static std::string rnd_text(u32 maxlen, char delim, bool with_delim) {
  static const char al[] = {'a', 'b', 'R', '\0', '\n', '\xff', '\r', '$'};
  u32 kind = weighted({12, 3, 1});
  u32 n = kind == 2 ? (flip(1, 8) ? range(1000, 70000) : range(60, 400))
                    : choose(maxlen + 1);
  std::string s;
  u32 seed = kind == 2 ? choose(251) : 0;
  for (u32 i = 0; i < n; ++i) {
    char c;
    if (kind == 2)
      c = (char)(seed * 7 + i * 31);
    else if (kind == 1)
      c = al[choose(8)];
    else
      c = 'a' + choose(3);
    if (c == delim && !with_delim)
      c = '.';
    s += c;
  }
  return s;
}
static const char REJ[] = "REJECT";
} // namespace

extern "C" {
void h_registered(int id, int what) {
  Guard g;
  C[id]->registered = true;
  if (!C[id]->failed && what != 3)
    violate("C08 C10", "no-listeners",
            "connection %d: connect() returned without listening (%d)", id,
            what);
}
void h_connect(int) {
  Guard g;
  arm(12);
}
void h_connect_failed(int id) {
  Guard g;
  alloc_fail_here(0);
  ev("connection %d: connect() failed", id);
  C[id]->failed = true;
}
void h_server_start(int id, int arg) {
  Guard g;
  ev("server %d starts arg=%d", id, arg);
  S[id]->started = true;
  if (arg != C[id]->arg)
    violate("C08 C12", "bad-argument",
            "server function got argument %d instead of %d", arg, C[id]->arg);
}
void h_server_end(int id) {
  Guard g;
  ev("server %d ends", id);
  S[id]->ended = true;
  ++finished_servers;
  wake_all(mailq);
}
int h_send(int id, const char *p, size_t n) {
  Guard g;
  check_range(p, n, false, "send reads");
  std::string m(p, n);
  Conn &c = *C[id];
  ev("conn %d: send %s", id, show(m).c_str());
  if (c.destroyed)
    violate("*", "send-after-destroy", "connection %d: send on a dead socket",
            id);
  if (c.close_begun)
    violate("*", "send-after-close",
            "connection %d: socket used after it was closed", id);
  // The socket is not able to send and says so with an exception.
  bool thrown = !warm && cfg_send && flip(1, cfg_send);
  if (!c.in_deliver || c.sent >= c.reqs.size())
    violate("C08 C09", "extra-response",
            "connection %d: response %s without an outstanding request", id,
            show(m).c_str());
  size_t k = c.sent;
  if (c.has_answer) {
    std::string want = c.answer + c.delim;
    if (m != want)
      violate(m == std::string(REJ) + c.delim ? "C08 C09" : "C08",
              "wrong-response",
              "connection %d: request %zu %s got %s, the handler answered %s", id,
              k, show(c.reqs[k]).c_str(), show(m).c_str(), show(want).c_str());
    c.has_answer = false;
    count("probe.answered");
  } else {
    std::string want = std::string(REJ) + c.delim;
    if (m != want)
      violate("C08 C09", "wrong-response",
              "connection %d: request %zu %s was not answered but %s is sent, "
              "expected %s",
              id, k, show(c.reqs[k]).c_str(), show(m).c_str(),
              show(want).c_str());
    if (!c.end_begun)
      violate("C08 C09 C12", "early-reject",
              "connection %d: request %zu rejected while the server is alive",
              id, k);
    count("probe.rejected");
    c.thrown = false;
  }
  ++c.sent;
  if (c.given < c.sent)
    c.given = c.sent;
  if (thrown) {
    count("fault.send_throws");
    ev("conn %d: send throws", id);
  }
  yield("sent");
  return thrown;
}
void h_request(int conn, const char *p, size_t n, const char **resp, size_t *rn,
               int *thrw) {
  Guard g;
  check_range(p, n, false, "handler reads");
  std::string m(p, n);
  ev("handler of conn %d: request %s", conn, show(m).c_str());
  if (conn < 0)
    violate("C12", "moved-from-answers",
            "a moved-from connection handles request %s", show(m).c_str());
  Conn &c = *C[conn];
  if (c.close_begun && c.close_done)
    violate("C10 C08", "handler-after-close",
            "connection %d: handler invoked after close", conn);
  if (c.close_begun)
    violate("C10 C08", "handler-after-close",
            "connection %d: handler invoked with %s although the connection is "
            "closing and no request is outstanding",
            conn, show(m).c_str());
  if (c.sent != c.given || c.given >= c.reqs.size())
    violate("C08", "unexpected-request",
            "connection %d: handler invoked with %s, but %zu of %zu requests "
            "were handled and %zu answered",
            conn, show(m).c_str(), c.given, c.reqs.size(), c.sent);
  if (m != c.reqs[c.given])
    violate("C08", "wrong-request",
            "connection %d: handler got %s instead of request %zu %s", conn,
            show(m).c_str(), c.given, show(c.reqs[c.given]).c_str());
  ++c.given;
  yield("in handler");
  if (!warm && flip(1, 12))
    sleep_until(now + 1000000ull * (1 + choose(50)), "slow handler");
  if (!warm && cfg_throw && flip(1, 8)) {
    *thrw = 1;
    c.thrown = true;
    count("fault.handler_throws");
    return;
  }
  std::string r;
  switch (warm ? 1 : weighted({5, 2, 1, 1, 1})) {
  case 0: r = "<" + m + ">"; break;
  case 1: r = m; break;
  case 2: r = ""; break;
  case 3: r = rnd_text(8, c.delim, true); break;
  case 4: r = REJ; break;
  }
  c.resp_keep = r;
  c.answer = r;
  c.has_answer = true;
  *resp = c.resp_keep.data();
  *rn = c.resp_keep.size();
}
// mask: bit i = slot i holds an object, bit i+3 = it is live
int h_next_op(int id, int *a, int *b, int mask) {
  Guard g;
  Server &s = *S[id];
  yield("server");
  std::vector<int> live, objs, empty;
  for (int i = 0; i < 3; ++i) {
    if (mask & (8 << i))
      live.push_back(i);
    if (mask & (1 << i))
      objs.push_back(i);
    else
      empty.push_back(i);
  }
  if (warm) {
    *a = live.empty() ? 0 : live[0];
    if (s.ops_left-- <= 0 || live.empty())
      return 0;
    return 1;
  }
  // A server that saw an exception from its handler must end the connection
  if (s.ops_left <= 0)
    return 0;
  --s.ops_left;
  for (int t = 0; t < 6; ++t) {
    u32 op = weighted({14, 1, cfg_moves, cfg_moves, 1, cfg_moves, cfg_mail,
                       cfg_mail, cfg_moves / 2, 1});
    switch (op) {
    case 0: // answer on a live connection
      if (live.empty())
        return 0;
      *a = live[live.size() > 1 ? choose(live.size()) : 0];
      ++s.answers;
      return 1;
    case 1:
      return 0;
    case 2: // move construct
      if (objs.empty() || empty.empty())
        break;
      *a = objs[choose(objs.size())];
      *b = empty[choose(empty.size())];
      return 2;
    case 3: // move construct a live one, then keep using it
      if (live.empty() || empty.empty())
        break;
      *a = live[choose(live.size())];
      *b = empty[0];
      return 2;
    case 4:
      if (objs.empty())
        break;
      *a = objs[choose(objs.size())];
      return 3;
    case 5: // move assign (may be onto itself, onto a live one, ...)
      if (objs.empty())
        break;
      *a = objs[choose(objs.size())];
      *b = objs[choose(objs.size())];
      count(*a == *b ? "probe.self_move"
            : (mask & (8 << *b)) ? "probe.move_onto_live"
                                 : "probe.move_onto_empty");
      return 4;
    case 6:
      if (live.empty() || mail.p)
        break;
      *a = live[0];
      return 5;
    case 7:
      if (empty.empty() || !mail.p)
        break;
      *b = empty[0];
      return 6;
    case 8:
      if (objs.size() < 2)
        break;
      *a = objs[0];
      *b = objs[1];
      return 7;
    case 9: // answer on whatever object (moved-from ones return false)
      if (objs.empty())
        break;
      *a = objs[choose(objs.size())];
      return 1;
    }
  }
  return 0;
}
void h_op_begin(int id, int op, int conn) {
  Guard g;
  ev("server %d: op %d on conn %d", id, op, conn);
  S[id]->in_op = op;
  S[id]->in_conn = conn;
  if ((op == 3) && conn >= 0)
    C[conn]->end_begun = true;
  if (op == 4 && conn >= 0)
    C[conn]->end_begun = true;
  if (op == 1)
    arm(5);
}
static WaitQ endq;
void h_op_end(int id, int op, int conn, int result, int calls) {
  Guard g;
  ev("server %d: op %d on conn %d -> %d (%d calls)", id, op, conn, result,
     calls);
  S[id]->in_op = 0;
  alloc_fail_here(0);
  if (op == 1) {
    if (conn < 0) {
      if (result || calls)
        violate("C12", "moved-from-answers",
                "answer() on a moved-from connection returned %d after %d "
                "calls",
                result, calls);
      return;
    }
    Conn &c = *C[conn];
    if (result == 2) {
      S[id]->ops_left = 0; // the request stays open: the server must end
      return;
    }
    if (result == 3) {
      // An allocation failed. Before the handler is invoked nothing has
      // happened, after that the request stays open: the server must end.
      if (calls > 1)
        violate("C08", "answer-calls",
                "connection %d: answer() invoked the handler %d times", conn,
                calls);
      c.has_answer = false;
      if (calls || flip(1, 2))
        S[id]->ops_left = 0;
      return;
    }
    if (result && calls != 1)
      violate("C08 C10", "answer-calls",
              "connection %d: answer() returned true after %d handler calls",
              conn, calls);
    if (!result && calls)
      violate("C10", "answer-calls",
              "connection %d: answer() returned false after %d handler calls",
              conn, calls);
    if (!result && !c.close_begun)
      violate("C10 C12", "false-while-open",
              "connection %d: answer() returned false but the connection was "
              "not closed",
              conn);
    if (!result)
      count("probe.answer_false"), c.end_begun = true;
  }
  if ((op == 3 || op == 4) && conn >= 0) {
    C[conn]->end_done = true;
    C[conn]->end_sent = C[conn]->reqs.size();
  }
  if (op == 4 && !result)
    violate("C12", "assign-result",
            "move assignment does not return the assigned connection");
}
int h_mail_put(int, void *p, int conn) {
  Guard g;
  if (mail.p || finished_servers >= N - 1)
    return 0;
  ev("conn %d put into the mailbox", conn);
  mail.p = p;
  mail.conn = conn;
  owner[conn] = -1;
  hb_release(mail_vc);
  count("probe.handover");
  wake_all(mailq);
  return 1;
}
void *h_mail_get(int id, int *conn) {
  Guard g;
  if (!mail.p)
    return nullptr;
  void *p = mail.p;
  *conn = mail.conn;
  mail.p = nullptr;
  owner[*conn] = id;
  hb_acquire(mail_vc);
  ev("conn %d taken from the mailbox", *conn);
  return p;
}
void h_transport(int id) {
  Guard g;
  Conn &c = *C[id];
  {
    App a;
    a_open(id, c.delim, c.arg);
  }
  alloc_fail_here(0);
  if (!c.failed) {
    for (auto &ch : c.chunks) {
      if (!warm && flip(1, 4))
        sleep_until(now + 1000000ull * (1 + choose(40)), "network delay");
      auto r = split(ch.data, c.delim);
      for (auto &x : r)
        c.reqs.push_back(x);
      ev("conn %d: deliver %s (%zu requests)", id, show(ch.data).c_str(),
         r.size());
      count("sim.requests", r.size());
      if (r.size() > 1)
        count("fault.joined_requests");
      bool ended = c.end_done;
      c.in_deliver = true;
      arm(16);
      int delivered;
      {
        App a;
        delivered = a_deliver(id, ch.data.data(), ch.data.size());
      }
      alloc_fail_here(0);
      c.in_deliver = false;
      if (!delivered) { // a socket is closed if its listener fails
        ev("conn %d: delivery failed", id);
        c.broken = true;
        break;
      }
      ++c.chunks_done;
      ev("conn %d: delivered", id);
      if (c.sent != c.reqs.size())
        violate(c.end_begun ? "C09 C08" : "C08", "missing-response",
                "connection %d: %zu requests received, %zu responses sent%s", id,
                c.reqs.size(), c.sent,
                ended ? " (all after the server ended)" : "");
    }
    if (!warm && flip(1, 3))
      sleep_until(now + 1000000ull * (1 + choose(40)), "network delay");
    if (c.close_at_end || c.broken) {
      c.close_at_end = true;
      if (c.broken)
        c.close_ok = false;
      ev("conn %d: close", id);
      count("fault.close");
      c.close_begun = true;
      {
        App a;
        a_close(id, c.close_ok);
      }
      c.close_done = true;
      ev("conn %d: closed", id);
    }
  } else { // the socket of a server which could not be created is closed
    c.close_begun = true;
    {
      App a;
      a_close(id, 0);
    }
    c.close_done = true;
  }
  if (c.close_at_end || c.failed) {
    c.destroyed = true;
    App a;
    a_destroy(id);
  }
  c.transport_done = true;
}
}

static Conn *new_conn(int id) {
  Conn *c = new Conn();
  c->id = id;
  C[id] = c;
  owner[id] = id;
  S[id] = new Server();
  S[id]->id = id;
  return c;
}
// blocked in answer() on an open connection that stays silent: legitimate
static bool idle_server(int i) {
  int k = S[i]->in_conn;
  return S[i]->started && !S[i]->ended && S[i]->in_op == 1 && k >= 0 &&
         !C[k]->close_begun && C[k]->transport_done;
}
static bool all_done(bool &stuck, std::string &why) {
  stuck = false;
  bool done = true;
  for (int i = 0; i < N; ++i) {
    if (!C[i]->transport_done) {
      done = false;
      int o = owner[i];
      if (o >= 0 && idle_server(o) && S[o]->in_conn != i)
        continue; // its server chose to wait elsewhere
      stuck = true;
      why += " transport of connection " + std::to_string(i) +
             (C[i]->close_begun ? " is stuck closing it"
              : C[i]->in_deliver ? " waits for a response"
                                 : " is stuck");
    }
    if (!C[i]->failed && !S[i]->ended) {
      done = false;
      if (!idle_server(i)) {
        stuck = true;
        why += " server " + std::to_string(i) +
               (S[i]->started ? " is stuck" : " never started");
      }
    }
  }
  return done;
}
static u32 mark;
void world_ic() {
  configure_schedule();
  std::string f = focus();
  // ---- warm up: lazily initialised statics, not part of any check
  disable_preempt();
  warm = true;
  set_fair(true);
  auto run_phase = [&](bool) {
    // main thread waits until nothing can run
    static WaitQ q;
    static bool done;
    done = false;
    on_quiescent = [] {
      if (done)
        return false;
      done = true;
      wake_all(q);
      return true;
    };
    block(q, "main");
  };
  for (int k = 0; k < 2; ++k) {
    N = 1;
    Conn *c = new_conn(0);
    c->delim = '$';
    c->chunks.push_back({"x$"});
    if (k)
      c->chunks.push_back({"y$"});
    S[0]->ops_left = k ? 1 : 5;
    {
      App a;
      a_start_transport(0);
    }
    run_phase(false);
    bool st;
    std::string why;
    if (!all_done(st, why))
      violate("*", "deadlock",
              "plain session (answer, %s): nothing can run any more:%s",
              k ? "server ends, request, close" : "close", why.c_str());
  }
  // ---- the run proper
  warm = false;
  set_fair(false);
  finished_servers = 0;
  configure_schedule();
  mark = heap_mark();
  N = 1 + weighted({6, 3, 1});
  bool moves_focus = f == "C12";
  cfg_moves = moves_focus ? 6 : weighted({3, 1}) ? 4 : 0;
  if (moves_focus && N == 1)
    N = 1 + choose(3);
  cfg_mail = N > 1 && (moves_focus || flip(1, 2)) ? 4 : 0;
  cfg_throw = flip(1, 6);
  cfg_alloc = flip(1, 5) ? 3 : 0;
  cfg_send = flip(1, 10) ? 4 : 0;
  bool cfail = flip(1, 12);
  int failat = cfail ? (int)choose(4) : -1;
  static int nth = 0;
  nth = 0;
  thread_create_fault = [failat] {
    // transports are created by the harness and never fail: only servers
    ++nth;
    return 0;
  };
  for (int i = 0; i < N; ++i) {
    Conn *c = new_conn(i);
    static const char ds[] = {'$', '\0', '\n', 'a'};
    c->delim = ds[weighted({5, 3, 2, 1})];
    c->arg = 100 + i;
    int nch = f == "C10" ? weighted({2, 4, 2, 1}) : weighted({1, 3, 3, 2, 1, 1});
    for (int k = 0; k < nch; ++k) {
      std::string d;
      int nr = 1 + weighted({6, 3, 2, 1});
      if (flip(1, 15))
        nr = flip(1, 4) ? (int)(flip(1, 8) ? range(256, 300) : range(10, 80)) : 0;
      for (int j = 0; j < nr; ++j) {
        std::string t = rnd_text(4, c->delim, false);
        if (t.empty() && choose(3))
          t = "q";
        d += t;
        if (j + 1 < nr || !flip(1, 4))
          d += c->delim;
      }
      c->chunks.push_back({d});
    }
    c->close_at_end = !flip(1, 14);
    c->close_ok = !flip(1, 3);
    S[i]->ops_left =
        f == "C09" ? (int)choose(4)
                   : (weighted({1, 2}) ? (int)range(0, 6) : (int)range(6, 30));
  }
  for (int i = 0; i < N; ++i) {
    App a;
    a_start_transport(i);
  }
  if (cfail) {
    thread_create_fault = [failat] {
      if (nth++ == failat)
        return EAGAIN;
      return 0;
    };
    nth = 0;
  }
  on_step_cap = [] {
    bool st;
    std::string why;
    all_done(st, why);
    violate("*", "livelock", "no end of the run:%s", why.c_str());
  };
  run_phase(true);
  if (mail.p) { // nobody took it over: end it here
    void *p = mail.p;
    int k = mail.conn;
    mail.p = nullptr;
    hb_acquire(mail_vc);
    C[k]->end_begun = true;
    {
      App a;
      a_drop(p);
    }
    run_phase(true);
  }
  bool stuck;
  std::string why;
  bool done = all_done(stuck, why);
  if (stuck)
    violate("C10 C08 C09 C11 C12", "deadlock", "nothing can run any more:%s",
            why.c_str());
  if (done) {
    bool all_closed = true;
    for (int i = 0; i < N; ++i)
      all_closed &= C[i]->destroyed;
    if (all_closed) {
      count("probe.leak_checked");
      std::string d;
      u64 n = live_since(mark, &d);
      if (n)
        violate("C11", "leak",
                "%llu heap blocks are still allocated after every connection "
                "was closed and every server ended: %s",
                (unsigned long long)n, d.c_str());
    }
  }
  end_run();
}
static World worlds[] = {{"ic", world_ic}};
int main(int argc, char **argv) { return main_entry(argc, argv, worlds, 1); }
