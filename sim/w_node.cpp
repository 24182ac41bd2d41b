// Node.js world: the addon in the real Node.js, on the application side a
// scripted server, on the JavaScript side scripted sockets (EventEmitter).
// Every run is a fork of one warmed-up, single threaded process; decisions
// are events, payloads, faults and the places of garbage collections.
#include "rt.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <node.h>
#include <node_buffer.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
using namespace v8;
using rt::App;
using rt::Guard;
using rt::choose;
using rt::count;
using rt::end_run;
using rt::ev;
using rt::flip;
using rt::is_focus;
using rt::range;
using rt::violate;
using rt::weighted;
extern "C" {
void n_receive(const void *S, int L);
void n_closed(const void *S, int L);
void n_send(const void *S, const char *P, size_t N);
}
#define APP(x)                                                                 \
  ({                                                                           \
    App a_;                                                                    \
    x;                                                                         \
  })
namespace {
typedef std::string str;
Isolate *iso;
Global<Object> driver;
Global<Function> f_sent, f_on, f_hook;

str show(const str &s) {
  str r = std::to_string(s.size()) + ":";
  for (unsigned char c : s.substr(0, 24)) {
    char b[8];
    snprintf(b, sizeof b, c > 32 && c < 127 ? "%c" : "\\%02x", c);
    r += b;
  }
  return r;
}
struct Conn;
struct Listener {
  Conn *c;
  bool closed; // kind
  bool dead = false, failed = false;
  int seen = 0;
};
struct Conn {
  int id;
  Global<Object> socket, obj;
  Global<Function> send, on;
  Global<Object> wsocket, wobj;
  Global<Function> wsend, won;
  std::deque<Global<Value>> wl; // listeners given to on()
  int reg[2] = {0, 0};          // listeners of data, close
  const void *S = nullptr;
  bool started = false, ended = false, broken = false, dropped = false, lossy = false;
  std::vector<int> l[2]; // server's listeners of data, close
  std::deque<str> out;   // given to send(), not yet seen by JavaScript
};
std::deque<Conn> conns;
std::deque<Listener> ls;
struct Event {
  Conn *c;
  int kind; // 0 data 1 close
  bool wrong, flag;
  str bytes;
  std::vector<int> got;
  bool faulty = false;
};
std::vector<Event *> evs;
Conn *starting;
int registering = -1;
bool any_broken;
u32 r_gc, r_api_gc, r_throw, r_onthrow, r_foreign;
int budget;

void gc(const char *where) {
  bool full = weighted({2, 1});
  ev("   gc %s (%s)", full ? "full" : "minor", where);
  count(full ? "fault.gc_full" : "fault.gc_minor");
  APP(iso->RequestGarbageCollectionForTesting(full ? Isolate::kFullGarbageCollection : Isolate::kMinorGarbageCollection));
}
void maybe_gc(const char *where) {
  if (r_gc && flip(1, r_gc))
    gc(where);
}
Local<String> js(const char *s) { return String::NewFromUtf8(iso, s).ToLocalChecked(); }
// Calls a function of the driver.
MaybeLocal<Value> drv(const char *name, std::vector<Local<Value>> a) {
  Local<Context> ctx = iso->GetCurrentContext();
  Local<Object> d = driver.Get(iso);
  Local<Function> f = d->Get(ctx, js(name)).ToLocalChecked().As<Function>();
  int n = (int)a.size();
  Local<Value> *p = a.data();
  return APP(f->Call(ctx, d, n, p));
}
str gen_bytes(bool utf8) {
  u32 n = weighted({8, 5, 2, 1});
  n = n == 0 ? choose(12) : n == 1 ? 12 + choose(60) : n == 2 ? 0 : 1000 + choose(80000);
  str s;
  u32 style = choose(3);
  while (s.size() < n) {
    if (style == 0 || n > 200)
      s += (char)('a' + (n > 200 ? s.size() % 26 : choose(26)));
    else if (style == 1 && utf8) {
      static const char *w[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n", "\"", "\x7f", "\xef\xbb\xbf"};
      u32 k = choose(9);
      s += k == 8 ? str(1, 0) : str(w[k]);
    } else
      s += (char)choose(utf8 ? 128 : 256);
  }
  return s;
}
void server_send(Conn *c) {
  str m = gen_bytes(true);
  c->out.push_back(m);
  ev("   server sends on %d %s", c->id, show(m).c_str());
  count("sim.messages_sent");
  const char *p = m.data();
  size_t n = m.size();
  const void *S = c->S;
  APP(n_send(S, p, n));
}
void server_listen(Conn *c, bool closed) {
  ls.push_back({c, closed});
  int i = (int)ls.size() - 1;
  c->l[closed].push_back(i);
  ev("   server registers %s listener %d on %d", closed ? "close" : "data", i, c->id);
  count("sim.listeners");
  const void *S = c->S;
  int before = registering;
  registering = i;
  if (closed)
    APP(n_closed(S, i));
  else
    APP(n_receive(S, i));
  registering = before;
}
void server_acts(Conn *c, const char *where) {
  u32 n = choose(3);
  for (u32 i = 0; i < n; ++i)
    switch (weighted({6, 1, 1, 2})) {
    case 0:
      server_send(c);
      break;
    case 1:
      server_listen(c, false);
      break;
    case 2:
      server_listen(c, true);
      break;
    case 3:
      maybe_gc(where);
      break;
    }
}
void sent_check(Conn *c, const char *where) {
  if (!c->out.empty() && !c->lossy)
    violate("C21", "not-sent", "%zu messages of connection %d did not reach JavaScript (%s)", c->out.size(), c->id, where);
  c->out.clear();
  c->lossy = false;
}
bool emit(Conn *c, Event &e, Local<Value> *arg);
void data_event(Conn *c);
// JavaScript's send function.
void js_sent(const FunctionCallbackInfo<Value> &A) {
  Guard g;
  HandleScope hs(iso);
  int id = A[0]->Int32Value(iso->GetCurrentContext()).FromJust();
  Conn *c = &conns[id];
  str m;
  if (A[1]->IsString()) {
    String::Utf8Value v(iso, A[1]);
    m.assign(*v, v.length());
  } else if (A[1]->IsUint8Array()) {
    auto u = A[1].As<Uint8Array>();
    m.resize(u->ByteLength());
    u->CopyContents(&m[0], m.size());
  } else
    violate("C21", "sent-type", "connection %d sends a value which is no text", id);
  ev("   JavaScript sends on %d %s", id, show(m).c_str());
  size_t k = 0;
  if (c->lossy)
    while (k < c->out.size() && c->out[k] != m)
      ++k;
  if (k >= c->out.size() || c->out[k] != m)
    violate("C21", "sent-wrong", "connection %d sends %s instead of %s", id, show(m).c_str(),
            c->out.empty() ? "nothing" : show(c->out[0]).c_str());
  c->out.erase(c->out.begin(), c->out.begin() + k + 1);
  maybe_gc("send");
  if (r_throw && flip(1, r_throw)) {
    count("fault.send_throws");
    ev("   send throws");
    c->lossy = true;
    for (auto *e : evs)
      e->faulty = true;
    iso->ThrowException(Exception::Error(js("send failed")));
    return;
  }
  // the other end answers at once, on another connection
  if (evs.size() < 2 && budget > 0 && choose(12) == 11) {
    --budget;
    Conn *o = &conns[choose((u32)conns.size())];
    for (auto *e : evs)
      if (e->c == o)
        return;
    if (o != c && o->started && !o->ended && !o->broken)
      data_event(o);
  }
}
void js_on(const FunctionCallbackInfo<Value> &A) {
  Guard g;
  HandleScope hs(iso);
  int id = A[0]->Int32Value(iso->GetCurrentContext()).FromJust();
  Conn *c = &conns[id];
  A.GetReturnValue().Set(true);
  if (!A[1]->IsString()) {
    maybe_gc("on");
    return;
  }
  String::Utf8Value v(iso, A[1]);
  str n(*v, v.length());
  if (!A[2]->IsFunction())
    violate("C21", "on-type", "what is registered for %s is no function", n.c_str());
  if (n != "data" && n != "close")
    count("probe.other_events");
  ev("   JavaScript registers a listener of %s on %d", n.c_str(), id);
  if (r_onthrow && flip(1, r_onthrow)) {
    count("fault.on_throws");
    ev("   on throws");
    c->broken = any_broken = true;
    c->lossy = true;
    for (auto *e : evs)
      e->faulty = true;
    if (registering >= 0)
      ls[registering].failed = true;
    iso->ThrowException(Exception::Error(js("on failed")));
    return;
  }
  if (n == "data" || n == "close")
    ++c->reg[n == "close"];
  c->wl.emplace_back(iso, A[2]);
  c->wl.back().SetWeak();
  if (r_foreign && flip(1, r_foreign)) {
    count("sim.foreign_listeners");
    drv("foreign", {c->socket.Get(iso), A[1], f_hook.Get(iso)}).IsEmpty();
  }
}
void js_hook(const FunctionCallbackInfo<Value> &) {
  Guard g;
  ev("   another listener runs");
  maybe_gc("another listener");
}
bool emit(Conn *c, Event &e, Local<Value> *arg) {
  HandleScope hs(iso);
  TryCatch tc(iso);
  evs.push_back(&e);
  std::vector<Local<Value>> a = {c->socket.Get(iso), js(e.kind ? "close" : "data")};
  if (arg)
    a.push_back(*arg);
  bool thrown = drv("emit", a).IsEmpty();
  evs.pop_back();
  // Node.js runs microtasks when an event has been delivered
  if (evs.empty())
    APP(iso->PerformMicrotaskCheckpoint());
  if (thrown) {
    String::Utf8Value m(iso, tc.Exception());
    ev("   raised: %s", *m ? *m : "?");
    count("probe.exceptions_raised");
  }
  return thrown;
}
void check_got(Conn *c, Event &e, size_t before) {
  size_t k = 0;
  auto &l = c->l[e.kind];
  for (size_t i = 0; i < before; ++i) {
    if (k < e.got.size() && e.got[k] == l[i]) {
      ++k;
      continue;
    }
    if (!e.faulty && !ls[l[i]].failed)
      violate(e.kind ? "C21 C22" : "C21", "missed", "listener %d of connection %d was not told of the %s event", l[i], c->id,
              e.kind ? "close" : "data");
  }
}
void data_event(Conn *c) {
  HandleScope hs(iso);
  Event e;
  e.c = c;
  e.kind = 0;
  e.wrong = false;
  e.bytes = gen_bytes(false);
  size_t off = choose(3) == 1 ? 1 + choose(9) : 0, tail = off ? choose(9) : 0;
  Local<Value> v;
  if (off || choose(2)) {
    auto ab = ArrayBuffer::New(iso, off + e.bytes.size() + tail);
    memset(ab->Data(), '#', off + e.bytes.size() + tail);
    memcpy((char *)ab->Data() + off, e.bytes.data(), e.bytes.size());
    v = Uint8Array::New(ab, off, e.bytes.size());
  } else
    v = node::Buffer::Copy(iso, e.bytes.data(), e.bytes.size()).ToLocalChecked();
  ev("data event on %d %s", c->id, show(e.bytes).c_str());
  count("sim.data_events");
  size_t before = c->l[0].size();
  bool thrown = emit(c, e, &v);
  if (thrown && !e.faulty && !c->broken)
    violate("C21", "raised", "a correct data event raises an exception on connection %d", c->id);
  check_got(c, e, before);
  sent_check(c, "data event");
}
void wrong_event(Conn *c, int kind) {
  HandleScope hs(iso);
  Event e;
  e.c = c;
  e.kind = kind;
  e.wrong = true;
  int k = (int)choose(13);
  ev("wrong %s event on %d (%d)", kind ? "close" : "data", c->id, k);
  count("fault.wrong_type");
  Local<Value> v;
  bool none = k == 0 && choose(2);
  if (!none)
    v = drv("bad", {Integer::New(iso, k)}).ToLocalChecked();
  int reg = c->reg[kind];
  bool thrown = emit(c, e, none ? nullptr : &v);
  if (reg && !thrown)
    violate("C21", "accepted", "a %s event of a wrong type raises no exception on connection %d", kind ? "close" : "data", c->id);
}
void close_event(Conn *c) {
  HandleScope hs(iso);
  Event e;
  e.c = c;
  e.kind = 1;
  e.wrong = false;
  e.flag = choose(2);
  ev("close event on %d (%d)", c->id, e.flag);
  count("sim.close_events");
  Local<Value> v = Boolean::New(iso, e.flag);
  size_t before = c->l[1].size();
  bool thrown = emit(c, e, &v);
  if (thrown && !e.faulty && !c->broken)
    violate("C21", "raised", "a correct close event raises an exception on connection %d", c->id);
  check_got(c, e, before);
  c->ended = true;
  sent_check(c, "close event");
}
void start(Conn *c) {
  HandleScope hs(iso);
  ev("start %d", c->id);
  TryCatch tc(iso);
  starting = c;
  bool thrown = drv("start", {c->obj.Get(iso)}).IsEmpty();
  starting = nullptr;
  if (thrown && !c->broken && !c->lossy)
    violate("C21", "start-raised", "startServer raises an exception on connection %d", c->id);
  if (!c->S && !c->broken)
    violate("C21", "not-started", "the server of connection %d is not created", c->id);
  c->started = true;
  sent_check(c, "start");
}
void drop(Conn *c) {
  ev("JavaScript drops connection %d", c->id);
  c->obj.Reset();
}
void create() {
  HandleScope hs(iso);
  Local<Context> ctx = iso->GetCurrentContext();
  conns.emplace_back();
  Conn *c = &conns.back();
  c->id = (int)conns.size() - 1;
  auto a = drv("make", {Integer::New(iso, c->id), f_sent.Get(iso), f_on.Get(iso)}).ToLocalChecked().As<Array>();
  auto sock = a->Get(ctx, 0).ToLocalChecked().As<Object>();
  auto send = a->Get(ctx, 1).ToLocalChecked().As<Function>(), on = a->Get(ctx, 2).ToLocalChecked().As<Function>();
  c->socket.Reset(iso, sock);
  c->wsocket.Reset(iso, sock);
  c->wsocket.SetWeak();
  c->wsend.Reset(iso, send);
  c->wsend.SetWeak();
  c->won.Reset(iso, on);
  c->won.SetWeak();
  Local<Value> how = Undefined(iso);
  if (c->id && choose(4) == 1)
    for (auto &o : conns)
      if (!o.obj.IsEmpty()) {
        how = o.obj.Get(iso)->Get(ctx, js("constructor")).ToLocalChecked();
        break;
      }
  TryCatch tc(iso);
  bool plain = how->IsFunction() && choose(3) == 1;
  ev("connection %d is created%s", c->id, plain ? " by a call of the constructor" : how->IsFunction() ? " by new" : "");
  count("sim.connections");
  auto r = drv("create", {how, send, on, Boolean::New(iso, plain)});
  Local<Value> o;
  if (!r.ToLocal(&o) || !o->IsObject())
    violate("C21", "connect-raised", "connect() fails");
  c->obj.Reset(iso, o.As<Object>());
  c->wobj.Reset(iso, o.As<Object>());
  c->wobj.SetWeak();
}
void wrong_call() {
  HandleScope hs(iso);
  TryCatch tc(iso);
  int k = (int)choose(8);
  count("fault.wrong_call");
  std::vector<Conn *> have;
  for (auto &c : conns)
    if (!c.obj.IsEmpty())
      have.push_back(&c);
  bool st = choose(3) == 1 && !have.empty();
  ev("wrong %s (%d)", st ? "start" : "connect", k);
  if (st) {
    if (!drv("badStart", {Integer::New(iso, k & 3), have[choose((u32)have.size())]->obj.Get(iso)}).IsEmpty())
      violate("C21", "accepted", "startServer() of something else raises no exception");
    return;
  }
  auto f = Function::New(iso->GetCurrentContext(), js_hook).ToLocalChecked();
  Local<Value> of = Undefined(iso);
  if (!have.empty() && choose(2))
    of = have[choose((u32)have.size())]->obj.Get(iso);
  if (!drv("badCreate", {Integer::New(iso, k), f, f, of}).IsEmpty())
    violate("C21", "accepted", "connect() with wrong arguments raises no exception (%d)", k);
}
void finish() {
  ev("end of the run");
  u32 saved = r_onthrow;
  r_onthrow = 0;
  r_throw = 0;
  for (auto &c : conns) {
    if (!c.started)
      start(&c);
    if (!c.ended)
      close_event(&c);
  }
  (void)saved;
  for (auto &c : conns) {
    c.obj.Reset();
    c.socket.Reset();
  }
  auto dead = [&] {
    for (auto &c : conns)
      if (!c.broken) {
        if (!c.wobj.IsEmpty() || !c.wsocket.IsEmpty() || !c.wsend.IsEmpty() || !c.won.IsEmpty())
          return false;
        for (auto &l : c.wl)
          if (!l.IsEmpty())
            return false;
      }
    return rt::heap().live_blocks == 0 || any_broken;
  };
  for (int i = 0; i < 6 && !dead(); ++i)
    APP(iso->RequestGarbageCollectionForTesting(Isolate::kFullGarbageCollection));
  for (auto &c : conns) {
    if (c.broken)
      continue;
    if (!c.wobj.IsEmpty())
      violate("C22", "kept", "connection %d is never released", c.id);
    if (!c.wsend.IsEmpty() || !c.won.IsEmpty())
      violate("C22", "kept", "the functions given to connect() for connection %d are never released", c.id);
    int n = 0;
    for (auto &l : c.wl)
      n += !l.IsEmpty();
    if (n)
      violate("C22", "kept", "%d listener functions of connection %d are never released", n, c.id);
    if (!c.wsocket.IsEmpty())
      violate("C22", "kept", "the socket of connection %d is never released", c.id);
    for (int k = 0; k < 2; ++k)
      for (int l : c.l[k])
        if (!ls[l].dead)
          violate("C22", "kept", "listener %d of connection %d is never released", l, c.id);
  }
  str d;
  if (!any_broken && rt::live_since(0, &d))
    violate("C21 C22", "leak", "memory is never released: %s", d.c_str());
  end_run();
}
void world_node() {
  Guard g;
  HandleScope hs(iso);
  Isolate::AllowJavascriptExecutionScope allow(iso);
  static const u32 gcs[] = {0, 2, 5, 12};
  r_gc = gcs[is_focus("C22") ? weighted({1, 3, 4, 3}) : weighted({4, 1, 2, 2})];
  r_api_gc = is_focus("C22") ? (choose(3) == 1 ? 4 + choose(20) : 0) : choose(8) == 1 ? 10 + choose(20) : 0;
  r_throw = is_focus("C21") ? (weighted({2, 1}) ? 2 + choose(8) : 0) : weighted({5, 1}) ? 3 + choose(8) : 0;
  r_onthrow = weighted({14, 1}) ? 2 + choose(6) : 0;
  r_foreign = choose(3) == 1 ? 2 + choose(3) : 0;
  bool wrong = weighted({3, 2});
  budget = 6;
  int steps = (int)range(3, 24);
  u32 maxc = 1 + choose(4);
  for (int s = 0; s < steps; ++s) {
    rt::now += 1000000;
    std::vector<Conn *> open, idle, all;
    for (auto &c : conns) {
      if (c.ended || c.broken)
        continue;
      (c.started ? open : idle).push_back(&c);
    }
    if (conns.empty() || (conns.size() < maxc && choose(6) == 1)) {
      create();
      continue;
    }
    auto pick = [](std::vector<Conn *> &v) { return v[choose((u32)v.size())]; };
    switch (weighted({2, 10, 2, 3, 3, (u32)(wrong ? 2 : 0), (u32)(wrong ? 1 : 0), 2})) {
    case 0:
      if (!idle.empty())
        start(pick(idle));
      break;
    case 1:
      if (!open.empty())
        data_event(pick(open));
      else if (!idle.empty())
        start(pick(idle));
      break;
    case 2:
      if (!open.empty())
        close_event(pick(open));
      break;
    case 3: {
      for (auto &c : conns)
        if (!c.obj.IsEmpty() && (c.started || choose(8) == 7) && choose(2)) {
          // one which was never started stays reachable for the end of the run
          if (c.started)
            drop(&c);
          break;
        }
      break;
    }
    case 4:
      maybe_gc("between events");
      break;
    case 5:
      if (!open.empty())
        wrong_event(pick(open), (int)choose(2));
      break;
    case 6:
      wrong_call();
      break;
    case 7:
      if (!open.empty()) {
        // the server sends on its own
        Conn *c = pick(open);
        HandleScope hs(iso);
        TryCatch tc(iso);
        server_send(c);
        if (choose(4) == 1)
          server_listen(c, choose(2));
        sent_check(c, "own initiative");
      }
      break;
    }
    for (auto &c : conns)
      if (c.ended && !c.dropped && choose(3) == 1) {
        ev("the socket of %d is dropped", c.id);
        c.socket.Reset();
        c.dropped = true;
      }
  }
  finish();
}
rt::World worlds[] = {{"node", world_node}};
}
extern "C" {
void nx_server(const void *S) {
  Guard g;
  Conn *c = starting;
  if (!c)
    violate("C21", "second-server", "a server is created although none was started");
  if (c->S)
    violate("C21", "second-server", "connection %d got two servers", c->id);
  c->S = S;
  HandleScope hs(iso);
  u32 nd = weighted({4, 3, 2, 1}) + 1, nc = weighted({4, 3, 2, 1, 1});
  nc = nc == 0 ? 1 : nc == 4 ? 0 : nc;
  u32 sends = choose(4) == 1 ? 1 + choose(2) : 0;
  while (nd || nc || sends) {
    u32 k = choose(3);
    if (k == 0 && nd)
      --nd, server_listen(c, false);
    else if (k == 1 && nc)
      --nc, server_listen(c, true);
    else if (k == 2 && sends)
      --sends, server_send(c);
    else if (nd)
      --nd, server_listen(c, false);
    else if (nc)
      --nc, server_listen(c, true);
    else
      --sends, server_send(c);
    maybe_gc("server start");
  }
}
static Event *told(int i, bool closed) {
  Listener &l = ls[i];
  if (evs.empty())
    violate("C21", "no-event", "listener %d is called without an event", i);
  Event *e = evs.back();
  if (e->c != l.c)
    violate("C21", "wrong-connection", "listener %d of connection %d is told of connection %d", i, l.c->id, e->c->id);
  if (e->kind != closed)
    violate("C21", "wrong-event", "listener %d is told of another event", i);
  if (e->wrong)
    violate("C21", "wrong-type", "an event of a wrong type reaches listener %d", i);
  for (int k : e->got)
    if (k == i)
      violate("C21", "twice", "listener %d is told twice of one event", i);
    else if (k > i)
      violate("C21", "order", "listener %d is told after listener %d", i, k);
  return e;
}
void nx_data(int i, const char *p, size_t n) {
  Guard g;
  bool again = i < 0;
  if (again)
    i = -1 - i;
  rt::check_range(p, n, false, "received data");
  Event *e = again ? evs.back() : told(i, false);
  if (n != e->bytes.size() || memcmp(p, e->bytes.data(), n))
    violate("C21", again ? "data-changed" : "data", "listener %d is given %s instead of %s", i, show(str(p, n)).c_str(),
            show(e->bytes).c_str());
  if (again)
    return;
  e->got.push_back(i);
  ev("   listener %d gets it", i);
  HandleScope hs(iso);
  maybe_gc("data listener");
  server_acts(ls[i].c, "data listener");
}
void nx_closed(int i, int flag) {
  Guard g;
  if (i < 0)
    return;
  Event *e = told(i, true);
  if (ls[i].seen++)
    violate("C21", "closed-twice", "listener %d is told twice that the socket is closed", i);
  if (flag != e->flag)
    violate("C21", "flag", "listener %d is given %d as had_error", i, flag);
  e->got.push_back(i);
  ev("   listener %d is told of the close", i);
  HandleScope hs(iso);
  maybe_gc("close listener");
  if (choose(4) == 1 && !ls[i].c->obj.IsEmpty())
    drop(ls[i].c);
}
void nx_dead(int i) {
  Guard g;
  Listener &l = ls[i];
  if (l.dead)
    violate("C22", "released-twice", "listener %d is released twice", i);
  l.dead = true;
  if (!l.c->ended && !l.c->broken)
    violate("C22", "released-early", "listener %d of connection %d is released before the close event has been delivered", i, l.c->id);
}
// Called in front of the functions of V8 the addon calls.
void nx_api(const char *name, u64 *r) {
  if (rt::in_rt > 0 || !rt::cur())
    return;
  Guard g;
  if (!strcmp(name, "_ZN2v815ArrayBufferView12CopyContentsEPvm"))
    rt::check_range((void *)r[4], r[3], true, "copied contents");
  if (!strcmp(name, "_ZN2v86String11NewFromUtf8EPNS_7IsolateEPKcNS_13NewStringTypeEi")) {
    if ((int)r[2] >= 0)
      rt::check_range((void *)r[4], (int)r[2], false, "text of a string");
    else if (rt::in_arena((void *)r[4]))
      for (const char *p = (const char *)r[4];; ++p) {
        rt::check_bounds(p, 1, "text of a string");
        if (!*p)
          break;
      }
  }
  if (r_api_gc && flip(1, r_api_gc))
    gc("call of V8");
}
// rdi rsi rdx rcx r8 r9 are r[5] r[4] r[3] r[2] r[1] r[0]
#define TRAMP(sym)                                                             \
  asm(".text\n.globl __wrap_" sym "\n.type __wrap_" sym ",@function\n__wrap_" sym ":\n"    \
      "push %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\nsub $8,%rsp\n"    \
      "lea 1f(%rip),%rdi\nlea 8(%rsp),%rsi\ncall nx_api@PLT\n"                 \
      "add $8,%rsp\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\n" \
      "jmp __real_" sym "@PLT\n.section .rodata\n1: .string \"" sym "\"\n.text\n");
TRAMP("_ZN2v86String11NewFromUtf8EPNS_7IsolateEPKcNS_13NewStringTypeEi")
TRAMP("_ZN2v815ArrayBufferView12CopyContentsEPvm")
TRAMP("_ZN2v88External3NewEPNS_7IsolateEPv")
TRAMP("_ZN2v88Function4CallENS_5LocalINS_7ContextEEENS1_INS_5ValueEEEiPS5_")
TRAMP("_ZN2v816FunctionTemplate11GetFunctionENS_5LocalINS_7ContextEEE")
TRAMP("_ZN2v87Isolate14ThrowExceptionENS_5LocalINS_5ValueEEE")
TRAMP("_ZNK2v88Function11NewInstanceENS_5LocalINS_7ContextEEEiPNS1_INS_5ValueEEE")
__attribute__((visibility("default"))) void sim_node_main(const FunctionCallbackInfo<Value> &A) {
  iso = A.GetIsolate();
  HandleScope hs(iso);
  Local<Context> ctx = iso->GetCurrentContext();
  driver.Reset(iso, A[1].As<Object>());
  f_sent.Reset(iso, Function::New(ctx, js_sent).ToLocalChecked());
  f_on.Reset(iso, Function::New(ctx, js_on).ToLocalChecked());
  f_hook.Reset(iso, Function::New(ctx, js_hook).ToLocalChecked());
  static std::vector<str> args;
  auto a = A[2].As<Array>();
  for (u32 i = 0; i < a->Length(); ++i)
    args.push_back(*String::Utf8Value(iso, a->Get(ctx, i).ToLocalChecked()));
  static std::vector<char *> argv;
  for (auto &s : args)
    argv.push_back(&s[0]);
  argv.push_back(nullptr);
  // the first collections differ from later ones: warm up
  for (int i = 0; i < 3; ++i)
    iso->RequestGarbageCollectionForTesting(Isolate::kFullGarbageCollection);
  // V8 keeps its pages from forked processes; a run is a forked process
  if (FILE *f = fopen("/proc/self/maps", "r")) {
    char line[512];
    unsigned long b, e;
    while (fgets(line, sizeof line, f))
      if (sscanf(line, "%lx-%lx", &b, &e) == 2 && !strstr(line, "[v"))
        madvise((void *)b, e - b, MADV_DOFORK);
    fclose(f);
  }
  int rc = rt::main_entry((int)args.size(), argv.data(), worlds, 1);
  fflush(nullptr);
  _exit(rc);
}
}
