#include "kernel.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace rt;

extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
}
namespace k {
Faults faults;
bool faults_on = true;
size_t window = 1 << 20;
int fd_limit = 1 << 16;
bool time_wait = false;
int next_port = 49152;
std::vector<Conn *> conns;
Listener *lst = nullptr;
bool several = false;
std::map<int, Listener *> lst_of;
std::map<int, int> failed_of, names_of;
static std::vector<Listener *> all_lst;
int open_conns = 0, accept_failures = 0, accept_eintr = 0;
std::vector<std::string> calls;
std::map<std::string, u32> hosts;
int startup_failed = 0;
bool bound_ok = false;
u32 bind_addr = 0;
int bind_port = -1;
std::function<void(Conn *)> on_accept, on_close;
std::function<void(Conn *, const char *)> on_io;
bool all_props = false;
std::function<void(Conn *, const char *)> on_after_close;

bool FD0_late = false;
int FD0 = 100; // the first number for descriptors of the simulated process
struct Desc {
  int kind = 0; // 1 socket/listener 2 connection
  Listener *l = nullptr;
  Conn *c = nullptr;
  bool nonblock = false;
};
static std::map<int, Desc> fds;
static std::map<int, int> ever; // fd -> times closed
static bool sigpipe_ignored = false;
static std::map<int, bool> sigpipe_blocked;

std::string ip(u32 a) {
  char b[32];
  snprintf(b, sizeof b, "%u.%u.%u.%u", a >> 24, (a >> 16) & 255, (a >> 8) & 255,
           a & 255);
  return b;
}
static int lowest_fd() {
  int f = FD0;
  // the process' own first descriptor, closed by the application later on
  if (FD0_late && !ever.count(FD0 + 1) && !fds.count(FD0 + 1))
    ++f;
  while (fds.count(f))
    ++f;
  return f - FD0 >= fd_limit ? -1 : f;
}
static WaitQ pollq; // threads in poll() or select()
static void kick(WaitQ &q) {
  wake_all(q);
  wake_all(pollq);
}
static bool hit(u32 one_in) {
  return faults_on && one_in && flip(1, one_in);
}
static Desc *get(int fd, const char *call) {
  auto i = fds.find(fd);
  if (i == fds.end()) {
    violate(P("C03 C05"), ever.count(fd) ? "use-after-close" : "bad-descriptor",
            "%s on descriptor %d, which is %s", call, fd - FD0,
            ever.count(fd) ? "already closed" : "not open");
  }
  return &i->second;
}
Conn *connect(u32 addr, int port) {
  Conn *c = new Conn();
  c->id = (int)conns.size();
  c->peer_addr = addr;
  c->peer_port = port;
  c->arrived_at = now;
  conns.push_back(c);
  if (!lst || !lst->listening || lst->closed) {
    c->aborted = true;
    ev("client %d: connection refused", c->id);
    return c;
  }
  c->pending = true;
  c->lis = lst;
  c->local_addr = lst->addr ? lst->addr : 0x0a000001;
  c->local_port = lst->port;
  lst->pending.push_back(c);
  ev("client %d connects from %s:%d", c->id, ip(addr).c_str(), port);
  kick(lst->q);
  return c;
}
void client_send(Conn *c, const std::string &d) {
  if (c->aborted || c->rst || c->fin_in)
    return;
  if (c->closed) { // the server is gone: it answers with a reset
    c->rst = true;
    return;
  }
  c->in += d;
  ev("client %d sends %zu bytes", c->id, d.size());
  kick(c->rq);
}
void client_fin(Conn *c) {
  if (c->aborted || c->rst || c->fin_in)
    return;
  c->fin_in = true;
  ev("client %d: end of stream", c->id);
  kick(c->rq);
}
void client_rst(Conn *c) {
  if (c->aborted || c->rst)
    return;
  c->rst = true;
  c->so_error = ECONNRESET;
  c->in.clear();
  ev("client %d: reset", c->id);
  count("fault.client_reset");
  if (c->pending)
    count("fault.reset_before_accept");
  kick(c->rq);
  kick(c->wq);
}
size_t client_drain(Conn *c, size_t n) {
  size_t m = std::min(n, c->out.size() - c->drained);
  c->drained += m;
  if (m)
    kick(c->wq);
  return m;
}
static int fail(int e) {
  errno = e;
  return -1;
}
static void put_addr(struct sockaddr *a, socklen_t *l, u32 addr, int port) {
  if (!a || !l)
    return;
  struct sockaddr_in s;
  memset(&s, 0, sizeof s);
  s.sin_family = AF_INET;
  s.sin_addr.s_addr = htonl(addr);
  s.sin_port = htons(port);
  socklen_t n = std::min<socklen_t>(*l, sizeof s);
  check_bounds(a, n, "address result");
  memcpy(a, &s, n);
  *l = sizeof s;
}
static bool startup_fault(int step) {
  if (faults.startup == step && !startup_failed) {
    startup_failed = step;
    failed_of[cur_id()] = step;
    count("fault.startup");
    return true;
  }
  return false;
}
static ssize_t do_recv(int fd, void *buf, size_t n, int flags) {
  Guard g;
  yield("recv");
  Desc *d = get(fd, "recv");
  if (d->kind != 2)
    return fail(ENOTCONN);
  Conn *c = d->c;
  if (on_io)
    on_io(c, "recv");
  check_bounds(buf, n, "receive buffer");
  if (n == 0)
    return 0;
  bool nb = d->nonblock || (flags & MSG_DONTWAIT);
  if (flags & MSG_OOB) { // no client sends urgent data
    ev("conn %d: recv asks for urgent data", c->id);
    return fail(EINVAL);
  }
  if (hit(faults.eintr_recv)) {
    count("fault.eintr_recv");
    ev("conn %d: recv interrupted", c->id);
    return fail(EINTR);
  }
  for (;;) {
    if (c->so_error) {
      int e = c->so_error;
      c->so_error = 0;
      ++c->recv_errors;
      ev("conn %d: recv fails (%d)", c->id, e);
      return fail(e);
    }
    if (c->hostile && !c->eof_seen && hit(faults.recv_err)) {
      static const int es[] = {ETIMEDOUT, ENOMEM, EHOSTUNREACH, EIO};
      int e = es[choose(4)];
      if (e == ETIMEDOUT || e == EHOSTUNREACH)
        c->rst = true, c->in.clear();
      ++c->recv_errors;
      count("fault.recv_error");
      ev("conn %d: recv fails (%d)", c->id, e);
      return fail(e);
    }
    if (!c->in.empty() && (!(flags & MSG_WAITALL) || c->in.size() >= n ||
                           c->rst || c->fin_in || c->closed || nb)) {
      size_t m = std::min(n, c->in.size());
      if (m > 1 && hit(faults.short_recv)) {
        count("fault.short_recv");
        m = 1 + (choose(3) == 0 ? 0 : choose((u32)std::min<size_t>(m, 4096) - 1));
      }
      check_range(buf, m, true, "recv writes");
      memcpy(buf, c->in.data(), m);
      if (!(flags & MSG_PEEK)) {
        c->recv_log.append(c->in, 0, m);
        c->in.erase(0, m);
        ++c->recv_calls;
      }
      ev("conn %d: recv %zu bytes", c->id, m);
      return (ssize_t)m;
    }
    if (c->rst || c->fin_in || c->closed) {
      c->eof_seen = true;
      ev("conn %d: recv end of stream", c->id);
      return 0;
    }
    if (nb)
      return fail(EAGAIN);
    if (!c->rcv_timeo)
      block(c->rq, "recv");
    else if (!block(c->rq, "recv", now + c->rcv_timeo))
      return fail(EAGAIN);
  }
}
static ssize_t broken_pipe(Conn *c, int flags) {
  ++c->send_errors;
  ev("conn %d: send fails (EPIPE)", c->id);
  if (!(flags & MSG_NOSIGNAL) && !sigpipe_ignored &&
      !sigpipe_blocked[cur_id()])
    violate(P("C05 C02"), "sigpipe",
            "connection %d: SIGPIPE kills the server: its client has gone and "
            "data are sent to it",
            c->id);
  count("fault.epipe");
  return fail(EPIPE);
}
static ssize_t do_send(int fd, const void *buf, size_t n, int flags) {
  Guard g;
  yield("send");
  Desc *d = get(fd, "send");
  if (d->kind != 2)
    return fail(ENOTCONN);
  Conn *c = d->c;
  if (on_io)
    on_io(c, "send");
  check_range(buf, n, false, "send reads");
  bool nb = d->nonblock || (flags & MSG_DONTWAIT);
  size_t done = 0;
  if (hit(faults.eintr_send)) {
    count("fault.eintr_send");
    ev("conn %d: send interrupted", c->id);
    return fail(EINTR);
  }
  if (c->hostile && hit(faults.send_err)) {
    static const int es[] = {ENOBUFS, ENOMEM, ETIMEDOUT};
    int e = es[choose(3)];
    if (e == ETIMEDOUT)
      c->rst = true, c->in.clear();
    ++c->send_errors;
    count("fault.send_error");
    ev("conn %d: send fails (%d)", c->id, e);
    return fail(e);
  }
  // a signal may stop the call after part of the data
  size_t stop = n;
  if (n > 1 && hit(faults.short_send)) {
    stop = 1 + choose((u32)std::min<size_t>(n, 4096) - 1);
    count("fault.short_send");
  }
  for (;;) {
    if (c->so_error) {
      if (done)
        break;
      int e = c->so_error;
      c->so_error = 0;
      ++c->send_errors;
      ev("conn %d: send fails (%d)", c->id, e);
      return fail(e);
    }
    if (c->rst || c->out_fin) {
      if (done)
        break;
      return broken_pipe(c, flags);
    }
    size_t room = window - std::min(window, c->out.size() - c->drained);
    size_t m = std::min(room, stop - done);
    if (m || n == 0) {
      c->out.append((const char *)buf + done, m);
      done += m;
      // the last byte of urgent data is not part of the stream
      if ((flags & MSG_OOB) && m && done == n)
        c->out.pop_back();
      if (c->peer_gone && m) { // provokes a reset
        c->rst = true;
        count("fault.reset_by_data");
        kick(c->rq);
      }
      if (c->on_out)
        c->on_out();
      if (done == stop)
        break;
      continue;
    }
    if (nb) {
      if (done)
        break;
      return fail(EAGAIN);
    }
    count("probe.send_blocks");
    if (!c->snd_timeo)
      block(c->wq, "send");
    else if (!block(c->wq, "send", now + c->snd_timeo)) {
      if (done)
        break;
      return fail(EAGAIN);
    }
    check_range((const char *)buf + done, n - done, false, "send reads");
  }
  ev("conn %d: send %zu of %zu bytes", c->id, done, n);
  return (ssize_t)done;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  Guard g;
  yield("accept");
  Desc *d = get(fd, "accept");
  if (d->kind != 1 || !d->l->listening)
    return fail(EINVAL);
  Listener *L = d->l;
  if (hit(faults.eintr_accept)) {
    ++accept_eintr;
    ++L->eintr;
    count("fault.eintr_accept");
    ev("accept interrupted");
    return fail(EINTR);
  }
  for (;;) {
    if (lowest_fd() < 0) {
      ++accept_failures;
      ++L->failed;
      count("fault.emfile");
      now += 50000000; // the process spins, time passes
      spin_hint(150);
      if (accept_failures < 50)
        ev("accept fails (EMFILE)");
      return fail(EMFILE);
    }
    if (!L->pending.empty()) {
      if (hit(faults.accept_err)) {
        static const int es[] = {ENFILE, ENOBUFS, ENOMEM, EPERM, EPROTO};
        int e = es[choose(5)];
        ++accept_failures;
        ++L->failed;
        count("fault.accept_error");
        ev("accept fails (%d)", e);
        return fail(e);
      }
      Conn *c = L->pending.front();
      if ((c->hostile && hit(faults.accept_abort))) {
        L->pending.erase(L->pending.begin());
        c->pending = false;
        c->aborted = true;
        ++accept_failures;
        ++L->failed;
        count("fault.accept_aborted");
        ev("accept fails (ECONNABORTED), client %d is gone", c->id);
        if (c->on_fate)
          c->on_fate();
        return fail(ECONNABORTED);
      }
      L->pending.erase(L->pending.begin());
      c->pending = false;
      c->accepted = true;
      c->accepted_at = now;
      c->fd = lowest_fd();
      static int no = 0;
      c->accept_no = no++;
      c->accept_tid = cur_id();
      Desc nd;
      nd.kind = 2;
      nd.c = c;
      nd.nonblock = fl & SOCK_NONBLOCK;
      c->rcv_timeo = L->rcv_timeo;
      c->snd_timeo = L->snd_timeo;
      c->linger0 = L->linger0;
      fds[c->fd] = nd;
      if (ever.count(c->fd))
        count("probe.fd_reused");
      ++open_conns;
      ++L->open;
      probe_max("probe.max_open_connections", open_conns);
      put_addr(a, l, c->peer_addr, c->peer_port);
      ev("accept: connection %d of client %s:%d, descriptor %d", c->id,
         ip(c->peer_addr).c_str(), c->peer_port, c->fd - FD0);
      count("sim.connections");
      if (on_accept)
        on_accept(c);
      if (c->on_fate)
        c->on_fate();
      return c->fd;
    }
    if (d->nonblock)
      return fail(EAGAIN);
    if (!L->rcv_timeo)
      block(L->q, "accept");
    else if (!block(L->q, "accept", now + L->rcv_timeo))
      return fail(EAGAIN);
    d = get(fd, "accept");
  }
}
} // namespace k
using namespace k;

extern "C" {
int __wrap_socket(int dom, int type, int proto) {
  Guard g;
  yield("socket");
  calls.push_back("socket");
  if (startup_fault(ST_SOCKET)) {
    ev("socket fails");
    static const int es[] = {EMFILE, ENFILE, ENOBUFS, EACCES};
    return fail(es[choose(4)]);
  }
  if (dom != AF_INET || (type & 0xf) != SOCK_STREAM)
    return fail(EAFNOSUPPORT);
  if (proto && proto != IPPROTO_TCP)
    return fail(EPROTONOSUPPORT);
  int f = lowest_fd();
  if (f < 0)
    return fail(EMFILE);
  Desc d;
  d.kind = 1;
  d.l = new Listener();
  d.l->fd = f;
  d.nonblock = type & SOCK_NONBLOCK;
  fds[f] = d;
  lst = d.l;
  lst_of[cur_id()] = d.l;
  all_lst.push_back(d.l);
  ev("socket -> %d", f - FD0);
  return f;
}
int __wrap_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n) {
  Guard g;
  yield("setsockopt");
  Desc *d = get(fd, "setsockopt");
  check_range(v, n, false, "option");
  if (d->kind == 1) {
    calls.push_back("setsockopt");
    if (startup_fault(ST_OPT)) {
      ev("setsockopt fails");
      return fail(ENOPROTOOPT);
    }
    if (lvl == SOL_SOCKET && opt == SO_REUSEADDR && n >= sizeof(int))
      d->l->reuse = *(const int *)v != 0;
    if (lvl == SOL_SOCKET && opt == SO_REUSEPORT && n >= sizeof(int))
      d->l->reuse_port = *(const int *)v != 0;
  }
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) &&
      n >= sizeof(struct timeval)) {
    auto *tv = (const struct timeval *)v;
    u64 t = (u64)tv->tv_sec * 1000000000 + (u64)tv->tv_usec * 1000;
    ev("descriptor %d: time-out %.3f s", fd - FD0, t / 1e9);
    if (d->kind == 1)
      (opt == SO_RCVTIMEO ? d->l->rcv_timeo : d->l->snd_timeo) = t;
    else
      (opt == SO_RCVTIMEO ? d->c->rcv_timeo : d->c->snd_timeo) = t;
  }
  if (lvl == SOL_SOCKET && opt == SO_LINGER && n >= sizeof(struct linger)) {
    auto *li = (const struct linger *)v;
    (d->kind == 1 ? d->l->linger0 : d->c->linger0) =
        li->l_onoff && !li->l_linger;
  }
  return 0;
}
int __wrap_getsockopt(int fd, int, int, void *v, socklen_t *n) {
  Guard g;
  get(fd, "getsockopt");
  if (v && n && *n >= sizeof(int))
    *(int *)v = 0;
  return 0;
}
static bool taken(Listener *L, bool listening) {
  for (auto *o : all_lst)
    if (o != L && o->bound && !o->closed && o->port == L->port && L->port &&
        (!o->addr || !L->addr || o->addr == L->addr) &&
        !(o->reuse_port && L->reuse_port) &&
        (o->listening || (!listening && !(o->reuse && L->reuse))))
      return true;
  return false;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
  Guard g;
  yield("bind");
  Desc *d = get(fd, "bind");
  calls.push_back("bind");
  if (startup_fault(ST_BIND)) {
    ev("bind fails");
    static const int es[] = {EADDRINUSE, EACCES, EADDRNOTAVAIL};
    return fail(es[choose(3)]);
  }
  check_range(a, n, false, "address");
  struct sockaddr_in s;
  if (n < sizeof s)
    return fail(EINVAL);
  memcpy(&s, a, sizeof s);
  if (s.sin_family != AF_INET)
    return fail(EAFNOSUPPORT);
  Listener *L = d->l;
  bind_addr = L->addr = ntohl(s.sin_addr.s_addr);
  bind_port = L->port = ntohs(s.sin_port);
  if (time_wait && !L->reuse && L->port) {
    count("fault.time_wait");
    ev("bind fails: the port is in TIME_WAIT");
    startup_failed = ST_BIND;
    return fail(EADDRINUSE);
  }
  if (several && taken(L, false)) {
    count("fault.address_in_use");
    ev("bind fails: %s:%d is in use", ip(L->addr).c_str(), L->port);
    failed_of[cur_id()] = ST_BIND;
    L->port = 0;
    return fail(EADDRINUSE);
  }
  if (L->port == 0)
    L->port = several ? next_port++ : next_port;
  L->bound = true;
  bound_ok = true;
  ev("bind %s:%d", ip(L->addr).c_str(), L->port);
  return 0;
}
int __wrap_listen(int fd, int backlog) {
  Guard g;
  yield("listen");
  Desc *d = get(fd, "listen");
  calls.push_back("listen");
  if (startup_fault(ST_LISTEN)) {
    ev("listen fails");
    return fail(EADDRINUSE);
  }
  if (several && taken(d->l, true)) {
    count("fault.address_in_use");
    ev("listen fails: the address is in use");
    failed_of[cur_id()] = ST_LISTEN;
    return fail(EADDRINUSE);
  }
  d->l->listening = true;
  (void)backlog;
  ev("listen");
  return 0;
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  Guard g;
  yield("getsockname");
  Desc *d = get(fd, "getsockname");
  if (d->kind == 1) {
    calls.push_back("getsockname");
    if (startup_fault(ST_NAME)) {
      ev("getsockname fails");
      return fail(ENOBUFS);
    }
    put_addr(a, l, d->l->addr, d->l->port);
    return 0;
  }
  if (d->c->hostile && hit(faults.connname_err)) {
    count("fault.connection_name");
    d->c->getsockname_failed = true;
    ev("conn %d: getsockname fails", d->c->id);
    return fail(ENOBUFS);
  }
  put_addr(a, l, d->c->local_addr, d->c->local_port);
  return 0;
}
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  Guard g;
  yield("getpeername");
  Desc *d = get(fd, "getpeername");
  if (d->kind != 2)
    return fail(ENOTCONN);
  put_addr(a, l, d->c->peer_addr, d->c->peer_port);
  return 0;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
  return do_accept(fd, a, l, 0);
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  return do_accept(fd, a, l, fl);
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) {
  return do_recv(fd, b, n, f);
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *,
                        socklen_t *) {
  return do_recv(fd, b, n, f);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) {
  return do_send(fd, b, n, f);
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f,
                      const struct sockaddr *, socklen_t) {
  return do_send(fd, b, n, f);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) {
  std::string *all;
  {
    Guard g;
    all = new std::string();
    for (size_t i = 0; i < (size_t)m->msg_iovlen; ++i)
      all->append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  }
  ssize_t r = do_send(fd, all->data(), all->size(), f);
  Guard g;
  delete all;
  return r;
}
static ssize_t gather(int fd, const struct iovec *v, size_t n, int f) {
  struct msghdr m;
  memset(&m, 0, sizeof m);
  m.msg_iov = (struct iovec *)v;
  m.msg_iovlen = n;
  return __wrap_sendmsg(fd, &m, f);
}
static ssize_t scatter(int fd, const struct iovec *v, size_t n, int f) {
  size_t all = 0;
  for (size_t i = 0; i < n; ++i)
    all += v[i].iov_len;
  char *b;
  {
    Guard g;
    b = new char[all + 1];
  }
  ssize_t r = do_recv(fd, b, all, f);
  Guard g;
  int e = errno;
  size_t left = r > 0 ? (size_t)r : 0, at = 0;
  for (size_t i = 0; i < n && left; ++i) {
    size_t k = std::min(left, (size_t)v[i].iov_len);
    memcpy(v[i].iov_base, b + at, k);
    at += k, left -= k;
  }
  delete[] b;
  errno = e;
  return r;
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f) {
  m->msg_flags = 0;
  return scatter(fd, m->msg_iov, (size_t)m->msg_iovlen, f);
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) {
  return scatter(fd, v, (size_t)n, 0);
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
  return gather(fd, v, (size_t)n, 0);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (in_rt > 0)
    return __real_read(fd, b, n);
  return do_recv(fd, b, n, 0);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (in_rt > 0)
    return __real_write(fd, b, n);
  if ((fd == 1 || fd == 2) && !fds.count(fd))
    return (ssize_t)n;
  return do_send(fd, b, n, 0);
}
int __wrap_shutdown(int fd, int how) {
  Guard g;
  yield("shutdown");
  Desc *d = get(fd, "shutdown");
  if (d->kind != 2)
    return fail(ENOTCONN);
  if (how != SHUT_RD) {
    d->c->out_fin = true;
    if (d->c->on_out)
      d->c->on_out();
  }
  if (how != SHUT_WR) {
    d->c->fin_in = true;
    kick(d->c->rq);
  }
  return 0;
}
int __wrap_close(int fd) {
  if (in_rt > 0)
    return __real_close(fd);
  Guard g;
  yield("close");
  Desc *d = get(fd, "close");
  Desc x = *d;
  fds.erase(fd);
  ever[fd]++;
  int e = 0;
  if (x.kind == 2) {
    Conn *c = x.c;
    if (on_io)
      on_io(c, "close");
    if (c->hostile && hit(faults.close_err)) {
      static const int es[] = {EIO, EINTR};
      e = es[choose(2)];
      c->close_failed = true;
      count("fault.close_error");
    }
    c->closed = true;
    c->closed_at = now;
    if (c->linger0) // a reset: the client never gets the rest
      c->out.resize(c->drained);
    c->out_fin = true;
    --open_conns;
    ev("conn %d: close descriptor %d%s", c->id, fd - FD0, e ? " fails" : "");
    if (on_close)
      on_close(c);
    if (c->on_out)
      c->on_out();
    kick(c->rq);
    kick(c->wq);
  } else {
    x.l->closed = true;
    x.l->listening = false;
    x.l->closes++;
    if (faults.startup && hit(faults.close_err)) {
      e = EIO;
      x.l->close_failed = true;
      count("fault.close_error");
    }
    ev("close of the server socket%s", e ? " fails" : "");
  }
  yield("closed");
  return e ? fail(e) : 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list v;
  va_start(v, cmd);
  long a = va_arg(v, long);
  va_end(v);
  Guard g;
  Desc *d = get(fd, "fcntl");
  if (cmd == F_GETFL)
    return O_RDWR | (d->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL)
    d->nonblock = (a & O_NONBLOCK) != 0;
  return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout) {
  Guard g;
  u64 dl = timeout < 0 ? ~0ull : now + (u64)timeout * 1000000;
  for (;;) {
    yield("poll");
    int r = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      auto it = fds.find(p[i].fd);
      if (it == fds.end()) {
        p[i].revents = POLLNVAL;
      } else if (it->second.kind == 1) {
        if (!it->second.l->pending.empty())
          p[i].revents |= POLLIN & p[i].events;
      } else {
        Conn *c = it->second.c;
        if (!c->in.empty() || c->fin_in || c->rst)
          p[i].revents |= POLLIN & p[i].events;
        if (c->out.size() - c->drained < window || c->rst)
          p[i].revents |= POLLOUT & p[i].events;
        if (c->rst)
          p[i].revents |= POLLERR | POLLHUP;
      }
      r += p[i].revents != 0;
    }
    if (r || now >= dl)
      return r;
    block(pollq, "poll", dl);
  }
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
  Guard g;
  std::vector<struct pollfd> p;
  for (int i = 0; i < n; ++i) {
    short ev = 0;
    if (r && FD_ISSET(i, r))
      ev |= POLLIN;
    if (w && FD_ISSET(i, w))
      ev |= POLLOUT;
    if (ev || (e && FD_ISSET(i, e)))
      p.push_back({i, ev, 0});
  }
  int k = __wrap_poll(p.data(), p.size(), t ? (int)(t->tv_sec * 1000 + t->tv_usec / 1000) : -1);
  for (fd_set *x : {r, w, e})
    if (x)
      FD_ZERO(x);
  int c = 0;
  (void)k;
  for (auto &q : p) {
    if (q.revents & POLLNVAL)
      return fail(EBADF);
    if (r && (q.revents & (POLLIN | POLLERR | POLLHUP)) && (q.events & POLLIN))
      FD_SET(q.fd, r), ++c;
    if (w && (q.revents & (POLLOUT | POLLERR)) && (q.events & POLLOUT))
      FD_SET(q.fd, w), ++c;
  }
  return c;
}
// name resolution
static bool resolve(const char *n, u32 *addr) {
  yield("gethostbyname");
  calls.push_back("gethostbyname");
  if (startup_fault(ST_HOST)) {
    ev("name resolution fails");
    h_errno = TRY_AGAIN;
    return false;
  }
  struct in_addr ia;
  if (inet_aton(n, &ia)) {
    *addr = ia.s_addr;
    return true;
  }
  auto i = hosts.find(n);
  if (i == hosts.end()) {
    startup_failed = ST_HOST;
    failed_of[cur_id()] = ST_HOST;
    h_errno = HOST_NOT_FOUND;
    return false;
  }
  *addr = htonl(i->second);
  return true;
}
struct hostent *__wrap_gethostbyname(const char *n) {
  Guard g;
  // one result for the whole process, as in the C library
  static struct hostent h;
  static u32 addr;
  static char *list[2];
  static char *al[1];
  u32 r;
  if (!resolve(n, &r))
    return nullptr;
  addr = r;
  list[0] = (char *)&addr;
  list[1] = nullptr;
  h.h_name = (char *)"";
  h.h_aliases = al;
  h.h_addrtype = AF_INET;
  h.h_length = 4;
  h.h_addr_list = list;
  if (several)
    yield("the result is read");
  return &h;
}
int __wrap_getaddrinfo(const char *n, const char *svc,
                       const struct addrinfo *hints, struct addrinfo **res) {
  Guard g;
  u32 a = 0;
  if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != AF_INET)
    return EAI_ADDRFAMILY;
  if (hints && ((hints->ai_socktype && hints->ai_socktype != SOCK_STREAM) ||
                (hints->ai_protocol && hints->ai_protocol != IPPROTO_TCP)))
    return EAI_SOCKTYPE;
  if (n) {
    if (!resolve(n, &a))
      return EAI_NONAME;
  } else if (!hints || !(hints->ai_flags & AI_PASSIVE))
    a = htonl(INADDR_LOOPBACK);
  // a block of the application: its uses and its release are checked
  addrinfo *ai;
  {
    App x;
    ai = (addrinfo *)malloc(sizeof(addrinfo) + sizeof(sockaddr_in));
  }
  auto *sa = (sockaddr_in *)(ai + 1);
  ++names_of[cur_id()];
  memset(ai, 0, sizeof *ai);
  memset(sa, 0, sizeof *sa);
  sa->sin_family = AF_INET;
  sa->sin_addr.s_addr = a;
  sa->sin_port = htons(svc ? atoi(svc) : 0);
  ai->ai_family = AF_INET;
  ai->ai_socktype = SOCK_STREAM;
  ai->ai_addr = (sockaddr *)sa;
  ai->ai_addrlen = sizeof *sa;
  *res = ai;
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) {
  {
    Guard g;
    --names_of[cur_id()];
  }
  free(a);
}
int __wrap_gethostbyname_r(const char *n, struct hostent *h, char *buf,
                           size_t len, struct hostent **res, int *err) {
  Guard g;
  u32 r;
  *res = nullptr;
  if (!resolve(n, &r)) {
    *err = h_errno;
    return 0;
  }
  if (len < 32)
    return ERANGE;
  check_range(buf, 32, true, "name buffer");
  char **list = (char **)(((uintptr_t)buf + 7) & ~7ul);
  list[0] = (char *)(list + 2);
  list[1] = nullptr;
  memcpy(list[0], &r, 4);
  h->h_name = (char *)n;
  h->h_aliases = list + 1;
  h->h_addrtype = AF_INET;
  h->h_length = 4;
  h->h_addr_list = list;
  *res = h;
  return 0;
}
// signals
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) {
  if (s == SIGPIPE) {
    sigh o = sigpipe_ignored ? SIG_IGN : SIG_DFL;
    sigpipe_ignored = h != SIG_DFL;
    return o;
  }
  return SIG_DFL;
}
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  if (in_rt > 0)
    return __real_sigaction(s, a, o);
  if (s == SIGPIPE && a)
    sigpipe_ignored = a->sa_handler != SIG_DFL;
  return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *) {
  if (s && sigismember(s, SIGPIPE) == 1)
    sigpipe_blocked[cur_id()] = how != SIG_UNBLOCK;
  return 0;
}
int __wrap_kill(pid_t, int s) {
  Guard g;
  violate(P("C05"), "kill", "the code under test sends signal %d", s);
}
int __wrap_raise(int s) {
  Guard g;
  violate(P("C05"), "kill", "the code under test raises signal %d", s);
}
}
