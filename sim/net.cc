// Simulated kernel: descriptors, TCP connections, epoll/poll, pipes, clocks, signals, files.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/eventfd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <regex.h>
#include <zlib.h>
#include <algorithm>
#include <memory>
std::string real_path(const char *);

#define RA __builtin_return_address(0)
void sim_post_signal(Thread *t, int sig);
extern "C" void sim_yield_other();

enum Kind { K_FREE, K_SOCK, K_LISTEN, K_CONN, K_EPOLL, K_PIPE_R, K_PIPE_W, K_EVENT };
struct Pipe { std::deque<u8> d; size_t cap = 65536; int readers = 0, writers = 0; };
struct Item { int fd; u32 events; epoll_data_t data; bool ready; bool disabled; u64 gen; };
struct Epoll { std::vector<Item> items; std::deque<int> rdl; int waiter = -1; };
bool net_timewait;   // connections of a server that ran before linger on its ports
struct Fd { Kind k = K_FREE; bool nb = false, reuse = false; int fl = 0; int port = 0; Conn *c = nullptr; std::shared_ptr<Pipe> p; std::shared_ptr<Epoll> ep; u64 gen = 0; u64 evcnt = 0;
  std::deque<Conn *> backlog; int owner = 0; std::string closed_by; };
static const int NWIN = 580; static int FD0 = 20, NFD = FD0 + NWIN;   // the descriptors in use lie in a window that starts higher when the process inherited many
static Fd fds[66200];
static u64 gen_;
static std::map<int, int> listeners;    // port -> fd
static std::vector<Conn *> conns;
static int fd_limit = NWIN; static u64 addr_salt;
#ifdef SIM_POLL
enum { FD0_MAX = 240 };   // each turn of the poll() back end looks at every descriptor number up to the highest
#else
enum { FD0_MAX = 65536 };
#endif
void net_environment(int fd0, u64 salt) { fd0 = std::min<int>(fd0, FD0_MAX); FD0 = fd0; NFD = fd0 + NWIN; addr_salt = salt; }
void net_peer(Conn *c, struct sockaddr_in6 *s) {   // where the client comes from
  u64 h = (c->id + 1) * 0x9E3779B97F4A7C15ull ^ addr_salt * 0xD1B54A32D192ED03ull; h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; u64 g = h * 0x94D049BB133111EBull; g ^= g >> 32;
  memset(s, 0, sizeof *s); s->sin6_family = AF_INET6; static const int ports[] = {1, 80, 255, 256, 1023, 32767, 32768, 65535}; s->sin6_port = htons(h % 4 ? 1024 + g % 64512 : ports[g % 8]);
  u8 *a = s->sin6_addr.s6_addr; switch (h >> 8 & 7) { case 0: case 1: a[15] = 1; break; case 2: case 3: a[10] = a[11] = 255; memcpy(a + 12, &g, 4); break; case 4: a[0] = 0xfe; a[1] = 0x80; memcpy(a + 8, &g, 8); break;
    case 5: a[0] = 0x20; a[1] = 1; a[2] = 0x0d; a[3] = 0xb8; a[15] = g; break; default: memcpy(a, &g, 8); memcpy(a + 8, &h, 8); for (int i = 0; i < 16; i += 2) a[i] |= 0x10; a[0] = 0x2a; break; }
}
static char pollobj;                    // everything waiting for readiness waits here (poll())
u64 misuse_ebadf;
std::map<int, Conn *> *net_conns_by_id;

void net_init() {}
static Fd *get(int fd) { if (fd < FD0 || fd >= NFD || fds[fd].k == K_FREE) return nullptr; return &fds[fd]; }
static int newfd(Kind k) {
  for (int i = FD0; i < FD0 + fd_limit; i++) if (fds[i].k == K_FREE) { fds[i] = Fd(); fds[i].k = k; fds[i].gen = ++gen_; fds[i].owner = cur ? cur->id : 0; return i; }
  errno = EMFILE; return -1;
}
int net_open_fds() { int n = 0; for (auto &f : fds) if (f.k != K_FREE) n++; return n; }
std::string net_open_report() { static const char *kn[] = {"free", "socket", "listen", "conn", "epoll", "pipe_r", "pipe_w", "eventfd"}; std::string s; for (int i = 0; i < NFD; i++) if (fds[i].k != K_FREE) s += fmt("%s%d:%s", s.empty() ? "" : " ", i, kn[fds[i].k]); return s; }
bool net_listening(int port) { return listeners.count(port); }
int net_fd_of(Conn *c) { return c->fd; }
Conn *net_conn_by_fd(int fd) { Fd *f = get(fd); return f ? f->c : nullptr; }

// a descriptor operation on a closed/never opened descriptor by the code under test is reported: the number may
// already belong to another connection, so it is a data-corruption hazard (checked by property C07/C09)
static void ebadf(int fd, const char *op, void *pc) {
  errno = EBADF;
  if (in_sim && cur->server && fd >= 0) violate("fd-misuse", fmt("fd-misuse|%s|%s", op, sig_stack(cur, 2, pc).c_str()), fmt("%s on descriptor %d which is not open, by %s in %s; %s", op, fd, cur->name.c_str(), backtrace_str(cur, 8, pc).c_str(), fd >= FD0 && fd < NFD ? fds[fd].closed_by.c_str() : ""));
}

static bool writable(Conn *c) { return c->rst || c->client_gone || c->srv_shut_wr || (c->sndcap - std::min(c->sndcap, c->out.size())) * 3 >= c->sndcap; }
static u32 readiness(int fd) {
  Fd *f = get(fd); if (!f) return 0;
  u32 r = 0;
  switch (f->k) {
    case K_LISTEN: if (!f->backlog.empty()) r |= EPOLLIN; break;
    case K_CONN: { Conn *c = f->c;
      if (!c->in.empty() || c->in_eof || c->rst) r |= EPOLLIN | EPOLLRDNORM;
      if (c->in_eof || c->rst) r |= EPOLLRDHUP;
      if (c->rst) r |= EPOLLERR | EPOLLHUP;
      if (c->in_eof && c->srv_shut_wr) r |= EPOLLHUP;
      if (writable(c)) r |= EPOLLOUT | EPOLLWRNORM; else c->nospace = true;
      break; }
    case K_PIPE_R: if (!f->p->d.empty()) r |= EPOLLIN | EPOLLRDNORM; if (!f->p->writers) r |= EPOLLHUP; break;
    case K_PIPE_W: if (f->p->d.size() + 4096 <= f->p->cap) r |= EPOLLOUT | EPOLLWRNORM; if (!f->p->readers) r |= EPOLLERR; break;
    case K_EVENT: if (f->evcnt) r |= EPOLLIN; r |= EPOLLOUT; break;
    case K_SOCK: r |= EPOLLOUT | EPOLLHUP; break;
    default: break;
  }
  return r;
}
// something happened on fd: queue it on the epoll instances interested in it and wake pollers
static void notify(int fd) {
  for (int i = FD0; i < NFD; i++) if (fds[i].k == K_EPOLL) {
    Epoll &e = *fds[i].ep;
    for (auto &it : e.items) if (it.fd == fd && !it.disabled) {
      if (!it.ready) { it.ready = true; e.rdl.push_back(fd); }
      wake(fds[i].ep.get());
    }
  }
  wake(&pollobj);
}

// ---------------------------------------------------------------- client side of connections
Conn *net_connect(int port, size_t sndcap) {
  auto it = listeners.find(port); if (it == listeners.end()) return nullptr;
  Fd &l = fds[it->second]; if (l.backlog.size() >= 128) return nullptr;
  Conn *c = new Conn; c->id = conns.size(); c->port = port; c->sndcap = sndcap; conns.push_back(c);
  l.backlog.push_back(c); notify(it->second); R->st.conns++;
  trace("client connects conn %d port %d", c->id, port);
  return c;
}
void net_client_send(Conn *c, const u8 *p, size_t n) {
  if (c->rst || c->client_gone) return;
  if (c->srv_closed) { c->rst = true; wake(&c->out); return; }
  c->in.insert(c->in.end(), p, p + n); c->total_in += n; R->st.bytes_c2s += n;
  if (trace_on) trace("client conn %d -> %zu bytes %s", c->id, n, hexs(std::string((const char *)p, n), 96).c_str());
  if (c->fd >= 0) notify(c->fd);
}
void net_client_shutdown(Conn *c) { if (c->rst || c->in_eof) return; c->in_eof = true; trace("client conn %d FIN", c->id); if (c->fd >= 0) notify(c->fd); }
void net_client_close(Conn *c) {
  if (c->client_gone) return;
  c->client_gone = true; if (!c->rst) c->in_eof = true; trace("client conn %d close", c->id);
  if (!c->out.empty()) { c->rst = true; }    // closing with unread data sends RST
  if (c->fd >= 0) notify(c->fd);
  wake(&c->out);
}
void net_client_reset(Conn *c) {
  if (c->rst) return;
  c->rst = true; c->client_gone = true; c->in.clear(); c->in_eof = true; trace("client conn %d RST", c->id);
  if (c->fd >= 0) notify(c->fd);
  wake(&c->out);
}
size_t net_client_recv(Conn *c, u8 *p, size_t n) {
  size_t m = std::min(n, c->out.size());
  for (size_t i = 0; i < m; i++) p[i] = c->out[i];
  if (m) c->recv_time = now_ns;
  c->out.erase(c->out.begin(), c->out.begin() + m);
  if (m && c->nospace && c->fd >= 0 && writable(c)) { c->nospace = false; notify(c->fd); }
  if (m && c->fd >= 0) wake(&c->sndcap);
  return m;
}
// server side end of connection goes away
static void server_close_conn(Conn *c) {
  c->srv_closed = true; c->close_time = now_ns;
  if (!c->in.empty()) c->rst = true;     // unread data: RST
  c->fd = -1; wake(&c->out);
}

extern "C" {
// ---------------------------------------------------------------- sockets
int sim_socket(int, int type, int) { sync_point("socket"); if (fault(F_SOCKET_FAIL, sc.f[F_SOCKET_FAIL])) { errno = EMFILE; return -1; } int fd = newfd(K_SOCK); if (fd >= 0) fds[fd].nb = type & SOCK_NONBLOCK; return fd; }
int sim_setsockopt(int fd, int lv, int opt, const void *v, socklen_t n) { sync_point("setsockopt"); if (!get(fd)) { ebadf(fd, "setsockopt", RA); return -1; } if (fault(F_SOCKOPT_FAIL, sc.f[F_SOCKOPT_FAIL])) { errno = ENOBUFS; return -1; } if (lv == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && n >= sizeof(int)) get(fd)->reuse = *(const int *)v; return 0; }
int sim_getsockopt(int fd, int, int opt, void *v, socklen_t *) { if (!get(fd)) { ebadf(fd, "getsockopt", RA); return -1; } if (opt == SO_ERROR) *(int *)v = 0; return 0; }
int sim_bind(int fd, const struct sockaddr *a, socklen_t) { sync_point("bind"); Fd *f = get(fd); if (!f) { ebadf(fd, "bind", RA); return -1; } if (fault(F_BIND_FAIL, sc.f[F_BIND_FAIL])) { errno = EADDRINUSE; return -1; }
  int port = ntohs(a->sa_family == AF_INET6 ? ((const struct sockaddr_in6 *)a)->sin6_port : ((const struct sockaddr_in *)a)->sin_port);
  if (listeners.count(port) || (net_timewait && !f->reuse)) { errno = EADDRINUSE; return -1; } f->port = port; return 0; }
int sim_listen(int fd, int) { sync_point("listen"); Fd *f = get(fd); if (!f) { ebadf(fd, "listen", RA); return -1; } if (fault(F_LISTEN_FAIL, sc.f[F_LISTEN_FAIL])) { errno = EADDRINUSE; return -1; } f->k = K_LISTEN; listeners[f->port] = fd; wake(&listeners); trace("listening on %d", f->port); return 0; }
static int do_accept(int fd, struct sockaddr *a, socklen_t *l, int flags, void *pc) {
  sync_point("accept");
  Fd *f = get(fd); if (!f) { ebadf(fd, "accept", pc); return -1; }
  if (f->k != K_LISTEN) { errno = EINVAL; return -1; }
  while (f->backlog.empty()) {
    if (f->nb) { errno = EAGAIN; return -1; }
    if (block(&pollobj, 0, "accept", true) == WK_SIGNAL) { errno = EINTR; return -1; }
    f = get(fd); if (!f) { errno = EBADF; return -1; }
  }
  if (fault(F_ACCEPT_EINTR, sc.f[F_ACCEPT_EINTR])) { errno = EINTR; return -1; }
  if (fault(F_ACCEPT_ABORT, sc.f[F_ACCEPT_ABORT])) { errno = ECONNABORTED; return -1; }
  if (fault(F_ACCEPT_EMFILE, sc.f[F_ACCEPT_EMFILE])) { errno = EMFILE; return -1; }
  int n = newfd(K_CONN); if (n < 0) return -1;
  Conn *c = f->backlog.front(); f->backlog.pop_front();
  fds[n].c = c; fds[n].nb = flags & SOCK_NONBLOCK; c->fd = n; c->accepted = true;
  if (a && l) {
    struct sockaddr_in6 s; net_peer(c, &s);
    memcpy(a, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s;
  }
  trace("accept -> fd %d conn %d", n, c->id);
  return n;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return do_accept(fd, a, l, 0, RA); }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { return do_accept(fd, a, l, fl, RA); }
int sim_fcntl(int fd, int cmd, long arg) { sync_point("fcntl"); Fd *f = get(fd); if (!f) { ebadf(fd, "fcntl", RA); return -1; } if (fault(F_FCNTL_FAIL, sc.f[F_FCNTL_FAIL])) { errno = EINVAL; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (f->nb ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f->nb = arg & O_NONBLOCK; return 0; }
  if (cmd == F_GETFD || cmd == F_SETFD) return 0;
  errno = EINVAL; return -1; }
int sim_ioctl(int fd, unsigned long req, void *arg) { Fd *f = get(fd); if (!f) { ebadf(fd, "ioctl", RA); return -1; } if (req == 0x5421) { f->nb = *(int *)arg; return 0; } errno = EINVAL; return -1; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { Fd *f = get(fd); if (!f) { ebadf(fd, "getpeername", RA); return -1; } struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; if (f->c) net_peer(f->c, &s); memcpy(a, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s; return 0; }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { Fd *f = get(fd); if (!f) { ebadf(fd, "getsockname", RA); return -1; } struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; if (f->c) s.sin6_port = htons(f->c->port); else for (auto &x : listeners) if (x.second == fd) s.sin6_port = htons(x.first); memcpy(a, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s; return 0; }

static int do_close(int fd, void *pc) {
  sync_point("close");
  Fd *f = get(fd); if (!f) { ebadf(fd, "close", pc); return -1; }
  trace("close fd %d%s", fd, f->c ? fmt(" conn %d", f->c->id).c_str() : "");
  for (int i = FD0; i < NFD; i++) if (fds[i].k == K_EPOLL) {
    Epoll &e = *fds[i].ep;
    e.items.erase(std::remove_if(e.items.begin(), e.items.end(), [&](const Item &it) { return it.fd == fd; }), e.items.end());
    e.rdl.erase(std::remove(e.rdl.begin(), e.rdl.end(), fd), e.rdl.end());
  }
  switch (f->k) {
    case K_LISTEN: listeners.erase(f->port); for (auto c : f->backlog) { c->refused = true; c->rst = true; c->srv_closed = true; wake(&c->out); } break;
    case K_CONN: server_close_conn(f->c); break;
    case K_PIPE_R: f->p->readers--; break;
    case K_PIPE_W: f->p->writers--; break;
    default: break;
  }
  if (f->k == K_PIPE_R || f->k == K_PIPE_W) wake(&pollobj);
  f->k = K_FREE; f->c = nullptr; f->p.reset(); f->ep.reset(); f->backlog.clear();
  f->closed_by = "closed by " + cur->name + " in " + backtrace_str(cur, 4);
  return 0;
}
int sim_close(int fd) { return do_close(fd, RA); }
int sim_shutdown(int fd, int how) {
  sync_point("shutdown"); Fd *f = get(fd); if (!f) { ebadf(fd, "shutdown", RA); return -1; }
  if (f->k == K_LISTEN) return 0;
  if (f->k != K_CONN) { errno = ENOTSOCK; return -1; }
  Conn *c = f->c; if (c->rst) { errno = ENOTCONN; return -1; }
  trace("shutdown fd %d how %d", fd, how);
  if (how == SHUT_RD || how == SHUT_RDWR) c->in_eof = true;
  if (how == SHUT_WR || how == SHUT_RDWR) c->srv_shut_wr = true;
  wake(&c->out); notify(fd); return 0;
}
// ---------------------------------------------------------------- read / write
static ssize_t do_read(int fd, void *buf, size_t n, int flags, void *pc) {
  sync_point("read");
  Fd *f = get(fd); if (!f) { ebadf(fd, "read", pc); return -1; }
  if (n) mem_check(buf, 1, true, pc);
  bool nb = f->nb || (flags & MSG_DONTWAIT);
  u64 gen = f->gen;
  for (;;) {
    f = get(fd); if (!f || f->gen != gen) { errno = EBADF; return -1; }
    if (f->k == K_CONN) {
      Conn *c = f->c;
      if (c->rst) { if (c->in.empty()) { if (c->in_eof && !c->client_gone) return 0; trace("read fd %d ECONNRESET", fd); errno = ECONNRESET; return -1; } }
      if (!c->in.empty() || c->in_eof) {
        if (fault(F_READ_EINTR, sc.f[F_READ_EINTR])) { errno = EINTR; return -1; }
        if (i64 k = fault(F_READ_FAIL, sc.f[F_READ_FAIL], 1, 4)) { c->faulted = true; errno = (const int[]){ETIMEDOUT, EIO, ECONNRESET, ENOMEM}[(k - 1) & 3]; return -1; }
        size_t m = std::min(n, c->in.size());
        if (m > 1) { i64 s = fault(F_READ_SHORT, sc.f[F_READ_SHORT], 1, m - 1); if (s) m = s; }
        if (m) mem_check(buf, m, true, pc);
        std::copy(c->in.begin(), c->in.begin() + m, (u8 *)buf);
        if (!(flags & MSG_PEEK)) { c->in.erase(c->in.begin(), c->in.begin() + m); c->bytes_read += m; c->read_time = now_ns; }
        trace("read fd %d conn %d = %zu", fd, c->id, m); mix(m);
        return m;
      }
    } else if (f->k == K_PIPE_R) {
      if (!f->p->d.empty()) { size_t m = std::min(n, f->p->d.size()); mem_check(buf, m, true, pc); std::copy(f->p->d.begin(), f->p->d.begin() + m, (u8 *)buf); f->p->d.erase(f->p->d.begin(), f->p->d.begin() + m); return m; }
      if (!f->p->writers) return 0;
    } else if (f->k == K_EVENT) {
      if (f->evcnt) { if (n < 8) { errno = EINVAL; return -1; } *(u64 *)buf = f->evcnt; f->evcnt = 0; return 8; }
    } else { errno = f->k == K_PIPE_W ? EBADF : ENOTCONN; return -1; }
    if (nb) { errno = EAGAIN; return -1; }
    if (block(&pollobj, 0, "read", true) == WK_SIGNAL) { errno = EINTR; return -1; }
  }
}
static ssize_t do_write(int fd, const void *buf, size_t n, int flags, void *pc) {
  sync_point("write");
  Fd *f = get(fd); if (!f) { ebadf(fd, "write", pc); return -1; }
  bool nb = f->nb || (flags & MSG_DONTWAIT);
  u64 gen = f->gen;
  if (n) mem_check(buf, n, false, pc);
  for (;;) {
    f = get(fd); if (!f || f->gen != gen) { errno = EBADF; return -1; }
    if (f->k == K_CONN) {
      Conn *c = f->c;
      if (c->srv_shut_wr || c->rst) {
        bool was = c->rst; trace("write fd %d conn %d EPIPE", fd, c->id);
        if (!(flags & MSG_NOSIGNAL)) { cur->pending_sig = SIGPIPE; deliver_signals(); }
        errno = (was && !c->srv_shut_wr) ? ECONNRESET : EPIPE; if (was) errno = EPIPE; return -1;
      }
      if (c->client_gone) { trace("write fd %d conn %d lost (peer closed)", fd, c->id); c->rst = true; notify(fd); return n; }
      if (fault(F_WRITE_EINTR, sc.f[F_WRITE_EINTR])) { errno = EINTR; return -1; }
      if (i64 k = fault(F_WRITE_FAIL, sc.f[F_WRITE_FAIL], 1, 4)) { c->faulted = true; errno = (const int[]){ETIMEDOUT, EIO, EHOSTUNREACH, ENOBUFS}[(k - 1) & 3]; return -1; }
      if (nb && fault(F_WRITE_EAGAIN, sc.f[F_WRITE_EAGAIN])) { c->nospace = true;
        // the buffer drains later: readiness is signalled by a timer in the director (see pump)
        extern void net_later_writable(int, u64); net_later_writable(fd, f->gen); errno = EAGAIN; return -1; }
      size_t room = c->sndcap > c->out.size() ? c->sndcap - c->out.size() : 0;
      if (n == 0) return 0;
      if (room) {
        size_t m = std::min(n, room);
        if (m > 1) { i64 s = fault(F_WRITE_SHORT, sc.f[F_WRITE_SHORT], 1, m - 1); if (s) m = s; }
        c->out.insert(c->out.end(), (const u8 *)buf, (const u8 *)buf + m); c->total_out += m; R->st.bytes_s2c += m;
        trace("write fd %d conn %d = %zu/%zu", fd, c->id, m, n); mix(m + 1000);
        wake(&c->out);
        return m;
      }
      c->nospace = true;
    } else if (f->k == K_PIPE_W) {
      if (!f->p->readers) { cur->pending_sig = SIGPIPE; deliver_signals(); errno = EPIPE; return -1; }
      size_t room = f->p->cap - f->p->d.size();
      if (room >= n || (room && n > 4096)) { size_t m = std::min(n, room); f->p->d.insert(f->p->d.end(), (const u8 *)buf, (const u8 *)buf + m);
        for (int i = FD0; i < NFD; i++) if (fds[i].k == K_PIPE_R && fds[i].p == f->p) notify(i);
        return m; }
    } else if (f->k == K_EVENT) { f->evcnt += *(const u64 *)buf; notify(fd); return 8; }
    else { errno = ENOTCONN; return -1; }
    if (nb) { errno = EAGAIN; trace("write fd %d EAGAIN", fd); return -1; }
    Wake w = f->k == K_CONN ? block(&f->c->sndcap, 0, "write", true) : block(&pollobj, 0, "write", true);
    if (w == WK_SIGNAL) { errno = EINTR; return -1; }
  }
}
ssize_t sim_read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, RA); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return do_read(fd, b, n, fl, RA); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return do_read(fd, b, n, fl, RA); }
ssize_t sim_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, RA); }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return do_write(fd, b, n, fl, RA); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const void *, unsigned) { return do_write(fd, b, n, fl, RA); }
ssize_t sim_writev(int fd, const struct iovec *v, int k) { std::string s; for (int i = 0; i < k; i++) { mem_check(v[i].iov_base, v[i].iov_len, false, RA); s.append((char *)v[i].iov_base, v[i].iov_len); } return do_write(fd, s.data(), s.size(), 0, RA); }
ssize_t sim_readv(int fd, const struct iovec *v, int k) { return k > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len, 0, RA) : 0; }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return do_write(fd, s.data(), s.size(), fl, RA); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) { return m->msg_iovlen ? do_read(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, RA) : 0; }

static int do_pipe(int *p, int fl) {
  sync_point("pipe");
  if (fault(F_PIPE_FAIL, sc.f[F_PIPE_FAIL])) { errno = EMFILE; return -1; }
  int a = newfd(K_PIPE_R); if (a < 0) return -1; int b = newfd(K_PIPE_W); if (b < 0) { fds[a].k = K_FREE; return -1; }
  fds[a].p = fds[b].p = std::make_shared<Pipe>(); fds[a].p->readers = fds[a].p->writers = 1; fds[a].nb = fds[b].nb = fl & O_NONBLOCK; p[0] = a; p[1] = b; return 0;
}
int sim_pipe(int *p) { return do_pipe(p, 0); }
int sim_pipe2(int *p, int fl) { return do_pipe(p, fl); }
int sim_eventfd(unsigned v, int fl) { int fd = newfd(K_EVENT); if (fd >= 0) { fds[fd].evcnt = v; fds[fd].nb = fl & O_NONBLOCK; } return fd; }

// ---------------------------------------------------------------- epoll / poll
int sim_epoll_create1(int) { sync_point("epoll_create"); if (fault(F_SOCKET_FAIL, sc.f[F_SOCKET_FAIL])) { errno = EMFILE; return -1; } int fd = newfd(K_EPOLL); if (fd >= 0) fds[fd].ep = std::make_shared<Epoll>(); return fd; }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  sync_point("epoll_ctl");
  Fd *e = get(ep); if (!e || e->k != K_EPOLL) { ebadf(ep, "epoll_ctl", RA); return -1; }
  Fd *f = get(fd); if (!f) { 
    if (op != EPOLL_CTL_DEL && e->ep->waiter == cur->id) { errno = EBADF; return -1; }   // the event loop acts on events it collected earlier; the kernel refuses and nothing else happens
    ebadf(fd, op == EPOLL_CTL_DEL ? "epoll_ctl-del" : op == EPOLL_CTL_ADD ? "epoll_ctl-add" : "epoll_ctl-mod", RA); return -1; }
  Epoll &E = *e->ep; Item *it = nullptr; for (auto &i : E.items) if (i.fd == fd) it = &i;
  if (op == EPOLL_CTL_DEL) { if (!it) { errno = ENOENT; return -1; } E.items.erase(E.items.begin() + (it - &E.items[0])); E.rdl.erase(std::remove(E.rdl.begin(), E.rdl.end(), fd), E.rdl.end()); return 0; }
  if (op == EPOLL_CTL_ADD) if (i64 k = fault(F_EPOLLCTL_FAIL, sc.f[F_EPOLLCTL_FAIL], 1, 2)) { if (f->k == K_CONN) f->c->faulted = true; errno = k == 1 ? ENOSPC : ENOMEM; return -1; }
  if (op == EPOLL_CTL_ADD) { if (it) { errno = EEXIST; return -1; } E.items.push_back(Item{fd, ev->events, ev->data, false, false, f->gen}); it = &E.items.back(); }
  else { if (!it) { errno = ENOENT; return -1; } it->events = ev->events; it->data = ev->data; it->disabled = false; }
  trace("epoll_ctl %s fd %d events %s%s", op == EPOLL_CTL_ADD ? "ADD" : "MOD", fd, ev->events & EPOLLIN ? "IN" : "", ev->events & EPOLLOUT ? "OUT" : "");
  u32 r = readiness(fd) & (it->events | EPOLLERR | EPOLLHUP);
  if (r && !it->ready) { it->ready = true; E.rdl.push_back(fd); }
  if (r) { wake(e->ep.get()); wake(&pollobj); }
  return 0;
}
static int do_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout, void *pc) {
  sync_point("epoll_wait");
  Fd *e = get(ep); if (!e || e->k != K_EPOLL) { ebadf(ep, "epoll_wait", pc); return -1; }
  if (fault(F_EPOLL_EINTR, sc.f[F_EPOLL_EINTR])) { errno = EINTR; return -1; }
  std::shared_ptr<Epoll> E = e->ep; E->waiter = cur->id; u64 dl = timeout >= 0 ? now_ns + (u64)timeout * 1000000ull : 0;
  if (max <= 0) { errno = EINVAL; return -1; }
  // readiness without data: sometimes a descriptor is reported although a read or write of it will not get anywhere
  i64 sp = fault(F_SPURIOUS_READY, sc.f[F_SPURIOUS_READY], 1, 256); u64 sp_at = sp ? now_ns + (u64)(sp % 16) * (sp % 16) * 10000 : 0;
  for (;;) {
    if (sp && now_ns >= sp_at && E->rdl.empty()) {
      std::vector<Item *> v; for (auto &i : E->items) if (!i.disabled && !i.ready && (i.events & (EPOLLIN | EPOLLOUT))) { Fd *f = get(i.fd); if (f && (f->k == K_CONN || f->k == K_LISTEN)) v.push_back(&i); }
      if (v.size()) { Item *it = v[sp / 16 % v.size()]; mem_check(evs, sizeof *evs, true, pc); evs[0].events = it->events & EPOLLIN ? EPOLLIN : EPOLLOUT; evs[0].data = it->data; if (it->events & EPOLLONESHOT) it->disabled = true; trace("epoll event fd %d spurious", it->fd); mix(77); return 1; }
      sp = 0; }
    int n = 0; std::deque<int> again;
    while (n < max && !E->rdl.empty()) {
      size_t k = choose(1, E->rdl.size()); int fd = E->rdl[k]; E->rdl.erase(E->rdl.begin() + k);
      Item *it = nullptr; for (auto &i : E->items) if (i.fd == fd) it = &i;
      if (!it) continue;
      it->ready = false; if (it->disabled) continue;
      u32 r = readiness(fd) & (it->events | EPOLLERR | EPOLLHUP);
      if (!r) continue;
      mem_check(&evs[n], sizeof *evs, true, pc);
      evs[n].events = r; evs[n].data = it->data; n++;
      if (it->events & EPOLLONESHOT) it->disabled = true;
      else if (!(it->events & EPOLLET)) { it->ready = true; again.push_back(fd); }
      trace("epoll event fd %d %s%s%s%s%s", fd, r & EPOLLIN ? "IN " : "", r & EPOLLOUT ? "OUT " : "", r & EPOLLRDHUP ? "RDHUP " : "", r & EPOLLHUP ? "HUP " : "", r & EPOLLERR ? "ERR" : "");
    }
    for (int x : again) E->rdl.push_back(x);
    if (n) { mix(n); return n; }
    if (timeout == 0) return 0;
    bool early = sp && (!dl || sp_at < dl); Wake w = block(E.get(), early ? sp_at : dl, "epoll_wait", true);
    if (!get(ep)) { errno = EBADF; return -1; }
    if (w == WK_SIGNAL) { errno = EINTR; return -1; }
    if (w == WK_TIMEOUT && E->rdl.empty() && !early) return 0;
  }
}
int sim_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) { return do_epoll_wait(ep, evs, max, timeout, RA); }
int sim_epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const void *) { return do_epoll_wait(ep, evs, max, timeout, RA); }
static int do_poll(struct pollfd *p, nfds_t n, i64 timeout_ns, void *pc) {
  sync_point("poll");
  if (fault(F_POLL_EINTR, sc.f[F_POLL_EINTR])) { errno = EINTR; return -1; }
  u64 dl = timeout_ns >= 0 ? now_ns + timeout_ns : 0;
  if (timeout_ns >= 0 && !dl) dl = 1;
  if (n > 2 && timeout_ns) if (i64 sp = fault(F_SPURIOUS_READY, sc.f[F_SPURIOUS_READY], 1, 256)) {   // see epoll_wait
    std::vector<nfds_t> v; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Fd *f = p[i].fd < 0 ? nullptr : get(p[i].fd); if (f && (f->k == K_CONN || f->k == K_LISTEN) && p[i].events & (POLLIN | POLLOUT)) v.push_back(i); }
    if (v.size()) { nfds_t i = v[sp % v.size()]; p[i].revents = p[i].events & POLLIN ? POLLIN : POLLOUT; trace("poll event fd %d spurious", p[i].fd); return 1; } }
  for (;;) {
    int k = 0; if (n) mem_check(p, n * sizeof *p, true, pc);
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue;
      if (!get(p[i].fd)) { p[i].revents = POLLNVAL; k++; continue; }
      u32 r = readiness(p[i].fd); short pr = 0;
      if (r & EPOLLIN) pr |= POLLIN; if (r & EPOLLOUT) pr |= POLLOUT; if (r & EPOLLRDHUP) pr |= POLLRDHUP;
      if (r & EPOLLRDNORM) pr |= POLLRDNORM; if (r & EPOLLWRNORM) pr |= POLLWRNORM;
      pr &= p[i].events; if (r & EPOLLERR) pr |= POLLERR; if (r & EPOLLHUP) pr |= POLLHUP;
      if (pr) { p[i].revents = pr; k++; } }
    if (k) return k;
    if (timeout_ns == 0) return 0;
    Wake w = block(&pollobj, dl, "poll", true);
    if (w == WK_SIGNAL) { errno = EINTR; return -1; }
    if (w == WK_TIMEOUT) { timeout_ns = 0; }
  }
}
int sim_poll(struct pollfd *p, nfds_t n, int t) { return do_poll(p, n, t < 0 ? -1 : (i64)t * 1000000, RA); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return do_poll(p, n, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1, RA); }

// ---------------------------------------------------------------- time
i64 sim_rt_offset = 1700000000ll * 1000000000ll, sim_mono_offset = 0; bool sim_rt_jumped = false;
u64 abs_to_ns(const struct timespec *ts, int clk) { i64 v = ts->tv_sec * 1000000000ll + ts->tv_nsec; v -= clk == CLOCK_REALTIME ? sim_rt_offset : sim_mono_offset; return v <= 0 ? 1 : v; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { sync_point("clock"); mem_check(ts, sizeof *ts, true, RA); if (i64 j = fault(F_CLOCK_JUMP, sc.f[F_CLOCK_JUMP], 1, 200000)) sim_rt_offset += (j - 100000) * 1000000000ll, sim_rt_jumped = true; /* the wall clock is set */ u64 v = now_ns; v += c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_rt_offset : sim_mono_offset; ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { u64 v = now_ns + sim_rt_offset; tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0; }
time_t sim_time(time_t *t) { time_t v = (now_ns + sim_rt_offset) / 1000000000ull; if (t) *t = v; return v; }
static int do_nanosleep(u64 ns, struct timespec *rem) {
  sync_point("nanosleep");
  u64 end = now_ns + ns;
  if (fault(F_SLEEP_EINTR, sc.f[F_SLEEP_EINTR])) { if (rem) { rem->tv_sec = ns / 1000000000ull; rem->tv_nsec = ns % 1000000000ull; } errno = EINTR; return -1; }
  static char obj; Wake w = block(&obj, end ? end : 1, "nanosleep", true);
  if (w == WK_SIGNAL && now_ns < end) { if (rem) { rem->tv_sec = (end - now_ns) / 1000000000ull; rem->tv_nsec = (end - now_ns) % 1000000000ull; } errno = EINTR; return -1; }
  return 0;
}
int sim_nanosleep(const struct timespec *t, struct timespec *rem) { return do_nanosleep(t->tv_sec * 1000000000ull + t->tv_nsec + 1000, rem); }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) { u64 v = t->tv_sec * 1000000000ull + t->tv_nsec; if (fl) { u64 a = abs_to_ns(t, c); v = a > now_ns ? a - now_ns : 0; } return do_nanosleep(v + 1, rem) ? errno : 0; }
int sim_usleep(unsigned us) { return do_nanosleep(us * 1000ull + 1, nullptr); }
unsigned sim_sleep(unsigned s) { return do_nanosleep(s * 1000000000ull + 1, nullptr) ? 1 : 0; }
static struct tm *sim_shared_tm;   // localtime() and gmtime() hand every thread the same structure
static struct tm *shared_tm(const time_t *t) { if (!sim_shared_tm) sim_shared_tm = new struct tm; gmtime_r(t, sim_shared_tm); sync_point("gmtime"); return sim_shared_tm; }
struct tm *sim_localtime(const time_t *t) { return shared_tm(t); }
struct tm *sim_localtime_r(const time_t *t, struct tm *m) { return gmtime_r(t, m); }
struct tm *sim_gmtime(const time_t *t) { return shared_tm(t); }
struct tm *sim_gmtime_r(const time_t *t, struct tm *m) { return gmtime_r(t, m); }

// ---------------------------------------------------------------- signals, limits, misc
static std::map<int, struct sigaction> *handlers;
static std::map<int, u64> *masks;
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) { sync_point("sigaction"); if (fault(F_SIGACTION_FAIL, sc.f[F_SIGACTION_FAIL])) { errno = EINVAL; return -1; } if (!handlers) handlers = new std::map<int, struct sigaction>; if (o) { auto it = handlers->find(s); if (it != handlers->end()) *o = it->second; else { memset(o, 0, sizeof *o); } } if (n) (*handlers)[s] = *n; return 0; }
void (*sim_signal(int s, void (*h)(int)))(int) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; sim_sigaction(s, &a, nullptr); return SIG_DFL; }
int sim_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int sim_sigfillset(sigset_t *s) { memset(s, 0xff, sizeof *s); return 0; }
int sim_sigaddset(sigset_t *s, int n) { ((u64 *)s)[0] |= 1ull << (n - 1); return 0; }
int sim_sigdelset(sigset_t *s, int n) { ((u64 *)s)[0] &= ~(1ull << (n - 1)); return 0; }
static int held_sig;   // a signal every server thread has blocked
int sim_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { if (!masks) masks = new std::map<int, u64>; u64 &m = (*masks)[cur->id]; if (o) { memset(o, 0, sizeof *o); ((u64 *)o)[0] = m; } if (n) { u64 v = ((const u64 *)n)[0]; m = how == SIG_BLOCK ? m | v : how == SIG_UNBLOCK ? m & ~v : v; if (held_sig && !(m >> (held_sig - 1) & 1) && !(cur->in_sig >> (held_sig - 1) & 1)) { cur->pending_sig = held_sig; held_sig = 0; deliver_signals(); } } return 0; }
int sim_sigprocmask(int how, const sigset_t *n, sigset_t *o) { return sim_pthread_sigmask(how, n, o); }
int sim_getrlimit(int, struct rlimit *l) { if (fault(F_RLIMIT_FAIL, sc.f[F_RLIMIT_FAIL])) { errno = EPERM; return -1; } l->rlim_cur = l->rlim_max = std::max(1024, NFD); return 0; }
int sim_setrlimit(int, const struct rlimit *) { if (fault(F_RLIMIT_FAIL, sc.f[F_RLIMIT_FAIL])) { errno = EPERM; return -1; } return 0; }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4; return sysconf(n); }
pid_t sim_getpid(void) { return 4242; }
static u64 rnd_ = 12345;
void sim_srand(unsigned s) { (void)s; }
int sim_rand(void) { rnd_ = rnd_ * 6364136223846793005ull + 1442695040888963407ull; return (int)((rnd_ >> 33) & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned) {}
int sim_rand_r(unsigned *s) { *s = *s * 1103515245 + 12345; return (*s >> 1) & 0x7fffffff; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = sim_rand() >> 7; return n; }
char *sim_setlocale(int, const char *) { return (char *)"C"; }
void sim_exit(int rc) { violate("exit", "exit|" + sig_stack(cur, 2), fmt("code under test called exit(%d) from %s", rc, backtrace_str(cur).c_str())); }
void sim_abort(void) { violate("abort", "abort|" + sig_stack(cur, 2), "code under test called abort() from " + backtrace_str(cur)); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { violate("abort", "assert|" + std::string(e), fmt("assertion %s failed at %s:%u in %s", e, f, l, backtrace_str(cur).c_str())); }
void sim___stack_chk_fail(void) { void *ra = __builtin_return_address(0); violate("memory", "memory|stack-smash|" + sym(ra), "stack smashing detected in " + sym(ra) + " called from " + backtrace_str(cur)); }
int sim_raise(int s) { cur->pending_sig = s; deliver_signals(); return 0; }
int sim_kill(pid_t, int s) { return sim_raise(s); }
char *sim_inet_ntoa(struct in_addr a) { return inet_ntoa(a); }
}
void run_signal_handler(int s) {
  if (trace_on) trace("signal %d delivered in %s", s, backtrace_str(cur).c_str());
  auto it = handlers ? handlers->find(s) : (std::map<int, struct sigaction>::iterator)nullptr;
  if (!handlers || it == handlers->end() || it->second.sa_handler == SIG_DFL) {
    violate("signal", fmt("signal|unhandled-%d|", s) + sig_stack(cur, 2), fmt("signal %d delivered with default disposition: process would be killed, in %s", s, backtrace_str(cur).c_str()));
  }
  if (it->second.sa_handler == SIG_IGN) return;
  u64 was = cur->in_sig; cur->in_sig |= 1ull << (s - 1); for (int i = 1; i < 32; i++) if (sigismember(&it->second.sa_mask, i) == 1) cur->in_sig |= 1ull << (i - 1);
  int d = cur->fdepth;   // errno is left as the handler leaves it, as the kernel does
  if (it->second.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; it->second.sa_sigaction(s, &si, nullptr); } else it->second.sa_handler(s);
  cur->fdepth = d; cur->in_sig = was;
  if (held_sig && !(was >> (held_sig - 1) & 1) && !cur->pending_sig && !(masks && masks->count(cur->id) && ((*masks)[cur->id] >> (held_sig - 1) & 1))) { cur->pending_sig = held_sig; held_sig = 0; }
}
bool net_has_handler(int s) { return handlers && handlers->count(s); }
// deliver a process-directed signal to some server thread
void net_signal(int sig) {
  std::vector<Thread *> c;
  for (auto t : threads) if (t->server && t->st != T_DONE && !(t->in_sig >> (sig - 1) & 1) && !(masks && masks->count(t->id) && ((*masks)[t->id] >> (sig - 1) & 1))) c.push_back(t);
  if (c.empty()) { held_sig = sig; return; }
  Thread *t = c[choose(2, c.size())];
  trace("signal %d -> %s", sig, t->name.c_str()); note_fault(F_SIGNAL);
  sim_post_signal(t, sig);
}
// an injected EAGAIN: signal writability again a little later
static std::vector<std::pair<int, u64>> *later; static char laterobj;
void net_later_writable(int fd, u64 gen) {
  if (!later) {
    later = new std::vector<std::pair<int, u64>>;
    spawn("netpump", false, 65536, []() { for (;;) { while (later->empty()) block(&laterobj, 0, "idle"); block(&later, now_ns + 200000, "delay"); auto v = *later; later->clear(); for (auto &x : v) if (fds[x.first].k == K_CONN && fds[x.first].gen == x.second) { notify(x.first); wake(&fds[x.first].c->sndcap); } } });
  }
  later->push_back({fd, gen}); wake(&laterobj);
}

// ---------------------------------------------------------------- files
static std::map<std::string, std::string> *vfs;
static std::map<FILE *, std::pair<void *, std::string *>> *files;
void vfs_put(const std::string &p, const std::string &c) { if (!vfs) vfs = new std::map<std::string, std::string>; (*vfs)[p] = c; }
extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
  sync_point("fopen");
  if (fault(F_FOPEN_FAIL, sc.f[F_FOPEN_FAIL])) { errno = EMFILE; return nullptr; }
  FILE *f = nullptr; std::string *cp = nullptr;
  if (strchr(mode, 'a') || strchr(mode, 'w')) f = fopen("/dev/null", "w");
  else if (vfs && vfs->count(path)) { cp = new std::string((*vfs)[path]); f = cp->empty() ? fopen("/dev/null", "r") : fmemopen((void *)cp->data(), cp->size(), "r"); }
  else if (strstr(path, ".pem")) f = fopen(real_path(path).c_str(), mode);
  else { errno = ENOENT; return nullptr; }
  if (!files) files = new std::map<FILE *, std::pair<void *, std::string *>>;
  if (f) (*files)[f] = {token_new(), cp};
  return f;
}
int sim_fclose(FILE *f) { sync_point("fclose"); if (files) { auto it = files->find(f); if (it == files->end()) { violate("fd-misuse", "fd-misuse|fclose|" + sig_stack(cur, 2), "fclose of a stream that is not open in " + backtrace_str(cur)); } heap_free(it->second.first); files->erase(it); } int n = fclose(f); if (fault(F_FILE_FAIL, sc.f[F_FILE_FAIL])) { errno = EIO; return EOF; } return n; }
size_t sim_fread(void *b, size_t s, size_t n, FILE *f) { mem_check(b, s * n, true, RA); sync_point("fread"); if (n && fault(F_FILE_FAIL, sc.f[F_FILE_FAIL])) { size_t k = fread(b, s, n / 2, f); f->_flags |= 0x20; errno = EIO; return k; } return fread(b, s, n, f); }
char *sim_fgets(char *b, int n, FILE *f) { return fgets(b, n, f); }
int sim_fseek(FILE *f, long o, int w) { if (fault(F_FILE_FAIL, sc.f[F_FILE_FAIL])) { errno = EIO; return -1; } return fseek(f, o, w); }
long sim_ftell(FILE *f) { if (fault(F_FILE_FAIL, sc.f[F_FILE_FAIL])) { errno = EIO; return -1; } return ftell(f); }
void sim_rewind(FILE *f) { rewind(f); }
int sim_fflush(FILE *) { return 0; }
static char scratch[8192];
int sim_vfprintf(FILE *, const char *f, va_list ap) { int n = vsnprintf(scratch, sizeof scratch, f, ap); if (getenv("SIM_LOG")) fputs(scratch, stdout); return n; }
int sim_fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vfprintf(o, f, ap); va_end(ap); return n; }
int sim_vprintf(const char *f, va_list ap) { return sim_vfprintf(stdout, f, ap); }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vfprintf(stdout, f, ap); va_end(ap); return n; }
int sim_puts(const char *) { return 1; }
int sim_putchar(int c) { return c; }
int sim_fputs(const char *, FILE *) { return 1; }
int sim_fputc(int c, FILE *) { return c; }
size_t sim_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
void sim_perror(const char *) {}
int sim_stat(const char *p, struct stat *st) { memset(st, 0, sizeof *st); if (vfs && vfs->count(p)) { st->st_size = (*vfs)[p].size(); st->st_mode = S_IFREG | 0644; st->st_mtime = 1600000000; return 0; } return stat(p, st); }
int sim_access(const char *p, int m) { sync_point("access"); if (vfs && vfs->count(p)) return 0; return access(p, m); }
char *sim_getenv(const char *n) { return getenv(n); }

// ---------------------------------------------------------------- regex / zlib: real code, tracked life cycle
static std::map<const void *, void *> *toks;
static void tok(const void *p) { if (!toks) toks = new std::map<const void *, void *>; (*toks)[p] = token_new(); }
static bool untok(const void *p) { if (!toks) return false; auto it = toks->find(p); if (it == toks->end()) return false; heap_free(it->second); toks->erase(it); return true; }
int sim_regcomp(regex_t *r, const char *p, int f) { sync_point("regcomp"); if (fault(F_MALLOC, sc.f[F_MALLOC])) return REG_ESPACE; int e = regcomp(r, p, f); if (!e) tok(r); return e; }
int sim_regexec(const regex_t *r, const char *s, size_t n, regmatch_t m[], int f) { mem_check(r, sizeof *r, false, RA); if (s) { for (const char *q = s;; q++) { mem_check(q, 1, false, RA); if (!*q) break; } } if (!toks || !toks->count(r)) violate("memory", "memory|regexec-on-freed|" + sig_stack(cur, 2), "regexec on a freed or uncompiled regex in " + backtrace_str(cur)); return regexec(r, s, n, m, f); }
void sim_regfree(regex_t *r) { sync_point("regfree"); if (!untok(r)) violate("memory", "memory|regfree-twice|" + sig_stack(cur, 2), "regfree of a regex that is not compiled in " + backtrace_str(cur)); regfree(r); }
size_t sim_regerror(int e, const regex_t *r, char *b, size_t n) { return regerror(e, r, b, n); }

static std::map<z_streamp, int> *zbusy;
struct ZG { z_streamp z; ZG(z_streamp s, const char *op) : z(s) {
    mem_check(s, sizeof *s, true, nullptr);
    if (!zbusy) zbusy = new std::map<z_streamp, int>;
    if ((*zbusy)[z]) { violate("race", fmt("race|zstream|%s|", op) + sig_stack(cur, 2), fmt("%s on a z_stream that thread %s is using concurrently; in %s", op, threads[(*zbusy)[z] - 1]->name.c_str(), backtrace_str(cur).c_str())); }
    (*zbusy)[z] = cur->id + 1; sync_point(op); }
  ~ZG() { (*zbusy)[z] = 0; } };
int sim_deflateInit2_(z_streamp s, int l, int m, int w, int ml, int st, const char *v, int sz) { ZG g(s, "deflateInit"); if (fault(F_MALLOC, sc.f[F_MALLOC])) return Z_MEM_ERROR; int r = deflateInit2_(s, l, m, w, ml, st, v, sz); if (r == Z_OK) tok(s); return r; }
int sim_inflateInit2_(z_streamp s, int w, const char *v, int sz) { ZG g(s, "inflateInit"); if (fault(F_MALLOC, sc.f[F_MALLOC])) return Z_MEM_ERROR; int r = inflateInit2_(s, w, v, sz); if (r == Z_OK) tok(s); return r; }
static void zio(z_streamp s, void *pc) { if (s->avail_in) mem_check(s->next_in, s->avail_in, false, pc); if (s->avail_out) mem_check(s->next_out, s->avail_out, true, pc); }
static void zlive(z_streamp s, const char *op) { if (!toks || !toks->count(s)) violate("memory", fmt("memory|%s-on-ended-stream|", op) + sig_stack(cur, 2), fmt("%s on a z_stream that is not initialised in %s", op, backtrace_str(cur).c_str())); }
int sim_deflate(z_streamp s, int f) { ZG g(s, "deflate"); zlive(s, "deflate"); zio(s, RA); return deflate(s, f); }
int sim_inflate(z_streamp s, int f) { ZG g(s, "inflate"); zlive(s, "inflate"); zio(s, RA); return inflate(s, f); }
int sim_deflateReset(z_streamp s) { ZG g(s, "deflateReset"); zlive(s, "deflateReset"); return deflateReset(s); }
int sim_inflateReset(z_streamp s) { ZG g(s, "inflateReset"); zlive(s, "inflateReset"); return inflateReset(s); }
int sim_deflateEnd(z_streamp s) { ZG g(s, "deflateEnd"); zlive(s, "deflateEnd"); untok(s); return deflateEnd(s); }
int sim_inflateEnd(z_streamp s) { ZG g(s, "inflateEnd"); zlive(s, "inflateEnd"); untok(s); return inflateEnd(s); }
uLong sim_deflateBound(z_streamp s, uLong n) { return deflateBound(s, n); }
}
