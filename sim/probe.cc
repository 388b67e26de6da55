// Observations made by the probe subprotocol (a harness plugin the real server loads): life-cycle oracle.
#include "client.h"
#include <arpa/inet.h>
void net_peer(Conn *c, struct sockaddr_in6 *s);
std::string plug_config(const std::string &, const KV &); bool plugin_open(const std::string &);
struct PState { int conn; Client *cl; size_t idx = 0; int busy = 0; bool connecting = true; };
static std::map<int, PState> open_; static std::set<int> connected; static int allocs, inits, destroys; static u64 events; static std::string cookies_;
static void pv(const std::string &key, const std::string &msg) { violate("lifecycle", "lifecycle|" + key, msg + " (by " + cur->name + " in " + backtrace_str(cur) + ")"); }
static int active, met; static char met_obj;
struct Active { Active() { if (++active > W.cfg.i("workers", 2) * (W.cfg.i("ssl", 0) ? 2 : 1)) pv("workers", fmt("%d events are handled at once by %lld workers", active, (long long)W.cfg.i("workers", 2))); } ~Active() { active--; } };
static void meet() { int n = W.cfg.i("meet", 0); met++; wake(&met_obj); u64 dl = now_ns + 5000000000ull; while (met < n && now_ns < dl) block(&met_obj, dl, "meeting"); if (met < n) pv("not-concurrent", fmt("%d of %d messages are handled at once, with %lld workers", met, n, (long long)W.cfg.i("workers", 2))); static char o; block(&o, now_ns + 1 + events * 7919 % 3000000, "meeting"); }
static void pause_(u64 h) { sync_point("probe"); if (h % 7 == 0) { static char o; block(&o, now_ns + 1 + h % 300000, "slow subprotocol"); } sync_point("probe"); }
extern "C" void probe_event(int type, int fd, const void *a, size_t n, const char *s1, const char *s2, int port) {
  if (!in_sim) return;
  events++; R->st.evals++;
  for (const char *s : {s1, s2}) if (s) for (;; s++) { mem_check(s, 1, false, __builtin_return_address(0)); if (!*s) break; }   // the strings handed over end inside their memory
  trace("probe event %d fd %d n %zu", type, fd, n);
  if (!plugin_open("probe")) pv("unloaded", fmt("event %d for descriptor %d although the plugin is not loaded", type, fd));
  if (destroys) pv("after-destroy", fmt("event %d for descriptor %d after the destroy event", type, fd));
  if (type >= 2 && type != 6 && !inits) pv("before-init", fmt("event %d before the subprotocol was initialised", type));
  switch (type) {
    case 0: if (inits) pv("allocators-late", "allocators set after initialisation"); if (!n) pv("allocators-null", "a null allocator was passed"); allocs++; return;
    case 1: if (inits++) pv("init-twice", "initialised twice"); if (!allocs) pv("init-without-allocators", "initialised before the allocators were set"); if (!s1 || s1 != plug_config("probe", W.cfg)) pv("config", fmt("initialised with the configuration '%s', its own is '%s'", s1 ? s1 : "(null)", plug_config("probe", W.cfg).c_str())); return;
    case 8: cookies_ = s1 ? s1 : "(null)"; return;
    case 2: {
      std::string ck = cookies_;
      if (open_.count(fd)) pv("connect-twice", fmt("connect event for descriptor %d which is still connected", fd));
      Conn *c = net_conn_by_fd(fd); Client *k = nullptr; if (c) for (auto x : W.clients) if (x->c == c) k = x;
      if (!c || !k) pv("connect-unknown", fmt("connect event for descriptor %d which is no connection", fd));
      if (!connected.insert(c->id).second) pv("connect-twice", fmt("second connect event for connection %d", c->id));
      if (k->hs_expect != 101 || k->spec.kv.s("sub") != "probe") pv("connect-not-upgraded", fmt("connect event for client %d whose request '%s' is not to be upgraded to this subprotocol", k->id, k->hs_req.c_str()));
      struct sockaddr_in6 pa; net_peer(c, &pa); char ip[64]; inet_ntop(AF_INET6, &pa.sin6_addr, ip, sizeof ip);
      if (!s1 || std::string(s1) != ip) pv("ip", fmt("client address '%s', expected '%s'", s1 ? s1 : "(null)", ip));
      if (port != ntohs(pa.sin6_port)) pv("port", fmt("client port %d, expected %d", port, ntohs(pa.sin6_port)));
      std::string want = k->spec.kv.s("path", "/"); if (want.find('?') != std::string::npos && s2 && std::string(s2).find('?') == std::string::npos) want = want.substr(0, want.find('?'));
      std::string got = s2 ? s2 : "(null)"; if (got != want && "/" + got != want) pv("path", fmt("path '%s', expected '%s'", got.c_str(), want.c_str()));
      size_t q = k->hs_req.find("ookie:"); if (q == Bytes::npos) q = k->hs_req.find("OOKIE:");
      open_[fd] = PState{c->id, k}; Active a; pause_(c->id * 31 + events); if (!open_.count(fd)) pv("close-during-connect", fmt("close event for descriptor %d during its connect event", fd)); open_[fd].connecting = false; (void)ck; return; }
    case 3: {
      auto it = open_.find(fd); if (it == open_.end()) pv("message-not-connected", fmt("message event for descriptor %d which is not connected", fd));
      PState &p = it->second; Conn *c = net_conn_by_fd(fd);
      if (p.connecting) pv("message-during-connect", fmt("message event for client %d during its connect event", p.cl->id));
      if (p.busy++) pv("message-concurrent", fmt("two message events of client %d at once", p.cl->id));
      if (!c || c->id != p.conn) pv("message-wrong-connection", fmt("message event for descriptor %d after its connection %d ended without a close event", fd, p.conn));
      if (n) mem_check(a, n, false, nullptr);
      Bytes m((const char *)a, n);
      if (p.cl->loose) { pause_(n * 131 + events); if (!open_.count(fd)) pv("close-during-message", fmt("close event for descriptor %d during a message event", fd)); return; }   // it spoke before the answer, what counts as its messages is open
      if (p.idx >= p.cl->sent.size()) pv("message-extra", fmt("message event %zu of client %d, which sent only %zu messages", p.idx, p.cl->id, p.cl->sent.size()));
      Sent &s = p.cl->sent[p.idx];
      if (m != s.data) pv("message-content", fmt("message %zu of client %d was delivered as %zu bytes, it has %zu or differs", p.idx, p.cl->id, m.size(), s.data.size()));
      if ((port == 1) != s.text || (port != 1 && port != 2)) pv("message-type", fmt("message %zu of client %d was delivered with opcode %d", p.idx, p.cl->id, port));
      p.idx++; R->st.nontrivial++; u64 g = p.conn; Active a; if (W.cfg.has("meet") && p.idx == 1) meet(); pause_(n * 131 + events);
      if (!open_.count(fd) || (u64)open_[fd].conn != g) pv("close-during-message", fmt("close event for descriptor %d during a message event", fd));
      return; }
    case 7: { auto it = open_.find(fd); if (it == open_.end()) pv("close-during-message", fmt("close event for descriptor %d during a message event", fd)); it->second.busy--; return; }
    case 5: {
      auto it = open_.find(fd); if (it == open_.end()) pv("close-not-connected", fmt("close event for descriptor %d which is not connected", fd));
      if (it->second.busy || it->second.connecting) pv("close-during-message", fmt("close event for descriptor %d during another event of it", fd));
      Conn *c = net_conn_by_fd(fd); if (!c || c->id != it->second.conn) pv("close-wrong-connection", fmt("close event for descriptor %d which no longer belongs to the connection", fd));
      open_.erase(it); pause_(events * 17); return; }
    case 6: if (destroys++) pv("destroy-twice", "destroyed twice"); if (!inits) pv("destroy-without-init", "destroyed without having been initialised"); if (!open_.empty()) pv("destroy-connected", fmt("destroyed although descriptor %d had no close event", open_.begin()->first)); return;
  }
}
// when the server has stopped: everyone who was upgraded was announced, and everything ended
void probe_final() {
  if (!inits || W.lenient) return;
  R->st.evals++;
  if (destroys != 1) pv("not-destroyed", "the server stopped without a destroy event");
  for (auto k : W.clients) if (k->c && k->hs_done && k->hs_status == 101 && k->spec.kv.s("sub") == "probe" && !connected.count(k->c->id)) pv("no-connect", fmt("client %d was upgraded but no connect event occurred", k->id));
}
