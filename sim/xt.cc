// The harness extensions xa and xb (plugins the real server loads): what they observe, and the client's side of what they do.
#include "client.h"
bool plugin_open(const std::string &);
#include <algorithm>
typedef struct { bool fin, rsv1, rsv2, rsv3; uint8_t opcode; bool mask; uint64_t payloadLength; char maskingKey[4]; char *payload; uint64_t extensionDataLength, applicationDataLength; } frame_t;
struct XS { int conn; Client *cl; unsigned key; bool ed; bool busy[2] = {}; u64 pos[2] = {}; unsigned ctr[2] = {}; std::vector<void *> seen[2]; };
static std::map<int, XS> open_[2]; static std::map<int, int> tries[2]; static int allocs[2], inits[2], destroys[2]; static u64 events;
static std::map<int, std::set<int>> opened[2];
static const char *name_(int x) { return x ? "xb" : "xa"; }
static void xv(const std::string &key, const std::string &msg) { violate("extension", "extension|" + key, msg + " (by " + cur->name + " in " + backtrace_str(cur) + ")"); }
std::string xt_config(const std::string &n) { return n == "xa" ? "key=41" : "key=97"; }
static std::string squash(const std::string &s) { std::string o; for (char c : s) if (c != ' ' && c != '\t') o += c; return o; }
// the rules of both sides: k=0..255 and, for xb, ed; each at most once
static bool xt_params(int x, const std::string &p, unsigned &key, bool &ed, std::string &acc) {
  key = x ? 97 : 41; ed = false; acc.clear(); bool k = false; std::string q = squash(p);
  for (size_t i = 0; i < q.size();) { size_t e = q.find(';', i); if (e == std::string::npos) e = q.size(); std::string t = q.substr(i, e - i); i = e + 1;
    if (t.empty()) continue;
    if (t.size() > 2 && t.size() < 6 && t.compare(0, 2, "k=") == 0 && t.find_first_not_of("0123456789", 2) == std::string::npos && !k && atoi(t.c_str() + 2) < 256) { k = true; key = atoi(t.c_str() + 2); }
    else if (x && t == "ed" && !ed) ed = true; else return false;
    acc += (acc.size() ? "; " : "") + t; }
  return true;
}
static std::vector<std::string> cut(const std::string &s, char c) { std::vector<std::string> r; std::string t; for (char x : s + c) if (x == c) { r.push_back(t); t.clear(); } else t += x; return r; }
static std::string offered(const Client *k) {   // all the lines of it in the request, in their order
  std::string e; size_t i = 0; const std::string &q = k->hs_req;
  while (i < q.size()) { size_t n = q.find("\r\n", i); if (n == std::string::npos) n = q.size(); if (n - i > 25 && !strncasecmp(q.c_str() + i, "Sec-WebSocket-Extensions:", 25)) e += (e.size() ? "," : "") + q.substr(i + 25, n - i - 25); i = n + 2; }
  return e;
}
static u8 ks(int x, int dir, unsigned key, u64 pos) { u64 z = (pos + 1) * 0x9E3779B97F4A7C15ull ^ (key * 1000003ull + x * 77 + dir * 7919); z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return z >> 40; }
static u8 enc(int x, u8 b, u8 k) { return x ? b + k : b ^ k; }
static u8 dec(int x, u8 b, u8 k) { return x ? b - k : b ^ k; }
static XS &state(int x, int fd, const char *what) {
  if (destroys[x]) xv("after-destroy", fmt("%s of %s for descriptor %d after it was destroyed", what, name_(x), fd));
  auto it = open_[x].find(fd); if (it == open_[x].end()) xv("not-open", fmt("%s of %s for descriptor %d, which was not opened or has been closed", what, name_(x), fd));
  Conn *c = net_conn_by_fd(fd); if (!c || c->id != it->second.conn) xv("wrong-connection", fmt("%s of %s for descriptor %d, which no longer belongs to connection %d it was opened for", what, name_(x), fd, it->second.conn));
  return it->second;
}
static void pause_(u64 h) { sync_point("extension"); if (h % 9 == 0) { static char o; block(&o, now_ns + 1 + h % 200000, "slow extension"); } sync_point("extension"); }
extern "C" int xt_event(int x, int type, int fd, const char *s, char *accepted) {
  R->st.evals++; events++; trace("extension %s event %d fd %d '%s'", name_(x), type, fd, s ? s : "(null)");
  if (s) for (const char *p = s;; p++) { mem_check(p, 1, false, __builtin_return_address(0)); if (!*p) break; }
  if (!plugin_open(name_(x))) xv("unloaded", fmt("event %d of %s although it is not loaded", type, name_(x)));
  if (type != 4 && destroys[x]) xv("after-destroy", fmt("event %d of %s after it was destroyed", type, name_(x)));
  if (type >= 2 && !inits[x]) xv("before-init", fmt("event %d of %s before it was initialised", type, name_(x)));
  switch (type) {
    case 0: if (!s) xv("allocators-null", "a null allocator was passed"); if (inits[x]) xv("allocators-late", "allocators set after initialisation"); allocs[x]++; return 1;
    case 1: if (inits[x]++) xv("init-twice", fmt("%s was initialised twice", name_(x))); if (!allocs[x]) xv("init-without-allocators", "initialised before the allocators were set"); if (!s || s != xt_config(name_(x))) xv("config", fmt("%s was given the configuration '%s', its own is '%s'", name_(x), s ? s : "(null)", xt_config(name_(x)).c_str())); return 1;
    case 2: {
      Conn *c = net_conn_by_fd(fd); Client *k = nullptr; if (c) for (auto y : W.clients) if (y->c == c) k = y;
      if (!c || !k) xv("open-unknown", fmt("%s opened for descriptor %d which is no connection", name_(x), fd));
      if (open_[x].count(fd)) xv("open-twice", fmt("%s opened for descriptor %d which has it open (for connection %d)", name_(x), fd, open_[x][fd].conn));
      int n = tries[x][c->id]++, i = 0; std::string want = "?", got = s ? squash(s) : "";
      for (auto &e : cut(offered(k), ',')) { size_t q = e.find(';'); if (squash(e.substr(0, q)) == name_(x) && i++ == n) want = q == std::string::npos ? "" : squash(e.substr(q + 1)); }
      auto bare = [](std::string t) { while (t.size() && t.back() == ';') t.pop_back(); return t; };
      if (bare(got) != bare(want)) xv("parameters", fmt("offer %d of %s by client %d has the parameters '%s', it is given '%s'", n, name_(x), k->id, want.c_str(), got.c_str()));
      XS st; st.conn = c->id; st.cl = k; std::string acc; if (!xt_params(x, got, st.key, st.ed, acc)) return 0;
      open_[x][fd] = st; opened[x][fd].insert(c->id); strcpy(accepted, acc.c_str()); pause_(events * 31); return 1; }
    case 3: { XS &st = state(x, fd, "close"); if (st.busy[0] || st.busy[1]) xv("close-while-busy", fmt("%s closed for descriptor %d while it handles frames of it", name_(x), fd)); open_[x].erase(fd); pause_(events * 17); return 1; }
    case 4: if (destroys[x]++) xv("destroy-twice", "destroyed twice"); if (!inits[x]) xv("destroy-without-init", "destroyed without having been initialised"); if (!open_[x].empty() && !W.lenient) xv("destroy-open", fmt("%s was destroyed although it is open for descriptor %d", name_(x), open_[x].begin()->first)); return 1;
    case 5: open_[x].erase(fd); return 1;
  }
  return 0;
}
extern "C" int xt_begin(int x, int dir, int each, int fd, frame_t **f, size_t n) {
  XS &st = state(x, fd, dir ? "output" : "input"); R->st.evals++; events++; const char *d = dir ? "output" : "input";
  if (st.busy[dir]) xv("concurrent", fmt("two %s events of %s for descriptor %d at once", d, name_(x), fd));
  st.busy[dir] = true; mem_check(f, n * sizeof *f, false, nullptr);
  if (!n) xv("no-frames", fmt("%s event of %s without frames", d, name_(x)));
  for (size_t i = 0; i < n; i++) { mem_check(f[i], sizeof **f, true, nullptr); if (f[i]->payloadLength) mem_check(f[i]->payload, f[i]->payloadLength, true, nullptr); if (f[i]->payloadLength != f[i]->extensionDataLength + f[i]->applicationDataLength) xv("lengths", fmt("a frame of %llu bytes with %llu bytes of extension and %llu bytes of application data", (unsigned long long)f[i]->payloadLength, (unsigned long long)f[i]->extensionDataLength, (unsigned long long)f[i]->applicationDataLength)); }
  std::vector<void *> &seen = st.seen[dir]; pause_(events * 131);
  // input: every frame, then the message they make up; output: the message, then every frame
  if (each) { if (dir == 0) seen.push_back(f[0]); else { if (seen.empty() || seen[0] != f[0]) xv("frame-order", fmt("the frame output by %s is not the next one of the message", name_(x))); seen.erase(seen.begin()); } }
  else {
    std::vector<void *> v(f, f + n);
    if (dir == 0) { if (seen != v) xv("frame-order", fmt("the %zu frames of the message input by %s are not the %zu seen before", n, name_(x), seen.size())); seen.clear(); }
    else { if (!seen.empty()) xv("frame-order", fmt("%zu frames of the previous message were not output by %s", seen.size(), name_(x))); seen = v; }
    for (size_t i = 0; i < n; i++) if (f[i]->fin != (i + 1 == n) || (f[i]->opcode == 0) != (i > 0)) xv("not-a-message", fmt("the %zu frames handed to %s as a message are not one: frame %zu has fin %d and opcode %d", n, name_(x), i, f[i]->fin, f[i]->opcode));
  }
  if (f[0]->opcode >= 8) return 0;
  bool rsv = x ? f[0]->rsv3 : f[0]->rsv2; if (each != x && dir == 0 && !rsv) xv("unmarked", fmt("client %d marked a message for %s and the mark is missing", st.cl->id, name_(x)));
  R->st.nontrivial++; return each == x ? 0 : st.ed ? 2 : 1;
}
extern "C" void xt_end(int x, int dir, int fd) { pause_(events * 7); XS &st = state(x, fd, dir ? "output" : "input"); st.busy[dir] = false; }
extern "C" void xt_bytes(int x, int dir, int fd, void *p, size_t n) { XS &st = open_[x][fd]; if (n) mem_check(p, n, true, nullptr); u8 *b = (u8 *)p; for (size_t i = 0; i < n; i++) { u8 k = ks(x, dir, st.key, st.pos[dir]++); b[i] = dir ? enc(x, b[i], k) : dec(x, b[i], k); } }
extern "C" void xt_count(int x, int dir, int fd, unsigned char *two) {
  XS &st = open_[x][fd]; unsigned c = st.ctr[dir]++ & 0xffff;
  if (dir) { two[0] = c >> 8; two[1] = c; return; }
  if (!two || (two[0] << 8 | two[1]) != (int)c) xv("message-order", fmt("message %u of client %d for %s carries number %d", c, st.cl->id, name_(x), two ? two[0] << 8 | two[1] : -1));
}
// ---- the client's side
struct XL { int x; unsigned key; bool ed; u64 pos[2] = {}; unsigned ctr[2] = {}; };   // x 2: permessage-deflate
static std::map<Client *, std::vector<XL>> chain;
bool xt_used() { return W.cfg.has("exts"); }
int Client::xt_has(int x) { for (auto &l : chain[this]) if (l.x == x) return 1; return 0; }
// the answer accepts, in the order of the offers, the first good offer of every extension the server has
void Client::xt_negotiated(const std::string &v) {
  std::vector<std::string> have = cut(W.cfg.s("exts"), ','); std::vector<XL> &ch = chain[this]; std::string want; std::vector<std::string> parts = v.empty() ? std::vector<std::string>() : cut(v, ','); size_t at = 0; std::set<std::string> in;
  for (auto &e : cut(offered(this), ',')) {
    size_t q = e.find(';'); std::string n = squash(e.substr(0, q)), p = q == std::string::npos ? "" : e.substr(q + 1), acc; if (in.count(n) || std::find(have.begin(), have.end(), n) == have.end()) continue;
    XL l; l.ed = false; l.key = 0; l.x = n == "xa" ? 0 : n == "xb" ? 1 : 2;
    if (l.x == 2) { bool clean = p.find_first_not_of(" ;") == std::string::npos || squash(p) == "client_max_window_bits"; if (!clean && (at >= parts.size() || squash(parts[at]).compare(0, 18, "permessage-deflate"))) continue; }   // its own rules are checked below
    else if (!xt_params(l.x, p, l.key, l.ed, acc)) continue;
    in.insert(n);
    if (at >= parts.size()) { vkey = "not-negotiated"; viol("extension", fmt("the answer '%s' to the offers '%s' lacks %s", v.c_str(), offered(this).c_str(), n.c_str())); return; }
    std::string got = parts[at++]; 
    if (l.x == 2) { negotiated(squash(got)); } else if (squash(got) != squash(n + (acc.size() ? ";" + acc : ""))) { vkey = "answer"; viol("extension", fmt("the answer '%s' to the offers '%s' has '%s' where '%s; %s' is expected", v.c_str(), offered(this).c_str(), got.c_str(), n.c_str(), acc.c_str())); }
    ch.push_back(l);
  }
  if (at != parts.size()) { vkey = "not-offered"; viol("extension", fmt("the answer '%s' to the offers '%s' accepts more than it may", v.c_str(), offered(this).c_str())); }
}
Bytes Client::xt_encode(const Bytes &m, int flush, bool comp, int &rsv) {
  Bytes o = m; rsv = 0;
  for (auto &l : chain[this]) {
    if (l.x == 2) { if (comp) { o = pmd_deflate(o, flush); rsv |= 4; } continue; }
    for (auto &b : o) b = enc(l.x, b, ks(l.x, 0, l.key, l.pos[0]++));
    if (l.x) { unsigned c = l.ctr[0]++; o.insert(0, Bytes{(char)(c >> 8), (char)c}); }
    rsv |= l.x ? 1 : 2;
  }
  return o;
}
bool Client::xt_decode(Bytes &m, bool rsv1) {
  auto &ch = chain[this];
  for (size_t i = ch.size(); i-- > 0;) { auto &l = ch[i];
    if (l.x == 2) { if (rsv1) { Bytes o; if (!pmd_inflate(m, o)) { vkey = "inflate"; viol("extension", fmt("server message does not decompress: %s", hexs(m).c_str())); return false; } m = o; } continue; }
    if (l.x) { unsigned c = l.ctr[1]++ & 0xffff; if (m.size() < 2 || ((u8)m[0] << 8 | (u8)m[1]) != (int)c) { vkey = "message-order"; viol("extension", fmt("server message %u carries another number: %s", c, hexs(m).c_str())); return false; } m.erase(0, 2); }
    for (auto &b : m) b = dec(l.x, b, ks(l.x, 1, l.key, l.pos[1]++)); }
  return true;
}
int xt_open() { return open_[0].size() + open_[1].size(); }
void xt_final() { if (!xt_used() || W.lenient) return; for (int x = 0; x < 2; x++) if (inits[x] && !destroys[x]) xv("not-destroyed", fmt("the server stopped without destroying %s", name_(x))); for (auto &n : cut(W.cfg.s("exts"), ',')) if (n != "permessage-deflate" && !inits[n == "xb"]) xv("not-initialised", n + " was never initialised"); }
