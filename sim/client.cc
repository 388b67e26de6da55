// Simulated WebSocket clients: scripted writer, parsing reader, and the history oracles.
#include "client.h"
#include <algorithm>
#include <openssl/evp.h>

Bytes b64(const Bytes &in) {
  static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Bytes o;
  for (size_t i = 0; i < in.size(); i += 3) { u32 v = (u8)in[i] << 16 | (i + 1 < in.size() ? (u8)in[i + 1] << 8 : 0) | (i + 2 < in.size() ? (u8)in[i + 2] : 0);
    o += a[v >> 18]; o += a[v >> 12 & 63]; o += i + 1 < in.size() ? a[v >> 6 & 63] : '='; o += i + 2 < in.size() ? a[v & 63] : '='; }
  return o;
}
static Bytes sha1(const Bytes &m) {   // small independent SHA-1
  u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; Bytes p = m; p += (char)0x80; while (p.size() % 64 != 56) p += '\0';
  u64 bl = m.size() * 8; for (int i = 7; i >= 0; i--) p += (char)(bl >> (8 * i));
  auto rol = [](u32 x, int n) { return x << n | x >> (32 - n); };
  for (size_t o = 0; o < p.size(); o += 64) { u32 w[80]; for (int i = 0; i < 16; i++) w[i] = (u8)p[o + 4 * i] << 24 | (u8)p[o + 4 * i + 1] << 16 | (u8)p[o + 4 * i + 2] << 8 | (u8)p[o + 4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) { u32 f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
      u32 t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
  Bytes r; for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r += (char)(h[i] >> (8 * j)); return r;
}
Bytes sha1_b64_accept(const Bytes &key) { return b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

World W;

std::string hexs(const Bytes &b, size_t max) { std::string s; for (size_t i = 0; i < b.size() && i < max; i++) s += fmt("%02x", (u8)b[i]); if (b.size() > max) s += fmt("..(%zu)", b.size()); return s; }

// ---------------------------------------------------------------- permessage-deflate offers
typedef std::map<std::string, std::string> Offer;
static std::string strip(const std::string &t) { size_t a = t.find_first_not_of(" \t"), b = t.find_last_not_of(" \t"); return a == std::string::npos ? "" : t.substr(a, b - a + 1); }
static std::vector<std::string> split(const std::string &v, char c) { std::vector<std::string> o; std::string t; for (char x : v + c) { if (x == c) { o.push_back(strip(t)); t.clear(); } else t += x; } return o; }
static bool parse_offer(const std::string &v, std::string &name, Offer &o) {
  auto tok = split(v, ';'); name = tok[0]; o.clear();
  for (size_t i = 1; i < tok.size(); i++) { if (tok[i].empty()) continue; std::string n = tok[i], val; size_t e = n.find('='); if (e != std::string::npos) { val = strip(n.substr(e + 1)); n = strip(n.substr(0, e)); if (val.empty()) return false; } if (o.count(n)) return false; o[n] = val; }
  return true;
}
static bool bits_ok(const std::string &v, int lo) { if (v.empty() || v.size() > 2 || v.find_first_not_of("0123456789") != std::string::npos) return false; int b = atoi(v.c_str()); return b >= lo && b <= 15; }
static bool legal_offer(const Offer &o, int lo) {   // lo: the smallest window the server has to support
  for (auto &x : o) {
    if (x.first == "server_no_context_takeover" || x.first == "client_no_context_takeover") { if (x.second.size()) return false; }
    else if (x.first == "server_max_window_bits") { if (!bits_ok(x.second, lo)) return false; }
    else if (x.first == "client_max_window_bits") { if (x.second.size() && !bits_ok(x.second, 8)) return false; }
    else return false;
  }
  return true;
}
static std::vector<Offer> offers_of(const std::string &spec, int lo) { std::vector<Offer> r; for (auto &e : split(spec, ',')) { std::string n; Offer o; if (parse_offer(e, n, o) && n == "permessage-deflate" && legal_offer(o, lo)) r.push_back(o); } return r; }
static std::string offer_text(const KV &k) { std::string e = k.s("ext"); for (auto &x : e) if (x == '+') x = ' '; return e; }

// ---------------------------------------------------------------- handshake requests
// A request is described semantically; the expected outcome follows from the description.
struct HsReq { Bytes bytes; int expect; Bytes key; std::string sub; bool offered_pmd; };
static HsReq build_handshake(const Client &c) {
  const KV &k = c.spec.kv; HsReq h; Rng r(k.i("hseed", 1) * 77 + c.id); h.expect = 101;
  Bytes key16 = gen_payload(k.i("hseed", 1) * 131 + c.id, 16, false, 0); h.key = b64(key16);
  std::string bad = k.s("hsbad", ""); std::string path = k.s("path", "/"); std::string method = "GET", ver = "HTTP/1.1";
  std::vector<std::string> hd; bool two_subs = false; int fancy = k.i("fancy", 0);
  auto nm = [&](const char *n) { std::string s = n; if (fancy && r.chance(0.3)) for (auto &x : s) x = r.chance(0.5) ? toupper(x) : tolower(x); return s; };
  auto ows = [&]() -> std::string { if (!fancy) return " "; switch (r.below(5)) { case 0: return ""; case 1: return "  "; default: return " "; } };
  auto tail = [&]() -> std::string { if (!fancy) return ""; return r.chance(0.15) ? " " : ""; };
  auto add = [&](const char *n, const std::string &v) { hd.push_back(nm(n) + ":" + ows() + v + tail()); };
  h.sub = k.s("sub", "");
  auto any = [&](std::initializer_list<const char *> l) -> std::string { return *(l.begin() + r.below(l.size())); };
  if (bad != "nohost") add("Host", bad == "host" ? any({"evil.example.com", "localhost.evil.com", "localhos", "localhost2", "xlocalhost", "example.or", "localhost,example.org", "l", "localhost:1", "localhost:", "localhost:90801", "localhost:44", "example.org:9080:9080", ":9080", "example.org 9080"}) : k.s("host", "localhost"));
  if (bad == "noupgrade") h.expect = 426; else if (bad == "upgrade") { add("Upgrade", "h2c"); h.expect = 426; } else add("Upgrade", fancy && r.chance(0.3) ? "WebSocket" : "websocket");
  if (bad == "noconn") h.expect = 426; else if (bad == "conn") { add("Connection", "keep-alive, close"); h.expect = 426; } else add("Connection", fancy && r.chance(0.4) ? "keep-alive, Upgrade" : "Upgrade");
  if (bad == "nokey") h.expect = 426; else if (bad == "key") { add("Sec-WebSocket-Key", b64(key16.substr(0, 1 + r.below(15)))); h.expect = 426; }
  else if (bad == "key17") { add("Sec-WebSocket-Key", b64(key16 + "x")); h.expect = 426; } else add("Sec-WebSocket-Key", h.key);
  if (bad == "dupkey") { add("Sec-WebSocket-Key", h.key); h.expect = 400; }
  if (bad == "nover") h.expect = 501; else if (bad == "ver") { add("Sec-WebSocket-Version", any({"99", "12", "14", "4", "5", "6", "0", "3", "-13", "abc", "130", "4, 5, 6", "1"})); h.expect = 501; } else add("Sec-WebSocket-Version", k.s("wsver", fancy && r.chance(0.3) ? any({"99, 13", "8", "7", "8, 13", "13, 8", "7,8", "5, 13, 99"}) : "13"));
  if (bad == "dupver") { add("Sec-WebSocket-Version", "8"); h.expect = 400; }
  if (bad == "method") { method = r.chance(0.5) ? "POST" : "get"; h.expect = 405; }
  if (bad == "http") { ver = r.chance(0.5) ? "HTTP/1.0" : "HTTP/2.0"; h.expect = 505; }
  if (bad == "path") { path = "relative/path"; h.expect = 400; }
  if (bad == "scheme") { path = "http://localhost/"; h.expect = 426; }
  if (bad == "longuri") { path = "/" + std::string(k.i("urilen", 300), 'a'); h.expect = 414; }
  if (bad == "longhdr") { add("X-Long", std::string(k.i("hdrlen", 600), 'b')); h.expect = 431; }
  if (bad == "host") h.expect = 400;
  if (bad == "nohost") h.expect = 400;
  if (bad == "badpath") { path = W.has_paths ? any({"/not/allowed", "/chatx", "/xchat", "/cha", "/room/", "/room/x", "/room/12a", "/chat/", "/chat?token=ABC", "/chat?other=1", "/chat?token=abc&other=x", "//chat", "/?x=1", "/chat?token=a&", "/chat&token=a", "/chatroom/1", "/caf\xc3", "/\xe2\x82", "/caf\xc3\xaa", "/\xf0\x90\x80\x80x", "/v1x0", "ws://evil.com/chat", "wss://evil.com/chat", "ws://localhost:1/chat", "wss://localhost:1/chat", "ws://localhost:90800/chat", k.i("tls", 0) ? "ws://localhost/chat" : "wss://localhost/chat"}) : any({"/not/allowed", "/x", "/chat", "//"}); h.expect = (i64)path.size() > W.size_uri ? 414 : 404; }
  if (bad == "badorigin") { add(r.chance(0.2) ? "Sec-WebSocket-Origin" : "Origin", any({"http://evil.example.com", "http://localhost.evil.com", "http://localhos", "http://localhost2", "https://localhost", "xhttp://localhost", "null", "http://localhost,https://example.org"})); h.expect = 403; }
  else if (k.has("origin")) add(k.s("wsver") == "8" || (fancy && r.chance(0.3)) ? "Sec-WebSocket-Origin" : "Origin", k.s("origin"));   // the name in older drafts
  if (bad == "favicon") { path = "/favicon.ico"; h.expect = W.favicon ? 200 : 404; }
  if (h.sub.size() && fancy && k.has("sub2") && r.chance(0.6)) {   // whatever surrounds it, the first available one counts
    std::string l; for (int i = r.below(3); i > 0; i--) l += any({"nonsense", "ech", "echoo", "x", "roadcast", "broadcasts", "a-b.c"}) + any({", ", ",", " , "}); l += h.sub;
    for (int i = 1 + r.below(3); i > 0; i--) l += any({", ", ",", " , "}) + (r.chance(0.6) ? k.s("sub2") : r.chance(0.3) ? h.sub : any({"nonsense", "ech", "echoo", ""})); add("Sec-WebSocket-Protocol", l); }
  else if (h.sub.size() && fancy && k.has("sub2") && r.chance(0.6)) { two_subs = true; }
  else if (h.sub.size() && fancy && r.chance(0.15)) add("Sec-WebSocket-Protocol", any({", ", ",,", "nonsense,,", "echo2, ", "ech,", "x ,  y,"}) + h.sub + any({"", ",", ", ,"}));
  else if (h.sub.size() && fancy && bad.empty() && r.chance(0.15)) { add("Sec-WebSocket-Protocol", any({"nonsense", "ech", "echoo"})); add("Sec-WebSocket-Protocol", h.sub); }
  else if (h.sub.size()) add("Sec-WebSocket-Protocol", fancy && r.chance(0.4) ? (r.chance(0.5) ? "nonsense, " + h.sub : h.sub + ", nonsense") : h.sub);
  else if (fancy && r.chance(0.2)) add("Sec-WebSocket-Protocol", "nonsense");
  if (k.has("ext")) { std::string e = offer_text(k); if (fancy && e.find(',') != std::string::npos && r.chance(0.6)) for (auto &x : split(e, ',')) add("Sec-WebSocket-Extensions", x); else add("Sec-WebSocket-Extensions", e); h.offered_pmd = true; }
  else h.offered_pmd = false;
  if (fancy && !k.has("ext") && r.chance(0.2)) add("Sec-WebSocket-Extensions", "x-unknown-ext; a=b");
  if (fancy) { if (r.chance(0.4)) add("User-Agent", "sim/1.0 (test)"); if (r.chance(0.3)) add("Cookie", "a=b; c=d"); if (r.chance(0.2)) add("X-Empty", ""); if (r.chance(0.2)) add("X-Colons", "a:b:c"); if (r.chance(0.3)) add("Cache-Control", "no-cache"); if (!k.has("origin") && bad != "badorigin" && !W.has_origins && r.chance(0.3)) add("Origin", "http://localhost"); }
  if (fancy && r.chance(0.4)) for (int i = 1 + r.below(3); i > 0; i--) {   // headers that only look like one that matters
    std::string n = any({"Host", "Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Origin", "Sec-WebSocket-Version", "Cookie"});
    switch (r.below(4)) { case 0: n[r.below(n.size())] = 'q'; break; case 1: n.pop_back(); break; case 2: n += any({"x", "-", "z"}); break; default: n = any({"X-", "x", "A"}) + n; }
    hd.push_back(n + ": " + any({"websocket", "Upgrade", "13", "8", "99", h.key.c_str(), "evil.example.com", "localhost", "http://evil.example.com", "echo", "broadcast", "permessage-deflate", ""}));
  }
  if (fancy) for (size_t i = hd.size(); i > 1; i--) std::swap(hd[i - 1], hd[r.below(i)]);
  if (two_subs) { size_t i = r.below(hd.size() + 1); hd.insert(hd.begin() + i, "Sec-WebSocket-Protocol: " + h.sub); hd.insert(hd.begin() + i + 1 + r.below(hd.size() - i), nm("Sec-WebSocket-Protocol") + ":" + ows() + k.s("sub2")); }   // the first one that is supported counts
  if (bad == "emptyup") { for (auto &x : hd) if (strncasecmp(x.c_str(), "upgrade:", 8) == 0) x = "Upgrade:"; h.expect = 426; }
  if (bad == "emptykey") { for (auto &x : hd) if (strncasecmp(x.c_str(), "sec-websocket-key:", 18) == 0) x = "Sec-WebSocket-Key: "; h.expect = 426; }
  if (bad == "emptyhost") { for (auto &x : hd) if (strncasecmp(x.c_str(), "host:", 5) == 0) x = "Host:"; h.expect = W.has_hosts ? 400 : 101; }
  if (bad == "emptyver") { for (auto &x : hd) if (strncasecmp(x.c_str(), "sec-websocket-version:", 22) == 0) x = "Sec-WebSocket-Version:"; h.expect = 501; }
  if (bad == "emptysub") { hd.push_back("Sec-WebSocket-Protocol:"); }
  if (bad == "emptyext") { hd.push_back("Sec-WebSocket-Extensions:"); }
  if (bad != "longhdr") for (size_t i = hd.size(); i-- > 0;) {   // leave out what does not matter where the headers would get too large
    i64 sum = 0; for (auto &x : hd) sum += x.size(); if (sum <= W.size_header) break;
    std::string n = hd[i].substr(0, hd[i].find(':')); for (auto &x : n) x = tolower(x); bool needed = false; for (auto x : {"host", "upgrade", "connection", "origin", "sec-websocket-origin", "sec-websocket-key", "sec-websocket-version", "sec-websocket-protocol", "sec-websocket-extensions"}) needed |= n == x; if (!needed) hd.erase(hd.begin() + i);
  }
  if (bad == "exacturi") { path = "/" + std::string(W.size_uri - 1, 'a'); }
  if (bad == "overuri") { path = "/" + std::string(W.size_uri, 'a'); h.expect = 414; }
  if (bad == "exacthdr" || bad == "overhdr") { i64 sum = 0; for (auto &x : hd) sum += x.size(); i64 pad = W.size_header + (bad == "overhdr") - sum - 7; if (pad >= 0) { std::string x = "X-Pad: " + std::string(pad, 'p'); if (pad) x[7] = 'q'; hd.insert(hd.begin() + r.below(hd.size() + 1), x); if (bad == "overhdr") h.expect = 431; } }
  h.bytes = method + " " + path + " " + ver + "\r\n"; for (auto &x : hd) h.bytes += x + "\r\n"; h.bytes += "\r\n";
  if (bad == "endless" || bad == "nearendless") { i64 cap = W.size_header + W.size_uri + W.size_payload + (bad == "endless" ? 1 + (i64)r.below(3) : 0); h.bytes = "GET / HTTP/1.1\r\nHost: localhost\r\nX-Pad: "; while ((i64)h.bytes.size() < cap) h.bytes += (char)('a' + r.below(26)); h.expect = 413; }
  return h;
}

// ---------------------------------------------------------------- sending
void Client::raw_send(const Bytes &b, const KV &kv, u64 salt) {
  // segmentation: seg=0 one segment; otherwise pieces chosen from the seed, with optional delays between them
  i64 seg = kv.i("seg", 0), gap = kv.i("gap", 0); size_t o = 0; Rng r(seg * 1000003 + salt);
  if (kv.i("hold", 0)) { held += b; return; }
  Bytes all = held + b; held.clear();
  struct Busy { Client *c; Busy(Client *x) : c(x) { c->sending++; } ~Busy() { if (--c->sending == 0 && c->pend_pong.size()) { Bytes p; p.swap(c->pend_pong); if (!c->dead() && !c->close_sent && !c->partial_sent && !c->silent) c->tx((const u8 *)p.data(), p.size()); } } } busy(this);
  int npieces = 0; if (gave_up) return; u64 giveup = now_ns + 2000000000ull;
  while (o < all.size()) {
    if (dead()) return;
    size_t n = all.size() - o;
    if (seg && npieces < 40) { size_t m; switch (r.below(4)) { case 0: m = 1; break; case 1: m = 1 + r.below(4); break; case 2: m = 1 + r.below(64); break; default: m = 1 + r.below(n); } if (m < n) { n = m; note_fault(F_PEER_SEGMENT); } }
    while (!dead() && c->in.size() > 200000) { if (stalled && gone_ok && now_ns > giveup) { gave_up = true; return; } block(&c->out, now_ns + 100000, "client backpressure"); }
    if (dead()) return;
    tx((const u8 *)all.data() + o, n); o += n; npieces++;
    if (gap && o < all.size()) { note_fault(F_PEER_SLOW); sleep_ns(1 + r.below(gap * 1000)); }
  }
}
void Client::tx(const u8 *p, size_t n) { W.actions++; last_tx = now_ns; if (tls) tls_tx(p, n); else net_client_send(c, p, n); }
void Client::sleep_ns(u64 ns) { block(&spec, now_ns + ns + 1, "client sleep"); }
bool Client::dead() { return eof || aborted || c == nullptr; }

static int pmd_bits(const std::string &v) { return atoi(v.c_str()); }

void Client::send_message(const OpSpec &op) {
  bool text = op.kv.i("t", 0) == 0; size_t len = op.kv.i("len", 5); u64 seed = op.kv.i("seed", 1);
  Bytes pl;
  if (W.tagged) { pl = fmt("c%dm%zu.", id, sent.size()); if (len > pl.size()) pl += gen_payload(seed, len - pl.size(), text, op.kv.i("style", 0)); }
  else pl = gen_payload(seed * 7919 + id, len, text, op.kv.i("style", 0));
  Rng r(seed * 17 + 3); int nf = op.kv.i("frags", 1); int ctl = op.kv.i("ctl", 0);
  Bytes wire_pl = pl; bool comp = false;
  int xrsv = 0; if (xt_used()) wire_pl = xt_encode(pl, op.kv.i("flush", 0), op.kv.i("comp", 1), xrsv);
  else if (pmd && op.kv.i("comp", 1)) { wire_pl = pmd_deflate(pl, op.kv.i("flush", 0)); comp = true; }
  if (op.kv.has("frags") && op.kv.s("frags") == "max") nf = W.max_frames;
  std::vector<size_t> cuts; if (op.kv.has("fragsz")) { nf = 0; for (size_t z = op.kv.i("fragsz"), q = z; q < wire_pl.size(); q += z) cuts.push_back(q); }
  for (int i = 1; i < nf; i++) cuts.push_back(r.below(wire_pl.size() + 1)); std::sort(cuts.begin(), cuts.end());
  cuts.push_back(wire_pl.size());
  Sent s; s.data = pl; s.text = text; s.when = now_ns; s.hs_epoch = ++W.epoch;
  // the message counts as sent from the moment its first byte may be on the wire, complete once the last frame is out
  Bytes out; size_t p = 0;
  std::vector<Bytes> ctl_pings;
  for (size_t i = 0; i < cuts.size(); i++) {
    bool fin = i + 1 == cuts.size(); int lf = 0;
    put_frame(out, fin, xrsv ? (i == 0 ? xrsv : xrsv & 2) : (comp && i == 0) ? 4 : 0, i == 0 ? (text ? 1 : 2) : 0, true, r.chance(0.1) ? 0 : (u32)r.next(), wire_pl.substr(p, cuts[i] - p), lf);
    p = cuts[i];
    if (!fin && ctl && r.chance(0.6)) { Bytes pp = gen_payload(seed + i * 13, r.below(20), false, 0); if (r.chance(0.75)) { put_frame(out, true, 0, 9, true, (u32)r.next(), pp); ctl_pings.push_back(pp); } else put_frame(out, true, 0, 10, true, (u32)r.next(), pp); }
  }
  for (auto &x : ctl_pings) pings.push_back(x);
  sent.push_back(s); W.sent_total++; R->st.msgs_sent++;
  raw_send(out, op.kv, seed);
  sent.back().done = ++W.epoch;
}

void Client::send_close(int code, const Bytes &reason, const KV &kv) {
  Bytes pl; if (code) { pl += (char)(code >> 8); pl += (char)code; pl += reason; }
  Bytes o; put_frame(o, true, 0, 8, true, 0x11223344u + code, pl); close_sent = true; close_code_sent = code; raw_send(o, kv, 5);
}

// protocol violations: bytes plus the set of acceptable close codes (empty = connection must just end)
void Client::send_bad(const OpSpec &op) {
  std::string k = op.kv.s("kind"); Rng r(op.kv.i("seed", 1)); Bytes o; std::set<int> codes; u32 m = (u32)r.next();
  Bytes pl = gen_payload(op.kv.i("seed", 1), r.below(40), true, 0); bool prior = op.kv.i("prior", 0);
  auto start_frag = [&]() { put_frame(o, false, 0, 1, true, m, "ab"); };
  if (k == "rsv") { int rv = 1 + r.below(7); put_frame(o, true, rv, 1 + r.below(2), true, m, pl); codes = {1002}; }
  else if (k == "rsv23") { put_frame(o, true, 1 + r.below(3), 1 + r.below(2), true, m, pl); codes = {1002}; }
  else if (k == "opcode") { int oc[] = {3, 4, 5, 6, 7, 11, 12, 13, 14, 15}; put_frame(o, true, 0, oc[r.below(10)], true, m, pl); codes = {1002, 1003}; }
  else if (k == "unmasked") { put_frame(o, true, 0, 1, false, 0, pl); codes = {1002}; }
  else if (k == "ctlfrag") { put_frame(o, false, 0, 9, true, m, "x"); codes = {1002}; }
  else if (k == "ctlbig") { put_frame(o, true, 0, r.chance(0.5) ? 9 : 10, true, m, gen_payload(3, 126 + r.below(200), false, 0)); codes = {1002}; }
  else if (k == "cont") { if (prior) { put_frame(o, true, 0, 1, true, m, pl); Sent s; s.data = pl; s.text = true; s.done = ++W.epoch; sent.push_back(s); } put_frame(o, r.chance(0.5), 0, 0, true, m, pl); codes = {1002}; }
  else if (k == "interleave") { start_frag(); put_frame(o, true, 0, 1 + r.below(2), true, m, pl); codes = {1002}; }
  else if (k == "close1") { put_frame(o, true, 0, 8, true, m, "x"); codes = {1002}; }
  else if (k == "closecode") { int bc[] = {0, 1, 999, 1004, 1005, 1006, 1015, 1016, 2999, 5000, 65535}; int c_ = r.chance(0.5) ? bc[r.below(11)] : r.chance(0.3) ? r.below(1000) : r.chance(0.5) ? 1016 + r.below(1984) : 5000 + r.below(60536); Bytes p; p += (char)(c_ >> 8); p += (char)c_; put_frame(o, true, 0, 8, true, m, p); codes = {1002}; }
  else if (k == "closeutf8") { Bytes p = "\x03\xe8"; p += bad_utf8(r, std::min<i64>(123, W.size_frame - 2)); put_frame(o, true, 0, 8, true, m, p); codes = {1007}; }
  else if (k == "utf8") {
    Bytes p = bad_utf8(r, std::min<i64>(300, W.size_frame));
    if (r.chance(0.5)) put_frame(o, true, 0, 1, true, m, p); else { size_t cut = r.below(p.size() + 1); put_frame(o, false, 0, 1, true, m, p.substr(0, cut)); put_frame(o, true, 0, 0, true, m + 1, p.substr(cut)); }
    codes = {1007}; }
  else if (k == "bigframe") { size_t n = W.size_frame + 1 + r.below(100); put_frame(o, true, 0, 2, true, m, gen_payload(1, n, false, 2)); codes = {1009}; }
  else if (k == "hugeframe") { // only the header of an enormous frame
    o += (char)0x82; o += (char)0xff; u64 n = r.chance(0.5) ? (1ull << 62) : (1ull << 40); for (int i = 7; i >= 0; i--) o += (char)(n >> (8 * i)); o += "abcd"; o += "xxxxxxxx"; codes = {1009, 1002}; }
  else if (k == "overframe") { // one byte too long: refused from its header on
    size_t n = W.size_frame + 1; put_frame(o, r.chance(0.7), 0, 1 + r.below(2), true, m, gen_payload(op.kv.i("seed", 1), n, true, 1)); size_t hl = o.size() - n; switch (r.below(4)) { case 0: o.resize(hl); break; case 1: o.resize(hl + 1 + r.below(n)); break; case 2: o.resize(o.size() - 1); break; } codes = {1009}; }
  else if (k == "overframes") { // one fragment too many, control frames in between do not count
    for (i64 i = 0; i <= W.max_frames; i++) { put_frame(o, i == W.max_frames && r.chance(0.5), 0, i == 0 ? 2 : 0, true, m, gen_payload(i + 3, r.below(3), false, 0)); if (i < W.max_frames && r.chance(0.2)) put_frame(o, true, 0, 10, true, m, "x"); } codes = {1009}; }
  else if (k == "manyframes") { for (i64 i = 0; i < W.max_frames + 3; i++) put_frame(o, false, 0, i == 0 ? 2 : 0, true, m, "z"); codes = {1009}; }
  violation = true; violation_kind = k; ok_codes = codes; close_sent = true;
  raw_send(o, op.kv, 9);
}

// ---------------------------------------------------------------- permessage-deflate (client side, real zlib)
// flush: how the message is cut into DEFLATE blocks, all of which RFC 7692 (7.2.3) allows a sender
//   1 full flush inside, 2 a stored part, 3 many small blocks, 4 the last block has BFINAL set, 5 an extra empty block, 6 BFINAL inside
Bytes Client::pmd_deflate(const Bytes &in, int flush) {
  if (!zdef_init) { memset(&zdef, 0, sizeof zdef); deflateInit2(&zdef, 6, Z_DEFLATED, -std::max(9, cmwb), 8, cmwb < 9 ? Z_HUFFMAN_ONLY : Z_DEFAULT_STRATEGY); zdef_init = true; }
  Bytes out; char buf[4096]; zdef.avail_in = 0; zdef.next_in = nullptr;
  auto drain = [&](int mode) { do { zdef.next_out = (Bytef *)buf; zdef.avail_out = sizeof buf; deflate(&zdef, mode); out.append(buf, sizeof buf - zdef.avail_out); } while (!zdef.avail_out); };
  auto level = [&](int l) { int r; do { zdef.next_out = (Bytef *)buf; zdef.avail_out = sizeof buf; r = deflateParams(&zdef, l, cmwb < 9 ? Z_HUFFMAN_ONLY : Z_DEFAULT_STRATEGY); out.append(buf, sizeof buf - zdef.avail_out); } while (r == Z_BUF_ERROR && !zdef.avail_out); };
  auto feed = [&](size_t from, size_t to, int mode) { zdef.next_in = (Bytef *)in.data() + from; zdef.avail_in = to - from; drain(mode); };
  auto window = [&](const Bytes &now) { Bytes d = zhist + now; if (d.size() > 32768) d = d.substr(d.size() - 32768); if (d.size() && cmwb >= 9) deflateSetDictionary(&zdef, (const Bytef *)d.data(), d.size()); };   // a final block does not end the window (7.2.3.4)
  size_t n = in.size(), h = n / 2;
  if (flush == 1 && n > 1) { feed(0, h, Z_FULL_FLUSH); feed(h, n, Z_SYNC_FLUSH); }
  else if (flush == 2 && n > 1) { feed(0, h, Z_BLOCK); level(0); feed(h, n, Z_BLOCK); level(6); drain(Z_SYNC_FLUSH); }
  else if (flush == 3 && n > 4) { size_t st = n / 5; for (size_t i = 0; i < 4; i++) feed(i * st, (i + 1) * st, i & 1 ? Z_PARTIAL_FLUSH : Z_SYNC_FLUSH); feed(4 * st, n, Z_SYNC_FLUSH); }
  else if (flush == 6 && n > 1) { feed(0, h, Z_FINISH); deflateReset(&zdef); window(in.substr(0, h)); feed(h, n, Z_SYNC_FLUSH); }
  else if (flush == 4) { feed(0, n, Z_FINISH); deflateReset(&zdef); if (!cnct) { window(in); zhist += in; } out += '\0'; return out; }
  else feed(0, n, Z_SYNC_FLUSH);
  if (out.size() >= 4) { if (flush != 5) out.resize(out.size() - 4); else out += '\0'; }
  else out.assign(1, '\0'); // zlib emits nothing for an empty message after a flush; RFC 7692 7.2.3.6 asks for one empty block
  if (cnct) { deflateReset(&zdef); zhist.clear(); } else { zhist += in; if (zhist.size() > 65536) zhist.erase(0, zhist.size() - 32768); }
  return out;
}
bool Client::pmd_inflate(const Bytes &in, Bytes &out) {
  if (!zinf_init) { memset(&zinf, 0, sizeof zinf); inflateInit2(&zinf, -smwb); zinf_init = true; }
  Bytes b = in; b.append("\x00\x00\xff\xff", 4); out.clear(); zinf.next_in = (Bytef *)b.data(); zinf.avail_in = b.size(); char buf[4096];
  for (;;) { zinf.next_out = (Bytef *)buf; zinf.avail_out = sizeof buf; int r = inflate(&zinf, Z_SYNC_FLUSH); out.append(buf, sizeof buf - zinf.avail_out);
    if (r != Z_OK && r != Z_BUF_ERROR && r != Z_STREAM_END) return false; if (zinf.avail_out) break; if (out.size() > (64u << 20)) return false; }
  if (zinf.avail_in) return false;
  if (snct) inflateReset(&zinf);
  return true;
}
// the server's answer must accept one of our offers with legal parameters (RFC 7692); an offer is a parameter map
void Client::negotiated(const std::string &v) {
  auto viol = [&](const std::string &w) { violate("pmd", "pmd|negotiation|" + w, fmt("client %d: bad extension answer '%s' to offer '%s': %s", id, v.c_str(), spec.kv.s("ext").c_str(), w.c_str())); };
  if (!spec.kv.has("ext")) viol("not offered");
  std::string name; Offer a; if (v.find(',') != std::string::npos) viol("several extensions accepted"); if (!parse_offer(v, name, a)) viol("malformed or duplicate parameter");
  if (name != "permessage-deflate") viol("unknown extension");
  for (auto &x : a) {
    if (x.first == "server_no_context_takeover") snct = true; else if (x.first == "client_no_context_takeover") cnct = true;
    else if (x.first == "server_max_window_bits") smwb = pmd_bits(x.second); else if (x.first == "client_max_window_bits") cmwb = pmd_bits(x.second); else viol("unknown parameter " + x.first);
  }
  if (!legal_offer(a, 8) || (a.count("client_max_window_bits") && a["client_max_window_bits"].empty())) viol("illegal parameter value");
  std::string why = "no acceptable offer was made"; bool ok = false;
  for (auto &o : offers_of(offer_text(spec.kv), 8)) {
    if (a.count("client_max_window_bits") && !o.count("client_max_window_bits")) { why = "client_max_window_bits not offered"; continue; }
    if (o.count("client_max_window_bits") && o["client_max_window_bits"].size() && cmwb > atoi(o["client_max_window_bits"].c_str()) && a.count("client_max_window_bits")) { why = "client_max_window_bits larger than offered"; continue; }
    if (o.count("server_no_context_takeover") && !snct) { why = "server_no_context_takeover offered but not accepted"; continue; }
    if (o.count("server_max_window_bits") && (!a.count("server_max_window_bits") || smwb > atoi(o["server_max_window_bits"].c_str()))) { why = "server_max_window_bits larger than offered"; continue; }
    ok = true; break;
  }
  if (!ok) viol(why);
  pmd = true;
}

// ---------------------------------------------------------------- receiving
bool Client::soft() { return W.soft || (W.lenient && loose); }
void Client::viol(const std::string &what, const std::string &msg) { if (loose && what != "frame" && what != "pmd") return; violate(what.c_str(), what + "|" + msg.substr(0, msg.find('\n')).substr(0, 0) + vkey, fmt("client %d (conn %d): %s", id, c ? c->id : -1, msg.c_str())); }
#define V(cls, key, ...) do { vkey = key; viol(cls, fmt(__VA_ARGS__)); } while (0)

void Client::on_data(const Bytes &d) {
  rbuf += d; R->st.evals++;
  if (refuse.size()) V("tls", "refused-served", "the server sends data to a client it has to refuse (%s): %s", refuse.c_str(), hexs(d).c_str());
  if (!hs_done) { parse_http(); if (!hs_done) return; }
  if (hs_status != 101) return;
  for (;;) {
    size_t n = rbuf.size(); if (n < 2) return;
    if (close_recv) V("frame", "data-after-close", "server sent %zu bytes after its Close frame: %s", n, hexs(rbuf).c_str());
    u8 a = rbuf[0], b = rbuf[1]; size_t h = 2; u64 len = b & 0x7f;
    if (b & 0x80) V("frame", "masked", "server frame is masked: %s", hexs(rbuf).c_str());
    int op = a & 15, rsv = a >> 4 & 7; bool fin = a & 0x80;
    if ((op >= 3 && op <= 7) || op >= 11) V("frame", "bad-opcode", "server frame has reserved opcode %d: %s", op, hexs(rbuf).c_str());
    if (len == 126) { if (n < 4) return; len = (u8)rbuf[2] << 8 | (u8)rbuf[3]; h = 4; if (len < 126) V("frame", "non-minimal-length", "non minimal length encoding %s", hexs(rbuf).c_str()); }
    else if (len == 127) { if (n < 10) return; len = 0; for (int i = 0; i < 8; i++) len = len << 8 | (u8)rbuf[2 + i]; h = 10; if (len < 65536) V("frame", "non-minimal-length", "non minimal length encoding %s", hexs(rbuf).c_str()); }
    if (len > (64u << 20)) V("frame", "absurd-length", "server frame claims %llu bytes: %s", (unsigned long long)len, hexs(rbuf).c_str());
    if (op >= 8 && (!fin || len > 125)) V("frame", "bad-control", "control frame fragmented or too long: %s", hexs(rbuf).c_str());
    if (n < h + len) return;
    Bytes pl = rbuf.substr(h, len); rbuf.erase(0, h + len); R->st.frames_recv++; mix(op * 131 + len);
    on_frame(fin, rsv, op, pl);
  }
}
void Client::on_frame(bool fin, int rsv, int op, const Bytes &pl) {
  trace("client %d receives frame op %d fin %d rsv %d len %zu", id, op, fin, rsv, pl.size());
  int xr = op < 8 && xt_used() ? (xt_has(0) ? 2 : 0) | (op && xt_has(1) ? 1 : 0) : 0; if ((rsv & 3) != xr) V("frame", "rsv", "RSV bits %d on opcode %d, expected %d", rsv, op, xr); rsv &= 4;
  if ((rsv && !(pmd && op != 0 && op < 8))) V("frame", "rsv", "unexpected RSV bits %d on opcode %d", rsv, op);
  if (op == 8) {
    if (frag) V("frame", "close-inside-fragmented-message-truncated", "%s", "Close while a fragmented message was incomplete") ;
    close_recv = true; close_when = now_ns;
    if (pl.size() == 1) V("frame", "bad-close", "%s", "Close payload of one byte");
    close_code = pl.size() >= 2 ? ((u8)pl[0] << 8 | (u8)pl[1]) : 0; close_reason = pl.size() > 2 ? pl.substr(2) : "";
    if (close_code && (close_code < 1000 || (close_code >= 1004 && close_code <= 1006) || (close_code >= 1015 && close_code < 3000) || close_code >= 5000)) V("frame", "bad-close-code", "Close with illegal code %d", close_code);
    if (!utf8_ok(close_reason)) V("frame", "bad-close-reason", "%s", "Close reason is not UTF-8");
    check_close(); wake(this); return;
  }
  if (op == 9) { pings_recv++; last_ping = now_ns; if (silent) silent_pings.push_back(now_ns); if (spec.kv.i("autopong", 1) && !silent && !dead() && !close_sent && !partial_sent) { Bytes o; put_frame(o, true, 0, 10, true, 77, pl); if (sending || held.size()) pend_pong += o; else tx((const u8 *)o.data(), o.size()); } wake(this); return; }
  if (op == 10) {
    if (next_pong >= pings.size()) V("pong", "unsolicited", "pong '%s' that no ping asked for (%zu pings sent)", hexs(pl).c_str(), pings.size());
    if (next_pong >= pings.size()) return;
    if (pl != pings[next_pong]) V("pong", "payload", "pong %zu has payload %s, ping had %s", next_pong, hexs(pl).c_str(), hexs(pings[next_pong]).c_str());
    next_pong++; wake(this); return;
  }
  if (op == 0) { if (!frag) V("frame", "continuation", "%s", "continuation frame without a started message"); }
  else { if (frag) V("frame", "interleaved", "new data frame (opcode %d) inside a fragmented message", op); frag = true; msg_op = op; msg_rsv1 = rsv & 4; msg.clear(); }
  msg += pl;
  if (!fin) return;
  frag = false; Bytes m = msg; msg.clear();
  if (xt_used()) { if (!xt_decode(m, msg_rsv1)) return; }
  else if (msg_rsv1) { Bytes o; if (!pmd_inflate(m, o)) V("pmd", "inflate", "server message does not decompress: %s", hexs(m).c_str()); m = o; }
  R->st.msgs_recv++;
  if (msg_op == 1 && !utf8_ok(m)) V("frame", "utf8", "server text message is not UTF-8: %s", hexs(m).c_str());
  if (W.record) W.history.push_back({id, m});
  if (W.cfg.i("push", 0) && on_push(m)) { wake(this); return; }
  if (W.cfg.i("push", 0) && !greeted()) V("push", "late-greeting", "an echo before what was sent when the client connected");
  if (is_bcast()) on_bcast(m); else on_echo(m);
  wake(this);
}
void Client::on_echo(const Bytes &m) {
  if (next_echo >= sent.size()) V("echo", "extra", "received message %zu (%zu bytes %s) but only %zu were sent", next_echo, m.size(), hexs(m).c_str(), sent.size());
  if (next_echo >= sent.size()) return;
  Sent &s = sent[next_echo];
  if (m != s.data) V("echo", "content", "echo %zu differs: sent %zu bytes %s, received %zu bytes %s", next_echo, s.data.size(), hexs(s.data).c_str(), m.size(), hexs(m).c_str());
  if ((msg_op == 1) != s.text) V("echo", "type", "echo %zu changed message type", next_echo);
  next_echo++; R->st.nontrivial++;
}
void Client::on_bcast(const Bytes &m) {
  unsigned from, idx; int used = 0; size_t dot = m.find('.');
  if (dot == Bytes::npos || sscanf(m.substr(0, dot + 1).c_str(), "c%um%u.%n", &from, &idx, &used) < 2) V("broadcast", "forged", "message that nobody sent: %s", hexs(m).c_str());
  if (dot == Bytes::npos || sscanf(m.substr(0, dot + 1).c_str(), "c%um%u.%n", &from, &idx, &used) < 2) return;
  if (from >= W.clients.size() || idx >= W.clients[from]->sent.size()) V("broadcast", "forged", "message %u of client %u that was not sent", idx, from);
  if (from >= W.clients.size() || idx >= W.clients[from]->sent.size()) return;
  if ((int)from == id) V("broadcast", "to-sender", "own message %u came back to the sender", idx);
  Sent &s = W.clients[from]->sent[idx];
  if (!W.clients[from]->is_bcast()) V("broadcast", "foreign-protocol", "message %u of client %u which does not use broadcast", idx, from);
  if (s.data != m) V("broadcast", "content", "message %u of client %u altered: sent %zu bytes, received %zu", idx, from, s.data.size(), m.size());
  if ((msg_op == 1) != s.text) V("broadcast", "type", "message %u of client %u changed type", idx, from);
  auto it = bnext.find(from);
  if (it != bnext.end()) {
    if (idx < it->second) V("broadcast", "duplicate-or-reorder", "message %u of client %u after message %u", idx, from, it->second - 1);
    if (idx > it->second && !W.lossy) V("broadcast", "gap", "message %u of client %u follows message %u", idx, from, it->second - 1);
  } else bfirst[from] = idx;
  bnext[from] = idx + 1; R->st.nontrivial++;
}
void Client::check_close() {
  if (W.halting || W.lenient || c->faulted) return;
  if (idle_close_ok && (close_code == 1013)) return;
  if (kicked && !close_sent && close_code == (kick_kind ? 4000 + kick_kind : 1000)) { Bytes want = kick_kind == 3 ? Bytes(123, 'y') : kick_kind == 2 ? "bye" : ""; if (kick_kind && close_reason != want) V("push", "close-reason", "reason '%s' of the Close the subprotocol sent", hexs(close_reason).c_str()); if (next_echo < sent.size() || next_pong < pings.size()) V("push", "close-early", "Close of the subprotocol after %zu of %zu echoes and %zu of %zu pongs", next_echo, sent.size(), next_pong, pings.size()); return; }
  if (violation) { if (!ok_codes.empty() && !ok_codes.count(close_code)) V("violation-handling", fmt("code-%s", violation_kind.c_str()), "violation '%s' answered with close code %d", violation_kind.c_str(), close_code); R->st.nontrivial++; return; }
  if (!close_sent) V("close", "unprovoked", "server closed with code %d '%s' although the client did nothing wrong", close_code, close_reason.c_str());
  if (close_code != close_code_sent) V("close", "code", "client closed with %d, server answered %d", close_code_sent, close_code);
  if (!is_bcast() && next_echo < sent.size()) V("echo", "lost-before-close", "Close answered after only %zu of %zu echoes", next_echo, sent.size());
  if (next_pong < pings.size() && !W.lenient) V("pong", "lost-before-close", "Close answered after only %zu of %zu pongs", next_pong, pings.size());
}
extern i64 sim_rt_offset; extern bool sim_rt_jumped;
// an HTTP date that lies between two instants (the year, the zone and the day of the week included)
void Client::http_date(const std::string &v, const char *what, i64 lo, i64 hi, bool any) {
  struct tm m; memset(&m, 0, sizeof m); char d[8] = "", mon[8] = "", z[8] = "", x = 0; time_t t; char b[64];
  static const char *M = "JanFebMarAprMayJunJulAugSepOctNovDec"; const char *at;
  if (sscanf(v.c_str(), "%3[A-Za-z], %2d %3[A-Za-z] %4d %2d:%2d:%2d %3[A-Z]%c", d, &m.tm_mday, mon, &m.tm_year, &m.tm_hour, &m.tm_min, &m.tm_sec, z, &x) != 8 || !(at = strstr(M, mon)) || (at - M) % 3) V("handshake", "date-form", "%s: '%s' is no HTTP date", what, v.c_str());
  m.tm_mon = (at - M) / 3; m.tm_year -= 1900; t = timegm(&m); struct tm g; gmtime_r(&t, &g); strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &g);
  if (v != b) V("handshake", "date-form", "%s: '%s' should read '%s'", what, v.c_str(), b);
  if (!any && ((i64)t < lo || (i64)t > hi)) V("handshake", "date", "%s: '%s' is %lld s away from the time it stands for", what, v.c_str(), (long long)(t < lo ? lo - t : t - hi));
}
void Client::parse_http() {
  size_t e = rbuf.find("\r\n\r\n"); if (e == Bytes::npos) { if (rbuf.size() > 100000) V("handshake", "no-header-end", "%s", "response header never ends"); return; }
  Bytes head = rbuf.substr(0, e + 2); rbuf.erase(0, e + 4);
  size_t l = head.find("\r\n"); Bytes line = head.substr(0, l); int st = 0; char vbuf[32];
  if (sscanf(line.c_str(), "%31s %d", vbuf, &st) < 2 || strncmp(vbuf, "HTTP/", 5)) V("handshake", "status-line", "bad status line '%s'", line.c_str());
  std::map<std::string, std::string> hm; size_t p = l + 2;
  while (p < head.size()) { size_t q = head.find("\r\n", p); Bytes ln = head.substr(p, q - p); p = q + 2; size_t c_ = ln.find(':'); if (c_ == Bytes::npos) V("handshake", "header-line", "header line without colon: '%s' in response:\n%s", ln.c_str(), head.c_str());
    std::string n = ln.substr(0, c_), v = ln.substr(c_ + 1); for (auto &x : n) x = tolower(x); for (char x : n + v) if ((u8)x < 32 && x != '\t') V("handshake", "header-bytes", "control byte in response header '%s'", ln.c_str()); size_t a = v.find_first_not_of(' '); v = a == std::string::npos ? "" : v.substr(a);
    if (hm.count(n)) V("handshake", "dup-header", "duplicate header %s in response", n.c_str()); hm[n] = v; }
  hs_status = st; hs_done = true; hs_when = now_ns; hs_epoch = ++W.epoch; R->st.evals++; R->st.nontrivial++;
  trace("client %d handshake response %d", id, st);
  if (W.halting && st != 101) { wake(this); return; }
  if ((W.lenient || c->faulted) && (st == 500 || (W.lenient && st == 404 && spec.kv.s("hsbad") == "favicon"))) { wake(this); return; }
  if (st != hs_expect) V("handshake", fmt("status-%d-expected-%d-%s", st, hs_expect, spec.kv.s("hsbad", "ok").c_str()), "status %d, expected %d for request variant '%s':\n%s", st, hs_expect, spec.kv.s("hsbad", "ok").c_str(), hs_req.c_str());
  if (st == 101) {
    std::string up = hm["upgrade"], co = hm["connection"]; for (auto &x : up) x = tolower(x); for (auto &x : co) x = tolower(x);
    if (up != "websocket" || co.find("upgrade") == std::string::npos) V("handshake", "upgrade-headers", "%s", "101 without Upgrade/Connection headers");
    if (hm["sec-websocket-accept"] != sha1_b64_accept(hs_key)) V("handshake", "accept", "Sec-WebSocket-Accept '%s' for key '%s', expected '%s'", hm["sec-websocket-accept"].c_str(), hs_key.c_str(), sha1_b64_accept(hs_key).c_str());
    std::string want = spec.kv.s("sub", ""); if (hm.count("sec-websocket-protocol") ? hm["sec-websocket-protocol"] != want : !want.empty()) V("handshake", "subprotocol", "subprotocol '%s', expected '%s'", hm["sec-websocket-protocol"].c_str(), want.c_str());
    if (xt_used()) xt_negotiated(hm["sec-websocket-extensions"]);
    else if (hm.count("sec-websocket-extensions") && hm["sec-websocket-extensions"].size()) negotiated(hm["sec-websocket-extensions"]);
    else if (W.ext && !W.lenient && !c->faulted && offers_of(offer_text(spec.kv), 9).size()) V("pmd", "not-negotiated", "offer '%s' was not accepted", spec.kv.s("ext").c_str());
  } else {
    // a complete HTTP response: Content-Length bytes of body and then nothing
    want_body = hm.count("content-length") ? atol(hm["content-length"].c_str()) : -1; 
    if (want_body < 0) V("handshake", "no-content-length", "error response %d without Content-Length", st);
    if (hm.count("date")) http_date(hm["date"], "Date", (hs_begun + sim_rt_offset) / 1000000000ull, (now_ns + sim_rt_offset) / 1000000000ull, sim_rt_jumped);
    if (st == 200) {   // the favicon: the file it is configured to be, and what is said about it
      want_text = gen_payload(42, 318, false, 0); check_text = true;
      if (want_body != (i64)want_text.size()) V("handshake", "favicon-length", "the favicon has %zu bytes, Content-Length says %lld", want_text.size(), (long long)want_body);
      http_date(hm["last-modified"], "Last-Modified", 1600000000, 1600000000, false);
      Bytes d = sha1(want_text); std::string e; for (u8 x : d) e += fmt("%02X", x); if (hm["etag"] != e) V("handshake", "favicon-etag", "ETag '%s' for a favicon with the digest %s", hm["etag"].c_str(), e.c_str());
      if (hm["content-type"] != "image/x-icon") V("handshake", "favicon-type", "Content-Type '%s' for the favicon", hm["content-type"].c_str()); }
    if (st == 501 || st == 426) { if (st == 501 && hm["sec-websocket-version"].find("13") == std::string::npos) V("handshake", "version-header", "%s", "501 does not advertise the supported versions"); }
  }
  wake(this);
}

void Client::reader() {
  Rng r(spec.kv.i("rseed", 1) + id); i64 chunk = spec.kv.i("rchunk", 65536), rdelay = spec.kv.i("rdelay", 0);
  u8 *buf = (u8 *)malloc(70000);
  for (;;) {
    if (aborted) break;
    if (stalled) { block(&stalled, 0, "client read stall"); continue; }
    if (c->out.empty() && !(c->srv_closed || c->srv_shut_wr || c->rst || c->client_gone)) { block(&c->out, 0, "client recv"); continue; }
    if (aborted) break;
    size_t n = net_client_recv(c, buf, std::min<i64>(chunk > 1 ? 1 + r.below(chunk) : 1, 65536));
    if (n == 0) { if (!c->out.empty()) continue; if (c->srv_closed || c->srv_shut_wr || c->rst || c->client_gone) { eof = true; trace("client %d sees end of stream", id); wake(this); if (!aborted) on_eof(); break; } continue; }
    W.actions++;
    if (tls) tls_rx(buf, n); else on_data(Bytes((char *)buf, n));
    if (rdelay) block(&spec, now_ns + 1 + r.below(rdelay * 1000), "client slow read");
  }
  free(buf); reader_done = true; wake(this);
}
void Client::on_eof() {
  R->st.evals++;
  // a finished closing handshake ends with the TLS close_notify, so that nobody can cut the stream off unnoticed; a full send buffer excuses it
  if (tls && tls_up && close_recv && close_sent && !tls_notified && !tls_broken && !aborted && !fin_sent && !violation && !c->faulted && !c->rst && !c->client_gone && !W.lenient && !W.halting && !spec.kv.has("sndbuf") && !sc.f[F_WRITE_SHORT] && !sc.f[F_WRITE_EAGAIN] && !sc.f[F_WRITE_FAIL] && !sc.f[F_WRITE_EINTR])
    V("tls", "no-close-notify", "%s", "the connection ended after the closing handshake without the TLS close_notify");
  // memory ran out: each failed allocation ends at most one well-behaved connection
  if (W.lenient && !soft() && !W.halting && !fin_sent && !c->client_gone && refuse.empty() && !violation && !close_sent && !idle_close_ok && !gone_ok && !aborted && !c->faulted && W.tclient < 0 && !spec.kv.has("hsbad") && !spec.kv.has("hcut") && !spec.kv.i("nohs", 0)) {
    W.harmed++; u64 n = faults_injected(F_MALLOC); if (W.harmed > n) V("memory-pressure", "too-many", "%llu well-behaved clients were refused or cut off although only %llu allocations failed", (unsigned long long)W.harmed, (unsigned long long)n);
  }
  if (W.halting || W.lenient || fin_sent || c->client_gone || refuse.size()) return;
  if (!hs_done) { if (!excused() && !idle_close_ok) V("handshake", "eof", "connection ended before a handshake response (got %zu bytes)", rbuf.size()); return; }
  if (hs_status != 101) { if (check_text && !c->faulted && rbuf != want_text) V("handshake", "favicon-body", "the body (%zu bytes) is not the favicon", rbuf.size());
    if (want_body >= 0 && !c->faulted && (i64)rbuf.size() != want_body) V("handshake", "body-length", "response %d has Content-Length %lld but %zu body bytes followed", hs_status, (long long)want_body, rbuf.size()); return; }
  if (c->faulted) return;
  if (W.cut_ok && rbuf.size() && (gone_ok || was_stalled || idle_close_ok || (u8)rbuf[0] == 0x88)) return;   // a client given up for silence: its last frame may be cut
  if (rbuf.size()) V("frame", "truncated", "stream ends inside a frame: %s", hexs(rbuf).c_str());
  if (frag) V("frame", "truncated-message", "%s", "stream ends inside a fragmented message");
  if (excused() || idle_close_ok) return;
  if (violation && !close_recv && !ok_codes.empty()) V("violation-handling", "no-close-" + violation_kind, "violation '%s': connection ended without a Close frame", violation_kind.c_str());
  if (!close_recv) V("close", "no-close-frame", "connection ended without a Close frame (%zu of %zu echoes received)", next_echo, sent.size());
}

bool Client::wait_for(const std::function<bool()> &f, u64 ns, const char *what) {
  u64 dl = now_ns + ns, t0 = now_ns;
  while (!f()) {
    if (eof && reader_done) return f();
    if (block(this, dl, what) == WK_TIMEOUT && now_ns >= dl) {
      if (ns != W.patience || !c || c->recv_time + ns <= dl || now_ns >= t0 + 20 * ns) return f();
      dl = c->recv_time + ns;   // bytes are still arriving: a slow reader needs its time
    }
  }
  return true;
}
void Client::stuck(const char *what, const std::string &detail) {
  if (W.halting || excused()) return;
  std::string where; for (auto t : threads) if (t->server && t->st == T_BLOCKED && strcmp(t->why, "cond_wait") && strcmp(t->why, "epoll_wait") && strcmp(t->why, "poll") && strcmp(t->why, "pthread_join")) { where = "|" + sig_stack(t, 2) + ":" + t->why; break; }
  violate("stuck", std::string("stuck|") + what + where, fmt("client %d: no progress for %llu simulated seconds waiting for %s: %s", id, (unsigned long long)(W.patience / 1000000000ull), what, detail.c_str()));
}
void Client::run() {
  sleep_ns(spec.kv.i("at", 0) * 1000);
  if (W.halted || (W.halting && !net_listening(port()))) { done = true; wake(&W); return; }
  c = net_connect(port(), spec.kv.i("sndbuf", 65536));
  if (!c) { if (!W.halting && !W.lenient) V("connect", "refused", "%s", "connection refused while the server should be listening"); done = true; wake(&W); return; }
  if (spec.kv.i("sndbuf", 65536) < 4096) note_fault(F_SMALL_SNDBUF);
  tls = spec.kv.i("tls", 0); if (tls) tls_init();
  spawn(fmt("reader%d", id), false, 1 << 18, [this]() { reader(); });
  script();
  // tear down
  if (tls) tls_done();
  if (!c->client_gone && !aborted) { if (spec.kv.i("abandon", 0)) { note_fault(F_PEER_ABANDON); wait_for([this] { return eof; }, W.patience * 4, "idle reclaim"); if (!eof) stuck("idle-reclaim", "abandoned connection was never reclaimed"); } net_client_close(c); }
  stalled = false; wake(&stalled); wake(&c->out);
  while (!reader_done) block(this, now_ns + 1000000000ull, "reader exit");
  done = true; trace("client %d done", id); wake(&W);
}
void Client::script() {
  if (tls && !tls_handshake()) return;
  if (refuse.size()) {   // TLS 1.3: the client is done before the server has looked at its certificate
    gone_ok = true; HsReq h = build_handshake(*this); if (!spec.kv.i("nohs", 0)) raw_send(h.bytes, KV(), 1);
    if (!wait_for([this] { return eof; }, W.patience, "end after a refused handshake") && !W.halting && !W.lenient && !c->faulted) V("tls", "no-end-refused", "the connection is still open although the server has to refuse the client (%s)", refuse.c_str());
    return;
  }
  HsReq h = build_handshake(*this); hs_expect = h.expect; hs_key = h.key; hs_req = h.bytes; hs_begun = now_ns; bool did_hs = !spec.kv.i("nohs", 0);
  gone_ok = gone_ok || spec.kv.i("gone", 0); loose = spec.kv.i("loose", 0) || spec.kv.i("nowait", 0);   // RFC 6455 4.1: a client must not send data before the answer
  if (did_hs) {
    KV seg; if (spec.kv.has("hseg")) { seg.m["seg"] = spec.kv.s("hseg"); seg.m["gap"] = spec.kv.s("hgap", "0"); }
    i64 cut = spec.kv.i("hcut", -1);      // stop in the middle of the request
    raw_send(cut >= 0 ? h.bytes.substr(0, cut % h.bytes.size()) : h.bytes, seg, 1);
    if (spec.kv.s("hsbad") == "nearendless") { sleep_ns(20000000); if (hs_done || eof) V("handshake", "limit-early", "request of exactly the %zu permitted bytes was %s before it was complete", h.bytes.size(), eof ? "cut off" : "answered"); raw_send("z", KV(), 2); }
    if (cut < 0 && !spec.kv.i("nowait", 0)) {
      if (!wait_for([this] { return hs_done; }, W.patience, "handshake") && !eof && !soft()) stuck("handshake", "no handshake response");
      if (!hs_done) return;
      if (hs_status != 101) {
        // the response must be complete, and the server must end the exchange or keep serving it; we close
        i64 wb = want_body; if (!wait_for([this, wb] { return (i64)rbuf.size() >= wb || eof; }, W.patience, "response body")) stuck("response-body", fmt("%zu of %lld body bytes", rbuf.size(), (long long)wb));
        sleep_ns(1000000);
        if (!W.halting && !W.lenient && !c->faulted && (i64)rbuf.size() != wb) V("handshake", "body-length", "response %d has Content-Length %lld but %zu body bytes followed", hs_status, (long long)wb, rbuf.size());
        return;
      }
    }
  }
  size_t nops = spec.ops.size();
  for (size_t i = 0; i < nops; i++) {
    const OpSpec &op = spec.ops[i]; const std::string &k = op.kind;
    if (dead() && k != "barrier") continue;
    W.actions++;
    if (k == "msg") send_message(op);
    else if (k == "ping") { Bytes pl = gen_payload(op.kv.i("seed", 1), op.kv.i("len", 4), false, 0), o; put_frame(o, true, 0, 9, true, 0x01020304u * (u32)op.kv.i("seed", 1), pl); pings.push_back(pl); raw_send(o, op.kv, 2); }
    else if (k == "pong") { Bytes o; put_frame(o, true, 0, 10, true, 99, gen_payload(op.kv.i("seed", 1), op.kv.i("len", 4), false, 0)); raw_send(o, op.kv, 3); }
    else if (k == "sleep") sleep_ns(op.kv.i("us", 100) * 1000);
    else if (k == "sleepto") { u64 t = 1000000000000ull + op.kv.i("at", 0) * 1000; if (t > now_ns) sleep_ns(t - now_ns); }
    else if (k == "flush") raw_send("", KV(), 4);
    else if (k == "partial") { // a message cut off in the middle
      Bytes o; put_frame(o, op.kv.i("fin", 1), 0, 1 + op.kv.i("t", 0), true, 0xabcdef01, gen_payload(op.kv.i("seed", 1), op.kv.i("len", 20), true, 1)); if (op.kv.i("fin", 1)) o.resize(std::min<size_t>(o.size() - 1, 1 + op.kv.i("cut", 3) % (o.size() - 1))); partial_sent = true; raw_send(o, op.kv, 6); }
    else if (k == "raw") { Bytes o = gen_payload(op.kv.i("seed", 1), op.kv.i("len", 20), false, 0); violation = true; close_sent = true; violation_kind = "raw"; gone_ok = true; raw_send(o, op.kv, 8); }
    else if (k == "waitall") {
      if (held.size()) raw_send("", KV(), 4);
      if (!wait_for([this] { return is_bcast() || (next_echo >= sent.size()); }, W.patience, "echo") && !eof && !soft()) stuck("echo", fmt("%zu of %zu echoes received", next_echo, sent.size()));
      if (!wait_for([this] { return next_pong >= pings.size(); }, W.patience, "pong") && !eof && !soft()) stuck("pong", fmt("%zu of %zu pongs received", next_pong, pings.size()));
      if (W.cfg.i("push", 0) && !wait_for([this] { return all_pushed(nullptr); }, W.patience, "pushes") && !eof && !soft()) { std::string m; all_pushed(&m); if (!W.halting) stuck("push", m); }
    }
    else if (k == "kick") {   // ask the subprotocol to send a Close
      if (held.size()) raw_send("", KV(), 4);
      Bytes o; kick_kind = op.kv.i("kind", 2); put_frame(o, true, 0, 1, true, 0x31415926, fmt("@@kick%d", kick_kind)); kicked = true; raw_send(o, op.kv, 6);
      if (!wait_for([this] { return eof; }, W.patience, "close by the subprotocol")) stuck("kick", "the Close the subprotocol sent did not end the connection"); else if (!close_recv && !W.halting && !c->faulted) V("push", "no-close-frame", "the connection ended without the Close the subprotocol sent");
    }
    else if (k == "waitbc") { if (!wait_for([this] { return bcast_complete(nullptr); }, W.patience, "broadcast") && !eof && !W.lenient) { std::string m; bcast_complete(&m); vkey = "lost"; if (!W.halting) stuck("broadcast", m); } }
    else if (k == "barrier") { i64 b = op.kv.i("n", 0); W.barrier[b].insert(id); wake(&W.barrier); while (W.barrier[b].size() < W.bar_need[b]) block(&W.barrier, 0, "barrier"); }
    else if (k == "stall") { stalled = was_stalled = true; note_fault(F_PEER_STALL); }
    else if (k == "unstall") { stalled = false; wake(&stalled); }
    else if (k == "close") {
      send_close(op.kv.i("code", 1000), gen_payload(3, op.kv.i("rlen", 0), true, 1), op.kv); if (op.kv.i("stay", 0)) sleep_ns(op.kv.i("stay") * 1000); stalled = false; wake(&stalled);
      if (!wait_for([this] { return eof; }, W.patience, "close") && !soft()) stuck("close", close_recv ? "Close answered but the connection was not ended" : "Close not answered");
    }
    else if (k == "bad") {
      send_bad(op); stalled = false; wake(&stalled);
      if (!wait_for([this] { return eof; }, W.patience, "close after violation") && !soft()) stuck("violation-close", fmt("violation '%s' %s", violation_kind.c_str(), close_recv ? "answered but the connection was not ended" : "was not answered"));
    }
    else if (k == "fin") { fin_sent = gone_ok = true; note_fault(F_PEER_FIN); net_client_shutdown(c); stalled = false; wake(&stalled); if (!wait_for([this] { return eof; }, W.patience, "close after FIN")) stuck("fin", "server did not end the connection after the client's FIN"); }
    else if (k == "abort") { aborted = gone_ok = true; note_fault(F_PEER_RST); net_client_reset(c); return; }
    else if (k == "drop") { aborted = gone_ok = true; note_fault(F_PEER_FIN); net_client_close(c); return; }
    else if (k == "waiteof") { if (!wait_for([this] { return eof; }, op.kv.i("us", 60000000) * 1000, "server close")) { if (op.kv.i("must", 1) && !W.lenient) stuck("server-close", op.kv.s("why", "connection should have been ended by the server")); } }
    else if (k == "tls") op_tls(op);
    else if (k == "silent") op_silent(op);
    else if (k == "overdue") op_overdue(op);
    else if (k == "idle") { idle_close_ok = true; wait_for([this] { return eof; }, op.kv.i("us", 1000) * 1000, "idle"); }
    else internal_error("unknown op " + k);
    if (after_op) after_op(op);
  }
}
// From now on the client says nothing, not even pongs: it must be pinged at the configured interval, told to go away no
// earlier than the client timeout, and be gone one cleanup interval later.
void Client::op_silent(const OpSpec &op) {
  u64 T = W.tclient * 1000000ull, I = W.pings > 0 ? W.tclient / W.pings * 1000000ull : T, slack = op.kv.i("slack", 40) * 1000000ull;
  idle_close_ok = true; silent = true; u64 lo = std::max<u64>(last_tx, 1), hi = now_ns; silent_pings.clear(); bool ws = hs_status == 101;
  bool deaf = op.kv.i("deaf", 0); if (deaf) { stalled = was_stalled = true; hi += T; }   // the timeout starts again when data for it first has to wait
  while (!c->srv_closed && !c->rst && now_ns < hi + T + I + slack) block(&silent_pings, now_ns + 2000000, "silence");
  if (W.halting) return;
  R->st.evals++; R->st.nontrivial++;
  if (!c->srv_closed) { V("idle", "not-reclaimed", "silent for %llu ms with a client timeout of %lld ms and %lld pings, but still connected", (unsigned long long)((now_ns - lo) / 1000000), (long long)W.tclient, (long long)W.pings); return; }
  if (stalled) { stalled = false; wake(&stalled); }
  wait_for([this] { return eof && reader_done; }, 5000000000ull, "end of stream");
  if (!c->in.empty()) lo = std::min(lo, std::max<u64>(c->read_time, 1));   // flow control: what the server could not read yet says nothing to it
  u64 end = c->close_time; if (end + 2000000 < lo + T) V("idle", "early", "reclaimed %lld us after its last data, the client timeout is %lld ms", (long long)(end - lo) / 1000, (long long)W.tclient);
  if (op.kv.i("deaf", 0)) return;
  if (ws && (!close_recv || close_code != 1013)) V("idle", "no-close-frame", "reclaimed without the Close frame 1013 (code %d)", close_code);
  if (!ws) return;
  if (W.pings <= 0 && silent_pings.size()) V("idle", "ping-unconfigured", "%zu pings although none are configured", silent_pings.size());
  if (W.pings > 0) { u64 prev = 0, last = hi; for (u64 p : silent_pings) { if (p > last + I + slack) V("idle", "ping-late", "no ping for %llu ms, they are due every %llu ms", (unsigned long long)((p - last) / 1000000), (unsigned long long)(I / 1000000)); if (prev && p + slack < prev + I) V("idle", "ping-early", "pings %llu ms apart, they are due every %llu ms", (unsigned long long)((p - prev) / 1000000), (unsigned long long)(I / 1000000)); prev = last = p; }
    if (end > last + I + slack) V("idle", "ping-late", "no ping in the last %llu ms before the close, they are due every %llu ms", (unsigned long long)((end - last) / 1000000), (unsigned long long)(I / 1000000)); }
}
// An incomplete frame or request (kind=read) or data the client does not take (kind=write) stays pending for `us`
// microseconds, longer than the timeout: the next activity must end the connection instead of going on.
void Client::op_overdue(const OpSpec &op) {
  std::string kind = op.kv.s("kind", "read"); size_t before = next_echo; u64 us = op.kv.i("us", 1000);
  gone_ok = true;
  if (kind == "write") {
    stalled = was_stalled = true; note_fault(F_PEER_STALL);
    for (i64 i = 0; i < op.kv.i("n", 10); i++) { OpSpec m; m.kind = "msg"; m.kv.m = {{"t", "1"}, {"len", fmt("%lld", (long long)op.kv.i("len", 100))}, {"seed", fmt("%lld", (long long)(op.kv.i("seed", 1) + i))}}; send_message(m); }
    sleep_ns(us * 1000); stalled = false; wake(&stalled);
  } else if (kind == "request") {
    sleep_ns(us * 1000); Bytes rest = hs_req.substr(spec.kv.i("hcut", 0) % hs_req.size()); raw_send(rest, KV(), 11);
  } else {
    Bytes o, pl = gen_payload(op.kv.i("seed", 1), op.kv.i("len", 20), false, 0); put_frame(o, true, 0, 2, true, 0x51f3c2a9, pl); i64 fr = op.kv.i("frag", 0); size_t cut = 1 + op.kv.i("cut", 3) % (o.size() - 1); partial_sent = true;
    if (fr > 0) { // whole fragments, with or without a ping behind them: the message is still incomplete
      o.clear(); for (i64 i = 0; i < fr; i++) put_frame(o, false, 0, i ? 0 : 2, true, 0x1000193u * (u32)(i + 1), pl); if (op.kv.i("fping", 0)) { put_frame(o, true, 0, 9, true, 0x2345678, Bytes("")); pings.push_back(Bytes()); } cut = o.size(); put_frame(o, true, 0, 0, true, 0x51f3c2a9, pl);
    }
    raw_send(o.substr(0, cut), op.kv, 6); sleep_ns(us * 1000); if (dead()) return; raw_send(o.substr(cut), KV(), 7);
  }
  bool ended = wait_for([this] { return eof; }, 5000000000ull, "end after timeout");
  if (W.halting) return;
  R->st.evals++; R->st.nontrivial++;
  if (!ended) V("timeout", "not-ended-" + kind, "%s pending for %llu us, far beyond the timeout (read %lld ms, write %lld ms), yet the connection goes on", kind.c_str(), (unsigned long long)us, (long long)W.tread, (long long)W.twrite);
  if (kind == "request" && hs_done) V("timeout", "answered-late-request", "request completed %llu us after its first part was answered with %d", (unsigned long long)us, hs_status);
  if (kind == "write" && next_echo >= sent.size()) V("timeout", "write-completed", "%s", "data pending beyond the write timeout was delivered completely");
  if (kind == "read" && next_echo > before) V("timeout", "read-completed", "%s", "frame completed after the read timeout was processed");
}
// every message of another broadcast client that was sent after our handshake finished and completely
// handed to the server must have arrived
bool Client::bcast_complete(std::string *miss) {
  for (auto &o : W.clients) {
    if (o->id == id || !o->is_bcast() || !o->spec.kv.i("polite", 1)) continue;
    for (size_t i = 0; i < o->sent.size(); i++) {
      if (!o->sent[i].done || o->sent[i].hs_epoch < hs_epoch) continue;
      auto it = bnext.find(o->id); 
      if (it == bnext.end() || it->second <= i || bfirst[o->id] > i) { if (miss) *miss = fmt("message %zu of client %d missing", i, o->id); return false; }
    }
  }
  return true;
}
