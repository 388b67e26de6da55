// Scenario text format, configuration file generation, and the per-property scenario generators.
#include "ws.h"
#include <sstream>

static KV parse_kv(std::istringstream &is) {
  KV k; std::string t; while (is >> t) { size_t e = t.find('='); if (e == std::string::npos) k.m[t] = "1"; else k.m[t.substr(0, e)] = t.substr(e + 1); } return k;
}
Scenario parse_scenario(const std::string &text) {
  Scenario s; std::istringstream is(text); std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line); std::string w; ls >> w;
    if (w == "cfg") { KV k = parse_kv(ls); for (auto &x : k.m) s.cfg.m[x.first] = x.second; }
    else if (w == "sched") { KV k = parse_kv(ls); for (auto &x : k.m) s.sched.m[x.first] = x.second; }
    else if (w == "client") { ClientSpec c; ls >> c.id; c.kv = parse_kv(ls); s.clients.push_back(c); }
    else if (w == "op") { int id; OpSpec o; ls >> id >> o.kind; o.kv = parse_kv(ls); for (auto &c : s.clients) if (c.id == id) c.ops.push_back(o); }
    else if (w == "dir") { OpSpec o; ls >> o.kind; o.kv = parse_kv(ls); s.dir.push_back(o); }
    else internal_error("scenario line: " + line);
  }
  return s;
}
static std::string jlist(const std::string &v) {
  std::string o = "["; std::string t; bool first = true;
  for (char c : v + ",") { if (c == ',') { if (!t.empty()) { o += std::string(first ? "" : ",") + "\"" + t + "\""; first = false; } t.clear(); } else { if (c == '\\') t += c; t += c; } }
  return o + "]";
}

// The same configuration written another way: order of members, white space, comments, string escapes, unknown members, and
// settings left out when they have their default value. What the server is told stays the same.
struct Js { char k = 's'; std::string raw; std::vector<std::pair<std::string, Js>> m; };   // k: o(bject) a(rray) s(tring) v(alue)
static void js_ws(const std::string &s, size_t &i) { while (i < s.size() && isspace((u8)s[i])) i++; }
static std::string js_str(const std::string &s, size_t &i) { std::string o; for (i++; s[i] != '"'; i++) { if (s[i] == '\\') i++; o += s[i]; } i++; return o; }
static Js js_parse(const std::string &s, size_t &i) {
  Js j; js_ws(s, i);
  if (s[i] == '{' || s[i] == '[') {
    bool ob = s[i] == '{'; j.k = ob ? 'o' : 'a'; i++; js_ws(s, i);
    while (s[i] != '}' && s[i] != ']') { std::string key; if (ob) { key = js_str(s, i); js_ws(s, i); i++; } Js v = js_parse(s, i); j.m.emplace_back(key, v); js_ws(s, i); if (s[i] == ',') { i++; js_ws(s, i); } }
    i++;
  } else if (s[i] == '"') j.raw = js_str(s, i);
  else { j.k = 'v'; while (!strchr(",]} \n", s[i])) j.raw += s[i++]; }
  return j;
}
static bool js_default(const std::string &p, const Js &v) {   // does leaving p out mean the same?
  static const std::map<std::string, std::string> d = {{"/setup/timeouts/poll", "-1"}, {"/setup/timeouts/read", "1000"}, {"/setup/timeouts/write", "1000"}, {"/setup/timeouts/client", "60000"}, {"/setup/timeouts/pings", "1"}, {"/setup/port/http", "80"}, {"/setup/port/https", "443"},
    {"/setup/size/payload", "16777215"}, {"/setup/size/header", "8192"}, {"/setup/size/uri", "8192"}, {"/setup/size/buffer", "32768"}, {"/setup/size/thread", "2097152"}, {"/setup/size/ringbuffer", "128"}, {"/setup/size/frame", "1048576"}, {"/setup/size/fragmented", "1048576"}, {"/setup/pool/workers", "4"}, {"/setup/pool/retries", "5"},
    {"/setup/ssl/ca_file", "null"}, {"/setup/ssl/ca_path", "null"}, {"/setup/ssl/dhparam", "null"}, {"/setup/ssl/compression", "false"}, {"/setup/ssl/peer_cert", "false"}};
  if (p == "/setup/log_level" || v.k == 'o') return v.m.empty() || p == "/setup/log_level"; if (v.k == 'a') return v.m.empty() && p != "/setup/subprotocols";
  auto x = d.find(p); return v.k == 'v' && x != d.end() && x->second == v.raw;
}
static void js_drop(Js &j, const std::string &p, Rng &r, double pr) {
  for (size_t i = 0; i < j.m.size();) { js_drop(j.m[i].second, p + "/" + j.m[i].first, r, pr); if (j.k == 'o' && js_default(p + "/" + j.m[i].first, j.m[i].second) && r.chance(pr)) j.m.erase(j.m.begin() + i); else i++; }
}
static std::string js_out(const Js &j, Rng &r, int how) {   // how: bit 0 white space, 1 comments, 2 escapes, 3 order, 4 unknown members
  auto ws = [&](bool open = false) -> std::string { std::string o; if (how & 1) { static const char *w[] = {"", " ", "\n", "\t", "\r\n", "  \n\t "}; o = w[r.below(6)]; } if (open && (how & 2) && r.chance(0.2)) { static const char *c[] = {"/* note */", "/**/", "// until here\n", "//\n", "/* \"setup\": {} */", "/* a * b / c\n{ */", "// \"hosts\": [\"x\"],\n"}; o += c[r.below(7)]; } return o; };
  auto str = [&](const std::string &s) { std::string o = "\""; for (size_t k = 0; k < s.size(); k++) { char c = s[k]; u8 b = c; int more = b >= 0xf0 ? 3 : b >= 0xe0 ? 2 : b >= 0xc0 ? 1 : 0;
    if (more) { std::string raw = s.substr(k, more + 1); k += more; if (!(how & 4) || r.chance(0.4)) { o += raw; continue; } u32 cp = b & (0x3f >> more); for (int q = 1; q <= more; q++) cp = cp << 6 | ((u8)raw[q] & 0x3f); const char *f = r.chance(0.5) ? "\\u%04x" : "\\u%04X"; if (cp > 0xffff) { o += fmt(f, 0xd800 + ((cp - 0x10000) >> 10)); o += fmt(f, 0xdc00 + ((cp - 0x10000) & 0x3ff)); } else o += fmt(f, cp); continue; }
    if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((how & 4) && c == '/' && r.chance(0.3)) o += "\\/"; else if ((how & 4) && r.chance(0.1)) o += fmt(r.chance(0.5) ? "\\u%04x" : "\\u%04X", (u8)c); else o += c; } return o + "\""; };
  if (j.k == 's') return str(j.raw); if (j.k == 'v') return j.raw;
  Js q = j; bool ob = j.k == 'o';
  if (ob && (how & 16)) for (int n = r.below(3); n > 0; n--) { static const char *k[] = {"note", "x-comment", "_", "", "version", "nested"}; Js v; v.k = 'v'; static const char *w[] = {"1", "-2.5e3", "true", "null", "[1, [2, {\"a\": []}]]", "{\"a\": {\"b\": {\"c\": 1}}}", "\"\\n\\t\\u20ac\"", "0"}; v.raw = w[r.below(8)]; q.m.emplace_back(k[r.below(6)], v); }
  if (ob && (how & 8)) for (size_t i = q.m.size(); i > 1; i--) std::swap(q.m[i - 1], q.m[r.below(i)]);
  std::string o = ob ? "{" : "["; o += ws(true);
  for (size_t i = 0; i < q.m.size(); i++) { if (i) o += "," + ws(true); if (ob) o += str(q.m[i].first) + ws() + ":" + ws(); o += js_out(q.m[i].second, r, how) + ws(); }
  return o + (ob ? "}" : "]");
}
static std::string restyle(const Scenario &s, const std::string &o) {
  Rng r(s.cfg.i("style", 1)); size_t i = 0; Js j = js_parse(o, i); int how = r.below(32); double pr = r.chance(0.25) ? 1 : r.unit();
  if (s.cfg.s("subs", "echo,broadcast") == "echo,broadcast" && r.chance(0.5)) for (auto &x : j.m) if (x.first == "setup") for (size_t k = 0; k < x.second.m.size(); k++) if (x.second.m[k].first == "subprotocols") { if (r.chance(0.3)) x.second.m[k].second.m.clear(); else x.second.m.erase(x.second.m.begin() + k); break; }
  js_drop(j, "", r, pr); std::string t = js_out(j, r, how);
  if (how & 1) t = (r.chance(0.5) ? " \n" : "") + t + (r.chance(0.5) ? "\n\n" : "");
  return t;
}
extern std::string plugin_dir, cert_dir; std::string xt_config(const std::string &);
std::string plug_config(const std::string &n, const KV &c) { return n == "permessage-deflate" ? c.s("extcfg", "server_max_window_bits=15;client_max_window_bits=15;memory_level=8") : n == "xa" || n == "xb" ? xt_config(n) : n == "probe" || n == "push" ? "the configuration of " + n + ", x=1; y" : ""; }
std::string config_json(const Scenario &s) {
  const KV &c = s.cfg; std::string o = "{\n";
  for (const char *k : {"hosts", "paths", "queries", "origins"}) o += fmt("\"%s\": ", k) + jlist(c.s(k, "")) + ",\n";
  o += "\"setup\": {\n\"subprotocols\": [";
  // a file that is missing or is no plugin of that kind is left out, the others are loaded
  Rng br(c.i("badplug", 0)); auto list = [&](const std::string &names, std::initializer_list<const char *> bad) {
    std::string t, l; auto add = [&](const std::string &n, const std::string &conf) { l += (l.size() ? ", " : "") + fmt("{\"file\": \"%s/%s.so\", \"config\": \"%s\"}", plugin_dir.c_str(), n.c_str(), conf.c_str()); };
    auto bads = [&] { if (c.i("badplug", 0)) while (br.chance(0.6)) add(*(bad.begin() + br.below(bad.size())), br.chance(0.5) ? "" : "key=1;x=2"); };
    for (char ch : names + ",") { if (ch == ',') { bads(); if (t.size()) add(t, plug_config(t, c)); t.clear(); } else t += ch; } bads(); return l; };
  o += list(c.s("subs", "echo,broadcast"), {"missing", "xa", "permessage-deflate", "nowhere/echo", "s_setAllocators", "s_onInit", "s_onConnect", "s_onMessage", "s_onWrite", "s_onClose", "s_onDestroy"}) + "],\n";
  if (c.has("exts") || c.i("ext", 0) || c.i("badplug", 0)) o += "\"extensions\": [" + list(c.has("exts") ? c.s("exts") : c.i("ext", 0) ? "permessage-deflate" : "", {"missing", "echo", "push", "nowhere/xa", "x_setAllocators", "x_onInit", "x_onOpen", "x_inFrame", "x_inFrames", "x_outFrame", "x_outFrames", "x_onClose", "x_onDestroy"}) + "],\n";
  o += fmt("\"log_level\": %lld,\n", (long long)c.i("log", 1));
  if (c.i("favicon", 0)) o += "\"favicon\": \"/sim/favicon.ico\",\n";
  o += fmt("\"timeouts\": {\"poll\": %lld, \"read\": %lld, \"write\": %lld, \"client\": %lld, \"pings\": %lld},\n", (long long)c.i("tpoll", -1), (long long)c.i("tread", -1), (long long)c.i("twrite", -1), (long long)c.i("tclient", -1), (long long)c.i("pings", 0));
  o += fmt("\"port\": {\"http\": %lld, \"https\": %lld},\n", (long long)c.i("ph", 9080), (long long)c.i("phs", 9443));
  o += fmt("\"size\": {\"payload\": %lld, \"header\": %lld, \"uri\": %lld, \"buffer\": %lld, \"thread\": %lld, \"ringbuffer\": %lld, \"frame\": %lld, \"fragmented\": %lld},\n",
    (long long)c.i("payload", 1 << 20), (long long)c.i("header", 2048), (long long)c.i("uri", 1024), (long long)c.i("buffer", 4096), (long long)c.i("thread", 1 << 20), (long long)c.i("ring", 64), (long long)c.i("frame", 1 << 19), (long long)c.i("fragmented", 1024));
  o += fmt("\"pool\": {\"workers\": %lld, \"retries\": %lld}", (long long)c.i("workers", 2), (long long)c.i("retries", 5));
  if (c.i("ssl", 0)) o += ",\n\"ssl\": {\"key\": \"" + cert_dir + "/" + c.s("sslkey", "wsserver") + ".key\", \"cert\": \"" + cert_dir + "/" + c.s("sslcert", "wsserver") + ".crt\", \"ca_file\": " + (c.i("sslcapath", 0) == 1 ? "null" : "\"" + cert_dir + "/" + c.s("sslca", c.i("sslcapath", 0) ? "wsrsa" : "rootCA") + ".crt\"") + ", \"ca_path\": " + (c.i("sslcapath", 0) ? "\"" + cert_dir + "/ca\"" : "null")
    + ", \"dhparam\": " + (c.has("ssldh") ? "\"" + cert_dir + "/" + c.s("ssldh") + ".pem\"" : "null") + (c.has("sslciphers") ? ", \"cipher_list\": \"" + c.s("sslciphers") + "\"" : "") + (c.has("sslsuites") ? ", \"cipher_suites\": \"" + c.s("sslsuites") + "\"" : "") + ", \"compression\": false, \"peer_cert\": " + (c.i("sslpeer", 0) ? "true" : "false") + "}";
  o += "\n}\n}\n";
  if (c.has("style") && !c.i("bad", 0)) o = restyle(s, o);
  // malformed configurations, which start-up has to refuse
  auto sub = [&](const std::string &from, const std::string &to) { size_t x = o.find(from); if (x == std::string::npos) internal_error("no " + from + " in the configuration"); o.replace(x, from.size(), to); };
  auto arr = [&](const std::string &key, const std::string &v) { size_t x = o.find("\"" + key + "\": ["), y = o.find("]", x); if (x == std::string::npos) internal_error("no " + key + " in the configuration"); o.replace(x, y + 1 - x, "\"" + key + "\": " + v); };
  switch (c.i("bad", 0)) {
    case 1: o.resize(o.size() * (1 + c.i("badat", 50) % 97) / 100); break;
    case 2: o = "[" + o + "]"; break;
    case 3: arr("hosts", "[\"localhost\", 3, \"x\"]"); break;
    case 4: arr("origins", "[\"http://localhost\", null]"); break;
    case 5: arr("paths", "[[]]"); break;
    case 6: arr("queries", "[\"a\", \"b\", {}]"); break;
    case 7: arr("subprotocols", "[3]"); break;
    case 8: sub("\"file\": ", "\"file\": 7, \"name\": "); break;
    case 9: sub("\"setup\": {", "\"setup\": {\"extensions\": [\"x\"],"); break;
    case 10: sub(fmt("\"http\": %lld, \"https\": %lld", (long long)c.i("ph", 9080), (long long)c.i("phs", 9443)), "\"http\": 0, \"https\": 0"); break;
    case 11: o += "}"; break;
    case 12: arr("paths", "[\"chat\", \"(room\"]"); break;
    case 13: sub(fmt("\"http\": %lld", (long long)c.i("ph", 9080)), "\"http\": 70000"); break;
    case 14: sub("\"workers\": ", "\"workers\": 0, \"x\": "); break;
    case 15: sub("\"setup\": {", "\"setup\": {\"extensions\": [{\"file\": 1}],"); break;
    case 16: o.clear(); break;
    case 17: sub("\"pool\"", "\"pool\" /* */ /"); break;
  }
  return o;
}

// ---------------------------------------------------------------- generators
struct Gen {
  Rng r; std::string out; int ncl = 0; std::map<std::string, std::string> cfg; std::string sched; bool tls = false, conf = false, nospur = false; double tlsbadp = 0;
  explicit Gen(u64 s) : r(s) {}
  i64 pick(std::initializer_list<i64> l) { return *(l.begin() + r.below(l.size())); }
  double pickf(std::initializer_list<double> l) { return *(l.begin() + r.below(l.size())); }
  void C(const char *k, i64 v) { cfg[k] = fmt("%lld", (long long)v); }
  void S(const std::string &s) { sched += " " + s; }
  std::string body;
  int client(const std::string &kv) { body += fmt("client %d ", ncl) + kv + (tls && kv.find(" plain=1") == std::string::npos && (kv.find(" tlsyes=1") != std::string::npos || !r.chance(0.15)) ? tlskv() : "") + "\n"; return ncl++; }
  std::string tlskv() {
    std::string s = " tls=1"; double u = r.unit(); if (u < 0.3) s += " tlsv=12"; else if (u < 0.6) s += " tlsv=13"; if (r.chance(0.4)) s += " tlsco=1"; if (r.chance(0.2)) s += " tlsgroup=1"; if (r.chance(0.3)) s += " tlsbye=1";
    if (r.chance(0.35)) { s += fmt(" tlsseg=%d", (int)(1 + r.below(100000))); if (r.chance(0.5)) s += fmt(" tlsgap=%lld", (long long)pick({10, 200, 3000})); } if (r.chance(0.15)) s += fmt(" tlsmaxfrag=%lld", (long long)pick({512, 1000, 4096}));
    if (r.chance(tlsbadp)) { static const char *k[] = {"garbage", "http", "flip", "cut", "fin", "abort", "drop"}; s += fmt(" tlsbad=%s tlsat=%d tlsseed=%d gone=1 polite=0", k[r.below(7)], (int)r.below(3), (int)(1 + r.below(100000))); }
    return s;
  }
  void op(int c, const std::string &s) { body += fmt("op %d ", c) + s + "\n"; }
  void dir(const std::string &s) { body += "dir " + s + "\n"; }
  void strategy(double memw = 1) {
    double u = r.unit();
    if (u < 0.06) S("strat=0");
    else if (u < 0.66) { S(fmt("strat=1 ps=%g pb=%g", pickf({0.01, 0.05, 0.15, 0.4}), pickf({0, 0.3, 1, 1}))); if (r.chance(0.55 * memw)) S(fmt("mem=%lld", (long long)pick({40, 150, 600, 3000}))); }
    else { S(fmt("strat=2 ps=%g", pickf({0.002, 0.01, 0.03, 0.1}))); if (r.chance(0.4 * memw)) S(fmt("mem=%lld", (long long)pick({150, 600, 3000}))); }
    if (r.chance(0.3)) { S(fmt("stall=%g stallmax=%lld", pickf({0.002, 0.01, 0.05}), (long long)pick({20000, 500000, 5000000}))); }
  }
  void benign(double p = 0.3) {
    static const char *k[] = {"read_short", "read_eintr", "write_short", "write_eintr", "write_eagain", "accept_eintr", "epoll_wait_eintr", "poll_eintr", "cond_spurious_wakeup", "sleep_eintr"};
    for (auto x : k) if (r.chance(p)) S(fmt("f.%s=%g", x, pickf({0.02, 0.1, 0.3})));
    if (!nospur && r.chance(0.15)) S(fmt("f.spurious_readiness=%g", pickf({0.02, 0.1, 0.3})));
    if (r.chance(0.1)) S(fmt("f.process_pause=%g", pickf({0.0005, 0.003})));
  }
  void basecfg() {
    C("workers", pick({1, 1, 2, 2, 3, 4})); C("ring", pick({64, 128, 256}));
    C("buffer", pick({64, 256, 1024, 4096, 32768})); C("frame", pick({1 << 16, 1 << 19})); C("header", 4096);
    C("thread", r.chance(0.06) ? 1 << 20 : 131072);
    if (r.chance(0.3)) C("tpoll", pick({-1, 50, 1000}));
    if (r.chance(0.15)) C("log", 7);
  }
  std::string seg() { if (r.chance(0.5)) return ""; std::string s = fmt(" seg=%d", (int)(1 + r.below(100000))); if (r.chance(0.4)) s += fmt(" gap=%lld", (long long)pick({10, 200, 3000})); return s; }
  std::string hseg() { if (r.chance(0.75)) return ""; std::string s = fmt(" hseg=%d", (int)(1 + r.below(100000))); if (r.chance(0.5)) s += fmt(" hgap=%lld", (long long)pick({10, 200})); return s; }
  i64 len(i64 max = 6000) { i64 v; switch (r.below(12)) { case 0: v = 0; break; case 1: v = pick({1, 2, 124, 125, 126, 127, 128}); break; case 2: v = r.below(max); break; case 3: v = pick({65533, 65535, 65536, 65537}); break; case 4: v = 1 + r.below(2000); break; default: v = 1 + r.below(90); } return v > max ? 1 + v % max : v; }
  std::string msg(i64 max = 6000, bool frags = true) {
    std::string s = fmt("msg t=%d len=%lld seed=%d style=%d", (int)r.below(2), (long long)len(max), (int)r.below(1000000), (int)r.below(3));
    if (frags && r.chance(0.25)) { s += fmt(" frags=%d", (int)(2 + r.below(4))); if (r.chance(0.4)) s += " ctl=1"; }
    s += seg(); if (r.chance(0.2)) s += " hold=1"; if (cfg.count("ext")) { double u = r.unit(); if (u < 0.1) s += " comp=0"; else if (u < 0.35) s += fmt(" flush=%d", (int)(1 + r.below(6))); }
    return s;
  }
  std::string ping() { return fmt("ping len=%d seed=%d", (int)pick({0, 1, 4, 60, 125}), (int)(1 + r.below(1000000))) + seg(); }
  std::string pong() { return fmt("pong len=%d seed=%d", (int)pick({0, 1, 4, 125}), (int)(1 + r.below(1000000))); }
  std::string cl(const char *sub) {
    std::string s = *sub ? fmt("sub=%s", sub) : ""; s += fmt(" at=%lld hseed=%d", (long long)(r.chance(0.5) ? 0 : r.below(3000)), (int)r.below(100000));
    if (r.chance(0.2)) s += fmt(" sndbuf=%lld", (long long)pick({200, 600, 2000, 8000}));
    if (r.chance(0.3)) s += fmt(" rchunk=%lld", (long long)pick({1, 7, 100, 2000})); if (r.chance(0.2)) s += fmt(" rdelay=%lld", (long long)pick({5, 100, 1000}));
    s += hseg(); if (r.chance(0.3)) s += " fancy=1";
    return s;
  }
  void traffic(int c, int n, i64 max, double pping = 0.12) {
    for (int i = 0; i < n; i++) { if (r.chance(pping)) op(c, ping()); else if (r.chance(0.05)) op(c, pong()); else op(c, msg(max)); if (r.chance(0.12)) op(c, "waitall"); if (r.chance(0.15)) op(c, fmt("sleep us=%lld", (long long)pick({1, 50, 500, 5000}))); }
    op(c, "flush"); 
  }
  void closing(int c, bool wait = true) { if (wait) op(c, "waitall"); if (r.chance(0.7)) op(c, fmt("close code=%lld rlen=%lld", (long long)pick({1000, 1001, 1000, 3000, 4999, 0}), (long long)pick({0, 0, 5, 40}))); }
  std::string text() { std::string o; o += "cfg"; for (auto &x : cfg) o += " " + x.first + "=" + x.second; o += "\nsched" + sched + "\n" + body; return o; }
};
static const char *offers_[] = {"permessage-deflate", "permessage-deflate;+client_max_window_bits", "permessage-deflate;+server_no_context_takeover", "permessage-deflate;+client_no_context_takeover",
  "permessage-deflate;+server_max_window_bits=10", "permessage-deflate;+client_max_window_bits=10", "permessage-deflate;+server_no_context_takeover;+client_no_context_takeover;+server_max_window_bits=12;+client_max_window_bits=11",
  "permessage-deflate;+client_max_window_bits;+server_max_window_bits=9", "x-foo,+permessage-deflate", "permessage-deflate;+client_max_window_bits;+server_no_context_takeover",
  "permessage-deflate;+server_max_window_bits=8", "permessage-deflate;+client_max_window_bits=8", "permessage-deflate;+server_max_window_bits=16,+permessage-deflate;+server_max_window_bits=14", "permessage-deflate;+client_max_window_bits,+permessage-deflate;+client_max_window_bits;+server_no_context_takeover",
  "permessage-deflate;+bogus=1,+x-bar;+a=b,+permessage-deflate;+client_no_context_takeover", "x-webkit-deflate-frame,+permessage-deflate;+client_max_window_bits=9;+server_max_window_bits=15", "permessage-deflate;+server_max_window_bits=0", "permessage-deflate;+client_max_window_bits=15;+client_no_context_takeover", "permessage-deflate;client_max_window_bits;server_max_window_bits=11;server_no_context_takeover", "permessage-deflate;+server_no_context_takeover,+permessage-deflate",
  "permessage-deflate;+client_max_window_bits=16", "permessage-deflate;+client_max_window_bits=7,+permessage-deflate", "permessage-deflate;+client_max_window_bits=0", "permessage-deflate;+server_max_window_bits", "permessage-deflate;+server_no_context_takeover=1", "permessage-deflate;+server_max_window_bits=10;+server_max_window_bits=12,+permessage-deflate;+client_max_window_bits", "permessage-deflate;+client_max_window_bits=12;+client_max_window_bits=8", "permessage-deflate;+client_no_context_takeover;+client_no_context_takeover", "permessage-deflate;+server_max_window_bits=abc", "permessage-deflate;++client_max_window_bits+;++server_max_window_bits=15", "x-foo;+q=\"a,+permessage-deflate\""};
extern const char *tls_pool12;
const char *tls_pool12 = "ECDHE-ECDSA-AES128-GCM-SHA256:ECDHE-ECDSA-AES256-GCM-SHA384:ECDHE-ECDSA-CHACHA20-POLY1305:ECDHE-ECDSA-AES128-SHA256:ECDHE-RSA-AES128-GCM-SHA256:ECDHE-RSA-AES256-GCM-SHA384:ECDHE-RSA-CHACHA20-POLY1305:ECDHE-RSA-AES256-SHA384:DHE-RSA-AES128-GCM-SHA256:DHE-RSA-AES256-GCM-SHA384";
// TLS settings that cannot be applied
static void bad_tls(Rng &r, std::map<std::string, std::string> &cfg) { static const char *b[][2] = {{"sslkey", "none"}, {"sslkey", "c_good"}, {"sslcert", "none"}, {"sslca", "none"}, {"sslciphers", "NO-SUCH-CIPHER"}, {"sslsuites", "TLS_NO_SUCH_SUITE"}, {"sslciphers", "ECDHE-RSA-AES128-GCM"}, {"sslsuites", "TLS_AES_128"}, {"sslca", "wsrsa.key"}, {"ssldh", "none"}, {"ssldh", "nodh"}}; auto &x = b[r.below(11)]; cfg["startup"] = "1"; cfg["bad"] = "100"; if (!strcmp(x[0], "sslca")) cfg.erase("sslcapath"); cfg[x[0]] = x[1]; }
// a random part of a list, in random order
static std::string some_of(Rng &r, const std::string &l, double p) {
  std::vector<std::string> v; std::string t, o; for (char ch : l + ":") { if (ch == ':') { if (r.chance(p)) v.insert(v.begin() + r.below(v.size() + 1), t); t.clear(); } else t += ch; }
  if (v.empty()) v.push_back(l.substr(0, l.find(':'))); for (auto &x : v) o += (o.size() ? ":" : "") + x; return o;
}
// any offer the grammar allows, and some it does not: parameters in any order, values in and out of range, repetitions, alternatives
static std::string an_offer(Rng &r) {
  static const char *P[] = {"client_max_window_bits", "server_max_window_bits", "client_no_context_takeover", "server_no_context_takeover"}, *V[] = {"8", "9", "10", "11", "12", "13", "14", "15", "15", "12", "10", "9", "7", "16", "1", "08", "150", "-9", "x", "9x"};
  std::string o; int alts = 1 + (r.chance(0.4) ? 1 + r.below(2) : 0);
  for (int a = 0; a < alts; a++) {
    if (a) o += r.chance(0.5) ? ",+" : ","; o += r.chance(0.9) ? "permessage-deflate" : "x-foo"; bool clean = r.chance(0.5); int n = r.below(clean ? 5 : 6); std::vector<int> left = {0, 1, 2, 3};
    for (int i = 0; i < n; i++) {
      int q; if (clean) { if (left.empty()) break; size_t x = r.below(left.size()); q = left[x]; left.erase(left.begin() + x); } else q = r.below(4);
      o += r.chance(0.6) ? ";+" : r.chance(0.8) ? ";" : "+;+"; o += !clean && r.chance(0.04) ? "client_max_window" : P[q];
      if (q == 1 || (q == 0 && r.chance(0.6))) { if (clean || r.chance(0.9)) o += std::string("=") + V[r.below(clean ? 12 : 20)]; } else if (!clean && r.chance(0.06)) o += "=1";
    }
  }
  return o;
}
static std::string any_offer(Rng &r) { std::string o; do o = an_offer(r); while (o.size() > 128); return o; }
struct Offers { Rng &r; std::string t; const char *operator[](size_t) { if (r.chance(0.3)) { t = any_offer(r); return t.c_str(); } return r.chance(0.6) ? offers_[r.below(10)] : offers_[r.below(sizeof offers_ / sizeof *offers_)]; } };
std::string gen_scenario(const std::string &profile, u64 seed) {
  std::string p = profile; Gen g(seed * 1000003ull + std::hash<std::string>()(p) % 1000003); Rng &r = g.r; Offers offers{r, ""}; g.basecfg(); 
  auto sched = [&](double memw = 1) { g.strategy(memw); };
  if (p == "tls") { static const char *b[] = {"echo", "echo", "tlsx", "tlsx", "tlsx", "stream", "gone", "bcast", "stop", "ping", "pmd", "viol", "progress", "idle", "syscalls", "alloc", "probe", "memory", "rwtimeout", "startup", "push", "exts", "churn"}; g.tls = true; g.C("ssl", 1); p = b[r.below(23)]; if (p == "tlsx" || r.chance(0.1)) g.tlsbadp = p == "tlsx" ? 0.35 : 0; }
  bool noconf = false, bext = false; if (p == "pmdbc") { bext = true; p = "bcast"; }
  if (p == "conf") {
    g.conf = true; static const char *b[] = {"hs", "hs", "limits", "limits", "echo", "bcast", "idle", "idle", "rwtimeout", "rwtimeout", "pmd", "viol", "tlspol", "ping", "startup", "probe", "exts"}; noconf = r.chance(0.15); p = noconf ? b[(i64[]){4, 4, 5, 13}[r.below(4)]] : b[r.below(17)]; if (!noconf && r.chance(0.25)) g.C("badplug", 1 + r.below(100000));
    if (r.chance(0.9)) g.C("style", 1 + r.below(1000000)); if (r.chance(0.3)) g.C("longopt", 1); bool many = p != "viol" && p != "limits" && p != "startup";
    for (auto x : std::initializer_list<std::pair<const char *, i64>>{{"workers", 4}, {"ring", 128}, {"buffer", 32768}, {"thread", 2097152}, {"header", 8192}, {"uri", 8192}, {"frame", 1048576}, {"payload", 16777215}}) if (noconf || r.chance(0.5)) g.C(x.first, x.second);
    if (noconf || (many && r.chance(0.5))) g.C("fragmented", 1048576); if (noconf || r.chance(0.4)) g.C("ph", 80); if (r.chance(0.4)) g.C("phs", 443);
  }
  g.nospur = p == "idle" || p == "rwtimeout";   // a job that finds nothing counts as activity there
  if (p == "probe" && r.chance(g.conf ? 0.6 : 0.12)) {
    // as many clients as there are workers, whose first messages are handled together
    sched(); g.cfg["subs"] = r.chance(0.5) ? "echo,probe" : "probe,echo"; g.C("lossy", 1); g.cfg["newsub"] = "probe"; i64 k = atoll(g.cfg["workers"].c_str()); g.C("meet", k); int n = k + r.below(4);
    for (int i = 0; i < n; i++) { int c = g.client(g.cl("probe")); g.op(c, "barrier n=1"); g.op(c, g.msg(300)); g.op(c, "waitall"); g.traffic(c, r.below(5), 300); g.closing(c); }
  } else if (p == "probe") {
    sched(); if (r.chance(0.1)) g.C("badplug", 1 + r.below(100000)); g.benign(0.2); g.cfg["subs"] = "echo,probe"; g.C("lossy", 1); g.cfg["newsub"] = "probe"; int n = g.pick({1, 2, 3, 4, 6, 8}); bool ext = r.chance(0.2); if (ext) g.C("ext", 1); bool early = r.chance(0.2); if (early) g.dir(fmt("sigint at=%lld", (long long)r.below(g.pick({300, 3000, 20000})))); if (r.chance(0.2)) { g.C("tclient", g.pick({1000, 3000})); g.C("pings", g.pick({0, 1, 3})); }
    for (int i = 0; i < n; i++) {
      std::string s = g.cl(r.chance(0.12) ? "echo" : "probe"); if (g.cfg.count("tclient")) for (size_t q; (q = s.find(" rdelay=")) != std::string::npos;) s.erase(q, std::min(s.find(' ', q + 1), s.size()) - q); if (ext && r.chance(0.8)) s += std::string(" ext=") + offers[r.below(10)]; if (r.chance(0.5)) { static const char *pp[] = {"/x", "/a/b/c", "/x?y=z", "/%20"}; s += std::string(" path=") + pp[r.below(4)]; }
      double u = r.unit(); bool go = true;
      if (u < 0.1) { static const char *bb[] = {"noupgrade", "key", "ver", "method", "dupkey", "nokey", "http"}; g.client(s + " hsbad=" + bb[r.below(7)]); continue; }
      if (u < 0.2) s += fmt(" hcut=%d gone=1", (int)r.below(400)); else if (u < 0.35) s += " nowait=1 gone=1"; else if (u < 0.65 || early || g.cfg.count("tclient")) s += " gone=1"; else go = false;
      int c = g.client(s); if (!(u >= 0.1 && u < 0.2)) g.traffic(c, 1 + r.below(n > 2 ? 5 : 10), g.pick({200, 3000, 3000}));
      if (go) { static const char *e[] = {"abort", "drop", "fin", "abort", "bad kind=opcode", "close code=1000", "bad kind=utf8"}; bool pre = u >= 0.1 && u < 0.2; if (r.chance(0.4)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({5, 50, 500, 5000}))); g.op(c, e[r.below(pre ? 4 : 7)]); } else g.closing(c);
    }
  } else if (p == "push") {
    // a subprotocol that sends from all of its events, to the client it is about and to all others
    sched(); g.benign(0.2); g.cfg["tagged"] = "1"; g.cfg["subs"] = "echo,push"; g.cfg["newsub"] = "push"; g.C("ring", 256); g.C("push", 256 | r.below(128)); g.C("frame", g.pick({300, 1000, 1 << 16})); i64 fr = atol(g.cfg["frame"].c_str()); bool ext = r.chance(0.25); if (ext) { g.C("ext", 1); fr = fr * 9 / 10 - 20; } int n = g.pick({1, 2, 3, 4, 5, 6});
    bool tc = r.chance(0.2); if (tc) { g.C("tclient", 20000); g.C("pings", g.pick({1, 3})); } if (r.chance(0.1)) g.dir(fmt("sigint at=%lld", (long long)r.below(g.pick({300, 3000, 20000}))));
    for (int i = 0; i < n; i++) {
      std::string s = g.cl(r.chance(0.1) ? "echo" : "push"); if (tc) for (size_t q; (q = s.find(" rdelay=")) != std::string::npos;) s.erase(q, std::min(s.find(' ', q + 1), s.size()) - q); if (ext && r.chance(0.8)) s += std::string(" ext=") + offers[r.below(10)]; if (r.chance(0.3)) s += fmt(" sndbuf=%lld", (long long)g.pick({50, 200, 600})); bool go = r.chance(0.3), ps = s.find("sub=push") != std::string::npos; if (go) s += " gone=1";
      int c = g.client(s); g.traffic(c, 1 + r.below(6), std::min<i64>(fr, g.pick({60, 400, 3000})));
      if (go) { static const char *e[] = {"abort", "drop", "fin", "abort", "bad kind=opcode", "close code=1000"}; if (r.chance(0.4)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({5, 50, 500, 5000}))); g.op(c, e[r.below(6)]); } else if (ps && r.chance(0.3)) g.op(c, fmt("kick kind=%d", (int)r.below(4))); else g.closing(c);
    }
  } else if (p == "tlsx") {
    sched(); g.benign(); g.cfg["tagged"] = "1"; int n = g.pick({1, 1, 2, 3, 4}); bool bc = r.chance(0.2); if (r.chance(0.3)) { g.C("tclient", g.pick({5000, 20000})); g.C("pings", g.pick({2, 3})); }
    for (int i = 0; i < n; i++) {
      std::string s = g.cl(bc ? "broadcast" : "echo"); { size_t q = s.find(" rdelay="); if (g.cfg.count("tclient") && q != std::string::npos) { size_t e = s.find(' ', q + 1); s.erase(q, e == std::string::npos ? e : e - q); } } int c = g.client(s); int k = 1 + r.below(8);
      for (int j = 0; j < k; j++) { if (r.chance(0.25)) g.op(c, fmt("tls kind=keyupdate req=%d", (int)r.below(2))); if (r.chance(0.8)) g.op(c, g.msg(g.pick({100, 3000, 20000, 40000}))); else g.op(c, g.ping()); if (r.chance(0.12)) g.op(c, "waitall"); }
      g.op(c, "flush"); double u = r.unit(); if (!bc && u < 0.15) { g.op(c, "waitall"); g.op(c, "tls kind=notify"); } else if (!bc && u < 0.3) g.op(c, fmt("tls kind=corrupt at=%d", (int)r.below(1000))); else g.closing(c, !bc);
    }
  } else if (p == "exts") {
    // two more extensions, alone and together with permessage-deflate, whose data depends on everything that went before
    sched(); g.benign(0.3); g.cfg["tagged"] = "1"; bool bc = r.chance(0.3); g.C("ring", 256); std::vector<std::string> l = {"xa", "xb", "permessage-deflate"}; for (size_t i = 3; i > 1; i--) std::swap(l[i - 1], l[r.below(i)]); if (r.chance(0.4)) { size_t k = r.below(3); l.erase(l.begin() + k); } if (r.chance(0.15)) l = {r.chance(0.5) ? "xa" : "xb"};
    std::string e; for (auto &x : l) e += (e.size() ? "," : "") + x; g.cfg["exts"] = e; g.C("frame", g.pick({300, 1000, 1 << 16})); i64 fr = atol(g.cfg["frame"].c_str()) * 9 / 10 - 25; int n = g.pick({1, 2, 2, 3, 4, 5}); if (bc) n = g.pick({2, 2, 3, 4});
    bool tc = !bc && r.chance(0.15); if (tc) { g.C("tclient", 20000); g.C("pings", g.pick({1, 3})); } bool early = !bc && r.chance(0.1); if (early) g.dir(fmt("sigint at=%lld", (long long)r.below(g.pick({300, 3000, 20000}))));
    auto offer = [&] { std::string o; if (r.chance(0.12)) return std::string(r.chance(0.5) ? "xb;+ed" : fmt("xb;+k=%d;+ed", (int)r.below(256)));
      bool pm = false; for (int i = 1 + r.below(4); i > 0; i--) { std::string x; switch (r.below(12)) { case 0: case 1: x = "xa"; break; case 2: case 3: x = fmt("xa;+k=%d", (int)r.below(256)); break; case 4: case 5: x = "xb"; break; case 6: case 7: x = fmt("xb;k=%d", (int)r.below(256)); break; case 8: { static const char *b[] = {"x-foo", "xa;+k=300", "xb;+no", "x;+k=1", "xab", "xa;+k=1;+k=2", "xb;+k"}; x = b[r.below(7)]; break; } default: if (pm) continue; pm = true; x = offers_[r.below(4)]; }
        if (o.size()) o += r.chance(0.5) ? ",+" : ","; o += x; }
      return o.size() ? o : "xa"; };
    for (int i = 0; i < n; i++) {
      std::string s = g.cl(bc ? "broadcast" : "echo"); if (tc) for (size_t q; (q = s.find(" rdelay=")) != std::string::npos;) s.erase(q, std::min(s.find(' ', q + 1), s.size()) - q); if (r.chance(0.92)) s += " ext=" + offer();
      if (bc) { int c = g.client(s); g.op(c, "barrier n=1"); continue; }
      double u = r.unit(); bool go = true; if (u < 0.08) { static const char *bb[] = {"noupgrade", "key", "ver", "method", "dupkey", "nokey", "http"}; g.client(s + " hsbad=" + bb[r.below(7)]); continue; }
      if (u < 0.14) s += fmt(" hcut=%d gone=1", (int)r.below(500)); else if (u < 0.4 || early) s += " gone=1"; else go = false;
      int c = g.client(s); if (!(u >= 0.08 && u < 0.14)) g.traffic(c, 1 + r.below(n > 2 ? 6 : 12), std::min<i64>(fr, g.pick({60, 400, 3000, 20000})));
      if (u >= 0.4 && fr < 1000 && r.chance(0.25)) { g.op(c, fmt("msg t=%d len=%lld seed=%d style=%d fragsz=%lld", (int)r.below(2), (long long)(fr * g.pick({2, 5, 40, 70, 110}) + (i64)r.below(fr)), (int)r.below(1000000), (int)r.below(3), (long long)(fr - r.below(fr / 3)))); g.traffic(c, 2, std::min<i64>(fr, 400)); }
      if (go) { static const char *en[] = {"abort", "drop", "fin", "abort", "close code=1000"}; if (r.chance(0.4)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({5, 50, 500, 5000}))); g.op(c, en[r.below(u < 0.14 ? 4 : 5)]); } else g.closing(c);
    }
    if (bc) for (int i = 0; i < n; i++) { for (int j = r.below(6); j > 0; j--) { g.op(i, g.msg(std::min<i64>(fr, g.pick({60, 400, 3000})))); if (r.chance(0.2)) g.op(i, "sleep us=300"); if (r.chance(0.1)) g.op(i, g.ping()); } g.op(i, "flush"); g.op(i, "barrier n=2"); g.op(i, "waitbc"); g.op(i, "barrier n=3"); if (r.chance(0.7)) g.op(i, "close code=1000"); }
  } else if (p == "echo" || p == "pmd") {
    const char *sub = p == "probe" ? "probe" : "echo"; if (p == "probe") g.cfg["subs"] = "echo,probe";
    sched(); g.benign(); int n = g.pick({1, 1, 2, 3, 4}); bool ext = p == "pmd" || r.chance(0.1); if (ext) g.C("ext", 1);
    for (int i = 0; i < n; i++) {
      std::string s = g.cl(p == "echo" && r.chance(0.15) ? "" : sub); if (ext && r.chance(0.9)) s += std::string(" ext=") + offers[r.below(10)];
      if (p == "probe" && r.chance(0.2)) s += " gone=1";
      int c = g.client(s); g.traffic(c, 1 + r.below(n > 2 ? 6 : 12), g.pick({200, 3000, 3000, 20000}));
      if (p == "probe" && r.chance(0.3)) g.op(c, r.chance(0.5) ? "abort" : r.chance(0.5) ? "drop" : "fin"); else g.closing(c);
    }
  } else if (p == "bcast") {
    sched(); g.benign(0.2); g.cfg["tagged"] = "1"; int n = g.pick({2, 2, 3, 4}); if (r.chance(0.04)) n = g.pick({9, 18, 34}); g.C("ring", 256); bool ext = bext || r.chance(0.2); if (ext) g.C("ext", 1); i64 tick = 0, eo = 0; int rounds = g.pick({1, 2, 6, 12});
    if (!g.conf && !bext && n < 9 && r.chance(0.15)) { i64 P = g.pick({0, 0, 2, 4, 5}); g.C("tclient", P ? 2000 : 100000); g.C("pings", P); tick = P ? 2000000 / P : 100000000; eo = g.pick({20, 40, 100, 400, 5000}); if (r.chance(0.5)) { eo = 2000; g.S(fmt("stall=%g stallmax=1000000", g.pickf({0.01, 0.05, 0.1}))); } else g.S("stallmax=20000"); g.S("f.process_pause=0"); }   // what is sent while the cleanup thread looks around
    for (int i = 0; i < n; i++) { std::string s = g.cl("broadcast"); if (tick) for (size_t q; (q = s.find(" rdelay=")) != std::string::npos;) s.erase(q, std::min(s.find(' ', q + 1), s.size()) - q); if (ext && r.chance(0.85)) s += std::string(" ext=") + offers[r.below(10)]; int c = g.client(s); g.op(c, "barrier n=1"); }
    for (int i = 0; i < n; i++) { int k = r.below(6); if (tick) k = 1 + r.below(4); for (int q = 1; tick > 5000000 && q < rounds; q++) { g.op(i, fmt("sleepto at=%lld", (long long)(tick * q - tick / 2))); g.op(i, "ping len=1 seed=3"); for (int m = 1 + r.below(2); m > 0; m--) { g.op(i, fmt("sleepto at=%lld", (long long)(tick * q + (i64)r.below(eo) - eo / 4))); g.op(i, fmt("msg t=0 len=%d seed=%d", (int)r.below(60), (int)r.below(1000))); } g.op(i, fmt("barrier n=%d", 2 + 2 * q)); g.op(i, "waitbc"); g.op(i, fmt("barrier n=%d", 3 + 2 * q)); } if (tick > 5000000) { g.op(i, fmt("sleepto at=%lld", (long long)(tick * rounds - tick / 2))); g.op(i, "ping len=1 seed=3"); } for (int j = 0; j < k; j++) { if (tick && r.chance(0.8)) g.op(i, fmt("sleepto at=%lld", (long long)((tick > 5000000 ? rounds : 1 + r.below(3)) * tick + (i64)r.below(eo) - eo / 4))); std::string x = g.msg(g.pick({60, 400, 3000})); if (size_t q = x.find(" hold=1"); tick && q != std::string::npos) x.erase(q, 7); g.op(i, x); if (r.chance(0.2)) g.op(i, "sleep us=300"); if (r.chance(0.1)) g.op(i, g.ping()); } g.op(i, "flush"); g.op(i, "barrier n=2"); g.op(i, "waitbc"); g.op(i, "barrier n=3"); if (r.chance(0.7)) g.op(i, "close code=1000"); }
    if (r.chance(0.3)) { int c = g.client(g.cl("echo")); g.traffic(c, 3, 300); g.closing(c); }
  } else if (p == "hs") {
    sched(); g.benign(); g.cfg["tagged"] = "1"; int pol = r.below(6); bool hosts = pol >= 2, paths = pol >= 4; bool orig = pol == 3 || pol == 5;
    if (hosts) { g.cfg["hosts"] = "localhost,example.org"; } if (orig) { g.cfg["origins"] = "http://localhost,https://example.org"; g.cfg["neworigin"] = "http://localhost"; }
    if (paths) { g.cfg["paths"] = "chat,room/[0-9]+"; g.cfg["queries"] = "token=[a-z]+"; g.cfg["newpath"] = "/chat"; if (r.chance(g.conf ? 0.8 : 0.2)) { g.cfg["paths"] += ",v1\\.0,caf\xc3\xa9,\xe2\x82\xac,\xf0\x9f\x98\x80,\xf0\xa0\x80\x80x,\xf3\xb0\x80\x80"; g.C("upaths", 1); } }
    if (r.chance(0.3)) g.C("favicon", 1); if (r.chance(0.3)) g.C("ext", 1); if (r.chance(0.3)) { g.C("uri", g.pick({16, 40, 100})); } if (r.chance(0.3)) g.C("header", g.pick({512, 700, 1500}));
    i64 uri = g.cfg.count("uri") ? atol(g.cfg["uri"].c_str()) : 1024, hdr = atol(g.cfg["header"].c_str());
    std::vector<std::string> bads = {"noupgrade", "upgrade", "noconn", "conn", "nokey", "key", "key17", "dupkey", "nover", "ver", "dupver", "method", "http", "path", "scheme", "longuri", "longhdr", "emptyup", "emptykey", "emptyver", "emptysub", "emptyext", "emptyhost", "favicon"};
    if (hosts) { bads.push_back("host"); bads.push_back("nohost"); bads.push_back("badpath"); bads.push_back("host"); } if (orig) bads.push_back("badorigin");
    int n = g.pick({1, 2, 3, 4, 5}); bool ext = g.cfg.count("ext"), icons = g.cfg.count("favicon") && r.chance(0.4); if (icons) { bads = {"favicon", "favicon", "favicon", "noupgrade", "ver", "method"}; n += 2; if (r.chance(0.7)) g.C("workers", 2 + r.below(3)); }
    for (int i = 0; i < n; i++) {
      static const char *subs[] = {"echo", "echo", "broadcast", ""}; int si = r.below(4); std::string s = g.cl(subs[si]); if (si < 3 && r.chance(0.3)) s += si == 2 ? " sub2=echo" : " sub2=broadcast"; if (!strstr(s.c_str(), "hseg")) s += r.chance(0.8) ? fmt(" hseg=%d", (int)(1 + r.below(100000))) + (r.chance(0.5) ? fmt(" hgap=%lld", (long long)g.pick({10, 200, 3000})) : "") : "";
      if (hosts && r.chance(0.7)) { static const char *hh[] = {"localhost", "example.org", "localhost:9080", "example.org:9080", "localhost:9443", "example.org:9443"}; s += std::string(" host=") + hh[r.below(6)]; } if (orig && r.chance(0.9)) s += std::string(" origin=") + (r.chance(0.5) ? "http://localhost" : "https://example.org"); else if (orig) s += " origin=http://localhost";
      if (paths) { static const char *pp[] = {"/chat", "/room/12", "/chat?token=abc", "/room/7?token=z", "/", "/?token=q", "/chat?token=a&token=b", "/room/0", "ws://localhost:9080/chat", "ws://example.org/", "ws://localhost/chat?token=x", "wss://localhost:9443/chat", "wss://example.org/", "wss://example.org:9443/room/3?token=x"}, *up[] = {"/v1.0", "/caf\xc3\xa9", "/\xe2\x82\xac", "/\xf0\x9f\x98\x80", "/\xf0\xa0\x80\x80x", "/\xf3\xb0\x80\x80?token=q"}; bool tc = g.tls && r.chance(0.85); if (g.tls) s += tc ? " tlsyes=1" : " plain=1"; const char *x = g.cfg.count("upaths") && r.chance(0.5) ? up[r.below(6)] : pp[r.below(11) + (r.chance(0.3) && tc ? 3 : 0)]; if (!strncmp(x, tc ? "ws:" : "wss:", tc ? 3 : 4)) x = "/chat"; s += std::string(" path=") + ((i64)strlen(x) > uri ? "/chat" : x); } else if (hosts && !g.tls && uri >= 40 && r.chance(0.1)) s += " path=ws://localhost:9080/"; else if (!hosts && r.chance(0.5)) { static const char *pp[] = {"/x", "/a/b/c", "/x?y=z", "/%20"}; s += std::string(" path=") + pp[r.below(4)]; }
      if (ext && r.chance(0.5)) s += std::string(" ext=") + offers[r.below(10)];
      if (r.chance(icons ? 0.9 : 0.55)) { std::string b = bads[r.below(bads.size())]; if (b == "scheme" && uri < 17) b = "key"; s += " hsbad=" + b; if (b == "longuri") s += fmt(" urilen=%lld", (long long)(uri + g.pick({0, 1, 5, 2000}))); if (b == "longhdr") s += fmt(" hdrlen=%lld", (long long)(hdr + g.pick({0, 1, 5, 3000}))); }
      int c = g.client(s); if (r.chance(0.6)) { g.traffic(c, 1 + r.below(3), 200); g.closing(c); }
    }
  } else if (p == "viol") {
    sched(); g.benign(); int n = g.pick({1, 2, 3, 4}); g.C("frame", g.pick({1 << 16, 5000})); if (r.chance(0.5)) g.C("fragmented", g.pick({6, 16})); bool ext = r.chance(0.3); if (ext) g.C("ext", 1); i64 maxl = g.pick({100, 1000, 4000});
    bool fragok = !g.cfg.count("fragmented") || atol(g.cfg["fragmented"].c_str()) > 8;
    static const char *kinds[] = {"rsv", "rsv23", "opcode", "unmasked", "ctlfrag", "ctlbig", "cont", "interleave", "close1", "closecode", "closeutf8", "utf8", "utf8", "bigframe", "hugeframe", "manyframes"};
    for (int i = 0; i < n; i++) {
      std::string s = g.cl(r.chance(0.8) ? "echo" : ""); if (ext && r.chance(0.6)) s += std::string(" ext=") + offers[r.below(10)]; bool pm = s.find(" ext=") != std::string::npos;
      int c = g.client(s); int k = r.below(4); for (int j = 0; j < k; j++) g.op(c, r.chance(0.2) ? g.ping() : g.msg(maxl, fragok)); if (r.chance(0.5)) g.op(c, "waitall");
      if (i == 0 || r.chance(0.4)) { std::string kd = kinds[r.below(16)]; if (pm && kd == "rsv") kd = "rsv23"; if (kd == "interleave" && g.cfg.count("fragmented") && g.cfg["fragmented"] == "1") kd = "utf8"; g.op(c, fmt("bad kind=%s seed=%d", kd.c_str(), (int)(1 + r.below(1000000))) + (kd == "cont" && r.chance(0.5) && !pm ? " prior=1" : "") + g.seg()); }
      else { g.traffic(c, 1 + r.below(5), maxl); g.closing(c); if (!fragok) { } }
    }
  } else if (p == "ping") {
    sched(); g.benign(); int n = g.pick({1, 1, 2, 3}); bool ext = r.chance(0.2); if (ext) g.C("ext", 1);
    for (int i = 0; i < n; i++) { std::string s = g.cl(r.chance(0.6) ? "echo" : ""); if (ext) s += std::string(" ext=") + offers[r.below(10)]; int c = g.client(s); int k = 2 + r.below(12);
      for (int j = 0; j < k; j++) { std::string x = r.chance(0.6) ? g.ping() : r.chance(0.3) ? g.pong() : g.msg(g.pick({50, 500, 4000})); if (x.find("hold") == std::string::npos && r.chance(0.35)) x += " hold=1"; if (x.compare(0, 3, "msg") == 0 && x.find("frags") == std::string::npos && r.chance(0.5)) x += fmt(" frags=%d ctl=1", (int)(2 + r.below(4))); g.op(c, x); if (r.chance(0.1)) g.op(c, "waitall"); }
      g.op(c, "flush"); g.closing(c); }
  } else if (p == "churn") {
    // many short connections over the same few descriptors, so that what is left over from one meets the next
    g.strategy(0.6); g.benign(0.15); g.cfg["tagged"] = "1"; g.C("workers", g.pick({2, 2, 3, 4})); g.C("ring", 64); g.C("frame", 1 << 16); g.C("buffer", g.pick({64, 1024, 32768})); bool pr = r.chance(0.4), bc = !pr && r.chance(0.8); if (bc) { g.cfg["lossy"] = "1"; g.C("ring", 256); } int n = g.pick({8, 14, 20, 30}), span = g.pick({20, 60, 200, 1000}); bool ext = r.chance(0.15); if (ext) g.C("ext", 1);
    if (pr) { g.cfg["subs"] = "echo,probe"; g.C("lossy", 1); g.cfg["newsub"] = "probe"; } if (r.chance(0.7)) g.S(fmt("stall=%g stallmax=%lld", g.pickf({0.01, 0.03, 0.1}), (long long)g.pick({20000, 200000, 1000000})));
    if (r.chance(0.1)) g.dir(fmt("sigint at=%lld", (long long)r.below(g.pick({300, 3000, 20000}))));
    for (int i = 0; i < n; i++) {
      std::string s = fmt("sub=%s at=%lld hseed=%d", pr && r.chance(0.85) ? "probe" : bc && r.chance(0.8) ? "broadcast" : "echo", (long long)(i * span * r.unit() * 1.5), (int)r.below(100000)); if (ext && r.chance(0.5)) s += std::string(" ext=") + offers[r.below(10)]; s += " gone=1"; if (r.chance(0.5)) s += " polite=0";
      double u = r.unit(); bool part = false; if (u < 0.15) { s += fmt(" hcut=%d", (int)r.below(300)); part = true; } else if (u < 0.25) { s += " nohs=1"; part = true; } else if (u < 0.4) { s += " nowait=1"; size_t q = s.find("sub=broadcast"); if (q != std::string::npos) s.replace(q, 13, "sub=echo"); } else if (u < 0.47) { static const char *bb[] = {"noupgrade", "key", "ver", "method", "dupkey", "nokey", "http"}; g.client(s + " hsbad=" + bb[r.below(7)]); continue; }
      int c = g.client(s); if (!part) for (int j = r.below(3); j > 0; j--) g.op(c, r.chance(0.2) ? g.ping() : fmt("msg t=%d len=%lld seed=%d", (int)r.below(2), (long long)r.below(g.pick({10, 100, 1000})), (int)r.below(1000000)));
      if (!part && r.chance(0.2)) g.op(c, "waitall"); if (r.chance(0.3)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({1, 5, 50, 300})));
      static const char *e[] = {"abort", "fin", "drop", "abort", "bad kind=opcode", "close code=1000", "bad kind=utf8"}; g.op(c, e[r.below(part ? 3 : 7)]);
    }
  } else if (p == "gone") {
    sched(); g.benign(0.2); bool bc = r.chance(0.6); g.cfg["tagged"] = "1"; g.cfg["lossy"] = "1"; g.C("ring", 256); int n = g.pick({2, 3, 4, 5}); bool ext = r.chance(0.25); if (ext) g.C("ext", 1);
    if (r.chance(0.5)) g.C("lossy", 1);
    for (int i = 0; i < n; i++) {
      bool victim = i == 0 || r.chance(0.5); std::string sub = bc && r.chance(0.8) ? "broadcast" : "echo"; std::string s = g.cl(sub.c_str()); if (ext && r.chance(0.7)) s += std::string(" ext=") + offers[r.below(10)];
      if (!victim) { int c = g.client(s); int k = 1 + r.below(6); for (int j = 0; j < k; j++) { g.op(c, g.msg(g.pick({100, 2000, 8000}))); if (r.chance(0.4)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({20, 200, 2000}))); } g.op(c, "flush"); g.closing(c, sub == "echo"); continue; }
      s += " gone=1 polite=0"; double u = r.unit(); if (u < 0.12) s += fmt(" hcut=%d", (int)r.below(400)); else if (u < 0.2) s += " nohs=1"; else if (u < 0.35) { s += " nowait=1"; size_t q = s.find("sub=broadcast"); if (q != std::string::npos) s.replace(q, 13, "sub=echo"); }   // what such a client says may be cut, so nobody else is to hear it
      int c = g.client(s); bool nh = u < 0.2; int k = nh ? 0 : r.below(5); if (r.chance(0.3)) g.op(c, "stall");
      for (int j = 0; j < k; j++) { g.op(c, r.chance(0.15) ? g.ping() : g.msg(g.pick({100, 2000, 8000}))); if (r.chance(0.2)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({20, 200, 2000}))); }
      if (r.chance(0.2)) g.op(c, "flush"); bool part = nh || r.chance(0.25); if (!nh && part) g.op(c, fmt("partial fin=%d len=%lld cut=%d", (int)r.below(2), (long long)g.pick({20, 300, 3000}), (int)r.below(400))); if (r.chance(0.15)) g.op(c, "waitall"); if (r.chance(0.3)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({5, 50, 500, 5000})));
      static const char *e[] = {"abort", "drop", "fin", "abort", "bad kind=opcode", "close code=1000", "bad kind=utf8"}; g.op(c, e[r.below(part ? 4 : 7)]);
    }
  } else if (p == "huge") {
    // messages whose lengths need more than three bytes, or that come back as many frames
    sched(0); g.nospur = true; bool ext = r.chance(0.25); i64 fr = ext ? 1 << 25 : g.pick({1 << 25, 1 << 24, (1 << 24) + 1, (1 << 24) - 1, 1 << 20, 1 << 20, 1000000, 3000000}); g.C("frame", fr); g.C("fragmented", 64); g.C("buffer", 1 << 20); g.C("thread", 1 << 22); g.C("ring", 64); g.cfg["patience"] = "20"; if (ext) g.C("ext", 1);
    if (r.chance(0.3)) g.S(fmt("f.write_short=%g", g.pickf({0.02, 0.1}))); if (r.chance(0.3)) g.S(fmt("f.read_short=%g", g.pickf({0.02, 0.1}))); if (r.chance(0.3)) g.S("f.read_eintr=0.1"); if (r.chance(0.3)) g.S("f.write_eagain=0.1");
    int c = g.client(fmt("sub=echo hseed=%d sndbuf=%lld", (int)r.below(100000), (long long)g.pick({1 << 18, 1 << 20, 1 << 22})) + (ext ? std::string(" ext=") + offers[r.below(10)] : ""));
    if (r.chance(0.3)) g.op(c, g.msg(300, false));
    i64 n = (1 << 24) + g.pick({-1, 0, 1, 1, 2, (i64)r.below(1 << 20)}); if (fr < 1 << 24) { n = fr * ((n + fr - 1) / fr) + g.pick({-1, 0, 1, 1, 1, 2}); }
    if (n <= fr) g.op(c, fmt("msg t=%d len=%lld seed=%d style=%d", (int)r.below(2), (long long)n, (int)r.below(1000000), (int)r.below(3)));
    else if (n <= fr * 2 && r.chance(0.4)) g.op(c, fmt("msg t=%d len=%lld seed=%d", (int)r.below(2), (long long)fr, (int)r.below(1000000)));
    else g.op(c, fmt("msg t=%d len=%lld seed=%d style=%d fragsz=%lld", (int)r.below(2), (long long)n, (int)r.below(1000000), (int)r.below(3), (long long)fr));
    if (r.chance(0.3)) { g.op(c, "waitall"); g.op(c, g.msg(300, false)); } g.op(c, "flush"); g.closing(c);
    if (r.chance(0.3)) { int d = g.client(g.cl("echo")); g.traffic(d, 3, 300); g.closing(d); }
  } else if (p == "stream") {
    // many writers to one connection: broadcasts, echoes, pongs, pings of the cleanup thread and closes at once, small socket buffers
    g.strategy(1.5); g.benign(0.35); g.cfg["tagged"] = "1"; g.C("workers", g.pick({2, 3, 4, 4})); g.C("ring", 256); g.C("frame", g.pick({16, 60, 300, 1 << 16, 1 << 17})); i64 frame = atol(g.cfg["frame"].c_str()); int n = g.pick({2, 3, 4}); bool ext = r.chance(0.3); if (ext) g.C("ext", 1); g.C("lossy", 1);
    i64 ml = frame < 1000 ? frame - 6 : g.pick({60, 400, 3000, 60000});
    if (r.chance(0.4) && frame >= 300) { g.C("tclient", g.pick({3000, 20000})); g.C("pings", g.pick({1, 2, 5})); }
    for (int i = 0; i < n; i++) { std::string s = g.cl("broadcast") + (r.chance(0.7) ? fmt(" sndbuf=%lld", (long long)g.pick({50, 200, 600, 2000})) : ""); if (ext && r.chance(0.7)) s += std::string(" ext=") + offers[r.below(10)]; if (g.cfg.count("tclient")) for (size_t q; (q = s.find(" rdelay=")) != std::string::npos;) s.erase(q, std::min(s.find(' ', q + 1), s.size()) - q);  // a reader slower than the timeout is given up in mid-frame
      int c = g.client(s); g.op(c, "barrier n=1"); int k = 1 + r.below(6);
      for (int j = 0; j < k; j++) { std::string x = r.chance(0.35) ? g.ping() : fmt("msg t=%d len=%lld seed=%d", (int)r.below(2), (long long)g.len(std::max<i64>(ml, 8)), (int)r.below(1000000)); if (frame < 1000 && x[0] == 'p') x = fmt("ping len=%d seed=%d", (int)r.below(10), (int)(1 + r.below(1000))); if (x[0] == 'm' && (frame > 65536 || !ext) && r.chance(0.2)) x = frame > 65000 ? fmt("msg t=%d len=%lld seed=%d", (int)r.below(2), (long long)g.pick({125, 126, 127, 65535, 65536}), (int)r.below(1000000)) : fmt("msg t=%d len=%lld seed=%d fragsz=%lld", (int)r.below(2), (long long)(frame * (1 + r.below(3)) + r.below(3)), (int)r.below(1000000), (long long)frame);
        g.op(c, x); if (r.chance(0.15)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({20, 200, 900000}))); }
      double u = r.unit(); if (u < 0.5) g.op(c, "close code=1000"); else if (u < 0.7) g.op(c, fmt("bad kind=%s seed=%d", (const char *[]){"ctlfrag", "utf8", "unmasked", "opcode"}[r.below(frame < 300 ? 1 : 4)], (int)(1 + r.below(10000)))); else { g.op(c, "barrier n=2"); g.op(c, "waitall"); g.op(c, "close code=1001 rlen=9"); } }
  } else if (p == "memory") {
    g.strategy(1.6); g.benign(0.3); g.cfg["tagged"] = "1"; g.C("lossy", 1); g.C("ring", 256); int n = g.pick({2, 3, 4, 6}); bool ext = r.chance(0.4); if (ext) g.C("ext", 1); if (r.chance(0.3)) { g.C("tclient", g.pick({1000, 3000})); g.C("pings", g.pick({0, 1, 3})); } if (r.chance(0.2)) { g.cfg["hosts"] = "localhost"; if (r.chance(0.5)) { g.cfg["paths"] = "chat"; g.cfg["newpath"] = "/chat"; } }
    if (r.chance(0.5)) { g.C("header", g.pick({300, 600, 4096})); }
    if (r.chance(0.3)) g.C("frame", g.pick({200, 3000})); g.C("lenienthdr", 1);
    bool idle = g.cfg.count("tclient");
    for (int i = 0; i < n; i++) {
      static const char *sb[] = {"echo", "broadcast", "broadcast", ""}; std::string s = g.cl(sb[r.below(4)]) + " gone=1 polite=0 loose=1"; if (ext && r.chance(0.8)) s += std::string(" ext=") + offers[r.below(10)];
      if (g.cfg.count("paths")) s += " path=/chat";
      double u = r.unit();
      if (u < 0.12) { s += " nohs=1"; int c = g.client(s); int k = 1 + r.below(4); for (int j = 0; j < k; j++) g.op(c, fmt("raw len=%lld seed=%d style=%d", (long long)g.pick({1, 20, 300, 5000}), (int)r.below(1000000), (int)r.below(3)) + g.seg()); g.op(c, "abort"); continue; }
      if (u < 0.2) { s += fmt(" hcut=%d", (int)r.below(400)); int c = g.client(s); g.op(c, fmt("raw len=%lld seed=%d style=%d", (long long)g.pick({1, 20, 300, 5000}), (int)r.below(1000000), (int)r.below(3)) + g.seg()); g.op(c, r.chance(0.5) ? "fin" : "abort"); continue; }
      if (u < 0.35) s += " nowait=1";
      int c = g.client(s); int k = r.below(6); if (r.chance(0.2)) g.op(c, "stall");
      for (int j = 0; j < k; j++) { g.op(c, r.chance(0.2) ? g.ping() : g.msg(g.pick({100, 2000, 20000}))); if (r.chance(0.2)) g.op(c, fmt("sleep us=%lld", (long long)g.pick({20, 200, 2000}))); }
      if (r.chance(0.3)) g.op(c, "flush"); if (idle && r.chance(0.4)) g.op(c, fmt("idle us=%lld", (long long)g.pick({500000, 3000000})));
      if (r.chance(0.4)) g.op(c, fmt("raw len=%lld seed=%d", (long long)g.pick({1, 2, 5, 14, 100, 3000}), (int)r.below(1000000)) + g.seg());
      static const char *e[] = {"abort", "drop", "fin", "close code=1000", "bad kind=manyframes", "bad kind=hugeframe", "bad kind=closecode"}; g.op(c, e[r.below(7)]);
    }
  } else if (p == "progress") {
    sched(0.7); g.benign(0.2); g.C("workers", g.pick({1, 1, 1, 2, 2, 4, 8})); g.C("ring", g.pick({32, 64})); int nb = g.pick({1, 2, 3, 4}), ng = g.pick({1, 2, 2, 5}); g.cfg["tagged"] = "1"; g.C("lossy", 1);
    for (int i = 0; i < nb; i++) {
      int kind = r.below(6); std::string s = g.cl(r.chance(0.5) ? "broadcast" : "echo") + " gone=1 polite=0"; if (kind < 3) s += fmt(" sndbuf=%lld", (long long)g.pick({50, 200, 2000})); if (kind == 3) s += fmt(" hcut=%d", (int)r.below(300)); if (kind == 4) s += " nohs=1"; if (kind == 5) { s += " nowait=1"; size_t q = s.find("sub=broadcast"); if (q != std::string::npos) s.replace(q, 13, "sub=echo"); }
      int c = g.client(s); if (kind < 3) { g.op(c, "stall"); int k = 5 + r.below(40); i64 l = g.pick({1, 50, 1000, 9000}); for (int j = 0; j < k; j++) g.op(c, fmt("msg t=1 len=%lld seed=%d", (long long)l, j)); if (kind == 1) g.op(c, fmt("partial fin=1 len=40 cut=%d", (int)r.below(50))); }
      if (kind == 5) for (int j = 0; j < 30; j++) g.op(c, fmt("ping len=125 seed=%d hold=1", j + 1));
      g.op(c, fmt("sleep us=%lld", (long long)g.pick({100, 10000, 40000000}))); if (r.chance(0.5)) g.op(c, "unstall"); g.op(c, r.chance(0.5) ? "abort" : "drop");
    }
    if (r.chance(0.1)) { int k = g.pick({10, 20, 40}); i64 at = r.chance(0.5) ? 0 : r.below(20000); for (int i = 0; i < k; i++) { int c = g.client(fmt("sub=echo at=%lld hseed=%d", (long long)at, (int)r.below(100000))); g.op(c, fmt("msg t=1 len=%d seed=%d", (int)r.below(100), i + 1)); g.op(c, "waitall"); g.op(c, r.chance(0.7) ? "close code=1000" : "drop"); } }   // a crowd at the door
    for (int i = 0; i < ng; i++) { int c = g.client(g.cl("echo")); g.traffic(c, 1 + r.below(6), g.pick({50, 2000})); g.op(c, "waitall"); if (r.chance(0.5)) { g.op(c, "sleep us=20000"); g.traffic(c, 2, 100); } g.closing(c); }
  } else if (p == "stop") {
    sched(); if (r.chance(0.35)) { g.C("sigseed", 1 + r.below(1000000)); g.C("sigspan", g.pick({1, 20, 300, 5000})); if (r.chance(0.6)) g.C("sigint", g.pick({1, 1, 2, 5})); if (r.chance(0.4)) g.C("sighup", g.pick({1, 3, 10})); } if (!g.tls && !g.conf && r.chance(0.2)) { g.tls = true; g.C("ssl", 1); } g.benign(0.2); bool early = r.chance(0.25); i64 at = early ? g.pick({0, 0, 5, 20, 100, 1000}) + r.below(60) : r.below(g.pick({300, 3000, 20000})); g.dir(fmt("sigint at=%lld", (long long)at) + (early ? " early=1" : "")); g.C("lossy", 1); g.cfg["tagged"] = "1"; if (r.chance(0.3)) g.C("log", 7); bool ext = r.chance(0.3); if (ext) g.C("ext", 1); if (r.chance(0.3)) g.cfg["hosts"] = "localhost"; if (r.chance(0.3)) { g.C("tclient", g.pick({1000, 100000})); g.C("pings", g.pick({0, 1, 3})); }
    bool xc = g.tls && r.chance(0.5); int n = early ? 0 : g.pick({0, 1, 2, 3, 4}); if (xc && !early) n = 2 + r.below(4);
    for (int i = 0; i < n; i++) { static const char *sb[] = {"echo", "broadcast", "broadcast", ""}; std::string s = g.cl(sb[xc ? 1 : r.below(4)]) + " gone=1"; if (ext && r.chance(0.8)) s += std::string(" ext=") + offers[r.below(10)]; if (r.chance(0.2)) s += fmt(" hcut=%d", (int)r.below(400)); int c = g.client(s); if (r.chance(0.2)) g.op(c, "stall"); if (xc) for (int m = r.below(20); m > 0; m--) { g.op(c, fmt("msg t=0 len=%d seed=%d", (int)r.below(200), m)); if (r.chance(0.5)) g.op(c, fmt("sleep us=%d", (int)r.below(500))); } g.traffic(c, 1 + r.below(6), g.pick({100, 2000, 20000})); if (r.chance(0.3)) g.op(c, r.chance(0.5) ? "abort" : "fin"); else g.op(c, "sleep us=20000"); }
  } else if (p == "limits") {
    sched(0.6); g.benign(0.25); i64 frame = g.pick({2, 5, 50, 124, 125, 126, 127, 200, 1000, 4096, 65535, 65536, 70000}), mf = g.pick({1, 2, 3, 7, 30}); if (g.conf && r.chance(0.3)) { frame = 1048576; mf = g.pick({1, 2}); } g.C("frame", frame); g.C("fragmented", mf); i64 uri = g.pick({1, 2, 20, 100, 1000, 5000}); if (g.conf && r.chance(0.5)) uri = 8192; g.C("uri", uri); i64 hdr = g.pick({400, 500, 1000, 4096, 9000}); if (g.conf && r.chance(0.5)) hdr = 8192; g.C("header", hdr); g.C("buffer", frame > 70000 ? 32768 : g.pick({64, 100, 1024, 32768}));
    bool tiny = r.chance(0.2); if (tiny) g.C("payload", g.pick({200, 1000})); int n = g.pick({1, 2, 3});
    for (int i = 0; i < n; i++) {
      std::string s = g.cl("echo"); size_t rq = s.find(" rdelay="); if (frame * mf > 3000 && rq != std::string::npos) { size_t e = s.find(' ', rq + 1); s.erase(rq, e == std::string::npos ? e : e - rq); } static const char *hb[] = {"exacturi", "overuri", "exacthdr", "overhdr", "endless", "nearendless"}; if (r.chance(tiny ? 0.7 : 0.5)) { std::string b = hb[tiny ? 4 + r.below(2) : r.below(4)]; s += " hsbad=" + b; }
      if (r.chance(0.5) && s.find("hseg") == std::string::npos) s += fmt(" hseg=%d", (int)(1 + r.below(100000)));
      int c = g.client(s); int k = 1 + r.below(4);
      for (int j = 0; j < k; j++) {
        double u = r.unit(); std::string x; if (u < 0.25) x = fmt("msg t=%d len=%lld seed=%d", (int)r.below(2), (long long)frame, (int)r.below(100000)); else if (u < 0.45 && frame <= 4096) x = fmt("msg t=%d len=%lld seed=%d fragsz=%lld", (int)r.below(2), (long long)(frame * mf - r.below(std::min<i64>(frame, 3))), (int)r.below(100000), (long long)frame);
        else if (u < 0.7) x = fmt("msg t=%d len=%lld seed=%d frags=max%s", (int)r.below(2), (long long)r.below(frame + 1), (int)r.below(100000), r.chance(0.4) && frame >= 20 ? " ctl=1" : ""); else x = fmt("msg t=%d len=%lld seed=%d", (int)r.below(2), (long long)std::max<i64>(0, frame - 1 - (i64)r.below(3)), (int)r.below(100000));
        g.op(c, x + g.seg()); if (r.chance(0.2)) g.op(c, "waitall"); }
      if (r.chance(0.6)) { g.op(c, fmt("bad kind=%s seed=%d", r.chance(0.5) ? "overframe" : "overframes", (int)(1 + r.below(100000))) + g.seg()); } else { g.op(c, "waitall"); g.op(c, frame >= 42 ? "close code=1000 rlen=40" : "close code=1000"); }
    }
  } else if (p == "idle") {
    g.strategy(0.6); g.benign(0.2); g.S("stallmax=20000 f.process_pause=0 f.poll_eintr=0 f.write_eagain=0 f.write_short=0"); if (g.tls) g.S("f.write_eintr=0");   // OpenSSL leaves an interrupted write to a later call
    if (r.chance(0.25)) g.S(fmt("f.clock_jump=%g", g.pickf({0.01, 0.1})));
    i64 T = g.pick({400, 1000, 3000, 10000}), P = g.pick({0, 1, 2, 2, 3, 5}); if (g.conf && r.chance(0.5)) { T = 60000; if (r.chance(0.5)) P = 1; } if (T == 400 && P > 2) P = 2; g.C("tclient", T); g.C("pings", P); int n = g.pick({1, 2, 3, 4, 6}); bool bc = r.chance(0.2); g.cfg["tagged"] = "1"; g.C("lossy", 1); (void)bc; bool edge = r.chance(0.35); i64 eo = g.pick({40, 80, 400, 5000});
    for (int i = 0; i < n; i++) {
      i64 at = r.chance(0.5) ? 0 : r.below(T * 1500); if (edge && r.chance(0.8)) at = std::max<i64>(0, (i64)(1 + r.below(3)) * (T * 1000 / std::max<i64>(P, 1)) + (i64)r.below(eo) - eo * 3 / 4);   // accepted while the cleanup thread looks around
      std::string s = fmt("sub=echo at=%lld hseed=%d", (long long)at, (int)r.below(100000)); int kind = r.below(9);
      if (kind == 5 && P < 2) kind = 6;
      if (kind <= 1) { int c = g.client(s); if (r.chance(0.6)) { g.traffic(c, 1 + r.below(4), 300); g.op(c, "waitall"); } if (r.chance(0.3)) g.op(c, fmt("sleep us=%lld", (long long)r.below(T * 600))); if (r.chance(0.3)) g.op(c, fmt("partial fin=%d len=40 cut=%d", (int)r.below(2), (int)r.below(40))); g.op(c, "silent"); }
      else if (kind == 2) { int c = g.client(s + " sndbuf=200"); g.op(c, "stall"); int k = r.below(8); for (int j = 0; j < k; j++) g.op(c, fmt("msg t=1 len=%d seed=%d", 100, j)); g.op(c, "sleep us=20000"); g.op(c, "silent deaf=1"); }
      else if (kind == 3) { int c = g.client(s + (r.chance(0.5) ? " nohs=1" : fmt(" hcut=%d", (int)(1 + r.below(140))))); g.op(c, "silent"); }
      else if (kind == 4 && P > 1 && r.chance(0.5)) { int c = g.client(s + fmt(" sndbuf=%lld", (long long)g.pick({50, 100, 300}))); g.op(c, "stall"); int k = 1 + r.below(6); for (int j = 0; j < k; j++) g.op(c, fmt("msg t=1 len=%d seed=%d", 50, j)); g.op(c, fmt("close code=1000 stay=%lld", (long long)(r.below(T * 900)))); }   // slow to take the answer
      else if (kind == 4) { int c = g.client(s + fmt(" hseg=%d hgap=%lld", (int)(1 + r.below(100000)), (long long)(T * 800))); g.traffic(c, 1, 100); g.op(c, "waitall"); g.op(c, "close code=1000"); }
      else if (kind == 5) { int c = g.client(s); for (int j = 0; j < 2; j++) { g.op(c, fmt("sleep us=%lld", (long long)(T * 1000 + r.below(T * 5000)))); g.op(c, g.msg(100)); g.op(c, "waitall"); } g.op(c, r.chance(0.3) ? "silent" : "close code=1000"); }
      else { s += " autopong=0"; int c = g.client(s); int k = 2 + r.below(6); for (int j = 0; j < k; j++) { g.op(c, fmt("sleep us=%lld", (long long)(T * 300 + r.below(T * 550)))); double u = r.unit(); g.op(c, u < 0.3 ? fmt("ping len=%d seed=%d", (int)r.below(20), (int)(1 + r.below(1000))) : u < 0.5 ? g.pong() : u < 0.7 ? fmt("msg t=1 len=30 seed=%d seg=%d gap=%lld", (int)r.below(1000), (int)(1 + r.below(1000)), (long long)(T * 800)) : fmt("msg t=0 len=%d seed=%d", (int)r.below(200), (int)r.below(1000))); } g.op(c, "waitall"); g.op(c, r.chance(0.3) ? "silent" : "close code=1000"); }
    }
  } else if (p == "rwtimeout") {
    g.strategy(0.6); g.benign(0.2); g.S("stallmax=20000 f.process_pause=0"); if (r.chance(0.25)) g.S(fmt("f.clock_jump=%g", g.pickf({0.01, 0.1})));
    i64 R_ = g.pick({-1, 200, 1000, 3000}), Wt = g.pick({-1, 200, 1000, 3000}); if (g.conf && r.chance(0.4)) { R_ = 1000; if (r.chance(0.5)) Wt = 1000; } if (R_ < 0 && Wt < 0) R_ = 200; g.C("tread", R_); g.C("twrite", Wt); if (r.chance(0.3)) { g.C("tclient", 60000); g.C("pings", g.pick({0, 2})); } int n = g.pick({1, 2, 3, 4}); i64 mx = std::max(R_, Wt);
    for (int i = 0; i < n; i++) {
      std::string s = fmt("sub=echo at=%lld hseed=%d", (long long)(r.chance(0.5) ? 0 : r.below(3000)), (int)r.below(100000)); int kind = r.below(8);
      if (kind <= 1 && R_ > 0) { if (r.chance(0.3)) { int c = g.client(s + fmt(" hcut=%d", (int)(1 + r.below(140)))); g.op(c, fmt("overdue kind=request us=%lld", (long long)(R_ * 1100 + r.below(R_ * 3000)))); continue; }
        int c = g.client(s); g.traffic(c, r.below(3), 300); g.op(c, "waitall"); g.op(c, fmt("overdue kind=read us=%lld len=%d cut=%d seed=%d", (long long)(R_ * 1100 + r.below(R_ * 3000)), (int)g.pick({0, 5, 130, 3000}), (int)r.below(4000), (int)r.below(1000)) + (r.chance(0.4) ? fmt(" frag=%d fping=%d", (int)(1 + r.below(3)), (int)r.below(2)) : "")); }
      else if (kind <= 3 && Wt > 0) { i64 sb = g.pick({100, 400, 2000}); int c = g.client(s + fmt(" sndbuf=%lld", (long long)sb)); g.traffic(c, r.below(3), 60); g.op(c, "waitall"); g.op(c, fmt("overdue kind=write us=%lld n=8 len=%lld seed=%d", (long long)(Wt * 1100 + r.below(Wt * 3000)), (long long)(sb / 3), (int)r.below(1000))); }
      else if (kind == 4) { i64 g_ = R_ > 0 ? R_ * 900 : 5000000; int c = g.client(s + fmt(" hseg=%d hgap=%lld", (int)(1 + r.below(100000)), (long long)g_)); int k = 1 + r.below(3); for (int j = 0; j < k; j++) g.op(c, fmt("msg t=1 len=%d seed=%d seg=%d gap=%lld", (int)g.pick({0, 5, 40, 200}), (int)r.below(1000), (int)(1 + r.below(1000)), (long long)g_)); g.op(c, "waitall"); g.op(c, "close code=1000"); }
      else if (kind == 5) { int c = g.client(s); int k = 2 + r.below(3); for (int j = 0; j < k; j++) { g.op(c, fmt("sleep us=%lld", (long long)(mx * 1000 + r.below(mx * 4000)))); g.op(c, fmt("msg t=0 len=%d seed=%d", (int)r.below(200), (int)r.below(1000))); g.op(c, "waitall"); } g.op(c, "close code=1000"); }
      else if (kind == 6) { i64 d = Wt > 0 ? Wt * 900 : 10000000; int c = g.client(s + " sndbuf=300"); g.op(c, "stall"); for (int j = 0; j < 6; j++) g.op(c, fmt("msg t=1 len=100 seed=%d", j)); g.op(c, fmt("sleep us=%lld", (long long)r.below(d))); g.op(c, "unstall"); g.op(c, "waitall"); g.op(c, "close code=1000"); }
      else { i64 d = Wt > 0 ? Wt * 1000 / 60 : 100000; int c = g.client(s + fmt(" sndbuf=50 rchunk=1 rdelay=%lld", (long long)d)); for (int j = 0; j < 4; j++) g.op(c, fmt("msg t=1 len=%d seed=%d", (int)(20 + r.below(60)), j)); g.op(c, "waitall"); g.op(c, "close code=1000"); }
    }
  } else if (p == "syscalls") {
    sched(0.6); g.benign(0.6); g.cfg["tagged"] = "1"; g.C("lossy", 1); g.C("ring", 256); int n = g.pick({2, 3, 4, 5}); bool ext = r.chance(0.2); if (ext) g.C("ext", 1); bool tls = false; (void)tls;
    if (r.chance(0.6)) g.S(fmt("f.accept_aborted=%g b.accept_aborted=%lld", g.pickf({0.1, 0.5}), (long long)g.pick({1, 3, 10}))); if (r.chance(0.5)) g.S(fmt("f.accept_emfile=%g b.accept_emfile=%lld", g.pickf({0.1, 0.5}), (long long)g.pick({1, 3}))); 
    if (r.chance(0.4)) g.S(fmt("f.read_failure=%g b.read_failure=%lld", g.pickf({0.01, 0.1, 0.5}), (long long)g.pick({1, 2}))); if (r.chance(0.4)) g.S(fmt("f.write_failure=%g b.write_failure=%lld", g.pickf({0.01, 0.1, 0.5}), (long long)g.pick({1, 2}))); if (r.chance(0.3)) g.S(fmt("f.epoll_ctl_failure=%g b.epoll_ctl_failure=%lld", g.pickf({0.1, 0.5}), (long long)g.pick({1, 2})));
    if (r.chance(0.3)) { g.C("tclient", g.pick({5000, 20000})); g.C("pings", g.pick({2, 3})); } bool bc = r.chance(0.3);
    for (int i = 0; i < n; i++) { std::string s = g.cl(bc && r.chance(0.7) ? "broadcast" : "echo"); { size_t q = s.find(" rdelay="); if (g.cfg.count("tclient") && q != std::string::npos) s.erase(q, s.find(' ', q + 1) == std::string::npos ? std::string::npos : s.find(' ', q + 1) - q); } if (ext && r.chance(0.7)) s += std::string(" ext=") + offers[r.below(10)]; int c = g.client(s); g.traffic(c, 1 + r.below(8), g.pick({100, 2000, 20000})); if (r.chance(0.2)) g.op(c, fmt("bad kind=%s seed=%d", (const char *[]){"ctlfrag", "utf8", "unmasked", "opcode"}[r.below(4)], (int)(1 + r.below(10000)))); else g.closing(c, s.find("sub=echo") != std::string::npos); }
  } else if (p == "alloc") {
    sched(0.6); if (!g.tls && !g.conf && r.chance(0.15)) { g.tls = true; g.C("ssl", 1); } g.benign(0.1); g.cfg["tagged"] = "1"; g.C("lossy", 1); g.C("lenient", 1); g.C("leakheap", 1); g.C("ring", 256); int n = g.pick({1, 2, 3, 4}); bool ext = r.chance(0.4); if (ext) g.C("ext", 1); g.S(fmt("f.alloc_failure=%g b.alloc_failure=%lld", g.pickf({0.002, 0.005, 0.01, 0.02, 0.05, 0.2}), (long long)g.pick({1, 1, 1, 2, 5, 1000}))); if (g.sched.find("b.alloc_failure=1000") == std::string::npos) g.C("hard", 1);
    if (r.chance(0.3)) { g.C("tclient", g.pick({1000, 3000})); g.C("pings", g.pick({1, 2, 3})); } if (r.chance(0.3)) { g.cfg["hosts"] = "localhost"; if (r.chance(0.5)) { g.cfg["paths"] = "chat"; g.cfg["newpath"] = "/chat"; } } if (r.chance(0.3)) g.C("favicon", 1); if (r.chance(0.5)) g.C("frame", g.pick({200, 3000})); g.cfg["patience"] = "5";
    i64 fr = atol(g.cfg["frame"].c_str()); if (ext) fr = fr * 9 / 10 - 20;
    for (int i = 0; i < n; i++) {
      static const char *sb[] = {"echo", "echo", "broadcast", ""}; std::string s = g.cl(sb[r.below(4)]) + " polite=0"; if (ext && r.chance(0.8)) s += std::string(" ext=") + offers[r.below(10)]; if (g.cfg.count("paths")) s += " path=/chat";
      if (r.chance(0.15)) { static const char *bb[] = {"noupgrade", "key", "ver", "method", "dupkey", "nokey", "http", "favicon", "emptysub", "emptyext"}; s += std::string(" hsbad=") + bb[r.below(10)]; } if (r.chance(0.1)) { s += " nowait=1"; size_t q = s.find("sub=broadcast"); if (q != std::string::npos) s.replace(q, 13, "sub=echo"); }
      int c = g.client(s); int k = 1 + r.below(5); for (int j = 0; j < k; j++) g.op(c, r.chance(0.2) ? g.ping() : g.msg(std::min<i64>(fr, g.pick({100, 2000, 20000})))); g.op(c, "flush"); if (r.chance(0.4)) g.op(c, "waitall"); if (g.cfg.count("tclient") && r.chance(0.5)) g.op(c, "idle us=1500000");
      static const char *e[] = {"abort", "drop", "fin", "close code=1000", "close code=1000", "bad kind=hugeframe", "bad kind=utf8"}; g.op(c, e[r.below(7)]);
    }
  } else if (p == "tlspol") {
    static const char *suites = "TLS_AES_256_GCM_SHA384:TLS_CHACHA20_POLY1305_SHA256:TLS_AES_128_GCM_SHA256";
    sched(0.6); g.benign(0.15); g.cfg["tagged"] = "1"; g.C("ssl", 1); bool rsa = r.chance(0.4), peer = r.chance(0.55); if (rsa) { g.cfg["sslcert"] = g.cfg["sslkey"] = "wsrsa"; if (r.chance(0.5)) g.cfg["ssldh"] = "dh"; }
    if (r.chance(0.6)) g.cfg["sslciphers"] = some_of(r, tls_pool12, 0.5); if (r.chance(0.6)) g.cfg["sslsuites"] = some_of(r, suites, 0.6); if (peer) g.C("sslpeer", 1); if (r.chance(0.4)) g.C("sslcapath", 1 + r.below(2));
    double u = r.unit(); bool bad = u < 0.12, startf = !bad && u < 0.4;
    if (bad) bad_tls(r, g.cfg);
    if (startf) { g.C("startup", 1); g.S("startfaults=1"); g.S(fmt("f.alloc_failure=%g b.alloc_failure=%d", g.pickf({0.003, 0.01, 0.03, 0.1}), (int)g.pick({1, 1, 2}))); g.C("lenient", 1); }
    int n = bad ? 1 : g.pick({1, 2, 2, 3, 4});
    for (int i = 0; i < n; i++) {
      std::string s = g.cl("echo") + " tls=1"; double v = r.unit(); bool v12 = v < 0.5; s += v12 ? " tlsv=12" : v < 0.8 ? " tlsv=13" : "";
      if (v12 ? r.chance(0.5) : r.chance(0.2)) s += " tlscipher=" + some_of(r, tls_pool12, r.chance(0.3) ? 0.2 : 0.6); if (v12 ? r.chance(0.1) : r.chance(0.5)) s += " tlssuites=" + some_of(r, suites, r.chance(0.5) ? 0.3 : 0.7);
      static const char *bc[] = {"self", "other", "expired", "future", "server", "broken", "forged"}; double w = r.unit(); std::string crt = w < (peer ? 0.5 : 0.15) ? "good" : w < (peer ? 0.62 : 0.2) ? "chain" : w < (peer ? 0.78 : 0.8) ? "" : bc[r.below(7)]; if (crt.size()) s += " tlscert=" + crt;
      if (r.chance(0.3)) s += " tlskeep=1 tlsbye=1"; if (i && r.chance(0.4)) s += fmt(" at=%d tlsfrom=%d", (int)g.pick({5000, 50000}), (int)r.below(i)); if (r.chance(0.2)) s += " tlsco=1"; if (r.chance(0.25)) { s += fmt(" tlsseg=%d", (int)(1 + r.below(100000))); if (r.chance(0.5)) s += fmt(" tlsgap=%lld", (long long)g.pick({10, 200, 3000})); }
      int c = g.client(s); g.traffic(c, 1 + r.below(4), g.pick({100, 2000})); if (r.chance(0.15)) { static const char *e[] = {"abort", "drop", "fin"}; g.op(c, e[r.below(3)]); } else g.closing(c, true);
    }
  } else if (p == "startup") {
    sched(0.4); if (!g.tls && !g.conf && r.chance(0.25)) { g.tls = true; g.C("ssl", 1); } g.cfg["tagged"] = "1"; g.C("startup", 1); if (r.chance(0.4)) g.C("ext", 1); if (r.chance(0.3)) { g.cfg["hosts"] = "localhost,example.org"; g.cfg["origins"] = "http://localhost"; g.cfg["neworigin"] = "http://localhost"; g.cfg["paths"] = "chat,room"; g.cfg["newpath"] = "/chat"; g.cfg["queries"] = "a=b"; } if (r.chance(0.3)) g.C("favicon", 1); if (r.chance(0.5)) { g.C("tclient", 1000); g.C("pings", 2); }
    g.S("startfaults=1"); int k = 1 + (r.chance(0.2) ? 1 : 0);
    for (int j = 0; j < k; j++) {
      static const char *f[] = {"alloc_failure", "alloc_failure", "alloc_failure", "alloc_failure", "pipe_failure", "thread_create_failure", "socket_failure", "fopen_failure", "rlimit_failure", "bind_failure", "listen_failure", "epoll_ctl_failure", "lock_init_failure", "lock_init_failure", "sigaction_failure", "setsockopt_failure", "fcntl_failure", "file_io_failure", "file_io_failure"};
      const char *x = f[r.below(19)]; bool al = x[0] == 'a'; g.S(fmt("f.%s=%g b.%s=%d", x, al ? g.pickf({0.003, 0.01, 0.02, 0.05}) : g.pickf({0.05, 0.15, 0.4, 1}), x, (int)g.pick({1, 1, 1, 2}))); }
    if (r.chance(0.3)) g.C("timewait", 1);
    if (g.tls && r.chance(0.15)) bad_tls(r, g.cfg);
    else if (r.chance(0.15)) { g.C("bad", 1 + r.below(18)); g.C("badat", r.below(97)); if (r.chance(0.7)) g.sched = g.sched.substr(0, g.sched.find(" startfaults=1")); }
    else if (r.chance(0.25)) { g.dir(fmt("sigint at=%lld early=1", (long long)r.below(g.pick({5, 50, 300})))); if (r.chance(0.5)) { g.C("sigint", g.pick({1, 2, 5})); g.C("sigseed", 1 + r.below(1000000)); g.C("sigspan", g.pick({1, 20, 300})); } }
    if (r.chance(0.5)) { int c = g.client(g.cl("echo") + (g.cfg.count("hosts") ? " host=localhost origin=http://localhost path=/chat" : "")); g.traffic(c, 2, 100); g.closing(c); }
  } else if (p == "ring") {
    g.cfg.clear(); g.cfg["component"] = "ring"; g.strategy(2.0); int np = g.pick({1, 2, 2, 3, 4, 5}); int perm = r.chance(0.6) ? np : r.below(np + 1); g.C("producers", np); g.C("perm", perm); g.C("temp", perm == np ? g.pick({0, 0, 2}) : std::max<i64>(1, (np - perm) - (r.chance(0.3) ? 1 : 0) + (r.chance(0.2) ? 1 : 0)));
    i64 sp = g.pick({2, 3, 4, 5, 7, 8, 12, 16, 31, 64}); g.C("space", sp); g.C("maxlen", std::max<i64>(1, std::min<i64>((sp - 1) / 2, g.pick({1, 1, 2, 3, 5, 20})))); g.C("items", g.pick({5, 15, 40, 120})); if (r.chance(0.3)) g.C("pace", g.pick({500, 20000})); if (r.chance(0.4)) g.C("cpace", g.pick({500, 5000, 50000})); if (r.chance(0.3)) g.C("churn", 1); if (r.chance(0.2)) { g.C("giveup", 1); g.C("tries", g.pick({1, 3})); }
  } else if (p == "rpm") {
    // the real allocator: threads that come and go, blocks freed by others than allocated them, mappings that fail
    g.cfg.clear(); g.cfg["component"] = "rpm"; g.strategy(2.0); g.C("users", g.pick({1, 2, 2, 3, 4, 5})); g.C("aseed", 1 + r.below(1000000)); g.C("ops", g.pick({20, 60, 200})); g.C("pfree", g.pick({30, 45, 50, 60})); if (r.chance(0.6)) g.C("spans", g.pick({1, 1, 2, 3, 5, 16})); if (r.chance(0.5)) g.C("big", 1); if (r.chance(0.3)) g.C("pace", g.pick({500, 20000})); if (r.chance(0.3)) g.C("owneruses", 1); if (r.chance(0.4)) g.C("churn", g.pick({2, 4, 10, 20})); g.C("cap", g.pick({100000, 1000000, 8000000}));
    if (r.chance(0.03)) { int k = 1 + r.below(r.chance(0.5) ? 2 : 12); g.C("floodsize", k * 65536 - 4096); g.C("flood", 10 * (k == 1 ? 256 : 64 - k / 2)); g.C("rounds", 1 + r.below(2)); }
    else if (r.chance(0.3)) { g.C("steady", 1); g.C("rounds", g.pick({18, 36})); g.C("ops", g.pick({10, 20, 40})); } else { g.C("rounds", 1 + r.below(4)); if (r.chance(0.35)) { g.S(fmt("f.alloc_failure=%g b.alloc_failure=%lld", g.pickf({0.02, 0.1, 0.5}), (long long)g.pick({1, 2, 5, 1000}))); if (r.chance(0.2)) g.C("initfail", 1); } }
   
  } else if (p == "pool") {
    g.cfg.clear(); g.cfg["component"] = "pool"; g.strategy(1.5); g.C("workers", g.pick({1, 2, 2, 3, 4, 6})); g.C("queue", g.pick({1, 2, 3, 4, 8, 32, 128})); g.C("adders", g.pick({1, 2, 3, 4})); g.C("items", g.pick({1, 3, 10, 30})); g.C("graceful", r.below(2)); if (r.chance(0.35)) g.C("meet", 1 + r.below(3)); if (r.chance(0.5)) g.C("kids", g.pick({1, 3})); g.C("dur", g.pick({0, 500, 20000})); if (r.chance(0.4)) g.C("pace", g.pick({500, 20000}));
    if (r.chance(0.4)) { g.C("hold", 1); g.C("dat", g.pick({0, 1000, 30000})); if (r.chance(0.3)) g.C("second", 1); } else if (r.chance(0.3)) g.C("drain", 1);
    if (r.chance(0.5)) g.S(fmt("f.cond_spurious_wakeup=%g", g.pickf({0.05, 0.3, 0.7}))); if (r.chance(0.12)) g.S("f.thread_create_failure=0.4 b.thread_create_failure=1"); if (r.chance(0.12)) g.S("f.alloc_failure=0.5 b.alloc_failure=1");
  } else internal_error("unknown profile " + p);
  if (g.cfg.count("ext") && (r.chance(0.5) || p == "huge")) {
    std::string e = fmt("server_max_window_bits=%lld;client_max_window_bits=%lld;memory_level=%lld", (long long)g.pick({8, 9, 10, 12, 15}), (long long)g.pick({9, 10, 12, 15}), (long long)g.pick({1, 4, 8, 9})); if (p == "huge") e += ";chunk_size=2000000"; else if (r.chance(0.7)) e += fmt(";chunk_size=%lld", (long long)g.pick({33, 64, 257, 1024, 65536})); if (r.chance(0.3)) e += ";server_no_context_takeover"; g.cfg["extcfg"] = e;
  }
  if (noconf) { for (const char *k : {"log", "tpoll", "style", "longopt", "favicon", "ext", "extcfg"}) g.cfg.erase(k); g.C("noconf", 1); for (auto x : std::initializer_list<std::pair<const char *, i64>>{{"workers", 4}, {"ring", 128}, {"buffer", 32768}, {"thread", 2097152}, {"header", 8192}, {"uri", 8192}, {"frame", 1048576}, {"payload", 16777215}, {"fragmented", 1048576}}) g.C(x.first, x.second); g.C("tread", 1000); g.C("twrite", 1000); g.C("tclient", 60000); g.C("pings", 1); }
  for (auto k : {"ph", "phs"}) if (g.cfg.count(k)) for (size_t q; (q = g.body.find(k[2] ? ":9443" : ":9080")) != std::string::npos;) g.body.replace(q + 1, 4, g.cfg[k]);
  if (!g.cfg.count("component") && !g.tls && !g.cfg.count("sigseed") && !g.nospur && !g.cfg.count("tclient") && r.chance(0.04)) { g.C("sigseed", 1 + r.below(1000000)); g.C("sigspan", g.pick({20, 300, 5000})); g.C("sighup", g.pick({1, 3, 10, 30})); }   // signals the server ignores
  if (!g.cfg.count("component") && r.chance(0.5)) g.S(fmt("uptime=%lld", (long long)(g.pick({1000000, 2000000000, 2147483648000, 2147483648000, 4294967296000, 86400000000000}) - (i64)(r.unit() * g.pick({1000, 100000, 1000000})))));   // just booted, or up for long: the millisecond counts pass 2^31 and 2^32
  if (!g.cfg.count("component") && r.chance(0.2)) g.S(fmt("fd0=%lld", (long long)g.pick({240, 240, 1010, 1010, 1010, 4090})));   // a process that inherited many descriptors
  if (noconf) { g.S("stallmax=20000 f.process_pause=0"); for (size_t q; (q = g.body.find(" rdelay=")) != std::string::npos;) g.body.erase(q, g.body.find_first_of(" \n", q + 1) - q); }   // the default I/O timeouts are one second
  if (g.conf && !g.cfg.count("ssl") && !g.cfg.count("bad") && !g.cfg.count("noconf") && g.text().find(g.cfg.count("phs") ? ":443" : ":9443") == std::string::npos && r.chance(0.25)) g.C("phs", 0);
  return g.text();
}
