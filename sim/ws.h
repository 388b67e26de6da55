// Reference WebSocket codec and models used by the simulated clients (independent of the code under test).
#pragma once
#include "sim.h"
#include <zlib.h>

typedef std::string Bytes;

static inline void put_frame(Bytes &o, bool fin, int rsv, int op, bool masked, u32 mask, const Bytes &pl, int lenform = 0) {
  o += (char)((fin ? 0x80 : 0) | (rsv << 4) | op);
  size_t n = pl.size(); u8 m = masked ? 0x80 : 0;
  if (lenform == 0) lenform = n < 126 ? 1 : n < 65536 ? 2 : 3;
  if (lenform == 1) o += (char)(m | n);
  else if (lenform == 2) { o += (char)(m | 126); o += (char)(n >> 8); o += (char)n; }
  else { o += (char)(m | 127); for (int i = 7; i >= 0; i--) o += (char)((u64)n >> (8 * i)); }
  if (masked) { u8 k[4] = {(u8)(mask >> 24), (u8)(mask >> 16), (u8)(mask >> 8), (u8)mask}; o.append((char *)k, 4); for (size_t i = 0; i < n; i++) o += (char)(pl[i] ^ k[i & 3]); }
  else o += pl;
}
static inline bool utf8_ok(const Bytes &s) {
  size_t i = 0, n = s.size();
  while (i < n) {
    u8 c = s[i];
    if (c < 0x80) { i++; continue; }
    int k; u32 cp;
    if (c >= 0xC2 && c <= 0xDF) { k = 1; cp = c & 0x1F; } else if (c >= 0xE0 && c <= 0xEF) { k = 2; cp = c & 0xF; } else if (c >= 0xF0 && c <= 0xF4) { k = 3; cp = c & 7; } else return false;
    if (i + k >= n + 0 && i + k > n - 1) return false;
    for (int j = 1; j <= k; j++) { u8 d = s[i + j]; if ((d & 0xC0) != 0x80) return false; cp = cp << 6 | (d & 0x3F); }
    if ((k == 2 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) || (k == 3 && (cp < 0x10000 || cp > 0x10FFFF))) return false;
    i += k + 1;
  }
  return true;
}
static inline void put_cp(Bytes &s, u32 c) {
  if (c < 0x80) { s += (char)c; return; }
  int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : 3; s += (char)((n == 1 ? 0xC0 : n == 2 ? 0xE0 : 0xF0) | c >> 6 * n); while (n--) s += (char)(0x80 | (c >> 6 * n & 63));
}
// deterministic payloads
static inline Bytes gen_payload(u64 seed, size_t len, bool text, int style) {
  Rng r(seed * 31 + 7); Bytes s; s.reserve(len);
  if (text) {
    bool edges = style == 0 && seed % 4 == 1;   // the first and last code points of each length and byte pattern
    while (s.size() < len) {
      size_t room = len - s.size();
      if (edges && r.chance(0.7)) { static const u32 e[] = {0, 1, 0x7f, 0x80, 0xbf, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}; Bytes c; put_cp(c, e[r.below(22)]); if (c.size() <= room) s += c; continue; }
      u64 k = style == 1 ? 0 : r.below(10);
      if (k < 6 || room < 2) { s += (char)(style == 1 ? "abcab"[r.below(5)] : 32 + r.below(95)); }
      else if (k < 7 || room < 3) { u32 c = 0x80 + r.below(0x780); s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
      else if (k < 9 || room < 4) { u32 c; do c = 0x800 + r.below(0xF800); while (c >= 0xD800 && c <= 0xDFFF); s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
      else { u32 c = 0x10000 + r.below(0x100000); s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    }
  } else {
    for (size_t i = 0; i < len; i++) s += (char)(style == 1 ? "\0\1\0\0\2"[r.below(5)] : style == 2 ? 0 : r.next() >> 11);
  }
  return s;
}
// at most max bytes (12 or more) which are not UTF-8: overlong forms, surrogates, too large code points, cut off or stray bytes, anywhere in a text
static inline Bytes bad_utf8(Rng &r, size_t max) {
  Bytes s;
  do {
    static const int pl[] = {0, 0, 1, 5, 13, 14, 15, 16, 28, 29, 30, 31, 32, 47, 60, 61, 62, 63, 64, 93, 95, 125, 126, 127, 128, 190, 253};
    size_t room = max - 10, n = std::min<size_t>(r.chance(0.5) ? pl[r.below(27)] : r.below(r.chance(0.5) ? 40 : 280), room); s = gen_payload(r.next() % 100000, n, true, r.chance(0.3) ? 1 : 0);
    auto cont = [&](int k) { while (k-- > 0) s += (char)(0x80 | r.below(64)); };
    switch (r.below(8)) {
      case 0: { static const char *b[] = {"\xff", "\xc3\x28", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xf0\x80\x80\x80", "\x80"}; s += b[r.below(8)]; break; }
      case 1: s += (char)(0xc0 | r.below(2)); cont(1); break;                                  // overlong forms
      case 2: s += (char)0xe0; s += (char)(0x80 | r.below(32)); cont(1); break;
      case 3: s += (char)0xf0; s += (char)(0x80 | r.below(16)); cont(2); break;
      case 4: s += (char)0xed; s += (char)(0xa0 | r.below(32)); cont(1); break;                // surrogates
      case 5: s += (char)0xf4; s += (char)(0x90 + r.below(48)); cont(2); break;                // beyond the last code point
      case 6: { u32 x = 0xf5 + r.below(11); s += (char)x; cont(1 + r.below(x < 0xf8 ? 3 : x < 0xfc ? 4 : 5)); break; }   // no such lead byte
      default: { static const u32 e[] = {0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff}; put_cp(s, e[r.below(8)]); if (r.chance(0.7)) s.resize(s.size() - 1); else cont(1 + r.below(2)); }   // cut off, or one too many
    }
    if (r.chance(0.5) && s.size() < max) s += gen_payload(r.next() % 100000, std::min<size_t>(max - s.size(), r.chance(0.7) ? 1 + r.below(6) : r.below(140)), true, 0);
  } while (utf8_ok(s) || s.size() > max);
  return s;
}
Bytes sha1_b64_accept(const Bytes &key);
Bytes b64(const Bytes &in);

struct KV {
  std::map<std::string, std::string> m;
  bool has(const std::string &k) const { return m.count(k); }
  i64 i(const std::string &k, i64 d = 0) const { auto it = m.find(k); return it == m.end() ? d : strtoll(it->second.c_str(), nullptr, 0); }
  std::string s(const std::string &k, const std::string &d = "") const { auto it = m.find(k); return it == m.end() ? d : it->second; }
  double f(const std::string &k, double d = 0) const { auto it = m.find(k); return it == m.end() ? d : strtod(it->second.c_str(), nullptr); }
};
struct OpSpec { std::string kind; KV kv; };
struct ClientSpec { int id; KV kv; std::vector<OpSpec> ops; };
struct Scenario { KV cfg; KV sched; std::vector<ClientSpec> clients; std::vector<OpSpec> dir; };
Scenario parse_scenario(const std::string &text);
std::string gen_scenario(const std::string &profile, u64 seed);
std::string config_json(const Scenario &s);
