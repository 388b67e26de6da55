// Component scenario: the real allocator (rpmalloc.c behind alloc.c's wrappers) used by simulated threads (C26).
#include "client.h"
#include <errno.h>
#include <string.h>
#include <sys/mman.h>
extern "C" {
void *real_rpmalloc(size_t); void *real_rpcalloc(size_t, size_t); void *real_rprealloc(void *, size_t); void real_rpfree(void *); void *real_rpaligned_alloc(size_t, size_t); void *real_rpaligned_calloc(size_t, size_t, size_t);
void *real_rpmemalign(size_t, size_t); int real_rpposix_memalign(void **, size_t, size_t); void *real_rpaligned_realloc(void *, size_t, size_t, size_t, unsigned); size_t real_rpmalloc_usable_size(void *);
int real_rpmalloc_initialize(void); void real_rpmalloc_finalize(void); void real_rpmalloc_thread_initialize(void); void real_rpmalloc_thread_finalize(void); void real_rpmalloc_thread_collect(void); int real_rpmalloc_is_thread_initialized(void);
void *real_WSS_malloc(size_t); void *real_WSS_calloc(size_t, size_t); void *real_WSS_realloc(void **, size_t, size_t); void *real_WSS_realloc_normal(void *, size_t); void real_WSS_free_normal(void *); void *real_WSS_copy(void *, size_t);
int glue_rp_config(unsigned long);
}
void heap_poison(u64 a, u64 n);
static void av(const std::string &key, const std::string &msg) { violate("alloc", "alloc|" + key, msg + " (by " + cur->name + ")"); }

// ---- memory mappings of the simulated kernel
struct Map { u64 size; u64 left; std::vector<bool> gone; };
static std::map<u64, Map> maps; static u64 mapped, mapped_peak; static u64 nmapfail; static std::map<int, u64> nomem;
extern "C" {
void *sim_mmap(void *, size_t n, int, int flags, int fd, off_t) {
  sync_point("mmap");
  if (!n || fd != -1 || !(flags & MAP_ANONYMOUS)) { errno = EINVAL; return MAP_FAILED; }
  n = (n + 4095) & ~4095ull;
  if (fault(F_MALLOC, sc.f[F_MALLOC])) { nmapfail++; trace("mmap %zu fails", n); errno = ENOMEM; return MAP_FAILED; }
  u64 a = (u64)heap_alloc(n, true, 4096, false); maps[a] = Map{n, n / 4096, std::vector<bool>(n / 4096)}; mapped += n; mapped_peak = std::max(mapped_peak, mapped); trace("mmap %zu = %p", n, (void *)a); sync_point("mmapped"); return (void *)a;
}
int sim_munmap(void *p, size_t n) {
  sync_point("munmap"); u64 a = (u64)p; trace("munmap %p %zu", p, n);
  if (!n || (a & 4095)) { errno = EINVAL; return -1; }
  n = (n + 4095) & ~4095ull;
  for (u64 x = a; x < a + n; x += 4096) {
    auto it = maps.upper_bound(x); if (it == maps.begin()) av("unmap-foreign", fmt("munmap of %p, which is not mapped", (void *)x));
    --it; u64 o = (x - it->first) / 4096; if (x >= it->first + it->second.size || it->second.gone[o]) av("unmap-foreign", fmt("munmap of %p, which is not mapped", (void *)x));
    it->second.gone[o] = true; mapped -= 4096; heap_poison(x, 4096); if (--it->second.left == 0) { madvise((void *)it->first, it->second.size, MADV_DONTNEED); maps.erase(it); }
  }
  return 0;
}
int sim_posix_madvise(void *p, size_t n, int) { sync_point("madvise"); u64 a = (u64)p; if (a & 4095) return EINVAL; mem_check(p, n, true, nullptr); if (n && a / 4096 % 2) madvise(p, n, MADV_DONTNEED); return 0; }   // what is given back may or may not keep its content
int sim_madvise(void *p, size_t n, int ad) { return sim_posix_madvise(p, n, ad) ? (errno = EINVAL, -1) : 0; }
struct EmuCtl { size_t size, align; void *obj; void *templ; };
void *sim___emutls_get_address(EmuCtl *c) {
  static std::map<std::pair<int, EmuCtl *>, char *> m; char *&p = m[{cur ? cur->id : -1, c}];
  if (!p) { if (posix_memalign((void **)&p, std::max<size_t>(c->align, 16), c->size + 16)) abort(); memset(p, 0, c->size); if (c->templ) memcpy(p, c->templ, c->size); }
  return p;
}
}

// ---- the users of the allocator
struct Block { u8 *p; size_t n, al; u32 tag; bool raw; };
static std::vector<Block> live_; static std::map<u64, u64> ranges; static u64 live_bytes, live_peak; static u32 tagno; static i64 cap_bytes; static u64 ops_done;
static int nrun; static char run_obj;
static u8 pat(u32 tag, size_t i) { return (u8)(tag * 37 + i * 11 + (i >> 8) * 5 + 1); }
template <class F> static void each(size_t n, F f) { if (n <= 6000) { for (size_t i = 0; i < n; i++) f(i); return; } for (size_t i = 0; i < 200; i++) f(i); for (size_t i = 200; i < n - 200; i += 1021) f(i); for (size_t i = n - 200; i < n; i++) f(i); }
static void reserve(const Block &b) {          // this memory is in use from now on
  u64 a = (u64)b.p, e = a + std::max<size_t>(b.n, 1);
  auto it = ranges.lower_bound(a); const char *w = nullptr; u64 o = 0;
  if (it != ranges.end() && it->first < e) { w = "begins"; o = it->first; } else if (it != ranges.begin() && (--it)->second > a) { w = "ends"; o = it->first; }
  if (w) av("overlap", fmt("%zu bytes at %p were handed out while another block (at %p) %s there", b.n, (void *)b.p, (void *)o, w));
  ranges[a] = e; live_bytes += b.n; live_peak = std::max(live_peak, live_bytes);
}
static void unreserve(const Block &b) { ranges.erase((u64)b.p); live_bytes -= b.n; }
static void fill(Block &b) { b.tag = ++tagno; if (b.n) mem_check(b.p, b.n, true, __builtin_return_address(0)); each(b.n, [&](size_t i) { b.p[i] = pat(b.tag, i); }); }
static void verify(const Block &b, const u8 *p, size_t n, const char *when) {
  if (n) mem_check(p, n, false, __builtin_return_address(0));
  R->st.evals++; size_t bad = ~0ull; each(b.n, [&](size_t i) { if (i < n && p[i] != pat(b.tag, i) && bad == ~0ull) bad = i; });
  if (bad != ~0ull) av(std::string("content-") + when, fmt("byte %zu of a block of %zu bytes changed (%s)", bad, b.n, when));
}
static void zeroed(const Block &b, size_t from, const char *what) { for (size_t i = from; i < b.n; i++) if (b.p[i]) av("not-zeroed", fmt("byte %zu of %zu is not zero after %s", i, b.n, what)); }
static size_t size_of(Rng &g, bool big) {
  static const size_t edge[] = {1, 15, 16, 17, 31, 32, 33, 255, 256, 1007, 1008, 1009, 1023, 1024, 1025, 1535, 1536, 1537, 16383, 16384, 32256, 32640, 32704, 32705, 32768, 33000, 65535 - 128, 65536 - 128, 65536, 65537, 131072 - 128, 131072, 4096, 4097};
  double u = g.unit();
  if (u < 0.4) return 1 + g.below(1024); if (u < 0.55) return 1 + g.below(64); if (u < 0.72) return 1 + g.below(32768); if (u < 0.87) return edge[g.below(sizeof edge / sizeof *edge)] + (g.chance(0.3) ? g.below(40) : 0);
  if (!big) return 1 + g.below(2048); if (u < 0.96) return 32768 + g.below(400000); if (u < 0.99) return 400000 + g.below(1700000); return 2000000 + g.below(2500000);
}
static bool got(Block &b, u64 f0, const char *what) {       // was the request answered correctly?
  R->st.evals++; ops_done++;
  if (!b.p) { if (b.n && nmapfail == f0) av("refused", fmt("%s of %zu bytes fails although no mapping failed", what, b.n)); return false; }
  if ((u64)b.p % b.al) av("alignment", fmt("%s of %zu bytes returns %p, not aligned to %zu", what, b.n, (void *)b.p, b.al));
  mem_check(b.p, std::max<size_t>(b.n, 1), true, __builtin_return_address(0));
  if (!b.raw) {} else { size_t us = real_rpmalloc_usable_size(b.p); if (us < b.n) av("usable", fmt("usable size %zu of a block of %zu bytes", us, b.n)); if (us < (1u << 24)) mem_check(b.p, us, true, nullptr); else av("usable", fmt("usable size %zu of a block of %zu bytes", us, b.n)); }
  trace("%s(%zu, align %zu) = %p", what, b.n, b.al, (void *)b.p); reserve(b); R->st.nontrivial++; return true;
}
static void op_alloc(Rng &g, bool big) {
  Block b{}; b.n = size_of(g, big); b.al = 16; b.raw = true; u64 f0 = nmapfail; const char *what = "";
  if (live_bytes + b.n > (u64)cap_bytes) b.n = 1 + g.below(100);
  switch (g.below(9)) {
    case 0: case 1: what = "rpmalloc"; b.p = (u8 *)real_rpmalloc(b.n); break;
    case 2: { what = "rpcalloc"; size_t k = 1 + g.below(5); size_t m = std::max<size_t>(1, b.n / k); b.n = k * m; b.p = (u8 *)real_rpcalloc(k, m); break; }
    case 3: { what = "aligned allocation"; b.al = 16u << g.below(b.n > 40000 ? 9 : 12); int w = g.below(4);
      if (b.al > 32768) b.al = 32768; void *q = nullptr; if (w == 0) b.p = (u8 *)real_rpaligned_alloc(b.al, b.n); else if (w == 1) b.p = (u8 *)real_rpmemalign(b.al, b.n); else if (w == 2) { what = "aligned zeroed allocation"; b.p = (u8 *)real_rpaligned_calloc(b.al, 1, b.n); } else { int rc = real_rpposix_memalign(&q, b.al, b.n); b.p = rc ? nullptr : (u8 *)q; if (rc && rc != ENOMEM) av("posix-memalign", fmt("posix_memalign returns %d", rc)); } break; }
    case 4: case 5: what = "WSS_malloc"; b.p = (u8 *)real_WSS_malloc(b.n); b.raw = false; break;
    case 6: { what = "WSS_calloc"; size_t k = 1 + g.below(5); size_t m = std::max<size_t>(1, b.n / k); b.n = k * m; b.p = (u8 *)real_WSS_calloc(k, m); b.raw = false; break; }
    case 7: what = "rprealloc of nothing"; b.p = (u8 *)real_rprealloc(nullptr, b.n); break;
    default: what = "WSS_realloc of nothing"; { void *z = nullptr; b.p = (u8 *)real_WSS_realloc(&z, 0, b.n); b.raw = false; }
  }
  if (!got(b, f0, what)) return;
  if (!strcmp(what, "rpcalloc") || !strcmp(what, "aligned zeroed allocation") || !b.raw) zeroed(b, 0, what);
  fill(b); sync_point("allocated"); live_.push_back(b);
}
static bool take(Rng &g, Block &b) { if (live_.empty()) return false; size_t i = g.chance(0.3) ? live_.size() - 1 : g.below(live_.size()); b = live_[i]; live_[i] = live_.back(); live_.pop_back(); return true; }
static void op_free(Rng &g) { Block b; if (!take(g, b)) return; verify(b, b.p, b.n, "while it was in use"); unreserve(b); ops_done++; trace("free %p (%zu)", (void *)b.p, b.n); if (g.chance(0.5)) real_rpfree(b.p); else real_WSS_free_normal(b.p); }
static void op_realloc(Rng &g, bool big) {
  Block b; if (!take(g, b)) return; verify(b, b.p, b.n, "while it was in use"); Block o = b; u64 f0 = nmapfail;
  double u = g.unit(); size_t n = u < 0.4 ? size_of(g, big) : u < 0.7 ? b.n + 1 + g.below(b.n / 2 + 40) : 1 + g.below(b.n); if (live_bytes + n > (u64)cap_bytes) n = 1 + g.below(b.n); if (!n) n = 1;
  unreserve(o); trace("reallocate %p (%zu) to %zu", (void *)o.p, o.n, n); b.n = n; b.al = 16; int w = g.below(5); const char *what = ""; bool keeps = true, zero = false;
  if (w <= 1) { what = "rprealloc"; b.p = (u8 *)real_rprealloc(o.p, n); }
  else if (w == 2) { what = "WSS_realloc"; void *q = o.p; b.p = (u8 *)real_WSS_realloc(&q, o.n, n); zero = true; if (!b.p && nmapfail != f0) { return; } }
  else if (w == 3) { what = "WSS_realloc_normal"; b.p = (u8 *)real_WSS_realloc_normal(o.p, n); if (!b.p && nmapfail != f0) return; }
  else { what = "rpaligned_realloc"; b.al = 16u << g.below(8); unsigned fl = g.below(4); keeps = !(fl & 1); b.p = (u8 *)real_rpaligned_realloc(o.p, b.al, n, g.chance(0.5) ? o.n : 0, fl); if (!b.p && (fl & 2)) { reserve(o); verify(o, o.p, o.n, "when growing it in place was refused"); live_.push_back(o); return; } }
  b.raw = true;
  if (!got(b, f0, what)) { reserve(o); verify(o, o.p, o.n, "after a failed reallocation"); live_.push_back(o); return; }
  if (keeps) verify(o, b.p, std::min(o.n, n), "across a reallocation");
  if (zero && n > o.n) zeroed(b, o.n, what);
  fill(b); live_.push_back(b);
}
static void op_copy(Rng &g) { Block b; if (!take(g, b)) return; u64 f0 = nmapfail; Block c = b; c.al = 16; c.raw = false; c.p = (u8 *)real_WSS_copy(b.p, b.n); if (got(c, f0, "WSS_copy")) { verify(b, c.p, b.n, "by a copy"); fill(c); live_.push_back(c); } live_.push_back(b); }
static void user(u64 seed, int ops, double pfree, bool big, bool init, bool fini, i64 pace, int churn = 1) {
  Rng g(seed); ops = ops / churn + 1; for (int c = 0; c < churn; c++) { if (init) { real_rpmalloc_thread_initialize(); if (!real_rpmalloc_is_thread_initialized() && !nmapfail) av("thread-init", "the thread has no heap after rpmalloc_thread_initialize"); }
  for (int i = 0; i < ops; i++) {
    double u = g.unit();
    if (u < 0.015) real_rpmalloc_thread_collect(); else if (u < 0.04) op_copy(g); else if (u < 0.17) op_realloc(g, big); else if (u < 0.17 + 0.83 * pfree) op_free(g); else op_alloc(g, big);
    if (pace && g.chance(0.2)) { static char o; block(&o, now_ns + 1 + g.below(pace), "user sleeps"); }
  }
  if (fini) { real_rpmalloc_thread_finalize(); if (real_rpmalloc_is_thread_initialized()) av("thread-fini", "the thread still has a heap after rpmalloc_thread_finalize"); } }
}
// more blocks of one size at the same time than all the caches take
static void flood(int n, size_t sz) {
  real_rpmalloc_thread_initialize(); std::vector<Block> v; u64 f0 = nmapfail;
  for (int i = 0; i < n; i++) { Block b{}; b.n = sz; b.al = 16; b.raw = true; b.p = (u8 *)real_rpmalloc(sz); if (!got(b, f0, "rpmalloc")) { f0 = nmapfail; continue; } b.tag = ++tagno; b.p[0] = pat(b.tag, 0); b.p[sz - 1] = pat(b.tag, 1); v.push_back(b); }
  for (auto &b : v) { if (b.p[0] != pat(b.tag, 0) || b.p[sz - 1] != pat(b.tag, 1)) av("content-flood", fmt("a block of %zu bytes changed while it was in use", b.n)); unreserve(b); real_rpfree(b.p); }
  real_rpmalloc_thread_finalize();
}
static void start(const std::string &name, std::function<void()> f) { nrun++; spawn(name, true, 1 << 18, [f] { f(); nrun--; wake(&run_obj); }); }
static void join_all() { u64 dl = now_ns + 100000000000ull; while (nrun) { block(&run_obj, dl, "users of the allocator"); if (nrun && now_ns >= dl) av("stuck", "the users of the allocator make no progress"); } }
void run_rpm(const Scenario &s) {
  const KV &k = s.cfg; int users = k.i("users", 2), rounds = k.i("rounds", 3), ops = k.i("ops", 100); i64 spans = k.i("spans", 0), pace = k.i("pace", 0); bool big = k.i("big", 0), steady = k.i("steady", 0); double pf = k.i("pfree", 50) / 100.0; cap_bytes = k.i("cap", 4 << 20); u64 seed = k.i("aseed", 1);
  std::vector<u64> after; bool done = false; faults_on = true;
  start("owner", [&] {
    double pm = sc.f[F_MALLOC]; if (!k.i("initfail", 0)) sc.f[F_MALLOC] = 0;
    int rc = spans ? glue_rp_config(spans) : real_rpmalloc_initialize(); if (rc) av("initialize", fmt("rpmalloc_initialize returns %d", rc));
    sc.f[F_MALLOC] = pm; nrun--;                      // the owner is not one of those it waits for
    for (int r = 0; r < rounds; r++) {
      for (int i = 0; i < users; i++) { Rng g(seed * 977 + (steady ? 0 : r) * 131 + i); u64 sd = g.next(); bool in = true, fi = true; int n = steady ? ops : 1 + (int)g.below(2 * ops); int ch = k.i("churn", 1); start(fmt("user%d.%d", r, i), [=] { user(sd, n, pf, big, in, fi, pace, ch); }); }
      if (k.i("flood", 0)) start(fmt("flood%d", r), [=] { flood(k.i("flood"), k.i("floodsize", 40000)); });
      if (k.i("owneruses", 0)) user(seed * 31 + r, ops, pf, big, false, false, pace);
      join_all();
      Rng g(seed + r); if (steady || r + 1 == rounds || g.chance(0.4)) {       // everything is given back, by other threads than it was allocated by
        int fs = 1 + g.below(2); for (int i = 0; i < fs; i++) start(fmt("free%d.%d", r, i), [=] { Rng q(seed * 7 + r * 3 + i); real_rpmalloc_thread_initialize(); while (!live_.empty()) op_free(q); real_rpmalloc_thread_finalize(); });
        join_all();
      }
      after.push_back(mapped); trace("round %d: %llu bytes mapped, %llu live, peak %llu", r, (unsigned long long)mapped, (unsigned long long)live_bytes, (unsigned long long)live_peak);
    }
    // once the failures stop, requests are answered again
    sc.f[F_MALLOC] = 0; for (size_t n : {(size_t)24, (size_t)5000, (size_t)200000}) { u64 f0 = nmapfail; Block b{}; b.n = n; b.al = 16; b.raw = true; b.p = (u8 *)real_rpmalloc(n); if (!got(b, f0, "rpmalloc after the failures")) { av("refused", "no memory although none fails any more"); } fill(b); verify(b, b.p, b.n, "while it was in use"); unreserve(b); real_rpfree(b.p); }
    real_rpmalloc_finalize(); done = true; nrun++;
  });
  join_all(); while (!done) { static char o; block(&o, now_ns + 1000000, "owner"); } join_all();
  if (mapped) av("not-unmapped", fmt("%llu bytes in %zu mappings are not given back by rpmalloc_finalize although every block was freed", (unsigned long long)mapped, maps.size()));
  if (steady && !big && rounds >= 12) { u64 a = 0, b = 0; for (int i = 0; i < rounds; i++) (i < rounds / 6 ? a : b) = std::max(i < rounds / 6 ? a : b, after[i]); if (b > 3 * a + (16 << 20)) av("grows", fmt("%llu bytes stay mapped after round %d, %llu at the end, with the same work in every round", (unsigned long long)a, rounds / 6, (unsigned long long)b)); }
  R->st.msgs_sent = ops_done; mix(ops_done * 31 + mapped_peak);
}
