// Simulated heap with redzones, quarantine and per-access checks; the -fsanitize=thread callbacks
// are used as preemption points and as access checks (the real TSan runtime is not linked).
#include "sim.h"
#include <sys/mman.h>
#include <errno.h>
#include <ctype.h>
#include <algorithm>

extern u64 cur_points, cur_next;
void mem_slow();

static const u64 ARENA = 0x200000000000ull, ARENA_SIZE = 4ull << 30;
static u8 *const SHADOW = (u8 *)0x300000000000ull;   // 1 byte per 8
static u64 brk_;
struct Blk { u64 addr; u64 size; u64 seq; bool freed; u64 apc[6]; u64 fpc[6]; int athr, fthr; };
static std::vector<Blk> *blks;
static u64 live_n, live_b, seqno;

void mem_init() {
  void *a = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *b = mmap(SHADOW, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED) { perror("mmap arena"); exit(3); }
  brk_ = ARENA + 4096; blks = new std::vector<Blk>; blks->reserve(4096);
}
static void grab(u64 *pc) { Thread *t = cur; int n = 0; if (t) for (int i = t->fdepth - 1; i >= 0 && n < 6; i--) if (i < 1024) pc[n++] = t->fstack[i]; while (n < 6) pc[n++] = 0; }
static Blk *find(u64 a) {
  auto it = std::upper_bound(blks->begin(), blks->end(), a, [](u64 v, const Blk &b) { return v < b.addr; });
  if (it == blks->begin()) return nullptr; --it; return &*it;
}
static std::string pcs(const u64 *p, int max = 4) {
  std::string s; int n = 0; for (int i = 0; i < 6 && p[i]; i++) { std::string x = sym((void *)p[i]); if (x == "?" || x.compare(0, 4, "_ZNS") == 0 || n++ >= max) continue; s += (s.empty() ? "" : "<") + x; } return s;
}
static const char *skipw[] = {"WSS_malloc", "WSS_free_normal", "WSS_realloc", "WSS_realloc_normal", "WSS_calloc", "WSS_copy", "WSS_free", nullptr};
static std::string pcs1(const u64 *p, int max) {   // skipping allocation wrappers
  std::string s; int n = 0;
  for (int i = 0; i < 6 && p[i]; i++) { std::string x = sym((void *)p[i]); bool sk = x == "?" || x.compare(0, 4, "_ZNS") == 0; for (auto w = skipw; *w; w++) if (x == *w) sk = true; if (sk) continue; if (n++ >= max) break; s += (s.empty() ? "" : "<") + x; }
  return s;
}
extern bool g_mem_fatal;
static void bad(u64 a, size_t n, bool w, void *pc) {
  in_sim = false;
  Blk *b = find(a);
  const char *kind = "wild"; std::string more, bs;
  if (b) {
    if (a < b->addr + b->size && b->freed) kind = "use-after-free";
    else if (a >= b->addr + b->size && a < b->addr + b->size + 64) kind = b->freed ? "use-after-free" : "heap-overflow";
    else if (a + n > b->addr + b->size && a < b->addr + b->size) kind = "heap-overflow";
    else kind = "heap-out-of-bounds";
    bs = pcs1(b->apc, 1);
    more = fmt(" block of %llu bytes (offset %lld) allocated by thread %s in %s", (unsigned long long)b->size, (long long)(a - b->addr), threads[b->athr]->name.c_str(), pcs(b->apc, 5).c_str());
    if (b->freed) more += fmt(", freed by thread %s in %s", threads[b->fthr]->name.c_str(), pcs(b->fpc, 5).c_str());
  }
  std::string k = fmt("%s-%s", kind, w ? "write" : "read");
  std::string where = sig_stack(cur, 2, pc);
  std::string ext; if (b && b->freed) ext = "|freed:" + pcs1(b->fpc, 1);
  in_sim = true;
  violate("memory", fmt("memory|%s|%s|alloc:%s%s", k.c_str(), where.c_str(), bs.c_str(), ext.c_str()),
    fmt("%s of %zu bytes at %p by thread %s pc %p in %s;%s", k.c_str(), n, (void *)a, cur->name.c_str(), pc, backtrace_str(cur, 8, pc).c_str(), more.c_str()));
}
static inline void chk(u64 a, u64 n, bool w, void *pc) {
  if (a - ARENA < ARENA_SIZE) {
    u64 o = a - ARENA; u8 s = SHADOW[o >> 3];
    if (__builtin_expect(n <= 8 && ((o & 7) + n <= 8), 1)) { if (__builtin_expect(s != 0, 0)) { if (s > 7 || (o & 7) + n > s) bad(a, n, w, pc); } return; }
    for (u64 x = o; x < o + n;) {
      u8 q = SHADOW[x >> 3]; u64 e = std::min((x | 7) + 1, o + n);
      if (q && (q > 7 || ((e - 1) & 7) + 1 > q)) { u64 badat = ARENA + x; bad(badat, e - x, w, pc); }
      x = e;
    }
  } else if (__builtin_expect(a < 4096, 0)) {
    if (n) { std::string where = sig_stack(cur, 2, pc); violate("memory", "memory|null-deref|" + where, fmt("null pointer %s at %p by %s in %s", w ? "write" : "read", (void *)a, cur->name.c_str(), backtrace_str(cur, 8, pc).c_str())); }
  }
}
void mem_check(const void *p, size_t n, bool w, void *pc) { if (in_sim && n) chk((u64)p, n, w, pc); }

void heap_poison(u64 a, u64 n) { memset(SHADOW + ((a - ARENA) >> 3), 0xFD, n >> 3); }
static void poison(u64 a, u64 n, u8 v) { memset(SHADOW + ((a - ARENA) >> 3), v, (n + 7) >> 3); }
void *heap_alloc(size_t n, bool zero, size_t align, bool may_fail) {
  if (may_fail && fault(F_MALLOC, sc.f[F_MALLOC])) { errno = ENOMEM; return nullptr; }
  if (n > (512u << 20)) { errno = ENOMEM; return nullptr; }
  if (align < 16) align = 16;
  u64 a = (brk_ + 32 + align - 1) & ~(u64)(align - 1);
  u64 e = (a + n + 7) & ~7ull;
  if (e + 4096 > ARENA + ARENA_SIZE) internal_error("simulated heap exhausted");
  // redzone before and after
  poison(brk_, a - brk_, 0xFA);
  memset(SHADOW + ((a - ARENA) >> 3), 0, n >> 3);
  if (n & 7) SHADOW[(a + n - ARENA) >> 3] = n & 7;
  poison(e, 64, 0xFA);
  brk_ = e + 16;
  Blk b; b.addr = a; b.size = n; b.seq = ++seqno; b.freed = false; grab(b.apc); b.athr = cur ? cur->id : 0; b.fthr = 0; memset(b.fpc, 0, sizeof b.fpc);
  blks->push_back(b); live_n++; live_b += n;
  if (!zero) memset((void *)a, 0xBE, n < 4096 ? n : 4096);
  return (void *)a;
}
static Blk *exact(void *p, const char *what) {
  Blk *b = find((u64)p);
  if (!b || b->addr != (u64)p) {
    bool is = (u64)p - ARENA < ARENA_SIZE;
    violate("memory", std::string("memory|bad-free|") + sig_stack(cur, 2), fmt("%s of %p which is not a heap block (%s) by %s in %s", what, p, is ? "interior pointer" : "foreign pointer", cur->name.c_str(), backtrace_str(cur).c_str()));
  }
  if (b->freed) violate("memory", std::string("memory|double-free|") + sig_stack(cur, 2) + "|alloc:" + pcs1(b->apc, 1),
    fmt("%s of already freed block %p (%llu bytes) by %s in %s; allocated in %s; freed by %s in %s", what, p, (unsigned long long)b->size, cur->name.c_str(), backtrace_str(cur).c_str(), pcs(b->apc, 5).c_str(), threads[b->fthr]->name.c_str(), pcs(b->fpc, 5).c_str()));
  return b;
}
void heap_free(void *p, const char *what) {
  if (!p) return;
  Blk *b = exact(p, what);
  b->freed = true; grab(b->fpc); b->fthr = cur ? cur->id : 0; live_n--; live_b -= b->size;
  poison(b->addr, b->size ? b->size : 1, 0xFD);
  if (b->size >= 65536) { u64 p = (b->addr + 4095) & ~4095ull, e = (b->addr + b->size) & ~4095ull; if (e > p) madvise((void *)p, e - p, MADV_DONTNEED); }
  memset((void *)b->addr, 0xDD, b->size < 2048 ? b->size : 2048);
}
size_t heap_size(void *p) { return exact(p, "size")->size; }
void *heap_realloc(void *p, size_t n) {
  if (!p) return heap_alloc(n, false);
  Blk *b = exact(p, "realloc"); u64 old = b->size;
  void *q = heap_alloc(n, false); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  heap_free(p, "realloc");
  return q;
}
HeapSnap heap_live() { return {live_n, live_b}; }
u64 heap_seq() { return seqno; }
u64 heap_live_since(u64 since, std::string *sites) {
  std::map<std::string, std::pair<u64, u64>> m; u64 n = 0;
  for (auto &b : *blks) if (!b.freed && b.seq > since) { n++; if (sites) { auto &x = m[pcs1(b.apc, 2)]; x.first++; x.second += b.size; } }
  if (sites) for (auto &x : m) *sites += fmt("%s%s (%llu blocks, %llu bytes)", sites->empty() ? "" : ", ", x.first.c_str(), (unsigned long long)x.second.first, (unsigned long long)x.second.second);
  return n;
}
std::string heap_first_site_since(u64 since) {
  for (auto &b : *blks) if (!b.freed && b.seq > since) return pcs1(b.apc, 2);
  return "";
}
void *token_new() { return heap_alloc(1, true, 16, false); }

// ---------------------------------------------------------------- TSan callbacks
#define RA __builtin_return_address(0)
static inline void acc(void *p, size_t n, bool w, void *pc) {
  if (__builtin_expect(!in_sim, 0)) return;
  if (__builtin_expect(++cur_points >= cur_next, 0)) mem_slow();
  chk((u64)p, n, w, pc);
}
extern "C" {
#define RW(N) \
  void __tsan_read##N(void *p) { acc(p, N, false, RA); } \
  void __tsan_write##N(void *p) { acc(p, N, true, RA); } \
  void __tsan_unaligned_read##N(void *p) { acc(p, N, false, RA); } \
  void __tsan_unaligned_write##N(void *p) { acc(p, N, true, RA); } \
  void __tsan_volatile_read##N(void *p) { acc(p, N, false, RA); } \
  void __tsan_volatile_write##N(void *p) { acc(p, N, true, RA); } \
  void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, false, RA); } \
  void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, true, RA); } \
  void __tsan_read_write##N(void *p) { acc(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) acc(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { if (n) acc(p, n, true, RA); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, RA); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, RA); }
// atomics: a synchronisation point before each operation
static inline void at(const volatile void *p, size_t n, bool w, void *pc) { if (!in_sim) return; sync_point("atomic"); chk((u64)p, n, w, pc); }
#define AT(T, B) \
  T __tsan_atomic##B##_load(const volatile T *p, int) { at(p, sizeof(T), false, RA); return *p; } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { at(p, sizeof(T), true, RA); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at(p, sizeof(T), true, RA); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at(p, sizeof(T), true, RA); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at(p, sizeof(T), true, RA); T o = *p; if (o == e) *p = v; return o; }
AT(u8, 8) AT(uint16_t, 16) AT(u32, 32) AT(u64, 64)
void __tsan_atomic_thread_fence(int) { if (in_sim) sync_point("fence"); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- allocation API used by the code under test
void *sim_malloc(size_t n) { sync_point("malloc"); return heap_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) { sync_point("calloc"); size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, true); }
void *sim_realloc(void *p, size_t n) { sync_point("realloc"); if (p && n == 0) { heap_free(p); return nullptr; } return heap_realloc(p, n); }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
void sim_free(void *p) { sync_point("free"); heap_free(p); }
void *sim_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, false, al); }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = heap_alloc(n, false, al); if (!p) return ENOMEM; *o = p; return 0; }
void *rpmalloc(size_t n) { sync_point("malloc"); return heap_alloc(n, false); }
void *rpcalloc(size_t a, size_t b) { return sim_calloc(a, b); }
void *rprealloc(void *p, size_t n) { sync_point("realloc"); return heap_realloc(p, n); }
void rpfree(void *p) { sync_point("free"); heap_free(p); }
void *rpaligned_alloc(size_t al, size_t n) { return heap_alloc(n, false, al); }
void *rpmemalign(size_t al, size_t n) { return heap_alloc(n, false, al); }
void *rpaligned_realloc(void *p, size_t al, size_t n, size_t, unsigned) { (void)al; return heap_realloc(p, n); }
int rpposix_memalign(void **o, size_t al, size_t n) { return sim_posix_memalign(o, al, n); }
size_t rpmalloc_usable_size(void *p) { return heap_size(p); }
int rpmalloc_initialize(void) { return 0; }
int rpmalloc_initialize_config(const void *) { return 0; }
void rpmalloc_finalize(void) {}
void rpmalloc_thread_initialize(void) {}
void rpmalloc_thread_finalize(int) {}
void rpmalloc_thread_collect(void) {}
int rpmalloc_is_thread_initialized(void) { return 1; }
char *sim_strdup(const char *s) { size_t n = strlen(s); mem_check(s, n + 1, false, RA); char *p = (char *)sim_malloc(n + 1); if (p) memcpy(p, s, n + 1); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

// ---------------------------------------------------------------- checked string functions
#define CK(p, n, w) mem_check(p, n, w, RA)
void *sim_memcpy(void *d, const void *s, size_t n) { CK(s, n, false); CK(d, n, true); if (n && (u64)d < (u64)s + n && (u64)s < (u64)d + n && d != s) {
    violate("memory", "memory|memcpy-overlap|" + sig_stack(cur, 1, RA), "memcpy with overlapping ranges in " + backtrace_str(cur, 8, RA)); }
  return n ? memmove(d, s, n) : d; }
void *sim_memmove(void *d, const void *s, size_t n) { CK(s, n, false); CK(d, n, true); return n ? memmove(d, s, n) : d; }
void *sim_memset(void *d, int c, size_t n) { CK(d, n, true); return n ? memset(d, c, n) : d; }
int sim_memcmp(const void *a, const void *b, size_t n) { CK(a, n, false); CK(b, n, false); return n ? memcmp(a, b, n) : 0; }
void *sim_memchr(const void *a, int c, size_t n) { void *r = n ? (void *)memchr(a, c, n) : nullptr; CK(a, r ? (char *)r - (char *)a + 1 : n, false); return r; }
void *sim_memmem(const void *a, size_t n, const void *b, size_t m) { CK(a, n, false); CK(b, m, false); return memmem(a, n, b, m); }
#define CKS(s) do { if (in_sim) { if ((u64)(s) < 4096) CK(s, 1, false); size_t n__ = 0; const char *q__ = (s); /* check bytewise in heap */ \
    if ((u64)q__ - ARENA < ARENA_SIZE) { for (;; n__++) { CK(q__ + n__, 1, false); if (!q__[n__]) break; } } } } while (0)
#define CKSN(s, m) do { if (in_sim && (m)) { if ((u64)(s) < 4096) CK(s, 1, false); const char *q__ = (s); \
    if ((u64)q__ - ARENA < ARENA_SIZE) { for (size_t n__ = 0; n__ < (m); n__++) { CK(q__ + n__, 1, false); if (!q__[n__]) break; } } } } while (0)
size_t sim_strlen(const char *s) { CKS(s); return strlen(s); }
size_t sim_strnlen(const char *s, size_t m) { CKSN(s, m); return strnlen(s, m); }
// comparisons touch only up to the first difference
static inline void ckcmp(const char *a, const char *b, size_t m, bool ic, void *pc) {
  if (!in_sim) return;
  for (size_t i = 0; i < m; i++) { mem_check(a + i, 1, false, pc); mem_check(b + i, 1, false, pc); u8 x = a[i], y = b[i]; if (ic) { x = tolower(x); y = tolower(y); } if (x != y || !x) break; }
}
int sim_strcmp(const char *a, const char *b) { ckcmp(a, b, ~0ull, false, RA); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { ckcmp(a, b, n, false, RA); return strncmp(a, b, n); }
int sim_strcasecmp(const char *a, const char *b) { ckcmp(a, b, ~0ull, true, RA); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { ckcmp(a, b, n, true, RA); return strncasecmp(a, b, n); }
char *sim_strcpy(char *d, const char *s) { CKS(s); CK(d, strlen(s) + 1, true); return strcpy(d, s); }
char *sim_stpcpy(char *d, const char *s) { CKS(s); CK(d, strlen(s) + 1, true); return stpcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { CKSN(s, n); CK(d, n, true); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { CKS(d); CKS(s); CK(d + strlen(d), strlen(s) + 1, true); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { CKS(d); CKSN(s, n); CK(d + strlen(d), strnlen(s, n) + 1, true); return strncat(d, s, n); }
char *sim_strstr(const char *a, const char *b) { CKS(a); CKS(b); return (char *)strstr(a, b); }
char *sim_strcasestr(const char *a, const char *b) { CKS(a); CKS(b); return (char *)strcasestr(a, b); }
char *sim_strchr(const char *a, int c) { CKS(a); return (char *)strchr(a, c); }
char *sim_strrchr(const char *a, int c) { CKS(a); return (char *)strrchr(a, c); }
size_t sim_strspn(const char *a, const char *b) { CKS(a); return strspn(a, b); }
size_t sim_strcspn(const char *a, const char *b) { CKS(a); return strcspn(a, b); }
char *sim_strpbrk(const char *a, const char *b) { CKS(a); return (char *)strpbrk(a, b); }
char *sim_strtok_r(char *a, const char *d, char **sv) { CK(sv, 8, false); if (a) CKS(a); else if (*sv) CKS(*sv); else CK((char *)nullptr, 1, false); return strtok_r(a, d, sv); }
char *sim_strtok(char *a, const char *d) { static char *sv; return sim_strtok_r(a, d, &sv); }
char *sim_strsep(char **a, const char *d) { if (*a) CKS(*a); return strsep(a, d); }
long sim_strtol(const char *s, char **e, int b) { CKS(s); return strtol(s, e, b); }
unsigned long sim_strtoul(const char *s, char **e, int b) { CKS(s); return strtoul(s, e, b); }
long long sim_strtoll(const char *s, char **e, int b) { CKS(s); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char *s, char **e, int b) { CKS(s); return strtoull(s, e, b); }
int sim_atoi(const char *s) { CKS(s); return atoi(s); }
long sim_atol(const char *s) { CKS(s); return atol(s); }
int sim_vsprintf(char *d, const char *f, va_list ap) {
  va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
  if (n >= 0) CK(d, n + 1, true);
  return vsprintf(d, f, ap);
}
int sim_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vsprintf(d, f, ap); va_end(ap); return n; }
int sim_vsnprintf(char *d, size_t m, const char *f, va_list ap) {
  va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
  if (n >= 0 && m) CK(d, std::min((size_t)n + 1, m), true);
  return vsnprintf(d, m, f, ap);
}
int sim_snprintf(char *d, size_t m, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vsnprintf(d, m, f, ap); va_end(ap); return n; }
}
