// Scheduler, virtual time, decision log, faults, violation reporting, symbolisation.
#include "sim.h"
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <algorithm>
#include <cxxabi.h>

const char *fault_names[F_NKINDS] = {
  "read_short", "read_eintr", "write_short", "write_eintr", "write_eagain", "accept_eintr",
  "accept_aborted", "accept_emfile", "epoll_wait_eintr", "poll_eintr", "cond_spurious_wakeup", "alloc_failure",
  "thread_stall", "process_pause", "sleep_eintr", "pipe_failure", "thread_create_failure", "socket_failure", "epoll_ctl_failure", "fopen_failure", "clock_jump", "read_failure", "write_failure", "fcntl_failure", "bind_failure", "listen_failure", "rlimit_failure", "lock_init_failure", "sigaction_failure", "setsockopt_failure", "spurious_readiness", "file_io_failure",
  "peer_reset", "peer_fin", "peer_read_stall", "tcp_segmentation", "peer_slow_delivery", "peer_abandon", "signal", "small_send_buffer"};

Result *R;
Thread *cur;
std::vector<Thread *> threads;
u64 now_ns = 1000ull * 1000000000ull;
bool in_sim = false;
SchedCfg sc;
bool replaying = false;
bool faults_on = false;
extern "C" { u64 sim_ident = 0; }
std::vector<Dec> dlog;
bool trace_on = false;

// current-thread counters (hot)
u64 cur_points, cur_next, slice_start;
static const u64 QUANTUM = 5000;
u64 POINT_LIMIT = 60000000ull;
static u64 total_base = 0;          // points executed by other slices
static Rng srng(1), frng(1);

static std::map<std::pair<u32, u64>, std::vector<Dec>> rsched;   // replay: (tid,count) -> decisions
static std::map<std::pair<u32, u64>, i64> rfault, rchoice;
static u64 fcount[F_NKINDS];
static u64 finj[F_NKINDS];
static u64 ccount[16];

std::string fmt(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n < 0) n = 0; if ((size_t)n >= sizeof b) n = sizeof b - 1;
  return std::string(b, n);
}

// ---------------------------------------------------------------- trace
static std::deque<std::string> tr;
static size_t tr_bytes;
void trace(const char *f, ...) {
  if (!trace_on) return;
  char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  std::string s = fmt("[%9.3fms] %s#%llu: ", (double)(now_ns - 1000000000000ull) / 1e6, cur ? cur->name.c_str() : "-", (unsigned long long)cur_points) + b;
  if (trace_on && getenv("SIM_TRACE")) { fprintf(stdout, "%s\n", s.c_str()); fflush(stdout); }
  tr_bytes += s.size() + 1; tr.push_back(s);
  while (tr_bytes > sizeof(R->trace) - 64) { tr_bytes -= tr.front().size() + 1; tr.pop_front(); }
}

void mix(u64 v) { u64 &h = R->st.ahash; h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xD6E8FEB86659FD93ull; }
static void mixi(u64 v) { u64 &h = R->st.ihash; h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xD6E8FEB86659FD93ull; }

extern u8 *shared_dlog; extern size_t shared_dlog_cap;
extern std::string cur_scenario_text;
u8 *shared_dlog; size_t shared_dlog_cap;
std::string cur_scenario_text;

static void flush_result() {
  R->st.vtime_ns = now_ns - 1000000000000ull;
  R->st.points = total_base + (cur_points - slice_start);
  R->st.deviations = dlog.size();
  R->st.threads = threads.size();
  for (int i = 0; i < F_NKINDS; i++) R->st.faults[i] = finj[i];
  // decision log as text
  std::string s;
  for (auto &d : dlog) s += fmt("%c %u %llu %lld\n", d.t, d.a, (unsigned long long)d.b, (long long)d.c);
  if (R->status == 2 || trace_on) {
    size_t n = std::min(s.size(), shared_dlog_cap); memcpy(shared_dlog, s.data(), n); R->dlog_len = n;
    if (s.size() > shared_dlog_cap) R->dlog_len = 0;
    std::string t; for (auto &l : tr) t += l + "\n";
    if (t.size() >= sizeof R->trace) t = t.substr(t.size() - sizeof(R->trace) + 1);
    memcpy(R->trace, t.c_str(), t.size() + 1);
  }
}
extern std::string violation_filter(const char *cls, const std::string &sig);
[[noreturn]] void violate(const char *cls, const std::string &sig, const std::string &msg) {
  in_sim = false;
  R->status = 2;
  snprintf(R->cls, sizeof R->cls, "%s", cls); snprintf(R->sig, sizeof R->sig, "%s", sig.c_str());
  std::string m = msg + "\n" + thread_dump();
  snprintf(R->msg, sizeof R->msg, "%s", m.c_str());
  flush_result();
  _exit(0);
}
[[noreturn]] void internal_error(const std::string &msg) {
  in_sim = false;
  R->status = 3; snprintf(R->cls, sizeof R->cls, "internal"); snprintf(R->sig, sizeof R->sig, "internal"); snprintf(R->msg, sizeof R->msg, "%s", msg.c_str());
  flush_result(); _exit(0);
}
[[noreturn]] void run_done() { in_sim = false; R->status = 1; flush_result(); _exit(0); }

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void thread_entry() {
  Thread *t = cur;
  t->cfn();
  extern void sim_thread_exit(void *);
  sim_thread_exit(nullptr);
}

static void recompute_next();
static void set_mem_event();

Thread *spawn(const std::string &name, bool server, size_t stack, std::function<void()> f) {
  Thread *t = new Thread; t->id = threads.size(); t->name = name; t->server = server; t->cfn = f;
  stack = (stack + 4095) & ~4095ull; if (stack < 65536) stack = 65536;
  size_t guard = 65536;
  char *m = (char *)mmap(nullptr, stack + guard, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) internal_error("mmap stack");
  mprotect(m, guard, PROT_NONE);
  t->stack = m; t->stack_sz = stack + guard;
  t->fstack = (u64 *)malloc(sizeof(u64) * 1024);
  u64 *sp = (u64 *)(m + guard + stack); sp -= 8;
  // keep (rsp+8) 16-byte aligned at function entry
  sp[0] = 0; *--sp = 0; *--sp = (u64)thread_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  t->sp = sp; t->next_ev = 0;
  t->prio = 1000 + srng.below(1000000);
  t->next_ev = sc.mem_mean > 0 ? 1 + srng.below((u64)(2 * sc.mem_mean)) : ~0ull;
  std::set<u64> used; for (auto o : threads) if (o->st != T_DONE) used.insert(o->ident); t->ident = 64; while (used.count(t->ident)) t->ident += 64;
  threads.push_back(t);
  return t;
}
void sched_init(u64 seed) {
  srng = Rng(seed ^ 0x5151); frng = Rng(seed ^ 0xFA17);
  Thread *t = new Thread; t->id = 0; t->name = "director"; t->server = false; t->prio = 1; t->next_ev = ~0ull;
  t->fstack = (u64 *)malloc(sizeof(u64) * 1024);
  threads.push_back(t); cur = t; cur_points = 0; slice_start = 0; recompute_next();
  in_sim = true;
}
void load_decisions(const std::vector<Dec> &d) {
  for (auto &x : d) {
    if (x.t == 'F') rfault[{x.a, x.b}] = x.c;
    else if (x.t == 'C') rchoice[{x.a, x.b}] = x.c;
    else rsched[{x.a, x.b}].push_back(x);
  }
}

// per-thread index of next replay decision
static u64 next_replay(u32 tid, u64 after) {
  auto it = rsched.upper_bound({tid, after});
  if (it == rsched.end() || it->first.first != tid) return ~0ull;
  return it->first.second;
}
static void recompute_next() {
  u64 n = slice_start + QUANTUM;
  u64 lim = POINT_LIMIT > total_base ? slice_start + (POINT_LIMIT - total_base) : 0;
  if (lim < n) n = lim;
  u64 e = replaying ? next_replay(cur->id, cur_points) : cur->next_ev;
  if (e < n) n = e;
  cur_next = n;
}

static void expire() {
  for (auto t : threads) {
    if (t->st == T_BLOCKED && t->wake_at && t->wake_at <= now_ns) { t->st = T_RUNNABLE; t->timedout = true; }
    else if (t->st == T_STALLED && t->wake_at <= now_ns) t->st = T_RUNNABLE;
  }
}
static std::vector<Thread *> runnable() {
  std::vector<Thread *> r; for (auto t : threads) if (t->st == T_RUNNABLE) r.push_back(t); return r;
}
static Thread *pick_default() {
  size_t n = threads.size();
  for (size_t i = 1; i <= n; i++) { Thread *t = threads[(cur->id + i) % n]; if (t->st == T_RUNNABLE) return t; }
  return nullptr;
}
static Thread *best_prio() {
  Thread *b = nullptr; for (auto t : threads) if (t->st == T_RUNNABLE && (!b || t->prio > b->prio)) b = t; return b;
}
static void switch_to(Thread *n) {
  if (n == cur) return;
  Thread *o = cur;
  o->points = cur_points; o->saved_errno = errno;
  total_base += cur_points - slice_start;
  R->st.switches++;
  mixi((u64)n->id * 1315423911u + o->id); mix(n->id + 77);
  cur = n; sim_ident = n->ident; cur_points = n->points; slice_start = cur_points; errno = n->saved_errno;
  recompute_next();
  sim_switch(&o->sp, n->sp);
  // back in o
}
static u64 deadlock_checks;
extern void on_deadlock();
// choose next thread when cur cannot run
static void reschedule() {
  for (;;) {
    Thread *d = pick_default();
    if (d) {
      Thread *n = d; 
      if (replaying) {
        auto it = rsched.find({(u32)cur->id, cur_points});
        if (it != rsched.end()) for (auto &x : it->second) if (x.t == 'S' && (size_t)x.c < threads.size() && threads[x.c]->st == T_RUNNABLE) n = threads[x.c];
      } else if (sc.strat == 1) {
        if (srng.chance(sc.p_block_random)) { auto r = runnable(); n = r[srng.below(r.size())]; }
      } else if (sc.strat == 2) n = best_prio();
      if (n != d) dlog.push_back({'S', (u32)cur->id, cur_points, n->id});
      switch_to(n);
      return;
    }
    u64 w = ~0ull;
    for (auto t : threads) if ((t->st == T_BLOCKED && t->wake_at) || t->st == T_STALLED) w = std::min(w, t->wake_at);
    if (w == ~0ull) { on_deadlock(); internal_error("on_deadlock returned"); }
    if (w > now_ns) now_ns = w;
    expire();
    if (cur->st == T_RUNNABLE && !pick_default()) return;
    if (cur->st == T_RUNNABLE) { // cur itself became runnable; pick fairly
      Thread *n = pick_default(); if (n == cur) return; switch_to(n); return;
    }
  }
}

void deliver_signals() {
  extern void run_signal_handler(int);
  while (cur->server && cur->pending_sig) { int s = cur->pending_sig; cur->pending_sig = 0; run_signal_handler(s); }
}

static void apply_deviation_gen(bool sync) {
  Thread *n = nullptr;
  if (sc.strat == 2) {
    if (srng.chance(sc.p_sync)) cur->prio = srng.below(1000);   // change point
    n = best_prio();
  } else {
    auto r = runnable(); n = r[srng.below(r.size())];
  }
  if (n && n != cur) { dlog.push_back({'S', (u32)cur->id, cur_points, n->id}); switch_to(n); }
}
static bool stall_here(i64 ns) {
  bool other = false; for (auto t : threads) if (t != cur && t->st == T_RUNNABLE) other = true;
  if (!other) { now_ns += ns; expire(); return true; }
  ++cur_points;
  cur->st = T_STALLED; cur->wake_at = now_ns + ns;
  reschedule();
  return true;
}
u64 points_now() { return total_base + cur_points - slice_start; }
void livelock() {
  violate("livelock", "livelock|" + sig_stack(cur, 3), fmt("no end of run after %llu scheduling points: a thread spins or the system never quiesces; current thread %s at %s",
    (unsigned long long)(total_base + cur_points - slice_start), cur->name.c_str(), backtrace_str(cur).c_str()));
}
Thread *no_sync_thread;   // inside a library that must not be interrupted
static int spin_quanta = 0;
// memory-access level event
void mem_slow() {
  u64 p = cur_points;
  if (total_base + (p - slice_start) >= POINT_LIMIT) livelock();
  if (replaying) {
    auto it = rsched.find({(u32)cur->id, p});
    if (it != rsched.end()) {
      for (auto &x : it->second) {
        if (x.t == 'S' && (size_t)x.c < threads.size() && threads[x.c]->st == T_RUNNABLE && threads[x.c] != cur) { dlog.push_back(x); switch_to(threads[x.c]); }
      }
    }
  } else if (p >= cur->next_ev) {
    cur->next_ev = sc.mem_mean > 0 ? p + 1 + srng.below((u64)(2 * sc.mem_mean)) : ~0ull;
    if (cur->server) apply_deviation_gen(false);
  }
  if (cur_points - slice_start >= QUANTUM) {
    now_ns += 1000; expire();
    if (sc.strat == 2 && !replaying) cur->prio = srng.below(1000);
    Thread *n = pick_default();
    if (!n || n == cur) { // this thread may be spinning on one that is stalled: let the shortest stall end
      u64 w = ~0ull; for (auto t : threads) if (t->st == T_STALLED) w = std::min(w, t->wake_at);
      if (w != ~0ull && ++spin_quanta >= 3) { spin_quanta = 0; if (w > now_ns) now_ns = w; expire(); n = pick_default(); }
    }
    if (n && n != cur) { spin_quanta = 0; switch_to(n); }
    else { total_base += cur_points - slice_start; slice_start = cur_points; }
  }
  recompute_next();
  if (cur->pending_sig && cur->server && no_sync_thread != cur) deliver_signals();   // it arrived while another thread ran
}
void sync_point(const char *what) {
  if (!in_sim || no_sync_thread == cur) return;
  ++cur_points; R->st.syncs++;
  now_ns += 200;
  expire();
  u64 p = cur_points;
  if (replaying) {
    auto it = rsched.find({(u32)cur->id, p});
    if (it != rsched.end()) {
      auto v = it->second;
      for (auto &x : v) {
        if (x.t == 'S' && (size_t)x.c < threads.size() && threads[x.c]->st == T_RUNNABLE && threads[x.c] != cur) { dlog.push_back(x); switch_to(threads[x.c]); }
        else if (x.t == 'P') { dlog.push_back(x); note_fault(F_STALL); stall_here(x.c); }
        else if (x.t == 'T') { dlog.push_back(x); note_fault(F_PAUSE); now_ns += x.c; expire(); }
      }
    }
  } else {
    if (faults_on && cur->server) {
      if (sc.p_stall > 0 && srng.chance(sc.p_stall)) {
        i64 ns = 1000 + srng.below(sc.stall_max_ns);
        dlog.push_back({'P', (u32)cur->id, p, ns}); note_fault(F_STALL); stall_here(ns);
      } else if (sc.f[F_PAUSE] > 0 && srng.chance(sc.f[F_PAUSE])) {
        i64 ns = 1000 + srng.below(sc.stall_max_ns);
        dlog.push_back({'T', (u32)cur->id, p, ns}); note_fault(F_PAUSE); now_ns += ns; expire();
      }
    }
    if (cur_points == p) {
      if (sc.strat == 1) { if (srng.chance(sc.p_sync)) apply_deviation_gen(true); }
      else if (sc.strat == 2) apply_deviation_gen(true);
    }
  }
  if (cur_points >= cur_next) mem_slow();
  deliver_signals();
}

Wake block(const void *obj, u64 deadline, const char *why, bool interruptible) {
  if (!in_sim) internal_error("block outside sim");
  if (cur->pending_sig && cur->server) { deliver_signals(); return interruptible ? WK_SIGNAL : WK_OK; }
  if (deadline && deadline <= now_ns) return WK_TIMEOUT;
  ++cur_points;
  cur->st = T_BLOCKED; cur->wait = obj; cur->wake_at = deadline; cur->why = why; cur->timedout = false; cur->interruptible = interruptible; cur->interrupted = false;
  reschedule();
  cur->wait = nullptr; cur->wake_at = 0; cur->st = T_RUNNABLE;
  if (cur_points >= cur_next) recompute_next();
  bool intr = cur->interrupted; cur->interrupted = false;
  bool to = cur->timedout; cur->timedout = false;
  deliver_signals();
  if (intr && interruptible) return WK_SIGNAL;
  if (to) return WK_TIMEOUT;
  return WK_OK;
}
void wake(const void *obj, int n) {
  for (auto t : threads) if (t->st == T_BLOCKED && t->wait == obj && n != 0) { t->st = T_RUNNABLE; t->timedout = false; if (n > 0) n--; }
}
void sim_thread_exit(void *ret) {
  cur->ret = ret; cur->st = T_DONE;
  wake(&cur->ret);
  trace("thread exit");
  ++cur_points;
  reschedule();
  internal_error("dead thread resumed");
}
void sim_post_signal(Thread *t, int sig) {
  if (t->pending_sig == SIGINT) return;
  t->pending_sig = sig;
  if (t->st == T_BLOCKED) { t->st = T_RUNNABLE; t->interrupted = true; t->timedout = false; }
}

i64 fault(FaultKind k, double p, i64 lo, i64 hi) {
  if (!in_sim || !cur->server) return 0;
  u64 idx = fcount[k]++;
  if (replaying) {
    auto it = rfault.find({(u32)k, idx});
    if (it == rfault.end()) return 0;
    dlog.push_back({'F', (u32)k, idx, it->second}); note_fault(k); if (trace_on) trace("FAULT %s %lld in %s", fault_names[k], (long long)it->second, backtrace_str(cur, 6, nullptr).c_str());
    return std::min(it->second, hi);
  }
  if (!faults_on || p <= 0 || sc.f_budget[k] <= 0 || !frng.chance(p)) return 0;
  if (hi < lo) return 0;
  sc.f_budget[k]--;
  i64 v = frng.range(lo, hi);
  dlog.push_back({'F', (u32)k, idx, v}); note_fault(k);
  trace("FAULT %s %lld", fault_names[k], (long long)v);
  return v;
}
u64 choose(int kind, u64 n, bool) {
  if (n <= 1) return 0;
  u64 idx = ccount[kind]++;
  if (replaying) { auto it = rchoice.find({(u32)kind, idx}); if (it == rchoice.end()) return 0; dlog.push_back({'C', (u32)kind, idx, it->second}); return (u64)it->second % n; }
  if (sc.strat == 0) return 0;
  u64 v = srng.below(n); if (v) dlog.push_back({'C', (u32)kind, idx, (i64)v});
  return v;
}
void note_fault(FaultKind k) { finj[k]++; }
u64 faults_injected(FaultKind k) { return finj[k]; }

// ---------------------------------------------------------------- symbols
struct Sym { u64 a, n; std::string s; };
static std::vector<Sym> syms;
static void load_elf(const char *path, u64 base) {
  int fd = open(path, O_RDONLY); if (fd < 0) return;
  off_t sz = lseek(fd, 0, SEEK_END);
  u8 *m = (u8 *)mmap(nullptr, sz, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  if (m == MAP_FAILED) return;
  Elf64_Ehdr *eh = (Elf64_Ehdr *)m; Elf64_Shdr *sh = (Elf64_Shdr *)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym *st = (Elf64_Sym *)(m + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *st;
    const char *str = (const char *)(m + sh[sh[i].sh_link].sh_offset);
    for (size_t j = 0; j < n; j++) if (ELF64_ST_TYPE(st[j].st_info) == STT_FUNC && st[j].st_value)
      syms.push_back({base + st[j].st_value, st[j].st_size, str + st[j].st_name});
  }
  munmap(m, sz);
}
void load_symbols() {
  syms.clear();
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) -> int {
    const char *n = i->dlpi_name;
    if (!n || !*n) load_elf("/proc/self/exe", i->dlpi_addr);
    else if (strstr(n, "/verif") || strstr(n, ".so") ) { if (!strstr(n, "/lib/x86_64") && !strstr(n, "vdso") && !strstr(n, "/lib64")) load_elf(n, i->dlpi_addr); }
    return 0; }, nullptr);
  std::sort(syms.begin(), syms.end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
}
std::string sym(void *pc) {
  u64 a = (u64)pc; if (!a) return "?";
  a -= 1;
  auto it = std::upper_bound(syms.begin(), syms.end(), a, [](u64 v, const Sym &s) { return v < s.a; });
  if (it == syms.begin()) return "?";
  --it; if (a >= it->a + (it->n ? it->n : 1)) return "?";
  std::string s = it->s; 
  size_t p;
  for (const char *suf : {".constprop", ".isra", ".part", ".cold", ".lto_priv"}) if ((p = s.find(suf)) != std::string::npos) s = s.substr(0, p);
  return s;
}
// stack of function names (innermost first): the function containing pc, then callers
static std::vector<std::string> names(Thread *t, void *pc) {
  std::vector<std::string> v;
  if (pc) v.push_back(sym(pc));
  for (int i = t->fdepth - 1; i >= 0; i--) { if (i < 1024) v.push_back(sym((void *)t->fstack[i])); }
  return v;
}
std::string backtrace_str(Thread *t, int max, void *pc) {
  std::string s; int n = 0;
  for (auto &x : names(t, pc)) { if (x == "?" || x.compare(0, 4, "_ZNS") == 0) continue; if (n++ >= max) break; s += (s.empty() ? "" : " < ") + x; }
  return s;
}
std::string sig_stack(Thread *t, int max, void *pc) {
  std::string s; int n = 0;
  for (auto &x : names(t, pc)) { if (x == "?" || x.compare(0, 4, "sim_") == 0 || x.compare(0, 4, "_ZNS") == 0) continue; if (n++ >= max) break; s += (s.empty() ? "" : "<") + x; }
  return s;
}
std::string thread_dump() {
  std::string s = "threads:\n";
  for (auto t : threads) {
    if (t->st == T_DONE) continue;
    const char *st = t->st == T_RUNNABLE ? (t == cur ? "running" : "runnable") : t->st == T_STALLED ? "stalled" : "blocked";
    s += fmt("  %d %s %s%s%s", t->id, t->name.c_str(), st, t->st == T_BLOCKED ? " in " : "", t->st == T_BLOCKED ? t->why : "");
    if (t->wake_at) s += fmt(" until +%.3fms", (double)((i64)t->wake_at - (i64)now_ns) / 1e6);
    if (t->server) s += " : " + backtrace_str(t, 6);
    s += "\n";
  }
  return s;
}
extern "C" {
void __tsan_func_entry(void *pc) { if (cur && in_sim) { Thread *t = cur; if (t->fdepth < 1024) t->fstack[t->fdepth] = (u64)pc; t->fdepth++; } }
void __tsan_func_exit() { if (cur && in_sim && cur->fdepth > 0) cur->fdepth--; }
void __tsan_init() {}
// line coverage of the code under test (only in builds made with WSS_COV=1)
u64 *cov_tab = nullptr;
void __sanitizer_cov_trace_pc() {
  if (!cov_tab) return;
  u64 pc = (u64)__builtin_return_address(0); unsigned h = (unsigned)((pc * 0x9E3779B97F4A7C15ull) >> 47);
  for (unsigned i = 0; i < 64; i++, h = (h + 1) & 0x1ffff) { if (cov_tab[h] == pc) return; if (!cov_tab[h]) { cov_tab[h] = pc; return; } }
}
}
extern "C" void sim_yield_other() {
  Thread *d = pick_default();
  if (d && d != cur) { ++cur_points; switch_to(d); }
}
