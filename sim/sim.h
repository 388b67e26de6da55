// Deterministic simulator for the WebSocket server: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <functional>
#include <set>
#include <unordered_map>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- results
enum FaultKind {
  F_READ_SHORT, F_READ_EINTR, F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_EAGAIN, F_ACCEPT_EINTR,
  F_ACCEPT_ABORT, F_ACCEPT_EMFILE, F_EPOLL_EINTR, F_POLL_EINTR, F_COND_SPURIOUS, F_MALLOC,
  F_STALL, F_PAUSE, F_SLEEP_EINTR, F_PIPE_FAIL, F_THREAD_FAIL, F_SOCKET_FAIL, F_EPOLLCTL_FAIL, F_FOPEN_FAIL, F_CLOCK_JUMP, F_READ_FAIL, F_WRITE_FAIL, F_FCNTL_FAIL, F_BIND_FAIL, F_LISTEN_FAIL, F_RLIMIT_FAIL, F_LOCKINIT_FAIL, F_SIGACTION_FAIL, F_SOCKOPT_FAIL, F_SPURIOUS_READY, F_FILE_FAIL,
  // injected by the simulated peers / director
  F_PEER_RST, F_PEER_FIN, F_PEER_STALL, F_PEER_SEGMENT, F_PEER_SLOW, F_PEER_ABANDON, F_SIGNAL, F_SMALL_SNDBUF,
  F_NKINDS
};
extern const char *fault_names[F_NKINDS];

struct Stats {
  u64 points, syncs, switches, deviations, vtime_ns, threads, conns, msgs_sent, msgs_recv, frames_recv, bytes_c2s, bytes_s2c;
  u64 faults[F_NKINDS];
  u64 ihash;      // interleaving hash (sequence of context switches at sync granularity)
  u64 ahash;      // action hash (everything observable)
  u64 evals;      // oracle evaluations
  u64 nontrivial;
};
struct Result {          // lives in shared memory; written by the child
  int status;            // 0 not finished, 1 ok, 2 violation, 3 internal error / resource
  char cls[48];
  char sig[400];
  char msg[4000];
  char trace[16000];
  Stats st;
  u32 dlog_len;          // decision log bytes, follow in dlog
  u32 scen_len;
};
extern Result *R;

[[noreturn]] void violate(const char *cls, const std::string &sig, const std::string &msg);
[[noreturn]] void internal_error(const std::string &msg);
u64 points_now();
[[noreturn]] void run_done();
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- scheduler
enum TState { T_RUNNABLE, T_BLOCKED, T_STALLED, T_DONE };
struct Thread {
  int id; std::string name; bool server;       // server = runs code under test
  void *sp = nullptr; void *stack = nullptr; size_t stack_sz = 0;
  TState st = T_RUNNABLE; const void *wait = nullptr; u64 wake_at = 0; const char *why = "";
  bool timedout = false; bool interruptible = false; int pending_sig = 0; u64 in_sig = 0; bool interrupted = false;
  u64 points = 0; u64 next_ev = 0; int saved_errno = 0; u64 prio = 0;
  void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
  std::function<void()> cfn; bool detached = false; bool joined = false;
  u64 *fstack = nullptr; int fdepth = 0; bool cond_signaled = false; void *cv = nullptr;
  std::map<u32, void *> tls;
  u64 ident = 0;                                // what the thread pointer is to real code: used again by a later thread
};
extern Thread *cur;
extern std::vector<Thread *> threads;
extern u64 now_ns;
extern bool in_sim;
enum Wake { WK_OK, WK_TIMEOUT, WK_SIGNAL };
Thread *spawn(const std::string &name, bool server, size_t stack, std::function<void()> f);
Wake block(const void *obj, u64 deadline, const char *why, bool interruptible = false);
void wake(const void *obj, int n = -1);
void sync_point(const char *what = "");
void deliver_signals();
extern bool trace_on;
std::string hexs(const std::string &, size_t max = 24);
void trace(const char *f, ...) __attribute__((format(printf, 1, 2)));
i64 fault(FaultKind k, double p, i64 lo = 1, i64 hi = 1);  // 0 = no fault, else param
u64 choose(int kind, u64 n, bool natural0 = true);             // environment choice among n (0 default)
void note_fault(FaultKind k);
u64 faults_injected(FaultKind k);
void mix(u64 v);                                              // into action hash
std::string thread_dump();
std::string backtrace_str(Thread *t, int max = 8, void *pc = nullptr);
std::string sig_stack(Thread *t, int max, void *pc = nullptr);
std::string sym(void *pc);
void load_symbols();

struct SchedCfg {
  int strat = 0;            // 0 default only, 1 random walk, 2 pct
  double p_sync = 0; double mem_mean = 0; int pct_d = 0; double p_stall = 0; u64 stall_max_ns = 0;
  double p_block_random = 1;
  double f[F_NKINDS] = {0};
  int f_budget[F_NKINDS];   // max number of injections
  SchedCfg() { for (auto &b : f_budget) b = 1 << 30; }
};
extern SchedCfg sc;
extern bool replaying;
extern bool faults_on;
struct Dec { char t; u32 a; u64 b; i64 c; };
extern std::vector<Dec> dlog;
void sched_init(u64 seed);
void load_decisions(const std::vector<Dec> &d);

// ---------------------------------------------------------------- memory
void mem_init();
void *heap_alloc(size_t n, bool zero, size_t align = 16, bool may_fail = true);
void heap_free(void *p, const char *what = "free");
void *heap_realloc(void *p, size_t n);
size_t heap_size(void *p);
void mem_check(const void *p, size_t n, bool write, void *pc);
struct HeapSnap { u64 count, bytes; };
HeapSnap heap_live();
std::string heap_live_report(u64 since_seq, int max);
u64 heap_seq();
u64 heap_live_since(u64 since_seq, std::string *sites);
void *token_new();

// ---------------------------------------------------------------- network
struct Conn {
  int id; int fd = -1;           // server side fd
  int port = 0;
  std::deque<u8> in;             // client -> server bytes not yet read
  bool in_eof = false, rst = false, client_gone = false;
  std::deque<u8> out;            // server -> client bytes not yet read by client
  size_t sndcap = 65536; bool nospace = false;
  bool srv_closed = false, srv_shut_wr = false;
  bool accepted = false, refused = false;
  u64 total_in = 0, total_out = 0;
  u64 close_time = 0, read_time = 0, recv_time = 0;
  u64 bytes_read = 0;
  bool faulted = false;          // a system call made for this connection was made to fail for good
};
Conn *net_connect(int port, size_t sndcap);     // client side; returns nullptr if refused
void net_client_send(Conn *c, const u8 *p, size_t n);
void net_client_shutdown(Conn *c);              // FIN
void net_client_close(Conn *c);                 // close both directions, FIN
void net_client_reset(Conn *c);                 // RST
size_t net_client_recv(Conn *c, u8 *p, size_t n);
int net_open_fds();
std::string net_open_report();
bool net_listening(int port);
void net_init();
void net_signal(int sig);
int net_fd_of(Conn *c);
Conn *net_conn_by_fd(int fd);

// virtual files
void vfs_put(const std::string &path, const std::string &content);
