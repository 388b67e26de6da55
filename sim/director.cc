// The simulated world: starts the real server inside the simulator, drives clients, checks end-of-run
// invariants; plus the process-level driver (batch of forked runs, replay of one run).
#include "client.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <ucontext.h>

std::string plugin_dir, cert_dir, build_dir; 
#define VDIR "/srv/wssim/b0"
std::string real_path(const char *p) { if (!strncmp(p, "subprotocols/", 13)) return build_dir + "/plugins" + strrchr(p, '/'); return !strncmp(p, VDIR "/", sizeof VDIR) ? build_dir + (p + sizeof VDIR - 1) : std::string(p); }
static std::map<void *, std::pair<std::string, int>> handles;   // plugins the server has loaded
extern "C" void *sim_dlopen(const char *p, int f) { void *h = dlopen(p ? real_path(p).c_str() : p, f); if (h && p) { const char *b = strrchr(p, '/'); std::string n = b ? b + 1 : p; auto &x = handles[h]; x.first = n.substr(0, n.find('.')); x.second++; } return h; }
extern "C" int sim_dlclose(void *h) { auto it = handles.find(h); if (it == handles.end() || !it->second.second) violate("memory", "memory|dlclose", "a shared object is closed that is not open (" + backtrace_str(cur) + ")"); it->second.second--; return 0; }
bool plugin_open(const std::string &n) { for (auto &x : handles) if (x.second.first == n && x.second.second) return true; return false; }
void tls_preinit(); void tls_seed(u64);
extern bool trace_on; extern u8 *shared_dlog; extern size_t shared_dlog_cap; extern u64 POINT_LIMIT;
std::string heap_first_site_since(u64 since);
extern "C" int wss_main(int, char **);
u64 heap_live_since(u64 since_seq, std::string *sites);
void probe_final();
bool net_has_handler(int s);

static bool server_idle() {
  for (auto t : threads) if (t->server && t->st != T_DONE && (t->st != T_BLOCKED || !strcmp(t->why, "nanosleep") || !strcmp(t->why, "mutex_lock"))) return false;
  return true;
}
static bool server_ready() {   // main waits for its threads, which wait for work
  bool main_joins = false, poll = false;
  for (auto t : threads) if (t->server) { if (t->name == "main") main_joins = t->st == T_BLOCKED && !strcmp(t->why, "pthread_join"); if (t->name.compare(0, 11, "WSS_cleanup") == 0) poll = true; }
  return main_joins && poll && server_idle();
}
void on_deadlock() { violate("deadlock", "deadlock|" + [] { std::string s; for (auto t : threads) if (t->server && t->st == T_BLOCKED) { std::string x = sig_stack(t, 1); if (strcmp(t->why, "epoll_wait") && strcmp(t->why, "poll")) s += x + ":" + t->why + " "; } return s; }(), "no thread can run and no timer is pending"); }

extern bool net_timewait;
#ifdef SIM_NO_TLS
static const bool tls_built = false;   // the code under test was built without OpenSSL
#else
static const bool tls_built = true;
#endif
static int main_rc = -1000; static Thread *main_thread;
static void sleep_ms(u64 ms) { static char o; block(&o, now_ns + ms * 1000000ull, "director"); }
static void sleep_us(u64 us) { static char o; block(&o, now_ns + us * 1000ull, "director"); }

static bool may_fail = false;   // main may return a failure
static void check_stopped(const char *when) {
  u64 dl = now_ns + W.patience;
  while (main_thread->st != T_DONE && now_ns < dl) { sleep_us(200); }
  if (main_thread->st != T_DONE) {
    std::string where; for (auto t : threads) if (t->server && t->st == T_BLOCKED && t != main_thread && strcmp(t->why, "epoll_wait")) { where = sig_stack(t, 2) + ":" + t->why; break; }
    violate("shutdown", "shutdown|hang|" + sig_stack(main_thread, 2) + "|" + where, fmt("server did not stop within %llu simulated seconds of the signal (%s)", (unsigned long long)(W.patience / 1000000000ull), when));
  }
  W.halted = true; R->st.evals++; R->st.nontrivial++;
  if (main_rc != 0 && !W.lenient && !may_fail) violate("shutdown", fmt("shutdown|exit-code-%d", main_rc), fmt("server main returned %d after a requested stop (%s)", main_rc, when));
  for (auto t : threads) if (t->server && t->st != T_DONE) violate("shutdown", "shutdown|thread-left|" + t->name.substr(0, t->name.find('/')), "server main returned while thread " + t->name + " still runs");
  if (net_open_fds() && !W.lenient) violate("shutdown", "shutdown|fd-leak", "descriptors left open after the server stopped: " + net_open_report());
  for (auto &x : handles) if (x.second.second && !W.lenient) violate("shutdown", "shutdown|plugin-left", x.second.first + " is still loaded after the server stopped");
  std::string sites; u64 n = heap_live_since(0, &sites);
  if (n && !W.lenient) violate("shutdown", "shutdown|heap-leak|" + heap_first_site_since(0), fmt("%llu heap blocks never freed after the server stopped: %s", (unsigned long long)n, sites.c_str()));
}

static void apply_sched(const KV &s) {
  sc.strat = s.i("strat", 0); sc.p_sync = s.f("ps", 0); sc.mem_mean = s.f("mem", 0); sc.p_block_random = s.f("pb", 1); sc.p_stall = s.f("stall", 0); sc.stall_max_ns = s.i("stallmax", 100000) + 1; { extern i64 sim_mono_offset; sim_mono_offset = s.i("uptime", 1000000000) * 1000 - (i64)now_ns; }   // the monotonic clock when the run starts
  { void net_environment(int fd0, u64 salt); net_environment(s.i("fd0", 20), s.i("seed", 0)); }
  for (int i = 0; i < F_NKINDS; i++) { sc.f[i] = s.f(std::string("f.") + fault_names[i], 0); if (s.has(std::string("b.") + fault_names[i])) sc.f_budget[i] = s.i(std::string("b.") + fault_names[i]); }
}

[[noreturn]] static void run_world(const Scenario &s) {
  bool startfaults = s.sched.i("startfaults", 0), startup = s.cfg.i("startup", 0);
  W.cfg = s.cfg; W.ph = s.cfg.i("ph", 9080); W.phs = s.cfg.i("phs", 9443); W.tagged = s.cfg.i("tagged", 0); W.ext = s.cfg.i("ext", 0); W.favicon = s.cfg.i("favicon", 0); W.has_hosts = s.cfg.s("hosts").size(); W.has_paths = s.cfg.s("paths").size(); W.has_origins = s.cfg.s("origins").size();
  W.cut_ok = s.cfg.i("tclient", -1) >= 0 || s.cfg.i("tread", -1) >= 0 || s.cfg.i("twrite", -1) >= 0; W.lenient = s.cfg.i("lenient", 0); W.soft = W.lenient && !s.cfg.i("hard", 0); W.lossy = s.cfg.i("lossy", 0); W.size_frame = s.cfg.i("frame", 1 << 19); W.max_frames = s.cfg.i("fragmented", 1024); W.size_uri = s.cfg.i("uri", 1024); W.size_header = s.cfg.i("header", 2048); W.size_payload = s.cfg.i("payload", 1 << 20); W.tclient = s.cfg.i("tclient", -1); W.pings = s.cfg.i("pings", 0); W.tread = s.cfg.i("tread", -1); W.twrite = s.cfg.i("twrite", -1);
  if (s.cfg.has("patience")) W.patience = s.cfg.i("patience") * 1000000000ull;
  if (s.cfg.i("bad", 0) != 18) vfs_put("/sim/config.json", config_json(s)); vfs_put("/sim/favicon.ico", gen_payload(42, 318, false, 0)); vfs_put("log/WSServer.log", "");
  for (auto &c : s.clients) { Client *k = new Client; k->id = W.clients.size(); k->spec = c; W.clients.push_back(k); }
  for (auto k : W.clients) { std::set<i64> seen; for (auto &o : k->spec.ops) if (o.kind == "barrier" && seen.insert(o.kv.i("n", 0)).second) W.bar_need[o.kv.i("n", 0)]++; }
  faults_on = startfaults; net_timewait = s.cfg.i("timewait", 0);
  main_thread = spawn("main", true, 8u << 20, [] { static char a0[] = "wss", a1[] = "-c", a2[] = "/sim/config.json", a3[] = "--config"; static char *av[] = {a0, W.cfg.i("longopt", 0) ? a3 : a1, a2, nullptr}, *an[] = {a0, nullptr}; optind = 1; main_rc = W.cfg.i("noconf", 0) ? wss_main(1, an) : wss_main(3, av); trace("main returns %d", main_rc); });
  // director operations that act before start-up completes
  if (s.cfg.i("sighup", 0)) spawn("noise", false, 65536, [&s] { while (main_thread->st != T_DONE && !net_has_handler(SIGPIPE)) sleep_us(3); Rng r(s.cfg.i("sigseed", 1)); for (i64 i = s.cfg.i("sighup", 0); i > 0; i--) { sleep_us(r.below(s.cfg.i("sigspan", 1000) + 1)); if (main_thread->st == T_DONE) break; net_signal(r.chance(0.5) ? SIGHUP : SIGPIPE); } });
  bool halted = false; u64 halt_at = ~0ull; int sigs = 0;
  for (auto &d : s.dir) if (d.kind == "sigint") { halt_at = d.kv.i("at", 0); }
  u64 t0 = now_ns; bool early = false;
  for (auto &d : s.dir) if (d.kind == "sigint" && d.kv.i("early", 0)) early = true;
  auto failed_start = [&] { may_fail = true; check_stopped("start-up failed"); if (main_rc == 0) violate("startup", "startup|success-reported", "server main returned success although it stopped by itself during start-up"); u64 why = s.cfg.i("bad", 0) || s.cfg.i("badplug", 0) || (!tls_built && s.cfg.i("ssl", 0)); for (int k : {F_MALLOC, F_PIPE_FAIL, F_THREAD_FAIL, F_SOCKET_FAIL, F_EPOLLCTL_FAIL, F_FOPEN_FAIL, F_FILE_FAIL, F_READ_FAIL, F_FCNTL_FAIL, F_BIND_FAIL, F_LISTEN_FAIL, F_RLIMIT_FAIL, F_LOCKINIT_FAIL, F_SIGACTION_FAIL, F_SOCKOPT_FAIL}) why += faults_injected((FaultKind)k); if (!why) violate("startup", "startup|failed-without-reason", fmt("start-up failed (server main returned %d) although the configuration is sound and no call failed", main_rc)); R->st.nontrivial++; run_done(); };
  // signals that change nothing: those the server ignores, and further requests to stop while it stops
  auto noise = [&](const char *what, std::vector<int> v, i64 n) { u64 seed = s.cfg.i("sigseed", 1) * 31 + v[0]; i64 span = s.cfg.i("sigspan", 1000); spawn(what, false, 65536, [v, n, seed, span] { Rng r(seed); for (i64 i = 0; i < n; i++) { sleep_us(r.below(span + 1)); int sg = v[r.below(v.size())]; if (main_thread->st == T_DONE) break; if (net_has_handler(sg)) net_signal(sg); } }); };
  auto stop_now = [&](const char *why) { W.halting = true; faults_on = false; net_signal(SIGINT); sigs++; if (s.cfg.i("sigint", 0)) noise("impatience", {SIGINT}, s.cfg.i("sigint", 0)); check_stopped(why); halted = true; };
  if (early) {
    while (!net_has_handler(SIGINT) && main_thread->st != T_DONE) sleep_us(1);
    if (startup) may_fail = true;
    if (main_thread->st == T_DONE) { check_stopped("start-up failed"); run_done(); }
    if (halt_at) sleep_us(halt_at);
    if (main_thread->st != T_DONE) stop_now("early");
    run_done();
  }
  while (!net_listening(W.ph) && main_thread->st != T_DONE && now_ns < t0 + W.patience) sleep_us(50);
  if (main_thread->st == T_DONE) { if (startup) failed_start(); if (W.lenient) { check_stopped("start-up failed"); run_done(); } violate("startup", "startup|returned", fmt("server main returned %d during start-up", main_rc)); }
  if (!net_listening(W.ph)) violate("startup", "startup|stuck", "server never listens");
  if (s.cfg.i("ssl", 0)) while (!net_listening(W.phs) && main_thread->st != T_DONE && now_ns < t0 + W.patience) sleep_us(50);
  // start-up is over when every server thread waits for work
  for (int i = 0; i < 2000 && !server_idle(); i++) sleep_us(100);
  if (startup) { u64 dl = now_ns + W.patience; while (main_thread->st != T_DONE && !server_ready() && now_ns < dl) sleep_us(200); if (main_thread->st == T_DONE) failed_start(); if (!server_ready()) violate("startup", "startup|half-started", "the server neither runs completely nor has given up: " + thread_dump()); for (auto &f : sc.f) f = 0; faults_on = false; }
  if (s.cfg.i("bad", 0)) violate("startup", "startup|malformed-accepted", "the server serves although its configuration is malformed");
  u64 base_seq = heap_seq(); int base_fds = net_open_fds();
  faults_on = true; t0 = now_ns;
  for (auto k : W.clients) spawn(fmt("client%d", k->id), false, 1 << 18, [k]() { k->run(); });
  auto alldone = [&] { for (auto k : W.clients) if (!k->done) return false; return true; };
  u64 hard = now_ns + 4000ull * 1000000000ull;
  while (!alldone()) {
    u64 dl = std::min<u64>(hard, now_ns + 1000000000ull); if (halt_at != ~0ull && !halted) dl = std::min<u64>(dl, t0 + halt_at * 1000);
    if (!halted && halt_at != ~0ull && now_ns >= t0 + halt_at * 1000) { stop_now("clients active"); continue; }
    block(&W, dl, "director");
    if (now_ns >= hard) violate("stuck", "stuck|run", "clients never finished");
    if (main_thread->st == T_DONE && !W.halting) violate("shutdown", "shutdown|unexpected-exit", fmt("server main returned %d on its own", main_rc));
  }
  if (halted) { probe_final(); xt_final(); run_done(); }
  faults_on = false;
  // quiescence: everything a departed client used is reclaimed
  if (s.cfg.i("leak", 1)) {
    bool noheap = W.lenient && !s.cfg.i("leakheap", 0);
    u64 dl = now_ns + s.cfg.i("settle", 5) * 1000000000ull; bool clean = false;
    while (now_ns < dl) { if (server_idle() && net_open_fds() == base_fds && (noheap || heap_live_since(base_seq, nullptr) == 0)) { clean = true; break; } sleep_us(500); }
    R->st.evals++;
    if (!clean) {
      std::string sites; u64 n = heap_live_since(base_seq, &sites);
      if (!server_idle()) { std::string w; for (auto t : threads) if (t->server && t->st != T_DONE && (t->st != T_BLOCKED || !strcmp(t->why, "nanosleep") || !strcmp(t->why, "mutex_lock"))) { w = sig_stack(t, 2); break; } violate("livelock", "livelock|not-idle|" + w, "server threads still busy although every client has gone"); }
      if (net_open_fds() != base_fds) violate("reclaim", "reclaim|fd", fmt("%d descriptors before the clients, %d after they have all gone: %s", base_fds, net_open_fds(), net_open_report().c_str()));
      if (n && !noheap) violate("reclaim", "reclaim|heap|" + heap_first_site_since(base_seq), fmt("%llu heap blocks allocated for departed clients are still held: %s", (unsigned long long)n, sites.c_str()));
    }
    if (xt_used() && !W.lenient && xt_open()) violate("extension", "extension|left-open", fmt("%d extensions are still open although every client has gone", xt_open()));
  }
  // the server still serves a newcomer
  if (s.cfg.i("newcomer", 1)) {
    Client *k = new Client; k->id = W.clients.size(); k->spec.id = k->id; k->spec.kv.m["sub"] = s.cfg.s("newsub", "echo");
    if (s.cfg.has("neworigin")) k->spec.kv.m["origin"] = s.cfg.s("neworigin"); if (s.cfg.has("newhost")) k->spec.kv.m["host"] = s.cfg.s("newhost"); if (s.cfg.has("newpath")) k->spec.kv.m["path"] = s.cfg.s("newpath");
    bool lo = W.lossy, le = W.lenient, so = W.soft; W.lenient = W.soft = false; W.lossy = false;
    OpSpec m; m.kind = "msg"; m.kv.m["len"] = fmt("%lld", (long long)std::min<i64>(11, W.size_frame)); OpSpec w; w.kind = "waitall"; OpSpec p; p.kind = "ping"; p.kv.m["len"] = fmt("%lld", (long long)std::min<i64>(4, W.size_frame)); OpSpec c; c.kind = "close"; k->spec.ops = {m, p, w, c};
    W.clients.push_back(k);
    spawn("newcomer", false, 1 << 18, [k]() { k->run(); });
    while (!k->done) sleep_ms(1);
    W.lenient = le; W.soft = so; W.lossy = lo;
    // and its resources are reclaimed as well before the stop
    u64 dl = now_ns + 5000000000ull; while (now_ns < dl && !(server_idle() && net_open_fds() <= base_fds)) sleep_us(500);
  }
  stop_now("idle");
  probe_final(); xt_final();
  run_done();
}

// ---------------------------------------------------------------- component scenarios (see comp.cc)
void run_component(const std::string &, const Scenario &);

static void segv(int sig, siginfo_t *si, void *uc) {
  void *pc = nullptr;
#if defined(__x86_64__)
  pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  if (!in_sim || !cur) { fprintf(stderr, "simulator crash sig %d addr %p pc %p (%s)\n", sig, si->si_addr, pc, sym(pc).c_str()); _exit(9); }
  std::string kind = sig == SIGSEGV || sig == SIGBUS ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGABRT ? "abort" : "ill";
  char *g = (char *)cur->stack; if (g && (char *)si->si_addr >= g && (char *)si->si_addr < g + 65536) kind = "stack-overflow";
  if (!cur->server) internal_error(fmt("crash in simulator thread %s: sig %d addr %p pc %s", cur->name.c_str(), sig, si->si_addr, sym(pc).c_str()));
  violate("memory", "memory|" + kind + "|" + sig_stack(cur, 2), fmt("%s at address %p in %s (pc in %s)", kind.c_str(), si->si_addr, backtrace_str(cur).c_str(), sym(pc).c_str()));
}
static void watchdog(int, siginfo_t *, void *) { // CPU time passes but no scheduling point: a loop that touches nothing shared
  static u64 last = ~0ull; u64 p = points_now();
  if (p != last || !in_sim) { last = p; return; }
  if (!cur || !cur->server) internal_error("simulator thread does not make progress");
  violate("livelock", "livelock|hang|" + sig_stack(cur, 2), "a thread runs without end and without touching shared memory in " + backtrace_str(cur));
}
static void child_run(const std::string &scen, const std::vector<Dec> *decs, u64 seed) {
  stack_t ss; ss.ss_sp = malloc(1 << 17); ss.ss_size = 1 << 17; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = watchdog; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sa, nullptr); struct itimerval it = {{5, 0}, {5, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
  Scenario s = parse_scenario(scen);
  apply_sched(s.sched);
  if (s.sched.has("points")) POINT_LIMIT = s.sched.i("points");
  if (decs) { replaying = true; load_decisions(*decs); }
  sched_init(s.sched.i("seed", seed)); tls_seed(s.sched.i("seed", seed));
  net_init();
  std::string comp = s.cfg.s("component", "");
  if (comp.size()) { run_component(comp, s); run_done(); }
  run_world(s);
}

static Result *RR;
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static bool run_one(const std::string &scen, const std::vector<Dec> *decs, u64 seed, std::string *err) {
  memset((void *)RR, 0, offsetof(Result, trace)); RR->trace[0] = 0; memset(&RR->st, 0, sizeof RR->st); RR->dlog_len = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { R = RR; child_run(scen, decs, seed); _exit(8); }
  double dl = wall() + 60; int st = 0; int us = 20;
  for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (wall() > dl) { kill(p, SIGKILL); waitpid(p, &st, 0); *err = "wall timeout"; return false; } usleep(us); if (us < 400) us += 20; }
  if (RR->status == 0) { *err = fmt("child ended without a result, status %x", st); return false; }
  return true;
}
static std::string jesc(const std::string &s) { std::string o; for (u8 c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o; }
static std::string stats_json(const Stats &s) {
  std::string o = fmt("{\"points\":%llu,\"syncs\":%llu,\"switches\":%llu,\"deviations\":%llu,\"vtime_ns\":%llu,\"threads\":%llu,\"conns\":%llu,\"msgs_sent\":%llu,\"msgs_recv\":%llu,\"frames_recv\":%llu,\"bytes_c2s\":%llu,\"bytes_s2c\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"ihash\":\"%016llx\",\"ahash\":\"%016llx\",\"faults\":{",
    (unsigned long long)s.points, (unsigned long long)s.syncs, (unsigned long long)s.switches, (unsigned long long)s.deviations, (unsigned long long)s.vtime_ns, (unsigned long long)s.threads, (unsigned long long)s.conns, (unsigned long long)s.msgs_sent, (unsigned long long)s.msgs_recv, (unsigned long long)s.frames_recv, (unsigned long long)s.bytes_c2s, (unsigned long long)s.bytes_s2c, (unsigned long long)s.evals, (unsigned long long)s.nontrivial, (unsigned long long)s.ihash, (unsigned long long)s.ahash);
  bool f = true; for (int i = 0; i < F_NKINDS; i++) if (s.faults[i]) { o += fmt("%s\"%s\":%llu", f ? "" : ",", fault_names[i], (unsigned long long)s.faults[i]); f = false; }
  return o + "}}";
}
extern "C" { extern u64 *cov_tab; }
static std::string replay_text(const std::string &scen, u64 seed, const std::string &profile) {
  std::string o = "# replay file for wssim; profile " + profile + fmt(" seed %llu\n", (unsigned long long)seed) + scen;
  o += "--- decisions\n" + std::string((char *)shared_dlog, RR->dlog_len);
  return o;
}
static std::string result_json(u64 seed) {
  return fmt("{\"seed\":%llu,\"status\":%d,\"cls\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"stats\":", (unsigned long long)seed, RR->status, jesc(RR->cls).c_str(), jesc(RR->sig).c_str(), jesc(std::string(RR->msg)).substr(0, 3800).c_str()) + stats_json(RR->st) + "}";
}
static std::string seeded_scenario(const std::string &profile, u64 seed) { std::string scen = gen_scenario(profile, seed); size_t q = scen.find("\nsched"); if (q != std::string::npos) scen.insert(q + 6, fmt(" seed=%llu", (unsigned long long)seed)); return scen; }
static void preload_plugins() {
  for (const char *n : {"echo", "broadcast", "permessage-deflate", "probe", "push", "xa", "xb", "s_setAllocators", "s_onInit", "s_onConnect", "s_onMessage", "s_onWrite", "s_onClose", "s_onDestroy", "x_setAllocators", "x_onInit", "x_onOpen", "x_inFrame", "x_inFrames", "x_outFrame", "x_outFrames", "x_onClose", "x_onDestroy"}) { std::string p = build_dir + "/plugins/" + n + ".so"; void *h = dlopen(p.c_str(), RTLD_LAZY); if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); exit(3); } }
}
int main(int argc, char **argv) {
  // wssim batch PROFILE SEED0 STRIDE N SECONDS OUTDIR MAXVIOL | run FILE [SEED] | gen PROFILE SEED
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0; std::string dir = exe; dir = dir.substr(0, dir.rfind('/'));
  if (!getenv("WSSIM_ASLR_OFF")) { setenv("WSSIM_ASLR_OFF", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv(exe, argv); }
  build_dir = dir; plugin_dir = VDIR "/plugins"; cert_dir = VDIR "/certs";  // the code under test sees paths that do not depend on where the build is
  setenv("TZ", "UTC", 1);
  if (argc < 3) { fprintf(stderr, "usage\n"); return 3; }
  std::string mode = argv[1];
  RR = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shared_dlog_cap = 8u << 20; shared_dlog = (u8 *)mmap(nullptr, shared_dlog_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static Result local; R = &local;
  if (mode == "gen") { u64 seed = strtoull(argv[3], 0, 0); printf("%s", seeded_scenario(argv[2], seed).c_str()); return 0; }
  if (mode == "conf") { std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); printf("%s\n", config_json(parse_scenario(b.str())).c_str()); return 0; }   // show the configuration file of a scenario
  preload_plugins(); tls_preinit(); mem_init(); load_symbols();
  std::string err;
  if (mode == "run") {
    std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); std::string t = b.str(), scen = t; std::vector<Dec> d; bool rep = false;
    size_t p = t.find("--- decisions\n");
    if (p != std::string::npos) { rep = true; scen = t.substr(0, p); std::istringstream is(t.substr(p + 14)); std::string l; while (std::getline(is, l)) { char k; unsigned a; unsigned long long bb; long long c; if (sscanf(l.c_str(), "%c %u %llu %lld", &k, &a, &bb, &c) == 4) d.push_back({k, a, bb, c}); } }
    trace_on = true; if (getenv("SIM_NOTRACE")) trace_on = false;
    if (!run_one(scen, rep ? &d : nullptr, argc > 3 ? strtoull(argv[3], 0, 0) : 1, &err)) { printf("{\"status\":4,\"cls\":\"driver\",\"sig\":\"%s\",\"msg\":\"%s\"}\n", jesc(err).c_str(), jesc(err).c_str()); return 3; }
    printf("%s\n", result_json(0).c_str());
    if (RR->status == 2 && !getenv("SIM_QUIET")) { printf("--- message\n%s\n--- trace (end)\n%s", RR->msg, RR->trace); }
    if (getenv("SIM_SAVE")) { std::ofstream o(getenv("SIM_SAVE")); o << replay_text(scen, 0, "-"); }
    return RR->status == 1 ? 0 : RR->status == 2 ? 1 : 3;
  }
  const char *covf = getenv("WSSIM_COV");
  if (covf) cov_tab = (u64 *)mmap(nullptr, 8u << 17, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct CovDump { const char *f; ~CovDump() { if (!f) return; std::ofstream o(f, std::ios::app); for (unsigned i = 0; i < 1u << 17; i++) if (cov_tab[i]) { Dl_info d; if (dladdr((void *)cov_tab[i], &d)) o << d.dli_fname << ' ' << fmt("0x%llx\n", (unsigned long long)(cov_tab[i] - (u64)d.dli_fbase - 1)); } } } cov_dump{covf};
  if (mode == "batch") {
    std::string profile = argv[2]; u64 s0 = strtoull(argv[3], 0, 0), stride = strtoull(argv[4], 0, 0), N = strtoull(argv[5], 0, 0); double secs = atof(argv[6]); std::string out = argv[7]; int maxv = argc > 8 ? atoi(argv[8]) : 1;
    double t0 = wall(); int nv = 0;
    for (u64 i = 0; i < N && wall() - t0 < secs; i++) {
      u64 seed = s0 + i * stride; std::string scen = seeded_scenario(profile, seed);
      if (!run_one(scen, nullptr, seed, &err)) { RR->status = 4; snprintf(RR->cls, sizeof RR->cls, "driver"); snprintf(RR->sig, sizeof RR->sig, "%s", err.c_str()); snprintf(RR->msg, sizeof RR->msg, "%s", err.c_str()); }
      printf("%s\n", result_json(seed).c_str());
      if (RR->status == 2) { std::ofstream o(out + fmt("/v-%s-%llu.replay", profile.c_str(), (unsigned long long)seed)); o << replay_text(scen, seed, profile); o.close(); if (++nv >= maxv) break; }
    }
    return 0;
  }
  return 3;
}
