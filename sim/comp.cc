// Component scenarios: the real thread pool (C15) and the real ring buffer (C16) driven by simulated caller threads.
#include "client.h"
#include <unistd.h>
typedef struct threadpool_t threadpool_t; typedef struct ringbuf ringbuf_t; typedef struct ringbuf_worker ringbuf_worker_t;
extern "C" {
threadpool_t *threadpool_create(int, int, int, int); int threadpool_add(threadpool_t *, void (*)(void *), void *, int); int threadpool_destroy(threadpool_t *, int);
int ringbuf_setup(ringbuf_t *, unsigned, unsigned, size_t); void ringbuf_get_sizes(unsigned, unsigned, size_t *, size_t *);
ringbuf_worker_t *ringbuf_register(ringbuf_t *, unsigned); void ringbuf_unregister(ringbuf_t *, ringbuf_worker_t *);
ssize_t ringbuf_acquire(ringbuf_t *, ringbuf_worker_t **, size_t); void ringbuf_produce(ringbuf_t *, ringbuf_worker_t **); size_t ringbuf_consume(ringbuf_t *, size_t *); void ringbuf_release(ringbuf_t *, size_t);
}
std::string heap_first_site_since(u64 since);
static void nap(u64 ns) { static char o; block(&o, now_ns + ns + 1, "component sleep"); }
static int nlive; static char live_obj;
static void go(const std::string &name, std::function<void()> f) { nlive++; spawn(name, true, 1 << 18, [f] { f(); nlive--; wake(&live_obj); }); }
static void wait_all(const char *what) {
  u64 dl = now_ns + 60000000000ull;
  while (nlive) { block(&live_obj, dl, "component wait"); if (nlive && now_ns >= dl) { std::string w; for (auto t : threads) if (t->server && t->st == T_BLOCKED) { w = sig_stack(t, 2) + ":" + t->why; break; } violate("stuck", std::string("stuck|") + what + "|" + w, fmt("%s: no end after 60 simulated seconds", what)); } }
}

// ---------------------------------------------------------------- ring buffer
struct Cell { int st = 0, prod = 0; u32 seq = 0, idx = 0; u8 val = 0; };
static u8 tagb(int p, u32 s, u32 i) { return (u8)(p * 61 + s * 7 + i * 3 + 1); }
static void run_ring(const Scenario &s) {
  const KV &k = s.cfg; unsigned np = k.i("producers", 2), nw = k.i("perm", 2), nt = k.i("temp", 0); size_t space = k.i("space", 16), maxlen = k.i("maxlen", 4); int items = k.i("items", 10), tries = k.i("tries", 100); i64 pace = k.i("pace", 0), cpace = k.i("cpace", 0); bool churn = k.i("churn", 0); int giveup = k.i("giveup", 0); u64 seed = s.sched.i("seed", 1);
  size_t rs, ws; ringbuf_get_sizes(nw, nt, &rs, &ws);
  if (rs < 16 + (nw + nt) * ws) violate("ring", "ring|size", "ringbuf_get_sizes reports too little memory for its workers");
  ringbuf_t *r = (ringbuf_t *)heap_alloc(rs, true, 16, false);
  std::vector<Cell> c(space); std::vector<u8> data(space); std::vector<u32> want(np, 0), widx(np, 0), accepted(np, 0); std::vector<std::vector<u32>> lens(np); size_t W0 = 0; u64 ev = 0; int infl = 0; unsigned tempusers = np > nw ? np - nw : 0; int producing = np; bool consumer_done = false; u64 acq = 0, refused = 0;
  if (ringbuf_setup(r, nw, nt, space) != 0) violate("ring", "ring|setup", "ringbuf_setup refused a valid size");
  auto room = [&](size_t len) {        // true: there is certainly room, given that no other call is running
    size_t hi = 0, lo = 0; bool any = false, below = false; for (size_t i = 0; i < space; i++) if (c[i].st) { any = true; if (i < W0) { below = true; lo = i + 1; } else hi = i + 1; }
    if (!any) return len <= (space - 1) / 2;
    if (below) return lo + len < W0;
    return hi + len < space || len < W0;
  };
  for (unsigned p = 0; p < np; p++) go(fmt("producer%u", p), [&, p] {
    Rng g(seed * 31 + p); ringbuf_worker_t *w = p < nw ? ringbuf_register(r, p) : nullptr;
    for (int it = 0; it < items; it++) {
      size_t len = 1 + g.below(maxlen); ssize_t off = -1;
      for (int t = 0; t < tries || !giveup; t++) {
        bool alone = infl == 0; u64 e0 = ++ev; infl++; bool rm = room(len);
        off = ringbuf_acquire(r, &w, len);
        infl--; bool quiet = alone && ev == e0; ev++; R->st.evals++;
        if (off >= 0) break;
        refused++;
        if (quiet && rm && tempusers <= nt) violate("ring", "ring|refused-with-room", fmt("producer %u: acquiring %zu bytes fails although there is room (consumer at %zu, space %zu)", p, len, W0, space));
        nap(100 + g.below(3000));
      }
      if (off < 0) continue;
      acq++;
      if ((size_t)off + len > space) violate("ring", "ring|outside", fmt("producer %u got [%zd,%zd) in a buffer of %zu", p, off, off + (ssize_t)len, space));
      u32 sq = accepted[p]++; lens[p].push_back(len);
      for (size_t i = 0; i < len; i++) { Cell &x = c[off + i]; if (x.st) violate("ring", "ring|overlap", fmt("producer %u got [%zd,%zd) but byte %zu is held by producer %d (item %u, %s)", p, off, off + (ssize_t)len, off + i, x.prod, x.seq, x.st == 1 ? "being written" : "not consumed")); x = Cell{1, (int)p, sq, (u32)i, 0}; }
      if (pace && g.chance(0.3)) nap(g.below(pace));
      for (size_t i = 0; i < len; i++) { data[off + i] = c[off + i].val = tagb(p, sq, i); sync_point("fill"); }
      for (size_t i = 0; i < len; i++) { Cell &x = c[off + i]; if (x.prod != (int)p || x.seq != sq || x.st != 1) violate("ring", "ring|stolen", "a range was handed out or consumed while its producer was writing it"); x.st = 2; }
      infl++; ev++; ringbuf_produce(r, &w); infl--; ev++; trace("produced %u.%u [%zd,+%zu)", p, sq, off, len);
      if (pace && g.chance(0.3)) nap(g.below(pace));
      if (churn && p < nw && g.chance(0.3)) { ringbuf_unregister(r, w); sync_point("unregistered"); w = ringbuf_register(r, p); }
    }
    producing--;
  });
  go("consumer", [&] {
    Rng g(seed * 77 + 5); int idle = 0; u64 dl = now_ns + 50000000000ull;
    for (;;) {
      bool fin = producing == 0; size_t off = ~0ull; infl++; ev++; size_t n = ringbuf_consume(r, &off); infl--; ev++; R->st.evals++;
      if (n == 0) {
        bool left = false; for (unsigned p = 0; p < np; p++) if (want[p] < accepted[p]) left = true;
        if (fin) { if (!left) break; if (++idle >= 5) violate("ring", "ring|lost", "produced ranges are never handed to the consumer although all producers have finished"); }
        if (now_ns > dl) violate("ring", "ring|no-progress", "the producers never finish");
        nap(100 + g.below(cpace + 100)); continue;
      }
      idle = 0;
      if (off >= space || n > space - off) violate("ring", "ring|consume-outside", fmt("consumer got [%zu,+%zu) in a buffer of %zu", off, n, space));
      size_t rel = g.chance(0.4) ? 1 + g.below(n) : n; auto w2 = want, i2 = widx;
      for (size_t i = 0; i < n; i++) {
        Cell &x = c[off + i];
        if (x.st == 0) violate("ring", "ring|consume-garbage", fmt("consumer got byte %zu that holds nothing (range [%zu,+%zu))", off + i, off, n));
        if (x.st == 1) violate("ring", "ring|torn", fmt("consumer got byte %zu of producer %d item %u that is still being written", off + i, x.prod, x.seq));
        if (x.seq != w2[x.prod] || x.idx != i2[x.prod]) violate("ring", "ring|order", fmt("consumer got producer %d item %u byte %u, expected item %u byte %u", x.prod, x.seq, x.idx, w2[x.prod], i2[x.prod]));
        if (data[off + i] != tagb(x.prod, x.seq, x.idx)) violate("ring", "ring|data", fmt("byte %zu was overwritten", off + i));
        if (++i2[x.prod] == lens[x.prod][x.seq]) { i2[x.prod] = 0; w2[x.prod]++; }
        if (i + 1 == rel) { want = w2; widx = i2; }
      }
      if (cpace && g.chance(0.5)) nap(g.below(cpace));
      for (size_t i = 0; i < rel; i++) { Cell &x = c[off + i]; if (x.st != 2 || data[off + i] != tagb(x.prod, x.seq, x.idx)) violate("ring", "ring|stolen-from-consumer", fmt("byte %zu changed while the consumer held it", off + i)); x.st = 0; }
      W0 = off + rel == space ? 0 : off + rel; trace("consumed [%zu,+%zu) released %zu", off, n, rel);
      infl++; ev++; ringbuf_release(r, rel); infl--; ev++; R->st.msgs_recv += rel;
    }
    // everything consumed: a moderate request must be granted again
    if (nt || nw) { ringbuf_worker_t *w = nw ? ringbuf_register(r, 0) : nullptr; size_t len = (space - 1) / 2; if (len) { size_t o2; for (int i = 0; i < 3; i++) { ssize_t o = ringbuf_acquire(r, &w, len); if (o < 0) violate("ring", "ring|not-reusable", fmt("the empty buffer refuses %zu of %zu bytes", len, space)); if ((size_t)o + len > space) violate("ring", "ring|outside", "range outside the buffer"); ringbuf_produce(r, &w); size_t got = 0; for (int j = 0; j < 4 && got < len; j++) { size_t n = ringbuf_consume(r, &o2); if (n) { if (got == 0 && o2 != (size_t)o) violate("ring", "ring|consume-offset", "consumer is given another range than the one produced"); got += n; ringbuf_release(r, n); } } if (got != len) violate("ring", "ring|lost", fmt("%zu of %zu bytes handed to the consumer", got, len)); } } }
    consumer_done = true;
  });
  wait_all("ring buffer");
  R->st.msgs_sent = acq; R->st.nontrivial += acq; mix(acq * 31 + refused);
}

// ---------------------------------------------------------------- thread pool
struct Task { int id; int accepted = 0, ran = 0; bool before_destroy = false; int rc = 0; u64 dur = 0; int children = 0; bool latch = false, destroyer = false, meets = false; };
static threadpool_t *pool; static std::deque<Task> *tasks; static int running, started_tasks; static bool destroying, destroyed, latch_open; static int nworkers, qsize; static u64 pseed;
struct AddCall { int ub; }; static std::set<AddCall *> calls; static int submitted;   // submitted: adds begun minus adds refused
static void ub_event() { for (auto a : calls) a->ub = std::max(a->ub, submitted - 1 - started_tasks); }
static int met, meet_n, meet_no;
static void task_fn(void *arg);
static void add_task(Task *t) {
  AddCall a; submitted++; a.ub = submitted - 1 - started_tasks; calls.insert(&a); ub_event();
  bool d0 = destroying; R->st.evals++;
  int rc = threadpool_add(pool, task_fn, t, 0);
  calls.erase(&a); t->rc = rc;
  if (rc != 0) { submitted--; if (t->ran) violate("pool", "pool|refused-but-run", fmt("task %d was refused with %d but has run", t->id, rc)); }
  else { t->accepted = 1; t->before_destroy = !d0; R->st.msgs_sent++; }
  if (rc == -3) { if (a.ub < qsize) violate("pool", "pool|full-with-room", fmt("task %d refused as queue full with at most %d of %d tasks queued", t->id, a.ub, qsize)); }
  else if (rc == -4) { if (!destroying) violate("pool", "pool|shutdown-too-early", fmt("task %d refused because of a shutdown nobody asked for", t->id)); }
  else if (rc != 0) violate("pool", "pool|error", fmt("adding task %d fails with %d", t->id, rc));
}
static Task *new_task() { tasks->push_back(Task()); tasks->back().id = tasks->size() - 1; return &tasks->back(); }
static void task_fn(void *arg) {
  Task *t = (Task *)arg; started_tasks++; ub_event(); trace("task %d runs", t->id);
  if (destroyed) violate("pool", "pool|run-after-destroy", fmt("task %d runs after threadpool_destroy returned", t->id));
  if (++t->ran > 1) violate("pool", "pool|run-twice", fmt("task %d runs %d times", t->id, t->ran));
  if (++running > nworkers) violate("pool", "pool|too-many", fmt("%d tasks run at once on %d workers", running, nworkers));
  R->st.msgs_recv++; R->st.nontrivial++;
  if (t->meets) { int no = meet_no; met++; wake(&met); while (no == meet_no && met < meet_n) block(&met, 0, "meeting"); }
  else if (t->latch) while (!latch_open) block(&latch_open, 0, "latch task"); else if (t->dur) nap(t->dur); else sync_point("task");
  for (int i = 0; i < t->children; i++) { Task *ch = new_task(); Rng g(pseed + ch->id * 7919); if (g.chance(0.3)) ch->dur = g.below(20000); add_task(ch); if (ch->rc) break; }
  if (t->destroyer && destroying) { Task *pr = new_task(); for (int i = 0; i < 20; i++) { add_task(pr); if (pr->rc == -4) break; if (pr->rc == 0) pr = new_task(); nap(3000); } if (pr->rc != -4) { running--; return; } int rc = threadpool_destroy(pool, 0); if (rc == 0) violate("pool", "pool|destroyed-twice", "a second threadpool_destroy succeeded"); }
  running--;
}
static void run_pool(const Scenario &s) {
  const KV &k = s.cfg; nworkers = k.i("workers", 2); qsize = k.i("queue", 8); int adders = k.i("adders", 2), n = k.i("items", 8); bool graceful = k.i("graceful", 1), hold = k.i("hold", 0); i64 dur = k.i("dur", 20000), kids = k.i("kids", 0), pace = k.i("pace", 0), at = k.i("dat", 0); int second = k.i("second", 0); pseed = s.sched.i("seed", 1); tasks = new std::deque<Task>(); faults_on = true;
  u64 base = heap_seq(); size_t th0 = threads.size(); int wrefs = 0; (void)wrefs; int left = adders;
  go("owner", [&] {
    pool = threadpool_create(nworkers, qsize, 65536, 0); R->st.evals++;
    bool may_fail = sc.f[F_THREAD_FAIL] > 0 || sc.f[F_MALLOC] > 0;
    if (!pool) { if (!may_fail) violate("pool", "pool|create", "creating the pool failed without any injected fault"); return; }
    sc.f[F_MALLOC] = 0;
    if (hold) { Task *t = new_task(); t->latch = true; t->destroyer = second; add_task(t); while (!t->ran) nap(1000); }
    // tasks that wait for one another, no more than there are free workers
    auto meeting = [&] {
      met = 0; meet_no++; meet_n = 1 + Rng(pseed * 3 + submitted).below(nworkers - (hold ? 1 : 0)); u64 dl = now_ns + 30000000000ull; std::vector<Task *> v;
      for (int i = 0; i < meet_n; i++) { Task *t = new_task(); t->meets = true; for (add_task(t); t->rc == -3 && now_ns < dl; add_task(t)) nap(5000); v.push_back(t); if (i % 2) nap(Rng(pseed + i).below(3000)); }
      while (met < meet_n && now_ns < dl) block(&met, dl, "owner meets");
      if (met < meet_n) violate("pool", "pool|not-concurrent", fmt("only %d of %d tasks run at once although %d workers are free", met, meet_n, nworkers - (hold ? 1 : 0)));
    };
    int meetings = nworkers > (hold ? 1 : 0) ? k.i("meet", 0) : 0; if (meetings > 1 || pseed % 2) while (meetings > 0) { meeting(); if (--meetings < 2 && pseed % 3) break; }
    for (int a = 0; a < adders; a++) go(fmt("adder%d", a), [&, a] {
      Rng g(pseed * 131 + a); for (int i = 0; i < n; i++) { Task *t = new_task(); if (dur && g.chance(0.5)) t->dur = g.below(dur); if (kids && g.chance(0.3)) t->children = 1 + g.below(kids); for (;;) { add_task(t); if (t->rc != -3 || g.chance(0.5)) break; nap(1000 + g.below(10000)); } if (t->rc == -4) break; if (pace && g.chance(0.4)) nap(g.below(pace)); }
      if (--left == 0 && hold) { nap(g.below(50000)); latch_open = true; wake(&latch_open); }
      wake(&left);
    });
    while (meetings-- > 0) meeting();
    if (hold) nap(at); else while (left) block(&left, 0, "owner waits");
    if (k.i("drain", 0)) { u64 dl = now_ns + 30000000000ull; for (;;) { bool all = true; for (auto &t : *tasks) if (t.accepted && (!t.ran || running)) all = false; if (all) break; if (now_ns > dl) violate("pool", "pool|not-run", "accepted tasks are never started although workers are free"); nap(20000); } }
    destroying = true; trace("destroy"); int rc = threadpool_destroy(pool, graceful ? 1 : 0); destroyed = true; R->st.evals++;
    if (rc != 0) violate("pool", "pool|destroy-error", fmt("threadpool_destroy returns %d", rc));
    if (running) violate("pool", "pool|running-after-destroy", fmt("%d tasks still run when threadpool_destroy returns", running));
  });
  wait_all("thread pool");
  for (auto &t : *tasks) {
    if (t.accepted && !t.ran && graceful) violate("pool", "pool|lost", fmt("accepted task %d was never run", t.id));
  }
  for (size_t i = th0; i < threads.size(); i++) if (threads[i]->st != T_DONE) violate("pool", "pool|thread-left", "thread " + threads[i]->name + " still runs");
  std::string sites; u64 h = heap_live_since(base, &sites); if (h) violate("pool", "pool|leak|" + heap_first_site_since(base), fmt("%llu blocks not freed: %s", (unsigned long long)h, sites.c_str()));
}
void run_rpm(const Scenario &);
void run_component(const std::string &n, const Scenario &s) { if (n == "ring") run_ring(s); else if (n == "pool") run_pool(s); else if (n == "rpm") run_rpm(s); else internal_error("no component " + n); }
