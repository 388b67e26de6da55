// TLS: the real OpenSSL runs under the simulator. For the code under test every OpenSSL call goes through a wrapper that
// checks the buffers, detects two threads using one object and use of a freed object, keeps an error queue per simulated
// thread, and lets the real library read and write the simulated sockets. A call into OpenSSL is atomic to the scheduler.
// The simulated clients use memory BIOs.
#include "client.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <errno.h>
#define RA __builtin_return_address(0)
extern "C" ssize_t sim_read(int, void *, size_t); extern "C" ssize_t sim_write(int, const void *, size_t);
extern Thread *no_sync_thread; extern i64 sim_rt_offset;

// ---------------------------------------------------------------- determinism
static Rng tr_(1);
static int rbytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = tr_.next() >> 24; return 1; }
static int rstatus() { return 1; }
static RAND_METHOD rmeth = {nullptr, rbytes, nullptr, nullptr, rbytes, rstatus};
void tls_preinit() { OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, nullptr); SSL_CTX *c = SSL_CTX_new(TLS_method()); SSL_CTX_free(c); ERR_clear_error(); }
void tls_seed(u64 seed) { tr_ = Rng(seed ^ 0x715c3e9); RAND_set_rand_method(&rmeth); }

// ---------------------------------------------------------------- error queues
static std::map<int, std::vector<unsigned long>> errq;
struct Q { std::vector<unsigned long> &q; Q() : q(errq[cur->id]) { ERR_clear_error(); for (auto e : q) { ERR_new(); ERR_set_error(ERR_GET_LIB(e), ERR_GET_REASON(e), nullptr); } } ~Q() { q.clear(); int sv = errno; while (unsigned long e = ERR_get_error()) q.push_back(e); errno = sv; } };

// ---------------------------------------------------------------- objects
struct Obj { void *tok; bool freed = false; int busy = 0; const char *kind; std::string freed_by; };
static std::map<void *, Obj> objs;
static Obj &obj(void *p, const char *op, void *pc) {
  if ((u64)p < 4096) mem_check(p, 1, false, pc);
  auto it = objs.find(p);
  if (it == objs.end()) violate("memory", std::string("memory|bad-object|") + op + "|" + sig_stack(cur, 2, pc), fmt("%s of %p which is no OpenSSL object, by %s in %s", op, p, cur->name.c_str(), backtrace_str(cur, 8, pc).c_str()));
  if (it->second.freed) violate("memory", std::string("memory|use-after-free|") + op + "|" + sig_stack(cur, 2, pc), fmt("%s of a freed %s, by %s in %s; freed by %s", op, it->second.kind, cur->name.c_str(), backtrace_str(cur, 8, pc).c_str(), it->second.freed_by.c_str()));
  return it->second;
}
struct Use { Obj &o; const char *op; void *pc; 
  Use(void *p, const char *op, void *pc) : o(obj(p, op, pc)), op(op), pc(pc) {
    if (o.busy && o.busy != cur->id + 1) violate("race", std::string("race|") + o.kind + "|" + op + "|" + sig_stack(cur, 2, pc), fmt("%s by %s in %s while %s uses the same %s", op, cur->name.c_str(), backtrace_str(cur, 8, pc).c_str(), threads[o.busy - 1]->name.c_str(), o.kind));
    o.busy = cur->id + 1; sync_point(op); }
  ~Use() { sync_point(op); o.busy = 0; } };
static void add(void *p, const char *kind) { Obj o; o.tok = token_new(); o.kind = kind; objs[p] = o; }
static void del(void *p, const char *op, void *pc) { Obj &o = obj(p, op, pc); if (o.busy && o.busy != cur->id + 1) violate("race", std::string("race|") + o.kind + "|" + op, fmt("%s by %s while %s uses the %s", op, cur->name.c_str(), threads[o.busy - 1]->name.c_str(), o.kind)); o.freed = true; o.freed_by = cur->name + " in " + backtrace_str(cur, 4, pc); heap_free(o.tok); }
static bool oom() { if (fault(F_MALLOC, sc.f[F_MALLOC])) { errq[cur->id].push_back(ERR_PACK(ERR_LIB_SSL, 0, ERR_R_MALLOC_FAILURE)); return true; } return false; }

// ---------------------------------------------------------------- socket BIO over the simulated kernel
struct NoSync { Thread *o; NoSync() : o(no_sync_thread) { no_sync_thread = cur; } ~NoSync() { no_sync_thread = o; } };
static bool retry(int e) { return e == EAGAIN || e == EINTR || e == ENOTCONN || e == EPROTO || e == EINPROGRESS || e == EALREADY; }
static int b_write(BIO *b, const char *p, int n) { NoSync ns; errno = 0; ssize_t r = sim_write((int)(i64)BIO_get_data(b), p, n); BIO_clear_retry_flags(b); if (r <= 0 && retry(errno)) BIO_set_retry_write(b); return r; }
static int b_read(BIO *b, char *p, int n) { NoSync ns; errno = 0; ssize_t r = sim_read((int)(i64)BIO_get_data(b), p, n); BIO_clear_retry_flags(b); if (r < 0 && retry(errno)) BIO_set_retry_read(b); else if (r == 0) BIO_set_flags(b, 0x800); return r; }
static long b_ctrl(BIO *b, int cmd, long, void *) { switch (cmd) { case BIO_CTRL_FLUSH: case BIO_CTRL_DUP: return 1; case BIO_CTRL_EOF: return BIO_test_flags(b, 0x800) != 0; case BIO_C_GET_FD: return (i64)BIO_get_data(b); } return 0; }
static BIO *sock_bio(int fd) { static BIO_METHOD *m; if (!m) { m = BIO_meth_new(BIO_TYPE_SOCKET, "sim socket"); BIO_meth_set_write(m, b_write); BIO_meth_set_read(m, b_read); BIO_meth_set_ctrl(m, b_ctrl); }
  BIO *b = BIO_new(m); BIO_set_data(b, (void *)(i64)fd); BIO_set_init(b, 1); return b; }

std::string real_path(const char *);
static const char *RP(const char *p) { static std::string b[2]; static int i; if (!p) return p; i ^= 1; b[i] = real_path(p); return b[i].c_str(); }
extern "C" {
SSL_CTX *sim_SSL_CTX_new(const SSL_METHOD *m) { sync_point("SSL_CTX_new"); if (oom()) return nullptr; Q q; SSL_CTX *c = SSL_CTX_new(m); if (c) add(c, "SSL_CTX"); return c; }
void sim_SSL_CTX_free(SSL_CTX *c) { sync_point("SSL_CTX_free"); if (c) del(c, "SSL_CTX_free", RA); }
#define CTXCALL(R, N, ARGS, CALL) R sim_##N ARGS { obj(c, #N, RA); sync_point(#N); if (oom()) return 0; Q q; return CALL; }
CTXCALL(int, SSL_CTX_load_verify_locations, (SSL_CTX *c, const char *f, const char *d), SSL_CTX_load_verify_locations(c, RP(f), RP(d)))
CTXCALL(int, SSL_CTX_use_certificate_file, (SSL_CTX *c, const char *f, int t), SSL_CTX_use_certificate_file(c, RP(f), t))
CTXCALL(int, SSL_CTX_use_certificate_chain_file, (SSL_CTX *c, const char *f), SSL_CTX_use_certificate_chain_file(c, RP(f)))
CTXCALL(int, SSL_CTX_use_PrivateKey_file, (SSL_CTX *c, const char *f, int t), SSL_CTX_use_PrivateKey_file(c, RP(f), t))
CTXCALL(int, SSL_CTX_check_private_key, (SSL_CTX *c), SSL_CTX_check_private_key(c))
CTXCALL(int, SSL_CTX_set_cipher_list, (SSL_CTX *c, const char *l), SSL_CTX_set_cipher_list(c, l))
CTXCALL(int, SSL_CTX_set_ciphersuites, (SSL_CTX *c, const char *l), SSL_CTX_set_ciphersuites(c, l))
SSL *sim_SSL_new(SSL_CTX *c) { obj(c, "SSL_new", RA); sync_point("SSL_new"); if (oom()) return nullptr; Q q; SSL *s = SSL_new(c); if (s) { add(s, "SSL"); X509_VERIFY_PARAM_set_time(SSL_get0_param(s), (now_ns + sim_rt_offset) / 1000000000ll); } return s; }
void sim_SSL_free(SSL *s) { if (!s) return; { Use u(s, "SSL_free", RA); } del(s, "SSL_free", RA); }
int sim_SSL_set_fd(SSL *s, int fd) { Use u(s, "SSL_set_fd", RA); if (oom()) return 0; Q q; BIO *b = sock_bio(fd); SSL_set_bio(s, b, b); return 1; }
void sim_SSL_set_accept_state(SSL *s) { Use u(s, "SSL_set_accept_state", RA); Q q; SSL_set_accept_state(s); }
int sim_SSL_do_handshake(SSL *s) { Use u(s, "SSL_do_handshake", RA); Q q; return SSL_do_handshake(s); }
int sim_SSL_accept(SSL *s) { Use u(s, "SSL_accept", RA); Q q; return SSL_accept(s); }
int sim_SSL_read(SSL *s, void *b, int n) { Use u(s, "SSL_read", RA); Q q; int r = SSL_read(s, b, n); if (r > 0) mem_check(b, r, true, RA); return r; }
int sim_SSL_peek(SSL *s, void *b, int n) { Use u(s, "SSL_peek", RA); Q q; int r = SSL_peek(s, b, n); if (r > 0) mem_check(b, r, true, RA); return r; }
int sim_SSL_pending(const SSL *s) { Use u((void *)s, "SSL_pending", RA); Q q; return SSL_pending(s); }
int sim_SSL_write(SSL *s, const void *b, int n) { Use u(s, "SSL_write", RA); if (n > 0) mem_check(b, n, false, RA); Q q; return SSL_write(s, b, n); }
int sim_SSL_shutdown(SSL *s) { Use u(s, "SSL_shutdown", RA); Q q; return SSL_shutdown(s); }
int sim_SSL_get_error(const SSL *s, int r) { Use u((void *)s, "SSL_get_error", RA); Q q; return SSL_get_error(s, r); }
int sim_SSL_get_shutdown(const SSL *s) { Use u((void *)s, "SSL_get_shutdown", RA); return SSL_get_shutdown(s); }
int sim_SSL_is_init_finished(const SSL *s) { Use u((void *)s, "SSL_is_init_finished", RA); return SSL_is_init_finished(s); }
unsigned long sim_ERR_get_error(void) { auto &q = errq[cur->id]; if (q.empty()) return 0; unsigned long e = q.front(); q.erase(q.begin()); return e; }
unsigned long sim_ERR_peek_error(void) { auto &q = errq[cur->id]; return q.empty() ? 0 : q.front(); }
void sim_ERR_clear_error(void) { errq[cur->id].clear(); }
void sim_ERR_error_string_n(unsigned long e, char *b, size_t n) { mem_check(b, n, true, RA); ERR_error_string_n(e, b, n); }
unsigned char *sim_SHA1(const unsigned char *d, size_t n, unsigned char *md) { if (n) mem_check(d, n, false, RA); mem_check(md, 20, true, RA); return SHA1(d, n, md); }
BIO *sim_BIO_new(const BIO_METHOD *m) { sync_point("BIO_new"); if (oom()) return nullptr; Q q; BIO *b = BIO_new(m); if (b) { objs.erase(b); add(b, "BIO"); } return b; }
int sim_BIO_free(BIO *b) { if (!b) return 0; del(b, "BIO_free", RA); return BIO_free(b); }
void sim_BIO_free_all(BIO *b) { for (BIO *x = b; x; x = BIO_next(x)) del(x, "BIO_free_all", RA); BIO_free_all(b); }
BIO *sim_BIO_push(BIO *a, BIO *b) { if (a) obj(a, "BIO_push", RA); if (b) obj(b, "BIO_push", RA); return BIO_push(a, b); }
int sim_BIO_write(BIO *b, const void *p, int n) { obj(b, "BIO_write", RA); if (n > 0) mem_check(p, n, false, RA); if (oom()) return -1; Q q; return BIO_write(b, p, n); }
long sim_BIO_ctrl(BIO *b, int cmd, long l, void *p) { obj(b, "BIO_ctrl", RA); Q q; return BIO_ctrl(b, cmd, l, p); }
}

// ---------------------------------------------------------------- simulated clients
extern std::string cert_dir; extern const char *tls_pool12;
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; std::string t; for (char ch : s + ":") { if (ch == ':') { if (t.size()) v.push_back(t); t.clear(); } else t += ch; } return v; }
// The policy model: which of its ciphers the server may use with its certificate, and what it has to pick for a client that
// offers `offer` -- the first of its own. Empty: nothing in common, the handshake must fail.
static std::string pick_cipher(const std::vector<std::string> &mine, const std::vector<std::string> &offer, bool v13) {
  bool rsa = W.cfg.s("sslcert", "wsserver") == "wsrsa", dh = W.cfg.has("ssldh");
  for (auto &m : mine) {
    if (!v13) { bool ec = m.find("ECDSA") != std::string::npos; if (ec == rsa) continue; if (!m.compare(0, 4, "DHE-") && !dh) continue; }
    for (auto &o : offer) if (o == m) return m;
  }
  return "";
}
#define V(cls, key, ...) do { vkey = key; viol(cls, fmt(__VA_ARGS__)); } while (0)
void Client::tls_init() {
  static SSL_CTX *ctx; if (!ctx) { ctx = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr); SSL_CTX_set_mode(ctx, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); SSL_CTX_set_security_level(ctx, 0); }
  SSL *s = SSL_new(ctx); int v = spec.kv.i("tlsv", 0); if (v == 12) { SSL_set_max_proto_version(s, TLS1_2_VERSION); } else if (v == 13) SSL_set_min_proto_version(s, TLS1_3_VERSION);
  if (spec.kv.i("tlsgroup", 0)) SSL_set1_groups_list(s, "P-384:P-256"); if (spec.kv.has("tlscipher")) SSL_set_cipher_list(s, spec.kv.s("tlscipher").c_str());
  if (spec.kv.has("tlssuites")) SSL_set_ciphersuites(s, spec.kv.s("tlssuites").c_str());
  if (spec.kv.has("tlscert")) { std::string f = cert_dir + "/c_" + spec.kv.s("tlscert"); if (SSL_use_certificate_chain_file(s, RP((f + ".crt").c_str())) != 1 || SSL_use_PrivateKey_file(s, RP((f + ".key").c_str()), SSL_FILETYPE_PEM) != 1) internal_error("client certificate " + f); }
  if (spec.kv.has("tlsfrom")) { Client *o = W.clients[spec.kv.i("tlsfrom")]; if (o->tls_session) SSL_set_session(s, (SSL_SESSION *)o->tls_session); }
  tls_policy(); if (spec.kv.has("tlsmaxfrag")) SSL_set_max_send_fragment(s, spec.kv.i("tlsmaxfrag"));
  BIO *r = BIO_new(BIO_s_mem()), *w = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(r, -1); SSL_set_bio(s, r, w); SSL_set_connect_state(s); ssl = s; rbio = r; wbio = w; trng = Rng(spec.kv.i("tlsseg", 1) * 7919 + id); ERR_clear_error();
}
// what the configured policy says about this client
void Client::tls_policy() {
  int v = spec.kv.i("tlsv", 0); bool v13 = v != 12; std::string ck = v13 ? "tlssuites" : "tlscipher", sk = v13 ? "sslsuites" : "sslciphers";
  std::string d = v13 ? "TLS_AES_256_GCM_SHA384:TLS_CHACHA20_POLY1305_SHA256:TLS_AES_128_GCM_SHA256" : tls_pool12;
  if (pick_cipher(split(W.cfg.s(sk, d)), split(spec.kv.s(ck, d)), v13).empty()) { refuse = "no cipher in common"; return; }
  if (W.cfg.i("sslpeer", 0)) { std::string k = spec.kv.s("tlscert", "none"); if (k != "good" && k != "chain") { refuse = "client certificate: " + k; refuse_late = v13; } }
}
// what OpenSSL wants to send goes to the socket in order, possibly in pieces with pauses between them
void Client::tls_flush() {
  char b[4096]; int n; while ((n = BIO_read((BIO *)wbio, b, sizeof b)) > 0) tout.append(b, n);
  ERR_clear_error(); if (tls_flushing || tout.empty()) return;
  tls_flushing = true; int pieces = 0; i64 seg = spec.kv.i("tlsseg", 0), gap = spec.kv.i("tlsgap", 0);
  while (tout.size()) {
    size_t m = tout.size(); if (seg && pieces < 20 && !silent) { switch (trng.below(4)) { case 0: m = 1; break; case 1: m = 1 + trng.below(8); break; case 2: m = 1 + trng.below(m); break; } if (m > tout.size()) m = tout.size(); if (m < tout.size()) note_fault(F_PEER_SEGMENT); }
    Bytes p = tout.substr(0, m); tout.erase(0, m); pieces++; last_tx = now_ns; net_client_send(c, (const u8 *)p.data(), m);
    if (gap && tout.size() && !dead()) { note_fault(F_PEER_SLOW); sleep_ns(1 + trng.below(gap * 1000)); }
  }
  tls_flushing = false; wake(&tls_flushing);
}
bool Client::tls_handshake() {
  SSL *s = (SSL *)ssl; std::string bad = spec.kv.s("tlsbad", ""); i64 step = 0, at = spec.kv.i("tlsat", 0);
  for (;;) {
    int r = SSL_do_handshake(s), e = r == 1 ? 0 : SSL_get_error(s, r); unsigned long q = ERR_peek_error(); ERR_clear_error();
    if (bad.size() && step >= at) return tls_bad(bad);
    step++;
    if (r == 1) { tls_up = true; trace("client %d TLS up, %s %s", id, SSL_get_version(s), SSL_get_cipher_name(s));
      R->st.evals++;
      if (refuse.size()) { R->st.nontrivial++; if (!refuse_late) { V("tls", "accepted", "TLS is up although the server has to refuse it (%s)", refuse.c_str()); return false; } }
      int v = spec.kv.i("tlsv", 0); bool v13 = SSL_version(s) == TLS1_3_VERSION;
      if (v13 != (v != 12)) V("tls", "version", "negotiated %s, the client allows %d", SSL_get_version(s), v);
      std::string sk = v13 ? "sslsuites" : "sslciphers", ck = v13 ? "tlssuites" : "tlscipher";
      if (W.cfg.has(sk)) {
        std::vector<std::string> offer; offer = split(spec.kv.s(ck, W.cfg.s(sk)));
        std::string want = pick_cipher(split(W.cfg.s(sk)), offer, v13), got = v13 ? SSL_CIPHER_standard_name(SSL_get_current_cipher(s)) : SSL_get_cipher_name(s);
        R->st.nontrivial++; if (got != want) V("tls", W.cfg.s(sk).find(got) == std::string::npos ? "cipher-not-configured" : "cipher-order", "the connection uses %s, the server is configured to use %s out of %s", got.c_str(), want.c_str(), W.cfg.s(sk).c_str());
      }
      if (W.cfg.has("ssldh") && !strncmp(SSL_get_cipher_name(s), "DHE-", 4)) { EVP_PKEY *k = nullptr; SSL_get_peer_tmp_key(s, &k); int bits = k ? EVP_PKEY_bits(k) : 0; EVP_PKEY_free(k); ERR_clear_error(); if (bits != 2048) V("tls", "dh-group", "ephemeral key of %d bits, the configured group has 2048", bits); }
      if (SSL_session_reused(s)) V("tls", "resumed", "%s", "the server resumed an earlier session");
      static std::map<std::string, X509 *> known; std::string cn = W.cfg.s("sslcert", "wsserver"); if (!known[cn]) { FILE *f = fopen(RP((cert_dir + "/" + cn + ".crt").c_str()), "r"); known[cn] = PEM_read_X509(f, nullptr, nullptr, nullptr); fclose(f); }
      X509 *x = SSL_get1_peer_certificate(s); if (!x || X509_cmp(x, known[cn])) V("tls", "certificate", "the server shows %s instead of the configured certificate", x ? "another certificate" : "none"); X509_free(x); ERR_clear_error();
      if (!spec.kv.i("tlsco", 0)) tls_flush(); return true; }
    tls_flush();
    if (e != SSL_ERROR_WANT_READ && refuse.size()) { gone_ok = true; R->st.nontrivial++; if (!wait_for([this] { return eof; }, W.patience, "end after a refused handshake") && !W.halting && !W.lenient && !c->faulted) V("tls", "no-end-refused", "the connection is still open although the TLS handshake failed (%s)", refuse.c_str()); return false; }
    if (e != SSL_ERROR_WANT_READ) { if (!W.halting && !W.lenient && !excused() && refuse.empty()) V("tls", "handshake-error", "TLS handshake failed at the client, error %d: %s", e, ERR_reason_error_string(q)); return false; }
    if (!wait_for([this] { return BIO_ctrl_pending((BIO *)rbio) > 0; }, W.patience, "TLS handshake")) {
      if (W.halting || W.lenient || excused() || idle_close_ok || (eof && refuse.size())) return false;
      if (!eof) stuck("tls-handshake", "the TLS handshake is not going on"); else V("tls", "handshake-eof", "%s", "connection ended during the TLS handshake"); return false; }
  }
}
// Misbehaviour below the WebSocket level. The server has to end the connection (or ignore the event where TLS allows it).
bool Client::tls_bad(const std::string &k) {
  SSL *s = (SSL *)ssl; violation = true; violation_kind = "tls-" + k; gone_ok = true; Rng r(spec.kv.i("tlsseed", 1)); R->st.nontrivial++;
  char b[4096]; Bytes p; int n; while ((n = BIO_read((BIO *)wbio, b, sizeof b)) > 0) p.append(b, n); ERR_clear_error(); (void)s;
  auto send = [&](const Bytes &x) { if (x.size()) { last_tx = now_ns; net_client_send(c, (const u8 *)x.data(), x.size()); } };
  bool end = true;
  if (k == "garbage") { Bytes x; size_t m = 1 + r.below(300); for (size_t i = 0; i < m; i++) x += (char)r.below(256); x[0] = (char)(r.chance(0.5) ? 0x80 + r.below(100) : 'A' + r.below(26)); if (x.size() < 16) x.append(16, 'x'); if (x[2] == 1) x[2] = 2;   // no (incomplete) SSLv2 hello
    send(x); }
  else if (k == "http") send("GET / HTTP/1.1\r\nHost: localhost\r\n\r\n");
  else if (k == "flip") { if (p.empty()) return false; size_t i = r.below(p.size()); p[i] ^= 1 << r.below(8); send(p); end = false; }
  else if (k == "cut") { if (p.size()) send(p.substr(0, r.below(p.size()))); end = false; }
  else if (k == "fin") { if (p.size()) send(p.substr(0, r.below(p.size() + 1))); fin_sent = true; note_fault(F_PEER_FIN); net_client_shutdown(c); }
  else if (k == "abort") { if (p.size()) send(p.substr(0, r.below(p.size() + 1))); if (r.chance(0.5)) sleep_ns(r.below(300000)); aborted = true; note_fault(F_PEER_RST); net_client_reset(c); return false; }
  else if (k == "drop") { if (p.size()) send(p.substr(0, r.below(p.size() + 1))); if (r.chance(0.5)) sleep_ns(r.below(300000)); aborted = true; note_fault(F_PEER_FIN); net_client_close(c); return false; }
  else internal_error("tlsbad " + k);
  if (!end) { wait_for([this] { return eof; }, 2000000 + r.below(20000000), "end"); return false; }
  if (!wait_for([this] { return eof; }, W.patience, "end after TLS violation") && !W.halting && !W.lenient && !c->faulted) V("tls", "no-end-" + k, "the connection is still open after '%s' instead of a TLS handshake", k.c_str());
  return false;
}
void Client::tls_tx(const u8 *p, size_t n) {
  SSL *s = (SSL *)ssl; while (n) { int r = SSL_write(s, p, n > 1 << 14 ? 1 << 14 : n); if (r <= 0) { ERR_clear_error(); return; } p += r; n -= r; } 
  tls_flush();
}
void Client::tls_rx(const u8 *p, size_t n) {
  SSL *s = (SSL *)ssl; BIO_write((BIO *)rbio, p, n); if (!tls_up) { wake(this); return; }
  static u8 b[20000];
  for (;;) {
    int r = SSL_read(s, b, sizeof b); if (r > 0) { on_data(Bytes((char *)b, r)); continue; }
    int e = SSL_get_error(s, r); unsigned long q = ERR_peek_error(); ERR_clear_error();
    if (e == SSL_ERROR_ZERO_RETURN) tls_notified = true;
    else if (e != SSL_ERROR_WANT_READ && !tls_broken) { tls_broken = true; if (!W.halting && !excused() && !violation && refuse.empty()) V("tls", "client-read-error", "the client cannot make sense of the TLS stream: %s", ERR_reason_error_string(q)); }
    break;
  }
  if (BIO_ctrl_pending((BIO *)wbio)) tls_flush();
}
void Client::tls_done() {
  if (tls_up && spec.kv.i("tlskeep", 0) && !tls_session) tls_session = SSL_get1_session((SSL *)ssl);
  if (tls_up && spec.kv.i("tlsbye", 0) && !dead() && !tls_broken) { SSL_shutdown((SSL *)ssl); tls_flush(); }
  while (tls_flushing && !dead()) block(&tls_flushing, now_ns + 1000000, "TLS flush");
}
// events of the TLS layer on an established connection
void Client::op_tls(const OpSpec &op) {
  SSL *s = (SSL *)ssl; if (!tls || !tls_up || dead()) return; std::string k = op.kv.s("kind"); R->st.nontrivial++;
  if (k == "keyupdate") { if (SSL_version(s) >= TLS1_3_VERSION) { SSL_key_update(s, op.kv.i("req", 1) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake(s); ERR_clear_error(); tls_flush(); } }
  else if (k == "notify" || k == "corrupt") {
    violation = true; close_sent = true; violation_kind = "tls-" + k; gone_ok = true; while (tls_flushing && !dead()) block(&tls_flushing, now_ns + 1000000, "TLS flush"); if (dead()) return;
    if (k == "notify") { SSL_shutdown(s); ERR_clear_error(); tls_flush(); }
    else { Bytes p = gen_payload(1, 40, false, 0); SSL_write(s, p.data(), p.size()); char b[4096]; int n = BIO_read((BIO *)wbio, b, sizeof b); ERR_clear_error(); if (n < 6) return; b[5 + op.kv.i("at", 0) % (n - 5)] ^= 1 << op.kv.i("at", 0) % 8; last_tx = now_ns; net_client_send(c, (u8 *)b, n); }
    stalled = false; wake(&stalled);
    if (!wait_for([this] { return eof; }, W.patience, "end after TLS event") && !W.halting && !W.lenient && !c->faulted) V("tls", "no-end-" + k, "the connection is still open after the client's %s", k == "notify" ? "close_notify" : "forged record");
  } else internal_error("tls op " + k);
}
