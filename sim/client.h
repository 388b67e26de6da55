#pragma once
#include "ws.h"
struct Sent { Bytes data; bool text; u64 when; u64 hs_epoch = 0; u64 done = 0; };
struct Client {
  int id; ClientSpec spec; Conn *c = nullptr;
  bool tls = false; void *ssl = nullptr, *rbio = nullptr, *wbio = nullptr; bool tls_up = false, tls_flushing = false, tls_notified = false, tls_broken = false; Bytes tout; Rng trng{1}; std::string refuse; bool refuse_late = false; void *tls_session = nullptr;
  std::vector<Sent> sent; size_t next_echo = 0; std::vector<Bytes> pings; size_t next_pong = 0; int pings_recv = 0; u64 last_ping = 0;
  Bytes rbuf, msg, held; bool frag = false; int msg_op = 0; bool msg_rsv1 = false;
  bool hs_done = false; int hs_status = 0, hs_expect = 101; Bytes hs_key, hs_req; i64 want_body = -1; Bytes want_text; bool check_text = false; void http_date(const std::string &v, const char *what, i64 lo, i64 hi, bool any); u64 hs_when = 0, hs_epoch = 0, hs_begun = 0;
  bool close_sent = false, close_recv = false; int close_code_sent = 0, close_code = -1; Bytes close_reason; u64 close_when = 0;
  bool violation = false; std::string violation_kind; std::set<int> ok_codes; bool partial_sent = false;
  int kick_kind = 2; bool eof = false, aborted = false, stalled = false, reader_done = false, done = false, gone_ok = false, fin_sent = false, idle_close_ok = false, loose = false, kicked = false, gave_up = false, was_stalled = false;
  u64 last_tx = 0; Bytes pend_pong; int sending = 0; bool silent = false; std::vector<u64> silent_pings; u64 idle_T = 0;
  bool pmd = false, snct = false, cnct = false; int smwb = 15, cmwb = 15; z_stream zdef, zinf; bool zdef_init = false, zinf_init = false; Bytes zhist;
  std::map<unsigned, unsigned> bnext, bfirst;
  std::string vkey; std::function<void(const OpSpec &)> after_op;

  bool excused() { return gone_ok || (c && c->faulted); }
  bool soft();
  bool is_bcast() { return spec.kv.s("sub", "") == "broadcast"; }
  int port();
  void run(); void script(); void reader(); void on_data(const Bytes &); void on_frame(bool, int, int, const Bytes &); void on_echo(const Bytes &); void on_bcast(const Bytes &);
  void check_close(); void parse_http(); void on_eof(); bool dead(); void sleep_ns(u64); void tx(const u8 *, size_t);
  void raw_send(const Bytes &, const KV &, u64); void send_message(const OpSpec &); void send_close(int, const Bytes &, const KV &); void send_bad(const OpSpec &);
  Bytes pmd_deflate(const Bytes &, int); bool pmd_inflate(const Bytes &, Bytes &); void negotiated(const std::string &);
  void viol(const std::string &, const std::string &); bool wait_for(const std::function<bool()> &, u64, const char *); void stuck(const char *, const std::string &);
  bool bcast_complete(std::string *); bool on_push(const Bytes &); bool pushed(); int xt_has(int); void xt_negotiated(const std::string &); Bytes xt_encode(const Bytes &, int, bool, int &); bool xt_decode(Bytes &, bool); bool greeted(); bool all_pushed(std::string *); void op_silent(const OpSpec &); void op_overdue(const OpSpec &);
  void tls_init(); bool tls_handshake(); void tls_tx(const u8 *, size_t); void tls_rx(const u8 *, size_t); void tls_done(); void tls_flush(); bool tls_bad(const std::string &); void op_tls(const OpSpec &); void tls_policy();
};
struct World {
  KV cfg;
  std::vector<Client *> clients; bool halting = false, halted = false, lenient = false, soft = false, lossy = false, tagged = false, cut_ok = false, favicon = false, has_hosts = false, has_paths = false, has_origins = false, ext = false; int ph = 9080, phs = 9443; bool record = false;
  u64 patience = 30ull * 1000000000ull; u64 harmed = 0, epoch = 0, sent_total = 0, actions = 0; i64 size_frame = 1048576, max_frames = 1048576, size_uri = 1024, size_header = 2048, size_payload = 1 << 20, tclient = -1, pings = 0, tread = -1, twrite = -1;
  std::map<i64, std::set<int>> barrier; std::map<i64, size_t> bar_need; std::vector<std::pair<int, Bytes>> history;
};
extern World W; bool xt_used(); std::string xt_config(const std::string &); int xt_open(); void xt_final(); void probe_final();
inline int Client::port() { return spec.kv.i("tls", 0) ? W.phs : W.ph; }
