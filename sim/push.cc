// What the pushing subprotocol sends (a harness plugin the real server loads), and whether it gets there.
#include "client.h"
#include <deque>
#define V(cls, key, ...) do { vkey = key; viol(cls, fmt(__VA_ARGS__)); } while (0)
static std::map<int, std::map<int, std::deque<std::pair<int, Bytes>>>> due;   // receiving connection -> causing connection -> messages
static u64 serial;
extern "C" int push_mode(void) { return W.cfg.i("push", 0); }
extern "C" void push_at(int n) { sync_point("push"); if ((serial * 7 + n) % 5 == 0) { static char o; block(&o, now_ns + 1 + (serial * 7919 + n) % 200000, "slow subprotocol"); } sync_point("push"); }
extern "C" int push_text(int kind, int from, int to, int op, char *b) {
  Conn *f = net_conn_by_fd(from), *t = net_conn_by_fd(to); static const int pads[] = {0, 0, 1, 10, 100, 100, 300, 1000, 4000};
  Bytes s = fmt("@@push!:%c%d.%llu.", kind, f ? f->id : -1, (unsigned long long)++serial); s += gen_payload(serial, pads[serial * 2654435761u >> 8 & 7], true, 0);
  if (kind != 'P') {
    if (!t || !f) violate("push", "push|no-connection", fmt("descriptor %d is open to the subprotocol but no connection", f ? to : from));
    R->st.evals++; due[t->id][f->id].push_back({op, s}); }
  memcpy(b, s.data(), s.size()); sync_point("push"); return s.size();
}
bool Client::on_push(const Bytes &m) {
  if (m.compare(0, 8, "@@push!:")) return false;
  char kind = m.size() > 8 ? m[8] : 0; int from = -1; if (sscanf(m.c_str() + 9, "%d.", &from) < 1 || !strchr("HJBLP", kind)) V("push", "content", "'%s' was never sent", hexs(m).c_str());
  if (kind == 'P') return true;
  if (!pushed()) V("push", "foreign", "'%s' for a client of another subprotocol", hexs(m).c_str());
  auto &q = due[c->id][from];
  if (q.empty()) V("push", "extra", "'%s' was not sent to this client, or was received before", hexs(m).c_str());
  if (q.empty()) return true;
  if (q.front().second != m || q.front().first != msg_op) V("push", "order-or-content", "the next message of connection %d for this client is '%s' (opcode %d), received '%s' (opcode %d)", from, hexs(q.front().second).c_str(), q.front().first, hexs(m).c_str(), msg_op);
  q.pop_front(); R->st.nontrivial++; return true;
}
bool Client::pushed() { return spec.kv.s("sub") == "push"; }
bool Client::greeted() { return !pushed() || due[c->id][c->id].empty(); }
bool Client::all_pushed(std::string *s) { for (auto &x : due[c->id]) if (!x.second.empty()) { if (s) *s = fmt("%zu messages caused by connection %d have not arrived, the first is '%s'", x.second.size(), x.first, hexs(x.second.front().second).c_str()); return false; } return true; }
