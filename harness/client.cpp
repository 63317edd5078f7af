// A client call completes exactly once, with the outcome the network and the clock justify.
// args: mode (0 histories of network events; 1 response against timeout; 2 call against connection loss; 3 sync call; 4 shutdown against pending calls), calls, steps
#include "client.h"
static RpcClient* cl; static RpcChannel* ch; static Call* calls[3]; static int N, MODE; static std::string wire[4]; static std::vector<Wire> seen; static std::set<uint64> answered; static std::set<char> never; static bool lost, ended; static int64_t TO = 1000;
static Sock* sock() { return Sock::all().empty() ? 0 : Sock::all().back(); }
static std::map<Sock*, int> sid; static int idx(Sock* s) { if (!sid.count(s)) { int n = sid.size(); sid[s] = n; } return sid[s]; }
static void start(int i) { Call* c = calls[i]; c->start = sx_clock_us; ch->CallMethod(&g_method, &c->cntl, &c->req, &c->res, c->sync ? 0 : c); if (c->sync) { c->returned = true; c->done_n++; c->end = sx_clock_us; } }
static void caller(void* a) { start((int)(long)a); }
static void absorb(Sock* s, size_t k) { std::string& w = wire[idx(s)]; w.append((const char*)s->wb_.p, k); s->sx_write_done(k, ok()); Wire x; while (take_request(w, &x)) { CHECK(x.meta.type() == RpcMeta::REQUEST && x.meta.method() == "t.Svc.Do", "request meta"); CHECK(x.meta.server_timeout() == TO, "server timeout"); for (size_t i = 0; i < seen.size(); i++) CHECK(seen[i].meta.sequence_id() != x.meta.sequence_id(), "sequence id reused"); CHECK(!x.data.size() || !never.count(x.data[0]), "a call already given up was sent to the server later"); seen.push_back(x); } }
static std::string reply(const Wire& w, int kind) { RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(w.meta.sequence_id()); if (kind == 0) { m.set_failed(false); return frame(m, "R" + w.data); } if (kind == 1) { m.set_failed(true); m.set_error_code(RPC_ERROR_FROM_USER); m.set_reason("no"); return frame(m, ""); } m.set_failed(false); return frame(m, "!"); }
static void advance(int64_t us) { sx_clock_us += us; DT::sx_fire_due(); }
static void timer(void*) { advance(TO * 1000 + 100000); IOS::sx_pump(); }
static void settle() { for (int i = 0; i < 12; i++) sx_yield(); }
static void stopper(void*) { cl->Shutdown(); ended = true; }
// one network or clock event
static void step() {
  Sock* s = sock(); int opt[8], n = 0; if (s && s->cn_) opt[n++] = 0, opt[n++] = 1; if (s && s->wr_) opt[n++] = 2, opt[n++] = 3; if (s && s->rd_ && seen.size() > answered.size()) opt[n++] = 4; if (s && s->rd_) opt[n++] = 5; opt[n++] = 6;
  int k = opt[sx_concretize(sx_range(0, n - 1, "event"))];
  if (k == 0) { for (int i = 0; i < N; i++) if (calls[i]->done_n) { never.insert(calls[i]->req.b[0]); sx_reach("given-up"); } s->sx_connect_done(ok()); } if (k == 1) { s->sx_connect_done(errc(111)); lost = true; sx_reach("refused"); }
  if (k == 2) absorb(s, s->wb_.n); if (k == 3) { s->sx_write_done(0, errc(104)); lost = true; }
  if (k == 4) { for (size_t i = 0; i < seen.size(); i++) if (!answered.count(seen[i].meta.sequence_id())) { answered.insert(seen[i].meta.sequence_id()); int kind = (int)sx_concretize(sx_range(0, 2, "reply")); feed(s, reply(seen[i], kind)); break; } sx_reach("replied"); }
  if (k == 5) { s->sx_read_done(0, boost::asio::error::make(boost::asio::error::eof)); lost = true; }
  if (k == 6) { advance((TO / 2) * 1000 + 1000); }
  IOS::sx_pump();
  if (k == 1 || k == 3 || k == 5) { for (int i = 0; i < N; i++) CHECK(!calls[i]->start || calls[i]->done_n == 1, "a call outlived its lost connection"); CHECK(cl->ConnectionCount() == 0, "a lost connection is still counted"); } }
// the deterministic network used to finish a run
static void net() { Sock* s = sock(); if (s && s->cn_) s->sx_connect_done(ok()); else if (s && s->wr_) absorb(s, s->wb_.n); IOS::sx_pump(); }
static void judge(Call* c) {
  CHECK(c->done_n == 1, "the call never completed"); int e = c->cntl.ErrorCode(); CHECK(c->cntl.Failed() == (e != RPC_SUCCESS), "Failed() contradicts the error code");
  CHECK(e == RPC_SUCCESS || e == RPC_ERROR_REQUEST_TIMEOUT || e == RPC_ERROR_CONNECTION_CLOSED || e == RPC_ERROR_CHANNEL_BROKEN || e == RPC_ERROR_FROM_USER || e == RPC_ERROR_PARSE_RESPONSE_MESSAGE || e == RPC_ERROR_NOT_IN_RUNNING || e == RPC_ERROR_REQUEST_CANCELED, "unexpected error");
  bool sent = false, ans = false; for (size_t i = 0; i < seen.size(); i++) if (seen[i].data.size() && seen[i].data[0] == c->req.b[0]) { CHECK(seen[i].data.size() == c->req.b.size() && seen[i].data == c->req.b, "request body changed on the wire"); sent = true; ans = answered.count(seen[i].meta.sequence_id()); }
  if (e == RPC_SUCCESS) { CHECK(ans, "success without a response"); CHECK(c->res.b == "R" + c->req.b, "response of another call or changed"); sx_reach("success"); CHECK(c->cntl.IsRequestSent(), "answered but not marked sent"); }
  if (e == RPC_ERROR_FROM_USER) { CHECK(ans, "failure the server never sent"); CHECK(c->cntl.ErrorText().find("no") != std::string::npos, "server's reason lost"); }
  if (e == RPC_ERROR_PARSE_RESPONSE_MESSAGE) CHECK(ans, "parse failure without a response");
  if (e == RPC_ERROR_REQUEST_TIMEOUT) { CHECK(c->end - c->start >= TO * 1000, "timed out before its timeout"); sx_reach("timeout"); }
  if (e == RPC_ERROR_CONNECTION_CLOSED || e == RPC_ERROR_CHANNEL_BROKEN) { CHECK(lost, "connection error without a lost connection"); sx_reach("closed"); }
  if (e == RPC_ERROR_REQUEST_CANCELED) CHECK(0, "cancelled although nobody cancelled it");
  if (e == RPC_ERROR_NOT_IN_RUNNING) CHECK(MODE == 4, "not running"); }
void sx_main() {
  MODE = sx_arg(0); N = sx_arg(1); int K = sx_arg(2); descriptors(); boost::asio::sx_parked() = MODE != 4; lost = ended = false; sx_quiet(1);
  RpcClientOptions o; o.work_thread_num = 1; o.callback_thread_num = 1; o.keep_alive_time = 10; cl = new RpcClient(o); ch = new RpcChannel(cl, "10.0.0.1:99");
  for (int i = 0; i < N; i++) { Call* c = calls[i] = new Call(); c->cntl.SetTimeout(TO); c->req.b = std::string(1, (char)('a' + i)); if (MODE == 0) { char x; sx_bytes(&x, 1, "body"); c->req.b += x; } }
  if (MODE == 3) calls[0]->sync = true; if (MODE) sx_quiet(0); if (MODE == 4) sx_quiet(1);
  if (MODE == 0) { start(0); IOS::sx_pump(); for (int k = 0, i = 1; k < K; k++) { if (i < N && (k >= 2 || sx_concretize(sx_range(0, 1, "call_now")))) { start(i++); IOS::sx_pump(); } step(); } for (int i = 1; i < N; i++) if (!calls[i]->start) { start(i); IOS::sx_pump(); } }
  if (MODE == 1) { start(0); IOS::sx_pump(); sock()->sx_connect_done(ok()); IOS::sx_pump(); if (sock()->wr_) absorb(sock(), sock()->wb_.n); IOS::sx_pump(); CHECK(seen.size() == 1, "request not sent"); spawn(timer, 0); sx_sched_point(); answered.insert(seen[0].meta.sequence_id()); if (sock()->rd_) feed(sock(), reply(seen[0], 0)); if (N > 1) start(1); }
  if (MODE == 2) { start(0); IOS::sx_pump(); int how = (int)sx_concretize(sx_range(0, 1, "loss")); if (how) { sock()->sx_connect_done(ok()); IOS::sx_pump(); } spawn(caller, (void*)1); sx_sched_point(); lost = true; if (how == 0) sock()->sx_connect_done(errc(111)); else if (sock()->rd_) sock()->sx_read_done(0, boost::asio::error::make(boost::asio::error::eof)); IOS::sx_pump(); }
  if (MODE == 3) { spawn(caller, (void*)0); for (int k = 0; k < 6; k++) { sx_sched_point(); Sock* s = sock(); if (s && s->cn_) s->sx_connect_done(ok()); else if (s && s->wr_) absorb(s, s->wb_.n); else if (s && seen.size() > answered.size() && s->rd_) { answered.insert(seen[0].meta.sequence_id()); feed(s, reply(seen[0], 0)); } IOS::sx_pump(); }
    if (!calls[0]->returned) { IOS::sx_pump(); } }
  if (MODE == 4) { start(0); settle(); lost = true; int how = (int)sx_concretize(sx_range(0, 1, "connected")); if (how) { sock()->sx_connect_done(ok()); settle(); } sx_clock_us += TO * 1000 + 100000; DT::sx_fire_due(); sx_quiet(0); spawn(stopper, 0); }
  // whatever happened, once its timeout has passed every call must be complete
  if (MODE == 4) { for (int k = 0; k < 3; k++) { sx_sched_point(); sx_clock_us += 110000; DT::sx_fire_due(); } sx_quiet(1); for (int k = 0; k < 40 && !all_joined(); k++) { sx_clock_us += 110000; DT::sx_fire_due(); sx_yield(); } join_spawned(); }
  else { for (int k = 0; k < 40 && !all_joined(); k++) { if (k == 1) sx_quiet(1); sx_sched_point(); net(); if (k > 1) advance(TO * 1000 + 100000); IOS::sx_pump(); sx_yield(); }
    CHECK(all_joined(), "a synchronous call did not return"); sx_quiet(1); for (int k = 0; k < 3; k++) { advance(TO * 1000 + 100000); IOS::sx_pump(); } for (int i = 0; i < N; i++) CHECK(calls[i]->done_n == 1, "a call did not complete although its timeout has passed"); if (MODE != 4) { int open = cl->ConnectionCount(); for (int k = 0; k < 3; k++) { advance(11000000); IOS::sx_pump(); } CHECK(cl->ConnectionCount() == 0, "an idle connection with no call pending was not closed by keep-alive"); if (open) sx_reach("idle-closed"); } cl->Shutdown(); }
  for (int i = 0; i < N; i++) judge(calls[i]);
  sx_note(1, calls[0]->cntl.ErrorCode());
  for (int i = 0; i < N; i++) delete calls[i]; delete ch; delete cl; sx_reach("end");
}
