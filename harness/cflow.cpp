// Flow control and backpressure of a client.
// args: mode (0 input limit, 1 output limit, 2 pending limit, 3 read against maintenance, 4 call against maintenance), steps
#include "client.h"
static int MODE, K; static RpcClient* cl; static RpcChannel* ch; static Call* calls[8]; static int nc; static std::string wire; static std::vector<Wire> seen; static size_t replied; static const int64_t Q = 1024 * 1024 / 10;
static Sock* sock() { return Sock::all().empty() ? 0 : Sock::all().back(); }
static void absorb() { Sock* s = sock(); wire.append((const char*)s->wb_.p, s->wb_.n); s->sx_write_done(s->wb_.n, ok()); IOS::sx_pump(); Wire x; while (take_request(wire, &x)) { CHECK(x.data.size() && x.data[0] == 'a' + (int)seen.size(), "requests reordered, lost or sent twice"); seen.push_back(x); } }
static Call* call(size_t size = 1) { Call* c = calls[nc] = new Call(); c->req.b = std::string(size, 'x'); c->req.b[0] = (char)('a' + nc); nc++; c->cntl.SetTimeout(100000); c->start = 1; ch->CallMethod(&g_method, &c->cntl, &c->req, &c->res, c); return c; }
static std::string reply(const Wire& w) { RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(w.meta.sequence_id()); m.set_failed(false); return frame(m, "R" + w.data.substr(0, 1)); }
static void maintain(void*) { sx_clock_us += 100000; DT::sx_fire_due(); IOS::sx_pump(); }
static void reset(int in, int out, int pend) { RpcClientOptions o = cl->GetOptions(); o.max_throughput_in = in; o.max_throughput_out = out; o.max_pending_buffer_size = pend; cl->ResetOptions(o); }
static int lim_of(int i) { return i == 3 ? 30000 : i - 1; } static bool loose(int lim) { return lim == -1 || lim > 1; } static int pick_limit() { return lim_of((int)sx_concretize(sx_range(0, 3, "limit"))); }
static int64_t granted; static int slices; static void restart() { granted = 0; slices = 2; } static void grant(int64_t n, bool limited) { if (limited) CHECK(granted < slices * Q, "more was granted than the limit allows"); granted += n; }
static void send_reply() { std::string d = reply(seen[replied]); memcpy(sock()->rb_.p, d.data(), d.size()); sock()->sx_read_done(d.size(), ok()); IOS::sx_pump(); CHECK(calls[replied]->done_n == 1 && !calls[replied]->cntl.Failed() && calls[replied]->res.b == "R" + calls[replied]->req.b.substr(0, 1), "a response was lost"); replied++; }
static void make(const RpcClientOptions& o0, int lim_in, int lim_out, bool late) { RpcClientOptions o = o0; o.work_thread_num = 1; o.callback_thread_num = 1; if (!late) { o.max_throughput_in = lim_in; o.max_throughput_out = lim_out; } cl = new RpcClient(o); if (late) reset(lim_in, lim_out, o.max_pending_buffer_size); ch = new RpcChannel(cl, "10.0.0.1:99"); }
static void input() { int lim = pick_limit(); make(RpcClientOptions(), lim, -1, sx_concretize(sx_range(0, 1, "late"))); for (int i = 0; i < 6; i++) { call(); if (i == 0) { sock()->sx_connect_done(ok()); IOS::sx_pump(); } while (sock()->wr_) absorb(); } CHECK(seen.size() == 6, "requests lost"); restart(); slices = 1; int reads = 0, dry = 0;
  for (int k = -3; k <= K; k++) { int n = sock()->nread_; CHECK(n - reads <= 1, "two reads in one step"); if (n > reads) { grant(sock()->rd_ ? sock()->rb_.n : 0, !loose(lim)); dry = 0; } reads = n; if (loose(lim) && k <= 0) CHECK(sock()->rd_, "an unlimited connection does not read"); if (k == K) break;
    int opt[4], m = 0; opt[m++] = 1; if (sock()->rd_ && replied < seen.size()) opt[m++] = 0; opt[m++] = 2; int e = k < 0 ? (sock()->rd_ ? 0 : 1) : opt[sx_concretize(sx_range(0, m - 1, "event"))]; bool stuck = !sock()->rd_;
    if (e == 0) send_reply(); if (e == 1) { maintain(0); slices++; if (stuck) sx_reach("throttled"); if (stuck && lim == 1) { dry++; CHECK(sock()->rd_ || dry <= 2, "a throttled connection is not resumed"); } if (loose(lim)) CHECK(sock()->rd_, "a connection stays throttled without a limit"); } if (e == 2) { lim = pick_limit(); reset(lim, -1, 100); restart(); dry = 0; } }
  reset(-1, -1, 100); maintain(0); CHECK(sock()->rd_, "a connection stays throttled without a limit"); while (replied < seen.size()) send_reply(); }
static void output() { int lim = pick_limit(); make(RpcClientOptions(), -1, lim, sx_concretize(sx_range(0, 1, "late"))); std::vector<int64_t> owed; size_t done = 0, began = 0; call(); owed.push_back(1); sock()->sx_connect_done(ok()); IOS::sx_pump(); restart(); slices = 1; int idle = 0;
  for (int k = 0; k < K; k++) { if (sock()->wr_ && began == done) { grant(owed[began++], !loose(lim)); } int opt[5], m = 0; opt[m++] = 1; if (nc < 4) opt[m++] = 0; if (sock()->wr_) opt[m++] = 2; if (k < 2) opt[m++] = 3; int e = opt[sx_concretize(sx_range(0, m - 1, "event"))]; bool stuck = !sock()->wr_ && done < owed.size();
    if (e == 0) { bool big = nc < 3 && sx_concretize(sx_range(0, 1, "big")); size_t n = big ? 110000 : 1; call(n); owed.push_back(n); IOS::sx_pump(); } if (e == 2) { size_t n = seen.size(); while (sock()->wr_ && seen.size() == n) absorb(); done = seen.size(); CHECK(done == began, "request not sent whole"); }
    if (e == 1) { maintain(0); slices++; if (stuck) sx_reach("throttled"); if (stuck && lim == 1 && !sock()->wr_) { idle++; CHECK(idle <= 2, "a throttled request is not resumed"); } else idle = 0; if (loose(lim)) CHECK(sock()->wr_ || done == owed.size(), "a request stays throttled without a limit"); } if (e == 3) { lim = pick_limit(); reset(-1, lim, 100); restart(); idle = 0; } }
  reset(-1, -1, 100); maintain(0); while (sock()->wr_) absorb(); CHECK((int)seen.size() == nc, "a request stays throttled without a limit"); while (replied < seen.size()) send_reply(); }
// a pending limit of 0: a call is refused exactly while an earlier request waits in the queue; afterwards calls work again
static void pending() { RpcClientOptions o; o.max_pending_buffer_size = (int)sx_concretize(sx_range(0, 1, "limit")); make(o, -1, -1, false); int pend = o.max_pending_buffer_size; bool up = false; std::vector<int> queue; bool writing = false; std::vector<bool> refused;
  for (int k = 0; k < K; k++) { Sock* s = sock(); int opt[5], m = 0; if (nc < 5) opt[m++] = 0; if (s && s->cn_) opt[m++] = 1; if (s && s->wr_) opt[m++] = 2; opt[m++] = 3; int e = opt[sx_concretize(sx_range(0, m - 1, "event"))];
    if (e == 0) { int waiting = (int)queue.size() - (up && queue.size() ? 1 : 0); bool full = pend == 0 && waiting > 0; Call* c = new Call(); c->req.b = std::string(1, (char)('a' + (int)(seen.size() + queue.size()))); c->cntl.SetTimeout(100000); c->start = 1; ch->CallMethod(&g_method, &c->cntl, &c->req, &c->res, c); IOS::sx_pump(); if (full) { CHECK(c->done_n == 1 && c->cntl.ErrorCode() == RPC_ERROR_SEND_BUFFER_FULL, "a call beyond the pending limit was not refused"); delete c; sx_reach("full"); } else { CHECK(c->done_n == 0, "a call within the pending limit was refused"); calls[nc++] = c; queue.push_back(nc - 1); } }
    if (e == 1) { s->sx_connect_done(ok()); IOS::sx_pump(); up = true; } if (e == 2) { size_t n = seen.size(); while (sock()->wr_ && seen.size() == n) absorb(); CHECK(seen.size() == n + 1, "request not sent whole"); queue.erase(queue.begin()); } if (e == 3) { pend = 1 - pend; reset(-1, -1, pend); } }
  if (nc) { if (sock()->cn_) { sock()->sx_connect_done(ok()); IOS::sx_pump(); } while (sock()->wr_) absorb(); } CHECK((int)seen.size() == nc, "an accepted request was never sent"); while (replied < seen.size()) send_reply(); }
static void caller(void*) { call(); }
static void race() { RpcClientOptions o; make(o, MODE == 3 ? 1 : -1, MODE == 4 ? 1 : -1, false); call(MODE == 4 ? 110000 : 1); sock()->sx_connect_done(ok()); IOS::sx_pump(); while (sock()->wr_) absorb(); if (MODE == 3) for (int i = 1; i < 5; i++) { call(); while (sock()->wr_) absorb(); } CHECK(!seen.empty(), "not sent"); if (MODE == 3) for (int i = 0; i < 3; i++) { CHECK(sock()->rd_, "throttled early"); send_reply(); }
  sx_quiet(0); spawn(MODE == 3 ? maintain : caller, 0); if (MODE == 4) maintain(0); else { std::string d = reply(seen[replied]); memcpy(sock()->rb_.p, d.data(), d.size()); sock()->sx_read_done(d.size(), ok()); IOS::sx_pump(); }
  sx_quiet(1); for (int k = 0; k < 60 && !all_joined(); k++) { IOS::sx_pump(); sx_yield(); } CHECK(all_joined(), "a thread does not return"); join_spawned(); IOS::sx_pump(); if (MODE == 3) { CHECK(calls[replied]->done_n == 1, "a response was lost"); replied++; } for (int k = 0; k < 3; k++) maintain(0);
  if (MODE == 3) CHECK(sock()->rd_, "a throttled connection is never read again"); else { CHECK(sock()->wr_, "a throttled request is never sent"); while (sock()->wr_) absorb(); CHECK(seen.size() == 2, "request lost"); } while (replied < seen.size()) { maintain(0); send_reply(); } }
void sx_main() { MODE = sx_arg(0); K = sx_arg(1); descriptors(); boost::asio::sx_parked() = true; sx_quiet(1); nc = 0; replied = 0;
  if (MODE == 0) input(); else if (MODE == 1) output(); else if (MODE == 2) pending(); else race();
  for (int i = 0; i < nc; i++) CHECK(calls[i]->done_n == 1, "a call never completed"); sx_note(1, nc); cl->Shutdown(); for (int i = 0; i < nc; i++) { CHECK(calls[i]->done_n == 1, "completed again by shutdown"); delete calls[i]; } delete ch; delete cl; sx_reach("end"); }
