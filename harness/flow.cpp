// Flow control and backpressure of a server.
// args: mode (0 FlowController histories, 1 FlowController races, 2 input limit, 3 output limit, 4 read against maintenance, 5 response against maintenance, 7 backpressure), steps

#include "server.h"
#include <sofa/pbrpc/rpc_server_impl.h>
static int MODE, K; static RpcServer* sv; static Peer peer[2]; static const int64_t Q = 1024 * 1024 / 10;
// FlowController: a grant happens exactly while quota is left; a grant may overdraw, the debt is paid from the next slices
static void controller() { int64_t q0 = sx_range(-1, 9, "quota"); bool lim = q0 >= 0; bool wr = sx_concretize(sx_range(0, 1, "side")); FlowController f(wr ? true : !lim, wr ? 77 : (int)q0, wr ? !lim : true, wr ? (int)q0 : 77); int64_t q = q0;
  for (int k = 0; k < K; k++) { int e = (int)sx_concretize(sx_range(0, 2, "event")); if (e == 0) { int64_t n = sx_range(1, 40, "size"); int r = wr ? f.acquire_write_quota((int)n) : f.acquire_read_quota((int)n); if (!lim) CHECK(r > 0, "an unlimited acquire was refused"); else { CHECK((r > 0) == (q > 0), "granted without quota, or refused with quota left"); if (q <= 0) CHECK(r == (int)q, "order of the refusals lost"); q = q > 0 ? q - n : q - 1; } sx_reach(r > 0 ? "granted" : "refused"); }
    if (e == 1) { int64_t n = sx_range(0, 30, "slice"); if (wr) f.recharge_write_quota((int)n); else f.recharge_read_quota((int)n); if (lim) q = q > 0 ? n : q + n; }
    if (e == 2) { lim = sx_concretize(sx_range(0, 1, "limited")); q = sx_range(0, 30, "newquota"); if (wr) f.reset_write_quota(!lim, (int)q); else f.reset_read_quota(!lim, (int)q); }
    CHECK((wr ? f.has_write_quota() : f.has_read_quota()) == (!lim || q > 0), "has_quota() is wrong"); CHECK((wr ? f.acquire_read_quota(5) : f.acquire_write_quota(5)) > 0, "the other direction was limited"); } }
static FlowController* fc; static int qa[2], res[2][2]; static void taker(void* a) { long t = (long)a; for (int i = 0; i < 2; i++) res[t][i] = fc->acquire_read_quota(qa[t]); } static void charger(void*) { fc->recharge_read_quota(7); }
// two takers and a recharge: the outcome is that of some order of the six operations
static bool order_ok(int q, int a, int b, int c, int end) { if (a == 2 && b == 2 && c == 1) return q == end; if (a < 2 && res[0][a] == q && order_ok(q > 0 ? q - qa[0] : q - 1, a + 1, b, c, end)) return true; if (b < 2 && res[1][b] == q && order_ok(q > 0 ? q - qa[1] : q - 1, a, b + 1, c, end)) return true; return c == 0 && order_ok(q > 0 ? 7 : q + 7, a, b, 1, end); }
static void races() { int q = (int)sx_concretize(sx_range(0, 4, "quota")); qa[0] = (int)sx_concretize(sx_range(1, 2, "size")); qa[1] = 3; fc = new FlowController(false, q, true, 0); spawn(taker, (void*)0); spawn(taker, (void*)1); charger(0); join_spawned(); int end = fc->acquire_read_quota(0); CHECK(order_ok(q, 0, 0, 0, end), "a concurrent acquire or recharge was lost"); sx_note(1, end); }
static RpcServerOptions options() { RpcServerOptions o; o.work_thread_num = 1; o.disable_builtin_services = true; o.write_buffer_base_block_factor = 0; o.read_buffer_base_block_factor = 5; return o; }
static void start(const RpcServerOptions& o, int peers) { sv = new RpcServer(o); sv->RegisterService(new Svc("Svc")); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers(); for (int i = 0; i < peers; i++) CHECK(connect(peer[i]), "accept"); }
static void maintain(void*) { sx_clock_us += 100000; DT::sx_fire_due(); handlers(); }
static size_t answered; static void finish_all() { while (answered < jobs.size()) finish(jobs[answered++], 0); handlers(); }
static void reset(int in, int out, int pend) { RpcServerOptions o = sv->GetOptions(); o.max_throughput_in = in; o.max_throughput_out = out; o.max_pending_buffer_size = pend; sv->ResetOptions(o); }
// the data of every read buffer counts as granted when the read starts
struct Gauge { int64_t granted; int slices; int64_t late; void restart() { granted = 0; slices = 1; } void grant(int64_t n, bool limited) { if (limited) CHECK(granted < slices * Q, "more was granted than the limit allows"); granted += n; } };
static int lim_of(int i) { return i == 3 ? 30000 : i - 1; } // none, 0, 1 or 30000 MB/s
static bool loose(int lim) { return lim == -1 || lim > 1; }
static void input() { RpcServerOptions o = options(); o.read_buffer_base_block_factor = 9; int lim = lim_of((int)sx_concretize(sx_range(0, 3, "limit"))); if (sx_concretize(sx_range(0, 1, "early"))) { sv = new RpcServer(o); sv->RegisterService(new Svc("Svc")); reset(lim, -1, 100); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers(); CHECK(connect(peer[0]), "accept"); CHECK(connect(peer[1]), "accept"); } else { o.max_throughput_in = lim; start(o, 2); }
  Gauge g; g.restart(); int seen[2] = {0, 0}, idle = 0, dry[2] = {0, 0}; uint64 id = 1; int sent[2] = {0, 0};
  for (int k = -2; k <= K; k++) { bool progress = false; for (int i = 0; i < 2; i++) { int n = peer[i].s->nread_; CHECK(n - seen[i] <= 1, "two reads in one step"); if (n > seen[i]) { g.grant(peer[i].s->rd_ ? peer[i].s->rb_.n : 0, !loose(lim)); progress = true; dry[i] = 0; } seen[i] = n; if (loose(lim) && k <= 0) CHECK(peer[i].s->rd_, "an unlimited connection does not read"); }
    if (k == K) break;
    int opt[6], m = 0; opt[m++] = 2; for (int i = 0; i < 2; i++) if (peer[i].s->rd_) opt[m++] = i; opt[m++] = 3; int e = k < 0 ? (peer[0].s->rd_ ? 0 : 2) : opt[sx_concretize(sx_range(0, m - 1, "event"))];
    if (e < 2) { std::string d = request(id++, "t.Svc.Do", "q"); memcpy(peer[e].s->rb_.p, d.data(), d.size()); size_t n = jobs.size(); peer[e].s->sx_read_done(d.size(), ok()); handlers(); CHECK(jobs.size() == n + 1, "request lost"); sent[e]++; }
    if (e == 2) { bool stuck[2] = {!peer[0].s->rd_, !peer[1].s->rd_}; int before = peer[0].s->nread_ + peer[1].s->nread_; maintain(0); g.slices++; int after = peer[0].s->nread_ + peer[1].s->nread_; if (after > before) idle = 0; else if (lim == 1 && (stuck[0] || stuck[1])) { idle++; CHECK(idle <= 3, "a throttled connection is not resumed"); } for (int i = 0; i < 2; i++) if (stuck[i] && lim == 1) { dry[i]++; CHECK(peer[i].s->rd_ || dry[i] <= 5, "a throttled connection starves"); } if (loose(lim)) CHECK(peer[0].s->rd_ && peer[1].s->rd_, "a connection stays throttled without a limit"); if (stuck[0] || stuck[1]) sx_reach("throttled"); }
    if (e == 3) { lim = lim_of((int)sx_concretize(sx_range(0, 3, "limit"))); reset(lim, -1, 100); g.restart(); g.slices = 2; g.granted = 0; idle = 0; dry[0] = dry[1] = 0; } }
  reset(-1, -1, 100); maintain(0); CHECK(peer[0].s->rd_ && peer[1].s->rd_, "a connection stays throttled without a limit"); finish_all(); for (int i = 0; i < 2; i++) { drain(peer[i], 0); Wire w; int n = 0; while (take_response(peer[i].wire, &w)) n++; CHECK(n == sent[i], "responses lost"); } sx_note(1, id); }
static void output() { RpcServerOptions o = options(); o.write_buffer_base_block_factor = 11; int lim = lim_of((int)sx_concretize(sx_range(0, 3, "limit"))); o.max_throughput_out = lim; start(o, 2); Gauge g; g.restart(); uint64 id = 1; int N = K; for (int i = 0; i < N; i++) feed(peer[i & 1], request(id++, "t.Svc.Do", "q")); CHECK((int)jobs.size() == N, "requests lost"); size_t next = 0; std::vector<size_t> owed[2]; int writes[2] = {0, 0}, idle = 0; bool mid[2] = {false, false};
  for (int k = 0; k < N + 4; k++) { int opt[6], m = 0; opt[m++] = 2; if ((int)next < N) opt[m++] = 4; if (peer[0].s->wr_ || peer[1].s->wr_) opt[m++] = 0; if (k < 2) opt[m++] = 3; int e = opt[sx_concretize(sx_range(0, m - 1, "event"))]; int w0[2] = {peer[0].s->nwrite_, peer[1].s->nwrite_}; bool stuck = false; for (int i = 0; i < 2; i++) stuck |= !peer[i].s->wr_ && owed[i].size();
    if (e == 4) { bool big = next < 2 && sx_concretize(sx_range(0, 1, "big")); Job& j = jobs[next]; j.open = false; j.res->b = big ? std::string(110000, 'x') : std::string("R"); owed[next & 1].push_back(j.res->b.size()); next++; j.done->Run(); handlers(); }
    if (e == 0) for (int i = 0; i < 2; i++) if (peer[i].s->wr_) { peer[i].wire.append((const char*)peer[i].s->wb_.p, peer[i].s->wb_.n); peer[i].s->sx_write_done(peer[i].s->wb_.n, ok()); handlers(); Wire w; if (take_response(peer[i].wire, &w)) { CHECK(owed[i].size() && w.data.size() == owed[i][0], "response changed or out of order"); owed[i].erase(owed[i].begin()); mid[i] = false; } }
    if (e == 2) { maintain(0); g.slices++; bool any = peer[0].s->nwrite_ > w0[0] || peer[1].s->nwrite_ > w0[1]; if (stuck) sx_reach("throttled"); if (stuck && lim == 1 && !any) { idle++; CHECK(idle <= 2, "a throttled response is not resumed"); } else idle = 0; if (loose(lim)) for (int i = 0; i < 2; i++) CHECK(peer[i].s->wr_ || owed[i].empty(), "a response stays throttled without a limit"); }
    if (e == 3) { lim = lim_of((int)sx_concretize(sx_range(0, 3, "limit"))); reset(-1, lim, 100); g.restart(); g.slices = 2; idle = 0; }
    for (int i = 0; i < 2; i++) if (peer[i].s->nwrite_ > w0[i] && !mid[i]) { mid[i] = true; g.grant((int64_t)owed[i][0], !loose(lim)); } }
  while ((int)next < N) { Job& j = jobs[next]; j.open = false; j.res->b = "R"; owed[next & 1].push_back(1); next++; j.done->Run(); handlers(); } reset(-1, -1, 100); maintain(0); for (int i = 0; i < 2; i++) { drain(peer[i], 0); Wire w; while (take_response(peer[i].wire, &w)) { CHECK(owed[i].size() && w.data.size() == owed[i][0], "response changed or out of order"); owed[i].erase(owed[i].begin()); } CHECK(owed[i].empty(), "a response stays throttled without a limit"); } sx_note(1, id); }
static void respond(void* a) { finish(jobs[(int)(long)a], 0); }
static void race() { RpcServerOptions o = options(); if (MODE == 4) { o.max_throughput_in = 1; o.read_buffer_base_block_factor = 9; } if (MODE == 5) { o.max_throughput_out = 1; o.write_buffer_base_block_factor = 11; } start(o, 1); size_t n = 0;
  if (MODE == 5) { feed(peer[0], request(1, "t.Svc.Do", "q") + request(2, "t.Svc.Do", "q")); Job& j = jobs[0]; j.open = false; j.res->b = std::string(110000, 'x'); j.done->Run(); handlers(); drain(peer[0], 0); }
  if (MODE == 4) for (int i = 0; i < 3; i++) { CHECK(peer[0].s->rd_, "throttled early"); feed(peer[0], request(10 + i, "t.Svc.Do", "q")); }
  sx_quiet(0); spawn(MODE == 4 ? maintain : respond, (void*)(long)(MODE == 5));
  if (MODE == 5) maintain(0); else { std::string d = request(3, "t.Svc.Do", "q"); memcpy(peer[0].s->rb_.p, d.data(), d.size()); peer[0].s->sx_read_done(d.size(), ok()); handlers(); }
  sx_quiet(1); for (int k = 0; k < 60 && !all_joined(); k++) { handlers(); sx_yield(); } CHECK(all_joined(), "a thread does not return"); join_spawned(); handlers();
  for (int k = 0; k < 3; k++) maintain(0);
  if (MODE == 5) { CHECK(peer[0].s->wr_, "a throttled response is never sent"); drain(peer[0], 0); Wire w; CHECK(take_response(peer[0].wire, &w) && w.data.size() == 110000 && take_response(peer[0].wire, &w) && w.meta.sequence_id() == 2, "responses lost"); } else { CHECK(peer[0].s->rd_, "a throttled connection is never read again"); }
  answered = MODE == 5 ? 2 : 0; finish_all(); drain(peer[0], 0); sx_note(1, n); }
// backpressure: with a pending limit of 0 the server stops reading while a response is queued behind another or behind the limit, and resumes when none is
static void pressure() { RpcServerOptions o = options(); o.max_pending_buffer_size = 0; start(o, 1); uint64 id = 1; size_t next = 0; int lim = -1; std::vector<int64_t> due; // queued responses: expiry, -1 none
  std::deque<int> queue; bool expired_all = false; int pend = 0; std::vector<int64_t> expiry;
  for (int k = 0; k < K; k++) { int opt[8], m = 0; if (peer[0].s->rd_ && id < 6) opt[m++] = 0; if (next < jobs.size()) opt[m++] = 1; if (peer[0].s->wr_) opt[m++] = 2; opt[m++] = 3; opt[m++] = 4; if (k < 3) opt[m++] = 5; int e = opt[sx_concretize(sx_range(0, m - 1, "event"))]; int64 pc, pb, pd; 
    if (e == 0) { bool exp = sx_concretize(sx_range(0, 1, "timeout")); sv->impl()->GetPendingStat(&pc, &pb, &pd); feed(peer[0], request(id++, "t.Svc.Do", "q", exp ? 250 : -1)); CHECK(jobs.size() == id - 1, "request lost"); if (pend == 0 && pb > 0) { CHECK(!peer[0].s->rd_, "the server goes on reading although its pending buffer is full"); sx_reach("suspended"); } }
    if (e == 1) { finish(jobs[next++], 0); handlers(); } if (e == 2) drain(peer[0], (size_t)sx_concretize(sx_range(0, 1, "partial")) * 5);
    if (e == 3) ticks(3); if (e == 4) { pend = 1 - pend; reset(-1, lim, pend); } if (e == 5) { lim = lim == -1 ? 0 : -1; reset(-1, lim, pend); ticks(1); }
    sv->impl()->GetPendingStat(&pc, &pb, &pd); CHECK(pc >= 0 && pb >= 0 && pd >= 0, "negative pending counters"); if (pb == 0) { CHECK(pc == 0 && pd == 0, "pending counters disagree"); if (!peer[0].s->rd_) ticks(1); CHECK(peer[0].s->rd_, "the server does not read although nothing is pending"); } }
  reset(-1, -1, 100); while (next < jobs.size()) finish(jobs[next++], 0); handlers(); for (int k = 0; k < 3; k++) { ticks(1); drain(peer[0], 0); } int64 pc, pb, pd; sv->impl()->GetPendingStat(&pc, &pb, &pd); CHECK(pc == 0 && pb == 0 && pd == 0, "pending counters not balanced"); CHECK(peer[0].s->rd_, "the server does not read although nothing is pending"); sx_note(1, id); }
void sx_main() { MODE = sx_arg(0); K = sx_arg(1); if (MODE == 0) { controller(); sx_reach("end"); return; } if (MODE == 1) { races(); sx_reach("end"); return; }
  boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false; answered = 0; if (MODE == 2) input(); else if (MODE == 3) output(); else if (MODE == 7) pressure(); else race();
  sv->Stop(); for (int i = 0; i < 2; i++) if (peer[i].s) CHECK(!alive(peer[i].s), "a stopped server left a connection open"); delete sv; sx_reach("end"); }
