// Every unanswered call times out at its own time: not before its timeout, not more than a timer period after it, whatever other calls came, went or timed out.
// args: calls, steps, answers (1: the server may answer some calls), calls whose timeout is any value of 1..280 ms (the others: 40, 140 or 250)
#include "client.h"
static RpcClient* cl; static RpcChannel* ch; static Call* calls[6]; static int64_t tmo[6]; static int N; static std::string wire; static std::vector<Wire> seen; static std::set<uint64> answered;
enum { PERIOD = 100000 };
static Sock* sock() { return Sock::all().empty() ? 0 : Sock::all().back(); }
static void absorb(Sock* s) { size_t k = s->wb_.n; wire.append((const char*)s->wb_.p, k); s->sx_write_done(k, ok()); Wire x; while (take_request(wire, &x)) seen.push_back(x); }
static void start(int i) { Call* c = calls[i]; c->start = sx_clock_us; ch->CallMethod(&g_method, &c->cntl, &c->req, &c->res, c); IOS::sx_pump(); while (sock()->wr_) { absorb(sock()); IOS::sx_pump(); } }
static void check() { for (int i = 0; i < N; i++) { Call* c = calls[i]; if (!c->start) continue; int64_t age = sx_clock_us - c->start;
    if (c->done_n) { if (c->cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT) { CHECK(c->end - c->start >= tmo[i] * 1000, "a call timed out before its timeout"); CHECK(c->end - c->start <= tmo[i] * 1000 + PERIOD, "a call timed out long after its timeout"); sx_reach("timeout"); } else { CHECK(c->cntl.ErrorCode() == RPC_SUCCESS && c->res.b == "R" + c->req.b, "outcome"); sx_reach("success"); } }
    else CHECK(age <= tmo[i] * 1000 + PERIOD, "an unanswered call outlived its timeout by more than a timer period"); } }
static void tick(int64_t us) { for (int64_t t = 0; t < us; t += 10000) { sx_clock_us += 10000; if (DT::sx_fire_due()) IOS::sx_pump(); } check(); }
static void answer(int i) { for (size_t k = 0; k < seen.size(); k++) if (seen[k].data == calls[i]->req.b && !answered.count(seen[k].meta.sequence_id())) { answered.insert(seen[k].meta.sequence_id()); RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(seen[k].meta.sequence_id()); m.set_failed(false); bool was = calls[i]->done_n; feed(sock(), frame(m, "R" + seen[k].data)); CHECK(calls[i]->done_n == 1, "answered call not complete"); if (!was) CHECK(calls[i]->cntl.ErrorCode() == RPC_SUCCESS, "answered call failed"); return; } }
void sx_main() {
  N = sx_arg(0); int K = sx_arg(1), A = sx_arg(2); descriptors(); boost::asio::sx_parked() = true; sx_quiet(1);
  RpcClientOptions o; o.work_thread_num = 1; o.callback_thread_num = 1; cl = new RpcClient(o); ch = new RpcChannel(cl, "10.0.0.1:99");
  for (int i = 0; i < N; i++) { Call* c = calls[i] = new Call(); if (i < sx_arg(3)) tmo[i] = sx_range(1, 280, "timeout"); else { static const int V[] = {40, 140, 250}; tmo[i] = V[sx_concretize(sx_range(0, 2, "timeout"))]; } c->cntl.SetTimeout(tmo[i]); c->req.b = std::string(1, (char)('a' + i)); }
  start(0); sock()->sx_connect_done(ok()); IOS::sx_pump(); while (sock()->wr_) { absorb(sock()); IOS::sx_pump(); }
  int next = 1;
  for (int k = 0; k < K; k++) { int opt[8], n = 0; if (next < N) opt[n++] = 0; opt[n++] = 1; opt[n++] = 2; if (A) for (int i = 0; i < next; i++) if (!calls[i]->done_n) opt[n++] = 3 + i; int e = opt[sx_concretize(sx_range(0, n - 1, "event"))]; if (e == 0) start(next++); if (e == 1) tick(40000); if (e == 2) tick(130000); if (e >= 3) answer(e - 3); check(); }
  while (next < N) start(next++);
  for (int k = 0; k < 4; k++) tick(100000);
  for (int i = 0; i < N; i++) { CHECK(calls[i]->done_n == 1, "a call never completed"); sx_note(1, calls[i]->cntl.ErrorCode()); }
  cl->Shutdown(); for (int i = 0; i < N; i++) { CHECK(calls[i]->done_n == 1, "completed again by shutdown"); delete calls[i]; } delete ch; delete cl; sx_reach("end"); }
