// Responses are matched by sequence id; whatever the server answers, each call gets exactly the outcome that answer stands for.
// args: calls in flight, messages from the server, vary meta fields (0: only type/id, 1: everything)
#include "client.h"
static RpcClient* cl; static RpcChannel* ch; static Call* calls[3]; static std::string wire; static std::vector<Wire> seen;
static void absorb(Sock* s) { while (s->wr_) { size_t k = s->wb_.n; wire.append((const char*)s->wb_.p, k); s->sx_write_done(k, ok()); IOS::sx_pump(); } Wire x; while (take_request(wire, &x)) seen.push_back(x); }
void sx_main() {
  int N = sx_arg(0), M = sx_arg(1), V = sx_arg(2); descriptors(); boost::asio::sx_parked() = true; sx_quiet(1); RpcClientOptions o; o.work_thread_num = 1; o.callback_thread_num = 1; cl = new RpcClient(o); ch = new RpcChannel(cl, "10.0.0.1:99");
  for (int i = 0; i < N; i++) { Call* c = calls[i] = new Call(); c->cntl.SetTimeout(1000); c->req.b = std::string(1, (char)('a' + i)); ch->CallMethod(&g_method, &c->cntl, &c->req, &c->res, c); }
  IOS::sx_pump(); Sock* s = Sock::all().back(); s->sx_connect_done(ok()); IOS::sx_pump(); absorb(s); CHECK((int)seen.size() == N, "requests sent"); 
  uint64 id[3]; int want[3]; std::string body[3]; for (int i = 0; i < N; i++) { want[i] = -77; for (int j = 0; j < N; j++) if (seen[j].data == calls[i]->req.b) id[i] = seen[j].meta.sequence_id(); } for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) CHECK(id[i] != id[j], "sequence ids of concurrent calls collide");
  for (int k = 0; k < M && !Sock::all().empty(); k++) {
    RpcMeta m; int who = (int)sx_concretize(sx_range(0, N, "who")); uint64 sid = who < N ? id[who] : 0; if (who == N) { sid = sx_u64("foreign_id"); for (int i = 0; i < N; i++) sx_assume(sid != id[i]); } m.set_sequence_id(sid);
    int type = (int)sx_concretize(sx_range(0, 1, "type")); m.set_type(type ? RpcMeta::RESPONSE : RpcMeta::REQUEST);
    int hf = 1, f = 0, hc = 1, code = 0, hr = 1; if (V) { hf = (int)sx_concretize(sx_range(0, 1, "has_failed")); f = (int)sx_concretize(sx_range(0, 1, "failed")); if (f) { hc = (int)sx_concretize(sx_range(0, 1, "has_code")); hr = (int)sx_concretize(sx_range(0, 1, "has_reason")); code = (int)sx_range(-1, 1001, "code"); } }
    if (hf) m.set_failed(f); if (f && hc) m.set_error_code(code); if (f && hr) m.set_reason("why"); char x; sx_bytes(&x, 1, "body"); std::string d = std::string("R") + (char)('0' + k) + x;
    if (type && who < N && want[who] == -77) { if (!hf || (f && (!hc || !hr))) want[who] = RPC_ERROR_PARSE_RESPONSE_MESSAGE; else if (f) { want[who] = code == 0 ? RPC_ERROR_PARSE_RESPONSE_MESSAGE : code; } else { want[who] = 0; body[who] = d; } }
    feed(s, frame(m, d)); CHECK(s->rd_, "a readable message must not close the connection");
    for (int i = 0; i < N; i++) CHECK(calls[i]->done_n == (want[i] != -77), "completion does not match the answers received");
  }
  for (int i = 0; i < N; i++) if (want[i] != -77) { Call* c = calls[i]; CHECK(c->cntl.ErrorCode() == want[i], "outcome of another answer"); CHECK(c->cntl.Failed() == (want[i] != 0), "Failed()");
    if (want[i] == 0) { CHECK(c->res.b == body[i], "response bytes"); sx_reach("success"); } else { if (want[i] != RPC_ERROR_PARSE_RESPONSE_MESSAGE) CHECK(c->cntl.ErrorText().find("why") != std::string::npos, "reason lost"); sx_reach("failure"); } }
  for (int k = 0; k < 3; k++) { sx_clock_us += 1100000; DT::sx_fire_due(); IOS::sx_pump(); }
  for (int i = 0; i < N; i++) { CHECK(calls[i]->done_n == 1, "unanswered call must time out"); if (want[i] == -77) { CHECK(calls[i]->cntl.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "unanswered call must time out"); sx_reach("unanswered"); } }
  // late answers to finished calls are ignored
  for (int i = 0; i < N; i++) { RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(id[i]); m.set_failed(false); std::string was = calls[i]->res.b; feed(s, frame(m, "late")); CHECK(calls[i]->done_n == 1 && calls[i]->res.b.size() == was.size() && calls[i]->res.b == was, "late answer changed a finished call"); }
  sx_note(1, calls[0]->cntl.ErrorCode()); cl->Shutdown(); for (int i = 0; i < N; i++) delete calls[i]; delete ch; delete cl; sx_reach("end");
}
