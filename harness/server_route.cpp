// A request runs exactly the method it names, or is refused with the error that says why; the service sees only requests that parse.
// args: mode (0 one symbolic byte in the method name, 1 cut or extended names, 2 registered services sharing a cache slot, 3 registration of a service racing with requests)
#include "server.h"
static Peer peer; static RpcServer* sv; static std::vector<std::string> names; static volatile int registered; static void t_reg(void*) { CHECK(sv->RegisterService(new Svc("Bpr")), "register"); registered = 1; }
static void judge(uint64 id, const std::string& method, const std::string& body, size_t before) { drain(peer, 0); handlers();
  bool known = false, dot = method.find('.') != std::string::npos; for (size_t i = 0; i < names.size(); i++) for (int k = 0; k < 2; k++) if (method == names[i] + (k ? ".No" : ".Do")) { known = true; if (jobs.size() > before) { CHECK(jobs[before].m->full_name() == method, "another method was called"); } }
  bool parses = body.empty() || body[0] != '!'; CHECK(jobs.size() == before + (known && parses), known ? "the service was called for an unparsable request, or not called" : "an unknown method was called"); CHECK(alive(peer.s) && peer.s->rd_, "a refused request closed the connection");
  if (known && parses) { CHECK(jobs[before].body == body, "body changed"); finish(jobs[before], 0); handlers(); drain(peer, 0); }
  Wire w; CHECK(take_response(peer.wire, &w), "no response"); CHECK(peer.wire.empty(), "more than one response"); CHECK(w.meta.sequence_id() == id, "sequence id");
  if (known && parses) { CHECK(!w.meta.failed() && w.data == "R" + body, "wrong answer"); sx_reach("called"); } else { CHECK(w.meta.failed(), "a refused request was reported as success"); CHECK(w.data.empty(), "failed response with a body"); int want = !dot ? RPC_ERROR_PARSE_METHOD_NAME : !known ? RPC_ERROR_FOUND_METHOD : RPC_ERROR_PARSE_REQUEST_MESSAGE; CHECK(w.meta.error_code() == want, "wrong error code"); sx_reach(!dot ? "name" : !known ? "unknown" : "unparsable"); } sx_note(1, w.meta.failed()); }
void sx_main() {
  int MODE = sx_arg(0); boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false; RpcServerOptions o; o.work_thread_num = 1; o.disable_builtin_services = true; o.write_buffer_base_block_factor = 0; o.read_buffer_base_block_factor = 1; sv = new RpcServer(o);
  static const char* S0[] = {"Svc", "Other"}; static const char* S2[] = {"Svc", "Bpr", "Ctr"}; const char** S = MODE == 2 ? S2 : S0; int n = MODE == 2 ? 3 : 2; int first = MODE == 2 ? (int)sx_concretize(sx_range(0, n - 1, "order")) : 0;
  for (int i = 0; i < n; i++) { const char* s = S[(i + first) % n]; names.push_back(std::string("t.") + s); CHECK(sv->RegisterService(new Svc(s)), "register"); } CHECK(sv->ServiceCount() == n, "service count"); Svc* dup = new Svc(S[0]); CHECK(!sv->RegisterService(dup, false), "a name registered twice"); delete dup;
  CHECK(sv->Start("1.2.3.4:80"), "start"); handlers(); CHECK(connect(peer), "accept");
  if (MODE == 3) { sx_quiet(0); spawn(t_reg, 0); for (int k = 0; k < 2; k++) { std::string m = k ? "t.Bpr.Do" : "t.Other.No"; sx_sched_point(); bool before = registered; size_t j0 = jobs.size(); CHECK(feed(peer, request(7 + k, m, "x")), "not reading"); bool called = jobs.size() > j0; if (!k) CHECK(called, "a service stopped being found while another one was being registered"); if (k && before) CHECK(called, "a registered service is not found"); if (called) { CHECK(jobs.size() == j0 + 1 && jobs[j0].m->full_name() == m, "another method was called"); sx_quiet(1); finish(jobs[j0], 0); handlers(); sx_reach("called"); } sx_quiet(1); drain(peer, 0); Wire w; CHECK(take_response(peer.wire, &w) && w.meta.sequence_id() == (uint64)(7 + k) && w.meta.failed() == !called, "answer"); if (!called) { CHECK(w.meta.error_code() == RPC_ERROR_FOUND_METHOD, "wrong error code"); sx_reach("unknown"); } if (!k) sx_quiet(0); } join_spawned(); names.push_back("t.Bpr"); CHECK(sv->ServiceCount() == 3, "service count"); n = 3; }
  for (int k = 0; k < 2; k++) { std::string m = names[MODE == 0 && k == 0 ? 0 : sx_concretize(sx_range(0, n - 1, "service"))] + (sx_concretize(sx_range(0, 1, "method")) ? ".No" : ".Do");
    if (MODE == 0 && k == 0) { int p = (int)sx_concretize(sx_range(0, (int)m.size() - 1, "at")); sx_bytes(&m[p], 1, "byte"); }
    if (MODE == 1) { int p = (int)sx_concretize(sx_range(0, (int)m.size(), "cut")); int q = (int)sx_concretize(sx_range(0, 4, "edit")); if (q == 0) m = m.substr(0, p); if (q == 1) m = m.substr(p); if (q == 2) m = m.substr(0, p) + "." + m.substr(p); if (q == 3) m = m.substr(0, p) + std::string(1, '\0') + m.substr(p); if (q == 4 && p < (int)m.size()) m.erase(p, 1); }
    std::string body = "b"; if (MODE != 1) sx_bytes(&body[0], 1, "body"); uint64 id = sx_u64("seq"); size_t before = jobs.size(); CHECK(feed(peer, request(id, m, body)), "not reading"); judge(id, m, body, before); if (MODE == 1 || MODE == 3) break; }
  sv->Stop(); delete sv; sx_reach("end"); }
