// Every request gets exactly one response, with its own sequence id and the outcome of its own service call.
// args: connections, steps, requests, flags (1 server timeouts, 2 whole writes only)
#include "server.h"
struct Req { int peer; uint64 id; std::string body; int64 to, at; int job, kind, got; int64_t done_at; bool finished; bool open_at_finish; };
static Peer peer[2]; static std::vector<Req> reqs; static int NP, F; static RpcServer* sv;
static void collect(int p) { Wire w; while (take_response(peer[p].wire, &w)) { int k = -1; for (size_t i = 0; i < reqs.size(); i++) if (reqs[i].peer == p && reqs[i].id == w.meta.sequence_id()) k = (int)i; CHECK(k >= 0, "a response to a request this client never sent"); Req& r = reqs[k]; CHECK(r.finished, "a response before the service finished the call"); CHECK(++r.got == 1, "two responses to one request");
    if (r.to) CHECK(r.done_at - r.at <= r.to * 1000, "a response after the request's server timeout"); CHECK(r.kind != 2, "response to a call whose response cannot be written");
    if (r.kind == 0) { CHECK(w.meta.has_failed() && !w.meta.failed(), "success reported as failure"); CHECK(w.data == "R" + r.body, "response body changed or of another call"); CHECK(w.meta.compress_type() == CompressTypeNone, "compressed though nobody asked"); sx_reach("success"); }
    else { CHECK(w.meta.failed(), "failure reported as success"); CHECK(w.meta.error_code() == RPC_ERROR_FROM_USER, "error code of a failed call"); CHECK(w.meta.reason() == "why" + r.body, "reason lost"); CHECK(w.data.empty(), "a failed response with a body"); sx_reach("failure"); } } }
static void send(int p) { Req r; r.peer = p; r.id = 0; r.to = 0; r.kind = 0; r.got = 0; r.done_at = 0; r.finished = r.open_at_finish = false; int n = (int)reqs.size(); r.id = n == 0 ? sx_u64("seq") : reqs[0].id + (uint64)n * 0x100000001ULL; char c; sx_bytes(&c, 1, "body"); sx_assume(c != '!'); r.body = std::string(1, c) + (char)('a' + n); if (F & 1) r.to = sx_concretize(sx_range(0, 1, "timed")) ? 500 : 0; r.at = sx_clock_us;
  size_t before = jobs.size(); bool was = feed(peer[p], request(r.id, n & 1 ? "t.Svc.No" : "t.Svc.Do", r.body, r.to ? (int64)r.to : (F & 1 ? 0 : -1))); CHECK(was, "the server stopped reading an open connection"); CHECK(jobs.size() == before + 1, "a request did not reach the service exactly once"); r.job = (int)before; Job& j = jobs[before]; CHECK(j.body == r.body, "request body changed"); CHECK(j.m->index() == (n & 1) && j.m->name() == (n & 1 ? "No" : "Do"), "wrong method called"); reqs.push_back(r); }
static void complete(int i) { Req& r = reqs[i]; r.kind = (int)sx_concretize(sx_range(0, 2, "outcome")); r.finished = true; r.done_at = sx_clock_us; r.open_at_finish = !peer[r.peer].lost; finish(jobs[r.job], r.kind); IOS::sx_pump(); }
void sx_main() {
  NP = sx_arg(0); int K = sx_arg(1), N = sx_arg(2); F = sx_arg(3); boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false;
  RpcServerOptions o; o.work_thread_num = 1; o.disable_builtin_services = true; o.write_buffer_base_block_factor = 0; o.read_buffer_base_block_factor = 1; o.keep_alive_time = 1000; sv = new RpcServer(o); Svc* s1 = new Svc("Svc"); Svc* s2 = new Svc("Other"); CHECK(sv->RegisterService(s2) && sv->RegisterService(s1), "register"); CHECK(sv->Start("1.2.3.4:80"), "start"); IOS::sx_pump();
  for (int p = 0; p < NP; p++) CHECK(connect(peer[p]), "the server does not accept connections"); CHECK(sv->ConnectionCount() == NP, "connection count"); int base = Payload::live;
  for (int k = 0; k < K; k++) { int opt[24], n = 0; for (int p = 0; p < NP; p++) if (!peer[p].lost) { if ((int)reqs.size() < N) opt[n++] = p; if (peer[p].s->wr_ && !(F & 2)) opt[n++] = 2 + p; if (reqs.size()) opt[n++] = 4 + p; } for (size_t i = 0; i < reqs.size(); i++) if (!reqs[i].finished) opt[n++] = 10 + (int)i; if ((F & 1) && reqs.size()) opt[n++] = 6; if (!n) break;
    int e = opt[sx_concretize(sx_range(0, n - 1, "event"))]; if (e < 2) send(e); if (e == 2 || e == 3) { drain(peer[e - 2], (size_t)sx_concretize(sx_range(0, 1, "partial")) * 20); collect(e - 2); } if (e == 4 || e == 5) { peer[e - 4].s->sx_read_done(0, eof()); IOS::sx_pump(); peer[e - 4].lost = true; sx_reach("lost"); } if (e == 6) advance(400000); if (e >= 10) complete(e - 10); if (F & 2) for (int p = 0; p < NP; p++) if (!peer[p].lost) { drain(peer[p], 0); collect(p); } }
  for (size_t i = 0; i < reqs.size(); i++) if (!reqs[i].finished) complete((int)i);
  for (int p = 0; p < NP; p++) if (!peer[p].lost) { drain(peer[p], 0); collect(p); CHECK(peer[p].wire.empty(), "bytes that are no response"); }
  int open = 0; for (int p = 0; p < NP; p++) if (!peer[p].lost) { open++; CHECK(alive(peer[p].s), "a healthy connection was closed"); } CHECK(sv->ConnectionCount() == open, "connection count");
  for (size_t i = 0; i < reqs.size(); i++) { Req& r = reqs[i]; bool late = r.to && r.done_at - r.at > r.to * 1000; if (late) sx_reach("late"); if (!peer[r.peer].lost && !late && r.kind != 2) CHECK(r.got == 1, "a request was never answered"); sx_note(1, r.got); }
  CHECK(Payload::live == base, "request or response messages leaked");
  // nothing is pending any more: keep-alive must close what is left
  advance(1001000000LL); advance(1001000000LL); IOS::sx_pump(); CHECK(sv->ConnectionCount() == 0, "an idle connection was not closed by keep-alive");
  sv->Stop(); delete sv; CHECK(Svc::deleted == 2, "services leaked"); sx_reach("end"); }
