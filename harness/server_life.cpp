// Start() either works or fails cleanly, whatever fails in it, and a server can be started again; a listener whose accept failed is restarted, connections go on meanwhile.
// args: mode (0 start faults, 1 accept failures, 2 stop and start again)
#include "server.h"
static Peer peer[3]; static RpcServer* sv; static int fail_stage, fail_thread, threads; static int notified, notified_code;
struct Handler : RpcServer::EventHandler { static int deleted; ~Handler() { deleted++; } void NotifyAcceptFailed(RpcErrorCode c, const std::string& t) { notified++; notified_code = c; CHECK(!t.empty(), "no error text"); } }; int Handler::deleted = 0;
static boost::system::error_code failer(int stage) { return stage == fail_stage ? errc(98) : ok(); }
extern "C" int sx_hook_thread_create_fails() { return threads++ == fail_thread ; }
static int init_calls, init_fail; static int dests; static bool init() { return init_calls++ != init_fail; } static void dest() { dests++; }
static void serve(Peer& p, uint64 id) { CHECK(connect(p), "the server does not accept"); size_t n = jobs.size(); CHECK(feed(p, request(id, "t.Svc.Do", "a")), "not reading"); CHECK(jobs.size() == n + 1, "request lost"); finish(jobs[n], 0); handlers(); drain(p, 0); Wire w; CHECK(take_response(p.wire, &w) && w.meta.sequence_id() == id && w.data == "Ra", "no response"); }
static void settle() { for (int i = 0; i < 30; i++) sx_yield(); }
void sx_main() {
  int MODE = sx_arg(0); boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false; fail_stage = fail_thread = init_fail = -1; threads = init_calls = dests = notified = 0;
  RpcServerOptions o; o.work_thread_num = 2; o.disable_builtin_services = true; o.write_buffer_base_block_factor = 0; o.read_buffer_base_block_factor = 1; if (MODE == 0 || MODE == 2) { o.work_thread_init_func = NewPermanentExtClosure(&init); o.work_thread_dest_func = NewPermanentExtClosure(&dest); }
  sv = new RpcServer(o, new Handler()); CHECK(sv->RegisterService(new Svc("Svc")), "register"); Svc* dup = new Svc("Svc"); CHECK(!sv->RegisterService(dup), "registered twice"); CHECK(sv->ServiceCount() == 1, "service count"); Acc::sx_failer() = failer; int svc0 = Svc::deleted; delete dup;
  CHECK(!sv->IsListening() && sv->ConnectionCount() == 0, "before start");
  if (MODE == 0) { int f = (int)sx_concretize(sx_range(0, 9, "fault")); std::string addr = "1.2.3.4:80"; if (f < 4) fail_stage = f; else if (f < 7) fail_thread = f - 4; else if (f < 9) init_fail = f - 7; else addr = "nowhere"; bool r = sv->Start(addr); CHECK(!r, "Start() succeeds although a part of it failed"); sx_reach("failed"); CHECK(!sv->IsListening() && sv->ConnectionCount() == 0, "a server that failed to start listens"); CHECK(dests == init_calls, "a worker thread ended without its destroy function"); for (size_t i = 0; i < Acc::all().size(); i++) CHECK(!Acc::all()[i]->acc_, "still accepting"); CHECK(IOS::all().empty(), "a failed Start() left an io_service"); fail_stage = fail_thread = init_fail = -1; }
  if (MODE == 2) { CHECK(sv->Start("1.2.3.4:80"), "start"); CHECK(sv->Start("1.2.3.4:80"), "start twice"); CHECK(init_calls == 2, "init functions"); serve(peer[0], 5); bool lose = sx_concretize(sx_range(0, 1, "lose")); if (lose) { peer[0].s->sx_read_done(0, eof()); handlers(); } sv->Stop(); sv->Stop(); CHECK(!alive(peer[0].s), "a stopped server left a connection open"); CHECK(sv->ConnectionCount() == 0 && !sv->IsListening(), "after stop"); CHECK(dests == 2, "destroy functions of the worker threads"); }
  int d0 = dests, i0 = init_calls; CHECK(sv->Start("1.2.3.4:81"), "a server cannot be started"); CHECK(sv->IsListening(), "listening"); serve(peer[1], 6); sx_reach("works");
  if (MODE == 1) { int tries = (int)sx_concretize(sx_range(0, 2, "restart_failures")); bool nofd = sx_concretize(sx_range(0, 1, "no_descriptors")); bool again = true;
    for (int round = 0; round < 2; round++) { notified = 0; acceptor()->sx_accept_done(nofd ? boost::asio::error::make(boost::asio::error::no_descriptors) : errc(71)); handlers(); CHECK(notified == 1, "the event handler was not told once"); CHECK(notified_code == (nofd ? RPC_ERROR_TOO_MANY_OPEN_FILES : RPC_ERROR_UNKNOWN), "error code"); CHECK(!sv->IsListening(), "listening without a listener");
      if (tries) fail_stage = 2; CHECK(alive(peer[1].s), "connection lost"); bool up = false; for (int t = 0; t < 31 * (1 + tries) && !up; t++) { if (t >= 31 * tries) fail_stage = -1; ticks(1); up = sv->IsListening(); if (tries && t < 29) CHECK(!up, "listening though bind fails"); } CHECK(up, "the listener was not restarted"); sx_reach("restarted"); CHECK(alive(peer[1].s), "connection lost"); CHECK(sv->ConnectionCount() == 1, "connection count"); }
    serve(peer[2], 9); size_t n = jobs.size(); feed(peer[1], request(10, "t.Svc.Do", "b")); CHECK(jobs.size() == n + 1, "an older connection stopped working"); finish(jobs[n], 0); handlers(); drain(peer[1], 0); Wire w; CHECK(take_response(peer[1].wire, &w) && w.meta.sequence_id() == 10 && w.data == "Rb", "no response"); }
  sv->Stop(); if (MODE != 1) CHECK(dests - d0 == init_calls - i0 && init_calls - i0 == 2, "init and destroy functions do not match"); CHECK(!sv->IsListening() && sv->ConnectionCount() == 0, "after stop"); delete sv; CHECK(Handler::deleted == 1, "event handler leaked"); CHECK(Svc::deleted == svc0 + 2, "service leaked"); CHECK(IOS::all().empty(), "an io_service leaked"); if (MODE != 1) { delete o.work_thread_init_func; delete o.work_thread_dest_func; } sx_reach("end"); }
