// A server whose worker threads, network thread, maintenance timer and Stop() race.
// args: mode (1 two completions, 2 completion against connection loss, 3 completion against Stop, 4 accept against Stop, 5 listener restart against Stop, 6 maintenance against Stop, 7 request against Stop, 8 maintenance against connection loss)
#include "server.h"
static Peer peer[2]; static RpcServer* sv; static bool stopped; static int MODE; static int kind0;
static void complete(void* a) { finish(jobs[(int)(long)a], (long)a == 0 ? kind0 : 0); } static void stop(void*) { sv->Stop(); stopped = true; }
static void maintain(void*) { sx_clock_us += 100000; DT::sx_fire_due(); handlers(); }
static int got[2];
static void collect() { Wire w; while (take_response(peer[0].wire, &w)) { uint64 id = w.meta.sequence_id(); CHECK(id == 7 || id == 8, "a response nobody asked for"); CHECK(++got[id - 7] == 1, "two responses to one request"); if (id == 7 && kind0) CHECK(w.meta.failed() && w.meta.reason() == "whya", "outcome changed"); else CHECK(!w.meta.failed() && w.data == (id == 7 ? "Ra" : "Rb"), "body changed"); } }
void sx_main() {
  MODE = sx_arg(0); bool stopping = MODE >= 3 && MODE <= 7; boost::asio::sx_parked() = !stopping; sx_quiet(1); inline_reply = MODE == 7; stopped = false; kind0 = 0; got[0] = got[1] = 0;
  RpcServerOptions o; o.work_thread_num = 1; o.disable_builtin_services = true; o.write_buffer_base_block_factor = 0; o.read_buffer_base_block_factor = 1; o.keep_alive_time = MODE == 8 || MODE == 6 ? 1 : -1; sv = new RpcServer(o); sv->RegisterService(new Svc("Svc")); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers();
  int base = Payload::live; 
  if (MODE != 4) CHECK(connect(peer[0]), "accept");
  if (MODE <= 3) { feed(peer[0], request(7, "t.Svc.Do", "a")); if (MODE == 1) feed(peer[0], request(8, "t.Svc.Do", "b")); kind0 = (int)sx_concretize(sx_range(0, 1, "outcome")); CHECK((int)jobs.size() == (MODE == 1 ? 2 : 1), "requests not delivered"); }
  if (MODE == 5) { Acc* a = acceptor(); a->sx_accept_done(boost::asio::error::make(boost::asio::error::no_descriptors)); handlers(); CHECK(!sv->IsListening(), "still listening"); for (int i = 0; i < 29; i++) maintain(0); CHECK(!sv->IsListening(), "restarted early"); }
  if (MODE == 6 || MODE == 8) for (int i = 0; i < 10; i++) maintain(0);
  sx_quiet(0);
  if (MODE <= 3) spawn(complete, (void*)0); if (MODE == 1) spawn(complete, (void*)1); if (stopping) spawn(stop, 0); if (MODE == 8) spawn(maintain, 0);
  sx_sched_point();
  if (MODE == 2 || MODE == 8) { if (alive(peer[0].s) && peer[0].s->rd_) { peer[0].s->sx_read_done(0, eof()); peer[0].lost = true; } handlers(); }
  if (MODE == 4) { Acc* a = acceptor(); if (a && a->acc_) { peer[0].s = a->sk_; a->sx_accept_done(ok()); } }
  if (MODE == 5 || MODE == 6) { sx_clock_us += 100000; DT::sx_fire_due(); }
  if (MODE == 7 && alive(peer[0].s) && peer[0].s->rd_) { std::string d = request(7, "t.Svc.Do", "a"); CHECK(d.size() <= peer[0].s->rb_.n, "harness"); memcpy(peer[0].s->rb_.p, d.data(), d.size()); peer[0].s->sx_read_done(d.size(), ok()); }
  if (MODE == 1) for (int k = 0; k < 4; k++) { sx_sched_point(); drain(peer[0], 0); }
  if (MODE == 3) for (int k = 0; k < 2; k++) { sx_sched_point(); if (alive(peer[0].s) && peer[0].s->wr_) { peer[0].wire.append((const char*)peer[0].s->wb_.p, peer[0].s->wb_.n); peer[0].s->sx_write_done(peer[0].s->wb_.n, ok()); } }
  if (!stopping) sx_quiet(1); for (int k = 0; k < 60 && !all_joined(); k++) { if (k == 2) sx_quiet(1); if (stopping && k > 2) { sx_clock_us += 110000; DT::sx_fire_due(); } sx_yield(); } CHECK(all_joined(), "Stop() or done->Run() does not return"); join_spawned(); sx_quiet(1);
  if (!stopping) { handlers(); if (alive(peer[0].s)) drain(peer[0], 0); collect(); if (MODE == 1) { CHECK(got[0] == 1 && got[1] == 1, "a request was never answered"); sx_reach("answered"); CHECK(sv->ConnectionCount() == 1, "connection lost"); } else { CHECK(sv->ConnectionCount() == 0, "a lost connection is still counted"); CHECK(!alive(peer[0].s), "the socket of a lost connection stays open"); sx_reach("lost"); }
    CHECK(Payload::live == base, "request or response messages leaked"); sv->Stop(); stopped = true; }
  collect(); CHECK(stopped, "Stop() did not return"); CHECK(sv->ConnectionCount() == 0, "a stopped server still holds a connection"); CHECK(!sv->IsListening(), "a stopped server still listens"); if (peer[0].s) CHECK(!alive(peer[0].s), "a stopped server left a connection open"); for (size_t i = 0; i < Acc::all().size(); i++) CHECK(!Acc::all()[i]->acc_, "a stopped server still accepts");
  CHECK(Payload::live == base, "request or response messages leaked"); sx_note(1, got[0]); sx_note(2, Svc::deleted); delete sv; if (MODE != 3) CHECK(Svc::deleted == 1, "service leaked"); if (MODE != 3) CHECK(IOS::all().empty(), "an io_service leaked"); if (peer[0].s) CHECK(!alive(peer[0].s), "a deleted server left a connection open"); sx_reach("end"); }
