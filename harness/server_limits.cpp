// Admission, connection counting and keep-alive of a server.
// args: mode (0 admission, 1 keep-alive), steps
#include "server.h"
enum { MAXP = 5 }; static Peer peer[MAXP]; static bool open_[MAXP]; static int np; static RpcServer* sv;
static int count() { int n = 0; for (int i = 0; i < np; i++) n += open_[i]; return n; }
static void check() { CHECK(sv->ConnectionCount() == count(), "ConnectionCount() is wrong"); for (int i = 0; i < np; i++) CHECK(alive(peer[i].s) == open_[i], open_[i] ? "an admitted connection was closed" : "a connection over the limit, or lost, stays open"); CHECK(sv->IsListening(), "the server stopped listening"); CHECK(acceptor() && acceptor()->acc_, "the server stopped accepting"); }
void sx_main() {
  int MODE = sx_arg(0), K = sx_arg(1); boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false; np = 0;
  RpcServerOptions o; o.work_thread_num = 1; o.io_service_pool_size = MODE == 0 ? 2 : 1; o.disable_builtin_services = true; o.write_buffer_base_block_factor = 0; o.read_buffer_base_block_factor = 1;
  if (MODE == 0) { int limit = (int)sx_concretize(sx_range(0, 3, "limit")) - 1; o.max_connection_count = limit; sv = new RpcServer(o); sv->RegisterService(new Svc("Svc")); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers();
    for (int k = 0; k < K; k++) { int opt[8], n = 0; if (np < MAXP) opt[n++] = 100; opt[n++] = 101; for (int i = 0; i < np; i++) if (open_[i]) opt[n++] = i; int e = opt[sx_concretize(sx_range(0, n - 1, "event"))];
      if (e == 100) { bool admit = limit == -1 || count() < limit; CHECK(connect(peer[np]), "not accepting"); open_[np++] = admit; sx_reach(admit ? "admitted" : "rejected"); } else if (e == 101) { limit = limit >= 2 ? -1 : limit + 1; RpcServerOptions n2 = sv->GetOptions(); n2.max_connection_count = limit; sv->ResetOptions(n2); CHECK(sv->GetOptions().max_connection_count == limit, "options"); } else { peer[e].s->sx_read_done(0, sx_concretize(sx_range(0, 1, "how")) ? eof() : errc(104)); handlers(); open_[e] = false; }
      check(); }
    for (int i = 0; i < np; i++) if (open_[i]) { size_t n = jobs.size(); CHECK(feed(peer[i], request(50 + i, "t.Svc.Do", "q")), "not reading"); CHECK(jobs.size() == n + 1, "request lost"); finish(jobs[n], 0); handlers(); drain(peer[i], 0); Wire w; CHECK(take_response(peer[i].wire, &w) && w.meta.sequence_id() == (uint64)(50 + i), "no response"); } }
  if (MODE == 1) { int T = (int)sx_concretize(sx_range(1, 2, "keep_alive")); o.keep_alive_time = T; sv = new RpcServer(o); sv->RegisterService(new Svc("Svc")); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers(); ticks((int)sx_concretize(sx_range(0, 1, "early")) * 5); CHECK(connect(peer[0]), "not accepting"); np = 1; open_[0] = true; int64_t last = sx_clock_us; int pending = 0; std::string half; bool closed = false; uint64 id = 1; size_t next = 0;
    for (int k = 0; k < K && !closed; k++) { int opt[8], n = 0; opt[n++] = 3; opt[n++] = 4; if (peer[0].s->rd_) opt[n++] = 0; if (pending) opt[n++] = 1; if (peer[0].s->wr_) opt[n++] = 2; int e = opt[sx_concretize(sx_range(0, n - 1, "event"))];
      if (e == 0) { if (half.empty()) { std::string r = request(id++, "t.Svc.Do", "q"); int cut = sx_concretize(sx_range(0, 1, "half")) ? 10 : (int)r.size(); half = r.substr(cut); CHECK(feed(peer[0], r.substr(0, cut)), "not reading"); if (half.empty()) pending++; } else { CHECK(feed(peer[0], half), "not reading"); half.clear(); pending++; } last = sx_clock_us; CHECK((int)jobs.size() - (int)next == pending, "requests not delivered"); }
      if (e == 1) { finish(jobs[next++], 0); handlers(); pending--; } if (e == 2) { drain(peer[0], (size_t)sx_concretize(sx_range(0, 1, "partial")) * 5); last = sx_clock_us; }
      if (e >= 3) for (int t = 0; t < (e == 3 ? 4 : 10 * T); t++) { ticks(1); bool al = alive(peer[0].s); if (pending) CHECK(al, "a connection with a call in progress was closed as idle"); if (al && !pending) CHECK(sx_clock_us - last < T * 1000000LL + 200000, "an idle connection outlived the keep-alive time"); if (!al) { CHECK(sx_clock_us - last >= T * 1000000LL - 100000, "a connection was closed before its keep-alive time"); closed = true; sx_reach("idle"); break; } }
      if (pending) sx_reach("busy"); CHECK(sv->ConnectionCount() == !closed, "ConnectionCount() is wrong"); } 
    while (next < jobs.size()) { finish(jobs[next++], 0); handlers(); } }
  sx_note(1, np); sv->Stop(); for (int i = 0; i < np; i++) CHECK(!alive(peer[i].s), "a stopped server left a connection open"); delete sv; sx_reach("end"); }
