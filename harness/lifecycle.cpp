// Life of a connection: connect, data, faults and close() from several threads; closed exactly once and for good.
// args: scenario (0 close while connecting, 1 close while the connect is being started, 2 two closes on a live connection, 3 close while sending, 4 connect timeout, 5 read/write faults, 6 server connection being set up), steps
#include "cli.h"
static CliP st; static IOService* io; static bool closed_ret; static int SC;
static void closer(void*) { st->close("closed by user"); closed_ret = true; CHECK(st->is_closed(), "a closed connection must stay closed"); }
static void starter(void*) { st->async_connect(); }
static void sender(void*) { st->async_send_message(make_buf("ab"), 1); st->async_send_message(make_buf("c"), 2); }
static void setup(void*) { st->set_socket_connected(); }
static void inv() { bool was = st->is_closed(); (void)was; if (closed_ret) CHECK(st->is_closed(), "a closed connection came back to life"); CHECK(st->closed_n <= 1, "close reported twice"); }
static boost::system::error_code err(int e) { return boost::system::error_code(e, boost::system::system_category()); }
static void net(int& budget) {
  if (st->socket().cn_) { int c = (int)sx_concretize(sx_range(0, 1, "connect_fails")); st->socket().sx_connect_done(c ? err(111) : boost::system::error_code()); }
  else if (st->socket().wr_) { int c = (int)sx_concretize(sx_range(0, 1, "write_fails")); st->socket().sx_write_done(c ? 0 : st->socket().wb_.n, c ? err(104) : boost::system::error_code()); }
  else if (SC == 5 && st->socket().rd_) { int c = (int)sx_concretize(sx_range(0, 2, "read_ends")); if (c) st->socket().sx_read_done(0, c == 1 ? boost::asio::error::make(boost::asio::error::eof) : err(104)); else { memset(st->socket().rb_.p, 'S', 1); st->socket().sx_read_done(1, boost::system::error_code()); } }
  io->sx_run_all(); budget--; inv(); }
void sx_main() {
  SC = sx_arg(0); int budget = sx_arg(1); IOService s; io = &s; closed_ret = false;
  st.reset(new Cli(s, RpcEndpoint(boost::asio::ip::address(0x0a000001), 77), SC == 6 ? Cli::ROLE_TYPE_SERVER : (Cli::RoleType)DEFAULT_ROLE)); st->set_read_buffer_base_block_factor(0); st->set_max_pending_buffer_size(1 << 20); st->set_flow_controller(FlowControllerPtr(new FlowController(true, 0, true, 0)));
  int closes = 0;
  if (SC != 6) st->set_connect_timeout(5);
  if (SC == 0 || SC == 4) st->async_connect();
  if (SC == 2 || SC == 3 || SC == 5) { establish(s, st); CHECK(st->is_connected(), "connected"); }
  if (SC == 0) { sx_thread_create(closer, 0); closes = 1; }
  if (SC == 1) { sx_thread_create(starter, 0); sx_thread_create(closer, 0); closes = 1; }
  if (SC == 2) { sx_thread_create(closer, 0); sx_thread_create(closer, 0); closes = 1; }
  if (SC == 3) { sx_thread_create(closer, 0); sx_thread_create(sender, 0); closes = 1; }
  if (SC == 4) { sx_thread_create(sender, 0); if (boost::asio::deadline_timer::all().size()) { sx_sched_point(); bool fire = sx_concretize(sx_range(0, 1, "timer_first")); if (fire && boost::asio::deadline_timer::all()[0]->armed_) { bool late = sx_concretize(sx_range(0, 1, "connect_done_too")); if (late && st->socket().cn_) { st->socket().sx_connect_done(boost::system::error_code()); boost::asio::deadline_timer::all()[0]->sx_fire(); s.sx_run_all(); CHECK(st->is_connected(), "a connection established in time was closed"); } else { boost::asio::deadline_timer::all()[0]->sx_fire(); s.sx_run_all(); CHECK(st->is_closed(), "connect timeout must close"); sx_reach("timeout"); } } } }
  if (SC == 5) sx_thread_create(sender, 0);
  if (SC == 6) { sx_thread_create(setup, 0); sx_thread_create(closer, 0); closes = 1; }
  while (budget > 0) { sx_sched_point(); net(budget); }
  sx_join_all(); s.sx_run_all(); for (int k = 0; k < 8 && (st->socket().cn_ || st->socket().wr_); k++) { int b = 1; net(b); }
  inv(); if (closes) CHECK(st->is_closed(), "close() did not close");
  if (!st->is_closed()) { sx_clock_us += 3600000000LL; boost::asio::deadline_timer::sx_fire_due(); s.sx_run_all(); CHECK(!st->is_closed(), "a live connection was closed although nobody closed it and no fault hit it"); }
  if (st->is_closed()) { CHECK(st->closed_n == 1, "closing must be reported exactly once"); CHECK(st->socket().shut_ || !st->socket().open_, "socket left open after close"); CHECK(!st->socket().cn_ && !st->socket().rd_ && !st->socket().wr_, "operation left pending on a closed connection"); sx_reach("closed");
    size_t before = st->failed.size(); st->async_send_message(make_buf("z"), 9); CHECK(st->failed.size() == before + 1 && st->failed.back() == 9 && st->fail_code.back() == RPC_ERROR_CONNECTION_CLOSED, "send on a closed connection must fail"); st->close("again"); CHECK(st->closed_n == 1, "close reported twice"); }
  else { CHECK(st->closed_n == 0, "close reported on a live connection"); CHECK(st->is_connected(), "neither connected nor closed"); CHECK(st->socket().rd_, "live connection stopped reading"); sx_reach("alive"); if (SC == 4 || SC == 5) CHECK(st->sent.size() == 2, "messages lost on a live connection"); }
  int n[10] = {0}; for (int x : st->sent) n[x]++; for (int x : st->failed) n[x]++; for (int i = 0; i < 9; i++) CHECK(n[i] <= 1, "a message got two outcomes");
  sx_note(1, st->is_closed()); sx_note(2, st->sent.size());
}
