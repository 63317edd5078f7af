// Send queue of a message stream: concurrent senders against a network that accepts any prefix of each write.
// args: messages by thread 1, messages by thread 2, mode (0: connected before sending, 1: connects while sending, 2: some messages refused by the sending hook), network steps raced with the senders, partial writes (0/1)
#include "cli.h"
#ifdef AFTER
int sx_cfg_sched_after = 1;
#endif
struct S : Cli { S(IOService& s, const RpcEndpoint& e) : Cli(s, e) {} unsigned refuse_mask; bool on_sending(const ReadBufferPtr&, const int& c) { sending.push_back(c); return !(refuse_mask >> c & 1); } };
static shared_ptr<S> st; static IOService* io; static int N1, N2; static bool PARTIAL; static std::string wire; static std::string body[6]; static ReadBufferPtr buf[6];
static void sender(void* a) { long t = (long)a; int lo = t == 1 ? 0 : N1, n = t == 1 ? N1 : N2; for (int i = lo; i < lo + n; i++) st->async_send_message(buf[i], i); }
static bool step() { if (!st->socket().wr_) return false; size_t n = st->socket().wb_.n, k = n; if (PARTIAL && n > 1) k = sx_concretize(sx_range(1, (int)n, "accepted")); wire.append((const char*)st->socket().wb_.p, k); st->socket().sx_write_done(k, boost::system::error_code()); io->sx_run_all(); return true; }
void sx_main() {
  N1 = sx_arg(0); N2 = sx_arg(1); int mode = sx_arg(2), K = sx_arg(3); PARTIAL = sx_arg(4); int N = N1 + N2; IOService s; io = &s;
  st.reset(new S(s, RpcEndpoint(boost::asio::ip::address(0x0a000001), 77))); st->set_flow_controller(FlowControllerPtr(new FlowController(true, 0, true, 0))); st->refuse_mask = 0; st->set_read_buffer_base_block_factor(0);
  for (int i = 0; i < N; i++) { char c; sx_bytes(&c, 1, "data"); body[i] = std::string(1, (char)('A' + i)) + c; buf[i].reset(new ReadBuffer()); ReadBufferPtr a = make_buf(body[i]), b = make_buf(std::string(1, (char)('a' + i))); body[i] += (char)('a' + i); buf[i]->Append(a.get()); buf[i]->Append(b.get()); }
  if (mode == 2) { st->refuse_mask = (unsigned)sx_concretize(sx_range(0, (1 << N) - 1, "refused")); }
  st->set_max_pending_buffer_size(1 << 20); if (mode != 1) establish(s, st); else if (DEFAULT_ROLE == Cli::ROLE_TYPE_CLIENT) st->async_connect();
  if (N1) sx_thread_create(sender, (void*)1); if (N2) sx_thread_create(sender, (void*)2);
  if (mode == 1) { sx_sched_point(); if (DEFAULT_ROLE == Cli::ROLE_TYPE_CLIENT) { st->socket().sx_connect_done(boost::system::error_code()); s.sx_run_all(); } else establish(s, st); }
  for (int k = 0; k < K; k++) { sx_sched_point(); step(); }
  sx_join_all();
  while (step()) {}
  // every message has exactly one fate
  CHECK(!st->is_closed(), "stream closed without a fault");
  std::vector<int> fate(N, 0); for (size_t i = 0; i < st->sent.size(); i++) fate[st->sent[i]]++; for (size_t i = 0; i < st->failed.size(); i++) { fate[st->failed[i]] += 8; CHECK(st->fail_code[i] == RPC_ERROR_REQUEST_CANCELED, "reason of a refused message"); }
  for (int i = 0; i < N; i++) CHECK(fate[i] == ((st->refuse_mask >> i & 1) ? 8 : 1), "a message was lost, sent twice, or given the wrong fate");
  // wire = whole messages in the order reported, FIFO per sender
  std::string want; int last1 = -1, last2 = -1; for (size_t i = 0; i < st->sent.size(); i++) { int m = st->sent[i]; want += body[m]; int& l = m < N1 ? last1 : last2; CHECK(m > l, "messages of one sender reordered"); l = m; }
  CHECK(want.size() == wire.size(), "bytes lost or duplicated on the wire"); bool eq = true; for (size_t i = 0; i < wire.size() && i < want.size(); i++) eq = eq & (wire[i] == want[i]); CHECK(eq, "bytes on the wire differ from the messages");
  CHECK(st->pending_message_count() == 0 && st->pending_data_size() == 0 && st->pending_buffer_size() == 0, "pending accounting not balanced"); CHECK(st->_total_sent_size == (int64)wire.size(), "sent statistics");
  if (st->sent.size() && st->sent[0] >= N1) sx_reach("second-first"); if (st->sent.size() == (size_t)N && N2) sx_reach("all"); if (st->failed.size()) sx_reach("refused");
  sx_note(1, wire.size()); for (size_t i = 0; i < st->sent.size(); i++) sx_note(2, st->sent[i]);
}
