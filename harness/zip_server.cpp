// Compressed calls of a whole server: the service gets the message the client sent, the response is readable, a body that cannot be uncompressed is refused.
// args: mode (0 round trip, 1 hostile bodies), hostile bytes
#include "server.h"
#include <sofa/pbrpc/compressed_stream.h>
#include <sofa/pbrpc/buffer.h>
static Peer peer; static RpcServer* sv;
static std::string pack(const std::string& s, int t) { if (!t) return s; WriteBuffer w; w.set_base_block_factor(1); { scoped_ptr<AbstractCompressedOutputStream> o(get_compressed_output_stream(&w, (CompressType)t)); size_t i = 0; while (i < s.size()) { void* p; int n; o->Next(&p, &n); size_t c = s.size() - i < (size_t)n ? s.size() - i : n; memcpy(p, s.data() + i, c); i += c; if (c < (size_t)n) o->BackUp((int)(n - c)); } o->Flush(); } ReadBuffer r; w.SwapOut(&r); return r.ToString(); }
static std::string unpack(const std::string& s, int t) { if (!t) return s; WriteBuffer w; w.Append(s); ReadBuffer r; w.SwapOut(&r); std::string g; scoped_ptr<AbstractCompressedInputStream> z(get_compressed_input_stream(&r, (CompressType)t)); const void* p; int n; while (z->Next(&p, &n)) g.append((const char*)p, n); CHECK(z->ExpectAtEnd(), "the response body cannot be uncompressed"); return g; }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
void sx_main() {
  int MODE = sx_arg(0), N = sx_arg(1); boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false; RpcServerOptions o; o.work_thread_num = 1; o.write_buffer_base_block_factor = 1; o.read_buffer_base_block_factor = 2; o.disable_builtin_services = true; o.keep_alive_time = -1; sv = new RpcServer(o); CHECK(sv->RegisterService(new Svc("Svc")), "register"); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers();
  CHECK(connect(peer), "accept"); int base = Payload::live; for (int k = 0; k < 2; k++) {
    static int t0, u0; int t = k ? (t0 + 1) % 5 : (int)sx_concretize(sx_range(0, 4, "type")), u = k ? (u0 + 1) % 6 : MODE ? t : (int)sx_concretize(sx_range(0, 5, "response_type")); t0 = t; u0 = u; RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(70 + k); m.set_method("t.Svc.Do"); if (t || sx_concretize(sx_range(0, 1, "has"))) m.set_compress_type((CompressType)t); if (u < 5) m.set_expected_response_compress_type((CompressType)u);
    std::string want, body; bool hostile = MODE == 1 && k == 0;
    if (!hostile) { int n = (int)sx_concretize(sx_range(0, 2, "n")); for (int i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "body"); sx_assume(c != '!'); want += c; } body = pack(want, t); }
    else { sx_assume(t != 0); int n = (int)sx_concretize(sx_range(0, N, "n")); std::string h; for (int i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "h"); h += c; } std::string g; int kind = (int)sx_concretize(sx_range(0, 1, "kind")); if (kind == 1) { g = pack("vw", t); sx_assume(t <= 2 || 1); }
      if (t >= 3) { if (n) body = g + (char)n + h; else body = g; if (sx_concretize(sx_range(0, 1, "cut")) && body.size()) body.resize(body.size() - 1); } else body = g + h; }
    size_t before = jobs.size(); CHECK(feed(peer, frame(m, body)), "the server stopped reading"); CHECK(jobs.size() <= before + 1, "the service was called twice"); Wire w;
    if (!hostile) CHECK(jobs.size() == before + 1, "a well-formed request was refused");
    if (jobs.size() == before) { drain(peer, 0); CHECK(take_response(peer.wire, &w), "a refused request was not answered"); CHECK(w.meta.failed() && w.meta.error_code() == RPC_ERROR_PARSE_REQUEST_MESSAGE && w.meta.sequence_id() == (uint64)(70 + k), "refused with another outcome"); sx_reach("refused"); continue; }
    Job& j = jobs[before]; if (!hostile) CHECK(same(j.body, want), "the service got another message"); else sx_reach("accepted"); want = j.body; finish(j, 0); handlers(); drain(peer, 0); CHECK(take_response(peer.wire, &w), "no response"); CHECK(!w.meta.failed() && w.meta.sequence_id() == (uint64)(70 + k), "failed"); int rt = w.meta.has_compress_type() ? w.meta.compress_type() : 0; CHECK(rt == (u == 5 ? 0 : u), "the response is not compressed the way the client asked for");
    CHECK(same(unpack(w.data, rt), "R" + want), "the response came out changed"); if (t && rt) sx_reach("both"); }
  CHECK(peer.wire.empty() && alive(peer.s) && peer.s->rd_, "the connection was closed"); for (int i = 0; i < 3; i++) handlers(); CHECK(Payload::live == base, "messages leaked"); sv->Stop(); delete sv; sx_note(1, jobs.size()); sx_reach("end"); }
