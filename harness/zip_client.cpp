// Compressed calls of a whole client: the request is readable, the response comes out unchanged, a body that cannot be uncompressed fails the call.
// args: mode (0 round trip, 1 hostile bodies), hostile bytes
#include "client.h"
#include <sofa/pbrpc/compressed_stream.h>
#include <sofa/pbrpc/buffer.h>
static std::string pack(const std::string& s, int t) { if (!t) return s; WriteBuffer w; w.set_base_block_factor(1); { scoped_ptr<AbstractCompressedOutputStream> o(get_compressed_output_stream(&w, (CompressType)t)); size_t i = 0; while (i < s.size()) { void* p; int n; o->Next(&p, &n); size_t c = s.size() - i < (size_t)n ? s.size() - i : n; memcpy(p, s.data() + i, c); i += c; if (c < (size_t)n) o->BackUp((int)(n - c)); } o->Flush(); } ReadBuffer r; w.SwapOut(&r); return r.ToString(); }
static std::string unpack(const std::string& s, int t) { if (!t) return s; WriteBuffer w; w.Append(s); ReadBuffer r; w.SwapOut(&r); std::string g; scoped_ptr<AbstractCompressedInputStream> z(get_compressed_input_stream(&r, (CompressType)t)); const void* p; int n; while (z->Next(&p, &n)) g.append((const char*)p, n); CHECK(z->ExpectAtEnd(), "the request body cannot be uncompressed"); return g; }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static RpcClient* cl; static RpcChannel* ch; static Call* calls[2]; static std::string wire; static std::vector<Wire> seen;
static void absorb(Sock* s) { while (s->wr_) { size_t k = s->wb_.n; wire.append((const char*)s->wb_.p, k); s->sx_write_done(k, ok()); IOS::sx_pump(); } Wire x; while (take_request(wire, &x)) seen.push_back(x); }
void sx_main() {
  int MODE = sx_arg(0), N = sx_arg(1); descriptors(); boost::asio::sx_parked() = true; sx_quiet(1); RpcClientOptions o; o.work_thread_num = 1; o.callback_thread_num = 1; cl = new RpcClient(o); ch = new RpcChannel(cl, "10.0.0.1:99"); Sock* s = 0;
  for (int k = 0; k < 2; k++) { Call* c = calls[k] = new Call(); c->cntl.SetTimeout(1000); static int t0, r0; int t = k ? (t0 + 1) % 5 : (int)sx_concretize(sx_range(0, 4, "type")), u = (t + 2) % 5, r = k ? (r0 + 2) % 5 : (int)sx_concretize(sx_range(0, 4, "sent_type")); t0 = t; r0 = r; c->cntl.SetRequestCompressType((CompressType)t); c->cntl.SetResponseCompressType((CompressType)u); int n = (int)sx_concretize(sx_range(0, 2, "n")); for (int i = 0; i < n; i++) { char b; sx_bytes(&b, 1, "req"); c->req.b += b; }
    ch->CallMethod(&g_method, &c->cntl, &c->req, &c->res, c); IOS::sx_pump(); if (!k) { s = Sock::all().back(); s->sx_connect_done(ok()); IOS::sx_pump(); } absorb(s); CHECK((int)seen.size() == k + 1, "request not sent"); Wire& q = seen[k]; int qt = q.meta.has_compress_type() ? q.meta.compress_type() : 0, qu = q.meta.has_expected_response_compress_type() ? q.meta.expected_response_compress_type() : 0; CHECK(qt == t && qu == u, "compress types of the call are not the ones asked for"); CHECK(same(unpack(q.data, qt), c->req.b), "the request came out changed");
    RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(q.meta.sequence_id()); m.set_failed(false); if (r || sx_concretize(sx_range(0, 1, "has"))) m.set_compress_type((CompressType)r); std::string body, want; bool hostile = MODE == 1 && !k;
    if (!hostile) { for (int i = 0; i < n; i++) { char b; sx_bytes(&b, 1, "res"); sx_assume(b != '!'); want += b; } body = pack(want, r); } else { sx_assume(r != 0 && !n); int z = (int)sx_concretize(sx_range(0, N, "z")); std::string h; for (int i = 0; i < z; i++) { char b; sx_bytes(&b, 1, "h"); h += b; } std::string g; if (sx_concretize(sx_range(0, 1, "kind"))) g = pack("vw", r); if (r >= 3) { if (z) body = g + (char)z + h; else body = g; if (sx_concretize(sx_range(0, 1, "cut")) && body.size()) body.resize(body.size() - 1); } else body = g + h; }
    feed(s, frame(m, body)); CHECK(s->rd_, "the connection was closed"); CHECK(c->done_n == 1, "the answered call did not complete"); if (!hostile) { CHECK(!c->cntl.Failed(), "a well-formed response was refused"); CHECK(same(c->res.b, want), "the response came out changed"); if (t && r) sx_reach("both"); } else if (c->cntl.Failed()) { CHECK(c->cntl.ErrorCode() == RPC_ERROR_PARSE_RESPONSE_MESSAGE, "error code"); sx_reach("refused"); } else sx_reach("accepted"); }
  sx_note(1, calls[0]->cntl.ErrorCode()); cl->Shutdown(); for (int i = 0; i < 2; i++) delete calls[i]; delete ch; delete cl; sx_reach("end"); }
