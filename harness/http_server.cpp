// HTTP calls of a whole server: every request is answered by one well-formed HTTP response that carries the outcome of its own call.
// args: mode (0 served calls, 1 bodies of any shape, 2 paths that name no method, 3 two requests in flight on one connection)
#define HTTP_PAYLOAD
#include "server.h"
#include <sofa/pbrpc/pbjson.h>
static Peer peer; static RpcServer* sv;
struct Http { std::string status, type, body; };
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c - 'A' + 10; }
// takes one response off the wire; everything before the body must be exactly what HTTP/1.1 wants
static bool take_http(std::string& w, Http* h) {
   size_t e = w.find("\r\n\r\n"); if (e == std::string::npos) return false; size_t i = w.find("\r\n"); h->status = w.substr(0, i); h->type.clear(); int64_t len = -1;
  while (i < e) { size_t k = i + 2, n = w.find("\r\n", k); std::string l = w.substr(k, n - k); size_t c = l.find(": "); CHECK(c != std::string::npos && c > 0, "a header line that is none"); std::string name = l.substr(0, c), val = l.substr(c + 2);
       if (name == "Content-Type") { CHECK(h->type.empty(), "two Content-Type headers"); h->type = val; } if (name == "Content-Length") { CHECK(len < 0, "two Content-Length headers"); CHECK(!val.empty(), "empty Content-Length"); len = 0; for (size_t q = 0; q < val.size(); q++) { CHECK(val[q] >= '0' && val[q] <= '9', "Content-Length is not a number"); len = len * 10 + val[q] - '0'; } } i = n;  }
  CHECK(len >= 0, "no Content-Length"); CHECK(w.size() >= e + 4 + (size_t)len, "fewer body bytes than Content-Length"); h->body = w.substr(e + 4, (size_t)len); w.erase(0, e + 4 + (size_t)len); return true; }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
// an RFC 8259 string: the only shape of an error body (the library's parser takes no bare string)
static std::string json_string(const std::string& t) { size_t n = t.size(); CHECK(n >= 2 && t[0] == '"' && t[n - 1] == '"', "the error body is not a JSON string"); std::string o; for (size_t i = 1; i + 1 < n; i++) { unsigned char c = (unsigned char)t[i]; CHECK(c >= 0x20 && c != '"', "the error body is not a JSON string"); if (c != '\\') { o += (char)c; continue; } CHECK(i + 2 < n, "the error body is not a JSON string"); char e = t[++i]; const char* q = strchr("\"\\/bfnrt", e); if (q && e) { o += "\"\\/\b\f\n\r\t"[q - "\"\\/bfnrt"]; continue; } CHECK(e == 'u' && i + 5 < n, "the error body is not a JSON string"); int v = 0; for (int k = 0; k < 4; k++) { char h = t[++i]; CHECK(isxdigit((unsigned char)h), "the error body is not a JSON string"); v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } CHECK(v < 0x80, "an escape of no byte that was sent"); o += (char)v; } return o; }
// the JSON body parsed by the library's parser (decided in J01)
static void json_is(const std::string& body, bool failed, const std::string& want) { if (failed) { CHECK(same(json_string(body), want), "the error body does not say the reason"); return; } rapidjson::Document d; d.Parse<0>(body.c_str()); CHECK(!d.HasParseError(), "the response body is not valid JSON");
  { CHECK(d.IsObject() && d.HasMember("b") && d["b"].IsString(), "response body"); CHECK(same(std::string(d["b"].GetString(), d["b"].GetStringLength()), want), "response body of another call, or changed"); } }
static void answer(Http* h) { drain(peer, 0); CHECK(take_http(peer.wire, h), "no response"); CHECK(peer.wire.empty(), "more than one response"); CHECK(h->status == "HTTP/1.1 200 OK", "status line"); CHECK(alive(peer.s) && peer.s->rd_, "the connection was closed"); }
static std::string num(size_t n) { char b[24]; sprintf(b, "%d", (int)n); return b; }
static std::string post(const std::string& path, const std::string& body, bool pb) { return "POST " + path + " HTTP/1.1\r\n" + (pb ? "Accept: application/protobuf\r\n" : "") + "Content-Length: " + num(body.size()) + "\r\n\r\n" + body; }
void sx_main() {
  int MODE = sx_arg(0); boost::asio::sx_parked() = true; sx_quiet(1); inline_reply = false; RpcServerOptions o; o.work_thread_num = 1; o.write_buffer_base_block_factor = 1; o.read_buffer_base_block_factor = 2; o.disable_builtin_services = true; o.keep_alive_time = -1; sv = new RpcServer(o); CHECK(sv->RegisterService(new Svc("Svc")), "register"); CHECK(sv->Start("1.2.3.4:80"), "start"); handlers(); CHECK(connect(peer), "accept"); int base = Payload::live;
  if (MODE == 0) for (int k = 0; k < 2; k++) { int kind = (int)sx_concretize(sx_range(0, 4, "kind")); std::string m = sx_concretize(sx_range(0, 1, "method")) ? "/t.Svc.No" : "/t.Svc.Do", want, q; char c; sx_bytes(&c, 1, "body");
      if (kind == 0) q = "GET " + m + " HTTP/1.1\r\n\r\n"; // nothing given: the empty message
      if (kind == 1) { sx_assume((unsigned char)c >= 0x20 && c != '"' && c != '\\'); want = std::string(1, c) + "g"; std::string t = "%7B%22b%22:%22"; static const char X[] = "0123456789ABCDEF"; unsigned char u = (unsigned char)c; t += '%'; t += X[u >> 4]; t += X[u & 15]; q = "GET " + m + "?x=1&request=" + t + "g%22%7D HTTP/1.1\r\nH: v\r\n\r\n"; }
      if (kind == 4) { sx_assume((unsigned char)c > 0x20 && c != '"' && c != '\\' && c != '&' && c != '#' && c != '%' && c != '+'); want = std::string(1, c) + "r"; q = "GET " + m + "?request={\"b\":\"" + want + "\"} HTTP/1.1\r\n\r\n"; } // not percent-encoded
      if (kind == 2) { sx_assume((unsigned char)c >= 0x20 && c != '"' && c != '\\'); want = std::string(1, c) + "p"; q = post(m, "{\"b\":\"" + want + "\"}", false); }
      if (kind == 3) { sx_assume(c != '!'); want = std::string(1, c) + "q"; q = post(m, want, true); }
      size_t before = jobs.size(); CHECK(feed(peer, q), "the server stopped reading"); CHECK(jobs.size() == before + 1, "a request did not reach the service exactly once"); Job& j = jobs[before]; CHECK(same(j.body, want), "the service got another request message"); CHECK(std::string("/") + j.m->full_name() == m, "another method was called"); RpcController* rc = static_cast<RpcController*>(j.c); CHECK(rc->IsHttp(), "IsHttp"); CHECK(rc->HttpPath() == m, "path"); CHECK(rc->HttpQueryParams().count("x") == (kind == 1), "query");
      int out = (int)sx_concretize(sx_range(0, 1, "outcome")); CHECK(!peer.s->wr_ , "a response before the service finished"); finish(j, out); handlers(); Http h; answer(&h);
      if (out) { CHECK(h.type == "application/json", "content type"); json_is(h.body, true, "ERROR: " + num(RPC_ERROR_FROM_USER) + ": why" + want); sx_reach("failure"); } else if (kind == 3) { CHECK(h.type == "application/protobuf", "content type"); CHECK(same(h.body, "R" + want), "response body of another call, or changed"); sx_reach("protobuf"); } else { CHECK(h.type == "application/json", "content type"); json_is(h.body, false, "R" + want); sx_reach("json"); } sx_note(1, h_digest(h.body.data(), h.body.size())); }
  if (MODE == 1) { static const char* SEED[] = {"", "{\"b\":\"x\"", "{\"b\":", "{\"b\":\"\\u00", "[{\"b\":\"y\"", "{\"c\":1,\"b\":\""}; int sd = sx_arg(1); bool pb = sd < 0; std::string b = pb ? "" : SEED[sd]; int n = (int)sx_concretize(sx_range(0, sx_arg(2), "n")); for (int i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "t"); b += c; }
    CHECK(feed(peer, post("/t.Svc.Do", b, pb)), "the server stopped reading"); CHECK(jobs.size() <= 1, "the service was called twice for one request"); if (!pb) { Payload ref; std::string e; int rc = sofa::pbrpc::json2pb(b.empty() ? "{}" : b, &ref, e); CHECK(jobs.size() == (size_t)(rc == 0), "a request body the JSON library accepts was refused, or one it refuses was served"); if (rc == 0) CHECK(same(jobs[0].body, ref.b), "the service got another message than the JSON body says"); } Http h; if (jobs.size()) { CHECK(!peer.s->wr_, "a response before the service finished"); finish(jobs[0], 0); handlers(); answer(&h); if (!pb) json_is(h.body, false, "R" + jobs[0].body); else CHECK(same(h.body, "R" + b), "response body"); sx_reach("served"); }
    else { CHECK(!pb || (b.size() && b[0] == '!'), "a well-formed request was refused"); answer(&h); std::string es = json_string(h.body), p = "ERROR: " + num(RPC_ERROR_PARSE_REQUEST_MESSAGE) + ": "; CHECK(es.substr(0, p.size()) == p, "error code"); sx_reach("unparsable"); } }
  if (MODE == 2) { static const char* P[] = {"/", "/t", "/t.Svc", "/t.Svc.D", "/t.Svc.Do", "/t.Sv.Do"}; std::string m = P[sx_arg(1)]; int n = sx_arg(2); for (int i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "path"); sx_assume(c != ' ' && c != '\r' && c != '\n' && c != '\0' && c != '?' && c != '#' && c != '/'); m += c; } // '/': left to the pages (W01)
    bool known = m == "/t.Svc.Do" || m == "/t.Svc.No"; CHECK(feed(peer, "GET " + m + " HTTP/1.1\r\n\r\n"), "the server stopped reading"); CHECK(jobs.size() == (size_t)known, "the service was called for a path that is no method of it"); Http h; if (known) { finish(jobs[0], 0); handlers(); answer(&h); json_is(h.body, false, "R"); sx_reach("served"); } else if (m.size() > 1) { answer(&h);   CHECK(h.type == "application/json", "content type"); json_is(h.body, true, "ERROR: " + num(RPC_ERROR_FOUND_METHOD) + ": method not found: " + m.substr(1)); sx_reach("unknown"); } }
  if (MODE == 3) { CHECK(feed(peer, post("/t.Svc.Do", "1", true)) && feed(peer, post("/t.Svc.No", "2", true)), "reading"); CHECK(jobs.size() == 2, "both requests reach the service"); int first = (int)sx_concretize(sx_range(0, 1, "first")); finish(jobs[first], 0); handlers(); finish(jobs[1 - first], 0); handlers(); drain(peer, 0); Http a, b; CHECK(take_http(peer.wire, &a) && take_http(peer.wire, &b) && peer.wire.empty(), "two responses"); CHECK(a.body == (first ? "R2" : "R1") || a.body == "R1", "bodies"); sx_reach(first ? "reversed" : "in-order"); CHECK(a.body == "R1" && b.body == "R2", "HTTP responses leave in completion order, not in request order"); }
  CHECK(Payload::live == base, "request or response messages leaked"); CHECK(sv->ConnectionCount() == 1, "connection"); sv->Stop(); delete sv; CHECK(Svc::deleted == 1, "service leaked"); sx_reach("end"); }
