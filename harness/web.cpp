// Pages: a page request reaches the servlet registered for the longest leading part of its path, and the client gets what the servlet wrote.
// args: mode (0 any path, 1 register/unregister/request histories, 2 registration racing with requests, 3 what a servlet sees and answers, 4 built-in pages), n
#define HTTP_PAYLOAD
#include "server.h"
#include <sofa/pbrpc/rpc_endpoint.h>
#include <sofa/pbrpc/http.h>
#include <sofa/pbrpc/ext_closure.h>
extern "C" { int inet_aton(const char*, struct in_addr*) __THROW { return 0; } struct hostent* gethostbyname(const char*) { return 0; } struct hostent* gethostbyaddr(const void*, unsigned, int) { return 0; } } // no resolver
static Peer peer; static RpcServer* sv;
struct Page : ExtClosure<bool(const HTTPRequest&, HTTPResponse&)> { int id; bool ret; std::string status, type, content; static int hits[8]; static int deleted[8]; static int last; HTTPRequest seen; std::map<std::string, std::string> qp, hd; std::string body;
  Page(int i) : id(i), ret(true), content("page") { content += (char)('0' + i); } ~Page() { deleted[id]++; } bool IsSelfDelete() const { return false; }
  bool Run(const HTTPRequest& q, HTTPResponse& r) { hits[id]++; last = id; seen = q; qp = *q.query_params; hd = *q.headers; body = q.body->ToString(); seen.body.reset(); if (status.size()) r.status_line = status; if (type.size()) r.content_type = type; r.content->Append(content); return ret; } };
int Page::hits[8]; int Page::deleted[8]; int Page::last = -1;
struct Http { std::string status, type, body; };
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static bool take_http(std::string& w, Http* h) { size_t e = w.find("\r\n\r\n"); if (e == std::string::npos) return false; size_t i = w.find("\r\n"); h->status = w.substr(0, i); h->type.clear(); int64_t len = -1;
  while (i < e) { size_t k = i + 2, n = w.find("\r\n", k); std::string l = w.substr(k, n - k); size_t c = l.find(": "); CHECK(c != std::string::npos && c > 0, "a header line that is none"); std::string name = l.substr(0, c), val = l.substr(c + 2); if (name == "Content-Type") h->type = val; if (name == "Content-Length") { CHECK(len < 0, "two Content-Length headers"); len = 0; for (size_t q = 0; q < val.size(); q++) { CHECK(val[q] >= '0' && val[q] <= '9', "Content-Length is not a number"); len = len * 10 + val[q] - '0'; } } i = n; }
  CHECK(len >= 0, "no Content-Length"); CHECK(w.size() >= e + 4 + (size_t)len, "fewer body bytes than Content-Length"); h->body = w.substr(e + 4, (size_t)len); w.erase(0, e + 4 + (size_t)len); return true; }
static void get(const std::string& q, Http* h) { CHECK(feed(peer, q), "the server stopped reading"); for (int i = 0; i < 3; i++) { handlers(); drain(peer, 0); } CHECK(take_http(peer.wire, h), "no response"); CHECK(peer.wire.empty(), "more than one response"); CHECK(alive(peer.s) && peer.s->rd_, "the connection was closed"); }
static std::vector<std::string> parts(const std::string& p) { std::vector<std::string> v; std::string c; for (size_t i = 0; i <= p.size(); i++) if (i == p.size() || p[i] == '/') { if (c.size()) v.push_back(c); c.clear(); } else c += p[i]; return v; }
static std::string fmt(const std::vector<std::string>& v, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += "/" + v[i]; return n ? s : "/"; }
typedef std::map<std::string, int> Model; static Model model; // formatted path -> page (-1: built in)
static int expect(const std::string& path) { std::vector<std::string> v = parts(path); if (v.empty()) { Model::iterator i = model.find("/"); return i == model.end() ? -2 : i->second; } for (size_t n = v.size(); n > 0; n--) { Model::iterator i = model.find(fmt(v, n)); if (i != model.end()) return i->second; } return -2; }
static void check_get(const std::string& path) { int w = expect(path); int h0[8]; memcpy(h0, Page::hits, sizeof h0); Page::last = -9; Http h; get("GET " + path + " HTTP/1.1\r\n\r\n", &h); for (int i = 0; i < 8; i++) CHECK(Page::hits[i] == h0[i] + (i == w), w == i ? "the servlet of the path did not run once" : "another servlet ran"); CHECK(h.status == "HTTP/1.1 200 OK", "status"); if (w >= 0) { CHECK(h.body == std::string("page") + (char)('0' + w), "page content"); CHECK(h.type == "text/html; charset=UTF-8", "page type"); sx_reach("page"); } else if (w == -1) { CHECK(h.body.find("<html>") == 0, "built-in page"); sx_reach("builtin"); } else { CHECK(h.body == "\"ERROR: 8: method not found: " + [](const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/') o += '\\'; o += s[i]; } return o; }(path.substr(1)) + "\"" || h.body == "\"ERROR: 8: method not found: " + path.substr(1) + "\"", "not-found error"); CHECK(h.type == "application/json", "error type"); sx_reach("none"); } }
static Page* pages[4]; static volatile int stage;
static void t_reg(void*) { CHECK(sv->RegisterWebServlet("/n/x", pages[1], true), "registration refused"); stage = 1; }
static void t_unreg(void*) { CHECK(sv->UnregisterWebServlet("/n/x/") == pages[1], "unregistration returned another servlet"); stage = 1; }
static void t_reg2(void*) { CHECK(sv->RegisterWebServlet("/n/y", pages[2], true), "registration refused"); }
void sx_main() {
  int MODE = sx_arg(0), N = sx_arg(1); boost::asio::sx_parked() = MODE != 2; sx_quiet(1); inline_reply = false; RpcServerOptions o; o.work_thread_num = 1; o.write_buffer_base_block_factor = 1; o.read_buffer_base_block_factor = 2; o.disable_builtin_services = true; o.keep_alive_time = -1; sv = new RpcServer(o); static const char* BI[] = {"/", "/home", "/options", "/status", "/services", "/service", "/profiling"}; for (int i = 0; i < LEN(BI); i++) model[BI[i]] = -1;
  CHECK(sv->Start("1.2.3.4:80"), "start"); handlers(); CHECK(connect(peer), "accept"); for (int i = 0; i < 4; i++) pages[i] = new Page(i); bool owned[4] = {false, false, false, false}; // owned: handed over to the server
  if (MODE == 0) { static const char* REG[] = {"/a", "b//a/", "/a/b", "ab"}; for (int i = 0; i < 4; i++) { CHECK(sv->RegisterWebServlet(REG[i], pages[i], true), "registration refused"); model[fmt(parts(REG[i]), parts(REG[i]).size())] = i; owned[i] = true; } std::string p = "/"; int n = (int)sx_concretize(sx_range(0, N, "len")); for (int i = 0; i < n; i++) p += "/ab."[sx_concretize(sx_range(0, 3, "char"))]; if (n) check_get(p); }
  if (MODE == 1) { static const char* PATHS[] = {"/p", "/p/q", "p//q/", "/home", ""}; Page* at[8] = {0};
    for (int k = 0; k < N; k++) { int op = (int)sx_concretize(sx_range(0, 2, "op")), w = (int)sx_concretize(sx_range(0, LEN(PATHS) - 1, "path")); std::string key = fmt(parts(PATHS[w]), parts(PATHS[w]).size());
      if (op == 0) { int i = 0; while (i < 4 && at[i]) i++; if (i == 4) continue; bool own = sx_concretize(sx_range(0, 1, "own")); bool okr = sv->RegisterWebServlet(PATHS[w], pages[i], own); CHECK(okr == (model.count(key) == 0), "registration accepted over an existing path, or refused on a free one"); if (okr) { model[key] = i; at[i] = pages[i]; owned[i] = own; } }
      if (op == 1) { Servlet s = sv->UnregisterWebServlet(PATHS[w]); Model::iterator m = model.find(key); if (m == model.end()) CHECK(s == NULL, "unregistering a free path returned a servlet"); else { CHECK(s != NULL, "a registered servlet was not found"); if (m->second >= 0) { CHECK(s == pages[m->second], "another servlet was returned"); owned[m->second] = false; at[m->second] = 0; } model.erase(key); sx_reach("unregistered"); } }
      if (op == 2) check_get(w == 4 ? "/p/q/r" : w == 2 ? "/p//q" : PATHS[w]); } }
  if (MODE == 2) { CHECK(sv->RegisterWebServlet("/n", pages[0], true), "register"); owned[0] = owned[1] = owned[2] = true; model["/n"] = 0; int what = N; if (what == 1) { CHECK(sv->RegisterWebServlet("/n/x", pages[1], true), "register"); } Http h; sx_quiet(0); spawn(what == 1 ? t_unreg : t_reg, 0); if (what == 2) spawn(t_reg2, 0); int before = stage; std::string q = "GET /n/x/z HTTP/1.1\r\n\r\n"; memcpy(peer.s->rb_.p, q.data(), q.size()); peer.s->sx_read_done(q.size(), ok()); for (int i = 0; i < 40 && !(peer.s->wr_); i++) sx_yield(); int after = stage; sx_quiet(1); join_spawned(); drain(peer, 0); CHECK(take_http(peer.wire, &h), "no response"); int w = h.body == "page0" ? 0 : h.body == "page1" ? 1 : -1; CHECK(w >= 0, "page"); CHECK(Page::hits[0] == (w == 0) && Page::hits[1] == (w == 1), "the answer is of another servlet"); (void)before; (void)after; sx_reach(w ? "new" : "old"); model["/n/x"] = 1; if (what == 1) { model.erase("/n/x"); owned[1] = false; } if (what == 2) model["/n/y"] = 2; else { owned[2] = false; } check_get("/n/x"); if (what == 2) check_get("/n/y"); check_get("/n"); }
  if (MODE == 3) { Page* p = pages[0]; p->ret = sx_concretize(sx_range(0, 1, "ret")); int st = (int)sx_concretize(sx_range(0, 1, "status")); if (st) { p->status = "HTTP/1.1 404 Not $Found$"; p->type = "text/$plain"; } p->content = sym_string(0, 2, "content"); CHECK(sv->RegisterWebServlet("s", p, true), "register"); owned[0] = true; bool posted = sx_concretize(sx_range(0, 1, "post")); std::string b = posted ? sym_string(0, 2, "body") : "", q; char c; sx_bytes(&c, 1, "h"); sx_assume(c != '\r' && c != ' '); if (posted) q = "POST /s/t?k=v%20w#f HTTP/1.1\r\nX: " + std::string(1, c) + "\r\nContent-Length: " + (char)('0' + b.size()) + "\r\n\r\n" + b; else q = "GET /s/t?k=v%20w#f HTTP/1.1\r\nX: " + std::string(1, c) + "\r\n\r\n"; Http h; get(q, &h);
    CHECK(Page::hits[0] == 1, "the servlet did not run once"); CHECK(p->seen.path == "/s/t", "path"); CHECK(p->qp.size() == 1 && p->qp["k"] == "v w", "query parameters"); CHECK(p->hd.count("X") && p->hd["X"] == std::string(1, c), "headers"); CHECK(same(p->body, b), "body"); CHECK(p->seen.type == (posted ? HTTPRequest::POST : HTTPRequest::GET), "the servlet is told the wrong HTTP method"); CHECK(p->seen.client_port == PortOfRpcEndpoint(peer.s->remote_) && p->seen.client_ip == HostOfRpcEndpoint(peer.s->remote_), "client address"); CHECK(p->seen.server_port == PortOfRpcEndpoint(peer.s->local_) , "server address");
    if (p->ret) { CHECK(h.status == (st ? "HTTP/1.1 404 Not $Found$" : "HTTP/1.1 200 OK"), "status line"); CHECK(h.type == (st ? "text/$plain" : "text/html; charset=UTF-8"), "content type"); CHECK(same(h.body, p->content), "page content"); sx_reach("page"); } else { CHECK(h.body == "\"ERROR: 8: method not found: s\\/t\"" || h.body == "\"ERROR: 8: method not found: s/t\"", "a refusing servlet"); sx_reach("none"); } }
  if (MODE == 4) { for (int i = 0; i < LEN(BI); i++) { std::string q = BI[i]; if (i == 5) q += (const char*[]){"", "?name=no", "?name=t.Svc"}[sx_concretize(sx_range(0, 2, "name"))]; Http h; get("GET " + q + " HTTP/1.1\r\n\r\n", &h); CHECK(h.status == "HTTP/1.1 200 OK" && h.type == "text/html; charset=UTF-8", "built-in page"); CHECK(i == 6 ? h.body == "profile" : h.body.find("<html>") == 0 && h.body.find("</html>") == h.body.size() - 7, "built-in page content"); } sx_reach("builtin"); }
  sv->Stop(); delete sv; for (int i = 0; i < 4; i++) { CHECK(Page::deleted[i] == owned[i], owned[i] ? "an owned servlet was not deleted once" : "a servlet the server does not own was deleted"); if (!owned[i]) delete pages[i]; } sx_reach("end"); }
