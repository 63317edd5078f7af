// HTTP (and mixed HTTP/binary) requests on one connection: for every split into reads, exactly the requests sent, in order.
#include "srv.h"
void sx_main() {
  const int MSGS = sx_arg(0), CUTS = sx_arg(1), BODY = sx_arg(2), KINDS = sx_arg(3);
  std::string stream; std::vector<std::string> bodies; std::vector<int> kinds; std::vector<std::string> hv;
  for (int i = 0; i < MSGS; i++) {
    int k = (int)sx_concretize(sx_range(0, KINDS - 1, "kind")); int n = 0; if (k >= 2) n = (int)sx_concretize(sx_range(0, BODY, "blen")); std::string b((size_t)n, '\0'); if (n) sx_bytes(&b[0], n, "body"); kinds.push_back(k); bodies.push_back(b);
    std::string v(1, 'v'); sx_bytes(&v[0], 1, "hval"); sx_assume(v[0] != '\r'); hv.push_back(v);
    char num[8]; sprintf(num, "%d", n);
    if (k == 0) stream += "GET /a.b?x=1 HTTP/1.1\r\nH: " + v + "\r\n\r\n";
    else if (k == 1) stream += "POST /a.b HTTP/1.1\r\nH: " + v + "\r\n\r\n";
    else if (k == 2) stream += std::string("POST /a.b HTTP/1.1\r\nH: ") + v + "\r\nContent-Length: " + num + "\r\n\r\n" + b;
    else if (k == 3) stream += std::string("POST /a.b HTTP/1.0\r\nContent-Length: ") + num + "\r\nH: " + v + "\r\nAccept: application/protobuf\r\n\r\n" + b;
    else { RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(9); std::string ms; m.SerializeToString(&ms); stream += header_bytes((int32)ms.size(), n, (int64)ms.size() + n) + ms + b; }
  }
  IOService io; SrvP s = new_srv(io, 1); CHECK(s->is_connected(), "connected");
  int at = 0, N = (int)stream.size();
  for (int c = 0; c <= CUTS && at < N; c++) { int k = c == CUTS ? N - at : (int)sx_concretize(sx_range(1, N - at, "cut")); CHECK(feed_all(io, s, stream.data() + at, k), "stream stopped reading a valid request stream"); at += k; }
  CHECK(!s->is_closed(), "valid requests closed the connection"); CHECK((int)s->got.size() == MSGS, "number of requests delivered");
  for (int i = 0; i < MSGS; i++) {
    if (kinds[i] == 4) { CHECK(s->got[i]->RequestType() == RpcRequest::BINARY, "type"); CHECK(buf_bytes(static_cast<BinaryRpcRequest*>(s->got[i].get())->_req_body) == bodies[i], "binary body"); sx_reach("mixed"); continue; }
    CHECK(s->got[i]->RequestType() == RpcRequest::HTTP, "type"); HTTPRpcRequest* r = static_cast<HTTPRpcRequest*>(s->got[i].get());
    CHECK(r->Method() == "a.b", "method"); CHECK(r->_path == "/a.b", "path"); CHECK(r->_headers.count("H") && r->_headers["H"] == hv[i], "header value");
    CHECK(r->_type == (kinds[i] == 0 ? HTTPRpcRequest::GET : kinds[i] == 3 ? HTTPRpcRequest::POST_PB : HTTPRpcRequest::POST), "request kind");
    if (kinds[i] == 0) CHECK(r->_query_params.size() == 1 && r->_query_params["x"] == "1", "query"); else CHECK(r->_query_params.empty(), "no query");
    std::string b = buf_bytes(r->_req_body); CHECK(b.size() == bodies[i].size() && memcmp(b.data(), bodies[i].data(), b.size()) == 0, "body bytes"); sx_note(1, b.size());
    if (b.size()) sx_reach("body");
  }
  sx_reach("end");
}
