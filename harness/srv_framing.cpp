// Server binary framing: for every split of the byte stream into reads, the requests delivered are exactly those framed, in order.
#include "srv.h"
void sx_main() {
  const int MSGS = sx_arg(0), CUTS = sx_arg(1), DATA = sx_arg(2);
  std::string stream; std::vector<std::string> bodies; std::vector<uint64_t> ids;
  for (int i = 0; i < MSGS; i++) {
    RpcMeta m; m.set_type(RpcMeta::REQUEST); uint64 id = sx_u64("seq"); m.set_sequence_id(id); m.set_method("a.b.c"); std::string ms; m.SerializeToString(&ms);
    int n = (int)sx_concretize(sx_range(0, DATA, "dlen")); if (n == DATA) n = DATA + 40; std::string d((size_t)n, '\0'); if (n) sx_bytes(&d[0], n < 4 ? n : 4, "data"); for (int k = 4; k < n; k++) d[k] = (char)(k * 3 + i);
    stream += header_bytes((int32)ms.size(), n, (int64)ms.size() + n) + ms + d; bodies.push_back(d); ids.push_back(id);
  }
  IOService io; SrvP s = new_srv(io, 0); CHECK(s->is_connected(), "connected");
  int at = 0, N = (int)stream.size();
  for (int c = 0; c <= CUTS && at < N; c++) {
    int k = c == CUTS ? N - at : (int)sx_concretize(sx_range(1, N - at, "cut"));
    CHECK(feed_all(io, s, stream.data() + at, k), "stream stopped reading a valid message stream"); at += k;
  }
  CHECK(!s->is_closed(), "a valid message stream closed the connection"); CHECK((int)s->got.size() == MSGS, "number of requests delivered");
  for (int i = 0; i < MSGS; i++) {
    CHECK(s->got[i]->RequestType() == RpcRequest::BINARY, "request type"); BinaryRpcRequest* r = static_cast<BinaryRpcRequest*>(s->got[i].get());
    CHECK(r->SequenceId() == ids[i], "sequence id"); CHECK(r->Method() == "a.b.c", "method"); std::string b = buf_bytes(r->_req_body); CHECK(b.size() == bodies[i].size(), "body length"); CHECK(memcmp(b.data(), bodies[i].data(), b.size()) == 0, "body bytes");
    sx_note(1, b.size());
  }
  if (N > 56) sx_reach("rollover"); sx_reach("end");
}
