// Client framing: for every split of the response stream into reads, exactly the framed messages are delivered, in order.
#include "cli.h"
void sx_main() {
  const int MSGS = sx_arg(0), CUTS = sx_arg(1), DATA = sx_arg(2);
  std::string stream; std::vector<std::string> bodies; std::vector<int> metas;
  for (int i = 0; i < MSGS; i++) {
    int mn = (int)sx_concretize(sx_range(0, 2, "mlen")), n = (int)sx_concretize(sx_range(0, DATA, "dlen")); if (n == DATA && n) n = DATA + 40; int t = mn + n; std::string d((size_t)t, '\0'); if (t) sx_bytes(&d[0], t < 4 ? t : 4, "data"); for (int k = 4; k < t; k++) d[k] = (char)(k * 3 + i);
    stream += header_bytes(mn, n, t) + d; bodies.push_back(d); metas.push_back(mn);
  }
  IOService io; CliP s = new_cli(io, 0); CHECK(s->is_connected(), "connected");
  int at = 0, N = (int)stream.size();
  for (int c = 0; c <= CUTS && at < N; c++) { int k = c == CUTS ? N - at : (int)sx_concretize(sx_range(1, N - at, "cut")); CHECK(feed_all(io, s, stream.data() + at, k), "stream stopped reading a valid message stream"); at += k; }
  CHECK(!s->is_closed(), "a valid message stream closed the connection"); CHECK((int)s->got.size() == MSGS, "number of messages delivered");
  for (int i = 0; i < MSGS; i++) {
    CHECK(s->got[i].meta == metas[i] && s->got[i].data == (int64)bodies[i].size() - metas[i], "message sizes"); CHECK(s->got[i].m->TotalCount() == (int64)bodies[i].size(), "message length");
    std::string b = buf_bytes(s->got[i].m); CHECK(b.size() == bodies[i].size() && memcmp(b.data(), bodies[i].data(), b.size()) == 0, "message bytes"); sx_note(1, b.size());
  }
  if (N > 56) sx_reach("rollover"); sx_reach("end");
}
