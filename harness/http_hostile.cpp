// HTTP head against arbitrary bytes: no abort, no access outside the buffers, refused input closes the connection exactly once.
#include "srv.h"
void sx_main() {
  const int N = sx_arg(0), MODE = sx_arg(1); static const char* pre[] = {"GET ", "POST", "GET /", "POST / HTTP/1.1\r\n", "GET /a?", "GET /a HTTP/1.1\r\nA: "};
  std::string st = pre[MODE]; std::string x((size_t)N, 'x'); for (int i = 0; i < N; i++) x[i] = sx_arg(2) ? sym_of("/ ?&=#%\r\n:a4", 12, "byte") : '\0'; if (!sx_arg(2)) sx_bytes(&x[0], N, "byte"); st += x;
  IOService io; SrvP s = new_srv(io, 3); feed_all(io, s, st.data(), (int)st.size());
  if (MODE == 0 && x[0] != '/') { CHECK(s->got.empty(), "path not starting with a slash accepted"); }
  if (MODE == 1 && x[0] != ' ') { CHECK(s->is_closed(), "missing space after POST accepted"); sx_reach("refused"); }
  if (s->is_closed()) { CHECK(s->closed_n == 1, "closed once"); sx_reach("closed"); } else { CHECK(s->socket().rd_, "open connection must keep reading"); sx_reach("open"); }
  sx_note(1, s->got.size()); sx_note(2, s->is_closed());
}
