// HTTP Content-Length: the body is exactly the announced number of bytes, whatever the number; malformed lengths are refused.
#include "srv.h"
void sx_main() {
  const int D = sx_arg(0), AVAIL = sx_arg(1); const int FREE = sx_arg(2);
  static const char* pats[] = {0, "21474836??", "42949672??", "429496730?", "92233720368547758??", "184467440737095516??", "00000000000?", "-?", "?1"}; const char* fix = pats[sx_arg(3)];
  std::string num((size_t)D, '0'); 
  for (int i = 0; i < D; i++) { char c; if (fix && fix[i] != '?') { num[i] = fix[i]; continue; } sx_bytes(&c, 1, "digit"); if (!FREE) sx_assume(c >= '0' && c <= '9'); else sx_assume(c != '\r' && c != '\0'); num[i] = c; }
  std::string stream = "POST /a.b HTTP/1.1\r\nContent-Length: " + num + "\r\n\r\n"; size_t head = stream.size(); for (int i = 0; i < AVAIL; i++) stream += 'P';
  IOService io; SrvP s = new_srv(io, 3); feed_all(io, s, stream.data(), (int)stream.size());
  bool ok = true, ovf = false; unsigned __int128 v = 0; for (int i = 0; i < D; i++) { ok = ok & (num[i] >= '0') & (num[i] <= '9'); v = v * 10 + (unsigned char)(num[i] - '0'); } ovf = v > (unsigned __int128)INT64_MAX;
  if (!FREE || ok) {
    if (ovf) { CHECK(s->got.empty(), "a request was delivered although its body cannot have arrived"); sx_reach("overflow"); }
    else if (v > (unsigned __int128)AVAIL) { CHECK(!s->is_closed() && s->got.empty(), "request whose body has not arrived must wait"); sx_reach("waiting"); }
    else if (s->got.empty()) { CHECK(s->is_closed() && v < (unsigned __int128)AVAIL, "complete request not delivered"); sx_reach("dropped-with-garbage"); }
    else { HTTPRpcRequest* r = static_cast<HTTPRpcRequest*>(s->got[0].get()); CHECK(r->_req_body->TotalCount() == (int64)v, "body length"); sx_reach("delivered"); }
  } else { sx_reach("malformed"); if (s->got.size()) { char c = num[D - 1]; CHECK(c >= '0' && c <= '9', "trailing garbage in Content-Length accepted"); if (num[0] == '-') CHECK(c == '0', "negative Content-Length accepted"); } }
  sx_note(1, s->got.size()); sx_note(2, s->is_closed());
}
