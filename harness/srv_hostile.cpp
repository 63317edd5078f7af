// Server binary framing against arbitrary bytes: never aborts, never leaves its buffers, bounded work; impossible sizes are refused.
#include "srv.h"
void sx_main() {
  const int EXTRA = sx_arg(0), CUTS = sx_arg(1), MAGIC = sx_arg(2);
  char b[128]; sx_bytes(b, 24, "hdr"); if (MAGIC) memcpy(b, "SOFA", 4);
  RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(7); std::string ms; m.SerializeToString(&ms); for (int i = 0; i < EXTRA; i++) b[24 + i] = i < (int)ms.size() ? ms[i] : (char)i; if (sx_arg(3)) sx_bytes(b + 24, EXTRA, "body");
  int32 meta; int64 data, msg; memcpy(&meta, b + 4, 4); memcpy(&data, b + 8, 8); memcpy(&msg, b + 16, 8);
  if (!MAGIC) { sx_assume(memcmp(b, "GET ", 4) != 0); sx_assume(memcmp(b, "POST", 4) != 0); }   // HTTP has its own check
  if (sx_arg(3)) sx_assume((msg < 0) | (msg > EXTRA - 4));
  IOService io; SrvP s = new_srv(io, 0); int at = 0, N = 24 + EXTRA;
  for (int c = 0; c <= CUTS && at < N; c++) { int k = c == CUTS ? N - at : (int)sx_concretize(sx_range(1, N - at, "cut")); int i = 0; while (i < k) { int w = feed(io, s, b + at + i, k - i); if (!w) break; i += w; } at += k; }
  if (MAGIC && EXTRA > 0) {
    if (msg < 0 || msg > (int64)(64 << 20) + 24) { CHECK(s->is_closed(), "impossible message size accepted"); CHECK(s->got.empty(), "request delivered from an impossible message"); sx_reach("refused"); }
    else if (msg > 0 && msg <= EXTRA && (meta < 0 || meta > msg)) { CHECK(s->is_closed(), "meta larger than its message accepted"); CHECK(s->got.empty(), "request delivered although its meta exceeds it"); sx_reach("bad-meta"); }
    else if (msg > EXTRA) { CHECK(!s->is_closed() && s->got.empty(), "incomplete message must wait for more bytes"); sx_reach("waiting"); }
    else if (msg == EXTRA && msg >= (int64)ms.size() && meta == (int)ms.size() && !sx_arg(3)) { CHECK(s->got.size() >= 1 && s->got[0]->SequenceId() == 7, "complete message not delivered"); sx_reach("delivered"); }
  } else if (!MAGIC && s->got.size()) sx_reach("delivered");
  if (s->is_closed()) { CHECK(s->closed_n == 1, "close runs once"); sx_reach("closed"); }
  sx_note(1, s->got.size()); sx_note(2, s->is_closed());
}
