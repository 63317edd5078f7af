// Client framing against arbitrary bytes of the server: never aborts, never leaves its buffers, bounded work; impossible sizes are refused.
#include "cli.h"
void sx_main() {
  const int EXTRA = sx_arg(0), CUTS = sx_arg(1), MAGIC = sx_arg(2);
  char b[128]; sx_bytes(b, 24, "hdr"); if (MAGIC) memcpy(b, "SOFA", 4); for (int i = 0; i < EXTRA; i++) b[24 + i] = (char)i;
  int32 meta; int64 data, msg; memcpy(&meta, b + 4, 4); memcpy(&data, b + 8, 8); memcpy(&msg, b + 16, 8);
  IOService io; CliP s = new_cli(io, 0); int at = 0, N = 24 + EXTRA;
  for (int c = 0; c <= CUTS && at < N; c++) { int k = c == CUTS ? N - at : (int)sx_concretize(sx_range(1, N - at, "cut")); int i = 0; while (i < k) { int w = feed(io, s, b + at + i, k - i); if (!w) break; i += w; } at += k; }
  if (memcmp(b, "SOFA", 4) != 0) { CHECK(s->is_closed() && s->got.empty(), "bad magic accepted"); sx_reach("bad-magic"); }
  else if (meta < 0 || data < 0 || (unsigned __int128)(uint32_t)meta + (uint64_t)data != (unsigned __int128)(uint64_t)msg) { CHECK(s->is_closed() && s->got.empty(), "inconsistent or negative sizes accepted"); sx_reach("bad-size"); }
  else if (msg > EXTRA) { CHECK(!s->is_closed() && s->got.empty(), "incomplete message must wait for more bytes"); sx_reach("waiting"); }
  else if (msg == EXTRA) { CHECK(!s->is_closed() && s->got.size() == 1, "complete message not delivered"); CHECK(s->got[0].meta == meta && s->got[0].data == data, "sizes"); CHECK(buf_bytes(s->got[0].m) == std::string(b + 24, EXTRA), "bytes"); sx_reach("delivered"); }
  if (s->is_closed()) { CHECK(s->closed_n == 1, "close runs once"); sx_reach("closed"); }
  sx_note(1, s->got.size()); sx_note(2, s->is_closed());
}
