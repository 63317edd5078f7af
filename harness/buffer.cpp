// Zero-copy buffers: WriteBuffer -> ReadBuffer is the identity for every sequence of Next/BackUp/Append/Reserve+SetData.
#include "h.h"
#include <sofa/pbrpc/buffer.h>
using namespace sofa::pbrpc;
void sx_main() {
  const int OPS = sx_arg(0), K = sx_arg(1);
  WriteBuffer wb; wb.set_base_block_factor(0);
  std::vector<unsigned char> model;            // oracle: the plain byte sequence
  int64 res_head = -1; int res_len = 0;
  for (int op = 0; op < OPS; op++) {
    int kind = (int)sx_concretize(sx_range(0, 2, "op"));
    if (kind == 0) {                            // Next, fill, BackUp some
      void* d = 0; int n = -7; bool ok = wb.Next(&d, &n); CHECK(ok, "Next failed"); CHECK(n > 0, "Next returned an empty block"); CHECK(sx_valid(d, n), "Next returned a bad range");
      int64 before = wb.ByteCount(); CHECK(before == (int64)model.size() + n, "ByteCount after Next");
      int used = (int)sx_concretize(sx_range(0, n < K ? n : K, "used")); int back = n - used; if (sx_concretize(sx_range(0, 1, "keepall"))) back = 0, used = n;
      for (int i = 0; i < used; i++) { unsigned char c = (unsigned char)(i * 7 + op * 31 + 1); ((unsigned char*)d)[i] = c; model.push_back(c); }
      wb.BackUp(back); CHECK(wb.ByteCount() == (int64)model.size(), "ByteCount after BackUp");
    } else if (kind == 1) {                     // Append
      int n = (int)sx_concretize(sx_range(0, K, "alen")); std::string s((size_t)n, 'x'); if (n) sx_bytes(&s[0], n, "abyte"); CHECK(wb.Append(s), "Append failed"); for (int i = 0; i < n; i++) model.push_back((unsigned char)s[i]);
    } else {                                    // Reserve (once), patched later
      if (res_head < 0) { int n = (int)sx_concretize(sx_range(1, 70, "rlen")); res_head = wb.Reserve(n); CHECK(res_head >= 0, "Reserve failed"); CHECK(res_head == (int64)model.size(), "Reserve position"); res_len = n; for (int i = 0; i < n; i++) model.push_back(0); }
      else { std::string s((size_t)res_len, ' '); for (int i = 0; i < res_len; i++) { s[i] = (char)(200 - i); model[res_head + i] = (unsigned char)(200 - i); } wb.SetData(res_head, s.data(), res_len); }
    }
    CHECK(wb.ByteCount() == (int64)model.size(), "ByteCount");
  }
  bool patched = false; if (res_head >= 0) { std::string s((size_t)res_len, ' '); for (int i = 0; i < res_len; i++) { s[i] = (char)(100 + i); model[res_head + i] = (unsigned char)(100 + i); } wb.SetData(res_head, s.data(), res_len); patched = true; }
  int64 total = wb.ByteCount();
  ReadBuffer rb; wb.SwapOut(&rb);
  CHECK(wb.ByteCount() == 0, "SwapOut leaves the writer empty"); CHECK(rb.TotalCount() == total, "TotalCount");
  size_t at = 0; const void* d; int n; int blocks = 0;
  while (rb.Next(&d, &n)) { CHECK(n > 0, "empty block"); CHECK(at + n <= model.size(), "reader yields more bytes than were written"); int back = sx_concretize(sx_range(0, 1, "rback")) ? n / 2 : 0; for (int i = 0; i < n - back; i++) CHECK(((const unsigned char*)d)[i] == model[at + i], "byte differs"); rb.BackUp(back); at += n - back; CHECK(rb.ByteCount() == (int64)at, "reader ByteCount"); if (++blocks > 40) break; }
  CHECK(at == model.size(), "reader yields every byte written");
  sx_note(1, at); if (patched) sx_reach("patched"); if (blocks > 1) sx_reach("multi-block"); sx_reach("end");
}
