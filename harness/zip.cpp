// Compressed streams: what is written comes out again, whatever the pieces; malformed input ends in an error, never in a crash.
// args: mode, compress type (1 gzip 2 zlib 3 snappy 4 lz4), size, steps
#define MODE_STREAM
#include "h.h"
#include <sofa/pbrpc/compressed_stream.h>
#include <sofa/pbrpc/gzip_stream.h>
#include <sofa/pbrpc/block_wrappers.h>
#include <sofa/pbrpc/buffer.h>
using namespace sofa::pbrpc;
// an input of given pieces that holds its user to the ZeroCopyInputStream contract
struct In : google::protobuf::io::ZeroCopyInputStream { std::vector<std::string> v; size_t i, pos; int last; int64 total; In() : i(0), pos(0), last(-1), total(0) {}
  bool Next(const void** d, int* n) { if (i >= v.size()) { last = -1; return false; } *d = v[i].data() + pos; *n = (int)(v[i].size() - pos); last = *n; i++; pos = 0; total += last; return true; }
  void BackUp(int c) { CHECK(last >= 0, "BackUp() without a Next() before it"); CHECK(c >= 0 && c <= last, "BackUp() of more than Next() gave"); if (c > 0) { i--; pos = v[i].size() - c; } total -= c; last = -1; }
  bool Skip(int c) { const void* d; int n; while (c > 0 && Next(&d, &n)) { if (n > c) { BackUp(n - c); n = c; } c -= n; } return c == 0; } int64 ByteCount() const { return total; } };
static void pieces(In* in, const std::string& s, int cuts, const char* nm) { size_t b = 0; for (int k = 0; k < cuts && b < s.size(); k++) { size_t n = (size_t)sx_concretize(sx_range(1, (int64_t)(s.size() - b), nm)); in->v.push_back(s.substr(b, n)); b += n; } if (b < s.size()) in->v.push_back(s.substr(b)); }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static AbstractCompressedOutputStream* out(google::protobuf::io::ZeroCopyOutputStream* w, int t, int small) { if (small && t <= 2) { GzipOutputStream::Options o; o.format = t == 1 ? GzipOutputStream::GZIP : GzipOutputStream::ZLIB; o.buffer_size = small; return new GzipOutputStream(w, o); } return get_compressed_output_stream(w, (CompressType)t); }
static AbstractCompressedInputStream* inp(google::protobuf::io::ZeroCopyInputStream* r, int t, int small) { if (small && t <= 2) return new GzipInputStream(r, t == 1 ? GzipInputStream::GZIP : GzipInputStream::ZLIB, small); return get_compressed_input_stream(r, (CompressType)t); }
static std::string wire_of(WriteBuffer* w) { ReadBuffer r; w->SwapOut(&r); return r.ToString(); }
// writes s in pieces of at most `most` bytes per Next()
static std::string compress(const std::string& s, int t, int steps, int small) {
  WriteBuffer w; w.set_base_block_factor(1); AbstractCompressedOutputStream* o = out(&w, t, small); size_t i = 0; int k = 0; bool flushed = false;
  while (i < s.size() || k < steps) { void* p; int n; bool flush = false; CHECK(o->Next(&p, &n), "Next() of a compressing stream failed"); CHECK(n > 0, "Next() gave an empty piece"); size_t most = s.size() - i < (size_t)n ? s.size() - i : n; size_t c = most;
    if (k < steps) { int64_t want = (int64_t)sx_concretize(sx_range(0, most < 3 ? (int64_t)most : 3, "piece")); c = want == 3 ? most : (size_t)want; flush = sx_concretize(sx_range(0, 1, "flush")); } k++;
    if (c) memcpy(p, s.data() + i, c); i += c; if (c < (size_t)n) o->BackUp((int)(n - c)); if (flush) o->Flush(); CHECK(o->ByteCount() == (int64)i, "bytes accepted"); }
  o->Flush(); if (sx_concretize(sx_range(0, 1, "close"))) o->Close(); delete o; return wire_of(&w); }
// reads everything with Next/BackUp/Skip; -1: the stream reported an error
static bool uncompress(google::protobuf::io::ZeroCopyInputStream* r, int t, int steps, int small, std::string* got, std::string* skipped, size_t stop) {
  AbstractCompressedInputStream* z = inp(r, t, small); int k = 0; size_t n0 = 0; skipped->clear(); bool end = false;
  for (;;) { if (n0 >= stop) break; n0++; int op = k < steps ? (int)sx_concretize(sx_range(0, 2, "rop")) : 0; k++;
    if (op == 2) { int c = (int)sx_concretize(sx_range(0, 3, "skip")); if (!z->Skip(c)) { skipped->append(c + 1, '\2'); end = true; break; } got->append(c, '\0'); skipped->append(c, '\1'); continue; }
    const void* p; int n; if (!z->Next(&p, &n)) { end = true; break; } CHECK(n >= 0, "Next() gave a negative size"); if (n) CHECK(sx_valid(p, n), "Next() gave memory outside the buffer"); int b = 0; if (op == 1) { b = (int)sx_concretize(sx_range(0, n < 2 ? n : 2, "backup")); z->BackUp(b); } got->append((const char*)p, n - b); skipped->append(n - b, '\0'); CHECK(n0 < 200000, "endless output"); }
  bool ok = end ? z->ExpectAtEnd() : true; if (end) { const void* p; int n; for (int q = 0; q < 2; q++) if (t >= 3) CHECK(!z->Next(&p, &n), "Next() after the end"); } delete z; return ok; }
void sx_main() {
  int MODE = sx_arg(0), T = sx_arg(1), N = sx_arg(2), S = sx_arg(3), SM = sx_arg(4);
  if (MODE == 0) { std::string s = sym_string(0, N, "s"); std::string w = compress(s, T, S, SM); In in; pieces(&in, w, S, "cut"); std::string g, sk; bool ok = uncompress(&in, T, S, SM, &g, &sk, 1000); CHECK(g.size() <= s.size(), "more bytes came out than went in"); 
    CHECK(ok, "a well-formed compressed stream was refused"); int d = 0; for (size_t i = 0; i < g.size(); i++) if (!sk[i]) d |= g[i] ^ s[i]; CHECK(d == 0, "other bytes came out than went in"); bool over = false; for (size_t i = 0; i < sk.size(); i++) over |= sk[i] != 0; if (!over) CHECK(g.size() == s.size(), "bytes are missing"); if (g.size() == s.size()) sx_reach("whole"); }
  if (MODE == 1) { static const int SZ[] = {65535, 65536, 65537, 131072}; int n = SZ[sx_concretize(sx_range(0, 3, "size"))]; std::string s(n, 'z'); for (int i = 0; i < N; i++) sx_bytes(&s[n - 1 - i], 1, "t"); if (n > 65536) for (int i = 0; i < N; i++) sx_bytes(&s[65535 - i], 1, "u");
    std::string w = compress(s, T, S, 0); In in; static const size_t CUT[] = {1, 2, 3, 70, 65540}; size_t cut = CUT[sx_concretize(sx_range(0, 4, "cut"))]; if (cut < w.size()) { in.v.push_back(w.substr(0, cut)); in.v.push_back(w.substr(cut)); } else in.v.push_back(w); std::string g, sk; bool ok = uncompress(&in, T, 0, 0, &g, &sk, 1000); CHECK(ok, "a well-formed compressed stream was refused"); CHECK(same(g, s), "other bytes came out than went in"); sx_reach("whole"); }
  if (MODE == 2) { // whatever bytes come in
    In in; std::string w; if (S) { std::string seed; for (int i = 0; i < S; i++) seed += (char)('a' + i); WriteBuffer wb; AbstractCompressedOutputStream* o = out(&wb, T, SM); void* p; int n; o->Next(&p, &n); memcpy(p, seed.data(), S); o->BackUp(n - S); o->Flush(); delete o; w = wire_of(&wb); if (T <= 2 && sx_concretize(sx_range(0, 1, "cut"))) w.resize(sx_concretize(sx_range(0, w.size(), "keep"))); }
    size_t n = (size_t)sx_concretize(sx_range(0, N, "n")); std::string h; for (size_t i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "h"); h += c; }
    if (T >= 3) { int kind = (int)sx_concretize(sx_range(0, 3, "kind")); std::string z = "\xff\xff\xff\xff"; // one block, two blocks, a block cut short, an absurd block size
      if (kind == 0) w += (char)n + h; if (kind == 1 && n) { size_t k = (size_t)sx_concretize(sx_range(0, n - 1, "first")); w += (char)k + h.substr(0, k) + (char)(n - k) + h.substr(k); } if (kind == 2) w += (char)(n + 1) + h; if (kind == 3) w += z + h; } else w += h; 
    pieces(&in, w, 1, "cut"); std::string g, sk; size_t stop = (size_t)sx_concretize(sx_range(0, 3, "stop")); if (stop == 3) stop = 1000;
    bool ok = uncompress(&in, T, 1, SM, &g, &sk, stop); if (ok) sx_reach("accepted"); else sx_reach("refused"); if (stop != 1000) sx_reach("stopped"); }
  if (MODE == 3) { // a stream cut short is an error, and two streams in a row give both contents
    std::string s = sym_string(1, N, "s"), w; { WriteBuffer wb; AbstractCompressedOutputStream* o = out(&wb, T, SM); size_t i = 0; while (i < s.size()) { void* p; int n; o->Next(&p, &n); size_t c = s.size() - i < (size_t)n ? s.size() - i : n; memcpy(p, s.data() + i, c); i += c; if (c < (size_t)n) o->BackUp((int)(n - c)); } o->Flush(); delete o; w = wire_of(&wb); }
    bool twice = sx_concretize(sx_range(0, 1, "twice")); In in; std::string g, sk; if (twice) { pieces(&in, w + w + w, S, "cut"); bool ok = uncompress(&in, T, 0, SM, &g, &sk, 1000); CHECK(ok, "streams in a row were refused"); CHECK(same(g, s + s + s), "streams in a row: other bytes came out"); sx_reach("twice"); }
    else { size_t k = (size_t)sx_concretize(sx_range(1, w.size() - 1, "keep")); pieces(&in, w.substr(0, k), S, "cut"); bool ok = uncompress(&in, T, 0, SM, &g, &sk, 1000); CHECK(!ok, "a stream cut short was taken for the whole"); CHECK(g.size() < s.size() || T <= 2, "bytes"); sx_reach("short"); } }
  if (MODE == 4) { // repetitive contents (matches of every small distance, length runs), the last bytes free
    int per = (int)sx_concretize(sx_range(1, N, "period")), len = (int)sx_concretize(sx_range(0, S, "len")), at = (int)sx_concretize(sx_range(-1, 6, "odd")); std::string s; for (int i = 0; i < len; i++) s += (char)('a' + i % per); if (at >= 0 && len) s[(size_t)at * len / 7] = '#'; for (int i = 0; i < 4 && i < len; i++) sx_bytes(&s[len - 1 - i], 1, "t");
    std::string w = compress(s, T, 0, 0); In in; pieces(&in, w, 0, "cut"); std::string g, sk; CHECK(uncompress(&in, T, 0, 0, &g, &sk, 1000), "a well-formed compressed stream was refused"); CHECK(same(g, s), "other bytes came out than went in"); if (len > 16 && w.size() < s.size()) sx_reach("packed"); }
  sx_note(1, 1); sx_reach("end"); }
