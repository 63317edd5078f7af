// Contract models of the external codecs: compress then uncompress is the identity, arbitrary chunking of input and output,
// malformed input is reported by an error code. (zlib and snappy themselves are outside the code under test.)
#include <zlib.h>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "sx.h"
namespace snappy {
typedef std::string string;
size_t MaxCompressedLength(size_t n) { return n + 4; }
void RawCompress(const char* in, size_t n, char* out, size_t* on) { uint32_t k = (uint32_t)n; memcpy(out, &k, 4); memcpy(out + 4, in, n); *on = n + 4; }
bool GetUncompressedLength(const char* in, size_t n, size_t* r) { uint32_t k; if (n < 4) return false; memcpy(&k, in, 4); *r = k; return true; }
bool RawUncompress(const char* in, size_t n, char* out) { uint32_t k; if (n < 4) return false; memcpy(&k, in, 4); if (n - 4 != k) return false; memcpy(out, in + 4, k); return true; }
}
struct ZS { int mode, fmt, phase; unsigned char pend[4]; int npend; bool ended; };   // mode 1 deflate 2 inflate
static ZS* zs(z_stream* z, int mode) { ZS* s = (ZS*)z->state; if (!s || s->mode != mode) return 0; return s; }
static int zinit(z_stream* z, int mode, int wb) { ZS* s = (ZS*)malloc(sizeof(ZS)); memset(s, 0, sizeof *s); s->mode = mode; s->fmt = wb > 47 ? -1 : wb > 31 ? 0 : wb > 15 ? 'G' : 'Z'; z->state = (struct internal_state*)s; z->total_in = z->total_out = 0; z->msg = 0; return s->fmt < 0 ? Z_STREAM_ERROR : Z_OK; }
extern "C" {
int deflateInit2_(z_streamp z, int level, int, int wb, int, int, const char*, int) { if (level < -1 || level > 9) { z->state = 0; return Z_STREAM_ERROR; } int r = zinit(z, 1, wb); ZS* s = (ZS*)z->state; s->pend[0] = (unsigned char)s->fmt; s->npend = 1; return r; }
int inflateInit2_(z_streamp z, int wb, const char*, int) { return zinit(z, 2, wb); }
int deflate(z_streamp z, int flush) {
  ZS* s = zs(z, 1); if (!s || (z->avail_in && !z->next_in) || !z->next_out) return Z_STREAM_ERROR; bool prog = false;
  if (z->avail_out == 0) return Z_BUF_ERROR;
  for (;;) {
    while (s->npend && z->avail_out) { *z->next_out++ = s->pend[0]; z->avail_out--; z->total_out++; for (int i = 1; i < s->npend; i++) s->pend[i - 1] = s->pend[i]; s->npend--; prog = true; }
    if (s->npend) return Z_OK;
    if (s->ended) return Z_STREAM_END;
    if (z->avail_in) { s->pend[0] = 1; s->pend[1] = *z->next_in++; s->npend = 2; z->avail_in--; z->total_in++; prog = true; continue; }
    if (flush == Z_FINISH) { s->pend[0] = 0; s->npend = 1; s->ended = true; continue; }
    return prog ? Z_OK : Z_BUF_ERROR;
  }
}
int inflate(z_streamp z, int) {
  ZS* s = zs(z, 2); if (!s || (z->avail_in && !z->next_in) || !z->next_out) return Z_STREAM_ERROR; bool prog = false;
  for (;;) {
    if (s->phase == 3) return Z_STREAM_END; if (s->phase == 4) return Z_DATA_ERROR;
    if (!z->avail_in || (s->phase == 2 && !z->avail_out)) return prog ? Z_OK : Z_BUF_ERROR;
    unsigned char c = *z->next_in++; z->avail_in--; z->total_in++; prog = true;
    if (s->phase == 0) s->phase = (s->fmt == 0 ? (c == 'G' || c == 'Z') : c == s->fmt) ? 1 : 4;
    else if (s->phase == 1) s->phase = c == 1 ? 2 : c == 0 ? 3 : 4;
    else { *z->next_out++ = c; z->avail_out--; z->total_out++; s->phase = 1; }
  }
}
int deflateEnd(z_streamp z) { ZS* s = zs(z, 1); if (!s) return Z_STREAM_ERROR; bool bad = !s->ended && z->total_in; free(s); z->state = 0; return bad ? Z_DATA_ERROR : Z_OK; }
int inflateEnd(z_streamp z) { ZS* s = zs(z, 2); if (!s) return Z_STREAM_ERROR; free(s); z->state = 0; return Z_OK; }
}
