// Bitcode C library support for the symbolic run only (natively the real libraries are used).
#include "sx.h"
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
extern "C" {
int isdigit(int);int isalpha(int);int isupper(int);int islower(int);int isalnum(int);int isspace(int);int isxdigit(int);

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++; return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++, n--; return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* (strchr)(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* (strrchr)(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* (memchr)(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* (strstr)(const char* h, const char* n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h; return 0; }
char* (strpbrk)(const char* s, const char* a) { for (; *s; s++) for (const char* p = a; *p; p++) if (*p == *s) return (char*)s; return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)__builtin_malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
int (isspace)(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int (isdigit)(int c) { return c >= '0' && c <= '9'; }
int (isalpha)(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int (isalnum)(int c) { return isalpha(c) || isdigit(c); }
int (isupper)(int c) { return c >= 'A' && c <= 'Z'; }
int (islower)(int c) { return c >= 'a' && c <= 'z'; }
int (isxdigit)(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int (isprint)(int c) { return c >= 32 && c < 127; }
int (ispunct)(int c) { return c > 32 && c < 127 && !isalnum(c); }
int (iscntrl)(int c) { return (c >= 0 && c < 32) || c == 127; }
int (toupper)(int c) { return islower(c) ? c - 32 : c; }
int (tolower)(int c) { return isupper(c) ? c + 32 : c; }
static unsigned short g_cb[384]; static int g_tl[384], g_tu[384]; static const unsigned short* g_cbp; static const int *g_tlp, *g_tup;
static void ctinit() { if (g_cbp) return; for (int i = -128; i < 256; i++) { unsigned short f = 0; if (i >= 0 && i < 128) { if (isupper(i)) f |= 1 << 8; if (islower(i)) f |= 1 << 9; if (isalpha(i)) f |= 1 << 10; if (isdigit(i)) f |= 1 << 11; if (isxdigit(i)) f |= 1 << 12; if (isspace(i)) f |= 1 << 13; if (i >= 32 && i < 127) f |= 1 << 14; if (i > 32 && i < 127) f |= 1 << 15; if (i == 32 || i == 9) f |= 1; if (i < 32 || i == 127) f |= 2; if (i > 32 && i < 127 && !isalnum(i)) f |= 4; if (isalnum(i)) f |= 8; }
    g_cb[i + 128] = f; g_tl[i + 128] = isupper(i) ? i + 32 : i; g_tu[i + 128] = islower(i) ? i - 32 : i; } g_tlp = g_tl + 128; g_tup = g_tu + 128; g_cbp = g_cb + 128; }
const unsigned short** __ctype_b_loc() { ctinit(); return &g_cbp; }
const int** __ctype_tolower_loc() { ctinit(); return &g_tlp; }
const int** __ctype_toupper_loc() { ctinit(); return &g_tup; }
static int g_errno; int* __errno_location() { return &g_errno; }
static unsigned long long parseInt(const char* s, char** e, int base, bool sgn, bool* neg, bool* ovf) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; *neg = false; *ovf = false; if (*p == '+' || *p == '-') { *neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false; for (;; p++) { int d; unsigned char c = *p; if (isdigit(c)) d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = true; unsigned long long lim = sgn ? (*neg ? 0x8000000000000000ULL : 0x7fffffffffffffffULL) : ~0ULL; if (v > (lim - d) / base) { *ovf = true; } if (!*ovf) v = v * base + d; }
  if (e) *e = (char*)(any ? p : s); if (!any) { *neg = false; return 0; } return v; }
long strtol(const char* s, char** e, int b) { bool n, o; unsigned long long v = parseInt(s, e, b, true, &n, &o); if (o) { g_errno = 34; return n ? (long)0x8000000000000000ULL : 0x7fffffffffffffffL; } return n ? -(long)v : (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { bool n, o; unsigned long long v = parseInt(s, e, b, false, &n, &o); if (o) { g_errno = 34; return ~0UL; } return n ? -(unsigned long)v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
// minimal printf family (d i u x X o c s p l ll z h, width, precision for strings, 0 and - flags)
int sx_fmtg(uint64_t bits, int prec, char* out);
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t o = 0; auto put = [&](char c) { if (o + 1 < n) b[o] = c; o++; };
  for (; *f; f++) { if (*f != '%') { put(*f); continue; } f++; bool zero = false, left = false, plus = false, alt = false; for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') {} else break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) w = w * 10 + (*f++ - '0'); if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) pr = pr * 10 + (*f++ - '0'); }
    int l = 0, h = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h' || *f == 't') { if (*f == 'h') h++; else l++; f++; }
    char t[72]; int k = 0; const char* s = t; int len;
    switch (*f) {
      case '%': put('%'); continue;
      case 'g': { double d = va_arg(ap, double); uint64_t u; __builtin_memcpy(&u, &d, 8); len = sx_fmtg(u, pr < 0 ? 6 : pr, t); break; }
      case 'c': t[0] = (char)va_arg(ap, int); len = 1; break;
      case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; len = 0; while ((pr < 0 || len < pr) && s[len]) len++; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long long v; bool neg = false; if (*f == 'p') { v = (unsigned long long)va_arg(ap, void*); l = 2; } else if (l) v = va_arg(ap, unsigned long long); else { int x = va_arg(ap, int); v = (*f == 'd' || *f == 'i') ? (unsigned long long)(long long)x : (unsigned long long)(unsigned)x; if (h == 2) v = (*f == 'd' || *f == 'i') ? (unsigned long long)(long long)(signed char)x : (unsigned char)x; else if (h == 1) v = (*f == 'd' || *f == 'i') ? (unsigned long long)(long long)(short)x : (unsigned short)x; }
        if ((*f == 'd' || *f == 'i') && (long long)v < 0) { neg = true; v = -v; } unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; char r[40]; int m = 0; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; if (base == 16 && zero && !left && w >= 16) { for (; m < 16; m++) { r[m] = dg[v & 15]; v >>= 4; } } else do { unsigned d = base == 16 ? (unsigned)(v & 15) : base == 8 ? (unsigned)(v & 7) : (unsigned)(v % base); r[m++] = dg[d]; v = base == 16 ? v >> 4 : base == 8 ? v >> 3 : v / base; } while (v); while (m < pr) r[m++] = '0';
        if (neg) t[k++] = '-'; else if (plus) t[k++] = '+'; if (*f == 'p' || (alt && base == 16)) { t[k++] = '0'; t[k++] = 'x'; } if (zero && !left) while (m + k < w && m < 39) r[m++] = '0'; while (m) t[k++] = r[--m]; len = k; break; }
      default: sx_fail("printf model: unsupported conversion"); len = 0; }
    if (!left) for (int i = len; i < w; i++) put(' '); for (int i = 0; i < len; i++) put(s[i]); if (left) for (int i = len; i < w; i++) put(' '); }
  if (n) b[o < n ? o : n - 1] = 0; return (int)o; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
void* __cxa_allocate_exception(size_t n) { return __builtin_malloc(n); }
void __cxa_free_exception(void*) {}
int __gxx_personality_v0() { return 0; }
char __libc_single_threaded = 0;
void* __dso_handle = 0;
// single-inheritance dynamic_cast
extern char _ZTVN10__cxxabiv117__class_type_infoE[], _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static int isBase(const void** ti, const void** dst, long* off) {
  for (int d = 0; d < 10; d++) { if (ti == dst) { *off = 0; return 1; } if (ti[0] == (void*)(_ZTVN10__cxxabiv120__si_class_type_infoE + 16)) { ti = (const void**)ti[2]; continue; } break; }
  if (ti[0] == (void*)(_ZTVN10__cxxabiv121__vmi_class_type_infoE + 16)) { unsigned n = ((unsigned*)(ti + 2))[1]; for (unsigned i = 0; i < n; i++) { const void** b = (const void**)ti[3 + 2 * i]; long fl = (long)ti[4 + 2 * i]; long o; if (isBase(b, dst, &o)) { *off = (fl >> 8) + o; return 1; } } }
  return 0; }
void* __dynamic_cast(const void* p, const void*, const void* dst, long) {
  const void** vt = *(const void***)p; long top = (long)vt[-2]; const void** ti = (const void**)vt[-1]; long off;
  if (isBase(ti, (const void**)dst, &off)) return (char*)p + top + off; return 0; }
}
