// Common helpers of all harnesses.
#pragma once
#include "sx.h"
#include <sofa/pbrpc/common.h>
#include <string>
#include <vector>
#include <string.h>
#define LEN(a) ((int)(sizeof(a) / sizeof((a)[0])))
// FNV digest of bytes, recorded with sx_note for the cross-validation of sampled paths against the native build
static inline uint64_t h_digest(const void* p, size_t n) { const unsigned char* s = (const unsigned char*)p; uint64_t h = n * 0x9E3779B97F4A7C15ULL + 7; for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 1099511628211ULL; return h; }
static inline void note_str(int tag, const std::string& s) { sx_note(tag, s.size()); for (size_t i = 0; i < s.size() && i < 40; i++) sx_note(tag, (unsigned char)s[i]); }
static inline std::string sym_string(int lo, int hi, const char* name) { int n = (int)sx_concretize(sx_range(lo, hi, name)); std::string s((size_t)n, '\0'); if (n) sx_bytes(&s[0], n, name); return s; }
// one symbolic byte drawn from a small alphabet (index stays symbolic)
static inline char sym_of(const char* alphabet, int n, const char* name) { return alphabet[sx_range(0, n - 1, name)]; }
#define CHECK(c, msg) sx_assert(!!(c), msg)
