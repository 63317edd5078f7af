// String helpers: escapes, URL coding, splitting, trimming, replacing, character classes, base64/hex.
// args: mode, max length
#include "h.h"
#include <sstream>
#include <stdexcept>
#include <sofa/pbrpc/string_utils.h>
#include <sofa/pbrpc/ascii.h>
#include <sofa/pbrpc/bin2ascii.h>
using namespace sofa::pbrpc;
typedef std::string Str; typedef StringUtils SU;
static bool hexd(unsigned char c) { return (int)(c >= '0') & (c <= '9') | (c >= 'a') & (c <= 'f') | (c >= 'A') & (c <= 'F'); }
static int hexv(unsigned char c) { return (c & 15) + 9 * (c > '9'); }
static bool in(const char* set, unsigned char c) { int r = 0; for (const char* p = set; *p; p++) r |= c == (unsigned char)*p; return r; }
static bool alnum(unsigned char c) { return (c >= '0') & (c <= '9') | (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z'); }
static const char* HEX = "0123456789ABCDEF";
static void same(const Str& a, const Str& b, const char* m) { CHECK(a.size() == b.size(), m); int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; CHECK(d == 0, m); note_str(1, a); }
// reference decoders
static Str xml_ref(const Str& s) { Str r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '&') r += "&amp;"; else if (c == '\'') r += "&apos;"; else if (c == '"') r += "&quot;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else r += c; } return r; }
static bool json_dec(const Str& s, Str* r) { for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c < 0x20 || c == '"') return false; if (c != '\\') { *r += c; continue; } if (++i >= s.size()) return false; c = s[i];
    if (c == '"' || c == '\\' || c == '/') *r += c; else if (c == 'b') *r += '\b'; else if (c == 'f') *r += '\f'; else if (c == 'n') *r += '\n'; else if (c == 'r') *r += '\r'; else if (c == 't') *r += '\t';
    else if (c == 'u') { if (i + 4 >= s.size() + 0 && i + 4 > s.size() - 1) return false; int v = 0; for (int k = 1; k <= 4; k++) { if (!hexd(s[i + k])) return false; v = v * 16 + hexv(s[i + k]); } if (v > 255) return false; *r += (char)v; i += 4; } else return false; } return true; }
static Str url_enc_ref(const Str& s, int flag) { Str r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; bool raw;
    if (c == '%') raw = i + 2 < s.size() && hexd(s[i + 1]) && hexd(s[i + 2]);
    else if (alnum(c) || in("-._~", c)) raw = true; else if (in(":/?#[]@!$&'()*+,;=", c)) raw = !(flag & SU::E_ENCODE_RESERVED_CHAR); else if (c > 127) raw = flag & SU::E_NOT_ENCODE_HIGH_CHAR; else raw = false;
    if (raw) r += c; else { r += '%'; r += HEX[c >> 4]; r += HEX[c & 15]; } } return r; }
static Str url_dec_ref(const Str& s, int flag) { Str r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size() && hexd(s[i + 1]) && hexd(s[i + 2])) { unsigned char c = hexv(s[i + 1]) * 16 + hexv(s[i + 2]);
      bool dec = c == '%' ? flag & SU::E_DECODE_PERCENT_SIGN_CHAR : in(":/?#[]@!$&'()*+,;=", c) ? flag & SU::E_DECODE_RESERVED_CHAR : true; if (dec) r += c; else r += s.substr(i, 3); i += 2; } else r += s[i]; } return r; }
static Str b64_ref(const Str& s) { static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str r; for (size_t i = 0; i < s.size(); i += 3) { unsigned n = (unsigned char)s[i] << 16; int k = 1; if (i + 1 < s.size()) n |= (unsigned char)s[i + 1] << 8, k = 2; if (i + 2 < s.size()) n |= (unsigned char)s[i + 2], k = 3; r += T[(n >> 18) & 63]; r += T[(n >> 12) & 63]; r += k > 1 ? T[(n >> 6) & 63] : '='; r += k > 2 ? T[n & 63] : '='; } return r; }
static Str sym_over(int lo, int hi, const char* al, const char* nm) { int n = (int)sx_concretize(sx_range(lo, hi, nm)); Str s; int m = strlen(al); for (int i = 0; i < n; i++) s += al[sx_concretize(sx_range(0, m - 1, nm))]; return s; }
static Str cut(const Str& s, size_t p, size_t n) { Str r; for (size_t i = p; i < p + n; i++) r += s[i]; return r; }
static bool at(const Str& s, size_t p, const Str& m) { if (p + m.size() > s.size()) return false; for (size_t i = 0; i < m.size(); i++) if (s[p + i] != m[i]) return false; return true; }
void sx_main() {
  int mode = sx_arg(0), N = sx_arg(1);
  if (mode == 0) { Str s = sym_string(0, N, "s"); Str e = SU::c_escape_string(s); for (size_t i = 0; i < e.size(); i++) CHECK((unsigned char)e[i] >= 0x20 && (unsigned char)e[i] <= 0x7e, "c-escaped text must be printable"); same(SU::unescape_c_escape_string(e), s, "unescape(escape(s)) != s"); sx_reach("cescape"); }
  if (mode == 1) { Str s = sym_string(0, N, "s"); same(SU::xml_escape_string(s), xml_ref(s), "xml escaping differs from the five entities"); sx_reach("xml"); }
  if (mode == 2) { Str s = sym_string(0, N, "s"); Str e = SU::json_escape_string(s), d; CHECK(json_dec(e, &d), "json-escaped text is not a valid JSON string body"); same(d, s, "JSON decoding of the escaped text differs"); sx_reach("json"); }
  if (mode == 3) { int flag = (int)sx_concretize(sx_range(0, 3, "flag")); Str s = sym_string(0, N, "s"); same(SU::encode_url(s, flag), url_enc_ref(s, flag), "URL encoding differs from the reference"); sx_reach("urlenc"); }
  if (mode == 4) { int flag = (int)sx_concretize(sx_range(0, 3, "flag")) << 4; Str s = sym_string(0, N, "s"); same(SU::decode_url(s, flag), url_dec_ref(s, flag), "URL decoding differs from the reference"); sx_reach("urldec"); }
  if (mode == 5) { Str s = sym_string(0, N, "s"); for (size_t i = 0; i < s.size(); i++) sx_assume(s[i] != '%'); int flag = (int)sx_concretize(sx_range(0, 3, "flag")); same(SU::decode_url(SU::encode_url(s, flag), SU::E_DECODE_RESERVED_CHAR | SU::E_DECODE_PERCENT_SIGN_CHAR), s, "decode(encode(s)) != s"); sx_reach("urlrt"); }
  if (mode == 6) { Str s = sym_string(0, N, "s"); Str e = b64_encode(s); same(e, b64_ref(s), "base64 text differs from RFC 4648"); same(b64_decode(e), s, "base64 round trip"); Str h = bin2hex(s); CHECK(h.size() == 2 * s.size(), "hex size"); for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; CHECK((unsigned char)h[2 * i] == (unsigned char)"0123456789abcdef"[c >> 4] && (unsigned char)h[2 * i + 1] == (unsigned char)"0123456789abcdef"[c & 15], "hex digits"); } same(hex2bin(h), s, "hex round trip"); sx_reach("bin"); }
  if (mode == 7) { unsigned char c; sx_bytes(&c, 1, "c"); char ch = (char)c; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13);
    CHECK(Ascii::is_upper(ch) == up && Ascii::is_lower(ch) == lo && Ascii::is_digit(ch) == dg && Ascii::is_alpha(ch) == (up || lo) && Ascii::is_alpha_number(ch) == (up || lo || dg), "letter and digit classes");
    CHECK(Ascii::is_space(ch) == sp, "space class"); CHECK(Ascii::is_hex_digit(ch) == hexd(c), "hex digit class"); CHECK(Ascii::is_print(ch) == (c >= 32 && c < 127), "print class"); CHECK(Ascii::is_control(ch) == (c < 32 || c == 127), "control class");
    CHECK((unsigned char)Ascii::to_upper(ch) == (lo ? c - 32 : c) && (unsigned char)Ascii::to_lower(ch) == (up ? c + 32 : c), "case mapping"); Str s(1, ch); CHECK((unsigned char)SU::to_upper(s)[0] == (lo ? c - 32 : c) && (unsigned char)SU::to_lower(s)[0] == (up ? c + 32 : c), "string case mapping"); sx_reach("ascii"); }
  if (mode == 8) { Str s = sym_string(0, N, "s"); size_t b = 0, e = s.size(); Str t = SU::trim(s); while (b < e && in(" \t\n\v\f\r", s[b])) b++; while (e > b && in(" \t\n\v\f\r", s[e - 1])) e--; same(t, cut(s, b, e - b), "trim must remove exactly the surrounding white space"); sx_reach("trim"); }
  if (mode == 9) { Str s = sym_over(0, N, "ab,", "s"), d = sym_over(0, 2, "a,", "d"); std::vector<Str> v(1, "junk"), w; SU::split(s, d, &v);
    if (s.empty() || d.empty()) w.push_back(s); else { size_t st = 0, i = 0; while (i < s.size()) if (at(s, i, d)) { w.push_back(cut(s, st, i - st)); i += d.size(); st = i; } else i++; w.push_back(cut(s, st, s.size() - st)); }
    CHECK(v.size() == w.size(), "number of pieces"); for (size_t i = 0; i < v.size(); i++) same(v[i], w[i], "piece differs"); same(SU::join(v, d), s, "join(split(s)) != s"); sx_reach("split"); }
  if (mode == 10) { Str s = sym_over(0, N, "ab", "s"), o = sym_over(0, 2, "ab", "o"), n = sym_over(0, 2, "ax", "n"); Str one, all; bool done = false; size_t i = 0; for (; i < s.size();) if (!o.empty() && at(s, i, o)) { all += n; if (!done) one += n; else one += o; done = true; i += o.size(); } else { all += s[i]; one += s[i]; i++; }
    same(SU::replace_all(s, o, n), all, "replace_all"); same(SU::replace(s, o, n), one, "replace"); CHECK(SU::begin_with(s, o) == at(s, 0, o), "begin_with"); CHECK(SU::end_with(s, o) == (s.size() >= o.size() && at(s, s.size() - o.size(), o)), "end_with"); sx_reach("replace"); }
  if (mode == 11) { uint64_t v = sx_u64("v"); Str s = SU::uint64_to_string(v); CHECK(s.size() == 18 && s[0] == '0' && s[1] == 'x', "0x and 16 digits"); int d = 0; for (int i = 0; i < 16; i++) d |= s[2 + i] ^ HEX[(v >> (60 - 4 * i)) & 15]; CHECK(d == 0, "upper-case hex digits must denote the value"); sx_reach("u64"); }
  if (mode == 12) { // malformed input is refused with an exception, never read past its end, never decoded to something else
    Str s = sym_string(0, N, "s"), r; bool bad = false; try { r = SU::unescape_c_escape_string(s); } catch (const std::runtime_error& e) { bad = true; }
    bool nul = false; size_t end = s.size(); for (size_t i = 0; i < s.size(); i++) if (!nul && s[i] == 0) nul = true, end = i; Str w; bool wb = false;
    for (size_t i = 0; i < end && !wb; i++) { if (s[i] != '\\') { w += s[i]; continue; } if (++i >= end) { wb = true; break; } char c = s[i]; static const char* F = "abfnrtv\\?'\""; static const char* T = "\a\b\f\n\r\t\v\\?'\""; int k = 0; while (k < 11 && F[k] != c) k++;
      if (k < 11) w += T[k]; else if (c >= '0' && c <= '7') { int v = c - '0'; for (int q = 0; q < 2 && i + 1 < end && s[i + 1] >= '0' && s[i + 1] <= '7'; q++) v = v * 8 + s[++i] - '0'; w += (char)v; }
      else if (c == 'x' || c == 'X') { unsigned v = 0; int d = 0; while (i + 1 < end && hexd(s[i + 1])) v = (v << 4) + hexv(s[++i]), d++; if (!d || v > 255) wb = true; else w += (char)v; } else wb = true; }
    CHECK(bad == wb, "a malformed escape must be refused and a well-formed one accepted"); if (!bad) { same(r, w, "unescaped text"); sx_reach("good"); } else sx_reach("refused"); }
  if (mode == 13) { Str s = sym_string(0, N, "s"), r; bool bad = false; try { r = hex2bin(s); } catch (const std::runtime_error&) { bad = true; } bool wb = s.size() % 2; for (size_t i = 0; i < s.size(); i++) wb |= !hexd(s[i]); CHECK(bad == wb, "exactly the non-hex texts are refused"); if (!bad) { CHECK(r.size() * 2 == s.size(), "hex size"); for (size_t i = 0; i < r.size(); i++) CHECK((unsigned char)r[i] == hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]), "hex value"); sx_reach("good"); } else sx_reach("refused"); }
  if (mode == 14) { Str s = sym_string(N, N, "s"), r; bool bad = false; try { r = b64_decode(s); } catch (const std::runtime_error&) { bad = true; } bool wb = s.size() % 4; int al = 1; for (size_t i = 0; i < s.size(); i++) al &= alnum(s[i]) | (s[i] == '+') | (s[i] == '/') | (s[i] == '='); CHECK(bad == (wb || !al), "exactly the texts outside the base64 alphabet are refused"); sx_reach(bad ? "refused" : "good"); }
}
