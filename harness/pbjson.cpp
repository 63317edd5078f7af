// JSON <-> protobuf mapping on the reflection model. args: mode, n
#include "h.h"
#include <limits>
#include <stdexcept>
#include <google/protobuf/message.h>
#include <sofa/pbrpc/pbjson.h>
#include <sofa/pbrpc/bin2ascii.h>
using namespace google::protobuf; using namespace sofa::pbrpc;
typedef FieldDescriptor FD; typedef rapidjson::Value JV;
static const struct { const char* n; FD::Type t; FD::CppType c; } KINDS[] = { {"i32", FD::TYPE_INT32, FD::CPPTYPE_INT32}, {"u32", FD::TYPE_UINT32, FD::CPPTYPE_UINT32}, {"i64", FD::TYPE_INT64, FD::CPPTYPE_INT64}, {"u64", FD::TYPE_UINT64, FD::CPPTYPE_UINT64}, {"b", FD::TYPE_BOOL, FD::CPPTYPE_BOOL}, {"s", FD::TYPE_STRING, FD::CPPTYPE_STRING}, {"y", FD::TYPE_BYTES, FD::CPPTYPE_STRING}, {"e", FD::TYPE_ENUM, FD::CPPTYPE_ENUM}, {"m", FD::TYPE_MESSAGE, FD::CPPTYPE_MESSAGE}, {"d", FD::TYPE_DOUBLE, FD::CPPTYPE_DOUBLE}, {"f", FD::TYPE_FLOAT, FD::CPPTYPE_FLOAT} };
enum { K_I32, K_U32, K_I64, K_U64, K_B, K_S, K_Y, K_E, K_M, K_D, K_F, NK };
static Descriptor inner, top; static EnumDescriptor en; static Reflection ref; static FD fd[2 * NK], ifd;
static void build() {
  static EnumValueDescriptor v0, v1; v0.name_ = "ZERO"; v0.num_ = 0; v1.name_ = "SEVEN"; v1.num_ = 7; en.v_.push_back(&v0); en.v_.push_back(&v1);
  ifd.name_ = "x"; ifd.idx_ = 0; inner.f_.push_back(&ifd);
  for (int r = 0; r < 2; r++) for (int k = 0; k < NK; k++) { FD& f = fd[r * NK + k]; f.name_ = std::string(r ? "r" : "") + KINDS[k].n; f.t_ = KINDS[k].t; f.c_ = KINDS[k].c; f.l_ = r ? FD::LABEL_REPEATED : FD::LABEL_OPTIONAL; f.e_ = &en; f.m_ = &inner; f.idx_ = r * NK + k; top.f_.push_back(&f); }
}
static void set(Message& m, FD* f, int k, int64_t i, const std::string& s) {
  bool r = f->is_repeated();
  switch (k) { case K_I32: r ? ref.AddInt32(&m, f, (int32)i) : ref.SetInt32(&m, f, (int32)i); break; case K_U32: r ? ref.AddUInt32(&m, f, (uint32)i) : ref.SetUInt32(&m, f, (uint32)i); break; case K_I64: r ? ref.AddInt64(&m, f, i) : ref.SetInt64(&m, f, i); break; case K_U64: r ? ref.AddUInt64(&m, f, i) : ref.SetUInt64(&m, f, i); break; case K_B: r ? ref.AddBool(&m, f, i & 1) : ref.SetBool(&m, f, i & 1); break; case K_S: case K_Y: r ? ref.AddString(&m, f, s) : ref.SetString(&m, f, s); break; case K_E: r ? ref.AddEnum(&m, f, en.value(i & 1)) : ref.SetEnum(&m, f, en.value(i & 1)); break;
    case K_M: { Message* c = r ? ref.AddMessage(&m, f) : ref.MutableMessage(&m, f); ref.SetInt32(c, &ifd, (int32)i); break; } case K_D: r ? ref.AddDouble(&m, f, 0.5) : ref.SetDouble(&m, f, 0.5); break; case K_F: r ? ref.AddFloat(&m, f, -2.25f) : ref.SetFloat(&m, f, -2.25f); break; } }
static bool same_str(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static void cmp(sx_DynMessage& a, sx_DynMessage& b) { for (int i = 0; i < top.field_count(); i++) { const FD* f = top.field(i); std::vector<sx_Val>&x = a.v_[i], &y = b.v_[i]; if (!f->is_repeated()) CHECK(a.has_[i] == b.has_[i], "presence of a field changed"); if (!f->is_repeated() && !a.has_[i]) continue; CHECK(x.size() == y.size(), "number of elements changed");
    for (size_t k = 0; k < x.size(); k++) if (f->cpp_type() == FD::CPPTYPE_MESSAGE) { int32 p = ref.GetInt32(*x[k].m, &ifd), q = ref.GetInt32(*y[k].m, &ifd); CHECK(p == q, "nested value changed"); } else { CHECK(x[k].i == y[k].i, "integer value changed"); CHECK(x[k].d == y[k].d, "floating value changed"); CHECK(same_str(x[k].s, y[k].s), "string value changed"); sx_note(2, x[k].i); note_str(3, y[k].s); } } }
static bool hostile(JV& v, JV::AllocatorType& al, int kind, int64_t i) { // a JSON value of any shape
  switch (kind) { case 0: return false; case 1: v.SetInt((int)i); return true; case 2: { JV t((unsigned)i); v = t; return true; } case 3: { JV t((int64_t)i); v = t; return true; } case 4: { JV t((uint64_t)i); v = t; return true; } case 5: { JV t(1.5); v = t; return true; } case 6: { JV t(true); v = t; return true; } case 7: { static char buf[8]; int n = (int)sx_concretize(sx_range(0, 4, "slen")); sx_bytes(buf, 8, "sbytes"); JV t(buf, n, al); v = t; return true; } case 8: { JV t(rapidjson::kObjectType); v = t; return true; } case 9: { JV t(rapidjson::kArrayType); v = t; return true; } case 10: { JV t(1e300); v = t; return true; } case 11: { JV t("SEVEN"); v = t; return true; } case 12: { static std::string b = b64_encode("xyz"); JV t(b.c_str(), b.size(), al); v = t; return true; } }
  return false; }
static bool int_ok(int k, int kind, int64_t i, int64_t* out) { // does the JSON number denote a value of field type k?
  bool neg; uint64_t mag; if (kind == 1) i = (int)i, neg = i < 0, mag = i; else if (kind == 2) i = (unsigned)i, neg = false, mag = i; else if (kind == 3) neg = i < 0, mag = i; else neg = false, mag = i; *out = i; (void)mag;
  switch (k) { case K_I32: return neg ? i >= -2147483648LL : mag <= 2147483647ULL; case K_U32: return !neg && mag <= 4294967295ULL; case K_I64: return neg || mag <= 9223372036854775807ULL; case K_U64: return !neg; } return false; }
void sx_main() {
  int mode = sx_arg(0), K = sx_arg(1); build();
  if (mode == 0) { // object round trip, every field kind, every integer value
    int which = (int)sx_concretize(sx_range(0, 2 * NK - 1, "field")), k = which % NK; sx_DynMessage a(&top, &ref), b(&top, &ref); int n = fd[which].is_repeated() ? (int)sx_concretize(sx_range(0, 2, "n")) : 1;
    for (int i = 0; i < n; i++) { std::string s = k == K_S || k == K_Y ? sym_string(0, K, "str") : ""; set(a, &fd[which], k, k == K_B || k == K_E ? (int64_t)sx_concretize(sx_range(0, 1, "bit")) : (int64_t)sx_u64("val"), s); }
    JV::AllocatorType al; JV* j = pb2jsonobject(&a, al); CHECK(j && j->IsObject(), "a message maps to an object"); std::string err; CHECK(jsonobject2pb(j, &b, err) == 0, "the JSON of a message must be accepted"); cmp(a, b); delete j; sx_reach("object"); }
  if (mode == 1) { // any JSON value against any field: accepted exactly when it denotes a value of the field, never a crash
    int which = (int)sx_concretize(sx_range(0, 2 * NK - 1, "field")), k = which % NK, kind = (int)sx_concretize(sx_range(0, 12, "json")); int64_t i = (int64_t)sx_u64("num"), want = 0; bool rep = fd[which].is_repeated(), wrap = rep && sx_concretize(sx_range(0, 1, "wrap"));
    JV::AllocatorType al; JV root(rapidjson::kObjectType), v; hostile(v, al, kind, i); if (wrap) { JV arr(rapidjson::kArrayType); arr.PushBack(v, al); root.AddMember(fd[which].name_.c_str(), arr, al); } else root.AddMember(fd[which].name_.c_str(), v, al);
    sx_DynMessage b(&top, &ref); std::string err; int rc = jsonobject2pb(&root, &b, err); bool num = kind >= 1 && kind <= 4; CHECK(rc == 0 || !err.empty(), "an error must be described");
    if (rep && !wrap) { CHECK(kind == 9 ? rc == 0 : rc < 0, "a repeated field takes an array only"); sx_reach("array"); return; }
    if (k <= K_U64) { bool ok = num && int_ok(k, kind, i, &want); CHECK((rc == 0) == ok, "a number outside the field's type must be refused, one inside accepted"); if (!rc) { int64 g = b.v_[which][0].i; CHECK(k == K_U32 ? (uint32)g == (uint32)want : g == want, "integer value"); sx_reach("number"); } else sx_reach("refused"); }
    else if (k == K_B) CHECK((rc == 0) == (kind == 6), "bool field"); else if (k == K_S) CHECK((rc == 0) == (kind == 7 || kind == 11 || kind == 12), "string field"); else if (k == K_M) CHECK((rc == 0) == (kind == 8), "message field");
    else if (k == K_D || k == K_F) CHECK((rc == 0) == (num || kind == 5 || kind == 10), "floating field");
    else if (k == K_E) { if (kind == 11) { CHECK(rc == 0 && b.v_[which][0].i == 7, "enum by name"); } else if (num) { bool ok = i == 0 || i == 7; if (kind <= 2) ok = (int)i == 0 || (int)i == 7; CHECK((rc == 0) == ok, "enum by number"); } else CHECK(kind == 7 || rc < 0, "enum field"); }
    else if (k == K_Y) { if (kind == 12) CHECK(rc == 0 && b.v_[which][0].s == "xyz", "bytes field"); else if (kind == 11) CHECK(rc < 0, "text that is not base64 must be refused"); else if (kind != 7) CHECK(rc < 0, "bytes field"); }
    sx_reach("hostile"); }
  if (mode == 2) { // text round trip: the text of a message is JSON that parses back to the same message
    int which = (int)sx_concretize(sx_range(0, 2 * NK - 1, "field")), k = which % NK; sx_DynMessage a(&top, &ref), b(&top, &ref); int n = fd[which].is_repeated() ? (int)sx_concretize(sx_range(0, 2, "n")) : 1;
    static const int64_t V[] = {0, 1, -1, 9, 10, 123456789, 2147483647LL, -2147483647LL - 1, 4294967295LL, 9223372036854775807LL, -9223372036854775807LL - 1};
    for (int i = 0; i < n; i++) { std::string s; if (k == K_S) { int len = (int)sx_concretize(sx_range(0, K, "slen")); s.resize(len); if (len) sx_bytes(&s[0], len, "sb"); for (int q = 0; q < len; q++) sx_assume((unsigned char)s[q] < 0x80); } if (k == K_Y) s = sym_string(0, 1, "yb"); set(a, &fd[which], k, k == K_B || k == K_E ? (int64_t)sx_concretize(sx_range(0, 1, "bit")) : V[n > 1 ? i * 3 + 1 : (k == K_D || k == K_F || k >= K_B) ? 0 : sx_concretize(sx_range(0, LEN(V) - 1, "vi"))], s); }
    std::string txt, err; pb2json(&a, txt); note_str(1, txt); CHECK(json2pb(txt, &b, err) == 0, "the JSON text of a message must be accepted"); cmp(a, b); sx_reach("text"); }
  if (mode == 3) { // any text: error or success, never a crash
    static const char* SEED[] = {"", "{\"i32\":", "{\"s\":\"", "[", "{\"ri32\":[1,", "{\"u64\":1844674407370955161", "{\"m\":{\"x\":", "{\"s\":\"\\uD83", "{\"s\":\"\\uD834\\u", "{\"d\":1.5e", "{\"d\":-", "{\"i64\":-922337203685477580", "{\"u32\":429496729", "{\"y\":\"", "{\"e\":\"SEVE"}; int sd = sx_arg(2); std::string t = SEED[sd]; int n = (int)sx_concretize(sx_range(0, K, "tn")); for (int i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "t"); t += c; }
    sx_DynMessage b(&top, &ref); std::string err; int rc = json2pb(t, &b, err); CHECK(rc == 0 || !err.empty(), "an error must be described"); sx_note(4, rc); sx_reach(rc ? "bad" : "ok"); }
}
