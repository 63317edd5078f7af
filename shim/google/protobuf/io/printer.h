#pragma once
#include <google/protobuf/io/zero_copy_stream.h>
namespace google { namespace protobuf { namespace io {
// Model of io::Printer: text is substituted between delimiters; everything else is emitted verbatim.
class Printer { public:
  Printer(ZeroCopyOutputStream* o, char d) : o_(o), d_(d), failed_(false), p_(0), n_(0) {}
  ~Printer() { if (n_ > 0) o_->BackUp(n_); }
  bool failed() const { return failed_; }
  void PrintRaw(const std::string& s) { WriteRaw(s.data(), (int)s.size()); }
  void PrintRaw(const char* s) { WriteRaw(s, (int)strlen(s)); }
  void Print(const char* t) { sub(t, 0, 0, 0); }
  void Print(const char* t, const char* v, const std::string& x) { const char* vs[] = {v}; const std::string* xs[] = {&x}; sub(t, vs, xs, 1); }
  void Print(const char* t, const char* v1, const std::string& x1, const char* v2, const std::string& x2) { const char* vs[] = {v1, v2}; const std::string* xs[] = {&x1, &x2}; sub(t, vs, xs, 2); }
  void Print(const char* t, const char* v1, const std::string& x1, const char* v2, const std::string& x2, const char* v3, const std::string& x3) { const char* vs[] = {v1, v2, v3}; const std::string* xs[] = {&x1, &x2, &x3}; sub(t, vs, xs, 3); }
  void WriteRaw(const char* d, int size) { if (failed_) return; while (size > 0) { if (!n_) { void* q; int k; do { if (!o_->Next(&q, &k)) { failed_ = true; n_ = 0; return; } } while (!k); p_ = (char*)q; n_ = k; } int k = size < n_ ? size : n_; memcpy(p_, d, k); p_ += k; n_ -= k; d += k; size -= k; } }
private:
  void sub(const char* t, const char** vs, const std::string** xs, int n) { const char* b = t; for (const char* c = t; *c; c++) if (*c == d_) { WriteRaw(b, (int)(c - b)); const char* e = c + 1; while (*e && *e != d_) e++; assert(*e == d_ && "Printer: unclosed variable name"); size_t l = e - c - 1; if (l == 0) WriteRaw(c, 1); else { int k = 0; for (; k < n; k++) if (strlen(vs[k]) == l && !memcmp(vs[k], c + 1, l)) break; assert(k < n && "Printer: undefined variable"); WriteRaw(xs[k]->data(), (int)xs[k]->size()); } c = e; b = e + 1; } WriteRaw(b, (int)strlen(b)); }
  ZeroCopyOutputStream* o_; char d_; bool failed_; char* p_; int n_; };
}}}
