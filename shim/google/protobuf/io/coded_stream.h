#pragma once
#include <google/protobuf/io/zero_copy_stream.h>
#include <stdlib.h>
namespace google { namespace protobuf { namespace io {
// Contract-level model of CodedInputStream: reads through the ZeroCopyInputStream, backs up the unread rest on destruction.
class CodedInputStream { public:
  explicit CodedInputStream(ZeroCopyInputStream* s) : s_(s), p_(0), n_(0) {}
  ~CodedInputStream() { if (n_ > 0) s_->BackUp(n_); }
  bool ReadRaw(void* b, int size) { char* d = (char*)b; while (size > 0) { if (!n_ && !refill()) return false; int k = size < n_ ? size : n_; memcpy(d, p_, k); d += k; p_ += k; n_ -= k; size -= k; } return true; }
  bool Skip(int c) { if (c < 0) return false; if (c <= n_) { p_ += c; n_ -= c; return true; } c -= n_; n_ = 0; p_ = 0; return s_->Skip(c); }
  bool ReadVarint64(uint64* v) { uint64 r = 0; for (int i = 0; i < 10; i++) { unsigned char c; if (!ReadRaw(&c, 1)) return false; if (i < 9 || true) r |= (uint64)(c & 0x7f) << (i * 7 < 63 ? i * 7 : 63); if (!(c & 0x80)) { *v = r; return true; } } return false; }
  bool ReadVarint32(uint32* v) { uint64 r; if (!ReadVarint64(&r)) return false; *v = (uint32)r; return true; }
  void SetTotalBytesLimit(int, int = 0) {} int BytesUntilLimit() const { return -1; }
  bool ReadLittleEndian32(uint32* v) { return ReadRaw(v, 4); }
  bool ReadLittleEndian64(uint64* v) { return ReadRaw(v, 8); }
  bool GetDirectBufferPointer(const void** d, int* size) { if (!n_ && !refill()) return false; *d = p_; *size = n_; return true; }
  bool ReadString(std::string* s, int size) { if (size < 0) return false; s->resize(size); return size == 0 || ReadRaw(&(*s)[0], size); }
private:
  bool refill() { const void* d; int k; do { if (!s_->Next(&d, &k)) { n_ = 0; return false; } } while (k == 0); p_ = (const char*)d; n_ = k; return true; }
  ZeroCopyInputStream* s_; const char* p_; int n_; };
class CodedOutputStream { public:
  explicit CodedOutputStream(ZeroCopyOutputStream* s) : s_(s), p_(0), n_(0), err_(false) { refill(); err_ = false; }
  ~CodedOutputStream() { Trim(); }
  bool HadError() { return err_; }
  void Trim() { if (n_ > 0) s_->BackUp(n_); n_ = 0; p_ = 0; }
  void WriteRaw(const void* b, int size) { const char* d = (const char*)b; while (size > 0) { if (!n_ && !refill()) return; int k = size < n_ ? size : n_; memcpy(p_, d, k); d += k; p_ += k; n_ -= k; size -= k; } }
  void WriteVarint64(uint64 v) { unsigned char b[10]; int k = 0; while (v >= 0x80) { b[k++] = (unsigned char)(v | 0x80); v >>= 7; } b[k++] = (unsigned char)v; WriteRaw(b, k); }
  void WriteVarint32(uint32 v) { WriteVarint64(v); }
  void WriteLittleEndian32(uint32 v) { WriteRaw(&v, 4); }
  void WriteLittleEndian64(uint64 v) { WriteRaw(&v, 8); }
  void WriteString(const std::string& s) { WriteRaw(s.data(), (int)s.size()); }
  bool Skip(int c) { while (c > n_) { c -= n_; n_ = 0; if (!refill()) return false; } p_ += c; n_ -= c; return true; }
  bool GetDirectBufferPointer(void** d, int* size) { if (!n_ && !refill()) return false; *d = p_; *size = n_; return true; }
private:
  bool refill() { void* d; int k; do { if (!s_->Next(&d, &k)) { err_ = true; n_ = 0; return false; } } while (k == 0); p_ = (char*)d; n_ = k; return true; }
  ZeroCopyOutputStream* s_; char* p_; int n_; bool err_; };
}}}
