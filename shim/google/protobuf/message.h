#pragma once
#include <google/protobuf/descriptor.h>
#include <google/protobuf/io/zero_copy_stream.h>
namespace google { namespace protobuf {
class Reflection;
// Model of Message: a concrete subclass supplies write()/read() of its bytes; (de)serialisation drives the ZeroCopy stream
// exactly as the protobuf contract allows (Next / BackUp of the unused rest).
class Message { public: Message() {} virtual ~Message() {}
  virtual Message* New() const = 0;
  virtual void Clear() {}
  virtual bool IsInitialized() const { return true; }
  virtual std::string InitializationErrorString() const { return "missing"; }
  virtual bool sx_write(std::string* out) const { return true; }
  virtual bool sx_read(const std::string& in) { return true; }
  virtual const Descriptor* GetDescriptor() const { return 0; }
  virtual const Reflection* GetReflection() const { return 0; }
  virtual int ByteSize() const { std::string s; sx_write(&s); return (int)s.size(); }
  bool SerializeToString(std::string* s) const { s->clear(); return IsInitialized() && sx_write(s); }
  bool AppendToString(std::string* s) const { return IsInitialized() && sx_write(s); }
  std::string SerializeAsString() const { std::string s; if (!SerializeToString(&s)) s.clear(); return s; }
  bool SerializeToZeroCopyStream(io::ZeroCopyOutputStream* o) const { std::string s; if (!IsInitialized() || !sx_write(&s)) return false; size_t i = 0; while (i < s.size()) { void* d; int n; if (!o->Next(&d, &n)) return false; int k = (int)(s.size() - i) < n ? (int)(s.size() - i) : n; memcpy(d, s.data() + i, k); i += k; if (k < n) o->BackUp(n - k); } return true; }
  bool ParseFromString(const std::string& s) { Clear(); return sx_read(s) && IsInitialized(); }
  bool ParseFromArray(const void* p, int n) { return ParseFromString(std::string((const char*)p, n)); }
  bool ParseFromZeroCopyStream(io::ZeroCopyInputStream* i) { std::string s; const void* d; int n; while (i->Next(&d, &n)) s.append((const char*)d, n); return ParseFromString(s); }
  bool ParseFromBoundedZeroCopyStream(io::ZeroCopyInputStream* i, int size) { if (size < 0) { ParseFromZeroCopyStream(i); return false; } // as libprotobuf: no limit is set, the stream is drained, the parse is rejected
    std::string s; const void* d; int n; while ((int)s.size() < size) { if (!i->Next(&d, &n)) return false; int k = size - (int)s.size() < n ? size - (int)s.size() : n; s.append((const char*)d, k); if (k < n) i->BackUp(n - k); } return ParseFromString(s); }
  virtual void CopyFrom(const Message& m) { std::string s; m.sx_write(&s); Clear(); sx_read(s); }
  virtual void MergeFrom(const Message& m) { CopyFrom(m); }
  std::string DebugString() const { return ""; } std::string ShortDebugString() const { return ""; } std::string Utf8DebugString() const { return ""; }
  std::string GetTypeName() const { return ""; }
};
}}
#include <google/protobuf/sx_reflection.h>
