#pragma once
#include <vector>
namespace google { namespace protobuf {
// Dynamic message model with reflection, used to decide the JSON mapping (field values live in per-field slots).
struct sx_Val { int64 i; double d; std::string s; Message* m; sx_Val() : i(0), d(0), m(0) {} };
class sx_DynMessage;
class Reflection { public: virtual ~Reflection() {}
  typedef const FieldDescriptor* F;
  static inline sx_DynMessage& D(const Message& m); static inline sx_Val& V(const Message& m, F f); static inline sx_Val& R(const Message& m, F f, int k); static inline sx_Val& S(Message* m, F f); static inline sx_Val& A(Message* m, F f);
  static void chk(F f, FieldDescriptor::CppType c, bool rep) { assert(f->cpp_type() == c && "protobuf reflection: wrong type"); assert(f->is_repeated() == rep && "protobuf reflection: repeated/singular mismatch"); }
  inline bool HasField(const Message& m, F f) const; inline int FieldSize(const Message& m, F f) const;
  virtual F FindKnownExtensionByName(const std::string&) const { return 0; }
#define SX_ACC(N, T, C, mem) T Get##N(const Message& m, F f) const { chk(f, FieldDescriptor::C, false); return (T)V(m, f).mem; } T GetRepeated##N(const Message& m, F f, int k) const { chk(f, FieldDescriptor::C, true); return (T)R(m, f, k).mem; } void Set##N(Message* m, F f, T v) const { chk(f, FieldDescriptor::C, false); S(m, f).mem = v; } void Add##N(Message* m, F f, T v) const { chk(f, FieldDescriptor::C, true); A(m, f).mem = v; }
  SX_ACC(Int32, int32, CPPTYPE_INT32, i) SX_ACC(Int64, int64, CPPTYPE_INT64, i) SX_ACC(UInt32, uint32, CPPTYPE_UINT32, i) SX_ACC(UInt64, uint64, CPPTYPE_UINT64, i) SX_ACC(Bool, bool, CPPTYPE_BOOL, i) SX_ACC(Double, double, CPPTYPE_DOUBLE, d) SX_ACC(Float, float, CPPTYPE_FLOAT, d)
#undef SX_ACC
  std::string GetString(const Message& m, F f) const { chk(f, FieldDescriptor::CPPTYPE_STRING, false); return V(m, f).s; } std::string GetRepeatedString(const Message& m, F f, int k) const { chk(f, FieldDescriptor::CPPTYPE_STRING, true); return R(m, f, k).s; }
  void SetString(Message* m, F f, const std::string& v) const { chk(f, FieldDescriptor::CPPTYPE_STRING, false); S(m, f).s = v; } void AddString(Message* m, F f, const std::string& v) const { chk(f, FieldDescriptor::CPPTYPE_STRING, true); A(m, f).s = v; }
  const EnumValueDescriptor* GetEnum(const Message& m, F f) const { chk(f, FieldDescriptor::CPPTYPE_ENUM, false); return f->enum_type()->FindValueByNumber((int)V(m, f).i); } const EnumValueDescriptor* GetRepeatedEnum(const Message& m, F f, int k) const { chk(f, FieldDescriptor::CPPTYPE_ENUM, true); return f->enum_type()->FindValueByNumber((int)R(m, f, k).i); }
  void SetEnum(Message* m, F f, const EnumValueDescriptor* v) const { chk(f, FieldDescriptor::CPPTYPE_ENUM, false); S(m, f).i = v->number(); } void AddEnum(Message* m, F f, const EnumValueDescriptor* v) const { chk(f, FieldDescriptor::CPPTYPE_ENUM, true); A(m, f).i = v->number(); }
  inline const Message& GetMessage(const Message& m, F f) const; const Message& GetRepeatedMessage(const Message& m, F f, int k) const { chk(f, FieldDescriptor::CPPTYPE_MESSAGE, true); return *R(m, f, k).m; }
  inline Message* MutableMessage(Message* m, F f) const; inline Message* AddMessage(Message* m, F f) const;
};
class sx_DynMessage : public Message { public: const Descriptor* d_; const Reflection* r_; std::vector<bool> has_; mutable std::vector<std::vector<sx_Val> > v_;
  sx_DynMessage(const Descriptor* d, const Reflection* r) : d_(d), r_(r), has_(d->field_count()), v_(d->field_count()) {}
  Message* New() const { return new sx_DynMessage(d_, r_); } const Descriptor* GetDescriptor() const { return d_; } const Reflection* GetReflection() const { return r_; }
  ~sx_DynMessage() { for (size_t i = 0; i < v_.size(); i++) for (size_t k = 0; k < v_[i].size(); k++) delete v_[i][k].m; } };
inline sx_DynMessage& Reflection::D(const Message& m) { return (sx_DynMessage&)m; }
inline sx_Val& Reflection::V(const Message& m, F f) { std::vector<sx_Val>& v = D(m).v_[f->index()]; if (v.empty()) v.push_back(sx_Val()); return v[0]; }
inline sx_Val& Reflection::R(const Message& m, F f, int k) { return D(m).v_[f->index()][k]; }
inline sx_Val& Reflection::S(Message* m, F f) { D(*m).has_[f->index()] = true; return V(*m, f); }
inline sx_Val& Reflection::A(Message* m, F f) { std::vector<sx_Val>& v = D(*m).v_[f->index()]; v.push_back(sx_Val()); return v.back(); }
inline bool Reflection::HasField(const Message& m, F f) const { assert(!f->is_repeated()); return D(m).has_[f->index()]; }
inline int Reflection::FieldSize(const Message& m, F f) const { assert(f->is_repeated()); return (int)D(m).v_[f->index()].size(); }
inline const Message& Reflection::GetMessage(const Message& m, F f) const { chk(f, FieldDescriptor::CPPTYPE_MESSAGE, false); sx_Val& v = V(m, f); if (!v.m) v.m = new sx_DynMessage(f->message_type(), this); return *v.m; }
inline Message* Reflection::MutableMessage(Message* m, F f) const { chk(f, FieldDescriptor::CPPTYPE_MESSAGE, false); sx_Val& v = S(m, f); if (!v.m) v.m = new sx_DynMessage(f->message_type(), this); return v.m; }
inline Message* Reflection::AddMessage(Message* m, F f) const { chk(f, FieldDescriptor::CPPTYPE_MESSAGE, true); sx_Val& v = A(m, f); v.m = new sx_DynMessage(f->message_type(), this); return v.m; }
}}
