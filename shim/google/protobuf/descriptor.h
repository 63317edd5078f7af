#pragma once
#include <google/protobuf/stubs/common.h>
#include <vector>
namespace google { namespace protobuf {
class Message; class Descriptor; class EnumDescriptor; class FieldDescriptor; class ServiceDescriptor; class FileDescriptor; class DescriptorPool;
// options with the two/three extensions sofa-pbrpc declares; an extension is identified by its slot number
template <class T> struct sx_Ext { int slot; T def; };
struct sx_Options { bool has_[4]; int64 v_[4]; sx_Options() { for (int i = 0; i < 4; i++) has_[i] = false, v_[i] = 0; }
  template <class T> bool HasExtension(const sx_Ext<T>& e) const { return has_[e.slot]; }
  template <class T> T GetExtension(const sx_Ext<T>& e) const { return has_[e.slot] ? (T)v_[e.slot] : e.def; }
  template <class T> void SetExtension(const sx_Ext<T>& e, T v) { has_[e.slot] = true; v_[e.slot] = (int64)v; } };
typedef sx_Options MethodOptions; typedef sx_Options ServiceOptions;
class FileDescriptor { public: std::string name_; std::vector<const FileDescriptor*> deps_; const std::string& name() const { return name_; } int dependency_count() const { return (int)deps_.size(); } const FileDescriptor* dependency(int i) const { return deps_[i]; } template <class P> void CopyTo(P* p) const { p->sx_set_from(name_); } const DescriptorPool* pool() const { return 0; } };
class MethodDescriptor { public: std::string name_, full_; int index_; const ServiceDescriptor* svc_; MethodOptions opt_; const Descriptor *in_, *out_; MethodDescriptor() : index_(0), svc_(0), in_(0), out_(0) {}
  const std::string& name() const { return name_; } const std::string& full_name() const { return full_; } int index() const { return index_; } const ServiceDescriptor* service() const { return svc_; } const MethodOptions& options() const { return opt_; } const Descriptor* input_type() const { return in_; } const Descriptor* output_type() const { return out_; } };
class ServiceDescriptor { public: std::string name_, full_; std::vector<MethodDescriptor*> m_; ServiceOptions opt_; const FileDescriptor* file_; ServiceDescriptor() : file_(0) {}
  const std::string& name() const { return name_; } const std::string& full_name() const { return full_; } int method_count() const { return (int)m_.size(); } const MethodDescriptor* method(int i) const { return m_[i]; } const ServiceOptions& options() const { return opt_; } const FileDescriptor* file() const { return file_; } int index() const { return 0; }
  const MethodDescriptor* FindMethodByName(const std::string& n) const { for (size_t i = 0; i < m_.size(); i++) if (m_[i]->name_ == n) return m_[i]; return 0; } };
class EnumValueDescriptor { public: std::string name_; int num_; const std::string& name() const { return name_; } int number() const { return num_; } };
class EnumDescriptor { public: std::string name_; std::vector<EnumValueDescriptor*> v_; const std::string& name() const { return name_; } const EnumValueDescriptor* FindValueByNumber(int n) const { for (size_t i = 0; i < v_.size(); i++) if (v_[i]->num_ == n) return v_[i]; return 0; } const EnumValueDescriptor* FindValueByName(const std::string& n) const { for (size_t i = 0; i < v_.size(); i++) if (v_[i]->name_ == n) return v_[i]; return 0; } int value_count() const { return (int)v_.size(); } const EnumValueDescriptor* value(int i) const { return v_[i]; } };
class FieldDescriptor { public:
  enum Type { TYPE_DOUBLE = 1, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32, TYPE_BOOL, TYPE_STRING, TYPE_GROUP, TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM };
  enum CppType { CPPTYPE_INT32 = 1, CPPTYPE_INT64, CPPTYPE_UINT32, CPPTYPE_UINT64, CPPTYPE_DOUBLE, CPPTYPE_FLOAT, CPPTYPE_BOOL, CPPTYPE_ENUM, CPPTYPE_STRING, CPPTYPE_MESSAGE };
  enum Label { LABEL_OPTIONAL = 1, LABEL_REQUIRED, LABEL_REPEATED };
  std::string name_; Type t_; CppType c_; Label l_; int idx_; const EnumDescriptor* e_; const Descriptor* m_; bool ext_; FieldDescriptor() : t_(TYPE_INT32), c_(CPPTYPE_INT32), l_(LABEL_OPTIONAL), idx_(0), e_(0), m_(0), ext_(false) {}
  const std::string& name() const { return name_; } Type type() const { return t_; } CppType cpp_type() const { return c_; } Label label() const { return l_; } bool is_repeated() const { return l_ == LABEL_REPEATED; } bool is_optional() const { return l_ == LABEL_OPTIONAL; } bool is_required() const { return l_ == LABEL_REQUIRED; } const EnumDescriptor* enum_type() const { return e_; } const Descriptor* message_type() const { return m_; } int index() const { return idx_; } bool is_extension() const { return ext_; } };
class Descriptor { public: std::string name_, full_; std::vector<FieldDescriptor*> f_;
  const std::string& name() const { return name_; } const std::string& full_name() const { return full_; } int field_count() const { return (int)f_.size(); } const FieldDescriptor* field(int i) const { return f_[i]; } const FieldDescriptor* FindFieldByName(const std::string& n) const { for (size_t i = 0; i < f_.size(); i++) if (f_[i]->name_ == n) return f_[i]; return 0; } };
}}
