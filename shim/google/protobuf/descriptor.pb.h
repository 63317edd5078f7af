#pragma once
#include <google/protobuf/message.h>
namespace google { namespace protobuf {
class FileDescriptorProto : public Message { public: std::string name_; Message* New() const { return new FileDescriptorProto; } void sx_set_from(const std::string& n) { name_ = n; } const std::string& name() const { return name_; } bool sx_write(std::string* o) const { *o += name_; return true; } };
}}
