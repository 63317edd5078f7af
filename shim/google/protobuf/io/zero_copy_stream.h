#pragma once
#include <google/protobuf/stubs/common.h>
namespace google { namespace protobuf { namespace io {
class ZeroCopyInputStream { public: ZeroCopyInputStream() {} virtual ~ZeroCopyInputStream() {} virtual bool Next(const void** data, int* size) = 0; virtual void BackUp(int count) = 0; virtual bool Skip(int count) = 0; virtual int64 ByteCount() const = 0; };
class ZeroCopyOutputStream { public: ZeroCopyOutputStream() {} virtual ~ZeroCopyOutputStream() {} virtual bool Next(void** data, int* size) = 0; virtual void BackUp(int count) = 0; virtual int64 ByteCount() const = 0; virtual bool WriteAliasedRaw(const void*, int) { return false; } virtual bool AllowsAliasing() const { return false; } };
}}}
