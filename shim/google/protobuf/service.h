#pragma once
#include <google/protobuf/message.h>
namespace google { namespace protobuf {
class RpcController { public: RpcController() {} virtual ~RpcController() {} virtual void Reset() = 0; virtual bool Failed() const = 0; virtual std::string ErrorText() const = 0; virtual void StartCancel() = 0; virtual void SetFailed(const std::string&) = 0; virtual bool IsCanceled() const = 0; virtual void NotifyOnCancel(Closure*) = 0; };
class RpcChannel { public: RpcChannel() {} virtual ~RpcChannel() {} virtual void CallMethod(const MethodDescriptor*, RpcController*, const Message*, Message*, Closure*) = 0; };
class Service { public: Service() {} virtual ~Service() {} enum ChannelOwnership { STUB_OWNS_CHANNEL, STUB_DOESNT_OWN_CHANNEL }; virtual const ServiceDescriptor* GetDescriptor() = 0; virtual void CallMethod(const MethodDescriptor*, RpcController*, const Message*, Message*, Closure*) = 0; virtual const Message& GetRequestPrototype(const MethodDescriptor*) const = 0; virtual const Message& GetResponsePrototype(const MethodDescriptor*) const = 0; };
}}
