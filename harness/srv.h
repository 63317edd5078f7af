// A server-side message stream over the Asio stand-in, recording the requests it delivers.
#pragma once
#include "h.h"
#include <deque>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <boost/asio.hpp>
#define private public
#define protected public
#include <sofa/pbrpc/rpc_server_message_stream.h>
#include <sofa/pbrpc/binary_rpc_request.h>
#include <sofa/pbrpc/http_rpc_request.h>
#include <sofa/pbrpc/rpc_message_header.h>
#undef private
#undef protected
using namespace sofa::pbrpc;
struct Srv : RpcServerMessageStream<int> {
  std::vector<RpcRequestPtr> got; int closed_n; std::vector<std::string> log;
  Srv(IOService& s, const RpcEndpoint& e) : RpcServerMessageStream<int>(ROLE_TYPE_SERVER, s, e), closed_n(0) {}
  bool on_sending(const ReadBufferPtr&, const int&) { return true; } void on_sent(const ReadBufferPtr&, const int&) {} void on_send_failed(RpcErrorCode, const ReadBufferPtr&, const int&) {}
  void on_received(const RpcRequestPtr& r) { got.push_back(r); } void on_closed() { closed_n++; }
};
typedef shared_ptr<Srv> SrvP;
static inline SrvP new_srv(IOService& s, int factor) {
  SrvP p(new Srv(s, RpcEndpoint())); p->socket().remote_ = RpcEndpoint(boost::asio::ip::address(0x0a000001), 77); p->set_read_buffer_base_block_factor(factor); p->set_flow_controller(FlowControllerPtr(new FlowController(true, 0, true, 0))); p->set_max_pending_buffer_size(1 << 20); p->update_remote_endpoint(); p->set_socket_connected(); return p;
}
// feed bytes through the pending read; at most `n` of them per completion; returns how many were taken (0: no read pending)
template <class S> static inline int feed(IOService& s, S& p, const char* d, int n) { if (!p->socket().rd_) return 0; int k = n < (int)p->socket().rb_.n ? n : (int)p->socket().rb_.n; memcpy(p->socket().rb_.p, d, k); p->socket().sx_read_done(k, boost::system::error_code()); s.sx_run_all(); return k; }
template <class S> static inline bool feed_all(IOService& s, S& p, const char* d, int n) { while (n > 0) { int k = feed(s, p, d, n); if (!k) return false; d += k; n -= k; } return true; }
static inline std::string buf_bytes(const ReadBufferPtr& b) { std::string r; const void* d; int n; while (b->Next(&d, &n)) r.append((const char*)d, n); return r; }
static inline std::string header_bytes(int32 meta, int64 data, int64 msg) { RpcMessageHeader h; h.meta_size = meta; h.data_size = data; h.message_size = msg; return std::string((const char*)&h, sizeof h); }
