// A message stream (client side, or with SERVER_STREAM the server side) over the Asio stand-in, recording the messages it delivers and the fate of every send.
#pragma once
#include "h.h"
#include <deque>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <boost/asio.hpp>
#define private public
#define protected public
#include <fstream>
#include <sofa/pbrpc/rpc_message_stream.h>
#include <sofa/pbrpc/rpc_server_message_stream.h>
#include <sofa/pbrpc/rpc_message_header.h>
#undef private
#undef protected
extern "C" { int sx_cfg_race = 1; } // look for unordered container accesses
using namespace sofa::pbrpc;
struct Msg { ReadBufferPtr m; int meta; int64 data; };
#ifdef SERVER_STREAM
typedef RpcServerMessageStream<int> StreamBase; enum { DEFAULT_ROLE = StreamBase::ROLE_TYPE_SERVER };
#else
typedef RpcMessageStream<int> StreamBase; enum { DEFAULT_ROLE = StreamBase::ROLE_TYPE_CLIENT };
#endif
struct Cli : StreamBase {
  std::vector<Msg> got; std::vector<int> sent, failed, sending; std::vector<int> fail_code; int closed_n; bool refuse;
  Cli(IOService& s, const RpcEndpoint& e, RoleType r = (RoleType)DEFAULT_ROLE) : StreamBase(r, s, e), closed_n(0), refuse(false) {}
  bool on_sending(const ReadBufferPtr&, const int& c) { sending.push_back(c); return !refuse; } void on_sent(const ReadBufferPtr&, const int& c) { sent.push_back(c); } void on_send_failed(RpcErrorCode e, const ReadBufferPtr&, const int& c) { failed.push_back(c); fail_code.push_back(e); }
#ifdef SERVER_STREAM
  void on_received(const RpcRequestPtr&) {}
#endif
  void on_received(const ReadBufferPtr& m, int meta, int64 data) { Msg x = {m, meta, data}; got.push_back(x); } void on_closed() { closed_n++; }
};
typedef shared_ptr<Cli> CliP;
// an established connection: the client connects, the server was accepted
template <class P> static inline void establish(IOService& s, P& p) {
#ifdef SERVER_STREAM
  p->socket().remote_ = RpcEndpoint(boost::asio::ip::address(0x0a000001), 77); p->update_remote_endpoint(); p->set_socket_connected(); s.sx_run_all();
#else
  p->async_connect(); p->socket().sx_connect_done(boost::system::error_code()); s.sx_run_all();
#endif
}
static inline CliP new_cli(IOService& s, int factor) {
  CliP p(new Cli(s, RpcEndpoint(boost::asio::ip::address(0x0a000001), 77))); p->set_read_buffer_base_block_factor(factor); p->set_flow_controller(FlowControllerPtr(new FlowController(true, 0, true, 0))); p->set_max_pending_buffer_size(1 << 20);
  p->async_connect(); CHECK(p->is_connecting(), "connecting"); p->socket().sx_connect_done(boost::system::error_code()); s.sx_run_all(); return p;
}
template <class S> static inline int feed(IOService& s, S& p, const char* d, int n) { if (!p->socket().rd_) return 0; int k = n < (int)p->socket().rb_.n ? n : (int)p->socket().rb_.n; memcpy(p->socket().rb_.p, d, k); p->socket().sx_read_done(k, boost::system::error_code()); s.sx_run_all(); return k; }
template <class S> static inline bool feed_all(IOService& s, S& p, const char* d, int n) { while (n > 0) { int k = feed(s, p, d, n); if (!k) return false; d += k; n -= k; } return true; }
static inline std::string buf_bytes(const ReadBufferPtr& b) { std::string r; const void* d; int n; while (b->Next(&d, &n)) r.append((const char*)d, n); return r; }
static inline std::string header_bytes(int32 meta, int64 data, int64 msg) { RpcMessageHeader h; h.meta_size = meta; h.data_size = data; h.message_size = msg; return std::string((const char*)&h, sizeof h); }
static inline ReadBufferPtr make_buf(const std::string& s) { WriteBuffer w; w.set_base_block_factor(0); w.Append(s); ReadBufferPtr r(new ReadBuffer()); w.SwapOut(r.get()); return r; }
