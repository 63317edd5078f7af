// A whole client (public API: RpcClient, RpcChannel, RpcController) over the Asio stand-in, and a scripted server behind the socket.
#pragma once
#include "h.h"
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <boost/asio.hpp>
#include <google/protobuf/service.h>
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <sofa/pbrpc/rpc_message_header.h>
extern "C" { int sx_cfg_race = 1; } // look for unordered container accesses
using namespace sofa::pbrpc; typedef boost::asio::ip::tcp::socket Sock; typedef boost::asio::deadline_timer DT; typedef boost::asio::io_service IOS;
struct Payload : google::protobuf::Message { std::string b; bool init_ok; Payload() : init_ok(true) {} Payload* New() const { return new Payload(); } void Clear() { b.clear(); } bool IsInitialized() const { return init_ok; } bool sx_write(std::string* o) const { *o = b; return true; } bool sx_read(const std::string& i) { b = i; return b.empty() || b[0] != '!'; } };
static google::protobuf::MethodDescriptor g_method; static google::protobuf::ServiceDescriptor g_service;
static void descriptors() { g_service.name_ = "Svc"; g_service.full_ = "t.Svc"; g_method.name_ = "Do"; g_method.full_ = "t.Svc.Do"; g_method.svc_ = &g_service; g_service.m_.push_back(&g_method); }
struct Call : google::protobuf::Closure { RpcController cntl; Payload req, res; int done_n; int64_t start, end; bool sync, returned; Call() : done_n(0), start(0), end(0), sync(false), returned(false) {}
  void Run() { done_n++; end = sx_clock_us; CHECK(done_n == 1, "a call completed twice"); } };
// what a request looks like on the wire
struct Wire { RpcMessageHeader h; RpcMeta meta; std::string data; };
static bool take_request(std::string& wire, Wire* w) { if (wire.size() < sizeof(RpcMessageHeader)) return false; memcpy(&w->h, wire.data(), sizeof w->h); CHECK(w->h.magic_str_value == RpcMessageHeader().magic_str_value || memcmp(wire.data(), "SOFA", 4) == 0, "request magic"); CHECK(w->h.message_size == w->h.meta_size + w->h.data_size, "request sizes inconsistent");
  size_t n = sizeof w->h + w->h.message_size; if (wire.size() < n) return false; CHECK(w->meta.ParseFromString(wire.substr(sizeof w->h, w->h.meta_size)), "request meta unreadable"); w->data = wire.substr(sizeof w->h + w->h.meta_size, w->h.data_size); wire.erase(0, n); return true; }
static std::string frame(const RpcMeta& m, const std::string& data) { std::string ms; m.SerializeToString(&ms); RpcMessageHeader h; h.meta_size = (int)ms.size(); h.data_size = data.size(); h.message_size = ms.size() + data.size(); return std::string((const char*)&h, sizeof h) + ms + data; }
static boost::system::error_code errc(int e) { return boost::system::error_code(e, boost::system::system_category()); } static boost::system::error_code ok() { return boost::system::error_code(); }
static bool feed(Sock* s, const std::string& d) { size_t i = 0; while (i < d.size()) { IOS::sx_pump(); if (!s->rd_) return false; size_t k = d.size() - i < s->rb_.n ? d.size() - i : s->rb_.n; memcpy(s->rb_.p, d.data() + i, k); i += k; s->sx_read_done(k, ok()); } IOS::sx_pump(); return true; }
// harness threads (the library's pool threads stay parked until the client stops, so joining everything would block)
struct HThread { void (*fn)(void*); void* arg; int done; }; static HThread g_ht[4]; static int g_nht;
static void ht_run(void* p) { HThread* t = (HThread*)p; t->fn(t->arg); sx_hb_rel(t); t->done = 1; }
static void spawn(void (*fn)(void*), void* a) { HThread* t = &g_ht[g_nht++]; t->fn = fn; t->arg = a; t->done = 0; sx_thread_create(ht_run, t); }
static void join_spawned() { for (int i = 0; i < g_nht; i++) { while (!g_ht[i].done) sx_block_on(&g_ht[i].done, 1); sx_hb_acq(&g_ht[i]); } }
static bool all_joined() { for (int i = 0; i < g_nht; i++) if (!g_ht[i].done) return false; return true; }
