// A whole server (public API: RpcServer and a service) over the Asio stand-in, and scripted clients behind its sockets.
#pragma once
#include "h.h"
#include <deque>
#include <map>
#include <set>
#include <list>
#include <functional>
#include <boost/asio.hpp>
#include <google/protobuf/service.h>
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <sofa/pbrpc/rpc_message_header.h>
#include <sofa/pbrpc/profiling.h>
namespace sofa { namespace pbrpc { // the profiler page (gperftools) is not part of the encoded code
static char g_prof[64]; Profiling* Profiling::Instance() { return (Profiling*)g_prof; } Profiling::OperationType Profiling::FindOperationType(const std::string&) { return PAGE; } std::string Profiling::ProfilingPage(ProfilingType, OperationType, std::string&, std::string&) { return "profile"; } } }
using namespace sofa::pbrpc; typedef boost::asio::ip::tcp::socket Sock; typedef boost::asio::ip::tcp::acceptor Acc; typedef boost::asio::deadline_timer DT; typedef boost::asio::io_service IOS;
#ifdef HTTP_PAYLOAD // a message with one string field "b" (JSON through reflection), or its raw bytes (protobuf body)
static google::protobuf::Descriptor g_pd; static google::protobuf::FieldDescriptor g_pf; static google::protobuf::Reflection g_pr;
static const google::protobuf::Descriptor* payload_desc() { if (!g_pd.field_count()) { g_pf.name_ = "b"; g_pf.t_ = google::protobuf::FieldDescriptor::TYPE_STRING; g_pf.c_ = google::protobuf::FieldDescriptor::CPPTYPE_STRING; g_pf.l_ = google::protobuf::FieldDescriptor::LABEL_OPTIONAL; g_pf.idx_ = 0; g_pd.f_.push_back(&g_pf); } return &g_pd; }
struct Payload : google::protobuf::sx_DynMessage { std::string& b; static int live; Payload() : google::protobuf::sx_DynMessage(payload_desc(), &g_pr), b((v_[0].push_back(google::protobuf::sx_Val()), v_[0][0].s)) { has_[0] = true; live++; } ~Payload() { live--; } Payload* New() const { return new Payload(); } void Clear() { b.clear(); } bool sx_write(std::string* o) const { *o = b; return true; } bool sx_read(const std::string& i) { b = i; return b.empty() || b[0] != '!'; } }; int Payload::live = 0;
#else
struct Payload : google::protobuf::Message { std::string b; static int live; Payload() { live++; } ~Payload() { live--; } Payload* New() const { return new Payload(); } void Clear() { b.clear(); } bool sx_write(std::string* o) const { if (!b.empty() && b[0] == '#') return false; *o = b; return true; } bool sx_read(const std::string& i) { b = i; return b.empty() || b[0] != '!'; } }; int Payload::live = 0;
#endif
// the service: every call is recorded; the harness completes it later, in any order, with a body or a failure
struct Job { const google::protobuf::MethodDescriptor* m; google::protobuf::RpcController* c; const Payload* req; Payload* res; google::protobuf::Closure* done; std::string body; int64_t at; bool open; };
static std::deque<Job> jobs; static bool inline_reply;
static void finish(Job& j, int kind) { sx_hb_acq(&jobs); CHECK(j.open, "harness: job twice"); j.open = false; CHECK(j.req->b == j.body, "request message changed while the service was working"); if (kind == 1) j.c->SetFailed("why" + j.body); else j.res->b = (kind == 2 ? "#" : "R") + j.body; google::protobuf::Closure* d = j.done; d->Run(); }
extern "C" { int sx_cfg_race = 1; }
struct Svc : google::protobuf::Service { google::protobuf::ServiceDescriptor d; google::protobuf::MethodDescriptor m[2]; Payload rq, rs; static int deleted;
  Svc(const std::string& name) { d.name_ = name; d.full_ = "t." + name; static const char* N[] = {"Do", "No"}; for (int i = 0; i < 2; i++) { m[i].name_ = N[i]; m[i].full_ = d.full_ + "." + N[i]; m[i].index_ = i; m[i].svc_ = &d; d.m_.push_back(&m[i]); } } ~Svc() { deleted++; }
  const google::protobuf::ServiceDescriptor* GetDescriptor() { return &d; } const google::protobuf::Message& GetRequestPrototype(const google::protobuf::MethodDescriptor*) const { return rq; } const google::protobuf::Message& GetResponsePrototype(const google::protobuf::MethodDescriptor*) const { return rs; }
  void CallMethod(const google::protobuf::MethodDescriptor* md, google::protobuf::RpcController* c, const google::protobuf::Message* rq, google::protobuf::Message* rs, google::protobuf::Closure* done) { Job j = {md, c, static_cast<const Payload*>(rq), static_cast<Payload*>(rs), done, static_cast<const Payload*>(rq)->b, sx_clock_us, true}; CHECK(md->service() == &d, "method of another service"); CHECK(!c->Failed(), "a new call is already failed"); jobs.push_back(j); sx_hb_rel(&jobs); if (inline_reply) finish(jobs.back(), 0); } }; int Svc::deleted = 0;
// runs the handlers that are ready: here when the pool threads are parked, in the pool threads otherwise
static void handlers() { if (boost::asio::sx_parked()) IOS::sx_pump(); else for (int i = 0; i < 6; i++) sx_yield(); }
static boost::system::error_code errc(int e) { return boost::system::error_code(e, boost::system::system_category()); } static boost::system::error_code ok() { return boost::system::error_code(); } static boost::system::error_code eof() { return boost::asio::error::make(boost::asio::error::eof); }
static std::string frame(const RpcMeta& m, const std::string& data) { std::string ms; m.SerializeToString(&ms); RpcMessageHeader h; h.meta_size = (int)ms.size(); h.data_size = data.size(); h.message_size = ms.size() + data.size(); return std::string((const char*)&h, sizeof h) + ms + data; }
static std::string request(uint64 id, const std::string& method, const std::string& data, int64 server_timeout = -1) { RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(id); m.set_method(method); if (server_timeout >= 0) m.set_server_timeout(server_timeout); return frame(m, data); }
// one client connection
struct Peer { Sock* s; std::string wire; bool lost; Peer() : s(0), lost(false) {} };
struct Wire { RpcMessageHeader h; RpcMeta meta; std::string data; };
static bool take_response(std::string& wire, Wire* w) { if (wire.size() < sizeof(RpcMessageHeader)) return false; memcpy(&w->h, wire.data(), sizeof w->h); CHECK(memcmp(wire.data(), "SOFA", 4) == 0, "response magic"); CHECK(w->h.meta_size >= 0 && w->h.data_size >= 0 && w->h.message_size == w->h.meta_size + w->h.data_size, "response sizes inconsistent"); size_t n = sizeof w->h + w->h.message_size; if (wire.size() < n) return false; CHECK(w->meta.ParseFromString(wire.substr(sizeof w->h, w->h.meta_size)), "response meta unreadable"); CHECK(w->meta.type() == RpcMeta::RESPONSE, "the server sent something that is not a response"); w->data = wire.substr(sizeof w->h + w->h.meta_size, w->h.data_size); wire.erase(0, n); return true; }
static bool alive(Sock* s) { std::vector<Sock*>& v = Sock::all(); for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return s->open_ && !s->shut_; return false; }
static bool feed(Peer& p, const std::string& d) { size_t i = 0; while (i < d.size()) { handlers(); if (!alive(p.s) || !p.s->rd_) return false; size_t k = d.size() - i < p.s->rb_.n ? d.size() - i : p.s->rb_.n; memcpy(p.s->rb_.p, d.data() + i, k); i += k; p.s->sx_read_done(k, ok()); } handlers(); return true; }
// lets the server write at most n bytes (0: everything it wants)
static bool drain(Peer& p, size_t n) { bool any = false; for (int i = 0; i < 60 && alive(p.s) && p.s->wr_; i++) { size_t k = n && n < p.s->wb_.n ? n : p.s->wb_.n; p.wire.append((const char*)p.s->wb_.p, k); p.s->sx_write_done(k, ok()); handlers(); any = true; if (n) break; } return any; }
static Acc* acceptor() { return Acc::all().empty() ? 0 : Acc::all().back(); }
static bool connect(Peer& p) { Acc* a = acceptor(); if (!a || !a->acc_) return false; p.s = a->sk_; p.s->remote_ = boost::asio::ip::tcp::endpoint(boost::asio::ip::address(0x0a000002), (unsigned short)(100 + a->naccept_)); a->sx_accept_done(ok()); handlers(); return true; }
static void advance(int64_t us) { sx_clock_us += us; DT::sx_fire_due(); handlers(); }
// clock steps of the maintenance period (100 ms)
static void ticks(int n) { for (int i = 0; i < n; i++) advance(100000); }
struct HThread { void (*fn)(void*); void* arg; int done; }; static HThread g_ht[4]; static int g_nht;
static void ht_run(void* p) { HThread* t = (HThread*)p; t->fn(t->arg); sx_hb_rel(t); t->done = 1; }
static void spawn(void (*fn)(void*), void* a) { HThread* t = &g_ht[g_nht++]; t->fn = fn; t->arg = a; t->done = 0; sx_thread_create(ht_run, t); }
static void join_spawned() { for (int i = 0; i < g_nht; i++) { while (!g_ht[i].done) sx_block_on(&g_ht[i].done, 1); sx_hb_acq(&g_ht[i]); } }
static bool all_joined() { for (int i = 0; i < g_nht; i++) if (!g_ht[i].done) return false; return true; }
