// Stand-in for Boost.Asio: every asynchronous operation is recorded and completed by the harness, so that readiness,
// partial transfers, errors, accepts, timer expiry and handler scheduling become choices of the solver.
#pragma once
#include <boost/system/error_code.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <functional>
#include <deque>
#include <vector>
#include <string>
#include <ostream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <set>
#include <list>
#include <algorithm>
#include <boost/lexical_cast.hpp>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/stat.h>
#include <time.h>
#include <limits.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <stdint.h>
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <pthread.h>
#include "sx.h"
namespace boost { namespace asio {
namespace error {
  enum basic_errors { operation_aborted = 125, no_descriptors = 24, connection_reset = 104, broken_pipe = 32, bad_descriptor = 9, connection_refused = 111, not_connected = 107, address_in_use = 98, try_again = 11, interrupted = 4, timed_out = 110 }; enum misc_errors { eof = 2, already_open = 1, not_found = 3 };
  inline const system::error_category& get_addrinfo_category() { static system::error_category c(2); return c; } inline const system::error_category& get_misc_category() { static system::error_category c(3); return c; } inline const system::error_category& get_netdb_category() { static system::error_category c(4); return c; } inline const system::error_category& get_system_category() { return system::system_category(); }
  inline bool operator==(const system::error_code& a, basic_errors b) { return a == system::error_code(b, 0); } inline bool operator==(const system::error_code& a, misc_errors b) { return a == system::error_code(b, 3); } inline bool operator!=(const system::error_code& a, basic_errors b) { return !(a == b); } inline bool operator!=(const system::error_code& a, misc_errors b) { return !(a == b); }
  inline system::error_code make(basic_errors e) { return system::error_code(e, 0); } inline system::error_code make(misc_errors e) { return system::error_code(e, 3); }
}
struct mutable_buffer { char* p; size_t n; }; struct const_buffer { const char* p; size_t n; };
inline mutable_buffer buffer(char* p, size_t n) { mutable_buffer b = {p, n}; return b; } inline mutable_buffer buffer(void* p, size_t n) { mutable_buffer b = {(char*)p, n}; return b; } inline const_buffer buffer(const char* p, size_t n) { const_buffer b = {p, n}; return b; }
inline bool& sx_parked() { static bool v = false; return v; } // set by a harness that runs the handlers itself: run() then waits until the service has no work left
class io_service { public: static std::vector<io_service*>& all() { static std::vector<io_service*> v; return v; }
  typedef std::function<void()> H;
  std::deque<H> q_; int work_; int running_tid_[8]; int nrun_; bool stopped_; int wake_; int outstanding_; int idle_;
  io_service() : work_(0), nrun_(0), stopped_(false), wake_(0), outstanding_(0), idle_(0) { all().push_back(this); }
  ~io_service() { std::vector<io_service*>& v = all(); for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v[i] = v.back(); v.pop_back(); break; } }
  class work { public: io_service& s_; explicit work(io_service& s) : s_(s) { s_.work_++; s_.upd(); } work(const work& o) : s_(o.s_) { s_.work_++; s_.upd(); } ~work() { sx_hb_rel(&s_.wake_); s_.work_--; s_.upd(); } };
  void upd() { wake_ = !q_.empty() || stopped_ || (work_ == 0 && outstanding_ == 0); idle_ = stopped_ || work_ == 0; }
  bool in_run() const { for (int i = 0; i < nrun_; i++) if (running_tid_[i] == sx_tid()) return true; return false; }
  template <class F> void post(F h) { q_.push_back(H(h)); sx_hb_rel(&q_); upd(); sx_sched_point(); }
  template <class F> void dispatch(F h) { if (in_run()) h(); else post(h); }
  void enter() { running_tid_[nrun_++] = sx_tid(); } void leave() { for (int i = nrun_ - 1; i >= 0; i--) if (running_tid_[i] == sx_tid()) { running_tid_[i] = running_tid_[--nrun_]; return; } }
  bool sx_run_one() { if (q_.empty()) return false; H h; h.swap(q_.front()); q_.pop_front(); sx_hb_acq(&q_); outstanding_++; upd(); enter(); h(); leave(); h = H(); outstanding_--; sx_hb_rel(&wake_); upd(); return true; }
  static int sx_pump(int max = 1000) { int n = 0; for (bool any = true; any && n < max;) { any = false; std::vector<io_service*> v = all(); for (size_t i = 0; i < v.size(); i++) if (v[i]->sx_run_one()) { any = true; n++; } } return n; }
  int sx_run_all(int max = 1000) { int n = 0; while (n < max && sx_run_one()) n++; return n; }
  size_t run() { size_t n = 0; if (sx_parked()) { upd(); while (!idle_) sx_block_on(&idle_, 1); } for (;;) { sx_sched_point(); if (stopped_) { sx_hb_acq(&wake_); return n; } if (!q_.empty()) { sx_run_one(); n++; continue; } if (work_ == 0 && outstanding_ == 0) { stopped_ = true; upd(); sx_hb_acq(&wake_); return n; } upd(); sx_block_on(&wake_, 1); } }
  void stop() { sx_hb_rel(&wake_); stopped_ = true; upd(); } bool stopped() const { return stopped_; } void reset() { stopped_ = false; upd(); }
  size_t poll() { return sx_run_all(); } size_t run_one() { return sx_run_one(); }
  class strand { public: io_service& s_; std::deque<H> q_; bool busy_; int owner_; explicit strand(io_service& s) : s_(s), busy_(false), owner_(-1) {}
    void drain() { while (!q_.empty()) { H h; h.swap(q_.front()); q_.pop_front(); sx_hb_acq(this); h(); sx_hb_rel(this); } busy_ = false; owner_ = -1; }
    void sx_enter(const H& h) { q_.push_back(h); sx_hb_rel(this); if (busy_) return; busy_ = true; owner_ = sx_tid(); drain(); }
    template <class F> void dispatch(F h) { if (busy_ && owner_ == sx_tid()) { h(); return; } H hh(h); if (s_.in_run()) sx_enter(hh); else s_.post([this, hh] { sx_enter(hh); }); }
    template <class F> void post(F h) { H hh(h); s_.post([this, hh] { sx_enter(hh); }); }
    template <class F> struct wrapped { strand* s; F f; template <class A> void operator()(const A& a) { F g(f); A b(a); s->dispatch([g, b]() mutable { g(b); }); } void operator()() { s->dispatch(f); } };
    template <class F> wrapped<F> wrap(F f) { wrapped<F> w = {this, f}; return w; } };
};

class deadline_timer { public: int64_t due_; typedef std::function<void(const system::error_code&)> TH; io_service& s_; bool armed_; TH h_; posix_time::ptime at_; posix_time::time_duration dur_; bool rel_;
  static std::vector<deadline_timer*>& all() { static std::vector<deadline_timer*> v; return v; }
  explicit deadline_timer(io_service& s) : s_(s), armed_(false), rel_(false) { all().push_back(this); } ~deadline_timer() { cancel(); std::vector<deadline_timer*>& v = all(); for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v[i] = v.back(); v.pop_back(); break; } }
  size_t expires_from_now(const posix_time::time_duration& d) { size_t n = cancel(); dur_ = d; rel_ = true; due_ = sx_clock_us + d.t_; return n; } size_t expires_at(const posix_time::ptime& t) { size_t n = cancel(); at_ = t; rel_ = false; due_ = t.t_; return n; }
  template <class F> void async_wait(F h) { sx_assert(!armed_, "asio model: one wait per timer"); h_ = TH(h); sx_hb_rel(&h_); armed_ = true; s_.outstanding_++; s_.upd(); }
  size_t cancel() { if (!armed_) return 0; sx_complete(error::make(error::operation_aborted)); return 1; } size_t cancel(system::error_code& ec) { ec = system::error_code(); return cancel(); }
  void sx_complete(const system::error_code& ec) { armed_ = false; TH h; h.swap(h_); io_service* s = &s_; const void* k = &h_; s->q_.push_back([h, ec, k] { sx_hb_acq(k); h(ec); }); sx_hb_rel(&s->q_); s->outstanding_--; s->upd(); }
  bool sx_armed() const { return armed_; } static int sx_fire_due() { int n = 0; std::vector<deadline_timer*> v = all(); for (size_t i = 0; i < v.size(); i++) if (v[i]->armed_ && v[i]->due_ <= sx_clock_us) { v[i]->sx_fire(); n++; } return n; }
  void sx_fire() { if (armed_) sx_complete(system::error_code()); } };
namespace ip {
class address { public: uint32_t a_; address(uint32_t a = 0) : a_(a) {} std::string to_string() const { char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", a_ >> 24, (a_ >> 16) & 255, (a_ >> 8) & 255, a_ & 255); return b; } bool operator==(const address& o) const { return a_ == o.a_; } bool operator<(const address& o) const { return a_ < o.a_; } static address from_string(const std::string&) { return address(); } };
typedef address address_v4;
class tcp { public: bool v6_; tcp(bool v6 = false) : v6_(v6) {} static tcp v4() { return tcp(); }
  class endpoint { public: address a_; unsigned short p_; endpoint() : p_(0) {} endpoint(const address& a, unsigned short p) : a_(a), p_(p) {} endpoint(const tcp&, unsigned short p) : p_(p) {} address address() const { return a_; } unsigned short port() const { return p_; } tcp protocol() const { return tcp(); } bool operator==(const endpoint& o) const { return a_ == o.a_ && p_ == o.p_; } bool operator!=(const endpoint& o) const { return !(*this == o); } bool operator<(const endpoint& o) const { return a_ == o.a_ ? p_ < o.p_ : a_ < o.a_; } };
  struct no_delay { bool v; explicit no_delay(bool b) : v(b) {} };
  class socket { public: typedef std::function<void(const system::error_code&, size_t)> IOH; typedef std::function<void(const system::error_code&)> CH; enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    io_service& s_; bool open_, shut_; bool rd_, wr_, cn_; mutable_buffer rb_; const_buffer wb_; IOH rh_, wh_; CH ch_; endpoint remote_, local_; int nread_, nwrite_; system::error_code remote_ec_, local_ec_, opt_ec_; std::vector<std::string> dummy_;
    static std::vector<socket*>& all() { static std::vector<socket*> v; return v; }
    explicit socket(io_service& s) : s_(s), open_(true), shut_(false), rd_(false), wr_(false), cn_(false), nread_(0), nwrite_(0) { rb_.p = 0; wb_.p = 0; all().push_back(this); } ~socket() { system::error_code e; close(e); std::vector<socket*>& v = all(); for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v[i] = v.back(); v.pop_back(); break; } }
    template <class F> void async_read_some(const mutable_buffer& b, F h) { sx_assert(!rd_, "two reads pending on one socket"); sx_assert(b.n > 0, "read into an empty buffer"); sx_assert(sx_valid(b.p, b.n), "read buffer out of bounds"); rd_ = true; rb_ = b; rh_ = IOH(h); sx_hb_rel(&rh_); nread_++; s_.outstanding_++; s_.upd(); if (shut_ || !open_) sx_read_done(0, shut_ ? error::make(error::eof) : error::make(error::bad_descriptor)); }
    template <class F> void async_write_some(const const_buffer& b, F h) { sx_assert(!wr_, "two writes pending on one socket"); sx_assert(sx_valid(b.p, b.n), "write buffer out of bounds"); wr_ = true; wb_ = b; wh_ = IOH(h); sx_hb_rel(&wh_); nwrite_++; s_.outstanding_++; s_.upd(); if (shut_ || !open_) sx_write_done(0, shut_ ? error::make(error::broken_pipe) : error::make(error::bad_descriptor)); }
    template <class F> void async_connect(const endpoint& e, F h) { sx_assert(!cn_, "two connects pending on one socket"); remote_ = e; cn_ = true; ch_ = CH(h); sx_hb_rel(&ch_); s_.outstanding_++; s_.upd(); }
    void sx_read_done(size_t n, const system::error_code& ec) { sx_assert(rd_, "asio model: no read pending"); sx_assert(n <= rb_.n, "asio model: read too long"); rd_ = false; IOH h; h.swap(rh_); const void* k = &rh_; s_.q_.push_back([h, ec, n, k] { sx_hb_acq(k); h(ec, n); }); sx_hb_rel(&s_.q_); s_.outstanding_--; s_.upd(); }
    void sx_write_done(size_t n, const system::error_code& ec) { sx_assert(wr_, "asio model: no write pending"); sx_assert(n <= wb_.n, "asio model: write too long"); wr_ = false; IOH h; h.swap(wh_); const void* k = &wh_; s_.q_.push_back([h, ec, n, k] { sx_hb_acq(k); h(ec, n); }); sx_hb_rel(&s_.q_); s_.outstanding_--; s_.upd(); }
    void sx_connect_done(const system::error_code& ec) { sx_assert(cn_, "asio model: no connect pending"); cn_ = false; CH h; h.swap(ch_); const void* k = &ch_; s_.q_.push_back([h, ec, k] { sx_hb_acq(k); h(ec); }); sx_hb_rel(&s_.q_); s_.outstanding_--; s_.upd(); }
    void abort_all(const system::error_code& r, const system::error_code& w, const system::error_code& c) { if (rd_) sx_read_done(0, r); if (wr_) sx_write_done(0, w); if (cn_) sx_connect_done(c); }
    void shutdown(shutdown_type, system::error_code& ec) { ec = system::error_code(); shut_ = true; abort_all(error::make(error::eof), error::make(error::broken_pipe), error::make(error::connection_reset)); }
    void close(system::error_code& ec) { ec = system::error_code(); if (!open_) return; open_ = false; abort_all(error::make(error::operation_aborted), error::make(error::operation_aborted), error::make(error::operation_aborted)); }
    void close() { system::error_code e; close(e); } bool is_open() const { return open_; }
    template <class O> void set_option(const O&, system::error_code& ec) { ec = opt_ec_; } endpoint remote_endpoint(system::error_code& ec) const { ec = remote_ec_; return remote_; } endpoint local_endpoint(system::error_code& ec) const { ec = local_ec_; return local_; } int native() { return 3; } int native_handle() { return 3; } };
  class acceptor { public: typedef std::function<void(const system::error_code&)> AH; io_service& s_; bool open_, acc_; AH h_; socket* sk_; endpoint ep_; system::error_code fail_[4]; int naccept_;
    struct reuse_address { explicit reuse_address(bool) {} }; static std::vector<acceptor*>& all() { static std::vector<acceptor*> v; return v; }
    explicit acceptor(io_service& s) : s_(s), open_(false), acc_(false), sk_(0), naccept_(0) { all().push_back(this); } ~acceptor() { system::error_code e; close(e); std::vector<acceptor*>& v = all(); for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v[i] = v.back(); v.pop_back(); break; } }
    void open(const tcp&, system::error_code& ec) { ec = sx_fail_at(0); if (!ec) open_ = true; } template <class O> void set_option(const O&, system::error_code& ec) { ec = sx_fail_at(1); } void bind(const endpoint& e, system::error_code& ec) { ec = sx_fail_at(2); ep_ = e; } void listen(int, system::error_code& ec) { ec = sx_fail_at(3); } int native() { return 0; } int native_handle() { return 0; }
    static system::error_code (*&sx_failer())(int) { static system::error_code (*f)(int) = 0; return f; } system::error_code sx_fail_at(int i) { return sx_failer() ? sx_failer()(i) : system::error_code(); }
    template <class F> void async_accept(socket& k, F h) { sx_assert(!acc_, "two accepts pending"); acc_ = true; sk_ = &k; h_ = AH(h); sx_hb_rel(&h_); naccept_++; s_.outstanding_++; s_.upd(); if (!open_) sx_accept_done(error::make(error::bad_descriptor)); }
    void sx_accept_done(const system::error_code& ec) { sx_assert(acc_, "asio model: no accept pending"); acc_ = false; AH h; h.swap(h_); const void* k = &h_; s_.q_.push_back([h, ec, k] { sx_hb_acq(k); h(ec); }); sx_hb_rel(&s_.q_); s_.outstanding_--; s_.upd(); }
    void cancel(system::error_code& ec) { ec = system::error_code(); if (acc_) sx_accept_done(error::make(error::operation_aborted)); } void close(system::error_code& ec) { cancel(ec); open_ = false; } bool is_open() const { return open_; } };
  class resolver { public: struct query { std::string h, s; query(const std::string& a, const std::string& b) : h(a), s(b) {} };
    struct entry { endpoint e; tcp::endpoint endpoint() const { return e; } }; 
    struct iterator { bool v; entry x; iterator() : v(false) {} const entry* operator->() const { return &x; } const entry& operator*() const { return x; } bool operator!=(const iterator& o) const { return v != o.v; } bool operator==(const iterator& o) const { return v == o.v; } };
    typedef bool (*Hook)(const std::string&, const std::string&, endpoint*); static Hook& sx_hook() { static Hook h = 0; return h; }
    explicit resolver(io_service&) {} iterator resolve(const query& q, system::error_code& ec) { iterator i; endpoint e; if (sx_hook() ? sx_hook()(q.h, q.s, &e) : sx_default(q, &e)) { i.v = true; i.x.e = e; ec = system::error_code(); } else ec = error::make(error::not_found); return i; }
    static bool sx_default(const query& q, endpoint* e) { if (q.h.empty() || q.s.empty()) return false; uint32_t a = 0; for (size_t i = 0; i < q.h.size(); i++) a = a * 31 + (unsigned char)q.h[i]; *e = endpoint(address(a), (unsigned short)atoi(q.s.c_str())); return true; } };
};
inline std::ostream& operator<<(std::ostream& o, const tcp::endpoint& e) { return o << e.address().to_string() << ":" << (int)e.port(); }
}
struct socket_base { static const int max_connections = 128; };
}}
