#pragma once
#include <string>
namespace boost { namespace system {
class error_category { public: int id_; explicit error_category(int i) : id_(i) {} const char* name() const { return "cat"; } std::string message(int v) const; bool operator==(const error_category& o) const { return id_ == o.id_; } };
inline const error_category& system_category() { static error_category c(0); return c; }
inline const error_category& generic_category() { static error_category c(1); return c; }
class error_code { public: int v_; int c_; error_code() : v_(0), c_(0) {} error_code(int v, const error_category& c) : v_(v), c_(c.id_) {} error_code(int v, int c) : v_(v), c_(c) {} int value() const { return v_; } std::string message() const { return v_ ? "err" : "ok"; } void clear() { v_ = c_ = 0; } void assign(int v, const error_category& c) { v_ = v; c_ = c.id_; }
  explicit operator bool() const { return v_ != 0; } bool operator!() const { return v_ == 0; } bool operator==(const error_code& o) const { return v_ == o.v_ && c_ == o.c_; } bool operator!=(const error_code& o) const { return !(*this == o); } };
}}
