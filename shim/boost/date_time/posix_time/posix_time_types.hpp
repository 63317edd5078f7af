// Stand-in for boost::posix_time: microsecond ticks with the special values sofa-pbrpc uses.
#pragma once
#include <stdint.h>
#include <time.h>
namespace boost { namespace gregorian { struct date { int y_, m_, d_; date(int y = 1970, int m = 1, int d = 1) : y_(y), m_(m), d_(d) {} int year() const { return y_; } int month() const { return m_; } int day() const { return d_; } }; }
namespace date_time { enum special_values { not_a_date_time, neg_infin, pos_infin }; template <class T> struct c_local_adjustor { static T utc_to_local(const T& t) { return t; } }; }
namespace posix_time {
using date_time::pos_infin; using date_time::neg_infin; using date_time::not_a_date_time;
class time_duration { public: int64_t t_; time_duration(int64_t us = 0) : t_(us) {} 
  int64_t ticks() const { return t_; } int64_t total_microseconds() const { return t_; } int64_t total_milliseconds() const { return t_ / 1000; } int64_t total_seconds() const { return t_ / 1000000; } int hours() const { return (int)(t_ / 3600000000LL); } int minutes() const { return (int)(t_ / 60000000LL % 60); } int seconds() const { return (int)(t_ / 1000000 % 60); } long fractional_seconds() const { return t_ % 1000000; } bool is_negative() const { return t_ < 0; }
  time_duration operator+(const time_duration& o) const { return time_duration(t_ + o.t_); } time_duration operator-(const time_duration& o) const { return time_duration(t_ - o.t_); } time_duration operator*(int k) const { return time_duration(t_ * k); } time_duration operator/(int k) const { return time_duration(t_ / k); } time_duration& operator+=(const time_duration& o) { t_ += o.t_; return *this; }
  bool operator<(const time_duration& o) const { return t_ < o.t_; } bool operator>(const time_duration& o) const { return t_ > o.t_; } bool operator<=(const time_duration& o) const { return t_ <= o.t_; } bool operator>=(const time_duration& o) const { return t_ >= o.t_; } bool operator==(const time_duration& o) const { return t_ == o.t_; } bool operator!=(const time_duration& o) const { return t_ != o.t_; } };
inline time_duration hours(long n) { return time_duration(n * 3600000000LL); } inline time_duration minutes(long n) { return time_duration(n * 60000000LL); } inline time_duration seconds(long n) { return time_duration(n * 1000000LL); } inline time_duration milliseconds(long n) { return time_duration(n * 1000LL); } inline time_duration microseconds(long n) { return time_duration(n); } typedef time_duration microsec;
class ptime { public: enum { PINF = 1 }; int64_t t_; typedef gregorian::date date_type; typedef time_duration time_duration_type;
  static const int64_t pinf = 0x7fffffffffffffffLL, ninf = -0x7fffffffffffffffLL, nadt = 0x7ffffffffffffffeLL;
  ptime() : t_(nadt) {} ptime(date_time::special_values s) : t_(s == date_time::pos_infin ? pinf : s == date_time::neg_infin ? ninf : nadt) {} ptime(const gregorian::date&) : t_(0) {} ptime(const gregorian::date&, const time_duration& d) : t_(d.t_) {}
  bool is_special() const { return t_ == pinf || t_ == ninf || t_ == nadt; } bool is_pos_infinity() const { return t_ == pinf; } bool is_neg_infinity() const { return t_ == ninf; } bool is_not_a_date_time() const { return t_ == nadt; } bool is_infinity() const { return t_ == pinf || t_ == ninf; }
  ptime operator+(const time_duration& d) const { ptime r(*this); if (!is_special()) r.t_ += d.t_; return r; } ptime operator-(const time_duration& d) const { ptime r(*this); if (!is_special()) r.t_ -= d.t_; return r; } ptime& operator+=(const time_duration& d) { return *this = *this + d; } ptime& operator-=(const time_duration& d) { return *this = *this - d; }
  time_duration operator-(const ptime& o) const { return time_duration(is_special() || o.is_special() ? (t_ == pinf ? 0x7ffffffffffffffLL : 0) : t_ - o.t_); }
  gregorian::date date() const { return gregorian::date(); } time_duration time_of_day() const { return time_duration(t_ % 86400000000LL); }
  bool operator<(const ptime& o) const { return t_ < o.t_; } bool operator>(const ptime& o) const { return t_ > o.t_; } bool operator<=(const ptime& o) const { return t_ <= o.t_; } bool operator>=(const ptime& o) const { return t_ >= o.t_; } bool operator==(const ptime& o) const { return t_ == o.t_; } bool operator!=(const ptime& o) const { return t_ != o.t_; } };
}}
