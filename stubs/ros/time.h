// Stand-in for ros/time.h: same value semantics as roscpp (seconds + nanoseconds), clock owned by the harness.
#ifndef FAKE_ROS_TIME_H
#define FAKE_ROS_TIME_H
#include <cstdint>
#include <cmath>
#include <stdexcept>
#include <iostream>
namespace fakeros { inline double g_now = 1000.0; }
namespace ros {
struct Duration {
  int32_t sec = 0, nsec = 0;
  Duration() {}
  explicit Duration(double t) { sec = (int32_t)std::floor(t); nsec = (int32_t)std::lround((t - sec) * 1e9); }
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  Duration& fromSec(double t) { *this = Duration(t); return *this; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const { return true; }
  Duration operator+(const Duration& o) const { return Duration(toSec() + o.toSec()); }
  Duration operator-(const Duration& o) const { return Duration(toSec() - o.toSec()); }
  Duration operator-() const { return Duration(-toSec()); }
  Duration operator*(double f) const { return Duration(toSec() * f); }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
};
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    int64_t sec64 = (int64_t)std::floor(t);
    if (!(t == t) || t < 0 || sec64 > 4294967295LL) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)sec64;
    nsec = (uint32_t)std::lround((t - sec) * 1e9);
    sec += (nsec / 1000000000u);
    nsec %= 1000000000u;
    return *this;
  }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now() { return Time(fakeros::g_now); }
  static void init() {}
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator>(const Time& o) const { return o < *this; }
  bool operator<=(const Time& o) const { return !(o < *this); }
  bool operator>=(const Time& o) const { return !(*this < o); }
  Duration operator-(const Time& o) const { return Duration(toSec() - o.toSec()); }
  Time operator+(const Duration& d) const { return Time(toSec() + d.toSec()); }
  Time operator-(const Duration& d) const { return Time(toSec() - d.toSec()); }
  Time& operator+=(const Duration& d) { return *this = *this + d; }
  Time& operator-=(const Duration& d) { return *this = *this - d; }
  Time& fromNSec(uint64_t t) { sec = (uint32_t)(t / 1000000000ull); nsec = (uint32_t)(t % 1000000000ull); return *this; }
  bool is_zero() const { return isZero(); }
  static bool isValid() { return true; }
};
typedef Time WallTime; typedef Duration WallDuration;
struct Rate { explicit Rate(double) {} bool sleep() { return true; } void reset() {} };
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.toSec(); }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }
}
#endif
