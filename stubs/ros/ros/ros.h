// Stand-in for the part of ROS the message interfaces use (ROS is not installed here).
#pragma once
#include <cstdint>
#include <cmath>
#include <iostream>
#include <string>
namespace ros {
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t ns) : sec(s), nsec(ns) {}
  explicit Duration(double t) : sec(0), nsec(0) { fromSec(t); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000ll + static_cast<int64_t>(nsec); }
  Duration& fromSec(double t) { return fromNSec(static_cast<int64_t>(std::llround(t * 1e9))); }
  Duration& fromNSec(int64_t t) {
    int64_t s = t / 1000000000ll, n = t % 1000000000ll;
    if (n < 0) { n += 1000000000ll; --s; }
    sec = static_cast<int32_t>(s); nsec = static_cast<int32_t>(n); return *this;
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& o) const { Duration r; r.fromNSec(toNSec() + o.toNSec()); return r; }
  Duration operator-(const Duration& o) const { Duration r; r.fromNSec(toNSec() - o.toNSec()); return r; }
  Duration operator-() const { Duration r; r.fromNSec(-toNSec()); return r; }
  Duration operator*(double k) const { Duration r; r.fromSec(toSec() * k); return r; }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
};
class Time {
 public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t ns) : sec(s), nsec(ns) {}
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + static_cast<uint64_t>(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
};
}  // namespace ros
#define VF_ROS_LOG(...) do { } while (0)
#define ROS_DEBUG VF_ROS_LOG
#define ROS_INFO VF_ROS_LOG
#define ROS_WARN VF_ROS_LOG
#define ROS_ERROR VF_ROS_LOG
#define ROS_FATAL VF_ROS_LOG
#define ROS_DEBUG_STREAM VF_ROS_LOG
#define ROS_INFO_STREAM VF_ROS_LOG
#define ROS_WARN_STREAM VF_ROS_LOG
#define ROS_ERROR_STREAM VF_ROS_LOG
#define ROS_FATAL_STREAM VF_ROS_LOG
