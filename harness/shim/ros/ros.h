#ifndef SHIM_ROS
#define SHIM_ROS
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <sstream>
#include <iostream>
namespace ros
{
struct Duration {
  double s = 0;
  Duration() {}
  explicit Duration(double v) : s(v) {}
  double toSec() const { return s; }
};
struct Time {
  std::uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(std::uint32_t s, std::uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time &fromSec(double t)
  {
    sec = (std::uint32_t)std::floor(t);
    nsec = (std::uint32_t)std::lround((t - sec) * 1e9);
    sec += nsec / 1000000000u;
    nsec %= 1000000000u;
    return *this;
  }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  std::uint64_t toNSec() const { return (std::uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool operator==(const Time &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
  Duration operator-(const Time &o) const { return Duration(toSec() - o.toSec()); }
  static Time now() { return simNow(); }
  static Time &simNow() { static Time t(1000, 0); return t; }  // the harness sets the clock
};
inline std::ostream &operator<<(std::ostream &os, const Time &t) { return os << t.sec << "." << t.nsec; }
}
// The text is built (so that what it reads is really read) and counted, not printed.
namespace ros_shim
{
struct Log {
  unsigned long debug = 0, info = 0, warn = 0, error = 0;
};
inline Log &log() { static Log l; return l; }
}
#define SHIM_ROS_LOG(level, args) do { std::ostringstream ss_shim__; ss_shim__ << args; ++ros_shim::log().level; } while (0)
#define SHIM_ROS_TEXT(level, ...) do { char b_shim__[512]; std::snprintf(b_shim__, sizeof b_shim__, __VA_ARGS__); ++ros_shim::log().level; } while (0)
#define ROS_DEBUG(...) SHIM_ROS_TEXT(debug, __VA_ARGS__)
#define ROS_INFO(...) SHIM_ROS_TEXT(info, __VA_ARGS__)
#define ROS_WARN(...) SHIM_ROS_TEXT(warn, __VA_ARGS__)
#define ROS_ERROR(...) SHIM_ROS_TEXT(error, __VA_ARGS__)
#define ROS_DEBUG_STREAM(args) SHIM_ROS_LOG(debug, args)
#define ROS_INFO_STREAM(args) SHIM_ROS_LOG(info, args)
#define ROS_WARN_STREAM(args) SHIM_ROS_LOG(warn, args)
#define ROS_ERROR_STREAM(args) SHIM_ROS_LOG(error, args)
#endif
