// Stand-in for rclcpp::Time and rclcpp::Duration: 64-bit nanoseconds with the conversions of rclcpp.
#pragma once
#include <chrono>
#include <cstdint>
#include <stdexcept>
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
namespace rclcpp {
class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(s * 1000000000ll + ns) {}
  explicit Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  template<class Rep, class Period>
  Duration(const std::chrono::duration<Rep, Period> & d) : Duration(std::chrono::duration_cast<std::chrono::nanoseconds>(d)) {}
  static Duration from_seconds(double s) { return Duration(std::chrono::nanoseconds(static_cast<int64_t>(s * (1000ll * 1000ll * 1000ll)))); }
  static Duration from_nanoseconds(int64_t ns) { return Duration(std::chrono::nanoseconds(ns)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  template<class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration operator*(double s) const { return from_nanoseconds(static_cast<int64_t>(static_cast<double>(ns_) * s)); }

private:
  int64_t ns_;
};
class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t c = RCL_SYSTEM_TIME) : ns_(s * 1000000000ll + ns), c_(c) {}
  explicit Time(int64_t ns = 0, rcl_clock_type_t c = RCL_SYSTEM_TIME) : ns_(ns), c_(c) {}
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  rcl_clock_type_t get_clock_type() const { return c_; }
  bool operator==(const Time & o) const { same(o); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { same(o); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { same(o); return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { same(o); return ns_ >= o.ns_; }
  bool operator>(const Time & o) const { same(o); return ns_ > o.ns_; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), c_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), c_); }
  Duration operator-(const Time & o) const { same(o); return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns_ -= d.nanoseconds(); return *this; }

private:
  void same(const Time & o) const { if (c_ != o.c_) throw std::runtime_error("different clocks"); }
  int64_t ns_;
  rcl_clock_type_t c_;
};
}  // namespace rclcpp
