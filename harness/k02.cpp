// K02: ROS time
#include "sx.h"
#include <smooth/feedback/compat/ros.hpp>
using namespace smooth::feedback;
using T = rclcpp::Time;
using tt = time_trait<T>;
static_assert(Time<T>);
static T tim(const char * n)
{
  const rcl_clock_type_t c[] = {RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME};
  return T((int64_t)sx_int(n, 0, 4000000000000000000l), c[sx_param("clock", 0)]);
}
extern "C" {
void add()
{
  const T t = tim("t");
  const double s = sx_real("s", -1000, 1000);
  const T p = tt::plus(t, s);
  sx_check(p.get_clock_type() == t.get_clock_type(), "clock of the sum");
  const double r = tt::minus(p, t);
  sx_check_le(r, s, 1e-8, "adding seconds adds too much");
  sx_check_le(s, r, 1e-8, "adding seconds adds too little");
  const T z = tt::plus(t, 0.);
  sx_check(z == t, "adding zero changes the time");
  sx_check((s <= 0) | (p >= t), "adding a positive time goes backwards");
}
void dif()
{
  const T a = tim("a"), b = tim("b");
  const double r = tt::minus(a, b);
  sx_check_eq(r * 1e9, (double)(a.nanoseconds() - b.nanoseconds()), sx_symbolic() ? 1e-3 : 1e4, "difference is not the number of seconds");
  const long d = sx_int("d", -1000000000000000l, 1000000000000000l);
  const T e(b.nanoseconds() + d, b.get_clock_type());
  sx_check((d > 0) == (tt::minus(e, b) > 0), "sign of a difference is wrong");
}
// sums are associative up to the resolution
void two()
{
  const T t = tim("t");
  const double s = sx_real("s", -1000, 1000), w = sx_real("w", -1000, 1000);
  const double r = tt::minus(tt::plus(tt::plus(t, s), w), t);
  sx_check_eq(r, s + w, 1e-8, "two additions");
  sx_check_eq(tt::minus(tt::plus(t, s), tt::plus(t, w)), s - w, 1e-7, "difference of sums");
}
}
