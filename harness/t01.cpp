#include "sx.h"
#include <smooth/feedback/time.hpp>
#include <chrono>
using namespace smooth::feedback;
// fp: double and float, all finite values within the stated range, IEEE semantics
template<typename T>
void fl()
{
  const double B = 1048576;
  const T t = (T)sx_any("t");
  const double d = (double)(T)sx_any("d");
  sx_assume((t <= B) & (t >= -B) & (d <= B) & (d >= -B));
  const T p = time_trait<T>::plus(t, d);
  const double r = time_trait<T>::minus(p, t);
  // resolution of the type at 2^21
  const double res = sizeof(T) == 8 ? 0x1p-30 : 0x1p-1;
  if (sx_param("round", 0)) sx_check((r - d <= res) & (d - r <= res), "adding seconds and subtracting the time does not give them back");
  sx_check(time_trait<T>::plus(t, 0.) == t, "adding zero changes the time");
  sx_check(time_trait<T>::minus(t, t) == 0, "difference of equal times is not zero");
  sx_check((d <= 0) | (p >= t), "adding a positive time goes backwards");
}
template<typename T>
void dif()
{
  const T a = (T)sx_any("a"), b = (T)sx_any("b");
  sx_assume((a <= 1048576) & (a >= -1048576) & (b <= 1048576) & (b >= -1048576));
  const double ab = time_trait<T>::minus(a, b), ba = time_trait<T>::minus(b, a);
  if (sx_param("round", 0)) sx_check(ab == -ba, "difference is not antisymmetric");
  sx_check((a > b) == (ab > 0), "sign of a difference is wrong");
}
// chrono types: ticks are symbolic integers, ratio num/den
template<typename T, typename D>
void chr(D tick, double num, double den, bool integral)
{
  // far from the origin doubles cannot represent every time
  const long B   = sx_param("far", 0) ? 4000000000000000000l : 1000000000;
  const T t      = T(D(sx_int("t", -B, B)));
  const double s = sx_real("s", -1000, 1000);
  const T p      = time_trait<T>::plus(t, s);
  const double r = time_trait<T>::minus(p, t), res = integral ? num / den : 0;
  const double tol = sx_param("far", 0) ? 2e-8 : 1e-6;
  sx_check_le(r, s + res, tol, "adding seconds adds too much");
  sx_check_le(s - res, r, tol, "adding seconds adds too little");
  const T z = time_trait<T>::plus(t, 0.);
  sx_check(z == t, "adding zero changes the time");
}
template<typename T, typename D>
void chd(double num, double den)
{
  const long B = 1000000000;
  const long a = sx_int("a", -B, B), b = sx_int("b", -B, B);
  const double r = time_trait<T>::minus(T(D(a)), T(D(b)));
  sx_check_eq(r * den, (num == 60 && den == 1 && !std::is_integral_v<typename D::rep> ? (double)a - (double)b : (double)(a - b)) * num, 1e-3, "difference is not the number of seconds");
}
template<typename T, typename D>
void chf(double num, double den)
{
  const long B = 4000000000000000000l;
  const long b = sx_int("b", -B, B), d = sx_int("d", -1000000000, 1000000000), a = b + d;
  const double r = time_trait<T>::minus(T(D(a)), T(D(b)));
  sx_check_eq(r * den, (double)d * num, 1e-3, "difference of far times is not the number of seconds");
}
namespace c = std::chrono;
template<typename D> using TP = c::time_point<c::steady_clock, D>;
using Odd = c::duration<int64_t, std::ratio<3, 7>>;
using Fm  = c::duration<double, std::ratio<60>>;
using Fs  = c::duration<float>;
// exact arithmetic
template<typename T>
void ex()
{
  const T t = (T)sx_real("t", -1048576, 1048576);
  const double d = sx_real("d", -1048576, 1048576);
  const T p = time_trait<T>::plus(t, d);
  const double res = sizeof(T) == 8 ? 1e-9 : 0.5;
  sx_check_eq(time_trait<T>::minus(p, t), d, res, "adding seconds and subtracting the time does not give them back");
  sx_check_eq(time_trait<T>::minus(t, p), -d, res, "sign of a difference is wrong");
  const T b = (T)sx_real("b", -1048576, 1048576);
  sx_check_eq(time_trait<T>::minus(b, t), (double)b - (double)t, res, "difference is not the number of seconds");
}
extern "C" {
void ed() { ex<double>(); }
void ef() { ex<float>(); }
void fd() { fl<double>(); }
void ff() { fl<float>(); }
void dd() { dif<double>(); }
void df() { dif<float>(); }
void pns() { chr<c::nanoseconds>(c::nanoseconds(1), 1, 1e9, true); }
void pus() { chr<c::microseconds>(c::microseconds(1), 1, 1e6, true); }
void pms() { chr<c::milliseconds>(c::milliseconds(1), 1, 1e3, true); }
void ps() { chr<c::seconds>(c::seconds(1), 1, 1, true); }
void pmin() { chr<c::minutes>(c::minutes(1), 60, 1, true); }
void podd() { chr<Odd>(Odd(1), 3, 7, true); }
void pfm() { chr<Fm>(Fm(1), 60, 1, false); }
void tns() { chr<TP<c::nanoseconds>>(c::nanoseconds(1), 1, 1e9, true); }
void tus() { chr<TP<c::microseconds>>(c::microseconds(1), 1, 1e6, true); }
void tms() { chr<TP<c::milliseconds>>(c::milliseconds(1), 1, 1e3, true); }
void todd() { chr<TP<Odd>>(Odd(1), 3, 7, true); }
void tfm() { chr<TP<Fm>>(Fm(1), 60, 1, false); }
void mns() { chd<c::nanoseconds, c::nanoseconds>(1, 1e9); }
void mms() { chd<c::milliseconds, c::milliseconds>(1, 1e3); }
void ms() { chd<c::seconds, c::seconds>(1, 1); }
void mmin() { chd<c::minutes, c::minutes>(60, 1); }
void modd() { chd<Odd, Odd>(3, 7); }
void fns() { chf<c::nanoseconds, c::nanoseconds>(1, 1e9); }
void fus() { chf<c::microseconds, c::microseconds>(1, 1e6); }
void fodd() { chf<Odd, Odd>(3, 7); }
void ftns() { chf<TP<c::nanoseconds>, c::nanoseconds>(1, 1e9); }
void ftus() { chf<TP<c::microseconds>, c::microseconds>(1, 1e6); }
void ftodd() { chf<TP<Odd>, Odd>(3, 7); }
void mtns() { chd<TP<c::nanoseconds>, c::nanoseconds>(1, 1e9); }
void mtms() { chd<TP<c::milliseconds>, c::milliseconds>(1, 1e3); }
void mtodd() { chd<TP<Odd>, Odd>(3, 7); }
void mfm() { chd<Fm, Fm>(60, 1); }
void mtfm() { chd<TP<Fm>, Fm>(60, 1); }
}
