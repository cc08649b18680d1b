// Interface between harnesses and the symbolic executor; a native runtime (native.cpp)
// implements the same functions for replaying concrete inputs.
#pragma once
#include <cmath>
#include <cstdint>

extern "C" {
double sx_real(const char * name, double lo, double hi);  // arbitrary value in [lo, hi]
double sx_any(const char * name);                         // arbitrary double (FP theory)
long sx_int(const char * name, long lo, long hi);         // arbitrary integer in [lo, hi]
long sx_concrete(long v);                                 // split on every value of v
long sx_param(const char * name, long def);               // configuration constant
int sx_symbolic();
void sx_clock(int mode);  // 0: clock stands still, 1: arbitrary non-decreasing instants, 2: 1 us per reading
void sx_assume(int c);
void sx_check(int c, const char * msg);
void sx_check_le(double a, double b, double slack, const char * msg);
void sx_check_eq(double a, double b, double tol, const char * msg);
void sx_check_same(double a, double b, const char * msg);  // bit-for-bit equal
int sx_finite(double a);
double sx_partial_(double f, double x);
void sx_observe(const char * name, double v);
void sx_cover(const char * label);
void sx_stop();
}

static inline long sx_choose(const char * name, long n) { return sx_concrete(sx_int(name, 0, n - 1)); }

// Partial derivative of f with respect to x[j]: symbolic differentiation of the executed code's
// own result in the engine, extrapolated central differences (order 8) in a native replay.
// f may be vector-valued in a native replay.
template<typename F, typename V>
auto sx_partial_native(F && f, V x, int j)
{
  const double x0 = x[j];
  const auto at = [&](double h) {
    x[j] = x0 + h;
    auto fp = f(x);
    x[j] = x0 - h;
    auto fm = f(x);
    fp = (fp - fm) * (0.5 / h);
    return fp;
  };
  const double h = 0.02;
  auto a = at(h), b = at(h / 2), c = at(h / 4), d = at(h / 8);
  a = b + (b - a) * (1. / 3); b = c + (c - b) * (1. / 3); c = d + (d - c) * (1. / 3);
  a = b + (b - a) * (1. / 15); b = c + (c - b) * (1. / 15);
  a = b + (b - a) * (1. / 63);
  return a;
}
template<typename F, typename V>
double sx_partial(F && f, V & x, int j)
{
  if (sx_symbolic()) { return sx_partial_(f(x), x[j]); }
  return sx_partial_native(f, x, j);
}
// tolerance for comparing with sx_partial (replay slightly tighter, so that counterexamples confirm)
static inline double sx_ptol() { return sx_symbolic() ? 2e-6 : 1e-6; }
static inline double sx_max(double a, double b) { return a < b ? b : a; }
static inline double sx_abs(double a) { return __builtin_fabs(a); }
