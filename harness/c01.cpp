// C01: PID law against a reference that follows the documentation
#include "sx.h"
#include <smooth/feedback/pid.hpp>
#include <chrono>
#include <string>
using namespace smooth;
using namespace smooth::feedback;
namespace ch = std::chrono;

static std::string nm(const char * p, int i, int j) { return std::string(p) + std::to_string(i) + "_" + std::to_string(j); }
template<class G> Tangent<G> tan_(const char * p, int k, double b = 4)
{
  Tangent<G> r;
  for (int i = 0; i < Dof<G>; ++i) r(i) = sx_real(nm(p, k, i).c_str(), -b, b);
  return r;
}
template<class T> struct Tm;
template<> struct Tm<double> { static double get(int i) { return sx_real(nm("t", i, 0).c_str(), -100, 100); } static double sec(double d) { return d; } static constexpr double tol = 0; };
template<> struct Tm<ch::duration<double>> { using D = ch::duration<double>; static D get(int i) { return D(sx_real(nm("t", i, 0).c_str(), -100, 100)); } static double sec(D d) { return d.count(); } };
template<> struct Tm<ch::steady_clock::time_point>
{
  using T = ch::steady_clock::time_point;
  static T get(int i) { return T(ch::nanoseconds(sx_int(nm("t", i, 0).c_str(), -1000000000L, 1000000000L))); }
  static double sec(ch::nanoseconds d) { return double(d.count()) / 1e9; }
};
template<class T, class G>
struct Ref
{
  Tangent<G> kp = Tangent<G>::Ones(), kd = Tangent<G>::Ones(), ki = Tangent<G>::Zero(), ie = Tangent<G>::Zero();
  double lim = std::numeric_limits<double>::infinity();
  bool has = false;
  T last{};
  Tangent<G> u(T t, G g, Tangent<G> v, G gd, Tangent<G> vd, Tangent<G> ad)
  {
    const Tangent<G> e = traits::lie<G>::log(traits::lie<G>::composition(traits::lie<G>::inverse(g), gd));
    Tangent<G> r;
    double dt = 0;
    const bool adv = has && t > last;
    if (adv) dt = Tm<T>::sec(t - last);
    has = true;
    last = t;
    for (int i = 0; i < Dof<G>; ++i) {
      if (adv) {
        ie(i) = ie(i) + e(i) * dt;
        if (ie(i) > lim) ie(i) = lim;
        else if (ie(i) < -lim) ie(i) = -lim;
      }
      r(i) = ad(i) + kp(i) * e(i) + kd(i) * (vd(i) - v(i)) + ki(i) * ie(i);
    }
    return r;
  }
};
template<class G> void eq(const Tangent<G> & a, const Tangent<G> & b, const char * m)
{
  for (int i = 0; i < Dof<G>; ++i) sx_check_eq(a(i), b(i), 1e-9, m);
}
// arbitrary history of n operations; then the outputs are those of the reference
template<class T, class G>
void hist()
{
  const int n    = sx_param("n", 3);
  const bool lim = sx_param("lim", 1);
  PIDParams prm;
  Ref<T, G> ref;
  if (lim) prm.windup_limit = ref.lim = sx_real("lim", 0, 8);
  PID<T, G> pid(prm);
  const int gains = sx_param("gains", 1);
  if (gains == 1) {
    ref.kp = tan_<G>("kp", 0, 2); ref.kd = tan_<G>("kd", 0, 2); ref.ki = tan_<G>("ki", 0, 2);
    pid.set_kp(ref.kp); pid.set_kd(ref.kd); pid.set_ki(ref.ki);
  } else if (gains == 2) {
    const double a = sx_real("kp", -2, 2), b = sx_real("kd", -2, 2), c = sx_real("ki", -2, 2);
    ref.kp.setConstant(a); ref.kd.setConstant(b); ref.ki.setConstant(c);
    pid.set_kd(b); pid.set_ki(c); pid.set_kp(a);
  } else if (gains == 3) {
    ref.ki.setConstant(1);
    pid.set_ki(1);
  }
  G gd = Default<G>();
  Tangent<G> vd = Tangent<G>::Zero(), ad = Tangent<G>::Zero();
  int seen = 0;
  if (sx_param("des", 1)) {
    gd = traits::lie<G>::exp(tan_<G>("gd", 0)); vd = tan_<G>("vd", 0); ad = tan_<G>("ad", 0);
    std::function<std::tuple<G, Tangent<G>, Tangent<G>>(T)> f = [&, gd, vd, ad](T) { ++seen; return std::tuple<G, Tangent<G>, Tangent<G>>(gd, vd, ad); };
    if (sx_param("des", 1) == 1) pid.set_xdes(f); else pid.set_xdes(std::move(f));
  }
  for (int k = 0; k < n; ++k) {
    const int op = k == 0 || k == n - 1 ? 0 : sx_choose("op", 4);
    if (op == 1) { pid.reset_integral(); ref.ie.setZero(); continue; }
    if (op == 2) { PID<T, G> c(pid); pid = std::move(c); }
    if (op == 3) { const PID<T, G> c(pid); PID<T, G> d(prm); d = c; pid = d; ref.ki *= 2; pid.set_ki(ref.ki); }
    const T t = Tm<T>::get(k);
    const Tangent<G> xt = tan_<G>("x", k), v = tan_<G>("v", k);
    const G g = traits::lie<G>::exp(xt);
    const Tangent<G> u = pid(t, g, v);
    const Tangent<G> r = ref.u(t, g, v, gd, vd, ad);
    eq<G>(u, r, "control input is not the documented sum");
  }
  sx_cover("done");
}
// desired trajectories: the functor gets the time of the call; a spline is evaluated relative to its start
template<class T, class G>
void traj()
{
  PID<T, G> pid;
  Ref<T, G> ref;
  const T t0 = Tm<T>::get(0), t = Tm<T>::get(1);
  const Tangent<G> x = tan_<G>("x", 0, 2), v = tan_<G>("v", 0), s = tan_<G>("s", 0, 2), sv = tan_<G>("sv", 0, 2);
  const G g = traits::lie<G>::exp(x);
  const int mode = sx_param("mode", 0);
  const double el = Tm<T>::sec(t - t0);
  if (mode < 2) {
    Spline<3, G> sp{traits::lie<G>::exp(s), sv};
    if (mode) pid.set_xdes(t0, sp); else pid.set_xdes(t0, Spline<3, G>(sp));
    sp.v.setZero();
    const Tangent<G> u = pid(t, g, v);
    eq<G>(u, ref.u(t, g, v, rplus(traits::lie<G>::exp(s), (el * sv).eval()), sv, Tangent<G>::Zero()), "spline is not evaluated at the time since its start");
  } else {
    pid.set_xdes([&](T tt) { return std::tuple<G, Tangent<G>, Tangent<G>>(rplus(Default<G>(), (Tm<T>::sec(tt - t0) * s).eval()), sv * Tm<T>::sec(tt - t0), sv); });
    const Tangent<G> u = pid(t, g, v);
    eq<G>(u, ref.u(t, g, v, rplus(Default<G>(), (el * s).eval()), sv * el, sv), "desired trajectory is not evaluated at the time of the call");
  }
  sx_cover("done");
}
using R1 = Eigen::Matrix<double, 1, 1>;
using R2 = Eigen::Vector2d;
using H  = Heis<double>;
using En = Engel<double>;
using SD = ch::duration<double>;
using TP = ch::steady_clock::time_point;
extern "C" {
void h1() { hist<double, R1>(); }
void h2() { hist<double, R2>(); }
void hh() { hist<double, H>(); }
void he() { hist<double, En>(); }
void hsd() { hist<SD, R1>(); }
void htp() { hist<TP, R1>(); }
void t2() { traj<double, R2>(); }
void th() { traj<double, H>(); }
void tsd() { traj<SD, R1>(); }
void ttp() { traj<TP, H>(); }
}
