// E01: EKF prediction, E02: EKF update
#include "sx.h"
#include <smooth/feedback/ekf.hpp>
#include <string>
#include <vector>
using namespace smooth;
using namespace smooth::feedback;
namespace od = boost::numeric::odeint;

static double sym(const char * p, int i, int j, double b = 4) { return sx_real((std::string(p) + std::to_string(i) + std::to_string(j)).c_str(), -b, b); }
template<class G> Tangent<G> tan_(const char * p, double b = 2)
{
  Tangent<G> r;
  for (int i = 0; i < Dof<G>; ++i) r(i) = sym(p, i, 0, b);
  return r;
}
template<int N> using Mat = Eigen::Matrix<double, N, N>;
// full: independent lower triangle
template<int N> Mat<N> mat(const char * p, bool full, double b = 4)
{
  Mat<N> r;
  for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) {
    r(i, j) = sym(p, i, j, b);
    r(j, i) = full && i != j ? sym((std::string(p) + "low").c_str(), j, i, b) : r(i, j);
  }
  return r;
}
template<class G> G elem(const char * p) { return traits::lie<G>::exp(tan_<G>(p)); }
template<int N> void same(const Mat<N> & a, const Mat<N> & b, const char * m, double tol = 1e-9)
{
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) sx_check_eq(a(i, j), b(i, j), tol, m);
}
template<class G> void samev(const Tangent<G> & a, const Tangent<G> & b, const char * m, double tol = 1e-9)
{
  for (int i = 0; i < Dof<G>; ++i) sx_check_eq(a(i), b(i), tol, m);
}
// dynamics f(t, x) = c0 + t c1 + C x + (x_0 x_{n-1}) c2; calls with plain doubles are recorded
template<class G> struct Rec { std::vector<double> t; std::vector<G> x; };
template<class G>
struct Dyn
{
  Tangent<G> c0, c1, c2;
  TangentMap<G> C;
  static auto vec(const auto & x) { if constexpr (requires { x.c; }) return x.c; else return x; }
  template<class S, class GS> Eigen::Matrix<S, Dof<G>, 1> val(double t, const GS & x) const
  {
    constexpr int n = Dof<G>;
    const Eigen::Matrix<S, n, 1> v = vec(x);
    Eigen::Matrix<S, n, 1> r;
    for (int i = 0; i < n; ++i) {
      S a = S(c0(i)) + S(t * c1(i)) + v(0) * v(n - 1) * S(c2(i));
      for (int j = 0; j < n; ++j) a = a + S(C(i, j)) * v(j);
      r(i) = a;
    }
    return r;
  }
};
template<class G> Dyn<G> dyn(bool nl)
{
  constexpr int n = Dof<G>;
  Dyn<G> d;
  d.c0 = tan_<G>("c"); d.c1 = tan_<G>("d");
  for (int i = 0; i < n; ++i) { d.c2(i) = nl && i == 0 ? sym("e", 0, 0) : 0; for (int j = 0; j < n; ++j) d.C(i, j) = sx_param("cc", 0) ? (i + 1.) / (j + 2) : sym("C", i, j, 2); }
  return d;
}
// derivative of f(t, x exp(a)) at a = 0, from the definition of the group operation
template<class G> TangentMap<G> jac(const Dyn<G> & d, double t, const G & x)
{
  constexpr int n = Dof<G>;
  using S = Dual<n>;
  Eigen::Matrix<S, n, 1> a;
  for (int i = 0; i < n; ++i) { a(i) = S(0.); a(i).d[i] = 1; }
  const auto f = d.template val<S>(t, traits::man<CastT<S, G>>::rplus(traits::man<G>::template cast<S>(x), a));
  TangentMap<G> r;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = f(i).d[j];
  return r;
}
template<int N> Mat<N> up(const Mat<N> & a) { Mat<N> r; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) r(i, j) = i <= j ? a(i, j) : a(j, i); return r; }
// Euler: mean and covariance of every step
template<class G>
void euler()
{
  constexpr int n = Dof<G>;
  EKF<G> ekf;
  const G g0 = elem<G>("g");
  const Mat<n> P0 = mat<n>("P", false), Q = mat<n>("Q", true);
  const Dyn<G> d = dyn<G>(sx_param("nl", 0));
  ekf.reset(g0, P0);
  const int steps = sx_param("steps", 1);
  const double tau = sx_real("tau", 1. / 64, 4);
  std::optional<double> dt;
  if (sx_param("dt", 0)) {
    const double v = sx_real("dt", 1. / 64, 8);
    sx_assume((v * steps >= tau) & (v * (steps - 1) < tau));
    dt = v;
  }
  Rec<G> rec;
  const auto f = [&]<class GS>(double t, const GS & x) {
    using S = Scalar<GS>;
    if constexpr (std::is_same_v<S, double>) { rec.t.push_back(t); rec.x.push_back(x); }
    return d.template val<S>(t, x);
  };
  ekf.predict(f, Q, tau, dt);
  // reference
  G g = g0;
  Mat<n> P = P0;
  double t = 0;
  const Mat<n> Qs = up<n>(Q);
  for (int k = 0; k < steps; ++k) {
    const double h = k + 1 < steps ? *dt : tau - t;
    sx_check_le(h, dt ? *dt : tau, 0, "step is longer than the maximum");
    const Tangent<G> fv = d.template val<double>(t, g);
    const Mat<n> A = jac<G>(d, t, g) - traits::lie<G>::ad(fv);
    P = (P + h * (A * P + P * A.transpose() + Qs)).eval();
    g = rplus(g, (h * fv).eval());
    t += h;
  }
  sx_check_eq(t, tau, 1e-12, "prediction does not cover the time span");
  const Mat<n> Pe = ekf.covariance();
  same<n>(Pe, Pe.transpose(), "covariance is not symmetric");
  same<n>(Pe, P, "covariance is not P + tau (A P + P A' + Q)");
  samev<G>(rminus(ekf.estimate(), g), Tangent<G>::Zero(), "mean is not propagated along the dynamics");
  for (double s : rec.t) { sx_check_le(0, s, 0, "dynamics evaluated before the interval"); sx_check_le(s, tau, 0, "dynamics evaluated after the interval"); }
  sx_cover("done");
}
// any stepper: exact for a linear time-dependent state without covariance coupling, symmetric covariance, right times
template<class G, template<class...> class St>
void step()
{
  constexpr int n = Dof<G>;
  EKF<G, diff::Type::Default, St> ekf;
  const G g0 = elem<G>("g");
  const Mat<n> P0 = mat<n>("P", false), Q = mat<n>("Q", true);
  Dyn<G> d = dyn<G>(false);
  d.C.setZero();
  if (sx_param("const", 0)) d.c1.setZero();
  ekf.reset(g0, P0);
  const int steps = sx_param("steps", 1);
  const double tau = sx_real("tau", 1. / 64, 4);
  std::optional<double> dt;
  if (steps > 1) { const double v = sx_real("dt", 1. / 64, 8); sx_assume((v * steps >= tau) & (v * (steps - 1) < tau)); dt = v; }
  std::vector<double> ts;
  const auto f = [&]<class GS>(double t, const GS & x) { using S = Scalar<GS>; if constexpr (std::is_same_v<S, double>) ts.push_back(t); return d.template val<S>(t, x); };
  ekf.predict(f, Q, tau, dt);
  const Mat<n> Pe = ekf.covariance();
  same<n>(Pe, Pe.transpose(), "covariance is not symmetric");
  for (double s : ts) { sx_check_le(0, s, 1e-12, "dynamics evaluated before the interval"); sx_check_le(s, tau, 1e-12, "dynamics evaluated after the interval"); }
  if (Dof<G> < 3) {
    samev<G>(rminus(ekf.estimate(), g0), tau * d.c0 + tau * tau / 2 * d.c1, "mean is not the solution of the dynamics");
    same<n>(Pe, P0 + tau * up<n>(Q), "covariance is not P + tau Q");
  } else {
    samev<G>(rminus(ekf.estimate(), rplus(g0, (tau * d.c0).eval())), Tangent<G>::Zero(), "mean is not the solution of the dynamics");
  }
  sx_cover("done");
}
// zero time changes nothing
template<class G>
void zero()
{
  constexpr int n = Dof<G>;
  EKF<G> ekf;
  const G g0 = elem<G>("g");
  const Mat<n> P0 = mat<n>("P", false), Q = mat<n>("Q", true);
  const Dyn<G> d = dyn<G>(true);
  ekf.reset(g0, P0);
  std::optional<double> dt;
  if (sx_param("dt", 0)) dt = sx_real("dt", 1. / 64, 8);
  ekf.predict([&]<class GS>(double t, const GS & x) { return d.template val<Scalar<GS>>(t, x); }, Q, 0., dt);
  same<n>(ekf.covariance(), P0, "zero time changes the covariance");
  samev<G>(rminus(ekf.estimate(), g0), Tangent<G>::Zero(), "zero time changes the mean");
}
// update: h(x) = b + B log(x)
template<class G, int M>
void upd()
{
  constexpr int n = Dof<G>;
  EKF<G> ekf;
  // P = L L' with L lower triangular and unit-ish diagonal, so that P is positive definite
  Mat<n> L = Mat<n>::Zero();
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) L(i, j) = sx_param("cl", 0) ? (i == j ? 1 + i : 0.5) : i == j ? sx_real(("L" + std::to_string(i)).c_str(), 1. / 4, 2) : sx_param("diag", 0) ? 0 : sym("L", i, j, 2);
  const Mat<n> P0 = sx_param("sq", 1) ? Mat<n>(L * L.transpose()) : L;
  Tangent<G> gt;
  for (int i = 0; i < n; ++i) gt(i) = i + 0.5;
  const G g0 = sx_param("cg", 0) ? traits::lie<G>::exp(gt) : elem<G>("g");
  ekf.reset(g0, P0);
  Eigen::Matrix<double, M, n> B;
  Eigen::Matrix<double, M, 1> b, y;
  for (int i = 0; i < M; ++i) { b(i) = sym("b", i, 0); for (int j = 0; j < n; ++j) B(i, j) = sx_param("cb", 0) ? (i == j) + 0.5 * (i + 1 == j) : sym("B", i, j, 2); }
  // R positive definite; its strictly lower triangle is arbitrary
  Mat<M> R = mat<M>("R", true, 1);
  if (sx_param("cr", 0)) for (int i = 0; i < M; ++i) for (int j = i; j < M; ++j) R(i, j) = i == j ? 2 + i : 0.5;
  else for (int i = 0; i < M; ++i) R(i, i) = sx_real(("r" + std::to_string(i)).c_str(), 2, 4);
  const Mat<M> Rs = up<M>(R);
  const bool fix = sx_param("fix", 0);
  const auto h = [&]<class GS>(const GS & x) {
    using S = Scalar<GS>;
    const Eigen::Matrix<S, n, 1> v = Dyn<G>::vec(x);
    Eigen::Matrix<S, M, 1> r;
    for (int i = 0; i < M; ++i) { S a = S(b(i)); for (int j = 0; j < n; ++j) a = a + S(B(i, j)) * v(j); r(i) = a; }
    return r;
  };
  const Eigen::Matrix<double, M, 1> h0 = h(g0);
  for (int i = 0; i < M; ++i) y(i) = fix ? h0(i) : sym("y", i, 0);
  ekf.update(h, y, R);
  // H: derivative along the group
  Eigen::Matrix<double, M, n> H;
  {
    using S = Dual<n>;
    Eigen::Matrix<S, n, 1> a;
    for (int i = 0; i < n; ++i) { a(i) = S(0.); a(i).d[i] = 1; }
    const auto f = h(traits::man<CastT<S, G>>::rplus(traits::man<G>::template cast<S>(g0), a));
    for (int i = 0; i < M; ++i) for (int j = 0; j < n; ++j) H(i, j) = f(i).d[j];
  }
  const Mat<n> P = ekf.covariance();
  const Tangent<G> dx = rminus(ekf.estimate(), g0);
  same<n>(P, P.transpose(), "covariance is not symmetric");
  if (fix) { samev<G>(dx, Tangent<G>::Zero(), "a measurement equal to its prediction moves the mean"); return; }
  // gain equation without inverses: P+ H' = K R and K S = P H', P+ = P - K S K'
  const Mat<M> S = H * P0 * H.transpose() + Rs;
  // adjugate-based inverse, M <= 2
  Mat<M> Si;
  if constexpr (M == 1) Si(0, 0) = 1 / S(0, 0);
  else {
    const double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
    Si << S(1, 1) / det, -S(0, 1) / det, -S(1, 0) / det, S(0, 0) / det;
  }
  const Eigen::Matrix<double, n, M> K = P0 * H.transpose() * Si;
  same<n>(P, P0 - K * H * P0, "covariance is not the Bayesian one", 1e-6);
  samev<G>(dx, K * (y - h0), "mean is not the Bayesian one", 1e-6);
  for (int i = 0; i < n; ++i) sx_check_le(P(i, i), P0(i, i), 1e-6, "the covariance grows");
  sx_cover("done");
}
using R1 = Eigen::Matrix<double, 1, 1>;
using R2 = Eigen::Vector2d;
using H  = Heis<double>;
extern "C" {
void eu1() { euler<R1>(); }
void eu2() { euler<R2>(); }
void euh() { euler<H>(); }
void eue() { euler<Engel<double>>(); }
void r1() { step<R1, od::runge_kutta4>(); }
void r2() { step<R2, od::runge_kutta4>(); }
void rh() { step<H, od::runge_kutta4>(); }
void z2() { zero<R2>(); }
void zh() { zero<H>(); }
void u11() { upd<R1, 1>(); }
void u21() { upd<R2, 1>(); }
void u12() { upd<R1, 2>(); }
void u22() { upd<R2, 2>(); }
void uh1() { upd<H, 1>(); }
void uh2() { upd<H, 2>(); }
}
