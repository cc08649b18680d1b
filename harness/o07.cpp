// O07: the derivative tester
#include "quiet.h"
#include "ocp_group.h"
#include <cstdlib>
// every point, or (to tell apart the arguments of the functions) a concrete sequence of points
static unsigned lcg = 1;
extern "C" int rand() noexcept { return sx_param("rnd", 0) ? int((lcg = lcg * 1103515245u + 12345u) >> 1) : sx_int("rand", 0, RAND_MAX); }
#include <smooth/feedback/ocp.hpp>
using namespace smooth;
using namespace smooth::feedback;
// where the claimed derivative is wrong: 0 nowhere, 1 + 2 * function + order - 1
static int where = 0, pos = 0, later = 0;
static double err = 0;
static bool active = false;
static int calls[10];

template<int id, int nf, bool H2, class... A> struct Tested
{
  static constexpr int n = (int(Dof<A>) + ...);
  double first = 0;
  bool seen = false;
  static Eigen::Matrix<double, n, 1> z(const A &... a)
  {
    Eigen::Matrix<double, n, 1> r;
    int o = 0;
    auto put = [&](const auto & x) {
      if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) r(o++) = x;
      else { const auto c = coords(x); for (int i = 0; i < c.size(); ++i) r(o++) = c(i); }
    };
    (put(a), ...);
    return r;
  }
  auto operator()(const A &...) const { if constexpr (id == 0) return 0.; else return Eigen::Matrix<double, nf, 1>(Eigen::Matrix<double, nf, 1>::Zero()); }
  Eigen::MatrixXd J(const A &... a) const
  {
    Eigen::MatrixXd r(nf, n);
    for (int k = 0; k < nf; ++k) for (int j = 0; j < n; ++j) r(k, j) = 0.25 * (1 + (id + k + 2 * j) % 5);
    // the point takes part
    const int c = sx_param("coord", -1);
    const auto x = z(a...);
    if (c >= 0) r(0, 0) = x(c % n);
    if (sx_param("rnd", 0)) for (int j = 0; j < n; ++j) r(0, 0) += x(j) / (1 + j);
    return r;
  }
  Eigen::MatrixXd Hs(const A &... a) const
  {
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(n, n * nf);
    for (int k = 0; k < nf; ++k) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i)
      if ((i + j + k) % 2 == 0) r(i, k * n + j) = 0.5 * (1 + (id + k) % 3);
    // the point takes part
    const int c = sx_param("coord", -1);
    const auto x = z(a...);
    if (c >= 0) r(0, 0) = x(c % n);
    if (sx_param("rnd", 0)) for (int j = 0; j < n; ++j) r(0, 0) += x(j) / (1 + j);
    return r;
  }
  Eigen::SparseMatrix<double> wrong(Eigen::MatrixXd r, int what, double t)
  {
    ++calls[what - 1];
    if (!seen) { first = t; seen = true; }
    if (where == what && (!later || (t != first) == (later == 1))) {
      active = true;
      const int at = pos == 0 ? 0 : pos == 1 ? int(r.size()) - 1 : int(r.size()) / 2;
      r(at % r.rows(), at / r.rows()) += err;
    }
    return r.sparseView();
  }
  static double front(const A &... a) { return std::get<0>(std::tie(a...)); }
  Eigen::SparseMatrix<double> jacobian(const A &... a) { return wrong(J(a...), 1 + 2 * id, front(a...)); }
  Eigen::SparseMatrix<double> hessian(const A &... a) requires(H2) { return wrong(Hs(a...), 2 + 2 * id, front(a...)); }
  Eigen::MatrixXd num_jacobian(const A &... a) const { return J(a...); }
  Eigen::MatrixXd num_hessian(const A &... a) const { return Hs(a...); }
};
template<class X, class U, int nq, int ncr, int nce, bool H2> void tester()
{
  using Q = Eigen::Matrix<double, nq, 1>;
  using Th = Tested<0, 1, H2, double, X, X, Q>; using F = Tested<1, int(Dof<X>), H2, double, X, U>; using G = Tested<2, nq, H2, double, X, U>;
  using CR = Tested<3, ncr, H2, double, X, U>; using CE = Tested<4, nce, H2, double, X, X, Q>;
  OCP<X, U, Th, F, G, CR, CE> ocp{};
  const int trials = sx_param("trials", 1);
  later  = sx_param("later", 0);
  where  = sx_choose("where", 11);
  if (!H2 && where && where % 2 == 0) sx_stop();  // no second derivative to be wrong
  pos    = where ? sx_choose("pos", 3) : 0;
  active = false;
  lcg = sx_param("rnd", 0);
  for (int & c : calls) c = 0;
  if (sx_param("nan", 0)) err = std::numeric_limits<double>::quiet_NaN();
  else if (sx_param("coord", -1) >= 0) err = 0.5;
  else {
    err = sx_real("err", -4, 4);
    if (sx_param("small", 0)) sx_assume(err > -0.00005 && err < 0.00005 && err != 0);
    else { const double least = sx_param("eps", 0) ? 0.125 : 0.015625; sx_assume(err < -least || err > least); }
  }
  const bool ok = sx_param("small", 0) ? test_ocp_derivatives(ocp, trials, 0.0001) : sx_param("eps", 0) ? test_ocp_derivatives(ocp, trials, 0.03125) : test_ocp_derivatives(ocp, trials);
  if (sx_param("small", 0)) sx_check(ok, "derivatives within tolerance accepted");
  else sx_check(ok == !active, active ? "wrong derivative rejected" : "correct derivatives accepted");
  for (int i = 0; i < 10; ++i) if (H2 || i % 2 == 0) sx_check(calls[i] >= trials, "every derivative examined in every trial");
  sx_cover(ok ? "accepted" : "rejected");
}
extern "C" {
void t11() { tester<Vd1, Vd1, 1, 1, 1, true>(); }
void t21() { tester<Vd2, Vd1, 1, 2, 2, true>(); }
void th2() { tester<HeisD, Vd2, 2, 1, 3, true>(); }
void t12j() { tester<Vd1, Vd2, 2, 1, 1, false>(); }
}
