// A01: quadratic program of the safety filter, A02: the filter
#include "ocp_group.h"
#include <smooth/feedback/qp.hpp>
#if KIND < 10
// the solver is replaced by one that records what it is given and returns an arbitrary solution
#define solve_qp real_solve_qp
#include <smooth/feedback/qp_solver.hpp>
#undef solve_qp
namespace smooth::feedback {
struct Handed
{
  QuadraticProgram<-1, -1, double> qp;
  bool warm = false;
  QPSolution<-1, -1, double> ws, sol;
  QPSolverParams prm;
  int code = 0, n = 0;
};
static Handed handed;
static QPSolution<-1, -1, double> solve_qp(const QuadraticProgram<-1, -1, double> & pbm, const QPSolverParams & prm, std::optional<std::reference_wrapper<const QPSolution<-1, -1, double>>> ws = {})
{
  handed.qp = pbm;
  handed.prm = prm;
  handed.warm = ws.has_value();
  if (ws) handed.ws = *ws;
  const std::string s = std::to_string(handed.n++);
  QPSolution<-1, -1, double> sol;
  sol.primal.resize(pbm.A.cols());
  sol.dual.resize(pbm.A.rows());
  for (int i = 0; i < sol.primal.size(); ++i) sol.primal(i) = sx_real(nm(("p" + s + "_").c_str(), i).c_str(), -2, 2);
  for (int i = 0; i < sol.dual.size(); ++i) sol.dual(i) = sx_real(nm(("y" + s + "_").c_str(), i).c_str(), -2, 2);
  const QPSolutionStatus st[] = {QPSolutionStatus::Optimal, QPSolutionStatus::MaxTime, QPSolutionStatus::MaxIterations, QPSolutionStatus::PrimalInfeasible, QPSolutionStatus::DualInfeasible, QPSolutionStatus::Unknown, QPSolutionStatus::PolishFailed};
  handed.code = sx_param("codes", 0) ? sx_choose(("code" + s).c_str(), 7) : 0;
  sol.code = st[handed.code];
  handed.sol = sol;
  return sol;
}
}  // namespace smooth::feedback
#endif
#include <smooth/feedback/asif.hpp>
using namespace smooth::feedback;
using namespace smooth;

template<class X, class U> struct Sys  // f(x, u), templated on the scalar
{
  static constexpr int nx = Dof<X>, nu = Dof<U>, n = nx + nu;
  Poly<n, nx, true> p;
  template<class XS, class US> auto operator()(const XS & x, const US & u) const
  {
    using S = std::decay_t<decltype(coords(x)(0) * coords(u)(0))>;
    Eigen::Matrix<S, n, 1> z;
    for (int i = 0; i < nx; ++i) z(i) = coords(x)(i);
    for (int i = 0; i < nu; ++i) z(nx + i) = coords(u)(i);
    return p.value(z);
  }
};
template<class X, int nf, bool Sp = true> struct Tx  // polynomial of (t, x)
{
  static constexpr int nx = Dof<X>, n = 1 + nx;
  Poly<n, nf, Sp> p;
  template<class S, class XS> auto operator()(const S & t, const XS & x) const
  {
    Eigen::Matrix<std::decay_t<decltype(coords(x)(0) * t)>, n, 1> z;
    z(0) = t;
    for (int i = 0; i < nx; ++i) z(1 + i) = coords(x)(i);
    return p.value(z);
  }
};
template<class X, class U, int nh, int nineq> struct T
{
  static constexpr int nx = Dof<X>, nu = Dof<U>;
  using E = Tangent<X>; using V = Tangent<U>;
  Sys<X, U> f;
  Tx<X, nh> h;
  Tx<X, nu> bu;
  ASIFProblem<X, U> pbm;
  ASIFtoQPParams prm;
  T()
  {
    const int s = sx_param("seed", 1);
    f.p.seed = s; h.p.seed = s + 1; bu.p.seed = s + 2;
    f.p.deg = sx_param("df", 2); h.p.deg = sx_param("dh", 2); bu.p.deg = sx_param("db", 1);
    prm.K = sx_param("K", 2);
    params();
    problem("");
  }
  void params()
  {
    prm.alpha = sx_real("alpha", 0.125, 4);
    const bool conc = KIND >= 10;
    prm.relax_cost = conc ? 16 : sx_real("relax", 0.125, 100);
    pbm.T = sx_param("fixT", 0) ? 0.75 : sx_real("T", 0.25, 4);
    // at most sub steps between two look-ahead times
    const int sub = sx_param("sub", 1);
    if (sx_param("dtn", 0)) prm.dt = sx_param("dtn", 0) / 64.;
    else {
      prm.dt = sx_real("dt", 0.015625, 8);
      sx_assume(prm.dt * sub * double(prm.K) >= pbm.T);
    }
    for (int i = 0; i < nu; ++i) pbm.W_u(i) = conc ? 1 + 0.5 * i : sx_real(nm("W", i).c_str(), 0.125, 4);
    pbm.ulim.A.resize(nineq, nu);
    pbm.ulim.l.resize(nineq);
    pbm.ulim.u.resize(nineq);
    for (int i = 0; i < nineq; ++i) {
      for (int j = 0; j < nu; ++j) pbm.ulim.A(i, j) = conc ? (i == j ? 1 : -0.5) : sx_real(nm("B", i, j).c_str(), -2, 2);
      pbm.ulim.l(i) = sx_real(nm("bl", i).c_str(), -4, 0);
      pbm.ulim.u(i) = sx_real(nm("bu", i).c_str(), 0, 4);
    }
    if (nineq && sx_param("inf", 0)) pbm.ulim.u(0) = std::numeric_limits<double>::infinity();
    pbm.ulim.c = tangent<U>("bc");
  }
  void problem(const std::string & p)
  {
    E x = tangent<X>((p + "x").c_str(), 2);
    if (sx_param("few", 0)) for (int i = 1; i < nx; ++i) x(i) = 0.25 * i;
    pbm.x0 = from_coords<X>(x);
    pbm.u_des = tangent<U>((p + "ud").c_str(), 2);
  }
  void compare(const QuadraticProgram<-1, -1, double> & qp)
  {
    const int K = prm.K, m = K * nh + nineq + 1, n = nu + 1;
    sx_check(qp.A.rows() == m && qp.A.cols() == n && qp.l.size() == m && qp.u.size() == m && qp.P.rows() == n && qp.P.cols() == n && qp.q.size() == n, "sizes");
    const double inf = std::numeric_limits<double>::infinity();
    X x = pbm.x0;
    Eigen::Matrix<double, nx, nx> S = Eigen::Matrix<double, nx, nx>::Identity();
    const auto [f0, df0] = diff::dr<1>([&](const auto & u) { return f(smooth::cast<std::decay_t<decltype(u(0))>>(pbm.x0), u); }, wrt(pbm.u_des));
    const double tau = pbm.T / K;
    double t = 0;
    for (int k = 0; k < K; ++k) {
      sx_check_eq(t, tau * k, 1e-12, "look-ahead time");
      const auto [hv, dh] = diff::dr<1>(h, wrt(t, x));
      const Eigen::Matrix<double, nh, nx> dh0 = dh.template rightCols<nx>() * S;
      for (int i = 0; i < nh; ++i) {
        const int r = nh * k + i;
        double l = -dh(i, 0) - prm.alpha * hv(i);
        for (int c = 0; c < nx; ++c) l -= dh0(i, c) * f0(c);
        for (int j = 0; j < nu; ++j) {
          double a = 0;
          for (int c = 0; c < nx; ++c) a += dh0(i, c) * df0(c, j);
          sx_check_eq(qp.A(r, j), a, 1e-8, "barrier row");
        }
        sx_check_eq(qp.A(r, nu), 1, 0, "slack");
        sx_check_eq(qp.l(r), l, 1e-8, "barrier bound");
        sx_check(qp.u(r) == inf, "barrier without upper bound");
      }
      // simulate to the next look-ahead time
      while (t < tau * (k + 1)) {
        const double d = std::min(prm.dt, tau * (k + 1) - t);
        const auto [v, J] = diff::dr<1>([&](const auto & xx) { return f(xx, bu(t, xx)); }, wrt(x));
        S = (S + d * (J - smooth::ad<X>(E(v))) * S).eval();
        x = rplus(x, E(d * v));
        t = t + d;
      }
    }
    const V e = pbm.u_des - pbm.ulim.c;
    for (int i = 0; i < nineq; ++i) {
      const int r = K * nh + i;
      double b = 0;
      for (int j = 0; j < nu; ++j) {
        sx_check_eq(qp.A(r, j), pbm.ulim.A(i, j), 0, "input bound row");
        b += pbm.ulim.A(i, j) * e(j);
      }
      sx_check_eq(qp.A(r, nu), 0, 0, "no slack in input bounds");
      sx_check_eq(qp.l(r), pbm.ulim.l(i) - b, 1e-9, "input bound");
      if (std::isinf(pbm.ulim.u(i))) sx_check(qp.u(r) == inf, "infinite input bound");
      else sx_check_eq(qp.u(r), pbm.ulim.u(i) - b, 1e-9, "input bound");
    }
    for (int j = 0; j < n; ++j) {
      sx_check_eq(qp.A(m - 1, j), j == nu, 0, "row of the slack");
      sx_check_eq(qp.q(j), 0, 0, "no linear cost");
      for (int i = 0; i <= j; ++i) sx_check_eq(qp.P(i, j), i != j ? 0 : j < nu ? pbm.W_u(j) : prm.relax_cost, 0, "cost");
    }
    sx_check(qp.l(m - 1) == 0 && qp.u(m - 1) == inf, "slack is not negative");
  }
  void full() { compare(asif_to_qp<X, U>(pbm, prm, f, h, bu)); sx_cover("ok"); }
  // sensitivity is the derivative of the simulated state (vectors)
  void sens()
  {
    const auto qp = asif_to_qp<X, U>(pbm, prm, f, h, bu);
    if constexpr (RnType<X>) {
      const int K = prm.K;
      const double tau = pbm.T / K;
      const auto [f0, df0] = diff::dr<1>([&](const auto & u) { return f(smooth::cast<std::decay_t<decltype(u(0))>>(pbm.x0), u); }, wrt(pbm.u_des));
      X x0 = pbm.x0;
      // barrier at the k'th look-ahead time of the simulation from x
      const auto at = [&](X x, int k) {
        double t = 0;
        for (int i = 0; i < k; ++i) {
          while (t < tau * (i + 1)) {
            const double d = std::min(prm.dt, tau * (i + 1) - t);
            x = (x + d * f(x, bu(t, x))).eval();
            t = t + d;
          }
        }
        return h(t, x);
      };
      for (int k = 0; k < K; ++k) {
        const auto hv = at(x0, k);
        for (int i = 0; i < nh; ++i) for (int j = 0; j < nu; ++j) {
          double a = 0;
          for (int c = 0; c < nx; ++c) a += (sx_symbolic() ? sx_partial_(hv(i), x0(c)) : sx_partial([&](const X & x) { return at(x, k)(i); }, x0, c)) * df0(c, j);
          sx_check_eq(qp.A(nh * k + i, j), a, sx_ptol(), "barrier row is the derivative along the simulated path");
        }
      }
    }
    sx_cover("ok");
  }
#if KIND < 10
  void filter()
  {
    handed.n = 0;
    ASIFilterParams<U> fp;
    fp.T = pbm.T;
    fp.nh = nh;
    fp.u_weight = pbm.W_u;
    fp.ulim = pbm.ulim;
    fp.asif = prm;
    fp.qp.max_iter = 17;
    fp.qp.alpha = 1.25;
    ASIFilter<X, U, Sys<X, U>> flt(f, fp);
    bool have = false;
    QPSolution<-1, -1, double> last;
    for (int c = 0; c <= sx_param("calls", 1); ++c) {
      if (c) {
        problem(c == 1 ? "b" : "c");
        if (sx_param("other", 0)) { h.p.seed += 5; bu.p.seed += 7; }
      }
      const auto [u, code] = flt(pbm.x0, pbm.u_des, h, bu);
      compare(handed.qp);
      sx_check(handed.prm.max_iter == 17, "solver parameters");
      sx_check_same(handed.prm.alpha, 1.25, "solver parameters");
      sx_check(!handed.warm || have, "warm start only from an earlier call");
      if (handed.warm) {
        for (int i = 0; i < last.primal.size(); ++i) sx_check_same(handed.ws.primal(i), last.primal(i), "warm start is the last optimal solution");
        for (int i = 0; i < last.dual.size(); ++i) sx_check_same(handed.ws.dual(i), last.dual(i), "warm start is the last optimal solution");
      }
      sx_check(code == handed.sol.code, "exit code");
      for (int j = 0; j < nu; ++j) sx_check_eq(u(j), pbm.u_des(j) + handed.sol.primal(j), 1e-12, "desired input plus deviation");
      if (handed.code == 0) { last = handed.sol; have = true; }
      else if (handed.code != 3 && handed.code != 4 && handed.code != 5) sx_stop();
    }
    sx_cover("ok");
  }
#else
  // the real solver: an input that satisfies everything is returned unchanged
  void safe()
  {
    ASIFilterParams<U> fp;
    fp.T = pbm.T;
    fp.nh = nh;
    fp.u_weight = pbm.W_u;
    fp.ulim = pbm.ulim;
    fp.asif = prm;
    fp.qp.max_iter = 1 + sx_param("iter", 0);
    fp.qp.stop_check_iter = 1;
    fp.qp.scaling = sx_param("scal", 0);
    fp.qp.polish = sx_param("pol", 0);
    ASIFilter<X, U, Sys<X, U>> flt(f, fp);
    const auto qp = asif_to_qp<X, U>(pbm, prm, f, h, bu);
    for (int i = 0; i < qp.l.size(); ++i) sx_assume(qp.l(i) <= 0 && qp.u(i) >= 0);
    for (int c = 0; c <= sx_param("calls", 0); ++c) {
      const auto [u, code] = flt(pbm.x0, pbm.u_des, h, bu);
      sx_check(code == QPSolutionStatus::Optimal, "optimal");
      for (int j = 0; j < nu; ++j) sx_check_eq(u(j), pbm.u_des(j), 1e-9, "safe input is returned unchanged");
    }
    sx_cover("ok");
  }
#endif
};
#define ENTRY(name, ...) \
  extern "C" void q##name() { T<__VA_ARGS__>{}.full(); } \
  extern "C" void s##name() { T<__VA_ARGS__>{}.sens(); }
#if KIND < 10
#define ENTRY2(name, ...) extern "C" void f##name() { T<__VA_ARGS__>{}.filter(); }
#else
#define ENTRY2(name, ...) extern "C" void g##name() { T<__VA_ARGS__>{}.safe(); }
#endif
#define ENTRIES(name, ...) ENTRY(name, __VA_ARGS__) ENTRY2(name, __VA_ARGS__)
#if KIND == 0 || KIND == 10
ENTRIES(11, Vd1, Vd1, 1, 1)
ENTRIES(21, Vd2, Vd1, 2, 2)
ENTRIES(12, Vd1, Vd2, 1, 0)
#else
ENTRIES(h1, HeisD, Vd1, 1, 1)
ENTRIES(h2, HeisD, Vd2, 2, 2)
#endif
