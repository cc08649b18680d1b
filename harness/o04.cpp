// O04: flattening an optimal control problem around a trajectory
#include "ocp_group.h"
#include <smooth/feedback/ocp_flatten.hpp>
using namespace smooth::feedback;

template<class X, class U, int nq, int ncr, int nce, bool Sp> struct T
{
  static constexpr int nx = smooth::Dof<X>, nu = smooth::Dof<U>, ni = 1 + nx + nu, ne = 1 + 2 * nx + nq;
  using Ocp = OCP<X, U, GEnd<X, nq, 1, Sp, true>, GFn<X, U, nx, Sp>, GFn<X, U, nq, Sp>, GFn<X, U, ncr, Sp>, GEnd<X, nq, nce, Sp>>;
  using E = smooth::Tangent<X>; using V = smooth::Tangent<U>; using Q = Eigen::Matrix<double, nq, 1>;
  Ocp o;
  Traj<X> xl;
  Traj<U> ul;
  bool bent;
  T()
  {
    const int s = sx_param("seed", 1), d = sx_param("deg", 2);
    o.theta.g.p.seed = s; o.f.g.p.seed = s + 1; o.g.g.p.seed = s + 2; o.cr.g.p.seed = s + 3; o.ce.g.p.seed = s + 4;
    o.theta.g.p.deg = o.f.g.p.deg = o.g.g.p.deg = o.cr.g.p.deg = o.ce.g.p.deg = d;
    for (int i = 0; i < ncr; ++i) { o.crl(i) = sx_real(nm("crl", i).c_str(), -4, 0); o.cru(i) = sx_real(nm("cru", i).c_str(), 0, 4); }
    for (int i = 0; i < nce; ++i) { o.cel(i) = sx_real(nm("cel", i).c_str(), -4, 0); o.ceu(i) = sx_real(nm("ceu", i).c_str(), 0, 4); }
    bent = sx_param("bent", 0);
    xl.g = sx_param("fix", 0) ? E(E::Constant(0.5)) : tangent<X>("xg");
    xl.v = sx_param("few", 0) ? E(E::Constant(0.25)) : tangent<X>("xv");
    ul.g = tangent<U>("ug"); ul.v = tangent<U>("uv");
    if (bent) { xl.w = tangent<X>("xw"); ul.w = tangent<U>("uw"); }
  }
  static Eigen::Matrix<double, ni, 1> iz(double t, const E & e, const V & v) { Eigen::Matrix<double, ni, 1> z; z << t, e, v; return z; }
  static Eigen::Matrix<double, ne, 1> ez(double t, const E & e, const E & f, const Q & q) { Eigen::Matrix<double, ne, 1> z; z << t, e, f, q; return z; }
  // Jacobian and Hessian of a function of n variables against its values
  template<int n, int nf> void derivs(auto fval, auto fjac, auto fhes, const Eigen::Matrix<double, n, 1> & z, const std::string & what, bool skip_t, bool skip_tt)
  {
    using Z = Eigen::Matrix<double, n, 1>;
    const double tol = sx_ptol();
    const Eigen::Matrix<double, nf, 1> f0 = fval(z);
    const Eigen::MatrixXd J = fjac(z);
    sx_check(J.rows() == nf && J.cols() == n, (what + ": size of the Jacobian").c_str());
    for (int j = skip_t ? 1 : 0; j < n; ++j) if (!sx_param("few", 0) || j < 4 || j > nx) {
      Eigen::VectorXd c(nf);
      if (sx_symbolic()) for (int k = 0; k < nf; ++k) c(k) = sx_partial_(f0(k), z(j));
      else c = sx_partial_native([&](const Z & y) { return Eigen::VectorXd(fval(y)); }, z, j);
      for (int k = 0; k < nf; ++k) sx_check_eq(J(k, j), c(k), tol, (what + ": Jacobian").c_str());
    }
    if (skip_t) return;  // the documentation excludes curved trajectories
    const Eigen::MatrixXd H = fhes(z);
    sx_check(H.rows() == n && H.cols() == n * nf, (what + ": size of the Hessian").c_str());
    for (int j = 0; j < n; ++j) {
      if (sx_param("few", 0) && j >= 4 && j <= nx) continue;
      Eigen::MatrixXd c(nf, n);
      if (sx_symbolic()) for (int k = 0; k < nf; ++k) for (int i = 0; i < n; ++i) { if (!(skip_tt && i == 0 && j == 0)) c(k, i) = sx_partial_(J(k, i), z(j)); }
      else c = sx_partial_native([&](const Z & y) { return Eigen::MatrixXd(fjac(y)); }, z, j);
      for (int k = 0; k < nf; ++k) for (int i = 0; i < n; ++i) if (!(skip_tt && i == 0 && j == 0)) sx_check_eq(H(i, k * n + j), c(k, i), tol, (what + ": Hessian").c_str());
    }
  }
  void run()
  {
    auto fl = flatten_ocp(o, xl, ul);
    static_assert(FlatOCPType<decltype(fl)>);
    static_assert(decltype(fl)::Nx == nx && decltype(fl)::Nu == nu && decltype(fl)::Nq == nq && decltype(fl)::Ncr == ncr && decltype(fl)::Nce == nce);
    for (int i = 0; i < ncr; ++i) { sx_check_same(fl.crl(i), o.crl(i), "running bounds"); sx_check_same(fl.cru(i), o.cru(i), "running bounds"); }
    for (int i = 0; i < nce; ++i) { sx_check_same(fl.cel(i), o.cel(i), "end bounds"); sx_check_same(fl.ceu(i), o.ceu(i), "end bounds"); }
    const int part = sx_param("part", 0), before = sx_param("before", 0);
    const double t = sx_real("t", 0, 2);
    E e = tangent<X>("e");
    if (sx_param("few", 0)) e.tail(nx - 3).setZero();
    if (part == 1) {
      E f = tangent<X>("ef");
      Q q;
      for (int i = 0; i < nq; ++i) q(i) = sx_real(nm("q", i).c_str(), -2, 2);
      for (int i = 0; i < before; ++i) { fl.theta.jacobian(t * 0.5, f, e, q); fl.theta.hessian(t * 0.5, f, e, q); fl.ce.jacobian(t + 1, f, e, q); fl.ce.hessian(t + 1, f, e, q); }
      const X x0 = smooth::rplus(xl(0.), e), xf = smooth::rplus(xl(t), f);
      sx_check_eq(fl.theta(t, e, f, q), o.theta(t, x0, xf, q), 1e-9, "objective at the lifted points");
      const auto c = fl.ce(t, e, f, q), co = o.ce(t, x0, xf, q);
      for (int i = 0; i < nce; ++i) sx_check_eq(c(i), co(i), 1e-9, "end constraint at the lifted points");
      const auto us = [](auto h) { return [h](const Eigen::Matrix<double, ne, 1> & z) mutable { return h(z(0), E(z.template segment<nx>(1)), E(z.template segment<nx>(1 + nx)), Q(z.template tail<nq>())); }; };
      derivs<ne, 1>(us([&](auto... a) { return Eigen::Matrix<double, 1, 1>(fl.theta(a...)); }), us([&](auto... a) { return Eigen::MatrixXd(fl.theta.jacobian(a...).get()); }), us([&](auto... a) { return Eigen::MatrixXd(fl.theta.hessian(a...).get()); }), ez(t, e, f, q), "objective", false, bent);
      derivs<ne, nce>(us([&](auto... a) { return fl.ce(a...); }), us([&](auto... a) { return Eigen::MatrixXd(fl.ce.jacobian(a...).get()); }), us([&](auto... a) { return Eigen::MatrixXd(fl.ce.hessian(a...).get()); }), ez(t, e, f, q), "end constraint", false, bent);
      sx_cover("endpoint");
      return;
    }
    const V v = tangent<U>("v");
    const X x = smooth::rplus(xl(t), e);
    const U u = smooth::rplus(ul(t), v);
    const auto us = [](auto h) { return [h](const Eigen::Matrix<double, ni, 1> & z) mutable { return h(z(0), E(z.template segment<nx>(1)), V(z.template tail<nu>())); }; };
    if (part == 0) {
      const Eigen::Matrix<double, nq, 1> g = fl.g(t, e, v), go = o.g(t, x, u);
      for (int i = 0; i < nq; ++i) sx_check_eq(g(i), go(i), 1e-9, "integrand at the lifted point");
      const Eigen::Matrix<double, ncr, 1> c = fl.cr(t, e, v), co = o.cr(t, x, u);
      for (int i = 0; i < ncr; ++i) sx_check_eq(c(i), co(i), 1e-9, "running constraint at the lifted point");
      for (int i = 0; i < before; ++i) { fl.g.jacobian(t * 0.5, e * 2, v); fl.g.hessian(t, e * 2, v); fl.cr.jacobian(t * 0.5, e * 2, v); fl.cr.hessian(t, e * 2, v); }
      derivs<ni, nq>(us([&](auto... a) { return fl.g(a...); }), us([&](auto... a) { return Eigen::MatrixXd(fl.g.jacobian(a...).get()); }), us([&](auto... a) { return Eigen::MatrixXd(fl.g.hessian(a...).get()); }), iz(t, e, v), "integrand", false, bent);
      derivs<ni, ncr>(us([&](auto... a) { return fl.cr(a...); }), us([&](auto... a) { return Eigen::MatrixXd(fl.cr.jacobian(a...).get()); }), us([&](auto... a) { return Eigen::MatrixXd(fl.cr.hessian(a...).get()); }), iz(t, e, v), "running constraint", false, bent);
      sx_cover("inner");
      return;
    }
    // the deviation moves so that the lifted point follows the original dynamics: dr_exp(e) de = f - Ad(exp(-e)) dxl
    for (int i = 0; i < before; ++i) { fl.f.jacobian(t * 0.5, e * 2, v); fl.f.hessian(t, e * 2, v); }
    const E de = fl.f(t, e, v), fo = o.f(t, x, u);
    const E dxl = std::get<1>(smooth::diff::dr<1>(xl, smooth::wrt(t)));
    const E r = smooth::dr_exp<X>(e) * de + smooth::Ad<X>(smooth::exp<X>(E(-e))) * dxl - fo;
    for (int i = 0; i < nx; ++i) sx_check_eq(r(i), 0, 1e-9, "dynamics of the deviation");
    if (sx_param("jac", 1)) derivs<ni, nx>(us([&](auto... a) { return fl.f(a...); }), us([&](auto... a) { return Eigen::MatrixXd(fl.f.jacobian(a...).get()); }), us([&](auto... a) { return Eigen::MatrixXd(fl.f.hessian(a...).get()); }), iz(t, e, v), "dynamics", bent, bent);
    sx_cover("dynamics");
  }
  void back()
  {
    OCPSolution<E, V, nq, ncr, nce> s;
    const E a = tangent<X>("a"), b = tangent<X>("b");
    const V c = tangent<U>("c");
    s.t0 = 0;
    s.tf = sx_real("tf", 0.25, 4);
    for (int i = 0; i < nq; ++i) { s.Q(i) = sx_real(nm("Q", i).c_str(), -2, 2); s.lambda_q(i) = sx_real(nm("lq", i).c_str(), -2, 2); }
    for (int i = 0; i < nce; ++i) s.lambda_ce(i) = sx_real(nm("le", i).c_str(), -2, 2);
    s.x = [a, b](double t) -> E { return a + b * t; };
    s.u = [c](double t) -> V { return c * (1 + t); };
    s.lambda_dyn = [b](double t) -> E { return b * t; };
    s.lambda_cr = [](double t) { return Eigen::Matrix<double, ncr, 1>(Eigen::Matrix<double, ncr, 1>::Constant(t)); };
    const OCPSolution<X, U, nq, ncr, nce> r = unflatten_ocpsol<X, U>(s, xl, ul);
    sx_check_same(r.t0, 0, "initial time");
    sx_check_same(r.tf, s.tf, "final time");
    for (int i = 0; i < nq; ++i) { sx_check_same(r.Q(i), s.Q(i), "integrals"); sx_check_same(r.lambda_q(i), s.lambda_q(i), "integral multipliers"); }
    for (int i = 0; i < nce; ++i) sx_check_same(r.lambda_ce(i), s.lambda_ce(i), "end multipliers");
    const double t = sx_real("t", 0, 4);
    // compare r.x(t) = xl(t) exp(x(t))
    const auto x = coords(r.x(t)), xe = coords(smooth::rplus(xl(t), s.x(t)));
    for (int i = 0; i < nx; ++i) sx_check_eq(x(i), xe(i), 1e-9, "lifted state");
    const auto u = coords(r.u(t)), ue = coords(smooth::rplus(ul(t), s.u(t)));
    for (int i = 0; i < nu; ++i) sx_check_eq(u(i), ue(i), 1e-9, "lifted input");
    for (int i = 0; i < nx; ++i) sx_check_eq(r.lambda_dyn(t)(i), b(i) * t, 1e-9, "dynamics multipliers");
    for (int i = 0; i < ncr; ++i) sx_check_eq(r.lambda_cr(t)(i), t, 1e-9, "running multipliers");
    sx_cover("back");
  }
};
#define ENTRY(name, ...) \
  extern "C" void name() { T<__VA_ARGS__>{}.run(); } \
  extern "C" void b##name() { T<__VA_ARGS__>{}.back(); }
#if KIND == 0
ENTRY(v2, Vd2, Vd1, 1, 2, 2, false)
ENTRY(v1, Vd1, Vd2, 2, 1, 1, true)
#elif KIND == 1
ENTRY(h1, HeisD, Vd1, 1, 1, 2, true)
#elif KIND == 2
ENTRY(hh, HeisD, HeisD, 2, 1, 1, true)
#elif KIND == 3
ENTRY(e1, EngelD, Vd1, 1, 1, 1, true)
#elif KIND == 4
ENTRY(f5, Fili5D, Vd1, 1, 1, 1, true)
ENTRY(f6, Fili6D, Vd1, 1, 1, 1, true)
#elif KIND == 5
ENTRY(f8, Fili8D, Vd1, 1, 1, 1, true)
#else
using G = smooth::Fili<double, 14>;
ENTRY(f14, G, Vd1, 1, 1, 1, true)
#endif
