// Optimal control problems with polynomial functions and analytic derivatives
#pragma once
#include "fn.h"
#include <numeric>
#include <smooth/feedback/collocation/mesh.hpp>
#include <smooth/feedback/ocp.hpp>
using namespace smooth::feedback;
using MeshT = Mesh<1, 4>;

static inline MeshT make_mesh()
{
  MeshT m;
  switch (sx_param("mesh", 0)) {
  case 0: m = MeshT(1, 2); break;
  case 1: m = MeshT(2, 1); break;
  case 2: m = MeshT(2, 2); m.set_N_colloc_ival(1, 1); break;
  case 3: m = MeshT(1, 1); m.refine_ph(0, 3); break;
  case 4: m = MeshT(3, 1); m.set_N_colloc_ival(1, 3); break;
  case 5: m = MeshT(1, 1); break;
  case 6: m = MeshT(1, 4); break;
  }
  return m;
}
template<int nx, int nq, int nf, bool Sp, bool Scalar = false>
struct End  // f(tf, x0, xf, q)
{
  static constexpr int n = 1 + 2 * nx + nq;
  Poly<n, nf, Sp> p;
  template<class S> using X = Eigen::Matrix<S, nx, 1>;
  template<class S> using Q = Eigen::Matrix<S, nq, 1>;
  template<class S> static Eigen::Matrix<S, n, 1> z(const S & tf, const X<S> & x0, const X<S> & xf, const Q<S> & q)
  {
    Eigen::Matrix<S, n, 1> r;
    r(0) = tf;
    for (int i = 0; i < nx; ++i) { r(1 + i) = x0(i); r(1 + nx + i) = xf(i); }
    for (int i = 0; i < nq; ++i) r(1 + 2 * nx + i) = q(i);
    return r;
  }
  template<class S> auto operator()(const S & tf, const X<S> & x0, const X<S> & xf, const Q<S> & q) const
  {
    if constexpr (Scalar) return p.val(z<S>(tf, x0, xf, q), 0);
    else return p.value(z<S>(tf, x0, xf, q));
  }
  auto jacobian(double tf, const X<double> & x0, const X<double> & xf, const Q<double> & q) const { return p.jac(z<double>(tf, x0, xf, q)); }
  auto hessian(double tf, const X<double> & x0, const X<double> & xf, const Q<double> & q) const { return p.hes(z<double>(tf, x0, xf, q)); }
};
template<int nx, int nu, int nq, int ncr, int nce, bool Sp>
struct Prob
{
  using X = Eigen::Matrix<double, nx, 1>;
  using U = Eigen::Matrix<double, nu, 1>;
  using Ocp = OCP<X, U, End<nx, nq, 1, Sp, true>, Fn<nx, nu, nx, Sp>, Fn<nx, nu, nq, Sp>, Fn<nx, nu, ncr, Sp>, End<nx, nq, nce, Sp>>;
  static Ocp make()
  {
    Ocp o;
    const int s = sx_param("seed", 1);
    o.theta.p.seed = s;
    o.f.p.seed = s + 1;
    o.g.p.seed = s + 2;
    o.cr.p.seed = s + 3;
    o.ce.p.seed = s + 4;
    for (int i = 0; i < ncr; ++i) { o.crl(i) = sx_real(nm("crl", i).c_str(), -4, 0); o.cru(i) = sx_real(nm("cru", i).c_str(), 0, 4); }
    for (int i = 0; i < nce; ++i) { o.cel(i) = sx_real(nm("cel", i).c_str(), -4, 0); o.ceu(i) = sx_real(nm("ceu", i).c_str(), 0, 4); }
    if (sx_param("inf", 0)) { o.crl(0) = -std::numeric_limits<double>::infinity(); o.ceu(nce - 1) = std::numeric_limits<double>::infinity(); }
    return o;
  }
};
static inline Eigen::VectorXd point(int n, const char * p, double b = 2)
{
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) v(i) = sx_real(nm(p, i).c_str(), -b, b);
  return v;
}
