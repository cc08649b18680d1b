// Optimal control problem functions on vectors and nilpotent matrix groups: polynomials in the coordinates,
// with sparse right derivatives (row i, column k*n+j of a Hessian: derivative of entry (k,i) of the Jacobian along j)
#pragma once
#include "fn.h"
using Vd1 = Eigen::Matrix<double, 1, 1>;
using Vd2 = Eigen::Matrix<double, 2, 1>;
using HeisD = smooth::Heis<double>;
using EngelD = smooth::Engel<double>;
using Fili5D = smooth::Fili<double, 5>;
using Fili6D = smooth::Fili<double, 6>;
using Fili8D = smooth::Fili<double, 8>;
template<class X> auto coords(const X & x) { if constexpr (requires { x.c; }) return x.c; else return x; }
template<class X> X from_coords(const smooth::Tangent<X> & c) { if constexpr (smooth::RnType<X>) return c; else return X(c); }

// derivative of the coordinates of a product of spaces with respect to right perturbations, and its derivative
template<int n> struct Chart
{
  Eigen::Matrix<double, n, n> D = Eigen::Matrix<double, n, n>::Identity();
  std::vector<Eigen::Matrix<double, n, n>> dD = std::vector<Eigen::Matrix<double, n, n>>(n, Eigen::Matrix<double, n, n>::Zero());  // with respect to coordinate m
  template<class X> void set(int o, const X & x)
  {
    constexpr int d = smooth::Dof<X>;
    D.template block<d, d>(o, o) = smooth::traits::lie<X>::dr_expinv(coords(x));
    for (int m = 0; m < d; ++m) dD[o + m].template block<d, d>(o, o) = smooth::traits::lie<X>::d_dr_expinv(coords(x), m);
  }
};
template<int n, int nf, bool Sp> struct GPoly
{
  Poly<n, nf, Sp> p;
  Eigen::SparseMatrix<double> jac(const auto & z, const Chart<n> & c) const
  {
    const Eigen::Matrix<double, nf, n> J = Eigen::Matrix<double, nf, n>(p.jac(z)) * c.D;
    Eigen::SparseMatrix<double> r(nf, n);
    for (int j = 0; j < n; ++j) for (int k = 0; k < nf; ++k) r.insert(k, j) = J(k, j);
    r.makeCompressed();
    return r;
  }
  Eigen::SparseMatrix<double> hes(const auto & z, const Chart<n> & c) const
  {
    const Eigen::Matrix<double, nf, n> P = Eigen::Matrix<double, nf, n>(p.jac(z));
    Eigen::SparseMatrix<double> r(n, n * nf);
    for (int k = 0; k < nf; ++k) {
      Eigen::Matrix<double, n, n> H2;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H2(i, j) = p.deg > 1 ? p.d2(z, k, i, j) : 0;
      Eigen::Matrix<double, n, n> H = H2;
      if (p.deg > 1) H = c.D.transpose() * H2 * c.D;
      for (int m = 0; m < n; ++m) H += (c.dD[m].transpose() * P.row(k).transpose()) * c.D.row(m);
      for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) r.insert(i, k * n + j) = H(i, j);
    }
    r.makeCompressed();
    return r;
  }
};
template<class X, class U, int nf, bool Sp> struct GFn  // f(t, x, u)
{
  static constexpr int nx = smooth::Dof<X>, nu = smooth::Dof<U>, n = 1 + nx + nu;
  GPoly<n, nf, Sp> g;
  template<class S> static Eigen::Matrix<S, n, 1> z(const S & t, const auto & x, const auto & u)
  {
    Eigen::Matrix<S, n, 1> r;
    r(0) = t;
    for (int i = 0; i < nx; ++i) r(1 + i) = coords(x)(i);
    for (int i = 0; i < nu; ++i) r(1 + nx + i) = coords(u)(i);
    return r;
  }
  static Chart<n> chart(const X & x, const U & u) { Chart<n> c; c.set(1, x); c.set(1 + nx, u); return c; }
  template<class S> Eigen::Matrix<S, nf, 1> operator()(const S & t, const smooth::CastT<S, X> & x, const smooth::CastT<S, U> & u) const { return g.p.value(z<S>(t, x, u)); }
  Eigen::SparseMatrix<double> jacobian(double t, const X & x, const U & u) const { return g.jac(z<double>(t, x, u), chart(x, u)); }
  Eigen::SparseMatrix<double> hessian(double t, const X & x, const U & u) const { return g.hes(z<double>(t, x, u), chart(x, u)); }
};
template<class X, int nq, int nf, bool Sp, bool Scalar = false> struct GEnd  // f(tf, x0, xf, q)
{
  static constexpr int nx = smooth::Dof<X>, n = 1 + 2 * nx + nq;
  GPoly<n, nf, Sp> g;
  double lin = 0;  // 1: affine in q, independent coefficient (added)
  template<class S> using Q = Eigen::Matrix<S, nq, 1>;
  template<class S> static Eigen::Matrix<S, n, 1> z(const S & tf, const auto & x0, const auto & xf, const Q<S> & q)
  {
    Eigen::Matrix<S, n, 1> r;
    r(0) = tf;
    for (int i = 0; i < nx; ++i) { r(1 + i) = coords(x0)(i); r(1 + nx + i) = coords(xf)(i); }
    for (int i = 0; i < nq; ++i) r(1 + 2 * nx + i) = q(i);
    return r;
  }
  static Chart<n> chart(const X & x0, const X & xf) { Chart<n> c; c.set(1, x0); c.set(1 + nx, xf); return c; }
  template<class S> auto operator()(const S & tf, const smooth::CastT<S, X> & x0, const smooth::CastT<S, X> & xf, const Q<S> & q) const
  {
    if constexpr (Scalar) return g.p.val(z<S>(tf, x0, xf, q), 0);
    else return g.p.value(z<S>(tf, x0, xf, q));
  }
  Eigen::SparseMatrix<double> jacobian(double tf, const X & x0, const X & xf, const Q<double> & q) const { return g.jac(z<double>(tf, x0, xf, q), chart(x0, xf)); }
  Eigen::SparseMatrix<double> hessian(double tf, const X & x0, const X & xf, const Q<double> & q) const { return g.hes(z<double>(tf, x0, xf, q), chart(x0, xf)); }
};
template<class X> static smooth::Tangent<X> tangent(const char * p, double b = 1)
{
  smooth::Tangent<X> v;
  for (int i = 0; i < int(smooth::Dof<X>); ++i) v(i) = sx_real(nm(p, i).c_str(), -b, b);
  return v;
}
// g0 exp(t v + t^2 w)
template<class X> struct Traj
{
  smooth::Tangent<X> g, v, w = smooth::Tangent<X>::Zero();
  template<class S> smooth::CastT<S, X> operator()(const S & t) const
  {
    using XS = smooth::CastT<S, X>;
    const Eigen::Matrix<S, smooth::Dof<X>, 1> a = v.template cast<S>() * t + w.template cast<S>() * (t * t);
    return smooth::rplus(from_coords<XS>(g.template cast<S>()), a);
  }
};
