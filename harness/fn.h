// Functions R x R^nx x R^nu -> R^nf with analytic first and second derivatives: cubic polynomials with
// dyadic coefficients in every monomial of (t, x, u), or with a given sparsity.
#pragma once
#include "sx.h"
#include <smooth/bundle.hpp>
#include <smooth/diff.hpp>
#include <Eigen/Sparse>
#include <array>
#include <string>

static inline std::string nm(const char * p, int i) { return std::string(p) + std::to_string(i); }
static inline std::string nm(const char * p, int i, int j) { return nm(p, i) + "_" + std::to_string(j); }
static std::vector<double> vec(auto && r) { std::vector<double> v; for (double d : r) v.push_back(d); return v; }

template<int n, int nf, bool Sp>
struct Poly  // polynomial of z in R^n
{
  int seed = 1, deg = 3;
  bool sparse_pat(int k, int a) const { return !Sp || (a + k + seed) % 3 != 0; }  // does output k depend on z_a?
  double c(int k, int a, int b, int d) const  // coefficient of z_a z_b z_d, index -1 is the constant 1
  {
    for (int q : {a, b, d}) if (q >= 0 && !sparse_pat(k, q)) return 0;
    if ((a >= 0) + (b >= 0) + (d >= 0) > deg) return 0;
    const int h = (7 * (a + 2) + 5 * (b + 2) + 3 * (d + 2) + 11 * k + seed * 13) % 9;
    return double(h == 4 ? 5 : h - 4) / 4;
  }
  template<class Z> auto val(const Z & z, int k) const
  {
    using S = std::decay_t<decltype(z(0))>;
    S r = S(c(k, -1, -1, -1));
    for (int d = 0; d < n; ++d) {
      S rd = S(c(k, -1, -1, d));
      for (int b = 0; b <= d; ++b) {
        S rb = S(c(k, -1, b, d));
        for (int a = 0; a <= b; ++a) if (c(k, a, b, d) != 0) rb = rb + S(c(k, a, b, d)) * z(a);
        rd = rd + rb * z(b);
      }
      r = r + rd * z(d);
    }
    return r;
  }
  static double mono(const auto & z, int a, int b, int d) { return (a >= 0 ? z(a) : 1.) * (b >= 0 ? z(b) : 1.) * (d >= 0 ? z(d) : 1.); }
  // all monomials a <= b <= d (with -1 first)
  template<class F> void each(int k, F f) const
  {
    for (int d = -1; d < n; ++d) for (int b = -1; b <= d; ++b) for (int a = -1; a <= b; ++a) if (c(k, a, b, d) != 0) f(a, b, d, c(k, a, b, d));
  }
  double d1(const auto & z, int k, int i) const
  {
    double r = 0;
    each(k, [&](int a, int b, int d, double co) {
      if (a == i) r += co * mono(z, -1, b, d);
      if (b == i) r += co * mono(z, a, -1, d);
      if (d == i) r += co * mono(z, a, b, -1);
    });
    return r;
  }
  double d2(const auto & z, int k, int i, int j) const
  {
    double r = 0;
    each(k, [&](int a, int b, int d, double co) {
      const std::array<int, 3> m{a, b, d};
      for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) if (p != q && m[p] == i && m[q] == j) r += co * mono(z, m[3 - p - q], -1, -1);
    });
    return r;
  }
  template<class Z> Eigen::Matrix<std::decay_t<decltype(std::declval<Z>()(0))>, nf, 1> value(const Z & z) const
  {
    Eigen::Matrix<std::decay_t<decltype(z(0))>, nf, 1> r;
    for (int k = 0; k < nf; ++k) r(k) = val(z, k);
    return r;
  }
  auto jac(const auto & z) const
  {
    if constexpr (Sp) {
      Eigen::SparseMatrix<double> J(nf, n);
      for (int j = 0; j < n; ++j) for (int k = 0; k < nf; ++k) if (sparse_pat(k, j)) J.insert(k, j) = d1(z, k, j);
      J.makeCompressed();
      return J;
    } else {
      Eigen::Matrix<double, nf, n> J;
      for (int j = 0; j < n; ++j) for (int k = 0; k < nf; ++k) J(k, j) = d1(z, k, j);
      return J;
    }
  }
  auto hes(const auto & z) const
  {
    if constexpr (Sp) {
      Eigen::SparseMatrix<double> H(n, n * nf);
      for (int k = 0; k < nf; ++k) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (sparse_pat(k, i) && sparse_pat(k, j)) H.insert(i, k * n + j) = d2(z, k, i, j);
      H.makeCompressed();
      return H;
    } else {
      Eigen::Matrix<double, n, n * nf> H;
      for (int k = 0; k < nf; ++k) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) H(i, k * n + j) = d2(z, k, i, j);
      return H;
    }
  }
};

template<int nx, int nu, int nf, bool Sp>
struct Fn  // f(t, x, u)
{
  static constexpr int n = 1 + nx + nu;
  Poly<n, nf, Sp> p;
  template<class S> static Eigen::Matrix<S, n, 1> z(const S & t, const Eigen::Matrix<S, nx, 1> & x, const Eigen::Matrix<S, nu, 1> & u)
  {
    Eigen::Matrix<S, n, 1> r;
    r(0) = t;
    for (int i = 0; i < nx; ++i) r(1 + i) = x(i);
    for (int i = 0; i < nu; ++i) r(1 + nx + i) = u(i);
    return r;
  }
  template<class S> Eigen::Matrix<S, nf, 1> operator()(const S & t, const Eigen::Matrix<S, nx, 1> & x, const Eigen::Matrix<S, nu, 1> & u) const { return p.value(z<S>(t, x, u)); }
  auto jacobian(double t, const Eigen::Matrix<double, nx, 1> & x, const Eigen::Matrix<double, nu, 1> & u) const { return p.jac(z<double>(t, x, u)); }
  auto hessian(double t, const Eigen::Matrix<double, nx, 1> & x, const Eigen::Matrix<double, nu, 1> & u) const { return p.hes(z<double>(t, x, u)); }
};
