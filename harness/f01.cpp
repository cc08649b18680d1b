// F01-F03: evaluation, integration and dynamics on a mesh; F04: dynamics error estimate
#include "fn.h"
#include <numeric>
#include <smooth/feedback/collocation/mesh.hpp>
#include <smooth/feedback/collocation/mesh_function.hpp>
#include <smooth/feedback/collocation/dyn_error.hpp>
using namespace smooth::feedback;
using MeshT = Mesh<1, 4>;

static MeshT make_mesh()
{
  MeshT m;
  switch (sx_param("mesh", 0)) {
  case 0: m = MeshT(1, 2); break;
  case 1: m = MeshT(2, 1); break;
  case 2: m = MeshT(2, 2); m.set_N_colloc_ival(1, 1); break;
  case 3: m = MeshT(1, 1); m.refine_ph(0, 3); break;
  case 4: m = MeshT(3, 1); m.set_N_colloc_ival(1, 3); break;
  case 5: m = MeshT(2, 3); m.refine_ph(0, 4); m.refine_ph(0, 5); break;
  }
  return m;
}
struct Pt  // t0, tf, xs, us as one vector
{
  Eigen::VectorXd v;
  Pt(int n, const char * p)
  {
    v.resize(n);
    for (int i = 0; i < n; ++i) v(i) = sx_real(nm(p, i).c_str(), -2, 2);
  }
};
template<int kind, int D, int nx, int nu, int nf, bool Sp>
struct T
{
  using F = Fn<nx, nu, nf, Sp>;
  F f;
  MeshT m = make_mesh();
  int N = m.N_colloc(), nv = 2 + nx * (N + 1) + nu * N, no = kind == 1 ? nf : nf * N;
  bool scale = sx_param("scale", 0);

  template<int DD> void call(MeshValue<DD> & o, const Eigen::VectorXd & v)
  {
    Eigen::MatrixXd X = v.segment(2, nx * (N + 1)).reshaped(nx, N + 1), U = v.segment(2 + nx * (N + 1), nu * N).reshaped(nu, N);
    const Eigen::Map<const Eigen::Matrix<double, nx, -1>> Xm(X.data(), nx, N + 1);
    const Eigen::Map<const Eigen::Matrix<double, nu, -1>> Um(U.data(), nu, N);
    if constexpr (kind == 0) mesh_eval<DD>(o, m, f, v(0), v(1), Xm.colwise(), Um.colwise(), scale);
    if constexpr (kind == 1) mesh_integrate<DD>(o, m, f, v(0), v(1), Xm.colwise(), Um.colwise());
    if constexpr (kind == 2) mesh_dyn<DD>(o, m, f, v(0), v(1), Xm.colwise(), Um.colwise());
  }
  Eigen::VectorXd ref(const Eigen::VectorXd & v)
  {
    Eigen::VectorXd r = Eigen::VectorXd::Zero(no);
    const auto tau = vec(m.all_nodes()), w = vec(m.all_weights());
    for (int i = 0; i < N; ++i) {
      Eigen::Matrix<double, F::n, 1> z;
      z(0) = v(0) + (v(1) - v(0)) * tau[i];
      for (int k = 0; k < nx; ++k) z(1 + k) = v(2 + nx * i + k);
      for (int k = 0; k < nu; ++k) z(1 + nx + k) = v(2 + nx * (N + 1) + nu * i + k);
      for (int k = 0; k < nf; ++k) {
        const double y = f.p.val(z, k);
        if (kind == 0) r(nf * i + k) = scale ? w[i] * y : y;
        if (kind == 1) r(k) = r(k) + w[i] * (v(1) - v(0)) * y;
        if (kind == 2) r(nf * i + k) = w[i] * (v(1) - v(0)) * y;
      }
    }
    if constexpr (kind == 2)
      for (std::size_t iv = 0, o = 0; iv < m.N_ivals(); o += m.N_colloc_ival(iv), ++iv) {
        const Eigen::MatrixXd Dm = m.interval_diffmat(iv);
        for (std::size_t k = 0; k < m.N_colloc_ival(iv); ++k)
          for (std::size_t q = 0; q <= m.N_colloc_ival(iv); ++q)
            for (int c = 0; c < nx; ++c) r(nf * (o + k) + c) -= w[o + k] * Dm(q, k) * v(2 + nx * (o + q) + c);
      }
    return r;
  }
  void run()
  {
    f.p.seed = sx_param("seed", 1);
    MeshValue<D> o;
    Eigen::VectorXd lam(no);
    for (int i = 0; i < no; ++i) lam(i) = sx_real(nm("l", i).c_str(), -2, 2);
    const int reuse = sx_param("reuse", 0);
    if (reuse) {
      Pt a(nv, "a");
      if constexpr (D == 2) o.lambda = lam * 2;
      call<D>(o, a.v);
      if (reuse == 2) {
        if constexpr (D >= 1) o.dF.makeCompressed();
        if constexpr (D >= 2) o.d2F.makeCompressed();
      }
    }
    Pt p(nv, "p");
    if constexpr (D == 2) o.lambda = lam;
    call<D>(o, p.v);
    sx_check(o.F.size() == no, "size of the value");
    const Eigen::VectorXd R = ref(p.v);
    for (int i = 0; i < no; ++i) sx_check_eq(o.F(i), R(i), 1e-9, "value");
    if constexpr (D >= 1) {
      sx_check(o.dF.rows() == no && o.dF.cols() == nv, "size of the first derivative");
      for (int j = 0; j < nv; ++j) {
        Eigen::VectorXd c(no);
        if (sx_symbolic()) for (int i = 0; i < no; ++i) c(i) = sx_partial_(o.F(i), p.v(j));
        else c = sx_partial_native([&](const Eigen::VectorXd & v) { MeshValue<0> q; this->template call<0>(q, v); return Eigen::VectorXd(q.F); }, p.v, j);
        for (int i = 0; i < no; ++i) sx_check_eq(o.dF.coeff(i, j), c(i), sx_ptol(), "first derivative");
      }
    }
    if constexpr (D >= 2) {
      sx_check(o.d2F.rows() == nv && o.d2F.cols() == nv, "size of the second derivative");
      const auto gr = [this, &lam](const Eigen::VectorXd & v) -> Eigen::VectorXd {
        MeshValue<1> q;
        this->template call<1>(q, v);
        return q.dF.transpose() * lam;
      };
      const Eigen::VectorXd g0 = gr(p.v);
      for (int i = 0; i < nv; ++i) {
        Eigen::VectorXd c(nv);
        if (sx_symbolic()) for (int j = i; j < nv; ++j) c(j) = sx_partial_(g0(j), p.v(i));
        else c = sx_partial_native(gr, p.v, i);
        for (int j = 0; j < nv; ++j) {
          if (j < i) sx_check_eq(o.d2F.coeff(i, j), 0, 0, "only the upper triangle of the second derivative is set");
          else sx_check_eq(o.d2F.coeff(i, j), c(j), sx_ptol(), "second derivative");
        }
      }
    }
    sx_cover("ok");
  }
};
// entries <what><derivative order><nx nu nf><d: dense, s: sparse>
#define E1(name, kind, D, nx, nu, nf) \
  extern "C" void name##d() { T<kind, D, nx, nu, nf, false>{}.run(); } \
  extern "C" void name##s() { T<kind, D, nx, nu, nf, true>{}.run(); }
#define E3(name, kind, nx, nu, nf) E1(name##0, kind, 0, nx, nu, nf) E1(name##1, kind, 1, nx, nu, nf) E1(name##2, kind, 2, nx, nu, nf)
#if !defined(KIND) || KIND == 0
E3(e111, 0, 1, 1, 1)
E3(e212, 0, 2, 1, 2)
E3(e123, 0, 1, 2, 3)
#endif
#if !defined(KIND) || KIND == 1
E3(i111, 1, 1, 1, 1)
E3(i212, 1, 2, 1, 2)
E3(i123, 1, 1, 2, 3)
#endif
#if !defined(KIND) || KIND == 2
E3(d111, 2, 1, 1, 1)
E3(d212, 2, 2, 1, 2)
E3(d121, 2, 1, 2, 1)

#endif
#if !defined(KIND) || KIND == 3
// ---- F04
// x is a polynomial on every interval and u = x' - g(t, x), f(t, x, u) = g(t, x) + u
template<int nx>
void err()
{
  const MeshT m = make_mesh();
  const int N = m.N_ivals(), kind = sx_param("kind", 0);
  const double t0 = sx_param("t0", -1), tf = sx_param("tf", 3);
  std::vector<std::vector<double>> nodes;
  for (int i = 0; i < N; ++i) nodes.push_back(vec(m.interval_nodes(i)));
  int deg = 100;
  for (int i = 0; i < N; ++i) deg = std::min<int>(deg, m.N_colloc_ival(i));
  if (sx_param("deg", -1) >= 0) deg = sx_param("deg", -1);
  Eigen::MatrixXd c(nx, deg + 1);
  for (int r = 0; r < nx; ++r) for (int k = 0; k <= deg; ++k) c(r, k) = sx_real(nm("c", r, k).c_str(), -1, 1);
  using V = Eigen::Matrix<double, nx, 1>;
  const auto x = [&](double t) -> V {
    V r = V::Zero();
    for (int q = 0; q < nx; ++q) for (int k = deg; k >= 0; --k) r(q) = r(q) * t + c(q, k);
    return r;
  };
  const auto dx = [&](double t) -> V {
    V r = V::Zero();
    for (int q = 0; q < nx; ++q) for (int k = deg; k >= 1; --k) r(q) = r(q) * t + double(k) * c(q, k);
    return r;
  };
  const auto g = [&](double t, const V & y) -> V {
    V r;
    for (int q = 0; q < nx; ++q) r(q) = t - 2. * y(q) + y(nx - 1 - q) * 0.5;
    return r;
  };
  const auto u = [&](double t) -> V { return dx(t) - g(t, x(t)); };
  const auto f = [&](double t, const V & y, const V & v) -> V { return g(t, y) + v; };
  if (kind == 0) {
    const Eigen::VectorXd e = mesh_dyn_error(f, m, t0, tf, x, u);
    sx_check(e.size() == N, "one estimate per interval");
    for (int i = 0; i < N; ++i) sx_check_le(e(i), 0, 1e-7, "zero error for an exact solution");
    for (int i = 0; i < N; ++i) sx_check_le(0, e(i), 0, "estimates are not negative");
  } else {
    // perturb the input inside one interval
    const int j = sx_choose("j", N);
    V d;
    for (int q = 0; q < nx; ++q) d(q) = sx_real(nm("d", q).c_str(), 1. / 8, 4);
    const double a = t0 + (tf - t0) * nodes[j][0], b = t0 + (tf - t0) * nodes[j].back();
    const auto up = [&](double t) -> V { return t >= a && t < b ? V(u(t) + d) : u(t); };
    const Eigen::VectorXd e = mesh_dyn_error(f, m, t0, tf, x, up);
    sx_check(e.size() == N, "one estimate per interval");
    for (int i = 0; i < N; ++i) {
      if (i != j) sx_check_le(e(i), 0, 1e-7, "a perturbation changes only the estimate of its interval");
      else if (nx == 1) sx_check_le(1e-4, e(i), 0, "a perturbation is noticed");
      sx_check_le(0, e(i), 0, "estimates are not negative");
    }
  }
  sx_cover("ok");
}
extern "C" void err1() { err<1>(); }
extern "C" void err2() { err<2>(); }
#endif
