// O05: quadratic program of an optimal control problem, O06: trajectories from its solutions
#include "ocp_group.h"
#include <smooth/feedback/ocp_to_qp.hpp>
#include <smooth/feedback/ocp_flatten.hpp>
using namespace smooth::feedback;
using MeshT = Mesh<1, 4>;
static MeshT make_mesh()
{
  MeshT m;
  switch (sx_param("mesh", 0)) {
  case 0: m = MeshT(1, 2); break;
  case 1: m = MeshT(2, 1); break;
  case 2: m = MeshT(2, 2); m.set_N_colloc_ival(1, 1); break;
  case 3: m = MeshT(1, 1); m.refine_ph(0, 3); break;
  case 4: m = MeshT(3, 1); m.set_N_colloc_ival(1, 3); break;
  case 5: m = MeshT(1, 1); break;
  case 6: m = MeshT(1, 4); break;
  }
  return m;
}
// objective: integral times a constant plus a polynomial of the end points
template<class X, bool Sp> struct Theta
{
  static constexpr int nx = smooth::Dof<X>, n = 2 + 2 * nx;
  GEnd<X, 1, 1, Sp, true> p;
  double c = 1;
  using Q1 = Eigen::Matrix<double, 1, 1>;
  template<class S> S operator()(const S & tf, const smooth::CastT<S, X> & x0, const smooth::CastT<S, X> & xf, const Eigen::Matrix<S, 1, 1> & q) const
  {
    return p(tf, x0, xf, Eigen::Matrix<S, 1, 1>(Eigen::Matrix<S, 1, 1>::Zero())) + S(c) * q(0);
  }
  Eigen::SparseMatrix<double> jacobian(double tf, const X & x0, const X & xf, const Q1 &) const
  {
    Eigen::SparseMatrix<double> J = p.jacobian(tf, x0, xf, Q1::Zero());
    J.coeffRef(0, n - 1) = c;
    return J;
  }
  Eigen::SparseMatrix<double> hessian(double tf, const X & x0, const X & xf, const Q1 &) const
  {
    Eigen::SparseMatrix<double> H = p.hessian(tf, x0, xf, Q1::Zero());
    for (int i = 0; i < n; ++i) H.coeffRef(i, n - 1) = H.coeffRef(n - 1, i) = 0;
    return H;
  }
};
// end constraint that does not depend on the integral
template<class X, int nce, bool Sp> struct Ce
{
  static constexpr int nx = smooth::Dof<X>, n = 2 + 2 * nx;
  GEnd<X, 1, nce, Sp> p;
  using Q1 = Eigen::Matrix<double, 1, 1>;
  template<class S> auto operator()(const S & tf, const smooth::CastT<S, X> & x0, const smooth::CastT<S, X> & xf, const Eigen::Matrix<S, 1, 1> &) const
  {
    return p(tf, x0, xf, Eigen::Matrix<S, 1, 1>(Eigen::Matrix<S, 1, 1>::Zero()));
  }
  Eigen::SparseMatrix<double> jacobian(double tf, const X & x0, const X & xf, const Q1 &) const
  {
    Eigen::SparseMatrix<double> J = p.jacobian(tf, x0, xf, Q1::Zero());
    for (int k = 0; k < nce; ++k) J.coeffRef(k, n - 1) = 0;
    return J;
  }
};
template<class X, class U, int ncr, int nce, bool Sp> struct T
{
  static constexpr int nx = smooth::Dof<X>, nu = smooth::Dof<U>;
  using Ocp = OCP<X, U, Theta<X, Sp>, GFn<X, U, nx, Sp>, GFn<X, U, 1, Sp>, GFn<X, U, ncr, Sp>, Ce<X, nce, Sp>>;
  using E = smooth::Tangent<X>; using V = smooth::Tangent<U>; using Q = Eigen::Matrix<double, 1, 1>;
  Ocp o;
  Traj<X> xl;
  Traj<U> ul;
  MeshT m = make_mesh();
  const int N = m.N_colloc(), nv = nx * (N + 1) + nu * N, nc = nx * N + ncr * N + nce;
  double tf = sx_real("tf", 0.25, 4);
  T()
  {
    const int s = sx_param("seed", 1), d = sx_param("deg", 2);
    o.theta.p.g.p.seed = s; o.f.g.p.seed = s + 1; o.g.g.p.seed = s + 2; o.cr.g.p.seed = s + 3; o.ce.p.g.p.seed = s + 4;
    o.theta.p.g.p.deg = o.f.g.p.deg = o.g.g.p.deg = o.cr.g.p.deg = o.ce.p.g.p.deg = d;
    o.theta.c = sx_real("c", -2, 2);
    for (int i = 0; i < ncr; ++i) { o.crl(i) = sx_real(nm("crl", i).c_str(), -4, 0); o.cru(i) = sx_real(nm("cru", i).c_str(), 0, 4); }
    for (int i = 0; i < nce; ++i) { o.cel(i) = sx_real(nm("cel", i).c_str(), -4, 0); o.ceu(i) = sx_real(nm("ceu", i).c_str(), 0, 4); }
    if (sx_param("inf", 0)) { o.crl(0) = -std::numeric_limits<double>::infinity(); o.ceu(nce - 1) = std::numeric_limits<double>::infinity(); }
    traj("");
  }
  void traj(const std::string & p)
  {
    const bool fix = sx_param("fix", 0);
    xl.g = fix ? E(E::Constant(0.5)) : tangent<X>((p + "xg").c_str());
    xl.v = tangent<X>((p + "xv").c_str());
    ul.g = tangent<U>((p + "ug").c_str());
    ul.v = fix ? V(V::Constant(0.25)) : tangent<U>((p + "uv").c_str());
    if (sx_param("bent", 0)) { xl.w = tangent<X>((p + "xw").c_str()); ul.w = tangent<U>((p + "uw").c_str()); }
  }
  // sum of products of the coefficients at zero deviation
  void compare(const QuadraticProgramSparse<double> & qp)
  {
    sx_check(qp.P.rows() == nv && qp.P.cols() == nv && qp.q.size() == nv && qp.A.rows() == nc && qp.A.cols() == nv && qp.l.size() == nc && qp.u.size() == nc, "sizes");
    Eigen::MatrixXd P = Eigen::MatrixXd::Zero(nv, nv), A = Eigen::MatrixXd::Zero(nc, nv);
    Eigen::VectorXd q = Eigen::VectorXd::Zero(nv), l = Eigen::VectorXd::Zero(nc), u = Eigen::VectorXd::Zero(nc);
    const auto tau = vec(m.all_nodes()), w = vec(m.all_weights());
    const X x0 = xl(0.), xf = xl(tf);
    const int uB = nx * (N + 1), xN = nx * N;
    // running
    int i = 0, o1 = xN;
    for (int iv = 0, s = 0; iv < int(m.N_ivals()); ++iv) {
      const Eigen::MatrixXd D = m.interval_diffmat(iv);
      const int K = m.N_colloc_ival(iv);
      for (int j = 0; j < K; ++j, ++i) {
        const double t = tf * tau[i];
        const X x = xl(t);
        const U uu = ul(t);
        const E f = o.f(t, x, uu), dx = std::get<1>(smooth::diff::dr<1>(xl, smooth::wrt(t)));
        const Eigen::MatrixXd J = o.f.jacobian(t, x, uu);
        Eigen::MatrixXd Jx = J.middleCols(1, nx);
        // de/dt = dr_expinv(e) (f - dx) + ad(e) dx
        for (int c = 0; c < nx; ++c) {
          const auto e = E(E::Unit(c));
          Jx.col(c) += smooth::ad<X>(e) * (f - dx) * 0.5 + smooth::ad<X>(e) * dx;
        }
        A.block(nx * i, nx * i, nx, nx) += tf * Jx;
        A.block(nx * i, uB + nu * i, nx, nu) += tf * J.middleCols(1 + nx, nu);
        for (int k = 0; k <= K; ++k) for (int c = 0; c < nx; ++c) A(nx * i + c, nx * (s + k) + c) -= D(k, j);
        l.segment(nx * i, nx) = -tf * (f - dx);
        u.segment(nx * i, nx) = -tf * (f - dx);
        const Eigen::MatrixXd C = o.cr.jacobian(t, x, uu);
        const auto cv = o.cr(t, x, uu);
        A.block(o1 + ncr * i, nx * i, ncr, nx) = C.middleCols(1, nx);
        A.block(o1 + ncr * i, uB + nu * i, ncr, nu) = C.middleCols(1 + nx, nu);
        l.segment(o1 + ncr * i, ncr) = o.crl - cv;
        u.segment(o1 + ncr * i, ncr) = o.cru - cv;
        const Eigen::MatrixXd G = o.g.jacobian(t, x, uu), H = o.g.hessian(t, x, uu);
        const double k = o.theta.c * tf * w[i];
        q.segment(nx * i, nx) += k * G.middleCols(1, nx).transpose();
        q.segment(uB + nu * i, nu) += k * G.middleCols(1 + nx, nu).transpose();
        P.block(nx * i, nx * i, nx, nx) += k * H.block(1, 1, nx, nx);
        P.block(uB + nu * i, uB + nu * i, nu, nu) += k * H.block(1 + nx, 1 + nx, nu, nu);
        P.block(nx * i, uB + nu * i, nx, nu) += k * H.block(1, 1 + nx, nx, nu);
      }
      s += K;
    }
    const Q one = Q::Ones();
    const Eigen::MatrixXd C = o.ce.jacobian(tf, x0, xf, one);
    const auto ce = o.ce(tf, x0, xf, one);
    const int o2 = o1 + ncr * N;
    A.block(o2, 0, nce, nx) += C.middleCols(1, nx);
    A.block(o2, xN, nce, nx) += C.middleCols(1 + nx, nx);
    l.tail(nce) = o.cel - ce;
    u.tail(nce) = o.ceu - ce;
    const Eigen::MatrixXd G = o.theta.jacobian(tf, x0, xf, one), H = o.theta.hessian(tf, x0, xf, one);
    q.segment(0, nx) += G.middleCols(1, nx).transpose();
    q.segment(xN, nx) += G.middleCols(1 + nx, nx).transpose();
    P.block(0, 0, nx, nx) += H.block(1, 1, nx, nx);
    P.block(0, xN, nx, nx) += H.block(1, 1 + nx, nx, nx);
    P.block(xN, xN, nx, nx) += H.block(1 + nx, 1 + nx, nx, nx);
    const Eigen::MatrixXd qA(qp.A), qP(qp.P);
    for (int a = 0; a < nc; ++a) {
      const char * s = a < o1 ? "dynamics row" : a < o2 ? "running constraint row" : "end constraint row";
      for (int b = 0; b < nv; ++b) sx_check_eq(qA(a, b), A(a, b), 1e-8, s);
      if (std::isinf(l(a))) sx_check(qp.l(a) == l(a), "infinite lower bound"); else sx_check_eq(qp.l(a), l(a), 1e-8, "lower bound");
      if (std::isinf(u(a))) sx_check(qp.u(a) == u(a), "infinite upper bound"); else sx_check_eq(qp.u(a), u(a), 1e-8, "upper bound");
    }
    for (int a = 0; a < nv; ++a) {
      sx_check_eq(qp.q(a), q(a), 1e-8, "linear cost");
      for (int b = 0; b < nv; ++b) {
        // second-order model: only the symmetric part counts on a group
        if (b < a) sx_check_eq(qP(a, b), 0, 0, "only the upper triangle is set");
        else sx_check_eq(qP(a, b), P(a, b), 1e-8, "quadratic cost");
      }
    }
  }
  void full()
  {
    const auto qp = ocp_to_qp<smooth::diff::Type::Analytic>(o, m, tf, xl, ul);
    compare(qp);
    sx_cover("ok");
  }
  // allocation once, several updates, also of the parts only
  void updates()
  {
    QuadraticProgramSparse<double> qp;
    detail::OcpToQpWorkmemory work;
    constexpr auto D = smooth::diff::Type::Analytic;
    detail::ocp_to_qp_allocate<D>(qp, work, o, m);
    detail::ocp_to_qp_update<D>(qp, work, o, m, tf, xl, ul);
    const int how = sx_param("how", 0);
    if (how & 1) { qp.A.makeCompressed(); qp.P.makeCompressed(); }
    traj("n");
    if (how & 8) tf = sx_real("tf2", 0.25, 4);
    if (how & 2) {  // parts in another order
      detail::ocp_to_qp_update_ce<D>(qp, work, o, m, tf, xl, ul);
      detail::ocp_to_qp_update_cr<D>(qp, work, o, m, tf, xl, ul);
      detail::ocp_to_qp_update_cost<D>(qp, work, o, m, tf, xl, ul);
      detail::ocp_to_qp_update_dyn<D>(qp, work, o, m, tf, xl, ul);
    } else
      detail::ocp_to_qp_update<D>(qp, work, o, m, tf, xl, ul);
    if (how & 4) detail::ocp_to_qp_update<D>(qp, work, o, m, tf, xl, ul);
    compare(qp);
    sx_cover("ok");
  }
  void back()
  {
    QPSolution<-1, -1, double> s;
    s.code = QPSolutionStatus::Optimal;
    s.primal.resize(nv);
    s.dual.resize(nc);
    for (int i = 0; i < nv; ++i) s.primal(i) = sx_real(nm("p", i).c_str(), -2, 2);
    for (int i = 0; i < nc; ++i) s.dual(i) = sx_real(nm("y", i).c_str(), -2, 2);
    const auto sol = qpsol_to_ocpsol(o, m, s, tf, xl, ul);

    sx_check(std::decay_t<decltype(sol)>::Ncr == ncr && std::decay_t<decltype(sol)>::Nce == nce && std::decay_t<decltype(sol)>::Nq == 1, "the solution type is that of the problem");
    sx_check_same(sol.t0, 0, "initial time");
    sx_check_same(sol.tf, tf, "final time");
    const auto tau = vec(m.all_nodes());
    for (int i = 0; i <= N; ++i) {
      const double t = tf * tau[i];
      const auto x = coords(sol.x(t)), xe = coords(smooth::rplus(xl(t), E(s.primal.segment(nx * i, nx))));
      for (int c = 0; c < nx; ++c) sx_check_eq(x(c), xe(c), 1e-6, "state at the nodes");
      if (i == N) break;
      const auto u = coords(sol.u(t)), ue = coords(smooth::rplus(ul(t), V(s.primal.segment(nx * (N + 1) + nu * i, nu))));
      for (int c = 0; c < nu; ++c) sx_check_eq(u(c), ue(c), 1e-6, "input at the nodes");
    }
    sx_cover("ok");
  }
};
#define ENTRY(name, ...) \
  extern "C" void f##name() { T<__VA_ARGS__>{}.full(); } \
  extern "C" void u##name() { T<__VA_ARGS__>{}.updates(); } \
  extern "C" void b##name() { T<__VA_ARGS__>{}.back(); }
#if KIND == 0
ENTRY(v2, Vd2, Vd1, 2, 3, false)
ENTRY(v1, Vd1, Vd2, 1, 1, true)
#else
ENTRY(h1, HeisD, Vd1, 1, 2, true)
ENTRY(hh, HeisD, HeisD, 2, 1, true)
#endif
