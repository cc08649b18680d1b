// O01: the NLP of an OCP, O02: its derivatives, O03: solution conversion
#include "ocp_common.h"
#include <smooth/feedback/ocp_to_nlp.hpp>

template<int nx, int nu, int nq, int ncr, int nce, bool Sp>
struct T
{
  using P = Prob<nx, nu, nq, ncr, nce, Sp>;
  using Ocp = typename P::Ocp;
  Ocp ocp = P::make();
  MeshT m = make_mesh();
  int N = m.N_colloc(), n = 1 + nq + nx * (N + 1) + nu * N, nc = nx * N + nq + ncr * N + nce;
  using VX = typename P::X; using VU = typename P::U; using VQ = Eigen::Matrix<double, nq, 1>;
  double tf(const Eigen::VectorXd & v) { return v(0); }
  VQ q(const Eigen::VectorXd & v) { return v.segment(1, nq); }
  VX x(const Eigen::VectorXd & v, int i) { return v.segment(1 + nq + nx * i, nx); }
  VU u(const Eigen::VectorXd & v, int i) { return v.segment(1 + nq + nx * (N + 1) + nu * i, nu); }

  void problem()
  {
    auto nlp = sx_param("mv", 0) ? ocp_to_nlp(Ocp(ocp), MeshT(m)) : ocp_to_nlp(ocp, m);
    sx_check(int(nlp.n()) == n && int(nlp.m()) == nc, "sizes");
    sx_check(nlp.xl().size() == n && nlp.xu().size() == n && nlp.gl().size() == nc && nlp.gu().size() == nc, "sizes of bounds");
    if (sx_param("twice", 0)) { nlp.g(point(n, "a")); nlp.f(point(n, "b")); }
    const Eigen::VectorXd v = point(n, "x");
    const double inf = std::numeric_limits<double>::infinity();
    for (int i = 0; i < n; ++i) {
      sx_check(nlp.xl()(i) == (i == 0 ? 0 : -inf), "lower variable bounds");
      sx_check(nlp.xu()(i) == inf, "upper variable bounds");
    }
    sx_check_eq(nlp.f(v), ocp.theta(tf(v), x(v, 0), x(v, N), q(v)), 1e-9, "objective");
    const Eigen::VectorXd g = nlp.g(v), gl = nlp.gl(), gu = nlp.gu();
    sx_check(g.size() == nc, "number of constraint values");
    const auto tau = vec(m.all_nodes()), w = vec(m.all_weights());
    double mw = 0;
    for (double a : w) mw = std::max(mw, a);
    int o = 0;
    // collocated dynamics
    std::vector<Eigen::MatrixXd> D;
    std::vector<int> iv(N), st(N);
    for (int i = 0, k = 0; i < int(m.N_ivals()); ++i) {
      D.push_back(m.interval_diffmat(i));
      for (int j = 0, s = k; j < int(m.N_colloc_ival(i)); ++j, ++k) { iv[k] = i; st[k] = s; }
    }
    for (int i = 0; i < N; ++i) {
      const auto f = ocp.f(tf(v) * tau[i], x(v, i), u(v, i));
      for (int c = 0; c < nx; ++c, ++o) {
        double d = tf(v) * f(c);
        for (int k = 0; k < D[iv[i]].rows(); ++k) d -= D[iv[i]](k, i - st[i]) * x(v, st[i] + k)(c);
        sx_check_eq(g(o), d * w[i] / mw, 1e-8, "dynamics constraint");
        sx_check(gl(o) == 0 && gu(o) == 0, "dynamics constraint is an equality");
      }
    }
    VQ I = VQ::Zero();
    for (int i = 0; i < N; ++i) I += tf(v) * w[i] * ocp.g(tf(v) * tau[i], x(v, i), u(v, i));
    for (int c = 0; c < nq; ++c, ++o) {
      sx_check_eq(g(o), (I(c) - q(v)(c)) / mw, 1e-8, "integral constraint");
      sx_check(gl(o) == 0 && gu(o) == 0, "integral constraint is an equality");
    }
    for (int i = 0; i < N; ++i) {
      const auto y = ocp.cr(tf(v) * tau[i], x(v, i), u(v, i));
      for (int c = 0; c < ncr; ++c, ++o) {
        sx_check_eq(g(o), y(c) * w[i] / mw, 1e-8, "running constraint");
        if (std::isinf(ocp.crl(c))) sx_check(gl(o) == ocp.crl(c), "infinite lower running bound");
        else sx_check_eq(gl(o), ocp.crl(c) * w[i] / mw, 1e-9, "lower running bound");
        sx_check_eq(gu(o), ocp.cru(c) * w[i] / mw, 1e-9, "upper running bound");
      }
    }
    const auto e = ocp.ce(tf(v), x(v, 0), x(v, N), q(v));
    for (int c = 0; c < nce; ++c, ++o) {
      sx_check_eq(g(o), e(c), 1e-8, "end constraint");
      sx_check_same(gl(o), ocp.cel(c), "lower end bound");
      sx_check_same(gu(o), ocp.ceu(c), "upper end bound");
    }
    sx_cover("ok");
  }
  void derivatives()
  {
    auto nlp = ocp_to_nlp<smooth::diff::Type::Analytic>(ocp, m);
    const double tol = sx_ptol();
    const Eigen::VectorXd lam = point(nc, "l");
    for (int k = 0; k < sx_param("before", 0); ++k) {
      const Eigen::VectorXd a = point(n, nm("a", k).append("_").c_str());
      nlp.df_dx(a); nlp.dg_dx(a); nlp.d2f_dx2(a); nlp.d2g_dx2(a, lam * 3); nlp.g(a);
    }
    Eigen::VectorXd v = point(n, "x");
    // column of derivatives with respect to v(j)
    const auto part = [&](auto f, const Eigen::VectorXd & val, int j) -> Eigen::VectorXd {
      if (!sx_symbolic()) return sx_partial_native(f, v, j);
      Eigen::VectorXd r(val.size());
      for (int i = 0; i < r.size(); ++i) r(i) = sx_partial_(val(i), v(j));
      return r;
    };
    using VX = Eigen::VectorXd;
    {
      const Eigen::MatrixXd d = Eigen::SparseMatrix<double>(nlp.df_dx(v));
      sx_check(d.rows() == 1 && d.cols() == n, "size of the gradient");
      const double f0 = nlp.f(v);
      for (int j = 0; j < n; ++j) sx_check_eq(d(0, j), part([&](const VX & y) { return VX(VX::Constant(1, nlp.f(y))); }, VX::Constant(1, f0), j)(0), tol, "objective gradient");
      const Eigen::MatrixXd H = Eigen::SparseMatrix<double>(nlp.d2f_dx2(v));
      sx_check(H.rows() == n && H.cols() == n, "size of the objective Hessian");
      for (int i = 0; i < n; ++i) {
        const VX c = part([&](const VX & y) { return VX(Eigen::MatrixXd(nlp.df_dx(y)).transpose()); }, d.transpose(), i);
        for (int j = 0; j < n; ++j) {
          if (j < i) sx_check_eq(H(i, j), 0, 0, "only the upper triangle is set");
          else sx_check_eq(H(i, j), c(j), tol, "objective Hessian");
        }
      }
    }
    {
      const Eigen::MatrixXd J = Eigen::SparseMatrix<double>(nlp.dg_dx(v));
      sx_check(J.rows() == nc && J.cols() == n, "size of the constraint Jacobian");
      const Eigen::VectorXd g0 = nlp.g(v);
      for (int j = 0; j < n; ++j) {
        const VX c = part([&](const VX & y) { return VX(nlp.g(y)); }, g0, j);
        for (int i = 0; i < nc; ++i) sx_check_eq(J(i, j), c(i), tol, "constraint Jacobian");
      }
      const Eigen::MatrixXd H = Eigen::SparseMatrix<double>(nlp.d2g_dx2(v, lam));
      sx_check(H.rows() == n && H.cols() == n, "size of the constraint Hessian");
      const Eigen::VectorXd gr = J.transpose() * lam;
      for (int i = 0; i < n; ++i) {
        const VX c = part([&](const VX & y) { return VX(Eigen::MatrixXd(nlp.dg_dx(y)).transpose() * lam); }, gr, i);
        for (int j = 0; j < n; ++j) {
          if (j < i) sx_check_eq(H(i, j), 0, 0, "only the upper triangle is set");
          else sx_check_eq(H(i, j), c(j), tol, "constraint Hessian");
        }
      }
    }
    sx_cover("ok");
  }
  void roundtrip()
  {
    NLPSolution s;
    s.status = NLPSolution::Status::Optimal;
    s.x = point(n, "x", 8);
    s.x(0) = sx_real("tf", 1. / 16, 8);
    s.lambda = point(nc, "l", 8);
    s.zl = Eigen::VectorXd::Zero(n);
    s.zu = s.zl;
    const auto sol = nlpsol_to_ocpsol(ocp, m, s);
    sx_check_same(sol.t0, 0, "initial time");
    sx_check_same(sol.tf, s.x(0), "final time");
    for (int c = 0; c < nq; ++c) sx_check_same(sol.Q(c), s.x(1 + c), "integrals");
    for (int c = 0; c < nq; ++c) sx_check_same(sol.lambda_q(c), s.lambda(nx * N + c), "integral multipliers");
    for (int c = 0; c < nce; ++c) sx_check_same(sol.lambda_ce(c), s.lambda(nx * N + nq + ncr * N + c), "end multipliers");
    const auto tau = vec(m.all_nodes());
    for (int i = 0; i <= N; ++i) {
      const auto xi = sol.x(tau[i] * sol.tf);
      for (int c = 0; c < nx; ++c) sx_check_eq(xi(c), x(s.x, i)(c), 1e-6, "state at the nodes");
      if (i == N) break;
      const auto ui = sol.u(tau[i] * sol.tf);
      for (int c = 0; c < nu; ++c) sx_check_eq(ui(c), u(s.x, i)(c), 1e-6, "input at the nodes");
      const auto li = sol.lambda_dyn(tau[i] * sol.tf);
      for (int c = 0; c < nx; ++c) sx_check_eq(li(c), s.lambda(nx * i + c), 1e-6, "dynamics multipliers at the nodes");
      const auto ri = sol.lambda_cr(tau[i] * sol.tf);
      for (int c = 0; c < ncr; ++c) sx_check_eq(ri(c), s.lambda(nx * N + nq + ncr * i + c), 1e-6, "running multipliers at the nodes");
    }
    const NLPSolution b = ocpsol_to_nlpsol(ocp, m, sol);
    sx_check(b.x.size() == n && b.lambda.size() == nc && b.zl.size() == n && b.zu.size() == n, "sizes after conversion");
    for (int i = 0; i < n; ++i) {
      sx_check_eq(b.x(i), s.x(i), 1e-6, "variables survive the round trip");
      sx_check_eq(b.zl(i), 0, 0, "bound multipliers start at zero");
      sx_check_eq(b.zu(i), 0, 0, "bound multipliers start at zero");
    }
    for (int i = 0; i < nc; ++i) sx_check_eq(b.lambda(i), s.lambda(i), 1e-6, "multipliers survive the round trip");
    sx_cover("ok");
  }
  // to another mesh: nodes of the new mesh hold the interpolated trajectory
  void remesh()
  {
    NLPSolution s;
    s.x = point(n, "x", 8);
    s.x(0) = sx_real("tf", 1. / 16, 8);
    s.lambda = point(nc, "l", 8);
    const auto sol = nlpsol_to_ocpsol(ocp, m, s);
    MeshT m2 = m;
    m2.increase_degrees();
    m2.refine_ph(0, sx_param("D", 7));
    const NLPSolution b = ocpsol_to_nlpsol(ocp, m2, sol);
    const int N2 = m2.N_colloc();
    sx_check(b.x.size() == 1 + nq + nx * (N2 + 1) + nu * N2, "size on another mesh");
    const auto tau = vec(m2.all_nodes());
    Eigen::MatrixXd X(nx, N + 1), U(nu, N);
    for (int i = 0; i <= N; ++i) { X.col(i) = x(s.x, i); if (i < N) U.col(i) = u(s.x, i); }
    for (int i = 0; i <= N2; ++i) {
      const VX xi = m.template eval<VX>(tau[i], X.colwise(), 0, true);
      for (int c = 0; c < nx; ++c) sx_check_eq(b.x(1 + nq + nx * i + c), xi(c), 1e-6, "state interpolated at the new nodes");
      if (i == N2) break;
      const VU ui = m.template eval<VU>(tau[i], U.colwise(), 0, false);
      for (int c = 0; c < nu; ++c) sx_check_eq(b.x(1 + nq + nx * (N2 + 1) + nu * i + c), ui(c), 1e-6, "input interpolated at the new nodes");
    }
    sx_check_same(b.x(0), s.x(0), "final time");
    sx_cover("ok");
  }
};
#define E(name, ...) \
  extern "C" void p##name() { T<__VA_ARGS__>{}.problem(); } \
  extern "C" void d##name() { T<__VA_ARGS__>{}.derivatives(); } \
  extern "C" void r##name() { T<__VA_ARGS__>{}.roundtrip(); } \
  extern "C" void m##name() { T<__VA_ARGS__>{}.remesh(); }
E(1, 1, 1, 1, 1, 1, false)
E(1s, 1, 1, 1, 1, 1, true)
E(2, 2, 1, 1, 2, 3, false)
E(2s, 2, 1, 2, 1, 2, true)
E(3, 1, 2, 2, 2, 1, false)
