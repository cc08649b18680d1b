// X01: model predictive control, X02: its cost functors
#include "ocp_group.h"
#include <chrono>
#include <smooth/feedback/qp.hpp>
// the solver is replaced by one that records what it is given and returns an arbitrary solution
#define QPSolver RealQPSolver
#include <smooth/feedback/qp_solver.hpp>
#undef QPSolver
namespace smooth::feedback {
struct Handed
{
  Eigen::MatrixXd P, A;
  Eigen::VectorXd q, l, u;
  bool warm = false;
  Eigen::VectorXd wx, wy;
  QPSolution<-1, -1, double> sol;  // returned
  int code = 0;
  QPSolverParams prm;
};
static Handed handed;
static int nsolve = 0;
template<typename Pbm> class QPSolver
{
public:
  QPSolver(const QPSolverParams & p = {}) : prm(p) {}
  QPSolver(const Pbm & pbm, const QPSolverParams & p = {}) : prm(p) { analyze(pbm); }
  void analyze(const Pbm & pbm)
  {
    n = pbm.A.cols();
    m = pbm.A.rows();
    fresh = true;
    pat.clear();
  }
  const QPSolution<-1, -1, double> & solve(const Pbm & pbm, std::optional<std::reference_wrapper<const QPSolution<-1, -1, double>>> ws = {})
  {
    sx_check(n == pbm.A.cols() && m == pbm.A.rows(), "solver prepared for a problem of this size");
    // the factorization is prepared for the nonzeros at the first call
    std::vector<char> p(n * (n + m), 0);
    for (int i = 0; i < pbm.P.outerSize(); ++i) for (typename decltype(pbm.P)::InnerIterator it(pbm.P, i); it; ++it) if (it.row() <= it.col()) p[it.row() * (n + m) + it.col()] = 1;
    for (int i = 0; i < pbm.A.outerSize(); ++i) for (typename decltype(pbm.A)::InnerIterator it(pbm.A, i); it; ++it) p[it.col() * (n + m) + n + it.row()] = 1;
    if (fresh) pat = p;
    bool ok = true;
    for (std::size_t i = 0; i < p.size(); ++i) if (p[i] && !pat[i]) ok = false;
    sx_check(ok, "solver prepared for these nonzeros");
    fresh = false;
    handed.P = Eigen::MatrixXd(pbm.P); handed.A = Eigen::MatrixXd(pbm.A); handed.q = pbm.q; handed.l = pbm.l; handed.u = pbm.u; handed.prm = prm;
    handed.warm = ws.has_value();
    if (handed.warm) { handed.wx = ws->get().primal; handed.wy = ws->get().dual; }
    const std::string s = std::to_string(nsolve++);
    sol_.primal.resize(n);
    sol_.dual.resize(m);
    for (int i = 0; i < n; ++i) sol_.primal(i) = sx_real(nm(("p" + s + "_").c_str(), i).c_str(), -2, 2);
    for (int i = 0; i < m; ++i) sol_.dual(i) = sx_real(nm(("y" + s + "_").c_str(), i).c_str(), -2, 2);
    const QPSolutionStatus st[] = {QPSolutionStatus::Optimal, QPSolutionStatus::MaxTime, QPSolutionStatus::MaxIterations, QPSolutionStatus::PrimalInfeasible, QPSolutionStatus::DualInfeasible, QPSolutionStatus::Unknown, QPSolutionStatus::PolishFailed};
    handed.code = sx_param("codes", 0) ? sx_choose(("code" + s).c_str(), 7) : 0;
    sol_.code = st[handed.code];
    handed.sol = sol_;
    return sol_;
  }
  const QPSolution<-1, -1, double> & sol() const { return sol_; }

private:
  QPSolverParams prm;
  Eigen::Index n = -1, m = -1;
  bool fresh = true;
  std::vector<char> pat;
  QPSolution<-1, -1, double> sol_;
};
}  // namespace smooth::feedback
#include <smooth/feedback/mpc.hpp>
using namespace smooth::feedback;
using namespace smooth;

// polynomials of coordinates of state and input, with optional time
template<class T, class X, class U, int nf, bool Timed> struct Model
{
  static constexpr int nx = Dof<X>, nu = Dof<U>, n = 1 + nx + nu;
  GPoly<n, nf, true> g;
  double t = 0;
  T zero{};
  template<class S> Eigen::Matrix<S, nf, 1> val(const auto & x, const auto & u, double tt) const
  {
    Eigen::Matrix<S, n, 1> r;
    r(0) = S(tt);
    for (int i = 0; i < nx; ++i) r(1 + i) = coords(x)(i);
    for (int i = 0; i < nu; ++i) r(1 + nx + i) = coords(u)(i);
    return g.p.value(r);
  }
  Eigen::Matrix<double, nf, n> jac(const X & x, const U & u, double tt) const
  {
    Eigen::Matrix<double, n, 1> r;
    r(0) = tt;
    for (int i = 0; i < nx; ++i) r(1 + i) = coords(x)(i);
    for (int i = 0; i < nu; ++i) r(1 + nx + i) = coords(u)(i);
    Chart<n> c;
    c.set(1, x);
    c.set(1 + nx, u);
    return g.jac(r, c);
  }
  void set_time(T tt) requires(Timed) { t = time_trait<T>::minus(tt, zero); }
  Eigen::Matrix<double, nf, 1> operator()(const X & x, const U & u) const { return val<double>(x, u, t); }
  Eigen::Matrix<double, nf, nx + nu> jacobian(const X & x, const U & u) const { return jac(x, u, t).rightCols(nx + nu); }
};
template<class T> static double tick(double t, double s) { return time_trait<T>::minus(time_trait<T>::plus(time_trait<T>::plus(T{}, t), s), T{}); }
template<class T> static T at(double s) { return time_trait<T>::plus(T{}, s); }

template<class T, class X, class U, int ncr, bool TF, bool TC, std::size_t Km> struct Test
{
  static constexpr int nx = Dof<X>, nu = Dof<U>;
  using E = Tangent<X>; using V = Tangent<U>;
  using F = Model<T, X, U, nx, TF>; using CR = Model<T, X, U, ncr, TC>;
  using M = MPC<T, X, U, F, CR, Km, diff::Type::Analytic>;
  F f;
  CR cr;
  Eigen::Matrix<double, ncr, 1> crl, cru;
  MPCParams prm;
  MPCWeights<X, U> w;
  Traj<X> xd;
  Traj<U> ud;
  bool desired = false;
  double tz = 0;  // zero time of the desired trajectories
  Test()
  {
    const int s = sx_param("seed", 1), d = sx_param("deg", 2);
    f.g.p.seed = s; cr.g.p.seed = s + 1; f.g.p.deg = cr.g.p.deg = d;
    for (int i = 0; i < ncr; ++i) { crl(i) = sx_real(nm("crl", i).c_str(), -4, 0); cru(i) = sx_real(nm("cru", i).c_str(), 0, 4); }
    prm.K = sx_param("K", 2);
    prm.tf = fixed() ? 1.5 : sx_real("tf", 0.25, 4);
    prm.warmstart = !sx_param("cold", 0);
    prm.qp.max_iter = 17;
    prm.qp.alpha = 1.25;
    xd.g = E::Zero(); xd.v = E::Zero(); ud.g = V::Zero(); ud.v = V::Zero();
  }
  static bool fixed() { return sx_param("tfix", 0) || (!std::is_same_v<T, double> && !std::is_same_v<T, std::chrono::duration<double>>); }
  template<int k> static Eigen::Matrix<double, k, k> sym(const char * p, int mask)
  {
    Eigen::Matrix<double, k, k> m;
    for (int i = 0; i < k; ++i) for (int j = i; j < k; ++j) {
      // bit 0: no off-diagonal entries, bit 1: first diagonal entry zero
      if ((mask & 1 && i != j) || (mask & 2 && i == 0) ) m(i, j) = m(j, i) = 0;
      else m(i, j) = m(j, i) = sx_real((std::string(p) + std::to_string(i) + std::to_string(j)).c_str(), 0.125, 2);
    }
    return m;
  }
  void weights(M & m, const char * p)
  {
    const int k = sx_param("mask", 0);
    w.Q = sym<nx>((std::string(p) + "Q").c_str(), k & 3);
    w.Qtf = sym<nx>((std::string(p) + "T").c_str(), (k >> 2) & 3);
    w.R = sym<nu>((std::string(p) + "R").c_str(), (k >> 4) & 3);
    m.set_weights(w);
  }
  void desire(M & m, const std::string & p)
  {
    xd.g = tangent<X>((p + "xg").c_str()); xd.v = tangent<X>((p + "xv").c_str());
    ud.g = tangent<U>((p + "ug").c_str()); ud.v = tangent<U>((p + "uv").c_str());
    // the relative comparisons asserted by the cost functors are sensitive to rounding of the nodes near zero
    if (Km == 3) { xd.g += E::Constant(32); ud.g += V::Constant(32); }
    desired = true;
    const Traj<X> x = xd;
    const Traj<U> u = ud;
    const T z{};
    if (sx_param("rel", 0)) {
      tz = double(sx_param("tz", 1));
      m.set_xdes_rel(xd, at<T>(tz));
      m.set_udes_rel([u](double t) { return u(t); }, at<T>(tz));
    } else {
      tz = 0;
      m.set_xdes([x, z](T t) { return x(time_trait<T>::minus(t, z)); }, [x, z](T t) -> E { return std::get<1>(diff::dr<1>(x, wrt(time_trait<T>::minus(t, z)))); });
      m.set_udes([u, z](T t) { return u(time_trait<T>::minus(t, z)); });
    }
  }
  // seconds since zero of an instant after t, to the resolution of the type
  static double later(double t, double s) { if constexpr (std::is_same_v<T, double>) return t + s; else return tick<T>(t, s); }
  void compare(double t, const X & x)
  {
    const Mesh<Km, Km> mesh{(prm.K + Km - 1) / Km};
    const int N = mesh.N_colloc(), nv = nx * (N + 1) + nu * N, nc = nx * N + ncr * N + nx, uB = nx * (N + 1), o1 = nx * N, o2 = o1 + ncr * N;
    sx_check(handed.P.rows() == nv && handed.A.rows() == nc && handed.A.cols() == nv, "sizes");
    Eigen::MatrixXd P = Eigen::MatrixXd::Zero(nv, nv), A = Eigen::MatrixXd::Zero(nc, nv);
    Eigen::VectorXd l(nc), u(nc);
    const auto tau = vec(mesh.all_nodes()), wt = vec(mesh.all_weights());
    int i = 0;
    for (int iv = 0, s = 0; iv < int(mesh.N_ivals()); ++iv) {
      const Eigen::MatrixXd D = mesh.interval_diffmat(iv);
      for (int j = 0; j < int(Km); ++j, ++i) {
        const double ts = later(t, prm.tf * tau[i]), tr = ts - tz;
        const X xx = xd(tr);
        const U uu = ud(tr);
        const E dx = desired ? E(std::get<1>(diff::dr<1>(xd, wrt(tr)))) : E(E::Zero()), fv = f.template val<double>(xx, uu, TF ? ts : 0);
        const auto J = f.jac(xx, uu, TF ? ts : 0);
        Eigen::MatrixXd Jx = J.middleCols(1, nx);
        for (int c = 0; c < nx; ++c) Jx.col(c) += smooth::ad<X>(E(E::Unit(c))) * (fv + dx) * 0.5;
        A.block(nx * i, nx * i, nx, nx) += prm.tf * Jx;
        A.block(nx * i, uB + nu * i, nx, nu) += prm.tf * J.rightCols(nu);
        for (int k = 0; k <= int(Km); ++k) for (int c = 0; c < nx; ++c) A(nx * i + c, nx * (s + k) + c) -= D(k, j);
        l.segment(nx * i, nx) = -prm.tf * (fv - dx);
        u.segment(nx * i, nx) = -prm.tf * (fv - dx);
        const auto C = cr.jac(xx, uu, TC ? ts : 0);
        const auto cv = cr.template val<double>(xx, uu, TC ? ts : 0);
        A.block(o1 + ncr * i, nx * i, ncr, nx) = C.middleCols(1, nx);
        A.block(o1 + ncr * i, uB + nu * i, ncr, nu) = C.rightCols(nu);
        l.segment(o1 + ncr * i, ncr) = crl - cv;
        u.segment(o1 + ncr * i, ncr) = cru - cv;
        P.block(nx * i, nx * i, nx, nx) = prm.tf * wt[i] * w.Q;
        P.block(uB + nu * i, uB + nu * i, nu, nu) = prm.tf * wt[i] * w.R;
      }
      s += Km;
    }
    P.block(nx * N, nx * N, nx, nx) = w.Qtf;
    const E e0 = rminus(xd(t - tz), x);
    A.block(o2, 0, nx, nx) = dr_expinv<X>(e0);
    l.tail(nx) = -e0;
    u.tail(nx) = -e0;
    for (int a = 0; a < nc; ++a) {
      const char * s = a < o1 ? "dynamics row" : a < o2 ? "running constraint row" : "initial state row";
      for (int b = 0; b < nv; ++b) sx_check_eq(handed.A(a, b), A(a, b), 1e-8, s);
      sx_check_eq(handed.l(a), l(a), 1e-8, a < o1 ? "dynamics bound" : a < o2 ? "running constraint lower bound" : "initial state");
      sx_check_eq(handed.u(a), u(a), 1e-8, a < o1 ? "dynamics bound" : a < o2 ? "running constraint upper bound" : "initial state");
    }
    for (int a = 0; a < nv; ++a) {
      sx_check_eq(handed.q(a), 0, 0, "no linear cost");
      for (int b = a; b < nv; ++b) sx_check_eq(handed.P(a, b), P(a, b), 1e-8, "weights");
    }
    sx_check(handed.prm.max_iter == 17, "solver parameters");
    sx_check_same(handed.prm.alpha, 1.25, "solver parameters");
  }
  std::optional<QPSolution<-1, -1, double>> last;
  void call(M & m, double t, const std::string & p)
  {
    const X x = from_coords<X>(tangent<X>((p + "x").c_str()));
    std::vector<U> ut;
    std::vector<X> xt;
    const bool tr = sx_param("traj", 1);
    const auto [u, code] = tr ? m(at<T>(t), x, ut, xt) : m(at<T>(t), x);
    compare(t, x);
    // warm start
    sx_check(handed.warm == last.has_value(), "warm start given exactly when there is a usable solution");
    if (last) {
      for (int i = 0; i < last->primal.size(); ++i) sx_check_same(handed.wx(i), last->primal(i), "warm start is the last usable solution");
      for (int i = 0; i < last->dual.size(); ++i) sx_check_same(handed.wy(i), last->dual(i), "warm start is the last usable solution");
    }
    // result
    const QPSolution<-1, -1, double> s = handed.sol;
    const int N = ((prm.K + Km - 1) / Km) * Km;
    const auto ue = coords(rplus(ud(t - tz), V(s.primal.segment(nx * (N + 1), nu))));
    for (int c = 0; c < nu; ++c) sx_check_eq(coords(u)(c), ue(c), 1e-9, "desired input plus first deviation");
    if (tr) {
      sx_check(int(ut.size()) == N && int(xt.size()) == N + 1, "trajectory sizes");
      const Mesh<Km, Km> mesh{(prm.K + Km - 1) / Km};
      const auto tau = vec(mesh.all_nodes());
      for (int i = 0; i <= N; ++i) {
        const double r = later(t, prm.tf * tau[i]) - tz;
        const auto xe = coords(rplus(xd(r), E(s.primal.segment(nx * i, nx))));
        for (int c = 0; c < nx; ++c) sx_check_eq(coords(xt[i])(c), xe(c), 1e-9, "state trajectory");
        if (i == N) break;
        const auto ue2 = coords(rplus(ud(r), V(s.primal.segment(nx * (N + 1) + nu * i, nu))));
        for (int c = 0; c < nu; ++c) sx_check_eq(coords(ut[i])(c), ue2(c), 1e-9, "input trajectory");
      }
    }
    sx_check(code == s.code, "exit code");
    const int ci = handed.code;
    if (ci == 6) sx_stop();
    if (prm.warmstart && ci < 3) last = s;
  }
  double time(const char * n) { return !fixed() ? sx_real(n, -4, 4) : double(sx_param(n, 2)); }
  void run()
  {
    nsolve = 0;
    M m(f, cr, crl, cru, prm);
    // what happens before the first call, and between calls: 1 weights, 2 desired trajectory, 4 reset
    const int first = sx_param("first", 2), then = sx_param("then", 0), third = sx_param("third", -1);
    if (first & 1) weights(m, "a");
    if (first & 2) desire(m, "a");
    call(m, time("t0"), "a");
    auto next = [&](int what, const char * p, const char * t) {
      if (what & 1) weights(m, p);
      if (what & 2) desire(m, p);
      if (what & 4) { m.reset_warmstart(); last = {}; }
      call(m, time(t), p);
    };
    if (then >= 0) next(then, "b", "t1");
    if (third >= 0) next(third, "c", "t2");
    sx_cover("ok");
  }
};
// cost functors
template<class X, class U> struct Cost
{
  static constexpr int nx = Dof<X>, nu = Dof<U>;
  void run()
  {
    const int k = sx_param("mask", 0);
    using TT = Test<double, X, U, 1, false, false, 2>;
    smooth::feedback::detail::MPCObj<X> o;
    o.xf_des = from_coords<X>(tangent<X>("xf"));
    smooth::feedback::detail::MPCIntegrand<double, X, U> g{std::make_shared<smooth::feedback::detail::XDes<double, X>>(), std::make_shared<smooth::feedback::detail::UDes<double, U>>()};
    Traj<X> xd; Traj<U> ud;
    xd.g = tangent<X>("xg"); xd.v = tangent<X>("xv"); ud.g = tangent<U>("ug"); ud.v = tangent<U>("uv");
    g.xdes->xdes = [xd](double t) { return xd(t); };
    g.udes->udes = [ud](double t) { return ud(t); };
    for (int rep = 0; rep <= sx_param("again", 0); ++rep) {
      const int mk = rep ? sx_param("mask2", 0) : k;
      const std::string p = rep ? "b" : "a";
      o.Qtf = TT::template sym<nx>((p + "T").c_str(), (mk >> 2) & 3);
      g.Q = TT::template sym<nx>((p + "Q").c_str(), mk & 3);
      g.R = TT::template sym<nu>((p + "R").c_str(), (mk >> 4) & 3);
      const double t0 = sx_real((p + "t0").c_str(), -4, 4), t = sx_real((p + "t").c_str(), 0, 4);
      g.xdes->t0 = t0; g.udes->t0 = t0;
      using Q1 = Eigen::Matrix<double, 1, 1>;
      const X x0 = from_coords<X>(tangent<X>("x0"));
      const Eigen::MatrixXd H(o.hessian(1., x0, o.xf_des, Q1::Ones()).get()), J = o.jacobian(1., x0, o.xf_des, Q1::Ones());
      const int n = 1 + 2 * nx + 1;
      sx_check(H.rows() == n && H.cols() == n && J.cols() == n, "sizes");
      for (int i = 0; i < n; ++i) {
        sx_check_eq(J(0, i), i == n - 1, 0, "gradient of the objective");
        for (int j = 0; j < n; ++j) {
          const bool in = i > nx && i <= 2 * nx && j > nx && j <= 2 * nx;
          sx_check_same(H(i, j), in ? o.Qtf(i - 1 - nx, j - 1 - nx) : 0, "Hessian of the final cost");
        }
      }
      sx_check_same(o(1., x0, o.xf_des, Q1::Ones()), 1, "objective");
      const X x = xd(t0 + t);
      const U u = ud(t0 + t);
      const Eigen::MatrixXd G(g.hessian(t, x, u).get()), K = g.jacobian(t, x, u);
      const int ng = 1 + nx + nu;
      sx_check(G.rows() == ng && G.cols() == ng && K.cols() == ng, "sizes");
      for (int i = 0; i < ng; ++i) {
        sx_check_eq(K(0, i), 0, 0, "gradient of the integrand");
        for (int j = 0; j < ng; ++j) {
          double e = 0;
          if (i > 0 && j > 0 && i <= nx && j <= nx) e = g.Q(i - 1, j - 1);
          if (i > nx && j > nx) e = g.R(i - 1 - nx, j - 1 - nx);
          sx_check_same(G(i, j), e, "Hessian of the integrand");
        }
      }
      sx_check_eq(g(t, x, u)(0), 0, 0, "integrand");
    }
    sx_cover("ok");
  }
};
using dsec = std::chrono::duration<double>;
using msec = std::chrono::milliseconds;
using tp = std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>;
#if KIND == 0
extern "C" void x11() { Test<double, Vd1, Vd1, 1, false, false, 2>{}.run(); }
extern "C" void x21t() { Test<double, Vd2, Vd1, 2, true, true, 1>{}.run(); }
extern "C" void x12f() { Test<double, Vd1, Vd2, 1, true, false, 3>{}.run(); }
#elif KIND == 1
extern "C" void xh1() { Test<double, HeisD, Vd1, 1, false, false, 1>{}.run(); }
extern "C" void xhht() { Test<double, HeisD, HeisD, 2, false, true, 2>{}.run(); }
#elif KIND == 2
extern "C" void xd21() { Test<dsec, Vd2, Vd1, 1, true, true, 2>{}.run(); }
extern "C" void xm11() { Test<msec, Vd1, Vd1, 1, true, true, 1>{}.run(); }
extern "C" void xp11() { Test<tp, Vd1, Vd1, 1, true, true, 1>{}.run(); }
#elif KIND == 3
extern "C" void c11() { Cost<Vd1, Vd1>{}.run(); }
extern "C" void c12() { Cost<Vd1, Vd2>{}.run(); }
extern "C" void c21() { Cost<Vd2, Vd1>{}.run(); }
extern "C" void ch2() { Cost<HeisD, Vd2>{}.run(); }
extern "C" void c2h() { Cost<Vd2, HeisD>{}.run(); }
#endif
