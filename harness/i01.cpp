#include "sx.h"
#include <Eigen/Sparse>
#include <smooth/feedback/compat/ipopt.hpp>
using namespace smooth::feedback;
// A nonlinear program with symbolic coefficients; patterns are constant, values vanish at zero.
static const int N = 3, M = 2;
template<int O, bool Hess>
struct P
{
  double a[8];
  double xl_[N], xu_[N], gl_[M], gu_[M];
  long n() const { return N; }
  long m() const { return M; }
  template<typename A> static Eigen::VectorXd vec(const A & v, int k) { Eigen::VectorXd r(k); for (int i = 0; i < k; ++i) r(i) = v[i]; return r; }
  Eigen::VectorXd xl() const { return vec(xl_, N); }
  Eigen::VectorXd xu() const { return vec(xu_, N); }
  Eigen::VectorXd gl() const { return vec(gl_, M); }
  Eigen::VectorXd gu() const { return vec(gu_, M); }
  template<typename V> double f_(const V & x) const { return a[0] * x[0] * x[0] * x[0] + a[1] * x[0] * x[2] + a[2] * x[1]; }
  template<typename V> double g0(const V & x) const { return a[3] * x[0] * x[1] + a[4] * x[2]; }
  template<typename V> double g1(const V & x) const { return a[5] * x[1] * x[1] * x[2] + a[6] * x[0]; }
  double f(const Eigen::VectorXd & x) const { return f_(x); }
  Eigen::SparseMatrix<double, O> df_dx(const Eigen::VectorXd & x) const
  {
    Eigen::SparseMatrix<double, O> r(1, N);
    r.insert(0, 0) = 3 * a[0] * x[0] * x[0] + a[1] * x[2];
    r.insert(0, 1) = a[2];
    r.insert(0, 2) = a[1] * x[0];
    r.makeCompressed();
    return r;
  }
  Eigen::VectorXd g(const Eigen::VectorXd & x) const { Eigen::VectorXd r(M); r << g0(x), g1(x); return r; }
  Eigen::SparseMatrix<double, O> J{M, N};
  const Eigen::SparseMatrix<double, O> & dg_dx(const Eigen::VectorXd & x)
  {
    J.coeffRef(0, 0) = a[3] * x[1];
    J.coeffRef(0, 1) = a[3] * x[0];
    J.coeffRef(0, 2) = a[4];
    J.coeffRef(1, 0) = a[6];
    J.coeffRef(1, 1) = 2 * a[5] * x[1] * x[2];
    J.coeffRef(1, 2) = a[5] * x[1] * x[1];
    J.makeCompressed();
    return J;
  }
  Eigen::SparseMatrix<double> Hf{N, N}, Hg{N, N};
  const Eigen::SparseMatrix<double> & d2f_dx2(const Eigen::VectorXd & x) requires(Hess)
  {
    Hf.coeffRef(0, 0) = 6 * a[0] * x[0];
    Hf.coeffRef(0, 2) = a[1];
    Hf.makeCompressed();
    return Hf;
  }
  const Eigen::SparseMatrix<double> & d2g_dx2(const Eigen::VectorXd & x, const Eigen::VectorXd & l) requires(Hess)
  {
    Hg.coeffRef(0, 1) = l(0) * a[3];
    Hg.coeffRef(1, 1) = 2 * l(1) * a[5] * x[2];
    Hg.coeffRef(1, 2) = 2 * l(1) * a[5] * x[1];
    Hg.makeCompressed();
    return Hg;
  }
  // the same derivatives as dense formulas
  void jac(const double * x, double (*r)[N]) const
  {
    double d[M][N] = {{a[3] * x[1], a[3] * x[0], a[4]}, {a[6], 2 * a[5] * x[1] * x[2], a[5] * x[1] * x[1]}};
    for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) r[i][j] = d[i][j];
  }
  double hes(const double * x, const double * l, double s, int i, int j) const
  {
    if (i > j) { const int t = i; i = j; j = t; }
    const int k = 3 * i + j;
    return k == 0 ? s * 6 * a[0] * x[0] : k == 2 ? s * a[1] : k == 1 ? l[0] * a[3] : k == 4 ? 2 * l[1] * a[5] * x[2] : k == 5 ? 2 * l[1] * a[5] * x[1] : 0;
  }
};
template<int O, bool Hess>
P<O, Hess> make()
{
  P<O, Hess> p;
  for (int i = 0; i < 8; ++i) p.a[i] = sx_real("a", -2, 2);
  const double inf = std::numeric_limits<double>::infinity();
  for (int i = 0; i < N; ++i) {
    p.xl_[i] = i == 1 ? -inf : sx_real("xl", -1e30, 1e30);
    p.xu_[i] = i == 2 ? inf : sx_real("xu", -1e30, 1e30);
  }
  for (int i = 0; i < M; ++i) {
    p.gl_[i] = i == 0 ? -inf : sx_real("gl", -1e30, 1e30);
    p.gu_[i] = i == 1 ? inf : sx_real("gu", -1e30, 1e30);
  }
  return p;
}
template<typename T> void point(double * x, int n, const char * nm) { for (int i = 0; i < n; ++i) x[i] = sx_real(nm, -3, 3); }

template<int O, bool Hess>
void callbacks()
{
  const auto p = make<O, Hess>();
  const bool uh = Hess && sx_param("hess", 1);
  IpoptNLP<P<O, Hess>> nlp(p, uh);
  Ipopt::TNLP & t = nlp;
  Ipopt::Index n = -1, m = -1, nj = -1, nh = -1;
  Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
  sx_check(t.get_nlp_info(n, m, nj, nh, st), "callback failed");
  sx_check(n == N && m == M, "wrong sizes");
  sx_check(nj >= 6 - 0 && nj <= N * M, "wrong number of Jacobian entries");
  sx_check(uh ? nh >= 5 && nh <= 6 : nh == 0, "wrong number of Hessian entries");
  sx_check(st == Ipopt::TNLP::C_STYLE, "wrong index style");
  double xl[N], xu[N], gl[M], gu[M];
  sx_check(t.get_bounds_info(n, xl, xu, m, gl, gu), "callback failed");
  // Ipopt regards numbers beyond 1e19 as infinite
  for (int i = 0; i < N; ++i) {
    sx_check((xl[i] <= -1e19) == (p.xl_[i] <= -1e19) && (xl[i] <= -1e19 || xl[i] == p.xl_[i]), "lower variable bound wrong");
    sx_check((xu[i] >= 1e19) == (p.xu_[i] >= 1e19) && (xu[i] >= 1e19 || xu[i] == p.xu_[i]), "upper variable bound wrong");
    sx_check(sx_finite(xl[i]) && sx_finite(xu[i]), "infinite number handed over");
  }
  for (int i = 0; i < M; ++i) {
    sx_check((gl[i] <= -1e19) == (p.gl_[i] <= -1e19) && (gl[i] <= -1e19 || gl[i] == p.gl_[i]), "lower constraint bound wrong");
    sx_check((gu[i] >= 1e19) == (p.gu_[i] >= 1e19) && (gu[i] >= 1e19 || gu[i] == p.gu_[i]), "upper constraint bound wrong");
  }
  int jr[9], jc[9], hr[9], hc[9];
  for (int i = 0; i < 9; ++i) jr[i] = jc[i] = hr[i] = hc[i] = -1;
  sx_check(t.eval_jac_g(n, nullptr, false, m, nj, jr, jc, nullptr), "callback failed");
  if (uh) sx_check(t.eval_h(n, nullptr, false, 0, m, nullptr, false, nh, hr, hc, nullptr), "callback failed");
  for (int k = 0; k < nj; ++k) sx_check(jr[k] >= 0 && jr[k] < M && jc[k] >= 0 && jc[k] < N, "Jacobian position out of range");
  for (int k = 0; k < nh; ++k) sx_check(hr[k] >= 0 && hr[k] < N && hc[k] >= 0 && hc[k] <= hr[k], "Hessian position not in the lower triangle");
  const int reps = sx_param("reps", 2);
  for (int rep = 0; rep < reps; ++rep) {
    double x[N], l[M], f = 0, gf[N] = {}, g[M] = {}, jv[9] = {}, hv[9] = {};
    const bool zero = rep == 0 && sx_param("zero", 0);
    for (int i = 0; i < N; ++i) x[i] = zero ? 0 : sx_real("x", -3, 3);
    for (int i = 0; i < M; ++i) l[i] = zero ? 0 : sx_real("l", -3, 3);
    const double s = zero ? 0 : sx_real("sigma", -3, 3);
    auto ev = [&](int what) {
      if (what == 0) sx_check(t.eval_f(n, x, true, f), "callback failed");
      if (what == 1) sx_check(t.eval_grad_f(n, x, false, gf), "callback failed");
      if (what == 2) sx_check(t.eval_g(n, x, true, m, g), "callback failed");
      if (what == 3) sx_check(t.eval_jac_g(n, x, false, m, nj, nullptr, nullptr, jv), "callback failed");
      if (what == 4 && uh) sx_check(t.eval_h(n, x, false, s, m, l, rep % 2, nh, nullptr, nullptr, hv), "callback failed");
    };
    if (sx_param("order", 0)) for (int w = 4; w >= 0; --w) ev(w);
    else for (int w = 0; w < 5; ++w) ev(w);
    sx_check_eq(f, p.f_(x), 1e-9, "objective wrong");
    const double gr[N] = {3 * p.a[0] * x[0] * x[0] + p.a[1] * x[2], p.a[2], p.a[1] * x[0]};
    for (int i = 0; i < N; ++i) sx_check_eq(gf[i], gr[i], 1e-9, "objective gradient wrong");
    sx_check_eq(g[0], p.g0(x), 1e-9, "constraint value wrong");
    sx_check_eq(g[1], p.g1(x), 1e-9, "constraint value wrong");
    double J[M][N] = {}, E[M][N];
    for (int k = 0; k < nj; ++k) J[jr[k]][jc[k]] += jv[k];
    p.jac(x, E);
    for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) sx_check_eq(J[i][j], E[i][j], 1e-9, "Jacobian does not fit its declared positions");
    if (uh) {
      double H[N][N] = {};
      for (int k = 0; k < nh; ++k) H[hr[k]][hc[k]] += hv[k];
      for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) sx_check_eq(H[i][j], p.hes(x, l, s, i, j), 1e-9, "Hessian of the Lagrangian wrong");
    }
  }
}
// final point and starting point
template<int O, bool Hess>
void final_()
{
  const auto p = make<O, Hess>();
  IpoptNLP<P<O, Hess>> nlp(p, Hess);
  Ipopt::TNLP & t = nlp;
  static const Ipopt::SolverReturn in[] = {Ipopt::SUCCESS, Ipopt::STOP_AT_ACCEPTABLE_POINT, Ipopt::MAXITER_EXCEEDED, Ipopt::CPUTIME_EXCEEDED, Ipopt::LOCAL_INFEASIBILITY,
    Ipopt::DIVERGING_ITERATES, Ipopt::RESTORATION_FAILURE, Ipopt::USER_REQUESTED_STOP, Ipopt::STOP_AT_TINY_STEP, Ipopt::ERROR_IN_STEP_COMPUTATION, Ipopt::INVALID_NUMBER_DETECTED, Ipopt::FEASIBLE_POINT_FOUND, Ipopt::INTERNAL_ERROR};
  using S = NLPSolution::Status;
  static const S out[] = {S::Optimal, S::Optimal, S::MaxIterations, S::MaxTime, S::PrimalInfeasible, S::DualInfeasible, S::Unknown, S::Unknown, S::Unknown, S::Unknown, S::Unknown, S::Unknown, S::Unknown};
  double x[N], zl[N], zu[N], l[M], g[M];
  for (int rep = 0; rep < 2; ++rep) {
    const int k = rep == 0 ? 2 : (int)sx_choose("status", 13);
    for (int i = 0; i < N; ++i) { x[i] = sx_real("x", -3, 3); zl[i] = sx_real("zl", 0, 3); zu[i] = sx_real("zu", 0, 3); }
    for (int i = 0; i < M; ++i) { l[i] = sx_real("l", -3, 3); g[i] = sx_real("g", -3, 3); }
    const double obj = sx_real("obj", -9, 9);
    const int it = sx_int("iter", 0, 3000);
    alignas(16) int data[sizeof(Ipopt::IpoptData) / 4 + 4];
    for (auto & d : data) d = it;
    t.finalize_solution(in[k], N, x, zl, zu, M, g, l, obj, reinterpret_cast<const Ipopt::IpoptData *>(data), nullptr);
    const NLPSolution & s = nlp.sol();
    sx_check(s.status == out[k], "status wrong");
    sx_check((long)s.iter == it, "iteration count wrong");
    sx_check(s.x.size() == N && s.zl.size() == N && s.zu.size() == N && s.lambda.size() == M, "sizes wrong");
    for (int i = 0; i < N; ++i) {
      sx_check_same(s.x(i), x[i], "final point changed");
      sx_check_same(s.zl(i), zl[i], "lower bound multiplier changed");
      sx_check_same(s.zu(i), zu[i], "upper bound multiplier changed");
    }
    for (int i = 0; i < M; ++i) sx_check_same(s.lambda(i), l[i], "constraint multiplier changed");
    sx_check_same(s.objective, obj, "objective changed");
    double y[N], yl[N], yu[N], yg[M];
    const int want = sx_param("want", 7);
    for (int i = 0; i < N; ++i) y[i] = yl[i] = yu[i] = -77;
    for (int i = 0; i < M; ++i) yg[i] = -77;
    sx_check(t.get_starting_point(N, want & 1, y, want & 2, yl, yu, M, want & 4, yg), "callback failed");
    for (int i = 0; i < N; ++i) {
      sx_check_same(y[i], want & 1 ? x[i] : -77, "starting point is not the last solution");
      sx_check_same(yl[i], want & 2 ? zl[i] : -77, "starting multiplier is not the last one");
      sx_check_same(yu[i], want & 2 ? zu[i] : -77, "starting multiplier is not the last one");
    }
    for (int i = 0; i < M; ++i) sx_check_same(yg[i], want & 4 ? l[i] : -77, "starting multiplier is not the last one");
  }
}
extern "C" {
void cbc() { callbacks<0, true>(); }
void cbr() { callbacks<1, true>(); }
void fin1() { final_<0, true>(); }
}
