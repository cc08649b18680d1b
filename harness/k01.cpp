// K01: the OSQP interface
#include "qp_common.h"
#include <string>
#include <vector>
#include <osqp/osqp.h>

struct Osqp
{
  bool setup = false, warm = false, solved = false, cleaned = false;
  int n = -1, m = -1, csc = 0;
  Eigen::MatrixXd P, A;
  Eigen::VectorXd q, l, u, wx, wy, x, y, x0, y0;
  OSQPSettings st{};
  c_int err_setup = 0, err_solve = 0, iter = 0, status = 0;
  double obj = 0;
  OSQPWorkspace work{};
  OSQPSolution sol{};
  OSQPInfo info{};
};
static Osqp F;

void osqp_set_default_settings(OSQPSettings * s)
{
  *s = OSQPSettings{.rho = 0.1, .sigma = 1e-6, .scaling = 10, .adaptive_rho = 1, .adaptive_rho_interval = 0, .adaptive_rho_tolerance = 5, .adaptive_rho_fraction = 0.4, .max_iter = 4000, .eps_abs = 1e-3, .eps_rel = 1e-3, .eps_prim_inf = 1e-4, .eps_dual_inf = 1e-4, .alpha = 1.6, .linsys_solver = QDLDL_SOLVER, .delta = 1e-6, .polish = 0, .polish_refine_iter = 3, .verbose = 1, .scaled_termination = 0, .check_termination = 25, .warm_start = 1, .time_limit = 0};
}
csc * csc_matrix(c_int m, c_int n, c_int nzmax, c_float * x, c_int * i, c_int * p)
{
  csc * M = static_cast<csc *>(c_malloc(sizeof(csc)));
  *M = csc{nzmax, m, n, p, i, x, -1};
  ++F.csc;
  return M;
}
static void dense(const csc * M, Eigen::MatrixXd & D, bool upper)
{
  sx_check(M->nz == -1 && M->p[0] == 0 && M->p[M->n] <= M->nzmax, "compressed columns");
  D.setZero(M->m, M->n);
  for (c_int c = 0; c < M->n; ++c) {
    sx_check(M->p[c] <= M->p[c + 1], "column pointers increase");
    for (c_int k = M->p[c]; k < M->p[c + 1]; ++k) {
      const c_int r = M->i[k];
      sx_check(r >= 0 && r < M->m, "row index in range");
      sx_check(k == M->p[c] || M->i[k - 1] < r, "row indices increase within a column");
      if (upper) sx_check(r <= c, "P is upper triangular");
      D(r, c) = M->x[k];
    }
  }
}
static Eigen::VectorXd vec(const double * p, int n) { return Eigen::Map<const Eigen::VectorXd>(p, n); }

c_int osqp_setup(OSQPWorkspace ** workp, const OSQPData * d, const OSQPSettings * s)
{
  sx_check(!F.setup, "one setup");
  F.setup = true;
  F.n = d->n;
  F.m = d->m;
  sx_check(d->P->m == d->n && d->P->n == d->n && d->A->n == d->n && d->A->m == d->m, "sizes agree");
  dense(d->P, F.P, true);
  dense(d->A, F.A, false);
  F.q = vec(d->q, F.n);
  F.l = vec(d->l, F.m);
  F.u = vec(d->u, F.m);
  F.st = *s;
  // a failed setup leaves the workspace alone
  F.err_setup = sx_param("fail", 0) ? sx_choose("setup", 8) : 0;
  if (F.err_setup == 1 || F.err_setup == 2) return F.err_setup;  // data or settings not valid
  F.x.resize(F.n);
  F.y.resize(F.m);
  F.sol = {F.x.data(), F.y.data()};
  F.work = {nullptr, &F.st, &F.sol, &F.info};
  F.info.status_val = OSQP_UNSOLVED;
  *workp = &F.work;
  return F.err_setup;
}
c_int osqp_warm_start(OSQPWorkspace * w, const c_float * x, const c_float * y)
{
  sx_check(w == &F.work, "warm start after a successful setup");
  sx_check(!F.solved, "warm start before the solution");
  F.warm = true;
  F.wx = vec(x, F.n);
  F.wy = vec(y, F.m);
  return 0;
}
c_int osqp_solve(OSQPWorkspace * w)
{
  sx_check(w == &F.work && F.err_setup == 0 && !F.solved, "one solution after a successful setup");
  F.solved = true;
  F.err_solve = sx_param("fail", 0) ? sx_choose("solve", 3) : 0;
  const c_int st[] = {OSQP_SOLVED, OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_SOLVED_INACCURATE, OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_NON_CVX, OSQP_SIGINT, OSQP_UNSOLVED};
  F.info.status_val = F.status = st[sx_choose("status", 11)];
  F.info.iter = F.iter = sx_int("iter", 0, 1000000000);
  F.info.obj_val = F.obj = sx_real("obj", -1000, 1000);
  for (int i = 0; i < F.n; ++i) F.x(i) = sx_real(("x" + std::to_string(i)).c_str(), -1000, 1000);
  for (int i = 0; i < F.m; ++i) F.y(i) = sx_real(("y" + std::to_string(i)).c_str(), -1000, 1000);
  F.x0 = F.x;
  F.y0 = F.y;
  return F.err_solve;
}
c_int osqp_cleanup(OSQPWorkspace * w)
{
  sx_check(w == nullptr || (w == &F.work && (F.err_setup == 0 || F.err_setup > 2)), "clean up of an existing workspace");
  if (w) {
    sx_check(!F.cleaned, "one clean up");
    F.cleaned = true;
    // the library releases its memory
    F.sol = {nullptr, nullptr};
    F.x.setConstant(-12345);
    F.y.setConstant(-12345);
  }
  return 0;
}

#include <smooth/feedback/compat/osqp.hpp>

static std::string nm(const char * s, int i, int j = -1) { return s + std::to_string(i) + (j < 0 ? "" : "_" + std::to_string(j)); }

// zero pattern: bit set -> entry is zero
template<class Pbm, int M, int N>
static void run()
{
  const int zp = sx_param("zp", 0), za = sx_param("za", 0), kinds = sx_param("kinds", 0);
  const bool junk = sx_param("junk", 0);
  const double lo = sx_param("tiny", 0) ? 0 : 1. / 1024;
  Eigen::MatrixXd P(N, N), A(M, N);
  P.setZero();
  A.setZero();
  int b = 0;
  Pbm p;
  if constexpr (requires { p.P.makeCompressed(); } || decltype(p.P)::RowsAtCompileTime == -1) { p.P.resize(N, N); p.A.resize(M, N); p.q.resize(N); p.l.resize(M); p.u.resize(M); }
  if constexpr (!requires { p.P.makeCompressed(); }) { p.P.setZero(); p.A.setZero(); }
  auto put = [](auto & S, int r, int c, double v) { if constexpr (requires { S.makeCompressed(); }) S.insert(r, c) = v; else S(r, c) = v; };
  for (int r = 0; r < N; ++r) for (int c = r; c < N; ++c) {
    if (zp >> b++ & 1) continue;
    P(r, c) = sx_real(nm("P", r, c).c_str(), lo, 1000);
    put(p.P, r, c, P(r, c));
    if (r != c) put(p.P, c, r, junk ? sx_real(nm("J", r, c).c_str(), lo, 1000) : P(r, c));
  }
  b = 0;
  for (int r = 0; r < M; ++r) for (int c = 0; c < N; ++c) {
    if (za >> b++ & 1) continue;
    A(r, c) = sx_real(nm("A", r, c).c_str(), lo, 1000);
    if ((r + c) % 2) A(r, c) = -A(r, c);
    put(p.A, r, c, A(r, c));
  }
  if constexpr (requires { p.P.makeCompressed(); }) { if (sx_param("comp", 1)) { p.P.makeCompressed(); p.A.makeCompressed(); } }
  for (int i = 0; i < N; ++i) p.q(i) = sx_real(nm("q", i).c_str(), -1000, 1000);
  sym_bounds(p, M, kinds, 1000);
  const Pbm p0 = p;

  QPSolverParams prm;
  prm.verbose = sx_choose("verbose", 2);
  prm.alpha = sx_param("sets", 0) ? 1.25f : 1.6f;
  if (sx_param("sets", 0)) {
    prm.rho = 0.5f; prm.sigma = 0.25f; prm.eps_abs = 0.125f; prm.eps_rel = 0.0625f; prm.eps_primal_inf = 0.03125f; prm.eps_dual_inf = 0.015625f; prm.delta = 0.0078125f;
    prm.scaling = sx_choose("scaling", 2);
    prm.polish = sx_choose("polish", 2);
  }
  prm.stop_check_iter = sx_int("check", 1, 1000000);
  prm.polish_iter = sx_int("refine", 1, 1000000);
  const int lim = sx_param("lim", 0);
  if (lim & 1) prm.max_iter = (uint32_t)sx_int("max_iter", 1, 4000000000l);
  const long ns = lim & 2 ? sx_int("max_time", 1, 1000000000000l) : 0;
  if (lim & 2) prm.max_time = std::chrono::nanoseconds(ns);

  QPSolution<-1, -1, double> ws;
  const bool warm = sx_param("warm", 0);
  ws.primal.resize(N);
  ws.dual.resize(M);
  if (warm) {
    for (int i = 0; i < N; ++i) ws.primal(i) = sx_real(nm("wx", i).c_str(), -1000, 1000);
    for (int i = 0; i < M; ++i) ws.dual(i) = sx_real(nm("wy", i).c_str(), -1000, 1000);
  }
  F = Osqp{};
  F.info = OSQPInfo{};
  const QPSolution<-1, -1, double> r = warm ? solve_qp_osqp(p, prm, ws) : solve_qp_osqp(p, prm);

  // what the library was given
  sx_check(F.setup && F.n == N && F.m == M, "sizes of the program");
  // (dense problems may drop entries that are zero to working precision)
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) sx_check_eq(F.P(i, j), P(i, j), 1e-15, "P handed over");
  for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) sx_check_eq(F.A(i, j), A(i, j), 1e-15, "A handed over");
  for (int i = 0; i < N; ++i) sx_check_same(F.q(i), p0.q(i), "q handed over");
  for (int i = 0; i < M; ++i) { sx_check_same(F.l(i), p0.l(i), "l handed over"); sx_check_same(F.u(i), p0.u(i), "u handed over"); }
  for (int i = 0; i < N; ++i) sx_check_same(p.q(i), p0.q(i), "problem left alone");
  sx_check(F.st.verbose == prm.verbose && F.st.sigma == prm.sigma && F.st.alpha == prm.alpha && F.st.rho == prm.rho, "step parameters");
  sx_check(F.st.eps_abs == prm.eps_abs && F.st.eps_rel == prm.eps_rel && F.st.eps_prim_inf == prm.eps_primal_inf && F.st.eps_dual_inf == prm.eps_dual_inf, "tolerances");
  sx_check((F.st.scaling != 0) == prm.scaling && (F.st.polish != 0) == prm.polish && F.st.delta == prm.delta, "scaling and polishing");
  sx_check(F.st.check_termination == (c_int)prm.stop_check_iter && F.st.polish_refine_iter == (c_int)prm.polish_iter, "iteration counts");
  if (lim & 1) sx_check(F.st.max_iter == (c_int)*prm.max_iter, "iteration limit");
  else sx_check(F.st.max_iter >= 2000000000, "no iteration limit");
  if (lim & 2) sx_check_eq(F.st.time_limit, ns * 1e-9, 1e-12 * ns * 1e-9 + 1e-15, "time limit in seconds");
  else sx_check(F.st.time_limit == 0, "no time limit");
  if (F.err_setup == 0) {
    sx_check(F.solved, "problem solved");
    sx_check(F.warm == warm, "warm start if and only if given");
    if (warm) {
      for (int i = 0; i < N; ++i) sx_check_same(F.wx(i), ws.primal(i), "primal warm start");
      for (int i = 0; i < M; ++i) sx_check_same(F.wy(i), ws.dual(i), "dual warm start");
    }
  }
  sx_check(F.cleaned || F.err_setup == 1 || F.err_setup == 2, "workspace released");

  // what it returned
  if (F.err_setup || F.err_solve) { sx_check(r.code == QPSolutionStatus::Unknown, "failure of the library is not a solution"); sx_cover("failure"); return; }
  const QPSolutionStatus want = F.status == OSQP_SOLVED ? QPSolutionStatus::Optimal : F.status == OSQP_PRIMAL_INFEASIBLE ? QPSolutionStatus::PrimalInfeasible : F.status == OSQP_DUAL_INFEASIBLE ? QPSolutionStatus::DualInfeasible : F.status == OSQP_MAX_ITER_REACHED ? QPSolutionStatus::MaxIterations : F.status == OSQP_TIME_LIMIT_REACHED ? QPSolutionStatus::MaxTime : QPSolutionStatus::Unknown;
  sx_check(r.code == want, "status");
  sx_check((c_int)r.iter == F.iter, "iterations");
  sx_check_same(r.objective, F.obj, "objective");
  sx_check(r.primal.size() == N && r.dual.size() == M, "sizes of the solution");
  for (int i = 0; i < N; ++i) sx_check_same(r.primal(i), F.x0(i), "primal solution");
  for (int i = 0; i < M; ++i) sx_check_same(r.dual(i), F.y0(i), "dual solution");
  sx_cover("solved");
}

template<int M, int N> using QF = QuadraticProgram<M, N>;
using QD = QuadraticProgram<-1, -1>;
using QS = QuadraticProgramSparse<double>;
extern "C" {
void d12() { run<QF<1, 2>, 1, 2>(); }
void d21() { run<QF<2, 1>, 2, 1>(); }
void dd22() { run<QD, 2, 2>(); }
void s12() { run<QS, 1, 2>(); }
void s22() { run<QS, 2, 2>(); }
void s32() { run<QS, 3, 2>(); }
void s23() { run<QS, 2, 3>(); }
}
