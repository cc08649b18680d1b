#include "qp_common.h"
#include <chrono>
// Limits, exit codes, objective and sizes of the returned solution.
template<typename Pbm, int M, int N>
struct Setup
{
  Pbm p;
  QPSolution<decltype(Pbm::A)::RowsAtCompileTime, decltype(Pbm::A)::ColsAtCompileTime> ws;
  QPSolverParams prm;
  Setup(const PA<M, N> & d, double qb)
  {
    set_PA(p, d, sx_param("upper", 0));
    for (int i = 0; i < N; ++i) p.q(i) = sx_param("symq", 1) ? sx_real("q", -qb, qb) : 1. - i;
    if (sx_param("symb", 1)) sym_bounds(p, M, sx_param("kinds", 0), 8);
    else
      for (int i = 0; i < M; ++i) { p.l(i) = -1 + i; p.u(i) = 1 + i; }
    ws.primal.resize(N);
    ws.dual.resize(M);
    for (int i = 0; i < N; ++i) ws.primal(i) = sx_real("wx", -8, 8);
    for (int i = 0; i < M; ++i) ws.dual(i) = sx_real("wy", -8, 8);
    prm                 = qp_prm(sx_param("iter", 2), sx_param("scaling", 0), sx_param("polish", 0));
    prm.stop_check_iter = sx_param("chk", 25);
    if (!sx_param("infs", 1)) prm.eps_primal_inf = prm.eps_dual_inf = 0;
    prm.polish_iter = 2;
  }
};
// objective and sizes (Q05)
template<int M, int N, typename Pbm, typename Sol>
void check_obj(const PA<M, N> & d, const Pbm & p, const Sol & sol, double tol)
{
  sx_check(sol.primal.size() == N && sol.dual.size() == M, "solution has wrong dimensions");
  double o = 0;
  for (int i = 0; i < N; ++i) {
    double r = 0;
    for (int j = 0; j < N; ++j) r += (j >= i ? d.P[i][j] : d.P[j][i]) * sol.primal(j);
    o += sol.primal(i) * (0.5 * r + p.q(i));
  }
  sx_check_eq(sol.objective, o, tol, "objective value does not belong to the returned point");
}
// limits (Q04); mi: number of iterations allowed, -1: unlimited
template<typename Sol>
void check_limits(const Sol & sol, const QPSolverParams & prm)
{
  const QPSolutionStatus c = sol.code;
  const long n             = prm.stop_check_iter;
  sx_check(c != QPSolutionStatus::Unknown, "exit code Unknown");
  if (prm.max_iter) {
    sx_check(sol.iter <= *prm.max_iter, "more iterations than allowed");
    if (c == QPSolutionStatus::MaxIterations) sx_check(sol.iter == *prm.max_iter, "MaxIterations before the limit");
  } else {
    sx_check(c != QPSolutionStatus::MaxIterations, "MaxIterations without limit");
  }
  if (!prm.max_time) sx_check(c != QPSolutionStatus::MaxTime, "MaxTime without limit");
  if (c != QPSolutionStatus::MaxIterations) {
    sx_check(sol.iter >= 1, "verdict without iterating");
    sx_check((sol.iter - 1) % n == 1 % n, "verdict outside the check interval");
  }
}
template<typename Pbm, int M, int N>
void limits(const PA<M, N> & d)
{
  Setup<Pbm, M, N> s(d, 8);
  QPSolver<Pbm> sv(s.p, s.prm);
  const auto & sol = sv.solve(s.p, s.ws);
  cover_code(sol.code);
  check_limits(sol, s.prm);
  if (s.prm.max_iter && *s.prm.max_iter == 0) {
    sx_check(sol.iter == 0, "iterated although no iteration is allowed");
    sx_check(sol.code == QPSolutionStatus::MaxIterations, "verdict although no iteration is allowed");
  }
  sx_observe("iter", sol.iter);
}
// time limit, clock readings are arbitrary
template<typename Pbm, int M, int N>
void timed(const PA<M, N> & d)
{
  sx_clock(1);
  Setup<Pbm, M, N> s(d, 8);
  s.prm.max_time = std::chrono::nanoseconds(sx_int("max_time", 0, 2000000000));
  if (sx_param("iter", 2) < 0) s.prm.max_iter = {};
  QPSolver<Pbm> sv(s.p, s.prm);
  const auto a     = std::chrono::high_resolution_clock::now();
  const auto & sol = sv.solve(s.p, s.ws);
  const auto b     = std::chrono::high_resolution_clock::now();
  cover_code(sol.code);
  check_limits(sol, s.prm);
  if (sol.code == QPSolutionStatus::MaxTime) sx_check(b - a > *s.prm.max_time, "MaxTime before the time limit");
}
// the clock advances 1 us per reading: the limit is passed at the first check
template<typename Pbm, int M, int N>
void timeout(const PA<M, N> & d)
{
  sx_clock(2);
  Setup<Pbm, M, N> s(d, 8);
  s.prm.max_time = std::chrono::nanoseconds(sx_int("max_time", 0, 900));
  s.prm.max_iter = {};
  if (sx_param("iter", 0) > 0) s.prm.max_iter = sx_param("iter", 0);
  QPSolver<Pbm> sv(s.p, s.prm);
  const auto & sol = sv.solve(s.p, s.ws);
  cover_code(sol.code);
  check_limits(sol, s.prm);
  const long n = s.prm.stop_check_iter;
  sx_check(sol.iter == 1 + 1 % n, "time limit ignored at the first check after it");
}
template<typename Pbm, int M, int N>
void objective(const PA<M, N> & d, bool zero = false)
{
  Setup<Pbm, M, N> s(d, 4);
  QPSolver<Pbm> sv(s.p, s.prm);
  const auto & sol = sx_param("cold", 0) ? sv.solve(s.p) : sv.solve(s.p, s.ws);
  cover_code(sol.code);
  check_obj(d, s.p, sol, 1e-6);
  for (int i = 0; i < N; ++i) sx_observe("x", sol.primal(i));
  sx_observe("objective", sol.objective);
}
// contradictory bounds: nothing is iterated, but the solution is still consistent
template<typename Pbm, int M, int N>
void objinf(const PA<M, N> & d)
{
  Setup<Pbm, M, N> s(d, 4);
  s.p.l(M - 1) = s.p.u(M - 1) + 1;
  QPSolver<Pbm> sv(s.p, s.prm);
  const auto & sol = sv.solve(s.p, s.ws);
  cover_code(sol.code);
  check_obj(d, s.p, sol, 1e-6);
}
// the convenience function
template<typename Pbm, int M, int N>
void objfun(const PA<M, N> & d)
{
  Setup<Pbm, M, N> s(d, 4);
  const auto sol = solve_qp(s.p, s.prm, s.ws);
  cover_code(sol.code);
  check_obj(d, s.p, sol, 1e-6);
}
using P11 = QuadraticProgram<1, 1>; using P22 = QuadraticProgram<2, 2>; using P21 = QuadraticProgram<2, 1>; using P12 = QuadraticProgram<1, 2>;
using PD = QuadraticProgram<-1, -1>; using PS = QuadraticProgramSparse<double>;
// equality row only in dense problem F11, so that infeasibility verdicts are reachable
extern "C" {
void l11() { limits<P11>(D11); }
void l11f() { limits<P11>(F11); }
void l22() { limits<P22>(D22); }
void l21() { limits<P21>(D21); }
void l11s() { limits<PS>(D11); }
void l11d() { limits<PD>(D11); }
void t11() { timed<P11>(D11); }
void t21() { timed<P21>(D21); }
void t11s() { timed<PS>(D11); }
void o11() { timeout<P11>(D11); }
void o21() { timeout<P21>(D21); }
void o22() { timeout<P22>(D22); }
void o11s() { timeout<PS>(D11); }
void v11() { objective<P11>(D11); }
void v11f() { objective<P11>(F11); }
void v22() { objective<P22>(D22); }
void v12() { objective<P12>(D12); }
void v22d() { objective<PD>(D22); }
void v22s() { objective<PS>(D22); }
void v12s() { objective<PS>(D12); }
void vs11() { objective<P11>(S11); }
void vs22() { objective<P22>(S22); }
void vs22s() { objective<PS>(S22); }
void w22() { objinf<P22>(D22); }
void w22s() { objinf<PS>(D22); }
void u22() { objfun<P22>(D22); }
void u22d() { objfun<PD>(D22); }
void u22s() { objfun<PS>(D22); }
}
