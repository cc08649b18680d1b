#include "qp_common.h"
// Optimal (or PolishFailed) answers satisfy the KKT conditions of the original problem.
template<typename Pbm, int M, int N>
void kkt(const PA<M, N> & d, double qb)
{
  Pbm p;
  set_PA(p, d, sx_param("upper", 0));
  const int symq = sx_param("symq", 1), symb = sx_param("symb", 1);
  const double B = 16;
  for (int i = 0; i < N; ++i) p.q(i) = symq == 2 && i == 0 ? 8 : symq ? sx_real("q", -qb, qb) : (i % 2 ? -1.5 : 2.) * sx_param("q0", 1);
  if (symb) sym_bounds(p, M, sx_param("kinds", 0), B);
  else
    for (int i = 0; i < M; ++i) { p.l(i) = -1 + i; p.u(i) = 1 + i; }
  QPSolution<decltype(p.A)::RowsAtCompileTime, decltype(p.A)::ColsAtCompileTime> ws;
  ws.primal.resize(N);
  ws.dual.resize(M);
  const int symw = sx_param("symw", 1);
  for (int i = 0; i < N; ++i) ws.primal(i) = symw ? sx_real("wx", -B, B) : 0.5 * i - 1;
  for (int i = 0; i < M; ++i) ws.dual(i) = symw ? sx_real("wy", -B, B) : 0.75 - i;
  QPSolverParams prm  = qp_prm(sx_param("iter", 2), sx_param("scaling", 0), sx_param("polish", 0));
  prm.stop_check_iter = sx_param("chk", 25);
  prm.eps_primal_inf = prm.eps_dual_inf = 0;
  prm.polish_iter = 2;
  if (sx_param("erel0", 0)) prm.eps_rel = 0;
  QPSolver<Pbm> s(p, prm);
  const auto & sol = s.solve(p, ws);
  cover_code(sol.code);
  if (sol.code == QPSolutionStatus::Optimal || sol.code == QPSolutionStatus::PolishFailed) {
    check_kkt(d, p, sol.primal, sol.dual, prm.eps_abs, prm.eps_rel, 1e-5);
    for (int i = 0; i < N; ++i) sx_observe("x", sol.primal(i));
    for (int i = 0; i < M; ++i) sx_observe("y", sol.dual(i));
  }
}
extern "C" {
void k22() { kkt<QuadraticProgram<2, 2>>(D22, 16); }
void k22d() { kkt<QuadraticProgram<-1, -1>>(D22, 16); }
void k22s() { kkt<QuadraticProgramSparse<double>>(D22, 16); }
void k21() { kkt<QuadraticProgram<2, 1>>(D21, 16); }
void k12() { kkt<QuadraticProgram<1, 2>>(D12, 16); }
void k12l() { kkt<QuadraticProgram<1, 2>>(L12, 16); }
void k11() { kkt<QuadraticProgram<1, 1>>(D11, 16); }
void k11f() { kkt<QuadraticProgram<1, 1>>(F11, 16); }
void k21s() { kkt<QuadraticProgramSparse<double>>(D21, 16); }
void k12s() { kkt<QuadraticProgramSparse<double>>(D12, 16); }
void k21d() { kkt<QuadraticProgram<-1, -1>>(D21, 16); }
void s21() { kkt<QuadraticProgram<2, 1>>(S21, 8); }
void s21s() { kkt<QuadraticProgramSparse<double>>(S21, 8); }
void k32() { kkt<QuadraticProgram<3, 2>>(D32, 16); }
void s22() { kkt<QuadraticProgram<2, 2>>(S22, 8); }
void s22s() { kkt<QuadraticProgramSparse<double>>(S22, 8); }
void s11() { kkt<QuadraticProgram<1, 1>>(S11, 2); }
}
