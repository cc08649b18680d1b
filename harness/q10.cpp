#include "qp_common.h"
// Polishing keeps what was verified.
template<typename Pbm> using SolOf = QPSolution<decltype(Pbm::A)::RowsAtCompileTime, decltype(Pbm::A)::ColsAtCompileTime>;
template<typename Pbm, int M, int N>
void polish(const PA<M, N> & d)
{
  Pbm p;
  set_PA(p, d, sx_param("upper", 0));
  for (int i = 0; i < N; ++i) p.q(i) = sx_param("symq", 1) ? sx_real("q", -8, 8) : 1.5 - i;
  if (sx_param("symb", 1)) sym_bounds(p, M, sx_param("kinds", 0), 8);
  else
    for (int i = 0; i < M; ++i) { p.l(i) = -1 + i; p.u(i) = 1 + i; }
  SolOf<Pbm> ws;
  ws.primal.resize(N);
  ws.dual.resize(M);
  const int symw = sx_param("symw", 1);
  for (int i = 0; i < N; ++i) ws.primal(i) = symw ? sx_real("wx", -8, 8) : 0.5;
  for (int i = 0; i < M; ++i) ws.dual(i) = symw ? sx_real("wy", -8, 8) : -0.25;
  QPSolverParams a  = qp_prm(sx_param("iter", 2), sx_param("scaling", 0), false);
  a.stop_check_iter = sx_param("chk", 25);
  a.eps_primal_inf = a.eps_dual_inf = 0;
  QPSolverParams b = a;
  b.polish         = true;
  b.polish_iter    = sx_param("piter", 2);
  QPSolver<Pbm> s(p, a), t(p, b);
  const SolOf<Pbm> r = s.solve(p, ws);
  const SolOf<Pbm> q = t.solve(p, ws);
  cover_code(q.code);
  sx_check(q.iter == r.iter, "polishing changes the iteration count");
  if (r.code == QPSolutionStatus::Optimal) {
    sx_check((q.code == QPSolutionStatus::Optimal) | (q.code == QPSolutionStatus::PolishFailed), "polishing an optimal point gives another verdict");
    if (q.code == QPSolutionStatus::Optimal) check_kkt(d, p, q.primal, q.dual, a.eps_abs, a.eps_rel, 1e-5);
  } else {
    sx_check(q.code == r.code, "polishing changes the verdict");
  }
  if (q.code != QPSolutionStatus::Optimal) {
    for (int i = 0; i < N; ++i) sx_check_eq(q.primal(i), r.primal(i), 1e-9, "failed polishing changes the solution");
    for (int i = 0; i < M; ++i) sx_check_eq(q.dual(i), r.dual(i), 1e-9, "failed polishing changes the multipliers");
  }
}
static const PA<2, 1> R21 = {{{3 - kSig}}, {{1}, {1}}};  // dependent rows
extern "C" {
void p11() { polish<QuadraticProgram<1, 1>>(D11); }
void p11d() { polish<QuadraticProgram<-1, -1>>(D11); }
void p11s() { polish<QuadraticProgramSparse<double>>(D11); }
void p11f() { polish<QuadraticProgram<1, 1>>(F11); }
void p21() { polish<QuadraticProgram<2, 1>>(D21); }
void p21s() { polish<QuadraticProgramSparse<double>>(D21); }
void p21r() { polish<QuadraticProgram<2, 1>>(R21); }
void p12() { polish<QuadraticProgram<1, 2>>(D12); }
void ps11() { polish<QuadraticProgram<1, 1>>(S11); }
}
