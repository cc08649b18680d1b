#include "qp_common.h"
// Warm starts (Q06) and scaling (Q09).
template<typename Pbm> using SolOf = QPSolution<decltype(Pbm::A)::RowsAtCompileTime, decltype(Pbm::A)::ColsAtCompileTime>;
static QPSolverParams params()
{
  QPSolverParams prm  = qp_prm(sx_param("iter", 2), sx_param("scaling", 0), sx_param("polish", 0));
  prm.stop_check_iter = sx_param("chk", 25);
  prm.polish_iter     = 2;
  return prm;
}
template<typename S> void size_ws(S & ws, int m, int n) { ws.primal.resize(n); ws.dual.resize(m); }

// no iteration: the warm start comes back
template<typename Pbm, int M, int N>
void identity(const PA<M, N> & d)
{
  Pbm p;
  set_PA(p, d);
  for (int i = 0; i < N; ++i) p.q(i) = sx_param("symq", 1) ? sx_real("q", -4, 4) : 1. - i;
  sym_bounds(p, M, sx_param("kinds", 0), 8);
  SolOf<Pbm> ws;
  size_ws(ws, M, N);
  for (int i = 0; i < N; ++i) ws.primal(i) = sx_real("wx", -8, 8);
  for (int i = 0; i < M; ++i) ws.dual(i) = sx_real("wy", -8, 8);
  QPSolverParams prm = params();
  prm.max_iter       = 0;
  QPSolver<Pbm> s(p, prm);
  const auto & sol = s.solve(p, ws);
  cover_code(sol.code);
  for (int i = 0; i < N; ++i) sx_check_eq(sol.primal(i), ws.primal(i), 1e-9, "primal warm start changed without iterating");
  for (int i = 0; i < M; ++i) sx_check_eq(sol.dual(i), ws.dual(i), 1e-9, "dual warm start changed without iterating");
}

// exact optimum: kinds as in sym_bounds, act: digit per row, 0 inactive, 1 upper active, 2 lower active
template<typename Pbm, int M, int N>
void fixpoint(const PA<M, N> & d)
{
  Pbm p;
  set_PA(p, d);
  const double B = 4;
  SolOf<Pbm> ws;
  size_ws(ws, M, N);
  int act = sx_param("act", 0), kinds = sx_param("kinds", 0);
  for (int j = 0; j < N; ++j) ws.primal(j) = sx_param("symx", 1) ? sx_real("x", -B, B) : 0.5 + j;
  for (int i = 0; i < M; ++i) {
    double Ax = 0;
    for (int j = 0; j < N; ++j) Ax += d.A[i][j] * ws.primal(j);
    const int a = act % 10, k = kinds % 10;
    act /= 10, kinds /= 10;
    const double gap = sx_real("gap", 0, B);
    if (k == 4) {
      p.l(i) = p.u(i) = Ax;
      ws.dual(i) = sx_real("y", -B, B);
    } else {
      // with gap = 0 an inactive bound touches the point
      p.u(i) = k == 2 || k == 3 ? kInf : a == 1 ? Ax : Ax + gap;
      p.l(i) = k == 1 || k == 3 ? -kInf : a == 2 ? Ax : a == 1 ? Ax - gap - 0.125 : Ax - sx_real("lgap", 0.125, B);
      if (a == 2 && k != 2) p.u(i) = p.u(i) + 0.125;
      ws.dual(i) = a == 0 ? 0 : a == 1 ? sx_real("y", 0, B) : sx_real("y", -B, 0);
    }
  }
  for (int j = 0; j < N; ++j) {
    double g = 0;
    for (int k = 0; k < N; ++k) g += d.P[j][k] * ws.primal(k);
    for (int i = 0; i < M; ++i) g += d.A[i][j] * ws.dual(i);
    p.q(j) = -g;
  }
  const double qb = sx_param("qb", 0) / (sx_param("qb8", 0) ? 8. : 1.);  // keeps the cost scaling concrete
  if (qb)
    for (int j = 0; j < N; ++j) sx_assume((p.q(j) <= qb) & (p.q(j) >= -qb));
  QPSolverParams prm = params();
  QPSolver<Pbm> s(p, prm);
  const auto & sol = s.solve(p, ws);
  cover_code(sol.code);
  sx_check((sol.code == QPSolutionStatus::Optimal) | (prm.polish && sol.code == QPSolutionStatus::PolishFailed),
    "optimal warm start not recognised as optimal");
  sx_check(sol.iter == 1 + 1 % prm.stop_check_iter, "optimal warm start not recognised at the first check");
  for (int j = 0; j < N; ++j) sx_finite(sol.primal(j)) ? (void)0 : sx_check(false, "non-finite result");
  if (!prm.polish) {
    for (int j = 0; j < N; ++j) sx_check_eq(sol.primal(j), ws.primal(j), 1e-6, "iteration leaves the optimum (primal)");
    for (int i = 0; i < M; ++i) sx_check_eq(sol.dual(i), ws.dual(i), 1e-6, "iteration leaves the optimum (dual)");
  }
}

// the solver's own solution as warm start
template<typename Pbm, int M, int N>
void alias(const PA<M, N> & d)
{
  Pbm p;
  set_PA(p, d);
  for (int i = 0; i < N; ++i) p.q(i) = sx_param("symq", 1) ? sx_real("q", -4, 4) : 1. - i;
  for (int i = 0; i < M; ++i) { p.l(i) = -1 + i; p.u(i) = 1 + i; }
  SolOf<Pbm> ws;
  size_ws(ws, M, N);
  for (int i = 0; i < N; ++i) ws.primal(i) = sx_real("wx", -8, 8);
  for (int i = 0; i < M; ++i) ws.dual(i) = sx_real("wy", -8, 8);
  QPSolverParams prm = params();
  prm.max_iter = 0;  // first solve puts ws into the solver
  if (sx_param("chk", 25) == 1) prm.stop_check_iter = 25;
  prm.max_iter = 1;
  QPSolver<Pbm> s(p, prm), f(p, prm);
  s.solve(p, ws);
  const auto copy = s.sol();
  Pbm p2 = p;
  for (int i = 0; i < N; ++i) p2.q(i) = p.q(i) + 0.5;
  const auto r1 = s.solve(p2, s.sol());
  const auto r2 = f.solve(p2, copy);
  cover_code(r1.code);
  sx_check(r1.code == r2.code && r1.iter == r2.iter, "warm start by own solution changes the verdict");
  for (int i = 0; i < N; ++i) sx_check_same(r1.primal(i), r2.primal(i), "warm start by own solution differs from a copy (primal)");
  for (int i = 0; i < M; ++i) sx_check_same(r1.dual(i), r2.dual(i), "warm start by own solution differs from a copy (dual)");
  sx_check_same(r1.objective, r2.objective, "warm start by own solution differs from a copy (objective)");
}

// degenerate data: everything stays finite, also from a cold start
template<typename Pbm, int M, int N>
void finite(const PA<M, N> & d)
{
  Pbm p;
  set_PA(p, d);
  const double qb = sx_param("qb", 0);
  for (int i = 0; i < N; ++i) p.q(i) = qb ? sx_real("q", -qb, qb) : 0;
  sym_bounds(p, M, sx_param("kinds", 0), 8);
  QPSolverParams prm = params();
  QPSolver<Pbm> s(p, prm);
  SolOf<Pbm> ws;
  size_ws(ws, M, N);
  for (int i = 0; i < N; ++i) ws.primal(i) = sx_real("wx", -8, 8);
  for (int i = 0; i < M; ++i) ws.dual(i) = sx_real("wy", -8, 8);
  const auto & sol = sx_param("cold", 0) ? s.solve(p) : s.solve(p, ws);
  cover_code(sol.code);
  for (int i = 0; i < N; ++i) sx_check(sx_finite(sol.primal(i)), "non-finite result");
  for (int i = 0; i < M; ++i) sx_check(sx_finite(sol.dual(i)), "non-finite result");
  sx_check(sx_finite(sol.objective), "non-finite result");
}
using P11 = QuadraticProgram<1, 1>; using P22 = QuadraticProgram<2, 2>; using P21 = QuadraticProgram<2, 1>; using P12 = QuadraticProgram<1, 2>;
using PD = QuadraticProgram<-1, -1>; using PS = QuadraticProgramSparse<double>;
// badly scaled and degenerate data; column norms of P are >= 4 so that c = 1/mean for small q
static const PA<2, 2> B22 = {{{4096, 0.5}, {0.5, 0.25}}, {{1024, 0}, {1, 1. / 256}}};
static const PA<2, 2> Z22 = {{{8, 0}, {0, 0}}, {{1, 0}, {0, 0}}};   // zero cost column, zero row, zero column of A
static const PA<2, 2> O22 = {{{0, 0}, {0, 0}}, {{0, 0}, {0, 1}}};   // no quadratic cost, zero row
static const PA<2, 1> Y21 = {{{8}}, {{64}, {0}}};
static const PA<1, 1> M11 = {{{1. / 8}}, {{1}}};                            // c = 8 for |q| <= 1/8
static const PA<1, 2> T12 = {{{1. / 1024, 0}, {0, 4096}}, {{1. / 64, 32}}};
#define REP(n, D, m, k) \
  void i##n() { identity<QuadraticProgram<m, k>>(D); } void i##n##d() { identity<PD>(D); } void i##n##s() { identity<PS>(D); } \
  void f##n() { fixpoint<QuadraticProgram<m, k>>(D); } void f##n##d() { fixpoint<PD>(D); } void f##n##s() { fixpoint<PS>(D); } \
  void a##n() { alias<QuadraticProgram<m, k>>(D); } void a##n##d() { alias<PD>(D); } void a##n##s() { alias<PS>(D); } \
  void z##n() { finite<QuadraticProgram<m, k>>(D); } void z##n##d() { finite<PD>(D); } void z##n##s() { finite<PS>(D); }
extern "C" {
REP(11, D11, 1, 1)
REP(22, D22, 2, 2)
REP(12, D12, 1, 2)
REP(21, D21, 2, 1)
REP(bad, B22, 2, 2)
REP(zz, Z22, 2, 2)
REP(o, O22, 2, 2)
REP(y, Y21, 2, 1)
REP(t, T12, 1, 2)
REP(l, L12, 1, 2)
REP(m, M11, 1, 1)
}
