#include "qp_common.h"
// Infeasibility verdicts: never reported for problems that have a feasible point (PrimalInfeasible)
// or a bounded objective (DualInfeasible) of moderate size.
template<typename Pbm, int M, int N>
struct Setup
{
  Pbm p;
  QPSolution<decltype(Pbm::A)::RowsAtCompileTime, decltype(Pbm::A)::ColsAtCompileTime> ws;
  Setup(const PA<M, N> & d, double W)
  {
    set_PA(p, d);
    ws.primal.resize(N);
    ws.dual.resize(M);
    for (int i = 0; i < N; ++i) ws.primal(i) = sx_real("wx", -W, W);
    for (int i = 0; i < M; ++i) ws.dual(i) = sx_real("wy", -W, W);
  }
  QPSolutionStatus run()
  {
    QPSolverParams prm  = qp_prm(sx_param("iter", 2), sx_param("scaling", 0), false);
    prm.stop_check_iter = sx_param("chk", 25);
    if (sx_param("noopt", 1)) { prm.eps_abs = prm.eps_rel = 0; }
    QPSolver<Pbm> s(p, prm);
    QPSolutionStatus c = sx_param("cold", 0) ? s.solve(p).code : s.solve(p, ws).code;
    cover_code(c);
    return c;
  }
};
// a feasible point x with |x|_1 <= 1 exists
template<typename Pbm, int M, int N>
void prim(const PA<M, N> & d)
{
  Setup<Pbm, M, N> s(d, 16);
  double x[N], nx = 0;
  for (int i = 0; i < N; ++i) {
    x[i] = sx_param("symx", 0) ? sx_real("x", -1, 1) : (i == 0 ? 0.5 : -0.25) * sx_param("x", 1);
    nx += sx_abs(x[i]);
    s.p.q(i) = sx_real("q", -16, 16);
  }
  sx_assume(nx <= 1);
  int kinds = sx_param("kinds", 0);
  for (int i = 0; i < M; ++i) {
    double ax = 0;
    for (int j = 0; j < N; ++j) ax += d.A[i][j] * x[j];
    const int k = kinds % 10;
    kinds /= 10;
    // 0 interior, 1 upper only and active, 2 lower only and active, 3 free, 4 equality, 5 active at both sides up to 1/8
    s.p.l(i) = k == 1 || k == 3 ? -kInf : k == 0 ? ax - 1 : ax;
    s.p.u(i) = k == 2 || k == 3 ? kInf : k == 0 ? ax + 2 : k == 5 ? ax + .125 : ax;
  }
  sx_check(s.run() != QPSolutionStatus::PrimalInfeasible, "feasible problem reported primal infeasible");
}
// a dual feasible pair (x0, y0) with |x0|_1 + |y0|_1 <= 1 exists
template<typename Pbm, int M, int N>
void dual(const PA<M, N> & d)
{
  Setup<Pbm, M, N> s(d, 16);
  const long v = sx_param("v", 0);
  int kinds    = sx_param("kinds", 0);
  double x0[N], y0[M];
  for (int i = 0; i < N; ++i) x0[i] = v == 0 ? 0 : v == 1 ? 0.25 : -0.5 + 0.5 * i;
  for (int i = 0; i < M; ++i) {
    const int k = kinds % 10;
    kinds /= 10;
    y0[i]    = v == 0 ? 0 : k == 3 ? 0 : k == 1 ? .25 : k == 2 ? -.25 : i == 0 ? .25 : -.125;
    s.p.l(i) = k == 1 || k == 3 ? -kInf : sx_real("l", -16, 16);
    s.p.u(i) = k == 2 || k == 3 ? kInf : k == 4 ? s.p.l(i) : sx_real("u", -16, 16);
    if (k == 0) sx_assume(s.p.l(i) + .125 <= s.p.u(i));
  }
  for (int j = 0; j < N; ++j) {
    double r = 0;
    for (int k = 0; k < N; ++k) r += d.P[j][k] * x0[k];
    for (int i = 0; i < M; ++i) r += d.A[i][j] * y0[i];
    s.p.q(j) = -r;
  }
  sx_check(s.run() != QPSolutionStatus::DualInfeasible, "bounded problem reported dual infeasible");
}
// contradictory bounds are recognised without iterating, whatever else the problem holds
template<typename Pbm, int M, int N>
void empty(const PA<M, N> & d)
{
  Pbm p;
  set_PA(p, d);
  for (int i = 0; i < N; ++i) p.q(i) = sx_param("symq", 1) ? sx_real("q", -16, 16) : 1 - 2 * i;
  const int bad = sx_choose("bad", M), how = sx_choose("how", 3);
  for (int i = 0; i < M; ++i) {
    p.l(i) = sx_real("l", -16, 16);
    p.u(i) = sx_real("u", -16, 16);
    if (i == bad) {
      if (how == 0) sx_assume(p.l(i) > p.u(i));
      if (how == 1) p.l(i) = kInf, p.u(i) = sx_param("both", 0) ? kInf : p.u(i);
      if (how == 2) p.u(i) = -kInf, p.l(i) = sx_param("both", 0) ? -kInf : p.l(i);
    } else {
      const int k = sx_choose("k", 5);
      if (k == 1 || k == 3) p.l(i) = -kInf;
      if (k == 2 || k == 3) p.u(i) = kInf;
      if (k == 4) p.l(i) = p.u(i);
      if (k == 0) sx_assume(p.l(i) + .125 <= p.u(i));
    }
  }
  QPSolverParams prm = qp_prm(sx_param("iter", 3), sx_param("scaling", 0), true);
  if (sx_param("unlimited", 0)) prm.max_iter = {};
  if (sx_param("api", 0)) {
    const auto sol = solve_qp(p, prm);
    cover_code(sol.code);
    sx_check(sol.code == QPSolutionStatus::PrimalInfeasible, "contradictory bounds not reported as primal infeasible");
    sx_check(sol.iter == 0, "iterated on a problem with contradictory bounds");
    return;
  }
  QPSolver<Pbm> s(p, prm);
  const auto & sol = s.solve(p);
  cover_code(sol.code);
  sx_check(sol.code == QPSolutionStatus::PrimalInfeasible, "contradictory bounds not reported as primal infeasible");
  sx_check(sol.iter == 0, "iterated on a problem with contradictory bounds");
}
static const PA<2, 1> I21 = {{{1 - kSig}}, {{1}, {1}}};  // two constraints on one variable, H = 2
static const PA<2, 1> E21 = {{{11.5 - kSig}}, {{1}, {1}}};  // first row equality: H = 512
static const PA<2, 1> Z21 = {{{0}}, {{1}, {1}}};
static const PA<1, 1> U11 = {{{0}}, {{1}}};
static const PA<1, 1> I11 = {{{1 - kSig}}, {{1}}};
static const PA<2, 2> L22 = {{{0, 0}, {0, 0}}, {{1, 1}, {1, -1}}};
static const PA<1, 2> L12b = {{{0, 0}, {0, 0}}, {{1, 0}}};
extern "C" {
void p21() { prim<QuadraticProgram<2, 1>>(I21); }
void p21z() { prim<QuadraticProgram<2, 1>>(Z21); }
void p21e() { prim<QuadraticProgram<2, 1>>(E21); }
void p21es() { prim<QuadraticProgramSparse<double>>(E21); }
void d21e() { dual<QuadraticProgram<2, 1>>(E21); }
void p22() { prim<QuadraticProgram<2, 2>>(D22); }
void p22l() { prim<QuadraticProgram<2, 2>>(L22); }
void p21s() { prim<QuadraticProgramSparse<double>>(I21); }
void d11() { dual<QuadraticProgram<1, 1>>(U11); }
void d11p() { dual<QuadraticProgram<1, 1>>(I11); }
void d21p() { dual<QuadraticProgram<2, 1>>(I21); }
void d21() { dual<QuadraticProgram<2, 1>>(Z21); }
void d12() { dual<QuadraticProgram<1, 2>>(L12); }
void d12b() { dual<QuadraticProgram<1, 2>>(L12b); }
void d22() { dual<QuadraticProgram<2, 2>>(L22); }
void d22p() { dual<QuadraticProgram<2, 2>>(D22); }
void d12s() { dual<QuadraticProgramSparse<double>>(L12b); }
void e22() { empty<QuadraticProgram<2, 2>>(D22); }
void e22s() { empty<QuadraticProgramSparse<double>>(D22); }
void e22d() { empty<QuadraticProgram<-1, -1>>(D22); }
}
