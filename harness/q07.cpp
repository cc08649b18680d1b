#include "quiet.h"
#include "qp_common.h"
#include <memory>
// Solver histories (Q07) and problem representations (Q08).
template<typename Pbm> using SolOf = QPSolution<decltype(Pbm::A)::RowsAtCompileTime, decltype(Pbm::A)::ColsAtCompileTime>;
static QPSolverParams params()
{
  QPSolverParams prm  = qp_prm(sx_param("iter", 1), sx_param("scaling", 0), sx_param("polish", 0));
  prm.stop_check_iter = sx_param("chk", 25);
  prm.polish_iter     = 2;
  return prm;
}
template<typename Pbm, int M, int N>
void sym_problem(Pbm & p, SolOf<Pbm> & ws, const PA<M, N> & d, bool upper, int symq = -1)
{
  set_PA(p, d, upper);
  if (symq < 0) symq = sx_param("symq", 1);
  for (int i = 0; i < N; ++i) p.q(i) = symq ? sx_real("q", -4, 4) : 1.5 - i;
  if (sx_param("symb", 1)) sym_bounds(p, M, sx_param("kinds", 0), 8);
  else
    for (int i = 0; i < M; ++i) { p.l(i) = -1 + i; p.u(i) = 1 + i; }
  ws.primal.resize(N);
  ws.dual.resize(M);
  const int symw = sx_param("symw", 1);
  for (int i = 0; i < N; ++i) ws.primal(i) = symw ? sx_real("wx", -8, 8) : 0.5 - i;
  for (int i = 0; i < M; ++i) ws.dual(i) = symw ? sx_real("wy", -8, 8) : 0.25 * i;
}
template<typename S1, typename S2>
void check_same(const S1 & a, const S2 & b, int m, int n)
{
  sx_check(a.code == b.code, "exit code depends on history");
  sx_check(a.iter == b.iter, "iteration count depends on history");
  sx_check(a.primal.size() == n && b.primal.size() == n && a.dual.size() == m && b.dual.size() == m, "wrong dimensions");
  for (int i = 0; i < n; ++i) sx_check_same(a.primal(i), b.primal(i), "primal solution depends on history");
  for (int i = 0; i < m; ++i) sx_check_same(a.dual(i), b.dual(i), "dual solution depends on history");
  sx_check_same(a.objective, b.objective, "objective depends on history");
}

// (M2, N2): problem solved before; for fixed sizes and reuse without analyze it has the same structure
template<typename Pbm, int M, int N, int M2, int N2>
void history(const PA<M, N> & d, const PA<M2, N2> & d2)
{
  const int hist = sx_param("hist", 0);
  Pbm p, o;
  SolOf<Pbm> ws, wo;
  sym_problem(p, ws, d, false);
  // earlier problem: other data, an equality and a free row
  set_PA(o, d2);
  for (int i = 0; i < N2; ++i) o.q(i) = 0.5 * i - 2;
  for (int i = 0; i < M2; ++i) {
    o.l(i) = i == 0 ? 1 : -kInf;
    o.u(i) = i == 0 ? 1 : kInf;
  }
  wo.primal.setConstant(N2, 0.75);
  wo.dual.setConstant(M2, -0.25);
  const QPSolverParams prm = params();
  const bool cold = sx_param("cold", 0), infeas = sx_param("infeas", 0);
  if (infeas) o.l(0) = 2;

  auto run = [&](QPSolver<Pbm> & s) -> SolOf<Pbm> { return cold ? s.solve(p) : s.solve(p, ws); };
  SolOf<Pbm> r;
  QPSolver<Pbm> fresh(p, prm);
  switch (hist) {
  case 0: {  // reused (same structure)
    QPSolver<Pbm> s(o, prm);
    s.solve(o, wo);
    s.solve(o);
    r = run(s);
    break;
  }
  case 1: {  // copy of a used solver
    QPSolver<Pbm> s(o, prm);
    s.solve(o, wo);
    QPSolver<Pbm> t(s);
    r = run(t);
    break;
  }
  case 2: {  // moved from a used solver
    QPSolver<Pbm> s(o, prm);
    s.solve(o, wo);
    QPSolver<Pbm> t(std::move(s));
    r = run(t);
    break;
  }
  case 3: {  // assigned to a solver that was used for something else
    QPSolver<Pbm> s(p, prm), t(o, prm);
    t.solve(o, wo);
    t = s;
    r = run(t);
    break;
  }
  case 4: {  // move assigned
    QPSolver<Pbm> s(p, prm), t(o, prm);
    t.solve(o, wo);
    s.solve(p, ws);
    t = std::move(s);
    r = run(t);
    break;
  }
  case 5: {  // analyzed again
    QPSolver<Pbm> s(o, prm);
    s.solve(o, wo);
    s.analyze(p);
    r = run(s);
    break;
  }
  case 6: {  // analyzed several times and default constructed
    QPSolver<Pbm> s(prm);
    s.analyze(o);
    s.analyze(p);
    s.analyze(p);
    r = run(s);
    break;
  }
  case 7: {  // the copy is used, then the original
    QPSolver<Pbm> s(p, prm);
    s.solve(p, ws);
    QPSolver<Pbm> t(s);
    t.analyze(o);
    t.solve(o, wo);
    r = run(s);
    break;
  }
  case 8: {  // convenience function after solving elsewhere
    r = cold ? solve_qp(p, prm) : solve_qp(p, prm, ws);
    break;
  }
  case 9: {  // solved twice
    QPSolver<Pbm> s(p, prm);
    run(s);
    r = run(s);
    break;
  }
  case 10: {  // self assignment
    QPSolver<Pbm> s(o, prm);
    s.solve(o, wo);
    s.analyze(p);
    auto & t = s;
    s        = t;
    r        = run(s);
    break;
  }
  case 11: {  // assigned after having solved
    QPSolver<Pbm> s(p, prm), t(prm);
    s.solve(p, ws);
    t = s;
    run(t);
    t.analyze(o);
    t.solve(o);
    t = s;
    r = run(t);
    break;
  }
  }
  const SolOf<Pbm> f = run(fresh);
  cover_code(f.code);
  check_same(r, f, M, N);
  sx_observe("iter", f.iter);
}

// two representations, same number of iterations: iterates agree
template<typename PA_, typename PB_, int M, int N>
void represent(const PA<M, N> & d)
{
  PA_ p;
  PB_ o;
  SolOf<PA_> ws;
  SolOf<PB_> wo;
  sym_problem(p, ws, d, sx_param("upA", 0));
  set_PA(o, d, sx_param("upB", 0));
  for (int i = 0; i < N; ++i) o.q(i) = p.q(i);
  for (int i = 0; i < M; ++i) { o.l(i) = p.l(i); o.u(i) = p.u(i); }
  wo.primal.resize(N);
  wo.dual.resize(M);
  for (int i = 0; i < N; ++i) wo.primal(i) = ws.primal(i);
  for (int i = 0; i < M; ++i) wo.dual(i) = ws.dual(i);
  QPSolverParams pa = params(), pb = params();
  const int loose = sx_param("loose", 0);
  if (loose) {
    pa.eps_primal_inf = pa.eps_dual_inf = pb.eps_primal_inf = pb.eps_dual_inf = 0;
    (loose == 1 ? pb : pa).eps_abs *= 1 + 1. / 1024;
    (loose == 1 ? pb : pa).eps_rel *= 1 + 1. / 1024;
  }
  const bool fn = sx_param("fn", 0);
  QPSolver<PA_> s(p, pa);
  const SolOf<PA_> a = sx_param("cold", 0) ? s.solve(p) : s.solve(p, ws);
  SolOf<PB_> b;
  if (fn) b = sx_param("cold", 0) ? solve_qp(o, pb) : solve_qp(o, pb, wo);
  else { QPSolver<PB_> t(o, pb); b = sx_param("cold", 0) ? t.solve(o) : t.solve(o, wo); }
  cover_code(a.code);
  if (loose == 1) sx_check((a.code != QPSolutionStatus::Optimal) | (b.code == QPSolutionStatus::Optimal), "exit code depends on the representation");
  else if (loose == 2) sx_check((b.code != QPSolutionStatus::Optimal) | (a.code == QPSolutionStatus::Optimal), "exit code depends on the representation");
  else sx_check(a.code == b.code, "exit code depends on the representation");
  if (a.code == b.code) {
    sx_check(a.iter == b.iter, "iteration count depends on the representation");
    const double tol = 1e-6;
    for (int i = 0; i < N; ++i) sx_check_eq(a.primal(i), b.primal(i), tol, "primal solution depends on the representation");
    for (int i = 0; i < M; ++i) sx_check_eq(a.dual(i), b.dual(i), tol, "dual solution depends on the representation");
    if (!loose) sx_check_eq(a.objective, b.objective, 16 * tol, "objective depends on the representation");
  }
}
// diagnostic output: identical with and without, also for what follows
template<typename Pbm, int M, int N>
void chatty(const PA<M, N> & d)
{
  Pbm p;
  SolOf<Pbm> ws;
  sym_problem(p, ws, d, false);
  QPSolverParams a = params(), b = params();
  b.verbose = true;
  const bool cold = sx_param("cold", 0), fn = sx_param("fn", 0);
  QPSolver<Pbm> s(p, a), t(p, b);
  const int reps = sx_param("reps", 1);
  for (int k = 0; k < reps; ++k) {
    SolOf<Pbm> x, y;
    if (fn) {
      x = cold ? solve_qp(p, a) : solve_qp(p, a, ws);
      y = cold ? solve_qp(p, b) : solve_qp(p, b, ws);
    } else {
      x = cold ? s.solve(p) : s.solve(p, ws);
      y = cold ? t.solve(p) : t.solve(p, ws);
    }
    cover_code(x.code);
    sx_check(x.code == y.code, "exit code depends on output");
    sx_check(x.iter == y.iter, "iteration count depends on output");
    for (int i = 0; i < N; ++i) sx_check_same(x.primal(i), y.primal(i), "primal solution depends on output");
    for (int i = 0; i < M; ++i) sx_check_same(x.dual(i), y.dual(i), "dual solution depends on output");
    sx_check_same(x.objective, y.objective, "objective depends on output");
  }
}
// full matrix or upper triangle only: identical
template<typename Pbm, int M, int N>
void upper(const PA<M, N> & d)
{
  Pbm p;
  SolOf<Pbm> ws;
  sym_problem(p, ws, d, false);
  Pbm o = p;
  set_PA(o, d, true);
  for (int i = 0; i < N; ++i) o.q(i) = p.q(i);
  for (int i = 0; i < M; ++i) { o.l(i) = p.l(i); o.u(i) = p.u(i); }
  const QPSolverParams prm = params();
  QPSolver<Pbm> s(p, prm), t(o, prm);
  const bool cold    = sx_param("cold", 0);
  const SolOf<Pbm> a = cold ? s.solve(p) : s.solve(p, ws);
  const SolOf<Pbm> b = cold ? t.solve(o) : t.solve(o, ws);
  cover_code(a.code);
  sx_check(a.code == b.code, "exit code depends on the lower triangle of P");
  sx_check(a.iter == b.iter, "iteration count depends on the lower triangle of P");
  for (int i = 0; i < N; ++i) sx_check_eq(a.primal(i), b.primal(i), 1e-9, "solution depends on the lower triangle of P");
  for (int i = 0; i < M; ++i) sx_check_eq(a.dual(i), b.dual(i), 1e-9, "multipliers depend on the lower triangle of P");
  sx_check_eq(a.objective, b.objective, 1e-9, "objective depends on the lower triangle of P");
}
using P11 = QuadraticProgram<1, 1>; using P22 = QuadraticProgram<2, 2>; using P21 = QuadraticProgram<2, 1>; using P12 = QuadraticProgram<1, 2>;
using PD = QuadraticProgram<-1, -1>; using PS = QuadraticProgramSparse<double>;
static const PA<2, 2> E22 = {{{4, 1}, {1, 2}}, {{2, -1}, {0, 0.5}}};          // same structure as D22
static const PA<2, 2> G22 = {{{4, 0}, {0, 2}}, {{0, -1}, {1, 0}}};            // same size, other structure
static const PA<2, 2> V22 = {{{40, 1}, {1, 2}}, {{2, -1}, {8, 0.5}}};           // same structure as S22
static const PA<2, 1> E21 = {{{5}}, {{0.5}, {2}}};
static const PA<1, 2> E12 = {{{2, 1}, {1, 2}}, {{1, -1}}};
static const PA<2, 2> Z22 = {{{1.5 - kSig, 0}, {0, 0}}, {{1, 0}, {0, 2}}};           // no diagonal entry stored for the second variable
static const PA<2, 2> Y22 = {{{3, 0}, {0, 0}}, {{0.5, 0}, {0, -1}}};
static const PA<1, 2> K12 = {{{0, 0}, {0, 0}}, {{-2, 1}}};
extern "C" {
void v22() { chatty<P22, 2, 2>(D22); }
void v22d() { chatty<PD, 2, 2>(D22); }
void v22s() { chatty<PS, 2, 2>(D22); }
void v21s() { chatty<PS, 2, 1>(D21); }
void v12() { chatty<P12, 1, 2>(D12); }
void v11() { chatty<P11, 1, 1>(D11); }
void v11s() { chatty<PS, 1, 1>(D11); }
void vl12s() { chatty<PS, 1, 2>(L12); }
void vs22() { chatty<P22, 2, 2>(S22); }
void vs22s() { chatty<PS, 2, 2>(S22); }
void z22s() { history<PS, 2, 2, 2, 2>(Z22, Y22); }
void z22d() { history<PD, 2, 2, 2, 2>(Z22, Y22); }
void l12s() { history<PS, 1, 2, 1, 2>(L12, K12); }
void zs22() { represent<P22, PS, 2, 2>(Z22); }
void zs12() { represent<P12, PS, 1, 2>(L12); }
void h22() { history<P22, 2, 2, 2, 2>(D22, E22); }
void h22d() { history<PD, 2, 2, 2, 2>(D22, E22); }
void h22s() { history<PS, 2, 2, 2, 2>(D22, E22); }
void g22s() { history<PS, 2, 2, 2, 2>(D22, G22); }   // needs analyze
void g22d() { history<PD, 2, 2, 1, 2>(D22, E12); }
void n22s() { history<PS, 2, 2, 1, 2>(D22, E12); }
void h21() { history<P21, 2, 1, 2, 1>(D21, E21); }
void h21s() { history<PS, 2, 1, 2, 1>(D21, E21); }
void m21d() { history<PD, 2, 1, 2, 2>(D21, E22); }
void m21s() { history<PS, 2, 1, 2, 2>(D21, E22); }
void hs22() { history<P22, 2, 2, 2, 2>(S22, V22); }
void hs22s() { history<PS, 2, 2, 2, 2>(S22, V22); }
void sd22() { represent<P22, PD, 2, 2>(D22); }
void ss22() { represent<P22, PS, 2, 2>(D22); }
void ds22() { represent<PD, PS, 2, 2>(D22); }
void ss21() { represent<P21, PS, 2, 1>(D21); }
void sd21() { represent<P21, PD, 2, 1>(D21); }
void ss12() { represent<P12, PS, 1, 2>(D12); }
void ss11() { represent<P11, PS, 1, 1>(D11); }
void sd11() { represent<P11, PD, 1, 1>(D11); }
void ff22() { represent<P22, P22, 2, 2>(D22); }
void ff22s() { represent<PS, PS, 2, 2>(D22); }
void sss22() { represent<P22, PS, 2, 2>(S22); }
void sss11() { represent<P11, PS, 1, 1>(S11); }
void up22() { upper<P22, 2, 2>(D22); }
void up22d() { upper<PD, 2, 2>(D22); }
void up22s() { upper<PS, 2, 2>(D22); }
void up12s() { upper<PS, 1, 2>(E12); }
void up12() { upper<P12, 1, 2>(E12); }
void ups22() { upper<P22, 2, 2>(S22); }
void ups22s() { upper<PS, 2, 2>(S22); }
}
