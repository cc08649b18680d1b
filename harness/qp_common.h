// Problem menus and an independent optimality oracle for the QP harnesses.
#pragma once
#include "sx.h"
#include <smooth/feedback/qp_solver.hpp>
using namespace smooth::feedback;
static const double kInf = std::numeric_limits<double>::infinity();
static const double kSig = 1. / 64;

// dyadic parameters keep the coefficients of the symbolic terms short
inline QPSolverParams qp_prm(int iter, bool scaling, bool polish)
{
  QPSolverParams p;
  p.alpha        = 1.5f;
  p.rho          = 0.5f;
  p.sigma        = 1.f / 64;
  p.scaling      = scaling;
  p.eps_abs      = 1.f / 1024;
  p.eps_rel      = 1.f / 1024;
  p.eps_primal_inf = 1.f / 4096;
  p.eps_dual_inf = 1.f / 4096;
  p.polish       = polish;
  p.delta        = 1.f / 1048576;
  if (iter >= 0) p.max_iter = (uint32_t)iter;
  return p;
}

// Concrete (P, A): P + sigma I + rho A'A is a simple matrix.  The strict lower part of P is
// irrelevant by documentation, `junk` is what is stored there (0: upper triangular, -1: symmetric).
template<int M, int N> struct PA { double P[N][N]; double A[M][N]; };

template<typename Pbm, int M, int N>
void set_PA(Pbm & p, const PA<M, N> & d, bool upperOnly = false)
{
  if constexpr (requires { p.P.makeCompressed(); }) {
    p.P.resize(N, N);
    p.A.resize(M, N);
    for (int c = 0; c < N; ++c)
      for (int r = 0; r < N; ++r)
        if (d.P[r][c] != 0 && !(upperOnly && r > c)) p.P.insert(r, c) = d.P[r][c];
    for (int r = 0; r < M; ++r)
      for (int c = 0; c < N; ++c)
        if (d.A[r][c] != 0) p.A.insert(r, c) = d.A[r][c];
    p.P.makeCompressed();
    p.A.makeCompressed();
  } else {
    p.P.resize(N, N);
    p.A.resize(M, N);
    for (int r = 0; r < N; ++r)
      for (int c = 0; c < N; ++c) p.P(r, c) = upperOnly && r > c ? 0 : d.P[r][c];
    for (int r = 0; r < M; ++r)
      for (int c = 0; c < N; ++c) p.A(r, c) = d.A[r][c];
  }
  p.q.resize(N);
  p.l.resize(M);
  p.u.resize(M);
}

// bound kinds: 0 two-sided, 1 upper only, 2 lower only, 3 free, 4 equality
template<typename Pbm>
void sym_bounds(Pbm & p, int m, int kinds, double B)
{
  for (int i = 0; i < m; ++i) {
    int k  = kinds % 10;
    kinds /= 10;
    p.l(i) = k == 1 || k == 3 ? -kInf : sx_real("l", -B, B);
    p.u(i) = k == 2 || k == 3 ? kInf : k == 4 ? p.l(i) : sx_real("u", -B, B);
    if (k == 0) sx_assume(p.l(i) + 0.125 <= p.u(i));
  }
}

// KKT residuals of (x, y), written out with plain loops
template<int M, int N, typename Pbm, typename X, typename Y>
void check_kkt(const PA<M, N> & d, const Pbm & p, const X & x, const Y & y, double ea, double er, double slack)
{
  double Ax[M], mAx = 0;
  for (int i = 0; i < M; ++i) {
    Ax[i] = 0;
    for (int j = 0; j < N; ++j) Ax[i] += d.A[i][j] * x(j);
    mAx = sx_max(mAx, sx_abs(Ax[i]));
  }
  // |z| <= |Ax| + tol
  const double tol = (ea + er * mAx) / (1 - er);
  for (int i = 0; i < M; ++i) {
    if (p.u(i) != kInf) sx_check_le(Ax[i], p.u(i) + tol, slack, "upper bound violated by more than the tolerance");
    if (p.l(i) != -kInf) sx_check_le(p.l(i) - tol, Ax[i], slack, "lower bound violated by more than the tolerance");
    if (p.u(i) == kInf) sx_check_le(y(i), tol, slack, "positive multiplier without upper bound");
    else sx_check((y(i) <= tol + slack) | (Ax[i] + tol + slack >= p.u(i)), "positive multiplier on an inactive upper bound");
    if (p.l(i) == -kInf) sx_check_le(-tol, y(i), slack, "negative multiplier without lower bound");
    else sx_check((y(i) >= -tol - slack) | (Ax[i] - tol - slack <= p.l(i)), "negative multiplier on an inactive lower bound");
  }
  double Px[N], Aty[N], mP = 0, mq = 0, mA = 0;
  for (int j = 0; j < N; ++j) {
    Px[j] = Aty[j] = 0;
    for (int k = 0; k < N; ++k) Px[j] += d.P[j][k] * x(k);
    for (int i = 0; i < M; ++i) Aty[j] += d.A[i][j] * y(i);
    mP = sx_max(mP, sx_abs(Px[j]));
    mq = sx_max(mq, sx_abs(p.q(j)));
    mA = sx_max(mA, sx_abs(Aty[j]));
  }
  const double dt = ea + er * sx_max(sx_max(mP, mq), mA);
  for (int j = 0; j < N; ++j) {
    sx_check_le(Px[j] + p.q(j) + Aty[j], dt, slack, "stationarity violated by more than the tolerance");
    sx_check_le(-dt, Px[j] + p.q(j) + Aty[j], slack, "stationarity violated by more than the tolerance");
  }
}

// name the exit code for the path trace
inline void cover_code(QPSolutionStatus c)
{
  switch (c) {
  case QPSolutionStatus::Optimal: sx_cover("Optimal"); break;
  case QPSolutionStatus::PolishFailed: sx_cover("PolishFailed"); break;
  case QPSolutionStatus::PrimalInfeasible: sx_cover("PrimalInfeasible"); break;
  case QPSolutionStatus::DualInfeasible: sx_cover("DualInfeasible"); break;
  case QPSolutionStatus::MaxIterations: sx_cover("MaxIterations"); break;
  case QPSolutionStatus::MaxTime: sx_cover("MaxTime"); break;
  default: sx_cover("Unknown");
  }
}

// data menus
static const PA<2, 2> D22  = {{{1.5 - kSig, -0.5}, {-0.5, 1 - kSig}}, {{1, 1}, {0, 1}}};      // H = 2I
static const PA<2, 1> D21  = {{{3 - kSig}}, {{1}, {-1}}};                                       // H = 4
static const PA<1, 2> D12  = {{{3.5 - kSig, -0.5}, {-0.5, 3.5 - kSig}}, {{1, 1}}};              // H = 4I
static const PA<1, 2> L12  = {{{0, 0}, {0, 0}}, {{1, 1}}};                                      // LP
static const PA<1, 1> D11  = {{{2 - kSig - 0.5}}, {{1}}};                                       // H = 2
static const PA<1, 1> F11  = {{{0}}, {{1}}};                                                    // no cost curvature
static const PA<3, 2> D32  = {{{3 - kSig, 0}, {0, 3 - kSig}}, {{1, 0}, {0, 1}, {1, 1}}};
static const PA<2, 2> S22  = {{{5.75, -2}, {-2, 247. / 64}}, {{16, .25}, {.25, 1}}};  // scaled: H = diag(9/16, 1) when q[0] = 8, |q[1]| <= 8
static const PA<1, 1> S11  = {{{4}}, {{4}}};  // c = 1/8 when |q| = 8
static const PA<2, 1> S21  = {{{8}}, {{4}, {-4}}};  // c = 1/8 for |q| <= 8, scaled: A = (1, -1), P = 1/4
