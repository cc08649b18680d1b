#include "sx.h"
#include <smooth/feedback/utils/sparse.hpp>
#include <vector>
using namespace smooth::feedback;
// Sparse helpers. All matrices are small; values are symbolic, patterns and offsets are choices.
static const int R = 3, C = 4;
static double val(const char * n) { return sx_real(n, -4, 4); }

// stored entries of the destination: 0 none, 1 diagonal + one, 2 all, 3 last row and column
static bool stored(int pat, int r, int c)
{
  switch (pat) {
  case 0: return false;
  case 1: return r == c || (r == 0 && c == 3);
  case 2: return true;
  default: return r == R - 1 || c == C - 1 || (r == 1 && c == 0);
  }
}
template<int O>
struct Dest
{
  Eigen::SparseMatrix<double, O> m{R, C};
  double before[R][C];
  Dest()
  {
    const int pat = sx_param("pat", -1) < 0 ? (int)sx_choose("pat", 4) : (int)sx_param("pat", 0);
    const bool comp = sx_choose("comp", 2);
    if (!comp) m.reserve(Eigen::VectorXi::Constant(m.outerSize(), 5));
    for (int o = 0; o < m.outerSize(); ++o)
      for (int i = 0; i < m.innerSize(); ++i) {
        const int r = O == Eigen::RowMajor ? o : i, c = O == Eigen::RowMajor ? i : o;
        before[r][c] = 0;
        if (stored(pat, r, c)) m.insert(r, c) = before[r][c] = val("d");
      }
    if (comp) m.makeCompressed();
  }
  double at(int r, int c) const { return m.coeff(r, c); }
};
enum Op { Add, Write };
template<int O, typename Src, typename F>
void check_block(Dest<O> & d, const Src & src, int sr, int sc, F && has, const double (*v)[3])
{
  const int r0 = sx_choose("r0", R - sr + 1), c0 = sx_choose("c0", C - sc + 1);
  const bool up = sx_choose("upper", 2), wr = sx_choose("write", 2);
  const bool defaults = sx_param("defaults", 0);
  const double sc_ = defaults ? 1 : sx_real("scale", -4, 4);
  if (defaults) {
    if (wr) block_write(d.m, r0, c0, src); else block_add(d.m, r0, c0, src);
  } else if (wr) block_write(d.m, r0, c0, src, sc_, up);
  else block_add(d.m, r0, c0, src, sc_, up);
  sx_check(d.m.rows() == R && d.m.cols() == C, "dimensions changed");
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c) {
      double e = d.before[r][c];
      const int i = r - r0, j = c - c0;
      if (i >= 0 && i < sr && j >= 0 && j < sc && has(i, j) && (!up || defaults || r <= c)) {
        e = wr ? sc_ * v[i][j] : e + sc_ * v[i][j];
        sx_check_eq(d.at(r, c), e, 1e-9, wr ? "addressed entry not written" : "addressed entry not added to");
      } else {
        sx_check_same(d.at(r, c), e, "entry outside the block changed");
      }
    }
}
template<int O, int SR, int SC>
void dense_block()
{
  Dest<O> d;
  double v[3][3];
  Eigen::Matrix<double, SR, SC> s;
  for (int i = 0; i < SR; ++i) for (int j = 0; j < SC; ++j) s(i, j) = v[i][j] = val("s");
  auto all = [](int, int) { return true; };
  if constexpr (SR == 2) {
    if (sx_param("dyn", 0) == 1) { Eigen::Matrix<double, -1, -1, Eigen::RowMajor> t = s; check_block(d, t, SR, SC, all, v); return; }
    if (sx_param("dyn", 0) == 2) { Eigen::MatrixXd t = s.transpose(); check_block(d, t.transpose(), SR, SC, all, v); return; }
  }
  check_block(d, s, SR, SC, all, v);
}
template<int O, int SO>
void sparse_block()
{
  Dest<O> d;
  double v[3][3];
  Eigen::SparseMatrix<double, SO> s(2, 3);
  const int pat = sx_choose("spat", 4), comp = sx_param("comps", 1);
  auto has = [&](int i, int j) { return pat == 0 ? i == j : pat == 1 ? true : pat == 2 ? i > j : j == 2 || (i == 0 && j == 1); };
  if (!comp) s.reserve(Eigen::VectorXi::Constant(s.outerSize(), 4));
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j) {
      v[i][j] = 0;
      if (has(i, j)) s.insert(i, j) = v[i][j] = val("s");
    }
  if (comp) s.makeCompressed();
  check_block(d, s, 2, 3, has, v);
}
// S02
template<int O>
void identity_block()
{
  Dest<O> d;
  const int n = sx_choose("n", 4), r0 = sx_choose("r0", R), c0 = sx_choose("c0", C);
  if (r0 + n > R || c0 + n > C) return;
  const bool wr = sx_choose("write", 2), def = sx_param("defaults", 0);
  const double s = def ? 1 : sx_real("scale", -4, 4);
  if (def) { if (wr) block_write_identity(d.m, r0, c0, n); else block_add_identity(d.m, r0, c0, n); }
  else if (wr) block_write_identity(d.m, r0, c0, n, s);
  else block_add_identity(d.m, r0, c0, n, s);
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c) {
      const bool on = r - r0 == c - c0 && r >= r0 && r < r0 + n;
      if (on) sx_check_eq(d.at(r, c), wr ? s : d.before[r][c] + s, 1e-9, "diagonal entry wrong");
      else sx_check_same(d.at(r, c), d.before[r][c], "entry off the addressed diagonal changed");
    }
}
template<int O>
void zeroing()
{
  Dest<O> d;
  const bool comp = d.m.isCompressed();
  const long nnz = d.m.nonZeros();
  std::vector<long> pos;
  for (int o = 0; o < d.m.outerSize(); ++o)
    for (typename Eigen::SparseMatrix<double, O>::InnerIterator it(d.m, o); it; ++it) pos.push_back(it.row() * C + it.col());
  if (sx_param("bad", 0)) {  // what is stored need not be finite
    int k = 0;
    for (int o = 0; o < d.m.outerSize(); ++o)
      for (typename Eigen::SparseMatrix<double, O>::InnerIterator it(d.m, o); it; ++it, ++k) {
        if (k % 2) continue;
        d.before[it.row()][it.col()] = it.valueRef() = (k % 4 ? -1 : 1) * std::numeric_limits<double>::infinity();
      }
  }
  int lo = 0, n = d.m.outerSize();
  if (sx_param("block", 0)) {
    lo = sx_choose("lo", n);
    n  = sx_choose("cnt", n - lo + 1);
    if constexpr (O == Eigen::RowMajor) set_zero(d.m.middleRows(lo, n));
    else set_zero(d.m.middleCols(lo, n));
  } else {
    set_zero(d.m);
  }
  size_t k = 0;
  bool same = d.m.isCompressed() == comp && d.m.nonZeros() == nnz;
  for (int o = 0; o < d.m.outerSize(); ++o)
    for (typename Eigen::SparseMatrix<double, O>::InnerIterator it(d.m, o); it; ++it, ++k) same &= k < pos.size() && pos[k] == it.row() * C + it.col();
  sx_check(same && k == pos.size(), "sparsity pattern changed");
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c) {
      const int o = O == Eigen::RowMajor ? r : c;
      if (o >= lo && o < lo + n) sx_check_same(d.at(r, c), 0, "entry not zeroed");
      else sx_check_same(d.at(r, c), d.before[r][c], "entry outside the expression changed");
    }
}
template<int O>
void marking()
{
  const bool comp = sx_choose("comp", 2);
  Eigen::SparseMatrix<double, O> m(2, 3);
  const int pat = sx_choose("spat", 4);
  auto has = [&](int i, int j) { return pat == 0 ? i == j : pat == 1 ? (i + j) % 2 == 0 : pat == 2 ? i > j : j == 2 || (i == 0 && j == 1); };
  double v[2][3];
  long cnt = 0;
  if (!comp) m.reserve(Eigen::VectorXi::Constant(m.outerSize(), 4));
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j) {
      v[i][j] = 1;
      if (has(i, j)) m.insert(i, j) = v[i][j] = val("s");
      if (v[i][j] == 0) ++cnt;
    }
  if (comp) m.makeCompressed();
  sx_check((long)count_explicit_zeros(m) == cnt, "number of explicit zeros wrong");
  const auto k = mark_explicit_zeros(m);
  sx_check(k.rows() == 2 && k.cols() == 3, "marked matrix has wrong dimensions");
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j) sx_check_same(k(i, j), !has(i, j) ? 0 : v[i][j] == 0 ? 9 : 1, "entry marked wrongly");
  if (O == 0 && sx_param("dense", 0)) {
    Eigen::Matrix<double, 2, 3> e;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) e(i, j) = has(i, j) ? v[i][j] : 1;
    sx_check((long)count_explicit_zeros(e) == cnt, "number of zeros of a dense matrix wrong");
  }
}
// S03
template<typename T> struct IsSparse : std::bool_constant<std::is_base_of_v<Eigen::SparseMatrixBase<T>, T>> {};
template<typename T>
void fill(T & m, int r, int c, double * v, const char * name, int pat)
{
  m.resize(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) {
      const bool has = pat == 0 || (i + 2 * j) % 3 != pat - 1;
      v[i * c + j] = has ? sx_real(name, -2, 2) : 0;
      if constexpr (IsSparse<T>::value) { if (has) m.insert(i, j) = v[i * c + j]; }
      else m(i, j) = v[i * c + j];
    }
  if constexpr (IsSparse<T>::value) m.makeCompressed();
}
template<typename TJf, typename THf, typename TJg, typename THg, int No, int Ny, int Nx>
void fog()
{
  const int p = sx_param("pat", 0), r0 = sx_param("r0", 1), c0 = sx_param("c0", 2);
  double jf[No * Ny], hf[Ny * No * Ny], jg[Ny * Nx], hg[Nx * Ny * Nx];
  TJf Jf; THf Hf; TJg Jg; THg Hg;
  fill(Jf, No, Ny, jf, "Jf", p);
  fill(Hf, Ny, No * Ny, hf, "Hf", p);
  fill(Jg, Ny, Nx, jg, "Jg", p);
  fill(Hg, Nx, Ny * Nx, hg, "Hg", p);
  const int rows = r0 + Nx + 1, cols = c0 + No * Nx + 1;
  Eigen::SparseMatrix<double> out(rows, cols);
  std::vector<double> old(rows * cols, 0);
  if (sx_param("pre", 1))
    for (int c = 0; c < cols; ++c)
      for (int r = 0; r < rows; ++r)
        if ((r + c) % 2) out.insert(r, c) = old[r * cols + c] = sx_real("out", -2, 2);
  if (sx_param("offs", 1)) d2r_fog(out, Jf, Hf, Jg, Hg, r0, c0);
  else d2r_fog(out, Jf, Hf, Jg, Hg);
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c) {
      double e = old[r * cols + c];
      const int i = r - (sx_param("offs", 1) ? r0 : 0), cc = c - (sx_param("offs", 1) ? c0 : 0);
      if (i < 0 || i >= Nx || cc < 0 || cc >= No * Nx) { sx_check_same(out.coeff(r, c), e, "entry outside the addressed block changed"); continue; }
      const int o = cc / Nx, j = cc % Nx;
      for (int a = 0; a < Ny; ++a) {
        for (int b = 0; b < Ny; ++b) e += jg[a * Nx + i] * hf[a * No * Ny + o * Ny + b] * jg[b * Nx + j];
        e += jf[o * Ny + a] * hg[i * Ny * Nx + a * Nx + j];
      }
      sx_check_eq(out.coeff(r, c), e, 1e-7, "second derivative of the composition wrong");
    }
}
using SM = Eigen::SparseMatrix<double>; using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>; using DM = Eigen::MatrixXd;
extern "C" {
void bd22c() { dense_block<0, 2, 2>(); }
void bd22r() { dense_block<1, 2, 2>(); }
void bd13c() { dense_block<0, 1, 3>(); }
void bd31r() { dense_block<1, 3, 1>(); }
void bscc() { sparse_block<0, 0>(); }
void bscr() { sparse_block<0, 1>(); }
void bsrc() { sparse_block<1, 0>(); }
void bsrr() { sparse_block<1, 1>(); }
void idc() { identity_block<0>(); }
void idr() { identity_block<1>(); }
void zc() { zeroing<0>(); }
void zr() { zeroing<1>(); }
void mc() { marking<0>(); }
void mr() { marking<1>(); }
void fog222() { fog<DM, DM, DM, DM, 2, 2, 2>(); }
void fog222s() { fog<SM, SM, SM, SM, 2, 2, 2>(); }
void fog132() { fog<DM, DM, DM, DM, 1, 3, 2>(); }
void fog213s() { fog<SM, SM, SM, SM, 2, 1, 3>(); }
void fog312s() { fog<SR, SM, SR, SM, 3, 1, 2>(); }
void fog221r() { fog<SR, SM, SR, SM, 2, 2, 1>(); }
}
