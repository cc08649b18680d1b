// Stand-in for the parts of the smooth library (github.com/pettni/smooth) that smooth_feedback uses.
// The library is not installed here. Groups: real vectors, scalars, two nilpotent matrix groups in
// exponential coordinates (all maps polynomial, hence exact for the solver) and bundles of those.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Sparse>

namespace smooth {

// ------------------------------------------------------------------ forward-mode dual numbers
template<int N>
struct Dual
{
  double v{0};
  std::array<double, N> d{};
  Dual() = default;
  Dual(double x) : v(x) {}
  Dual(int x) : v(x) {}
  explicit operator double() const { return v; }
};
template<int N, class F> Dual<N> dmap(double v, F f) { Dual<N> r(v); for (int i = 0; i < N; ++i) r.d[i] = f(i); return r; }
template<int N> Dual<N> operator+(const Dual<N> & a, const Dual<N> & b) { return dmap<N>(a.v + b.v, [&](int i) { return a.d[i] + b.d[i]; }); }
template<int N> Dual<N> operator-(const Dual<N> & a, const Dual<N> & b) { return dmap<N>(a.v - b.v, [&](int i) { return a.d[i] - b.d[i]; }); }
template<int N> Dual<N> operator*(const Dual<N> & a, const Dual<N> & b) { return dmap<N>(a.v * b.v, [&](int i) { return a.d[i] * b.v + a.v * b.d[i]; }); }
template<int N> Dual<N> operator/(const Dual<N> & a, const Dual<N> & b) { return dmap<N>(a.v / b.v, [&](int i) { return (a.d[i] - a.v / b.v * b.d[i]) / b.v; }); }
template<int N> Dual<N> operator-(const Dual<N> & a) { return dmap<N>(-a.v, [&](int i) { return -a.d[i]; }); }
#define SMOOTH_MIXED(op) \
  template<int N> Dual<N> operator op(const Dual<N> & a, double b) { return a op Dual<N>(b); } \
  template<int N> Dual<N> operator op(double a, const Dual<N> & b) { return Dual<N>(a) op b; }
SMOOTH_MIXED(+) SMOOTH_MIXED(-) SMOOTH_MIXED(*) SMOOTH_MIXED(/)
#undef SMOOTH_MIXED
template<int N> Dual<N> & operator+=(Dual<N> & a, const Dual<N> & b) { return a = a + b; }
template<int N> Dual<N> & operator-=(Dual<N> & a, const Dual<N> & b) { return a = a - b; }
template<int N> Dual<N> & operator*=(Dual<N> & a, const Dual<N> & b) { return a = a * b; }
template<int N> bool operator<(const Dual<N> & a, const Dual<N> & b) { return a.v < b.v; }
template<int N> bool operator>(const Dual<N> & a, const Dual<N> & b) { return a.v > b.v; }
template<int N> bool operator==(const Dual<N> & a, const Dual<N> & b) { return a.v == b.v; }
}  // namespace smooth

namespace Eigen {
template<int N> struct NumTraits<smooth::Dual<N>> : NumTraits<double>
{
  using Real = smooth::Dual<N>; using NonInteger = Real; using Nested = Real; using Literal = Real;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
};
template<int N, class Op> struct ScalarBinaryOpTraits<smooth::Dual<N>, double, Op> { using ReturnType = smooth::Dual<N>; };
template<int N, class Op> struct ScalarBinaryOpTraits<double, smooth::Dual<N>, Op> { using ReturnType = smooth::Dual<N>; };
}  // namespace Eigen

namespace smooth {

// ------------------------------------------------------------------ concepts
namespace traits {
template<class M> struct man;
template<class G> struct lie;
}  // namespace traits
template<class M> concept Manifold = requires { traits::man<std::decay_t<M>>::Dof; };
template<class G> concept LieGroup = Manifold<G> && requires { traits::lie<std::decay_t<G>>::is_lie; };
template<class M> concept RnType   = std::is_base_of_v<Eigen::MatrixBase<std::decay_t<M>>, std::decay_t<M>> && std::decay_t<M>::ColsAtCompileTime == 1;

template<class M> inline constexpr Eigen::Index Dof = traits::man<std::decay_t<M>>::Dof;
template<class M> using Scalar      = typename traits::man<std::decay_t<M>>::Scalar;
template<class M> using PlainObject = typename traits::man<std::decay_t<M>>::PlainObject;
template<class S, class M> using CastT = typename traits::man<std::decay_t<M>>::template CastT<S>;
template<class M> using Tangent    = Eigen::Matrix<Scalar<M>, Dof<M>, 1>;
template<class M> using TangentMap = Eigen::Matrix<Scalar<M>, Dof<M>, Dof<M>>;
template<class M> using Hessian    = Eigen::Matrix<Scalar<M>, Dof<M>, (Dof<M> > 0 ? Dof<M> * Dof<M> : -1)>;

template<class S, class M> auto cast(const M & m) { return traits::man<M>::template cast<S>(m); }
template<class M> PlainObject<M> Default() { return traits::man<M>::Default(); }
template<class G> PlainObject<G> Identity() { return traits::man<G>::Default(); }
template<class G> PlainObject<G> Random()
{
  Eigen::Matrix<double, Dof<G>, 1> e;
  for (int i = 0; i < int(Dof<G>); ++i) e(i) = -1 + 2 * (double(std::rand()) / RAND_MAX);
  return traits::man<PlainObject<G>>::rplus(traits::man<G>::Default(), e);
}
template<class M, class D> PlainObject<M> rplus(const M & m, const Eigen::MatrixBase<D> & a) { return traits::man<M>::rplus(m, a); }
template<class M, class M2> auto rminus(const M & a, const M2 & b) { return traits::man<M>::rminus(a, b); }
template<class G> PlainObject<G> exp(const Tangent<G> & a) { return traits::lie<G>::exp(a); }
template<class G> PlainObject<G> inverse(const G & g) { return traits::lie<G>::inverse(g); }
template<class G> PlainObject<G> composition(const G & a, const G & b) { return traits::lie<G>::composition(a, b); }
template<class G> Tangent<G> log(const G & g) { return traits::lie<G>::log(g); }
template<class G> TangentMap<G> Ad(const G & g) { return traits::lie<G>::Ad(g); }
template<class G> TangentMap<G> ad(const Tangent<G> & a) { return traits::lie<G>::ad(a); }
template<class G> TangentMap<G> dr_exp(const Tangent<G> & a) { return traits::lie<G>::dr_exp(a); }
template<class G> TangentMap<G> dr_expinv(const Tangent<G> & a) { return traits::lie<G>::dr_expinv(a); }

// ------------------------------------------------------------------ vectors
template<RnType M> struct traits::man<M>
{
  static constexpr Eigen::Index Dof = M::SizeAtCompileTime;
  using Scalar      = typename M::Scalar;
  using PlainObject = Eigen::Matrix<Scalar, M::SizeAtCompileTime, 1>;
  template<class S> using CastT = Eigen::Matrix<S, M::SizeAtCompileTime, 1>;
  template<class S> static CastT<S> cast(const M & m) { return m.template cast<S>(); }
  static PlainObject Default() { return PlainObject::Zero(Dof == -1 ? 0 : Dof); }
  template<class D> static PlainObject rplus(const M & m, const Eigen::MatrixBase<D> & a) { return m + a; }
  template<class M2> static PlainObject rminus(const M & a, const M2 & b) { return a - b; }
};
template<RnType M> struct traits::lie<M>
{
  static constexpr bool is_lie = true;
  static constexpr int N = M::SizeAtCompileTime;
  using T  = Eigen::Matrix<typename M::Scalar, N, 1>;
  using TM = Eigen::Matrix<typename M::Scalar, N, N>;
  static T exp(const T & a) { return a; }
  static T log(const T & a) { return a; }
  static T inverse(const T & a) { return -a; }
  static T composition(const T & a, const T & b) { return a + b; }
  static TM Ad(const T &) { return TM::Identity(); }
  static TM ad(const T &) { return TM::Zero(); }
  static TM dr_exp(const T &) { return TM::Identity(); }
  static TM dr_expinv(const T &) { return TM::Identity(); }
  static TM d_dr_exp(const T &, int) { return TM::Zero(); }
  static TM d_dr_expinv(const T &, int) { return TM::Zero(); }
  static Eigen::MatrixXd mask() { return Eigen::MatrixXd::Identity(N, N); }
  static bool mask2(int, int, int) { return false; }
};

// ------------------------------------------------------------------ scalars
template<class M> concept ScalarT = std::floating_point<M>;
template<ScalarT M> struct traits::man<M>
{
  static constexpr Eigen::Index Dof = 1;
  using Scalar = M; using PlainObject = M;
  template<class S> using CastT = S;
  template<class S> static S cast(const M & m) { return S(m); }
  static M Default() { return M(0); }
  template<class D> static M rplus(M m, const Eigen::MatrixBase<D> & a) { return m + a(0); }
  static Eigen::Matrix<M, 1, 1> rminus(M a, M b) { return Eigen::Matrix<M, 1, 1>(a - b); }
};
template<int N> struct traits::man<Dual<N>>
{
  using M = Dual<N>;
  static constexpr Eigen::Index Dof = 1;
  using Scalar = M; using PlainObject = M;
  template<class S> using CastT = S;
  template<class D> static M rplus(M m, const Eigen::MatrixBase<D> & a) { return m + a(0); }
  static Eigen::Matrix<M, 1, 1> rminus(M a, M b) { Eigen::Matrix<M, 1, 1> r; r(0) = a - b; return r; }
};

// ------------------------------------------------------------------ nilpotent groups (step <= 3), exponential coordinates
template<int n> struct FiliBr  // R acting on R^(n-1) by shifts, nilpotent of step n - 1
{
  static constexpr int N = n, step = n - 1;
  template<class V> static V br(const V & a, const V & b) { V r = V::Zero(); for (int i = 2; i < n; ++i) r(i) = a(0) * b(i - 1) - a(i - 1) * b(0); return r; }
  // sum_k c[k] (s N)^k w on the last n - 1 components
  template<class V, class S> static V series(const V & w, const S & s, const std::array<double, n> & c)
  {
    V r = V::Zero();
    for (int i = 1; i < n; ++i) { S p(1.); for (int k = 0; i + k < n; ++k) { if (c[k] != 0) r(i + k) = r(i + k) + S(c[k]) * p * w(i); p = p * s; } }
    return r;
  }
  static std::array<double, n> co(int type)
  {
    std::array<double, n> c{};
    double f = 1;
    constexpr double b[] = {1., -1. / 2., 1. / 12., 0., -1. / 720., 0., 1. / 30240., 0., -1. / 1209600., 0., 1. / 47900160., 0., -691. / 1307674368000., 0., 1. / 74724249600., 0., -3617. / 10670622842880000.};
    for (int k = 0; k < n; ++k) { if (k) f /= k; c[k] = type == 0 ? f : type == 1 ? f / (k + 1) : b[k]; }
    return c;
  }
  template<class V> static V compose(const V & a, const V & b)
  {
    const V va = series(a, a(0), co(1)), vb = series(b, b(0), co(1));
    V v = va + series(vb, a(0), co(0));
    V r = series(v, decltype(a(0) + b(0))(a(0) + b(0)), co(2));
    r(0) = a(0) + b(0);
    return r;
  }
};
struct HeisBr { static constexpr int step = 2; static constexpr int N = 3; template<class V> static V br(const V & a, const V & b) { V r = V::Zero(); r(2) = a(0) * b(1) - a(1) * b(0); return r; } };
struct EngelBr { static constexpr int step = 3; static constexpr int N = 4; template<class V> static V br(const V & a, const V & b) { V r = V::Zero(); r(2) = a(0) * b(1) - a(1) * b(0); r(3) = a(0) * b(2) - a(2) * b(0); return r; } };

template<class S, class Br>
struct Nil
{
  static constexpr int N = Br::N;
  using V = Eigen::Matrix<S, N, 1>;
  V c = V::Zero();
  Nil() = default;
  explicit Nil(const V & a) : c(a) {}
  Nil operator*(const Nil & o) const
  {
    if constexpr (Br::step > 3) return Nil(Br::compose(c, o.c));
    const V xy = Br::br(c, o.c);
    return Nil(V(c + o.c + xy * S(0.5) + (Br::br(c, xy) - Br::br(o.c, xy)) * S(1. / 12)));
  }
  template<class D> Nil & operator*=(const Nil & o) { return *this = *this * o; }
  template<class D> Nil operator+(const Eigen::MatrixBase<D> & a) const { return *this * Nil(V(a)); }
  template<class D> Nil & operator+=(const Eigen::MatrixBase<D> & a) { return *this = *this * Nil(V(a)); }
  V operator-(const Nil & o) const { return (Nil(V(-o.c)) * *this).c; }
  Nil inverse() const { return Nil(V(-c)); }
  bool isApprox(const Nil & o, double eps = 1e-12) const { return c == o.c || c.isApprox(o.c, eps); }
  V log() const { return c; }
  static Nil exp(const V & a) { return Nil(a); }
  static Nil Identity() { return Nil(); }
};
template<class S> using Heis  = Nil<S, HeisBr>;
template<class S> using Engel = Nil<S, EngelBr>;
template<class S, int n> using Fili = Nil<S, FiliBr<n>>;

template<class G> inline constexpr bool IsCommutative = RnType<G>;
template<class S_, class Br> struct traits::man<Nil<S_, Br>>
{
  using M = Nil<S_, Br>;
  static constexpr Eigen::Index Dof = Br::N;
  using Scalar = S_; using PlainObject = M;
  template<class S> using CastT = Nil<S, Br>;
  template<class S> static CastT<S> cast(const M & m) { return CastT<S>(m.c.template cast<S>().eval()); }
  static M Default() { return M(); }
  template<class D> static M rplus(const M & m, const Eigen::MatrixBase<D> & a) { return m + a; }
  static typename M::V rminus(const M & a, const M & b) { return a - b; }
};
template<class S, class Br> struct traits::lie<Nil<S, Br>>
{
  static constexpr bool is_lie = true;
  static constexpr int N = Br::N;
  using G = Nil<S, Br>; using T = typename G::V; using TM = Eigen::Matrix<S, N, N>;
  static G exp(const T & a) { return G(a); }
  static T log(const G & g) { return g.c; }
  static G inverse(const G & g) { return g.inverse(); }
  static G composition(const G & a, const G & b) { return a * b; }
  static TM ad(const T & a) { TM r; for (int j = 0; j < N; ++j) r.col(j) = Br::br(a, T(T::Unit(j))); return r; }
  // power series in ad up to the step of the group, and its derivative with respect to a(j)
  static constexpr double kExp[] = {1., 1., 1. / 2., 1. / 6., 1. / 24., 1. / 120., 1. / 720., 1. / 5040., 1. / 40320., 1. / 362880., 1. / 3628800., 1. / 39916800., 1. / 479001600., 1. / 6227020800., 1. / 87178291200., 1. / 1307674368000., 1. / 20922789888000.};
  static constexpr double kDexp[] = {1., -1. / 2., 1. / 6., -1. / 24., 1. / 120., -1. / 720., 1. / 5040., -1. / 40320., 1. / 362880., -1. / 3628800., 1. / 39916800., -1. / 479001600., 1. / 6227020800., -1. / 87178291200., 1. / 1307674368000., -1. / 20922789888000., 1. / 355687428096000.};
  static constexpr double kDexpinv[] = {1., 1. / 2., 1. / 12., 0., -1. / 720., 0., 1. / 30240., 0., -1. / 1209600., 0., 1. / 47900160., 0., -691. / 1307674368000., 0., 1. / 74724249600., 0., -3617. / 10670622842880000.};
  static TM series(const T & a, const double * k)
  {
    const TM A = ad(a);
    TM r = TM::Identity(), p = A;
    for (int i = 1; i <= Br::step; ++i) { if (k[i] != 0) r = r + p * S(k[i]); p = (p * A).eval(); }
    return r;
  }
  static TM d_series(const T & a, int j, const double * k)
  {
    const TM A = ad(a), E = ad(T(T::Unit(j)));
    TM r = E * S(k[1]), p = A, d = E;  // powers of A and their derivatives
    for (int n = 2; n <= Br::step; ++n) {
      d = (d * A + p * E).eval();
      p = (p * A).eval();
      if (k[n] != 0) r = r + d * S(k[n]);
    }
    return r;
  }
  static TM Ad(const G & g) { return series(g.c, kExp); }
  static TM dr_exp(const T & a) { return series(a, kDexp); }
  static TM dr_expinv(const T & a) { return series(a, kDexpinv); }
  static TM d_dr_exp(const T & a, int j) { return d_series(a, j, kDexp); }
  static TM d_dr_expinv(const T & a, int j) { return d_series(a, j, kDexpinv); }
  static Eigen::MatrixXd mask()
  {
    Eigen::MatrixXd m = Eigen::MatrixXd::Identity(N, N);
    for (int i = 2; i < N; ++i) for (int j = 0; j < i; ++j) m(i, j) = 1;
    return m;
  }
  static bool mask2(int k, int, int) { return k >= 2; }
};

// ------------------------------------------------------------------ bundles
template<class... Gs>
struct Bundle
{
  std::tuple<Gs...> p;
  template<std::size_t I> auto & part() { return std::get<I>(p); }
  template<std::size_t I> const auto & part() const { return std::get<I>(p); }
};
template<class... Gs> inline constexpr bool IsCommutative<Bundle<Gs...>> = (IsCommutative<Gs> && ...);
template<class... Gs> struct traits::man<Bundle<Gs...>>
{
  using M = Bundle<Gs...>;
  static constexpr Eigen::Index Dof = (smooth::Dof<Gs> + ...);
  using Scalar = double; using PlainObject = M;
  template<class S> using CastT = Bundle<smooth::CastT<S, Gs>...>;
  static M Default() { return M{}; }
};
template<class... Gs> struct traits::lie<Bundle<Gs...>>
{
  static constexpr bool is_lie = true;
  static constexpr int N = (smooth::Dof<Gs> + ...);
  using T = Eigen::Matrix<double, N, 1>; using TM = Eigen::Matrix<double, N, N>;
  template<class F> static void each(F f) { int o = 0; ((f.template operator()<Gs>(o), o += int(smooth::Dof<Gs>)), ...); }
  static TM dr_exp(const T & a)
  {
    TM r = TM::Zero();
    each([&]<class G>(int o) { constexpr int n = smooth::Dof<G>; if constexpr (n > 0) r.template block<n, n>(o, o) = lie<G>::dr_exp(a.template segment<n>(o)); });
    return r;
  }
  static TM dr_expinv(const T & a)
  {
    TM r = TM::Zero();
    each([&]<class G>(int o) { constexpr int n = smooth::Dof<G>; if constexpr (n > 0) r.template block<n, n>(o, o) = lie<G>::dr_expinv(a.template segment<n>(o)); });
    return r;
  }
  static TM d_dr_exp(const T & a, int j)
  {
    TM r = TM::Zero();
    each([&]<class G>(int o) { constexpr int n = smooth::Dof<G>; if constexpr (n > 0) if (j >= o && j < o + n) r.template block<n, n>(o, o) = lie<G>::d_dr_exp(a.template segment<n>(o), j - o); });
    return r;
  }
  static TM d_dr_expinv(const T & a, int j)
  {
    TM r = TM::Zero();
    each([&]<class G>(int o) { constexpr int n = smooth::Dof<G>; if constexpr (n > 0) if (j >= o && j < o + n) r.template block<n, n>(o, o) = lie<G>::d_dr_expinv(a.template segment<n>(o), j - o); });
    return r;
  }
  static Eigen::MatrixXd mask()
  {
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(N, N);
    each([&]<class G>(int o) { constexpr int n = smooth::Dof<G>; if constexpr (n > 0) m.block(o, o, n, n) = lie<G>::mask(); });
    return m;
  }
  static bool mask2(int k, int i, int j)
  {
    bool r = false;
    each([&]<class G>(int o) { constexpr int n = smooth::Dof<G>; if constexpr (n > 0) if (k >= o && k < o + n && i >= o && i < o + n && j >= o && j < o + n) r = lie<G>::mask2(k - o, i - o, j - o); });
    return r;
  }
};

// ------------------------------------------------------------------ sparse derivatives
// second derivatives: block k, row i, column j holds the derivative of entry (k, i) with respect to coordinate j
#ifndef SMOOTH_HESS_TR
#define SMOOTH_HESS_TR 0
#endif
namespace detail {
template<class G> Eigen::SparseMatrix<double> pat1()
{
  const Eigen::MatrixXd m = traits::lie<G>::mask();
  Eigen::SparseMatrix<double> r(m.rows(), m.cols());
  for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) if (m(i, j) != 0) r.insert(i, j) = 0;
  r.makeCompressed();
  return r;
}
template<class G> Eigen::SparseMatrix<double> pat2()
{
  constexpr int N = smooth::Dof<G>;
  Eigen::SparseMatrix<double> r(N, N * N);
  for (int k = 0; k < N; ++k) for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) if (traits::lie<G>::mask2(k, i, j)) r.insert(i, k * N + j) = 0;
  r.makeCompressed();
  return r;
}
inline void fill(Eigen::SparseMatrix<double> & s, auto f)
{
  for (int j = 0; j < s.outerSize(); ++j) for (Eigen::SparseMatrix<double>::InnerIterator it(s, j); it; ++it) it.valueRef() = f(it.row(), it.col());
}
}  // namespace detail
template<class G> inline Eigen::SparseMatrix<double> d_exp_sparse_pattern  = detail::pat1<G>();
template<class G> inline Eigen::SparseMatrix<double> d2_exp_sparse_pattern = detail::pat2<G>();
template<class G> inline Eigen::SparseMatrix<double> ad_sparse_pattern = [] {
  Eigen::MatrixXd m = traits::lie<G>::mask() - Eigen::MatrixXd::Identity(Dof<G>, Dof<G>);
  Eigen::SparseMatrix<double> r(m.rows(), m.cols());
  for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) if (m(i, j) != 0) r.insert(i, j) = 0;
  r.makeCompressed();
  return r;
}();
template<class G> inline auto generators_sparse = [] {
  std::array<Eigen::SparseMatrix<double, Eigen::RowMajor>, Dof<G>> r;
  for (int i = 0; i < int(Dof<G>); ++i) r[i] = ad<G>(Tangent<G>::Unit(i)).sparseView();
  return r;
}();
template<class G> void ad_sparse(Eigen::SparseMatrix<double> & s, const Tangent<G> & a) { const auto m = ad<G>(a); detail::fill(s, [&](int i, int j) { return m(i, j); }); }
template<class G> void dr_exp_sparse(Eigen::SparseMatrix<double> & s, const Tangent<G> & a) { const auto m = dr_exp<G>(a); detail::fill(s, [&](int i, int j) { return m(i, j); }); }
template<class G> void dr_expinv_sparse(Eigen::SparseMatrix<double> & s, const Tangent<G> & a) { const auto m = dr_expinv<G>(a); detail::fill(s, [&](int i, int j) { return m(i, j); }); }
template<class G> void d2r_exp_sparse(Eigen::SparseMatrix<double> & s, const Tangent<G> & a)
{
  constexpr int N = Dof<G>;
  for (int q = 0; q < N; ++q) {
    const TangentMap<G> m = traits::lie<G>::d_dr_exp(a, q);
    for (int p = 0; p < N; ++p) for (int k = 0; k < N; ++k) {
      const int i = SMOOTH_HESS_TR ? q : p, j = SMOOTH_HESS_TR ? p : q;
      if (traits::lie<G>::mask2(k, i, j)) s.coeffRef(i, k * N + j) = m(k, p);
    }
  }
}
template<class G> void d2r_expinv_sparse(Eigen::SparseMatrix<double> & s, const Tangent<G> & a)
{
  constexpr int N = Dof<G>;
  for (int q = 0; q < N; ++q) {
    const TangentMap<G> m = traits::lie<G>::d_dr_expinv(a, q);
    for (int p = 0; p < N; ++p) for (int k = 0; k < N; ++k) {
      const int i = SMOOTH_HESS_TR ? q : p, j = SMOOTH_HESS_TR ? p : q;
      if (traits::lie<G>::mask2(k, i, j)) s.coeffRef(i, k * N + j) = m(k, p);
    }
  }
}

// ------------------------------------------------------------------ differentiation
template<class... Ts> auto wrt(Ts &&... a) { return std::forward_as_tuple(std::forward<Ts>(a)...); }
namespace diff {
enum class Type { Numerical, Autodiff, Ceres, Analytic, Default };
namespace detail {
template<class F, class Tup> struct d1 : std::false_type {};
template<class F, class... A> requires requires(const std::decay_t<F> & f, const A &... a) { f.jacobian(a...); } struct d1<F, std::tuple<A...>> : std::true_type {};
template<class F, class... A> requires requires(std::decay_t<F> & f, const A &... a) { f.jacobian(a...); } && (!requires(const std::decay_t<F> & f, const A &... a) { f.jacobian(a...); }) struct d1<F, std::tuple<A...>> : std::true_type {};
template<class F, class Tup> struct d2 : std::false_type {};
template<class F, class... A> requires requires(std::decay_t<F> & f, const A &... a) { f.hessian(a...); } struct d2<F, std::tuple<A...>> : std::true_type {};
template<class F, class Tup> concept diffable_order1 = d1<F, Tup>::value;
template<class F, class Tup> concept diffable_order2 = d2<F, Tup>::value;
template<class> struct dectup;
template<class... A> struct dectup<std::tuple<A...>> { using type = std::tuple<std::decay_t<A>...>; };

template<int N, class A> auto lift(const A & a, int o)
{
  using P = PlainObject<A>;
  constexpr int n = Dof<A>;
  CastT<Dual<N>, P> r;
  Eigen::Matrix<Dual<N>, n, 1> e;
  for (int i = 0; i < n; ++i) { e(i) = Dual<N>(0.); e(i).d[o + i] = 1; }
  r = traits::man<P>::template cast<Dual<N>>(P(a));
  return traits::man<CastT<Dual<N>, P>>::rplus(r, e);
}
// value of a dual object and its right derivative
template<int N> double down(const Dual<N> & a) { return a.v; }
template<int N, int R> Eigen::Matrix<double, R, 1> down(const Eigen::Matrix<Dual<N>, R, 1> & a) { Eigen::Matrix<double, R, 1> r(a.size()); for (int i = 0; i < a.size(); ++i) r(i) = a(i).v; return r; }
template<int N, class Br> Nil<double, Br> down(const Nil<Dual<N>, Br> & a) { return Nil<double, Br>(down(a.c)); }

template<class F, class... A> auto dr_ad(F && f, const A &... a)
{
  constexpr int N = (int(Dof<A>) + ...);
  int o = 0;
  auto args = std::tuple{[&] { auto r = lift<N>(a, o); o += int(Dof<A>); return r; }()...};
  const auto Rx = std::apply([&](const auto &... x) { return f(x...); }, args);
  using RT = PlainObject<decltype(Rx)>;
  const RT R = Rx;
  const auto val = down(R);
  using VT = PlainObject<std::decay_t<decltype(val)>>;
  const auto e = traits::man<RT>::rminus(R, traits::man<VT>::template cast<Dual<N>>(val));
  Eigen::Matrix<double, Dof<VT>, N> J(e.size(), N);
  for (int i = 0; i < e.size(); ++i) for (int j = 0; j < N; ++j) J(i, j) = e(i).d[j];
  return std::make_tuple(VT(val), J);
}
template<class F, class Tup> struct inv;
template<class F, class... A> struct inv<F, std::tuple<A...>> { static constexpr bool value = std::is_invocable_v<F, const A &...>; };
}  // namespace detail
template<std::size_t K, Type D = Type::Default, class F, class... A>
auto dr(F && f, std::tuple<A...> x)
{
  using T = std::tuple<std::decay_t<A>...>;
  if constexpr (K == 0) {
    return std::make_tuple(std::apply(f, x));
  } else if constexpr (D == Type::Numerical && requires(A &... a) { f.num_jacobian(a...); f.num_hessian(a...); }) {
    // functions of the checks that state their numerical derivatives
    if constexpr (K == 1) return std::make_tuple(std::apply(f, x), std::apply([&](auto &... a) { return f.num_jacobian(a...); }, x));
    else return std::make_tuple(std::apply(f, x), std::apply([&](auto &... a) { return f.num_jacobian(a...); }, x), std::apply([&](auto &... a) { return f.num_hessian(a...); }, x));
  } else if constexpr (detail::diffable_order1<F, T> && (K == 1 || detail::diffable_order2<F, T>)) {
    if constexpr (K == 1) return std::make_tuple(std::apply(f, x), std::apply([&](auto &... a) { return f.jacobian(a...); }, x));
    else return std::make_tuple(std::apply(f, x), std::apply([&](auto &... a) { return f.jacobian(a...); }, x), std::apply([&](auto &... a) { return f.hessian(a...); }, x));
  } else {
    static_assert(K == 1, "second derivatives must be analytic");
    return std::apply([&](auto &... a) { return detail::dr_ad(f, a...); }, x);
  }
}
}  // namespace diff

// ------------------------------------------------------------------ utilities
namespace utils {
template<std::size_t N, class F> constexpr void static_for(F && f)
{
  [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<N>{});
}
// last element that is not greater than t; end if there is none
template<class R, class T, class C> auto binary_interval_search(R && r, const T & t, C && cmp)
{
  auto it = std::ranges::begin(r), ret = std::ranges::end(r);
  for (; it != std::ranges::end(r) && cmp(*it, t) <= 0; ++it) ret = it;
  return ret;
}
template<class R> struct hold
{
  R r;
  auto begin() { return std::ranges::begin(r); }
  auto end() { return std::ranges::end(r); }
};
template<class R> struct hold<R &>
{
  R & r;
  auto begin() { return r.begin(); }
  auto end() { return r.end(); }
};
template<class... Rs>
struct zipped
{
  std::tuple<hold<Rs>...> rs;
  template<class... I> struct iter
  {
    std::tuple<I...> is;
    auto operator*() { return std::apply([](auto &... i) { return std::tuple<decltype(*i)...>(*i...); }, is); }
    iter & operator++() { std::apply([](auto &... i) { (++i, ...); }, is); return *this; }
  };
  template<class... S> struct sent { std::tuple<S...> ss; };
  template<class... I, class... S, std::size_t... K> static bool done(const iter<I...> & a, const sent<S...> & b, std::index_sequence<K...>) { return ((std::get<K>(a.is) == std::get<K>(b.ss)) || ...); }
  template<class... I, class... S> friend bool operator!=(const iter<I...> & a, const sent<S...> & b) { return !done(a, b, std::index_sequence_for<I...>{}); }
  auto begin() { return std::apply([](auto &... r) { return iter<decltype(r.begin())...>{{r.begin()...}}; }, rs); }
  auto end() { return std::apply([](auto &... r) { return sent<decltype(r.end())...>{{r.end()...}}; }, rs); }
};
template<class... Rs> auto zip(Rs &&... rs) { return zipped<Rs...>{{hold<Rs>{std::forward<Rs>(rs)}...}}; }
}  // namespace utils

// ------------------------------------------------------------------ polynomials
template<class T, std::size_t R, std::size_t C>
struct StaticMatrix : std::array<std::array<T, C>, R>
{
  static constexpr std::size_t Rows = R, Cols = C;
  constexpr StaticMatrix() : std::array<std::array<T, C>, R>{} {}
  template<std::size_t C2> constexpr StaticMatrix<T, R, C2> operator*(const StaticMatrix<T, C, C2> & o) const
  {
    StaticMatrix<T, R, C2> r;
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C2; ++j) for (std::size_t k = 0; k < C; ++k) r[i][j] += (*this)[i][k] * o[k][j];
    return r;
  }
  template<std::size_t R2, std::size_t C2> constexpr StaticMatrix<T, R2, C2> block(std::size_t i0, std::size_t j0) const
  {
    StaticMatrix<T, R2, C2> r;
    for (std::size_t i = 0; i < R2; ++i) for (std::size_t j = 0; j < C2; ++j) r[i][j] = (*this)[i0 + i][j0 + j];
    return r;
  }
};
namespace detail {
constexpr std::pair<double, double> leg(std::size_t n, double x)  // P_n and its derivative
{
  double p0 = 1, p1 = x, d0 = 0, d1 = 1;
  if (n == 0) return {p0, d0};
  for (std::size_t k = 1; k < n; ++k) {
    const double p2 = ((2. * k + 1) * x * p1 - k * p0) / (k + 1.), d2 = ((2. * k + 1) * (p1 + x * d1) - k * d0) / (k + 1.);
    p0 = p1; p1 = p2; d0 = d1; d1 = d2;
  }
  return {p1, d1};
}
}  // namespace detail
template<std::size_t K, std::size_t I = 8> constexpr std::pair<std::array<double, K>, std::array<double, K>> lgr_nodes()
{
  std::array<double, K> x{}, w{};
  x[0] = -1;
  w[0] = 2. / (K * K);
  // roots of P_{K-1} + P_K in (-1, 1): scan and bisect
  std::size_t n = 1;
  const auto f = [](double t) { return detail::leg(K - 1, t).first + detail::leg(K, t).first; };
  const int M = 200;
  for (int i = 1; i < M && n < K; ++i) {
    double a = -1 + 2. * i / M - 1e-9, b = -1 + 2. * (i + 1) / M - 1e-9;
    double fa = f(a), fb = f(b);
    if ((fa < 0) == (fb < 0)) continue;
    for (int k = 0; k < 12; ++k) { const double c = (a + b) / 2, fc = f(c); if ((fc < 0) == (fa < 0)) { a = c; fa = fc; } else b = c; }
    double c = (a + b) / 2;
    for (int k = 0; k < 6; ++k) { const auto p = detail::leg(K - 1, c), q = detail::leg(K, c); c -= (p.first + q.first) / (p.second + q.second); }
    x[n] = c;
    const double p = detail::leg(K - 1, c).first;
    w[n] = (1 - c) / (double(K) * double(K) * p * p);
    ++n;
  }
  return {x, w};
}
template<std::size_t K> constexpr StaticMatrix<double, K + 1, K + 1> lagrange_basis(const std::array<double, K + 1> & ts)
{
  StaticMatrix<double, K + 1, K + 1> r;
  for (std::size_t j = 0; j <= K; ++j) {
    std::array<double, K + 1> c{};
    c[0] = 1;
    std::size_t deg = 0;
    for (std::size_t m = 0; m <= K; ++m) {
      if (m == j) continue;
      const double s = 1. / (ts[j] - ts[m]);
      for (std::size_t k = deg + 2; k-- > 0;) c[k] = s * ((k ? c[k - 1] : 0.) - (k <= deg ? ts[m] * c[k] : 0.));
      ++deg;
    }
    for (std::size_t k = 0; k <= K; ++k) r[k][j] = c[k];
  }
  return r;
}
template<std::size_t K> constexpr StaticMatrix<double, 1, K + 1> monomial_derivative(double u, std::size_t p = 0)
{
  StaticMatrix<double, 1, K + 1> r;
  for (std::size_t k = p; k <= K; ++k) {
    double c = 1;
    for (std::size_t i = 0; i < p; ++i) c *= double(k - i);
    for (std::size_t i = p; i < k; ++i) c *= u;
    r[0][k] = c;
  }
  return r;
}
template<std::size_t K, std::size_t N> constexpr StaticMatrix<double, K + 1, N> polynomial_basis_derivatives(const StaticMatrix<double, K + 1, K + 1> & B, const std::array<double, N> & ts)
{
  StaticMatrix<double, K + 1, N> r;
  for (std::size_t j = 0; j < N; ++j) {
    const auto u = monomial_derivative<K>(ts[j], 1) * B;
    for (std::size_t i = 0; i <= K; ++i) r[i][j] = u[0][i];
  }
  return r;
}

// ------------------------------------------------------------------ curves
template<class G> using OptTangent = std::optional<Eigen::Ref<Tangent<G>>>;
template<int K, LieGroup G> struct Spline
{
  G g0 = Default<G>();
  Tangent<G> v = Tangent<G>::Zero();
  G operator()(double t, OptTangent<G> vel = {}, OptTangent<G> acc = {}) const
  {
    if (vel) vel->noalias() = v;
    if (acc) acc->setZero();
    return rplus(g0, t * v);
  }
};
}  // namespace smooth
