// M01-M03: collocation mesh. All observations go through the public interface; a reference list of
// (start, degree) follows the documentation.
#include "sx.h"
#include <numeric>
#include <smooth/feedback/collocation/mesh.hpp>
#include <string>
using namespace smooth::feedback;

static std::string nm(const char * p, int i) { return std::string(p) + std::to_string(i); }
static std::vector<double> vec(auto && r) { std::vector<double> v; for (double d : r) v.push_back(d); return v; }
struct Iv { std::size_t K; double t0; };

template<std::size_t A, std::size_t B>
struct W
{
  using M = Mesh<A, B>;
  M m;
  std::vector<Iv> ref;

  double end(std::size_t i) const { return i + 1 < ref.size() ? ref[i + 1].t0 : 1.; }
  void split(std::size_t i, std::size_t n)
  {
    const double a = ref[i].t0, b = end(i);
    ref[i].K = A;
    for (std::size_t k = n - 1; k >= 1; --k) ref.insert(ref.begin() + i + 1, Iv{A, a + double(k) * (b - a) / double(n)});
  }
  void ph(std::size_t i, std::size_t D)
  {
    if (D > B || ref[i].K > B) split(i, std::max<std::size_t>(2, D / A + (D % A ? 1 : 0)));
    else if (D > ref[i].K) ref[i].K = D;
  }
  // structure of the mesh against the reference (M03)
  void same(const char * what)
  {
    if (!sx_param("same", 1)) {  // M01: any refinement is acceptable
      ref.clear();
      for (std::size_t i = 0; i < m.N_ivals(); ++i) ref.push_back(Iv{m.N_colloc_ival(i), vec(m.interval_nodes(i))[0]});
      return;
    }
    sx_check(m.N_ivals() == ref.size(), what);
    std::size_t n = 0;
    for (std::size_t i = 0; i < ref.size(); ++i) {
      sx_check(m.N_colloc_ival(i) == ref[i].K, what);
      sx_check(A <= m.N_colloc_ival(i) && m.N_colloc_ival(i) <= B + 1, "degrees stay within their limits");
      sx_check_eq(vec(m.interval_nodes(i))[0], ref[i].t0, 1e-9, what);
      n += ref[i].K;
    }
    sx_check(m.N_colloc() == n, "number of collocation points");
  }
  // partition (M01)
  void partition()
  {
    const std::size_t N = m.N_ivals();
    double prev = 0;
    std::vector<double> all, w;
    for (std::size_t i = 0; i < N; ++i) {
      const auto ns = vec(m.interval_nodes(i));
      const auto ws = vec(m.interval_weights(i));
      const std::size_t K = m.N_colloc_ival(i);
      sx_check(ns.size() == K + 1 && ws.size() == K + 1, "one node more than collocation points");
      sx_check_eq(ns[0], prev, 1e-12, "interval starts where the previous one ended");
      for (std::size_t k = 0; k < K; ++k) {
        sx_check(ns[k] < ns[k + 1], "nodes strictly increasing");
        sx_check(ws[k] > 0, "positive weights");
        all.push_back(ns[k]);
        w.push_back(ws[k]);
      }
      sx_check_eq(ws[K], 0, 0, "no weight at the end");
      prev = ns[K];
    }
    sx_check_eq(prev, 1, 1e-12, "last interval ends at 1");
    all.push_back(1);
    w.push_back(0);
    std::size_t k = 0;
    for (double t : m.all_nodes()) {
      sx_check(k < all.size(), "number of nodes");
      sx_check_eq(t, all[k], 1e-12, "all nodes are the interval nodes");
      ++k;
    }
    sx_check(k == all.size() && k == m.N_colloc() + 1, "number of nodes");
    k = 0;
    double sum = 0;
    for (double v : m.all_weights()) {
      sx_check(k < w.size(), "number of weights");
      sx_check_eq(v, w[k], 1e-12, "all weights are the interval weights");
      ++k;
      sum += v;
    }
    sx_check(k == w.size(), "number of weights");
    sx_check_eq(sum, 1, 1e-9, "weights sum to one");
    const double t = sx_real("t", -0.5, 1.5);
    const std::size_t j = m.interval_find(t);
    sx_check(j < N, "located interval exists");
    const auto nj = vec(m.interval_nodes(j));
    if (t < 0) sx_check(j == 0, "times before 0 belong to the first interval");
    else if (t > 1) sx_check(j == N - 1, "times after 1 belong to the last interval");
    else {
      sx_check_le(nj[0], t, 1e-12, "located interval contains the time");
      sx_check_le(t, nj[m.N_colloc_ival(j)], 1e-12, "located interval contains the time");
    }
  }

  void construct()
  {
    if (sx_param("ctor", 0) == 0) {
      m = M();
      ref = {Iv{A, 0}};
    } else {
      const std::size_t n = sx_choose("n", sx_param("maxn", 4)), k = A + sx_choose("k", B + 2 - A);
      m = sx_choose("defk", 2) ? M(n, k) : (ref.clear(), M(n));
      const std::size_t kk = m.N_colloc_ival(0);
      if (sx_param("same", 1)) sx_check(kk == k || kk == A, "constructor degree");
      const std::size_t nn = n < 2 ? 1 : n;
      for (std::size_t i = 0; i < nn; ++i) ref.push_back(Iv{kk, double(i) / double(nn)});
    }
  }
  std::size_t pick(const char * s) { return sx_choose(s, ref.size()); }
  void op(int step)
  {
    const int o = sx_param("op", -1) >= 0 ? (sx_param("op", -1) >> (4 * step)) % 16 : sx_choose(nm("op", step).c_str(), sx_param("nops", 5));
    if (o == 0) {
      const std::size_t i = pick(nm("i", step).c_str()), D = sx_choose(nm("D", step).c_str(), sx_param("maxd", 2 * B + 3));
      m.refine_ph(i, D);
      ph(i, D);
      same("refinement of one interval");
    } else if (o == 1) {
      m.increase_degrees();
      for (auto & r : ref) r.K = r.K < B + 1 ? r.K + 1 : B + 1;
      same("increase of all degrees");
    } else if (o == 2) {
      m.decrease_degrees();
      for (auto & r : ref) r.K = r.K > A ? r.K - 1 : A;
      same("decrease of all degrees");
    } else if (o == 3) {
      const std::size_t i = pick(nm("i", step).c_str()), K = A + sx_choose(nm("K", step).c_str(), B + 2 - A);
      m.set_N_colloc_ival(i, K);
      ref[i].K = K;
      same("degree of one interval");
    } else if (o == 4) {  // errors: arbitrary below the target, from a menu above it
      static constexpr double menu[] = {1.001, 1.9, 7, 40, 1000, 1e7};
      std::vector<double> errs(ref.size());
      const double tgt = 1. / 1024;
      std::vector<int> up(ref.size());
      for (std::size_t i = 0; i < ref.size(); ++i) {
        up[i] = sx_choose((nm("up", step) + "_" + std::to_string(i)).c_str(), sx_param("menu", 4));
        errs[i] = up[i] == 0 ? sx_real((nm("e", step) + "_" + std::to_string(i)).c_str(), 0, tgt) : tgt * menu[(up[i] + step) % 6];
      }
      m.refine_errors(errs, tgt);
      if (!sx_param("same", 1)) { same(""); return; }
      // which target degree is chosen is a heuristic; it must exceed the current degree
      std::size_t j = 0;
      std::vector<Iv> nw;
      for (std::size_t i = 0; i < ref.size(); ++i) {
        const double a = ref[i].t0, b = end(i);
        const std::size_t j0 = j;
        while (j < m.N_ivals() && vec(m.interval_nodes(j))[0] < b - 1e-9) ++j;
        sx_check(j > j0, "every interval is still covered");
        const std::size_t parts = j - j0;
        if (up[i] == 0) {
          sx_check(parts == 1 && m.N_colloc_ival(j0) == ref[i].K, "intervals within the target error are not changed");
        } else if (parts == 1) {
          sx_check(m.N_colloc_ival(j0) > ref[i].K && m.N_colloc_ival(j0) <= B, "error-driven refinement raises the degree within its limit");
        } else {
          for (std::size_t q = j0; q < j; ++q) sx_check(m.N_colloc_ival(q) == A, "error-driven split into intervals of minimal degree");
          sx_check(parts * A > B || ref[i].K > B, "error-driven split only beyond the maximal degree");
        }
        for (std::size_t q = 0; q < parts; ++q) nw.push_back(Iv{m.N_colloc_ival(j0 + q), a + double(q) * (b - a) / double(parts)});
      }
      sx_check(j == m.N_ivals(), "no further intervals");
      ref = nw;
      same("refinement by errors");
    }
  }
  void history()
  {
    construct();
    same("constructor");
    for (int s = 0; s < sx_param("steps", 2); ++s) {
      if (ref.size() > 8) sx_stop();
      op(s);
    }
    M c = m;
    m = M();
    m = std::move(c);
    same("copy");
    if (sx_param("part", 1)) partition();
    sx_cover("ok");
  }

  // ---- polynomials
  void menu_mesh()
  {
    switch (sx_param("mesh", 0)) {
    case 0: m = M(1, A + sx_param("k", 0)); break;
    case 1: m = M(2, A + sx_param("k", 0)); break;
    case 2: m = M(2, A); m.set_N_colloc_ival(0, B + 1); m.refine_ph(1, 3 * B); m.increase_degrees(); break;
    case 3: m = M(3, B); m.set_N_colloc_ival(1, A); m.set_N_colloc_ival(2, B + 1); break;
    case 4: m = M(); m.refine_ph(0, 2 * B + 1); m.refine_ph(1, 4 * B); m.set_N_colloc_ival(2, B); break;
    }
  }
  std::vector<double> coef(std::size_t deg, const char * p = "c")
  {
    std::vector<double> c(deg + 1);
    for (std::size_t i = 0; i <= deg; ++i) c[i] = sx_real(nm(p, i).c_str(), -1, 1);
    return c;
  }
  static double val(const std::vector<double> & c, double t, int p = 0)
  {
    double r = 0;
    for (std::size_t i = p; i < c.size(); ++i) {
      double f = 1;
      for (int k = 0; k < p; ++k) f *= double(i - k);
      for (std::size_t k = p; k < i; ++k) f *= t;
      r += c[i] * f;
    }
    return r;
  }
  static double in(const std::vector<double> & c, double a, double b)
  {
    double r = 0;
    for (std::size_t i = 0; i < c.size(); ++i) r += c[i] * (std::pow(b, double(i + 1)) - std::pow(a, double(i + 1))) / double(i + 1);
    return r;
  }
  void poly()
  {
    menu_mesh();
    for (std::size_t i = 0; i < m.N_ivals(); ++i) {
      const std::size_t K = m.N_colloc_ival(i);
      const auto ns = vec(m.interval_nodes(i));
      const auto ws = vec(m.interval_weights(i));
      const double a = ns[0], b = ns[K];
      {
        const auto c = coef(2 * K - 2);
        double s = 0;
        for (std::size_t k = 0; k <= K; ++k) s += ws[k] * val(c, ns[k]);
        sx_check_eq(s, in(c, a, b), 1e-9, "weights integrate polynomials exactly");
      }
      const auto c = coef(K);
      const Eigen::MatrixXd D = m.interval_diffmat(i);
      const auto [al, Du] = m.interval_diffmat_unscaled(i);
      const Eigen::MatrixXd I = m.interval_intmat(i);
      sx_check(D.rows() == long(K + 1) && D.cols() == long(K) && Du.rows() == long(K + 1) && Du.cols() == long(K) && I.rows() == long(K) && I.cols() == long(K), "matrix sizes");
      for (std::size_t k = 0; k < K; ++k) {
        double s = 0, u = 0, v = val(c, a);
        for (std::size_t j = 0; j <= K; ++j) {
          s += val(c, ns[j]) * D(j, k);
          u += val(c, ns[j]) * (al * Du(j, k));
        }
        for (std::size_t j = 0; j < K; ++j) v += val(c, ns[j], 1) * I(j, k);
        sx_check_eq(s, val(c, ns[k], 1), 1e-8, "differentiation matrix");
        sx_check_eq(u, val(c, ns[k], 1), 1e-8, "unscaled differentiation matrix");
        sx_check_eq(v, val(c, ns[k + 1]), 1e-8, "integration matrix");
      }
    }
    // global: polynomials of the least degree integrate over [0, 1]
    std::size_t kmin = 100;
    for (std::size_t i = 0; i < m.N_ivals(); ++i) kmin = std::min(kmin, m.N_colloc_ival(i));
    const auto c = coef(2 * kmin - 2);
    double s = 0;
    const auto an = vec(m.all_nodes()), aw = vec(m.all_weights());
    for (std::size_t k = 0; k < an.size(); ++k) s += aw[k] * val(c, an[k]);
    sx_check_eq(s, in(c, 0, 1), 1e-9, "all weights integrate polynomials exactly");
    sx_cover("ok");
  }
  void interp()
  {
    menu_mesh();
    const bool ext = sx_param("ext", 1), glob = sx_param("glob", 0);
    const int p = sx_param("p", 0), d = sx_param("d", 1);
    // a different polynomial on every interval; they agree at the interval ends. Polynomials in the
    // interval's own coordinate u in [-1, 1], or (glob) in the global time
    std::vector<std::vector<double>> cs;
    const std::size_t N = m.N_ivals();
    Eigen::MatrixXd V(d, m.N_colloc() + (ext ? 1 : 0));
    double t, x, sc = 1;
    std::size_t j = glob ? 0 : sx_choose("j", N);
    std::size_t o = 0;
    if (!glob) for (long k = 0; k < V.cols(); ++k) for (int r = 0; r < d; ++r) V(r, k) = sx_real(nm("v", k).append(nm("_", r)).c_str(), -100, 100);
    for (std::size_t i = 0; i < N; ++i) {
      const std::size_t K = m.N_colloc_ival(i);
      if (!glob && i != j) {  // anywhere else the values are arbitrary
        cs.emplace_back();
        o += K;
        continue;
      }
      auto c = coef(ext || i + 1 < N ? K : K - 1, nm("c", i).append("_").c_str());
      const auto ns = vec(m.interval_nodes(i));
      const double al = (ns[K] - ns[0]) / 2;
      const auto X = [&](double t) { return glob ? t : (t - ns[0]) / al - 1; };
      if (glob && i > 0) c[0] = val(cs.back(), ns[0]) - (val(c, ns[0]) - c[0]);
      for (std::size_t k = 0; k < K; ++k) for (int r = 0; r < d; ++r) V(r, o + k) = val(c, X(ns[k])) * double(r + 1);
      o += K;
      if (o < std::size_t(V.cols())) for (int r = 0; r < d; ++r) V(r, o) = val(c, X(ns[K])) * double(r + 1);
      cs.push_back(c);
    }
    if (glob) {
      x = t = sx_real("t", 0, 1);
      j = m.interval_find(t);
      const auto nj = vec(m.interval_nodes(j));
      if (p > 0) sx_assume(t > nj[0] && t < nj[m.N_colloc_ival(j)]);
    } else {
      x = sx_real("u", -1, j + 1 == N ? 1 : 1 - 1. / 65536);
      const auto nj = vec(m.interval_nodes(j));
      const double al = (nj[m.N_colloc_ival(j)] - nj[0]) / 2;
      t = nj[0] + al * (x + 1);
      for (int k = 0; k < p; ++k) sc /= al;
    }
    const auto r = sx_param("vec", 0) ? Eigen::VectorXd(m.template eval<Eigen::Vector<double, 1>>(t, V.colwise(), p, ext)) : m.template eval<Eigen::VectorXd>(t, V.colwise(), p, ext);
    sx_check(r.size() == d, "size of the value");
    for (int k = 0; k < d; ++k) sx_check_eq(r(k), val(cs[j], x, p) * double(k + 1) * sc, sc * (p ? 1e-6 : 1e-8), p ? "evaluation of a derivative" : "evaluation interpolates");
    sx_cover("ok");
  }
};

#define ENTRIES(X, A, B) \
  extern "C" void X##hist() { W<A, B>{}.history(); } \
  extern "C" void X##poly() { W<A, B>{}.poly(); } \
  extern "C" void X##int() { W<A, B>{}.interp(); }
ENTRIES(m12, 1, 2)
ENTRIES(m24, 2, 4)
ENTRIES(m33, 3, 3)
ENTRIES(m26, 2, 6)
ENTRIES(m510, 5, 10)
