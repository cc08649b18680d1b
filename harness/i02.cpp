// solve_nlp_ipopt with a stand-in for Ipopt's application object, which records options,
// asks for the start like Ipopt does and hands back an arbitrary final point.
#include "sx.h"
#define HAVE_CSTDDEF
#include <IpIpoptApplication.hpp>
#include <IpIpoptData.hpp>
#include <IpTNLP.hpp>
#undef HAVE_CSTDDEF
#include <string>
static void optimize(Ipopt::TNLP & t);
namespace Ipopt {
struct FakeOptions
{
  static const int C = 16;
  int n = 0, kind[C];
  std::string name[C], str[C];
  double num[C];
  void put(const std::string & t, int k, const std::string & s, double v)
  {
    int i = 0;
    while (i < n && name[i] != t) ++i;
    if (i == n) ++n;
    sx_check(n <= C, "too many options");
    name[i] = t;
    kind[i] = k;
    str[i]  = s;
    num[i]  = v;
  }
  int find(const char * t) const
  {
    for (int i = 0; i < n; ++i) if (name[i] == t) return i;
    return -1;
  }
  std::string get(const char * t, const char * def) const { const int i = find(t); return i < 0 ? def : str[i]; }
  bool SetStringValue(const std::string & t, const std::string & v, bool = true, bool = false) { put(t, 0, v, 0); return true; }
  bool SetIntegerValue(const std::string & t, Index v, bool = true, bool = false) { put(t, 1, "", v); return true; }
  bool SetNumericValue(const std::string & t, Number v, bool = true, bool = false) { put(t, 2, "", v); return true; }
  bool SetStringValueIfUnset(const std::string & t, const std::string & v, bool = true, bool = false) { if (find(t.c_str()) < 0) put(t, 0, v, 0); return true; }
  bool SetIntegerValueIfUnset(const std::string & t, Index v, bool = true, bool = false) { if (find(t.c_str()) < 0) put(t, 1, "", v); return true; }
  bool SetNumericValueIfUnset(const std::string & t, Number v, bool = true, bool = false) { if (find(t.c_str()) < 0) put(t, 2, "", v); return true; }
};
static FakeOptions * used;
static int initialized, optimized;
class FakeApplication : public ReferencedObject
{
public:
  FakeOptions opts;
  FakeApplication(bool = true, bool = true) {}
  FakeOptions * Options() { return &opts; }
  ApplicationReturnStatus Initialize() { ++initialized; return Solve_Succeeded; }
  ApplicationReturnStatus Initialize(std::string) { return Initialize(); }
  ApplicationReturnStatus Initialize(const char *) { return Initialize(); }
  ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP> & t)
  {
    ++optimized;
    used = &opts;
    optimize(*t);
    return Solve_Succeeded;
  }
};
}
#define IpoptApplication FakeApplication
#include "i01.cpp"

static const P<0, true> * prob;       // the problem handed in
static const P<0, false> * prob2;
static NLPSolution * warm;
static Ipopt::SolverReturn status;
static double rx[N], rzl[N], rzu[N], rl[M], robj;
static long rit;
static int ihess, iwarm, nuser;
static double uval[4];

template<typename Q>
static void drive(Ipopt::TNLP & t, const Q & p)
{
  sx_check(Ipopt::initialized == 1, "options were not read before the optimization");
  const auto & o = *Ipopt::used;
  // options of the user
  if (nuser) {
    const int a = o.find("max_iter"), b = o.find("print_level"), c = o.find("tol"), d = o.find("mu_strategy");
    sx_check(a >= 0 && o.kind[a] == 1 && o.num[a] == (double)(int)uval[0], "integer option lost");
    sx_check(b >= 0 && o.kind[b] == 1 && o.num[b] == (double)(int)uval[1], "integer option lost");
    sx_check(c >= 0 && o.kind[c] == 2, "numeric option lost");
    if (c >= 0) sx_check_same(o.num[c], uval[2], "numeric option changed");
    sx_check(d >= 0 && o.kind[d] == 0 && o.str[d] == "adaptive", "string option lost");
  }
  const std::string h = o.get("hessian_approximation", "exact"), w = o.get("warm_start_init_point", "no");
  if (ihess) sx_check(h == (ihess == 1 ? "exact" : "limited-memory"), "choice of the Hessian lost");
  // start
  Ipopt::Index n = -1, m = -1, nj = -1, nh = -1;
  Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
  sx_check(t.get_nlp_info(n, m, nj, nh, st), "callback failed");
  sx_check(n == N && m == M, "wrong sizes");
  double x[N], zl[N], zu[N], l[M];
  for (int i = 0; i < N; ++i) x[i] = zl[i] = zu[i] = -77;
  for (int i = 0; i < M; ++i) l[i] = -77;
  if (iwarm >= 2) sx_check(w == (iwarm == 2 ? "no" : "yes"), "option of the user does not win");
  else sx_check((w == "yes") == (warm != nullptr), warm ? "start point not used for a warm start" : "warm start without a start point");
  const bool z = w == "yes";
  sx_check(t.get_starting_point(n, true, x, z, zl, zu, m, z, l), "callback failed");
  for (int i = 0; i < N; ++i) {
    sx_check_same(x[i], warm ? warm->x(i) : 0, "start point");
    sx_check_same(zl[i], z ? warm->zl(i) : -77, "start multiplier");
    sx_check_same(zu[i], z ? warm->zu(i) : -77, "start multiplier");
  }
  for (int i = 0; i < M; ++i) sx_check_same(l[i], z ? warm->lambda(i) : -77, "start multiplier");
  // the problem
  double y[N], s = sx_real("sigma", -3, 3), k[M], f = 0;
  for (int i = 0; i < N; ++i) y[i] = sx_real("y", -3, 3);
  for (int i = 0; i < M; ++i) k[i] = sx_real("k", -3, 3);
  sx_check(t.eval_f(n, y, true, f), "callback failed");
  sx_check_eq(f, p.f_(y), 1e-9, "objective wrong");
  if (h == "exact") {
    int hr[9], hc[9];
    double hv[9] = {};
    sx_check(nh >= 5 && nh <= 6, "second derivatives asked for but not given");
    if (nh > 9) sx_stop();
    sx_check(t.eval_h(n, nullptr, false, 0, m, nullptr, false, nh, hr, hc, nullptr), "callback failed");
    sx_check(t.eval_h(n, y, true, s, m, k, true, nh, nullptr, nullptr, hv), "callback failed");
    double H[N][N] = {};
    for (int e = 0; e < nh; ++e) {
      sx_check(hr[e] >= 0 && hr[e] < N && hc[e] >= 0 && hc[e] <= hr[e], "Hessian position not in the lower triangle");
      H[hr[e]][hc[e]] += hv[e];
    }
    for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) sx_check_eq(H[i][j], p.hes(y, k, s, i, j), 1e-9, "Hessian of the Lagrangian wrong");
  }
  double g[M] = {};
  alignas(16) int data[sizeof(Ipopt::IpoptData) / 4 + 4];
  for (auto & d : data) d = rit;
  t.finalize_solution(status, N, rx, rzl, rzu, M, g, rl, robj, reinterpret_cast<const Ipopt::IpoptData *>(data), nullptr);
}
static void optimize(Ipopt::TNLP & t)
{
  if (prob) drive(t, *prob);
  else drive(t, *prob2);
}

template<bool Hess>
static void solve()
{
  auto p = make<0, Hess>();
  ihess = sx_param("hess", 0);
  iwarm = sx_param("warm", 0);
  nuser = sx_param("user", 1);
  NLPSolution ws;
  ws.status = NLPSolution::Status::Optimal;
  if (iwarm) {
    ws.x.resize(N); ws.zl.resize(N); ws.zu.resize(N); ws.lambda.resize(M);
    for (int i = 0; i < N; ++i) { ws.x(i) = sx_real("wx", -3, 3); ws.zl(i) = sx_real("wzl", 0, 3); ws.zu(i) = sx_real("wzu", 0, 3); }
    for (int i = 0; i < M; ++i) ws.lambda(i) = sx_real("wl", -3, 3);
    warm = &ws;
  }
  std::vector<std::pair<std::string, int>> oi;
  std::vector<std::pair<std::string, std::string>> os;
  std::vector<std::pair<std::string, double>> on;
  if (nuser) {
    uval[0] = (double)sx_int("max_iter", 0, 3000);
    uval[1] = (double)sx_int("print_level", 0, 12);
    uval[2] = sx_real("tol", 0, 1);
    oi = {{"max_iter", (int)uval[0]}, {"print_level", (int)uval[1]}};
    on = {{"tol", uval[2]}};
    os = {{"mu_strategy", "adaptive"}};
  }
  if (ihess) os.insert(sx_param("first", 0) ? os.begin() : os.end(), {"hessian_approximation", ihess == 1 ? "exact" : "limited-memory"});
  if (iwarm >= 2) os.push_back({"warm_start_init_point", iwarm == 2 ? "no" : "yes"});
  static const Ipopt::SolverReturn in[] = {Ipopt::SUCCESS, Ipopt::MAXITER_EXCEEDED, Ipopt::LOCAL_INFEASIBILITY, Ipopt::INTERNAL_ERROR};
  using S = NLPSolution::Status;
  static const S out[] = {S::Optimal, S::MaxIterations, S::PrimalInfeasible, S::Unknown};
  const int k = (int)sx_choose("status", 4);
  status = in[k];
  for (int i = 0; i < N; ++i) { rx[i] = sx_real("rx", -3, 3); rzl[i] = sx_real("rzl", 0, 3); rzu[i] = sx_real("rzu", 0, 3); }
  for (int i = 0; i < M; ++i) rl[i] = sx_real("rl", -3, 3);
  robj = sx_real("robj", -9, 9);
  rit  = sx_int("rit", 0, 3000);
  const auto q = p;
  if constexpr (Hess) prob = &q;
  else prob2 = &q;
  std::optional<NLPSolution> w;
  if (iwarm) w = ws;
  NLPSolution r;
  if (sx_param("rvalue", 0)) r = solve_nlp_ipopt(std::move(p), w, oi, os, on);
  else if (!iwarm && !nuser && !ihess) r = solve_nlp_ipopt(p);
  else r = solve_nlp_ipopt(p, w, oi, os, on);
  sx_check(Ipopt::optimized == 1, "not optimized once");
  sx_check(r.status == out[k], "status wrong");
  sx_check((long)r.iter == rit, "iteration count wrong");
  sx_check(r.x.size() == N && r.zl.size() == N && r.zu.size() == N && r.lambda.size() == M, "sizes wrong");
  for (int i = 0; i < N; ++i) {
    sx_check_same(r.x(i), rx[i], "final point changed");
    sx_check_same(r.zl(i), rzl[i], "lower bound multiplier changed");
    sx_check_same(r.zu(i), rzu[i], "upper bound multiplier changed");
  }
  for (int i = 0; i < M; ++i) sx_check_same(r.lambda(i), rl[i], "constraint multiplier changed");
  sx_check_same(r.objective, robj, "objective changed");
}
extern "C" {
void sh() { solve<true>(); }
#if KIND == 2
void sn() { solve<false>(); }
#endif
}
