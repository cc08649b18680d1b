// Translation of the expression DAG to Z3 and the incremental solver used by the executor.
#pragma once
#include <chrono>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include <z3++.h>

#include "expr.h"

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

static inline double nowS()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// exact rational text of a finite double
static std::string ratOf(double d)
{
  if (d == 0) return "0";
  int ex;
  double m      = std::frexp(d, &ex);
  long long mi  = (long long)std::ldexp(m, 53);
  ex -= 53;
  bool neg = mi < 0;
  unsigned long long u = neg ? -mi : mi;
  while (!(u & 1)) { u >>= 1; ++ex; }
  // big decimal of 2^|ex|
  auto pow2 = [](int n) {
    std::vector<int> dg{1};
    for (int i = 0; i < n; ++i) {
      int c = 0;
      for (auto &x : dg) { int v = x * 2 + c; x = v % 10; c = v / 10; }
      if (c) dg.push_back(c);
    }
    std::string s;
    for (auto it = dg.rbegin(); it != dg.rend(); ++it) s += char('0' + *it);
    return s;
  };
  static std::map<int, std::string> memo;
  auto p2 = [&](int n) -> std::string & {
    auto it = memo.find(n);
    if (it == memo.end()) it = memo.emplace(n, pow2(n)).first;
    return it->second;
  };
  std::string us = std::to_string(u);
  std::string sg = neg ? "-" : "";
  if (ex == 0) return sg + us;
  if (ex < 0) return sg + us + "/" + p2(-ex);
  // u * 2^ex : multiply decimal string
  std::vector<int> dg;
  for (auto it = us.rbegin(); it != us.rend(); ++it) dg.push_back(*it - '0');
  for (int i = 0; i < ex; ++i) {
    int c = 0;
    for (auto &x : dg) { int v = x * 2 + c; x = v % 10; c = v / 10; }
    if (c) dg.push_back(c);
  }
  std::string s;
  for (auto it = dg.rbegin(); it != dg.rend(); ++it) s += char('0' + *it);
  return sg + s;
}

struct PCNode {
  EP cond;
  std::shared_ptr<PCNode> prev;
  int depth;
};
typedef std::shared_ptr<PCNode> PC;

struct Stats {
  long queries = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0;
};

struct Smt {
  ExprPool &P;
  z3::context c;
  std::unique_ptr<z3::solver> s;
  // Three renderings: 0 products, quotients and roots are opaque variables (incremental solver;
  // 'unsat' is final, a model is verified afterwards), 1 full encoding with definitional
  // constraints, 2 direct evaluation in a model.
  int mode = 2;
  struct Mode { Smt &s; int old; Mode(Smt &s_, int m) : s(s_), old(s_.mode) { s.mode = m; } ~Mode() { s.mode = old; } };
  std::unordered_map<EP, z3::expr> cacheM[3];
  std::vector<EP> onStack;                     // asserted path conditions, one scope each
  std::vector<z3::expr> defsM[3];              // definitional constraints (quotients, roots)
  std::unordered_map<EP, std::vector<int>> edefsM[3];
  std::vector<std::set<int>> defScopes;        // defsM[mode] asserted per scope
  std::vector<EP> vars;                        // variables in creation order
  std::set<EP> varSet;
  Stats st;
  unsigned tBranch = 3000, tAssert = 20000;
  unsigned curTimeout = 0;
  volatile double busySince = 0;
  struct Busy { Smt &s; Busy(Smt &q) : s(q) { s.busySince = nowS(); } ~Busy() { s.busySince = 0; } };

  Smt(ExprPool &p) : P(p) { reset(); }
  void reset()
  {
    s = P.theory == TH_REAL ? std::make_unique<z3::solver>(c, z3::solver::simple()) : std::make_unique<z3::solver>(c);
    curTimeout = 0;
    onStack.clear();
    defScopes.clear();
    defScopes.emplace_back();
  }
  void setTimeout(unsigned ms)
  {
    if (ms == curTimeout) return;
    z3::params p(c);
    p.set("timeout", ms);
    s->set(p);
    curTimeout = ms;
  }
  // Coefficients are rounded to coefBits significant bits in the real encoding (keeps the
  // simplex tableau small); the relative perturbation 2^-coefBits is far below every slack used.
  int coefBits = 40;
  double rc(double d)
  {
    int ex;
    double m = std::frexp(d, &ex);
    if (d == std::ldexp(std::nearbyint(std::ldexp(m, 12)), ex - 12)) return d;
    return std::ldexp(std::nearbyint(std::ldexp(m, coefBits)), ex - coefBits);
  }
  // A coefficient that is within 2^-45 (relative) of a fraction with a small denominator is taken
  // to be that fraction (rounding noise of the concrete arithmetic); others are rounded.
  std::string ratStr(double d)
  {
    if (d == 0) return "0";
    double r = rc(d);
    int ex;
    double m = std::frexp(d, &ex);
    if (d == std::ldexp(std::nearbyint(std::ldexp(m, 16)), ex - 16)) return ratOf(d);
    // m in [.5,1): continued fraction of |m|
    double x = std::fabs(m);
    long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    double y = x;
    for (int i = 0; i < 24; ++i) {
      double a = std::floor(y);
      if (a > 1e7) break;
      long p2 = (long)a * p1 + p0, q2 = (long)a * q1 + q0;
      if (q2 > 1500000) break;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      if (std::fabs((double)p1 / q1 - x) <= x * std::ldexp(1, -46)) {
        // p1/q1 * 2^ex
        std::string num = ratOf(std::ldexp((double)(d < 0 ? -p1 : p1), ex > 0 ? ex : 0));
        std::string den = ratOf(std::ldexp((double)q1, ex < 0 ? -ex : 0));
        return num + "/" + den;
      }
      double fr = y - a;
      if (fr < 1e-13) break;
      y = 1 / fr;
    }
    return ratOf(r);
  }
  z3::sort fpsort(unsigned w) { return w == 32 ? c.fpa_sort(8, 24) : c.fpa_sort(11, 53); }
  z3::expr b2(const z3::expr &b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
  // boolean view of a 1-bit expression
  std::unordered_map<EP, z3::expr> bcacheM[3];
  z3::expr boolOf(EP e)
  {
    auto it = bcacheM[mode].find(e);
    if (it != bcacheM[mode].end()) return it->second;
    z3::expr r = boolOf0(e);
    bcacheM[mode].emplace(e, r);
    return r;
  }
  z3::expr boolOf0(EP e)
  {
    switch (e->k) {
    case K_BVC: return c.bool_val(e->c != 0);
    case K_AND: if (e->width == 1) return boolOf(e->a) && boolOf(e->b); break;
    case K_OR: if (e->width == 1) return boolOf(e->a) || boolOf(e->b); break;
    case K_XOR:
      if (e->width == 1) {
        if (e->b->k == K_BVC) return e->b->c ? !boolOf(e->a) : boolOf(e->a);
        return boolOf(e->a) != boolOf(e->b);
      }
      break;
    case K_ITE: if (e->width == 1 && !e->isF) return z3::ite(boolOf(e->a), boolOf(e->b), boolOf(e->e)); break;
    case K_EQ: return e->a->width == 1 ? boolOf(e->a) == boolOf(e->b) : tr(e->a) == tr(e->b);
    case K_ULT: return z3::ult(tr(e->a), tr(e->b));
    case K_ULE: return z3::ule(tr(e->a), tr(e->b));
    case K_SLT: return tr(e->a) < tr(e->b);
    case K_SLE: return tr(e->a) <= tr(e->b);
    case K_FLT: if (P.theory == TH_REAL) return tr(e->a) < tr(e->b);       return z3::expr(c, Z3_mk_fpa_lt(c, tr(e->a), tr(e->b)));
    case K_FLE: if (P.theory == TH_REAL) return tr(e->a) <= tr(e->b); return z3::expr(c, Z3_mk_fpa_leq(c, tr(e->a), tr(e->b)));
    case K_FEQ: if (P.theory == TH_REAL) return tr(e->a) == tr(e->b); return z3::expr(c, Z3_mk_fpa_eq(c, tr(e->a), tr(e->b)));
    case K_UNO:
      return z3::expr(c, Z3_mk_fpa_is_nan(c, tr(e->a))) || z3::expr(c, Z3_mk_fpa_is_nan(c, tr(e->b)));
    default: break;
    }
    return tr(e) == c.bv_val(1, 1);
  }
  z3::expr bvConst(u128 v, unsigned w)
  {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    std::string s;
    u128 x = v;
    do { s += char('0' + (int)(x % 10)); x /= 10; } while (x);
    std::reverse(s.begin(), s.end());
    return c.bv_val(s.c_str(), w);
  }
  z3::expr tr(EP e)
  {
    auto it = cacheM[mode].find(e);
    if (it != cacheM[mode].end()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<EP> stk{e};
    while (!stk.empty()) {
      EP x = stk.back();
      if (cacheM[mode].count(x)) { stk.pop_back(); continue; }
      bool ready = true;
      kids(x, [&](EP ch) { if (!cacheM[mode].count(ch)) { stk.push_back(ch); ready = false; } });
      if (!ready) continue;
      stk.pop_back();
      z3::expr r = tr0(x);
      cacheM[mode].emplace(x, r);
    }
    return cacheM[mode].at(e);
  }
  z3::expr rm() { return z3::expr(c, Z3_mk_fpa_round_nearest_ties_to_even(c)); }
  z3::expr tr0(EP e)
  {
    auto A = [&]() { return cacheM[mode].at(e->a); };
    auto B = [&]() { return cacheM[mode].at(e->b); };
    bool real = P.theory == TH_REAL;
    auto W    = [&](Z3_ast a) { return z3::expr(c, a); };
    switch (e->k) {
    case K_LIN: {
      z3::expr_vector v(c);
      for (auto &p : e->lin->t) {
        if (!std::isfinite(p.second)) { if (getenv("SX_DBG")) { fprintf(stderr,"LIN c=%g\n",e->d); for (auto&q:e->lin->t) fprintf(stderr,"  %g * kind %d id %u\n",q.second,q.first->k,q.first->id);} throw Unsupported("non-finite coefficient"); }
        v.push_back(p.second == 1 ? cacheM[mode].at(p.first) : c.real_val(ratStr(p.second).c_str()) * cacheM[mode].at(p.first));
      }
      if (e->d != 0) {
        if (!std::isfinite(e->d)) throw Unsupported("non-finite constant");
        v.push_back(c.real_val(ratStr(e->d).c_str()));
      }
      return z3::sum(v);
    }
    case K_BVC: return bvConst(e->c, e->width);
    case K_BVV: if (varSet.insert(e).second) vars.push_back(e); return c.bv_const(P.names[e->name].c_str(), e->width);
    case K_FC:
      if (real) {
        if (!std::isfinite(e->d)) throw Unsupported("non-finite constant reached the real encoding");
        return c.real_val(ratStr(e->d).c_str());
      }
      return e->width == 32 ? c.fpa_val((float)e->d) : c.fpa_val(e->d);
    case K_FV:
      if (varSet.insert(e).second) vars.push_back(e);
      return real ? c.real_const(P.names[e->name].c_str()) : c.constant(P.names[e->name].c_str(), fpsort(e->width));
    case K_UNDEF: throw Unsupported("undef in translation");
    case K_ADD: return A() + B();
    case K_SUB: return A() - B();
    case K_MUL: return A() * B();
    case K_UDIV: return z3::udiv(A(), B());
    case K_SDIV: return A() / B();
    case K_UREM: return z3::urem(A(), B());
    case K_SREM: return z3::srem(A(), B());
    case K_AND: if (e->width == 1) return b2(boolOf(e)); return A() & B();
    case K_OR: if (e->width == 1) return b2(boolOf(e)); return A() | B();
    case K_XOR: if (e->width == 1) return b2(boolOf(e)); return A() ^ B();
    case K_SHL: return z3::shl(A(), B());
    case K_LSHR: return z3::lshr(A(), B());
    case K_ASHR: return z3::ashr(A(), B());
    case K_CONCAT: return z3::concat(A(), B());
    case K_EXTRACT: return A().extract((unsigned)e->c + e->width - 1, (unsigned)e->c);
    case K_ZEXT: return z3::zext(A(), e->width - e->a->width);
    case K_SEXT: return z3::sext(A(), e->width - e->a->width);
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_FLT: case K_FLE: case K_FEQ: case K_UNO:
      return b2(boolOf(e));
    case K_ITE: return z3::ite(boolOf(e->a), cacheM[mode].at(e->b), cacheM[mode].at(e->e));
    case K_FADD: return real ? A() + B() : W(Z3_mk_fpa_add(c, rm(), A(), B()));
    case K_FSUB: return real ? A() - B() : W(Z3_mk_fpa_sub(c, rm(), A(), B()));
    case K_FMUL:
      if (real && mode == 0 && e->a->k != K_FC && e->b->k != K_FC) {
        z3::expr q = c.real_const(("nl!" + std::to_string(e->id)).c_str());
        if (e->a == e->b) { defsM[mode].push_back(q >= 0); edefsM[mode][e].push_back((int)defsM[mode].size() - 1); }
        return q;
      }
      return real ? A() * B() : W(Z3_mk_fpa_mul(c, rm(), A(), B()));
    case K_FDIV:
      if (real) {
        if (e->b->k == K_FC || mode == 2) return A() / B();
        z3::expr q = c.real_const(("q!" + std::to_string(e->id)).c_str());
        if (mode == 0) return q;
        defsM[mode].push_back(q * B() == A());
        edefsM[mode][e].push_back((int)defsM[mode].size() - 1);
        return q;
      }
      return W(Z3_mk_fpa_div(c, rm(), A(), B()));
    case K_FREM: throw Unsupported("frem");
    case K_FNEG: return real ? -A() : W(Z3_mk_fpa_neg(c, A()));
    case K_FABS: return real ? z3::ite(A() >= 0, A(), -A()) : W(Z3_mk_fpa_abs(c, A()));
    case K_FSQRT:
      if (real) {
        z3::expr q = c.real_const(("sqrt!" + std::to_string(e->id)).c_str());
        defsM[mode].push_back(mode == 0 ? q >= 0 : q >= 0 && q * q == A());
        edefsM[mode][e].push_back((int)defsM[mode].size() - 1);
        return q;
      }
      return W(Z3_mk_fpa_sqrt(c, rm(), A()));
    case K_FCALL: {
      z3::sort S = real ? c.real_sort() : fpsort(e->width);
      if (e->b) return z3::function(P.names[e->name].c_str(), S, S, S)(A(), B());
      return z3::function(P.names[e->name].c_str(), S, S)(A());
    }
    case K_FEXT: case K_FTRUNC: return real ? A() : W(Z3_mk_fpa_to_fp_float(c, rm(), A(), fpsort(e->width)));
    case K_SI2F:
      return real ? W(Z3_mk_int2real(c, W(Z3_mk_bv2int(c, A(), true))))
                  : W(Z3_mk_fpa_to_fp_signed(c, rm(), A(), fpsort(e->width)));
    case K_UI2F:
      return real ? W(Z3_mk_int2real(c, W(Z3_mk_bv2int(c, A(), false))))
                  : W(Z3_mk_fpa_to_fp_unsigned(c, rm(), A(), fpsort(e->width)));
    case K_F2SI: case K_F2UI:
      if (real) {
        z3::expr x  = A();
        z3::expr fl = W(Z3_mk_real2int(c, x)), nf = -W(Z3_mk_real2int(c, -x));
        return W(Z3_mk_int2bv(c, e->width, z3::ite(x >= 0, fl, nf)));
      }
      return e->k == K_F2SI ? W(Z3_mk_fpa_to_sbv(c, W(Z3_mk_fpa_round_toward_zero(c)), A(), e->width))
                            : W(Z3_mk_fpa_to_ubv(c, W(Z3_mk_fpa_round_toward_zero(c)), A(), e->width));
    case K_F2BITS: if (real) throw Unsupported("float bits"); return W(Z3_mk_fpa_to_ieee_bv(c, A()));
    case K_BITS2F: if (real) throw Unsupported("bits to float"); return W(Z3_mk_fpa_to_fp_bv(c, A(), fpsort(e->width)));
    case K_FFLOOR: case K_FCEIL: case K_FRINT: case K_FTRUNCI:
      if (real) {
        z3::expr x  = A();
        auto toR    = [&](z3::expr i) { return W(Z3_mk_int2real(c, i)); };
        z3::expr fl = toR(W(Z3_mk_real2int(c, x)));
        z3::expr ce = -toR(W(Z3_mk_real2int(c, -x)));
        if (e->k == K_FFLOOR) return fl;
        if (e->k == K_FCEIL) return ce;
        if (e->k == K_FTRUNCI) return z3::ite(x >= 0, fl, ce);
        throw Unsupported("rint");
      }
      return W(Z3_mk_fpa_round_to_integral(
        c,
        e->k == K_FFLOOR    ? W(Z3_mk_fpa_round_toward_negative(c))
          : e->k == K_FCEIL ? W(Z3_mk_fpa_round_toward_positive(c))
          : e->k == K_FRINT ? rm()
                            : W(Z3_mk_fpa_round_toward_zero(c)),
        A()));
    }
    throw Unsupported("translation");
  }
  // definitional constraints reachable from e
  std::unordered_map<EP, std::shared_ptr<std::set<int>>> reachM[3];
  std::shared_ptr<std::set<int>> defsOf(EP root)
  {
    static auto empty = std::make_shared<std::set<int>>();
    std::vector<EP> stk{root};
    while (!stk.empty()) {
      EP x = stk.back();
      if (reachM[mode].count(x)) { stk.pop_back(); continue; }
      bool ready = true;
      kids(x, [&](EP ch) { if (!reachM[mode].count(ch)) { stk.push_back(ch); ready = false; } });
      if (!ready) continue;
      stk.pop_back();
      std::shared_ptr<std::set<int>> r = empty;
      kids(x, [&](EP ch) {
        if (!reachM[mode][ch]->empty()) {
          auto &q = reachM[mode][ch];
          if (r->empty()) r = q;
          else if (r != q) {
            auto n = std::make_shared<std::set<int>>(*r);
            n->insert(q->begin(), q->end());
            r = n;
          }
        }
      });
      auto d = edefsM[mode].find(x);
      if (d != edefsM[mode].end()) {
        auto n = std::make_shared<std::set<int>>(*r);
        n->insert(d->second.begin(), d->second.end());
        r = n;
      }
      reachM[mode][x] = r;
    }
    return reachM[mode][root];
  }
  bool defAsserted(int d)
  {
    for (auto &sc : defScopes)
      if (sc.count(d)) return true;
    return false;
  }
  void addHere(EP cond)
  {
    z3::expr b = boolOf(cond);
    for (int d : *defsOf(cond))
      if (!defAsserted(d)) {
        defScopes.back().insert(d);
        s->add(defsM[mode][d]);
      }
    s->add(b);
  }
  void pushScope() { s->push(); defScopes.emplace_back(); }
  void popScope(unsigned n = 1)
  {
    s->pop(n);
    for (unsigned i = 0; i < n; ++i) defScopes.pop_back();
  }
  void sync(const PC &pc)
  {
    std::vector<EP> want;
    for (PCNode *n = pc.get(); n; n = n->prev.get()) want.push_back(n->cond);
    std::reverse(want.begin(), want.end());
    size_t common = 0;
    while (common < want.size() && common < onStack.size() && want[common] == onStack[common]) ++common;
    if (onStack.size() > common) {
      popScope((unsigned)(onStack.size() - common));
      onStack.resize(common);
    }
    for (; common < want.size(); ++common) {
      pushScope();
      addHere(want[common]);
      onStack.push_back(want[common]);
    }
  }
  // does the encoding of e contain a product, quotient or root of unknowns?
  std::unordered_map<EP, bool> nlc;
  bool nonlin(EP root)
  {
    std::vector<EP> stk{root};
    while (!stk.empty()) {
      EP x = stk.back();
      if (nlc.count(x)) { stk.pop_back(); continue; }
      bool ready = true, any = false;
      kids(x, [&](EP ch) { auto it = nlc.find(ch); if (it == nlc.end()) { stk.push_back(ch); ready = false; } else any |= it->second; });
      if (!ready) continue;
      stk.pop_back();
      if (x->isF && x->k == K_FMUL && x->a->k != K_FC && x->b->k != K_FC) any = true;
      if (x->isF && (x->k == K_FDIV && x->b->k != K_FC)) any = true;
      if (x->isF && x->k == K_FSQRT) any = true;
      nlc[x] = any;
    }
    return nlc[root];
  }
  bool holdsIn(z3::model &m, EP e)
  {
    if (!nonlin(e)) return true;
    Mode mo(*this, 2);
    boolOf(e);
    for (int d : *defsOf(e))
      if (!m.eval(defsM[mode][d], true).is_true()) return false;
    return m.eval(boolOf(e), true).is_true();
  }
  // ---- products and quotients of unknowns: opaque in mode 0, refined by lemmas on demand ----
  std::unordered_map<EP, std::shared_ptr<std::set<EP>>> nlReach;
  std::unordered_map<EP, std::vector<z3::expr>> nlLem;
  static bool isNL(EP x)
  {
    return x->isF && ((x->k == K_FMUL && x->a->k != K_FC && x->b->k != K_FC) || (x->k == K_FDIV && x->b->k != K_FC));
  }
  const std::set<EP> &nlOf(EP root)
  {
    static auto empty = std::make_shared<std::set<EP>>();
    std::vector<EP> stk{root};
    while (!stk.empty()) {
      EP x = stk.back();
      if (nlReach.count(x)) { stk.pop_back(); continue; }
      bool ready = true;
      kids(x, [&](EP ch) { if (!nlReach.count(ch)) { stk.push_back(ch); ready = false; } });
      if (!ready) continue;
      stk.pop_back();
      std::shared_ptr<std::set<EP>> r = empty;
      kids(x, [&](EP ch) {
        auto &q = nlReach[ch];
        if (q->empty() || q == r) return;
        if (r->empty()) { r = q; return; }
        auto n = std::make_shared<std::set<EP>>(*r);
        n->insert(q->begin(), q->end());
        r = n;
      });
      if (isNL(x)) {
        auto n = std::make_shared<std::set<EP>>(*r);
        n->insert(x);
        r = n;
      }
      nlReach[x] = r;
    }
    return *nlReach[root];
  }
  // short dyadic near the value of e in the model
  bool modelVal(z3::model &m, EP e, double &v, int bits)
  {
    z3::expr q = m.eval(tr(e), true);
    if (!q.is_numeral()) return false;
    try { v = std::stod(q.get_decimal_string(17)); } catch (...) { return false; }
    if (!std::isfinite(v) || std::fabs(v) > 1e15) return false;
    if (v != 0) {
      int ex;
      double mt = std::frexp(v, &ex);
      v = std::ldexp(std::nearbyint(std::ldexp(mt, bits)), ex - bits);
      if (std::fabs(v) < 1e-9) v = 0;
    }
    return true;
  }
  z3::expr rv(double d) { return c.real_val(ratOf(d).c_str()); }
  std::set<EP> nlAll(const PC &pc, const std::vector<EP> &extra)
  {
    std::set<EP> r;
    for (EP e : extra) { auto &q = nlOf(e); r.insert(q.begin(), q.end()); }
    for (PCNode *n = pc.get(); n; n = n->prev.get()) { auto &q = nlOf(n->cond); r.insert(q.begin(), q.end()); }
    return r;
  }
  void addLemmas(EP t, z3::model &m)
  {
    auto &L = nlLem[t];
    if (L.size() > 24) return;
    z3::expr p = tr(t);
    // product p = x * y; a quotient q = n / d is the product n = q * d
    EP ex = t->k == K_FMUL ? t->a : nullptr, ey = t->b;
    z3::expr X = t->k == K_FMUL ? tr(t->a) : p, Y = tr(t->b), R = t->k == K_FMUL ? p : tr(t->a);
    auto val = [&](const z3::expr &z, double &v) {
      z3::expr q = m.eval(z, true);
      if (!q.is_numeral()) return false;
      try { v = std::stod(q.get_decimal_string(17)); } catch (...) { return false; }
      if (!std::isfinite(v)) return false;
      int e;
      double mt = std::frexp(v, &e);
      v = std::ldexp(std::nearbyint(std::ldexp(mt, 10)), e - 10);
      if (std::fabs(v) < 1e-9) v = 0;
      return std::fabs(v) < 1e15;
    };
    double x, y;
    if (!val(X, x) || !val(Y, y)) return;
    auto tangent = [&](double x, double y) {
      z3::expr T = rv(x) * Y + rv(y) * X - rv(x) * rv(y);
      if (ex && ex == ey) { L.push_back(R >= T); return; }
      L.push_back(z3::implies((X <= rv(x) && Y <= rv(y)) || (X >= rv(x) && Y >= rv(y)), R >= T));
      L.push_back(z3::implies((X <= rv(x) && Y >= rv(y)) || (X >= rv(x) && Y <= rv(y)), R <= T));
    };
    if (L.empty()) {
      if (ex && ex == ey) L.push_back(R >= 0);
      else tangent(0, 0);
      L.push_back(z3::implies(X == 0 || Y == 0, R == 0));
    }
    tangent(x, y);
  }
  long cvc5q = 0;
  // second opinion of another solver on a linear query
  z3::check_result viaCvc5(z3::expr_vector &fs, std::shared_ptr<z3::model> *m, unsigned tmo)
  {
    z3::solver q(c);
    q.add(fs);
    std::string txt = q.to_smt2();
    auto p          = txt.rfind("(check-sat)");
    if (p == std::string::npos) return z3::unknown;
    char fn[] = "/tmp/sxcvc5XXXXXX";
    int fd    = mkstemp(fn);
    if (fd < 0) return z3::unknown;
    std::string full = "(set-logic ALL)\n(set-option :produce-models true)\n" + txt.substr(0, p) + "(check-sat)\n";
    std::string vs;
    for (EP v : vars) if (v->k == K_FV) vs += P.names[v->name] + " ";
    if (txt.find("(_ BitVec") != std::string::npos) vs.clear();
    if (!vs.empty()) full += "(get-value (" + vs + "))\n";
    // declare inputs that do not occur in the query
    std::string decl;
    for (EP v : vars)
      if (v->k == K_FV && txt.find("(declare-fun " + P.names[v->name] + " ") == std::string::npos)
        decl += "(declare-fun " + P.names[v->name] + " () Real)\n";
    full.insert(full.find('\n', full.find("produce-models")) + 1, decl);
    (void)!write(fd, full.data(), full.size());
    close(fd);
    char cmd[256];
    snprintf(cmd, sizeof cmd, "timeout %u cvc5 %s 2>/dev/null", tmo / 1000 + 1, fn);
    FILE *f = popen(cmd, "r");
    std::string o;
    char buf[4096];
    size_t n;
    while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) o.append(buf, n);
    if (f) pclose(f);
    unlink(fn);
    ++st.queries;
    ++cvc5q;
    if (o.rfind("unsat", 0) == 0) { ++st.unsat; return z3::unsat; }
    if (o.rfind("sat", 0) != 0 || vs.empty()) { ++st.unknown; return z3::unknown; }
    // fix the inputs to the reported values to obtain a model in this context
    std::string as;
    size_t i = o.find('(');
    if (i == std::string::npos) { ++st.unknown; return z3::unknown; }
    ++i;
    while ((i = o.find('(', i)) != std::string::npos) {
      int depth = 0;
      size_t k  = i;
      for (; k < o.size(); ++k) {
        if (o[k] == '(') ++depth;
        if (o[k] == ')' && --depth == 0) break;
      }
      as += "(assert (= " + o.substr(i + 1, k - i - 1) + "))\n";
      i = k + 1;
    }
    try {
      z3::expr_vector ev = c.parse_string((decl + txt.substr(0, txt.find("(assert")) + as).c_str());
      z3::solver q2(c);
      z3::params pp(c);
      pp.set("timeout", 2000u);
      q2.set(pp);
      q2.add(fs);
      q2.add(ev);
      if (q2.check() == z3::sat) {
        ++st.sat;
        if (m) *m = std::make_shared<z3::model>(q2.get_model());
        return z3::sat;
      }
    } catch (z3::exception &ex) {
      if (getenv("SX_DEBUG")) fprintf(stderr, "cvc5 model: %s\n", ex.msg());
    }
    ++st.unknown;
    return z3::unknown;
  }
  z3::check_result fresh(const PC &pc, const std::vector<EP> &extra, const std::vector<z3::expr> &more,
                         std::shared_ptr<z3::model> *m, unsigned tmo)
  {
    z3::expr_vector fs(c);
    std::set<int> ds;
    auto add = [&](EP e) {
      z3::expr b = boolOf(e);
      for (int d : *defsOf(e))
        if (ds.insert(d).second) fs.push_back(defsM[mode][d]);
      fs.push_back(b);
    };
    for (PCNode *n = pc.get(); n; n = n->prev.get()) add(n->cond);
    for (EP e : extra) add(e);
    for (auto &e : more) fs.push_back(e);
    for (int strat = 0; strat < 3; ++strat) {
      if (strat == 2) return tmo >= 2000 ? viaCvc5(fs, m, tmo) : z3::unknown;
      try {
        z3::solver q(c);
        z3::params p(c);
        p.set("timeout", strat == 0 ? tmo : tmo / 2 + 1);
        if (strat) p.set("arith.solver", 2u);
        q.set(p);
        q.add(fs);
        ++st.queries;
        z3::check_result r = q.check();
        (r == z3::sat ? st.sat : r == z3::unsat ? st.unsat : st.unknown)++;
        if (r == z3::sat && m) *m = std::make_shared<z3::model>(q.get_model());
        if (r != z3::unknown) return r;
      } catch (z3::exception &ex) {
        if (getenv("SX_DEBUG")) fprintf(stderr, "z3: %s\n", ex.msg());
      }
    }
    return z3::unknown;
  }
  bool verified(const PC &pc, const std::vector<EP> &extra, z3::model &mm)
  {
    try {
      for (EP e : extra) if (!holdsIn(mm, e)) return false;
      for (PCNode *n = pc.get(); n; n = n->prev.get()) if (!holdsIn(mm, n->cond)) return false;
    } catch (z3::exception &) { return false; }
    return true;
  }
  // returns sat/unsat/unknown of pc && extra
  z3::check_result check(const PC &pc, const std::vector<EP> &extra, std::shared_ptr<z3::model> *m, unsigned tmo)
  {
    Mode mo(*this, 0);
    Busy bz(*this);
    bool real = P.theory == TH_REAL;
    sync(pc);
    pushScope();
    for (EP e : extra) addHere(e);
    std::set<EP> nl;
    if (real) nl = nlAll(pc, extra);
    std::vector<z3::expr> lem;
    for (EP t : nl) for (auto &l : nlLem[t]) lem.push_back(l);
    for (auto &l : lem) s->add(l);
    double t0          = nowS();
    z3::check_result r = z3::unknown;
    std::shared_ptr<z3::model> mm;
    for (int round = 0;; ++round) {
      setTimeout(real ? std::min(tmo, 400u) : tmo);
      ++st.queries;
      try { r = s->check(); } catch (z3::exception &) { r = z3::unknown; }
      (r == z3::sat ? st.sat : r == z3::unsat ? st.unsat : st.unknown)++;
      if (r == z3::sat) mm = std::make_shared<z3::model>(s->get_model());
      if (r == z3::unknown && real) r = fresh(pc, extra, lem, &mm, tmo);
      if (r != z3::sat || !real) break;
      if (verified(pc, extra, *mm)) break;
      // the model is wrong about products: look for a genuine one nearby
      r = z3::unknown;
      if (nl.empty()) break;
      std::vector<z3::expr> fix;
      bool ok = true;
      for (EP t : nl) {
        EP f = t->b, g = t->a;
        if (t->k == K_FMUL && (g->k == K_FV || (f->k != K_FV && f->k != K_FC && g->id < f->id))) std::swap(f, g);
        double v;
        if (!modelVal(*mm, f, v, 12) || (t->k == K_FDIV && v == 0)) { ok = false; break; }
        fix.push_back(tr(f) == rv(v));
        if (t->k == K_FMUL) fix.push_back(tr(t) == rv(v) * tr(g));
        else fix.push_back(tr(t) * rv(v) == tr(g));
      }
      if (ok) {
        std::vector<z3::expr> all = lem;
        all.insert(all.end(), fix.begin(), fix.end());
        std::shared_ptr<z3::model> m2;
        if (fresh(pc, extra, all, &m2, std::min(tmo, 1000u)) == z3::sat && verified(pc, extra, *m2)) { r = z3::sat; mm = m2; break; }
      }
      if (round >= 8 || nowS() - t0 > tmo * 1e-3) break;
      size_t before = lem.size();
      for (EP t : nl) {
        size_t k0 = nlLem[t].size();
        addLemmas(t, *mm);
        for (size_t k = k0; k < nlLem[t].size(); ++k) { lem.push_back(nlLem[t][k]); s->add(nlLem[t][k]); }
      }
      if (lem.size() == before) break;
    }
    st.time += nowS() - t0;
    if (getenv("SX_DUMP") && nowS() - t0 > 1.0) {
      fprintf(stderr, "slow query %ld: %.2fs -> %d, nl %zu\n", st.queries, nowS() - t0, (int)r, nl.size());
      std::string fn = std::string(getenv("SX_DUMP")) + "/q" + std::to_string(st.queries) + ".smt2";
      FILE *f = fopen(fn.c_str(), "w");
      fprintf(f, "%s\n", s->to_smt2().c_str());
      fclose(f);
    }
    if (r == z3::sat && m) *m = mm;
    popScope();
    return r;
  }
  // one-shot check with other strategies, used when the incremental solver gives up
  z3::check_result checkHard(const PC &pc, const std::vector<EP> &extra, std::shared_ptr<z3::model> *m, unsigned tmo)
  {
    Mode mo(*this, 1);
    Busy bz(*this);
    z3::expr_vector fs(c);
    std::set<int> ds;
    auto add = [&](EP e) {
      z3::expr b = boolOf(e);
      for (int d : *defsOf(e))
        if (ds.insert(d).second) fs.push_back(defsM[mode][d]);
      fs.push_back(b);
    };
    for (PCNode *n = pc.get(); n; n = n->prev.get()) add(n->cond);
    for (EP e : extra) add(e);
    if (getenv("SX_DUMP")) {
      z3::solver q(c);
      q.add(fs);
      FILE *f = fopen((std::string(getenv("SX_DUMP")) + "/hard" + std::to_string(st.queries) + ".smt2").c_str(), "w");
      fprintf(f, "%s\n", q.to_smt2().c_str());
      fclose(f);
    }
    for (int strat = 0; strat < 3; ++strat) {
      try {
        if (strat == 0) {  // default combined solver
          z3::solver q(c);
          z3::params p(c);
          p.set("timeout", tmo / 2 + 1);
          q.set(p);
          q.add(fs);
          double t0          = nowS();
          z3::check_result r = q.check();
          st.time += nowS() - t0;
          ++st.queries;
          (r == z3::sat ? st.sat : r == z3::unsat ? st.unsat : st.unknown)++;
          if (r == z3::sat && m) *m = std::make_shared<z3::model>(q.get_model());
          if (r != z3::unknown) return r;
          continue;
        }
        z3::tactic t = strat == 1 ? (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values")
                                     & z3::tactic(c, "solve-eqs") & z3::tactic(c, "elim-term-ite")
                                     & z3::tactic(c, "purify-arith") & z3::tactic(c, "qfnra"))
                                  : z3::tactic(c, "smt");
        z3::solver q = t.mk_solver();
        z3::params p(c);
        p.set("timeout", tmo);
        q.set(p);
        q.add(fs);
        double t0          = nowS();
        z3::check_result r = q.check();
        st.time += nowS() - t0;
        ++st.queries;
        (r == z3::sat ? st.sat : r == z3::unsat ? st.unsat : st.unknown)++;
        if (r == z3::sat && m) *m = std::make_shared<z3::model>(q.get_model());
        if (r != z3::unknown) return r;
      } catch (z3::exception &ex) {
        if (getenv("SX_DEBUG")) fprintf(stderr, "z3: %s\n", ex.msg());
      }
    }
    return z3::unknown;
  }
  // -1 unknown, 0 false, 1 true
  int evalIn(z3::model &m, EP cond)
  {
    try {
      if (!defsOf((boolOf(cond), cond))->empty()) {
        // quotients introduced after the model was made have no interpretation in it
        return -1;
      }
      z3::expr v = m.eval(boolOf(cond), true);
      if (v.is_true()) return 1;
      if (v.is_false()) return 0;
    } catch (z3::exception &) {
    }
    return -1;
  }
};
