// Hash-consed expression DAG used by the symbolic executor.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;

enum Kind : uint8_t {
  K_BVC, K_BVV,                       // bit-vector constant / variable
  K_FC, K_FV,                         // floating constant / variable
  K_UNDEF,                            // untyped uninitialised value
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FNEG, K_FABS, K_FSQRT, K_FCALL, K_FEXT, K_FTRUNC,
  K_SI2F, K_UI2F, K_F2SI, K_F2UI, K_FLT, K_FLE, K_FEQ, K_UNO, K_F2BITS, K_BITS2F, K_FFLOOR, K_FCEIL, K_FRINT,
  K_FTRUNCI,
  K_LIN  // constant + sum coef_i * term_i, terms sorted by id (real theory)
};

struct Expr;
struct Lin { std::vector<std::pair<const Expr *, double>> t; };
struct Expr {
  Kind k;
  uint8_t isF;      // floating sort
  uint16_t width;   // bits
  uint32_t id;
  u128 c;           // BV constant, or extract low index
  double d;         // FP constant
  int name;         // index in name table
  const Expr *a, *b, *e;
  const Lin *lin = nullptr;  // K_LIN: the constant is in d
};
typedef const Expr *EP;
template<typename F>
static inline void kids(EP x, F && f)
{
  if (x->a) f(x->a);
  if (x->b) f(x->b);
  if (x->e) f(x->e);
  if (x->lin)
    for (auto & p : x->lin->t) f(p.first);
}

enum Theory { TH_REAL, TH_FP };

struct ExprPool {
  Theory theory = TH_REAL;
  std::deque<Expr> store;
  std::unordered_multimap<uint64_t, EP> table;
  std::vector<std::string> names;
  std::map<std::string, int> nameIdx;

  int nm(const std::string &s)
  {
    auto it = nameIdx.find(s);
    if (it != nameIdx.end()) return it->second;
    names.push_back(s);
    return nameIdx[s] = (int)names.size() - 1;
  }
  static u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

  EP mk(Kind k, bool isF, unsigned w, u128 c, double d, int name, EP a, EP b, EP e)
  {
    uint64_t db;
    memcpy(&db, &d, 8);
    uint64_t h = k * 0x9E3779B97F4A7C15ull;
    auto mix   = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix(w);
    mix((uint64_t)c);
    mix((uint64_t)(c >> 64));
    mix(db);
    mix(name + 1);
    mix(a ? a->id + 1 : 0);
    mix(b ? b->id + 1 : 0);
    mix(e ? e->id + 1 : 0);
    auto r = table.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      EP x = it->second;
      uint64_t xb;
      memcpy(&xb, &x->d, 8);
      if (x->k == k && x->isF == isF && x->width == w && x->c == c && xb == db && x->name == name && x->a == a
          && x->b == b && x->e == e)
        return x;
    }
    store.push_back(Expr{k, isF, (uint16_t)w, (uint32_t)store.size(), c, d, name, a, b, e});
    EP x = &store.back();
    table.emplace(h, x);
    return x;
  }

  EP bvc(u128 v, unsigned w) { return mk(K_BVC, false, w, v & mask(w), 0, -1, 0, 0, 0); }
  EP fc(double v, unsigned w) { return mk(K_FC, true, w, 0, v, -1, 0, 0, 0); }
  EP bvv(const std::string &n, unsigned w) { return mk(K_BVV, false, w, 0, 0, nm(n), 0, 0, 0); }
  EP fv(const std::string &n, unsigned w) { return mk(K_FV, true, w, 0, 0, nm(n), 0, 0, 0); }
  EP undef(const std::string &n, unsigned w) { return mk(K_UNDEF, false, w, 0, 0, nm(n), 0, 0, 0); }

  static bool isC(EP x) { return x->k == K_BVC; }
  static bool isFC(EP x) { return x->k == K_FC; }
  static __int128 sgn(u128 v, unsigned w)
  {
    if (w >= 128) return (__int128)v;
    if ((v >> (w - 1)) & 1) return (__int128)(v | ~mask(w));
    return (__int128)v;
  }
  static u128 foldBV(Kind k, u128 x, u128 y, unsigned w, bool &ok)
  {
    ok = true;
    switch (k) {
    case K_ADD: return (x + y) & mask(w);
    case K_SUB: return (x - y) & mask(w);
    case K_MUL: return (x * y) & mask(w);
    case K_UDIV: if (!y) { ok = false; return 0; } return x / y;
    case K_UREM: if (!y) { ok = false; return 0; } return x % y;
    case K_SDIV: if (!y) { ok = false; return 0; } return (u128)(sgn(x, w) / sgn(y, w)) & mask(w);
    case K_SREM: if (!y) { ok = false; return 0; } return (u128)(sgn(x, w) % sgn(y, w)) & mask(w);
    case K_AND: return x & y;
    case K_OR: return x | y;
    case K_XOR: return x ^ y;
    case K_SHL: return y >= w ? 0 : (x << (unsigned)y) & mask(w);
    case K_LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case K_ASHR: return (u128)(sgn(x, w) >> (unsigned)(y >= w ? w - 1 : y)) & mask(w);
    default: ok = false; return 0;
    }
  }
  EP bin(Kind k, EP a, EP b)
  {
    unsigned w = a->width;
    if (isC(a) && isC(b)) {
      bool ok;
      u128 r = foldBV(k, a->c, b->c, w, ok);
      if (ok) return bvc(r, w);
    }
    if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR) && isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->c == 0) {
        if (k == K_ADD || k == K_SUB || k == K_OR || k == K_XOR || k == K_SHL || k == K_LSHR || k == K_ASHR) return a;
        if (k == K_AND || k == K_MUL) return b;
      }
      if (b->c == 1 && (k == K_MUL || k == K_UDIV || k == K_SDIV)) return a;
      if (b->c == mask(w)) {
        if (k == K_AND) return a;
        if (k == K_OR) return b;
      }
    }
    if (a == b) {
      if (k == K_SUB || k == K_XOR) return bvc(0, w);
      if (k == K_AND || k == K_OR) return a;
    }
    if (w == 1 && k == K_XOR && isC(b) && b->c == 1) {
      if (a->k == K_XOR && isC(a->b) && a->b->c == 1) return a->a;  // double negation
    }
    return mk(k, false, w, 0, 0, -1, a, b, 0);
  }
  EP lnot(EP a) { return bin(K_XOR, a, bvc(1, 1)); }
  EP land(EP a, EP b) { return bin(K_AND, a, b); }
  EP lor(EP a, EP b) { return bin(K_OR, a, b); }
  EP cmp(Kind k, EP a, EP b)
  {
    unsigned w = a->width;
    if (isC(a) && isC(b)) {
      bool r = false;
      switch (k) {
      case K_EQ: r = a->c == b->c; break;
      case K_ULT: r = a->c < b->c; break;
      case K_ULE: r = a->c <= b->c; break;
      case K_SLT: r = sgn(a->c, w) < sgn(b->c, w); break;
      case K_SLE: r = sgn(a->c, w) <= sgn(b->c, w); break;
      default: break;
      }
      return bvc(r, 1);
    }
    if (a == b) return bvc(k == K_EQ || k == K_ULE || k == K_SLE, 1);
    if (k == K_EQ) {
      if (isC(a)) std::swap(a, b);
      if (w == 1 && isC(b)) return b->c ? a : lnot(a);
      // (zext x == const)
      if (isC(b) && a->k == K_ZEXT) {
        EP x = a->a;
        if (b->c > mask(x->width)) return bvc(0, 1);
        return cmp(K_EQ, x, bvc(b->c, x->width));
      }
      if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->e)) {
        bool t = a->b->c == b->c, f = a->e->c == b->c;
        if (t && f) return bvc(1, 1);
        if (t) return a->a;
        if (f) return lnot(a->a);
        return bvc(0, 1);
      }
    }
    return mk(k, false, 1, 0, 0, -1, a, b, 0);
  }
  EP ite(EP c, EP a, EP b)
  {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (!a->isF && a->width == 1) {
      if (isC(a) && isC(b)) return a->c ? c : lnot(c);
      if (isC(a)) return a->c ? lor(c, b) : land(lnot(c), b);
      if (isC(b)) return b->c ? lor(lnot(c), a) : land(c, a);
    }
    if (c->k == K_XOR && isC(c->b) && c->width == 1) return ite(c->a, b, a);
    return mk(K_ITE, a->isF, a->width, 0, 0, -1, c, a, b);
  }
  EP extract(EP a, unsigned lo, unsigned w)
  {
    if (lo == 0 && w == a->width) return a;
    if (isC(a)) return bvc(a->c >> lo, w);
    if (a->k == K_EXTRACT) return extract(a->a, lo + (unsigned)a->c, w);
    if (a->k == K_ZEXT) {
      if (lo + w <= a->a->width) return extract(a->a, lo, w);
      if (lo >= a->a->width) return bvc(0, w);
      if (lo == 0) return zext(a->a, w);
    }
    if (a->k == K_CONCAT) {
      unsigned lw = a->b->width;
      if (lo + w <= lw) return extract(a->b, lo, w);
      if (lo >= lw) return extract(a->a, lo - lw, w);
    }
    return mk(K_EXTRACT, false, w, lo, 0, -1, a, 0, 0);
  }
  EP concat(EP hi, EP lo)
  {
    unsigned w = hi->width + lo->width;
    if (isC(hi) && isC(lo)) return bvc((hi->c << lo->width) | lo->c, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->width)
      return extract(hi->a, (unsigned)lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->k == K_EXTRACT && hi->a == lo && hi->c == lo->width && hi->width + lo->width == lo->width) return lo;
    return mk(K_CONCAT, false, w, 0, 0, -1, hi, lo, 0);
  }
  EP zext(EP a, unsigned w)
  {
    if (w == a->width) return a;
    if (isC(a)) return bvc(a->c, w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    return mk(K_ZEXT, false, w, 0, 0, -1, a, 0, 0);
  }
  EP sext(EP a, unsigned w)
  {
    if (w == a->width) return a;
    if (isC(a)) return bvc((u128)sgn(a->c, a->width), w);
    return mk(K_SEXT, false, w, 0, 0, -1, a, 0, 0);
  }
  // ---- real normal form: constant + sum of coefficient * monomial ----
  std::deque<Lin> linStore;
  std::unordered_multimap<uint64_t, EP> linTable;
  struct LinB { double c = 0; std::map<uint32_t, std::pair<EP, double>> t; };
  // sums that cancel to rounding noise are zero
  static double addN(double a, double b)
  {
    double s = a + b;
    return std::fabs(s) <= std::ldexp(std::max(std::fabs(a), std::fabs(b)), -44) ? 0 : s;
  }
  void linAdd(LinB &L, EP x, double k)
  {
    if (isFC(x)) { L.c = addN(L.c, k * x->d); return; }
    if (x->k == K_LIN) {
      L.c = addN(L.c, k * x->d);
      for (auto &p : x->lin->t) linAdd1(L, p.first, k * p.second);
      return;
    }
    if (x->k == K_FNEG) { linAdd(L, x->a, -k); return; }
    linAdd1(L, x, k);
  }
  void linAdd1(LinB &L, EP x, double k)
  {
    if (k == 0) return;
    auto it = L.t.find(x->id);
    if (it == L.t.end()) { L.t[x->id] = {x, k}; return; }
    double s = addN(it->second.second, k);
    if (s == 0) L.t.erase(it); else it->second.second = s;
  }
  EP mkLin(const LinB &L, unsigned w)
  {
    if (L.t.empty()) return fc(L.c, w);
    if (L.t.size() == 1 && L.c == 0 && L.t.begin()->second.second == 1) return L.t.begin()->second.first;
    uint64_t h = 1469598103934665603ull ^ w;
    auto mix = [&](uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
    auto mixd = [&](double d) { uint64_t u; memcpy(&u, &d, 8); mix(u); };
    mixd(L.c);
    for (auto &kv : L.t) { mix(kv.first); mixd(kv.second.second); }
    auto r = linTable.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      EP x = it->second;
      if (x->width != w || x->d != L.c || x->lin->t.size() != L.t.size()) continue;
      bool same = true;
      size_t i = 0;
      for (auto &kv : L.t) {
        if (x->lin->t[i].first != kv.second.first || x->lin->t[i].second != kv.second.second) { same = false; break; }
        ++i;
      }
      if (same) return x;
    }
    linStore.emplace_back();
    for (auto &kv : L.t) linStore.back().t.push_back(kv.second);
    store.push_back(Expr{K_LIN, 1, (uint16_t)w, (uint32_t)store.size(), 0, L.c, -1, nullptr, nullptr, nullptr, &linStore.back()});
    EP x = &store.back();
    linTable.emplace(h, x);
    return x;
  }
  EP linScale(EP x, double k, unsigned w)
  {
    LinB L;
    linAdd(L, x, k);
    return mkLin(L, w);
  }
  // x = factor * primitive, with the primitive's leading coefficient 1
  EP primitive(EP x, double &factor)
  {
    factor = 1;
    if (x->k == K_LIN) {
      factor = x->lin->t[0].second;
      if (factor == 1) return x;
      LinB L;
      L.c = x->d / factor;
      for (auto &p : x->lin->t) L.t[p.first->id] = {p.first, p.second / factor};
      return mkLin(L, x->width);
    }
    return x;
  }

  static bool shortD(double d)
  {
    int ex;
    double m = std::ldexp(std::frexp(d, &ex), 20);
    return m == std::nearbyint(m);
  }
  // like primitive(), but keeps short dyadic coefficients short
  EP primitive2(EP x, double &factor)
  {
    factor = 1;
    if (x->k == K_LIN) {
      bool sh = true;
      for (auto &p : x->lin->t) sh &= shortD(p.second);
      if (!sh) return primitive(x, factor);
      int ex;
      double f = x->lin->t[0].second;
      std::frexp(f, &ex);
      factor = std::ldexp(f < 0 ? -1 : 1, ex - 1);
      if (factor == 1) return x;
      LinB L;
      L.c = x->d / factor;
      for (auto &p : x->lin->t) L.t[p.first->id] = {p.first, p.second / factor};
      return mkLin(L, x->width);
    }
    return x;
  }

  // ---- floating ----
  static double rnd(double v, unsigned w) { return w == 32 ? (double)(float)v : v; }
  // expressions known to be non-negative from the way they were computed (sums of squares), whatever
  // the rounding of their normal form
  std::set<EP> nn;
  bool nonneg(EP x) { return isFC(x) ? x->d >= 0 : x->k == K_FABS || x->k == K_FSQRT || nn.count(x); }
  EP fbin(Kind k, EP a, EP b)
  {
    EP r = fbin0(k, a, b);
    if (theory == TH_REAL && !isFC(r) && ((k == K_FMUL && a == b) || ((k == K_FADD || k == K_FMUL || k == K_FDIV) && nonneg(a) && nonneg(b)))) nn.insert(r);
    return r;
  }
  EP fbin0(Kind k, EP a, EP b)
  {
    unsigned w = a->width;
    if (isFC(a) && isFC(b)) {
      double x = a->d, y = b->d, r = 0;
      if (w == 32) {
        float fx = (float)x, fy = (float)y, fr = 0;
        switch (k) {
        case K_FADD: fr = fx + fy; break;
        case K_FSUB: fr = fx - fy; break;
        case K_FMUL: fr = fx * fy; break;
        case K_FDIV: fr = fx / fy; break;
        case K_FREM: fr = std::fmod(fx, fy); break;
        default: break;
        }
        r = fr;
      } else
        switch (k) {
        case K_FADD: r = x + y; break;
        case K_FSUB: r = x - y; break;
        case K_FMUL: r = x * y; break;
        case K_FDIV: r = x / y; break;
        case K_FREM: r = std::fmod(x, y); break;
        default: break;
        }
      return fc(r, w);
    }
    if (isFC(a) && std::isnan(a->d)) return a;
    if (isFC(b) && std::isnan(b->d)) return b;
    if (theory == TH_REAL && k != K_FREM) {  // symbolic operands are finite reals
      bool ia = isFC(a) && std::isinf(a->d), ib = isFC(b) && std::isinf(b->d);
      if (k == K_FADD || k == K_FSUB) {
        if (ia) return a;
        if (ib) return k == K_FADD ? b : fc(-b->d, w);
        LinB L;
        linAdd(L, a, 1);
        linAdd(L, b, k == K_FADD ? 1 : -1);
        return mkLin(L, w);
      }
      if (ia || ib) {
        if (k == K_FDIV && ib) return fc(0, w);
        return mk(k, true, w, 0, 0, -1, a, b, 0);  // executor splits on the sign beforehand
      }
      if (k == K_FMUL) {
        if (isFC(a)) return linScale(b, a->d, w);
        if (isFC(b)) return linScale(a, b->d, w);
        return polyMul(a, b, w);
      }
      if (isFC(b) && b->d != 0) return linScale(a, 1 / b->d, w);
      if (isFC(a) && a->d == 0) return a;
      return polyMulMono(a, b, -1, w);
    }
    if (k == K_FADD || k == K_FMUL) {  // commutative (IEEE and reals)
      if (isFC(b) || (!isFC(a) && b->id < a->id)) std::swap(a, b);
    }
    // NaN propagates
    if (isFC(a) && std::isnan(a->d)) return a;
    if (isFC(b) && std::isnan(b->d)) return b;
    if (k == K_FMUL && isFC(a) && a->d == 1.0) return b;
    if (k == K_FDIV && isFC(b) && b->d == 1.0) return a;
    return mk(k, true, w, 0, 0, -1, a, b, 0);
  }
  // Monomials: products of atoms over products of atoms. Every non-constant divisor was decided
  // to be non-zero before the quotient was built.
  typedef std::map<uint32_t, std::pair<EP, int>> Mono;
  void factors(EP x, int sign, double &coef, Mono &m)
  {
    if (isFC(x)) {
      if (sign > 0) coef *= x->d; else coef /= x->d;
      return;
    }
    if (x->k == K_FMUL) { factors(x->a, sign, coef, m); factors(x->b, sign, coef, m); return; }
    if (x->k == K_FDIV) { factors(x->a, sign, coef, m); factors(x->b, -sign, coef, m); return; }
    if (x->k == K_LIN) {
      double f;
      EP p = primitive(x, f);
      if (sign > 0) coef *= f; else coef /= f;
      if (p->k != K_LIN) { factors(p, sign, coef, m); return; }
      x = p;
    }
    auto &q = m[x->id];
    q.first = x;
    q.second += sign;
  }
  // coefficient and canonical monomial (nullptr: 1)
  EP buildMono(Mono &m, double &coef, unsigned w)
  {
    bool again = true;
    while (again) {  // sqrt(x)^2 = x
      again = false;
      for (auto &kv : m) {
        EP x = kv.second.first;
        int &e = kv.second.second;
        if (x->k == K_FSQRT && (e >= 2 || e <= -2)) {
          int h = e / 2;
          e -= 2 * h;
          double c2 = 1;
          Mono m2;
          factors(x->a, 1, c2, m2);
          coef *= std::pow(c2, h);
          for (auto &q : m2) {
            auto &p = m[q.first];
            p.first = q.second.first;
            p.second += h * q.second.second;
          }
          again = true;
          break;
        }
      }
    }
    EP num = nullptr, den = nullptr;
    for (auto &kv : m)
      for (int i = 0; i < std::abs(kv.second.second); ++i) {
        EP &t = kv.second.second > 0 ? num : den;
        t     = t ? mk(K_FMUL, true, w, 0, 0, -1, t, kv.second.first, 0) : kv.second.first;
      }
    if (den) return mk(K_FDIV, true, w, 0, 0, -1, num ? num : fc(1, w), den, 0);
    return num;
  }
  // a * b^sign with b treated as one factor
  EP polyMulMono(EP a, EP b, int sign, unsigned w)
  {
    LinB L;
    auto one = [&](EP x, double k) {
      double coef = k;
      Mono m;
      if (x) factors(x, 1, coef, m);
      factors(b, sign, coef, m);
      EP t = buildMono(m, coef, w);
      if (!t) L.c = addN(L.c, coef);
      else linAdd(L, t, coef);
    };
    if (a->k == K_LIN && a->lin->t.size() <= 40) {
      // (p/p when the whole sum cancels)
      double fa, fb;
      EP pa = primitive(a, fa), pb = primitive(b, fb);
      if (sign < 0 && pa == pb) return fc(fa / fb, w);
      if (sign < 0 || b->k == K_LIN) { one(a, 1); return mkLin(L, w); }
      for (auto &p : a->lin->t) one(p.first, p.second);
      if (a->d != 0) one(nullptr, a->d);
    } else
      one(a, 1);
    return mkLin(L, w);
  }
  bool expand = true;  // multiply sums out
  EP polyMul(EP a, EP b, unsigned w)
  {
    if (!expand) {
      LinB L;
      double coef = 1;
      Mono m;
      factors(a, 1, coef, m);
      factors(b, 1, coef, m);
      EP t = buildMono(m, coef, w);
      if (!t) L.c = addN(L.c, coef);
      else linAdd(L, t, coef);
      return mkLin(L, w);
    }
    size_t na = a->k == K_LIN ? a->lin->t.size() + (a->d != 0) : 1, nb = b->k == K_LIN ? b->lin->t.size() + (b->d != 0) : 1;
    if (na * nb > maxExpand) return polyMulMono(a, b, 1, w);
    if (na == 1 && nb == 1) return polyMulMono(a, b, 1, w);
    LinB L;
    auto terms = [&](EP x) {
      std::vector<std::pair<EP, double>> r;
      if (x->k == K_LIN) {
        for (auto &p : x->lin->t) r.push_back(p);
        if (x->d != 0) r.push_back({nullptr, x->d});
      } else
        r.push_back({x, 1.0});
      return r;
    };
    auto ta = terms(a), tb = terms(b);
    for (auto &p : ta)
      for (auto &q : tb) {
        double coef = p.second * q.second;
        Mono m;
        if (p.first) factors(p.first, 1, coef, m);
        if (q.first) factors(q.first, 1, coef, m);
        EP t = buildMono(m, coef, w);
        if (!t) L.c = addN(L.c, coef);
        else linAdd(L, t, coef);
      }
    return mkLin(L, w);
  }
  size_t maxExpand = 200;
  EP fneg(EP a)
  {
    if (isFC(a)) return fc(-a->d, a->width);
    if (a->k == K_FNEG) return a->a;
    if (theory == TH_REAL) return linScale(a, -1, a->width);
    return mk(K_FNEG, true, a->width, 0, 0, -1, a, 0, 0);
  }
  EP fabs_(EP a)
  {
    if (isFC(a)) return fc(std::fabs(a->d), a->width);
    if (a->k == K_FNEG) return fabs_(a->a);
    if (a->k == K_FABS || a->k == K_FSQRT) return a;
    if (theory == TH_REAL) {
      double f;
      EP p = primitive2(a, f);
      if (p->k == K_FABS || p->k == K_FSQRT) return linScale(p, std::fabs(f), a->width);
      return linScale(mk(K_FABS, true, a->width, 0, 0, -1, p, 0, 0), std::fabs(f), a->width);
    }
    return mk(K_FABS, true, a->width, 0, 0, -1, a, 0, 0);
  }
  EP fun(Kind k, EP a)
  {
    if (isFC(a)) {
      double r = 0, x = a->d;
      switch (k) {
      case K_FSQRT: r = a->width == 32 ? (double)std::sqrt((float)x) : std::sqrt(x); break;
      case K_FFLOOR: r = std::floor(x); break;
      case K_FCEIL: r = std::ceil(x); break;
      case K_FRINT: r = std::nearbyint(x); break;
      case K_FTRUNCI: r = std::trunc(x); break;
      default: break;
      }
      return fc(r, a->width);
    }
    return mk(k, true, a->width, 0, 0, -1, a, 0, 0);
  }
  EP fcall(const std::string &n, EP a, EP b, unsigned w) { return mk(K_FCALL, true, w, 0, 0, nm(n), a, b, 0); }
  EP fext(EP a, unsigned w)
  {
    if (isFC(a)) return fc(a->d, w);
    if (theory == TH_REAL && a->k == K_FTRUNC && a->a->width == w) return a->a;
    return mk(K_FEXT, true, w, 0, 0, -1, a, 0, 0);
  }
  EP ftrunc(EP a, unsigned w)
  {
    if (isFC(a)) return fc(rnd(a->d, w), w);
    if (a->k == K_FEXT && a->a->width == w) return a->a;
    return mk(K_FTRUNC, true, w, 0, 0, -1, a, 0, 0);
  }
  EP si2f(EP a, unsigned w, bool sg)
  {
    if (isC(a)) {
      if (w == 32) return fc(sg ? (float)(long long)sgn(a->c, a->width) : (float)(unsigned long long)a->c, 32);
      return fc(sg ? (double)(long long)sgn(a->c, a->width) : (double)(unsigned long long)a->c, w);
    }
    if (theory == TH_REAL && sg && a->width == 64 && w == 64) {
      std::pair<double, double> r;
      EP x = intAsReal(a, r, 0);
      if (x) return x;
    }
    return mk(sg ? K_SI2F : K_UI2F, true, w, 0, 0, -1, a, 0, 0);
  }
  // real value of a sum of truncated reals and bounded integers that provably does not overflow
  std::map<EP, std::pair<double, double>> ibox;
  EP intAsReal(EP a, std::pair<double, double> &r, int depth)
  {
    if (depth > 8) return nullptr;
    EP out = nullptr;
    if (isC(a)) {
      double v = (double)(long long)sgn(a->c, 64);
      if (std::fabs(v) > 9e15) return nullptr;
      r   = {v, v};
      out = fc(v, 64);
    } else if (a->k == K_F2SI) {
      if (!useBox) return nullptr;
      r   = interval(a->a);
      out = fun(K_FTRUNCI, a->a);
    } else if (ibox.count(a)) {
      r   = ibox[a];
      out = mk(K_SI2F, true, 64, 0, 0, -1, a, 0, 0);
    } else if (a->k == K_ADD || a->k == K_SUB) {
      std::pair<double, double> p, q;
      EP x = intAsReal(a->a, p, depth + 1), y = x ? intAsReal(a->b, q, depth + 1) : nullptr;
      if (!y) return nullptr;
      r   = a->k == K_ADD ? std::make_pair(p.first + q.first, p.second + q.second) : std::make_pair(p.first - q.second, p.second - q.first);
      out = fbin(a->k == K_ADD ? K_FADD : K_FSUB, x, y);
    }
    else if (a->k == K_MUL && isC(a->b)) {
      std::pair<double, double> p;
      double v = (double)(long long)sgn(a->b->c, 64);
      EP x = std::fabs(v) > 9e15 ? nullptr : intAsReal(a->a, p, depth + 1);
      if (!x) return nullptr;
      r   = v < 0 ? std::make_pair(v * p.second, v * p.first) : std::make_pair(v * p.first, v * p.second);
      out = fbin(K_FMUL, x, fc(v, 64));
    }
    if (!out || !(r.first > -9.2e18 && r.second < 9.2e18)) return nullptr;
    return out;
  }
  EP f2i(EP a, unsigned w, bool sg)
  {
    if (isFC(a)) {
      double x = a->d;
      if (std::isnan(x) || std::fabs(x) >= 1.8446744073709552e19) return bvc((u128)1 << (w - 1), w);
      if (sg) return bvc((u128)(__int128)(long long)x, w);
      return bvc((u128)(unsigned long long)x, w);
    }
    return mk(sg ? K_F2SI : K_F2UI, false, w, 0, 0, -1, a, 0, 0);
  }
  // boxes of the real inputs and the interval a term ranges over because of them
  bool useBox = true;
  std::map<EP, std::pair<double, double>> box;
  std::unordered_map<EP, std::pair<double, double>> ivMemo;
  void setBox(EP v, double lo, double hi)
  {
    auto it = box.find(v);
    if (it == box.end()) { box[v] = {lo, hi}; ivMemo.clear(); return; }
    if (lo < it->second.first || hi > it->second.second) {
      it->second = {std::min(lo, it->second.first), std::max(hi, it->second.second)};
      ivMemo.clear();
    }
  }
  std::pair<double, double> interval(EP root)
  {
    const double inf = std::numeric_limits<double>::infinity();
    std::vector<EP> stk{root};
    while (!stk.empty()) {
      EP x = stk.back();
      if (ivMemo.count(x)) { stk.pop_back(); continue; }
      bool ready = true;
      kids(x, [&](EP ch) { if (ch->isF && !ivMemo.count(ch)) { stk.push_back(ch); ready = false; } });
      if (!ready) continue;
      stk.pop_back();
      std::pair<double, double> r{-inf, inf};
      auto iv = [&](EP q) { return ivMemo.at(q); };
      switch (x->k) {
      case K_FC: r = {x->d, x->d}; break;
      case K_FV: { auto it = box.find(x); if (it != box.end()) r = it->second; break; }
      case K_LIN: {
        double lo = x->d, hi = x->d;
        for (auto &p : x->lin->t) {
          auto q = iv(p.first);
          double u = p.second * q.first, v = p.second * q.second;
          lo += std::min(u, v);
          hi += std::max(u, v);
        }
        r = {lo, hi};
        break;
      }
      case K_FABS: {
        auto q = iv(x->a);
        r = {q.first <= 0 && q.second >= 0 ? 0 : std::min(std::fabs(q.first), std::fabs(q.second)),
             std::max(std::fabs(q.first), std::fabs(q.second))};
        break;
      }
      case K_ITE: { auto p = iv(x->b), q = iv(x->e); r = {std::min(p.first, q.first), std::max(p.second, q.second)}; break; }
      case K_FMUL: {
        auto p = iv(x->a), q = iv(x->b);
        if (std::isfinite(p.first) && std::isfinite(p.second) && std::isfinite(q.first) && std::isfinite(q.second)) {
          double v[4] = {p.first * q.first, p.first * q.second, p.second * q.first, p.second * q.second};
          r = {*std::min_element(v, v + 4), *std::max_element(v, v + 4)};
        }
        if (x->a == x->b && r.first < 0) r.first = 0;
        break;
      }
      case K_FSQRT: r = {0, inf}; break;
      default: break;
      }
      if (std::isnan(r.first) || std::isnan(r.second)) r = {-inf, inf};
      ivMemo[x] = r;
    }
    return ivMemo.at(root);
  }
  EP fcmp(Kind k, EP a, EP b)
  {
    if (isFC(a) && isFC(b)) {
      double x = a->d, y = b->d;
      bool r = false;
      switch (k) {
      case K_FLT: r = x < y; break;
      case K_FLE: r = x <= y; break;
      case K_FEQ: r = x == y; break;
      case K_UNO: r = std::isnan(x) || std::isnan(y); break;
      default: break;
      }
      return bvc(r, 1);
    }
    if ((isFC(a) && std::isnan(a->d)) || (isFC(b) && std::isnan(b->d))) return bvc(k == K_UNO, 1);
    if (k == K_UNO && theory == TH_REAL) return bvc(0, 1);
    if (theory == TH_REAL) {
      if (a == b) return bvc(k != K_FLT, 1);
      if (isFC(a) && std::isinf(a->d)) {
        bool neg = a->d < 0;
        if (k == K_FEQ) return bvc(0, 1);
        return bvc(neg, 1);
      }
      if (isFC(b) && std::isinf(b->d)) {
        bool pos = b->d > 0;
        if (k == K_FEQ) return bvc(0, 1);
        return bvc(pos, 1);
      }
      if (k == K_FLE) return lnot(fcmp(K_FLT, b, a));
      LinB L;
      linAdd(L, a, 1);
      linAdd(L, b, -1);
      EP z = fc(0, a->width);
      EP x = mkLin(L, a->width);
      if (isFC(x)) return bvc(k == K_FEQ ? x->d == 0 : x->d < 0, 1);
      if (useBox) {
        auto iv = interval(x);
        if (iv.second < 0) return bvc(k == K_FLT, 1);
        if (iv.first > 0 || (iv.first == 0 && k == K_FLT)) return bvc(0, 1);
      }
      double f;
      EP p = primitive2(x, f);
      if (k == K_FEQ) return mk(K_FEQ, false, 1, 0, 0, -1, p, z, 0);
      return f > 0 ? mk(K_FLT, false, 1, 0, 0, -1, p, z, 0) : mk(K_FLT, false, 1, 0, 0, -1, z, p, 0);
    }
    return mk(k, false, 1, 0, 0, -1, a, b, 0);
  }
  EP f2bits(EP a)
  {
    if (isFC(a)) {
      if (a->width == 32) { float f = (float)a->d; uint32_t u; memcpy(&u, &f, 4); return bvc(u, 32); }
      uint64_t u; memcpy(&u, &a->d, 8); return bvc(u, 64);
    }
    if (a->k == K_BITS2F) return a->a;
    return mk(K_F2BITS, false, a->width, 0, 0, -1, a, 0, 0);
  }
  EP bits2f(EP a)
  {
    if (isC(a)) {
      if (a->width == 32) { uint32_t u = (uint32_t)a->c; float f; memcpy(&f, &u, 4); return fc(f, 32); }
      uint64_t u = (uint64_t)a->c; double d; memcpy(&d, &u, 8); return fc(d, 64);
    }
    if (a->k == K_F2BITS) return a->a;
    return mk(K_BITS2F, true, a->width, 0, 0, -1, a, 0, 0);
  }
};
