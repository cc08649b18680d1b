// Symbolic executor for LLVM IR produced from the real headers of /repo.
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cxxabi.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <sys/resource.h>
#include <thread>

#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include "smt.h"

using namespace llvm;

typedef uint64_t u64;

struct Val {
  EP e = nullptr;
  u128 c = 0;
  std::shared_ptr<std::vector<Val>> agg;
};
static inline Val CV(u128 c) { Val v; v.c = c; return v; }
static inline Val EV(EP e)
{
  Val v;
  if (e->k == K_BVC) { v.c = e->c; return v; }
  if (e->k == K_FC) {
    if (e->width == 32) { float f = (float)e->d; uint32_t u; memcpy(&u, &f, 4); v.c = u; }
    else { u64 u; memcpy(&u, &e->d, 8); v.c = u; }
    return v;
  }
  v.e = e;
  return v;
}

struct PathEnd { std::string kind, msg; };  // kind: ok, infeasible, error, limit, unsupported

struct SymB { EP e; uint8_t idx; };
struct Obj {
  u64 base = 0, size = 0;
  std::vector<uint8_t> bytes, flag;  // flag: 0 concrete, 1 symbolic, 2 uninitialised
  std::vector<SymB> sym;
  bool freed = false, ro = false;
  char kind = 'h';
  int nsym = 0;
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int slot; Val cv; };
struct FuncInfo;
struct DInst {
  Instruction *I;
  unsigned op;
  int dst = -1;
  std::vector<Opnd> ops;
  int64_t off = 0;
  std::vector<std::pair<int, int64_t>> scaled;  // operand index, scale (GEP)
  unsigned width = 0;                           // result or operand width in bits
  bool fp = false;
  uint32_t size = 0;                            // access size
  Function *callee = nullptr;
  FuncInfo *cinfo = nullptr;
  int succ[2] = {-1, -1};
  bool hit = false;
};
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct DBlock { std::vector<Phi> phis; std::vector<DInst> ins; };
struct FuncInfo {
  Function *F;
  int nslots = 0;
  std::vector<DBlock> blocks;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bidx;
  bool decl = false;
  std::string name;
};

struct Frame {
  FuncInfo *f;
  int blk = 0, idx = 0;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  int retDst = -1;
};

struct State {
  std::vector<Frame> st;
  std::map<u64, ObjP> mem;
  PC pc;
  std::unordered_map<EP, bool> known;
  std::shared_ptr<z3::model> model;
  u64 nextAddr = 0x10000000;
  long steps = 0;
  int undefCtr = 0;
  std::map<std::string, int> nameCtr;
  std::vector<std::pair<std::string, EP>> obs;  // observed values
  std::vector<EP> inputs;                       // symbolic inputs in creation order
  std::vector<std::string> trail;
  u64 lastClock = 0;
  EP clockE = nullptr;
  int clockMode = 0, clockN = 0;
  bool sure = true;  // no unknown feasibility verdict so far
  long forks = 0;
};

struct Candidate {
  std::string msg, kind;
  std::vector<std::tuple<std::string, char, std::string>> inputs;
  bool doubleOk = false;
};

struct Engine {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout *DL = nullptr;
  ExprPool P;
  std::unique_ptr<Smt> smt;
  std::map<Function *, std::unique_ptr<FuncInfo>> finfo;
  std::unordered_map<const Constant *, Val> ccache;
  std::map<std::string, u64> globAddr;
  std::unordered_map<const GlobalValue *, u64> gaddr;
  std::unordered_map<u64, Function *> fnAt;
  std::map<u64, ObjP> initMem;
  std::map<std::string, std::function<bool(State &, DInst &, std::vector<Val> &, Val &)>> ext;
  std::map<std::string, long> params;

  // budgets
  double deadline = 1e300, t0 = 0;
  long maxSteps = 30000000, maxPaths = 1000000;
  int maxCands = 6;
  // results
  long unconfirmed = 0;
  long paths = 0, pathsOk = 0, forks = 0, totalSteps = 0, checks = 0, chkStruct = 0, chkProved = 0, chkCex = 0,
       chkUnknown = 0, infeasible = 0, unsupported = 0, limitPaths = 0;
  std::map<std::string, long> cover, chkMsgs, endKinds;
  std::vector<std::string> notes;
  std::vector<Candidate> cands;
  std::map<std::string, int> candPerMsg;
  std::vector<std::string> witnesses;
  int maxWitness = 4, hardWit = 0;
  bool timedOut = false;
  bool forkSelect = false;

  static bool absDerived(EP x)
  {
    if (x->k == K_FABS) return true;
    if (x->k == K_ITE) return absDerived(x->b) || absDerived(x->e);
    if (x->k == K_LIN)
      for (auto &p : x->lin->t)
        if (absDerived(p.first)) return true;
    return false;
  }
  std::vector<State> work;
  State *cur = nullptr;
  bool debug = false;
  std::set<std::string> externSeen;

  // ---------- values ----------
  EP asI(const Val &v, unsigned w)
  {
    if (!v.e) return P.bvc(v.c, w);
    if (v.e->k == K_UNDEF) return undefAs(v.e, false, w);
    if (v.e->isF) {
      if (P.theory == TH_FP) return P.f2bits(v.e);
      throw PathEnd{"unsupported", "integer operation on a symbolic double"};
    }
    if (v.e->width != w) {
      if (v.e->width < w) return P.zext(v.e, w);
      return P.extract(v.e, 0, w);
    }
    return v.e;
  }
  EP undefAs(EP u, bool f, unsigned w)
  {
    std::string n = P.names[u->name];
    if (f) return P.fv(n + ".f", w);
    EP x = P.bvv(n + ".i", u->width);
    if (u->width == w) return x;
    return u->width < w ? P.zext(x, w) : P.extract(x, 0, w);
  }
  EP asF(const Val &v, unsigned w)
  {
    if (!v.e) {
      if (w == 32) { uint32_t u = (uint32_t)v.c; float f; memcpy(&f, &u, 4); return P.fc(f, 32); }
      u64 u = (u64)v.c; double d; memcpy(&d, &u, 8); return P.fc(d, 64);
    }
    if (v.e->k == K_UNDEF) return undefAs(v.e, true, w);
    if (!v.e->isF) {
      if (P.theory == TH_FP) return P.bits2f(v.e);
      if (v.e->k == K_ITE) {
        // ite over the bit patterns of constants
        return P.ite(v.e->a, asF(EV(v.e->b), w), asF(EV(v.e->e), w));
      }
      throw PathEnd{"unsupported", "symbolic bits used as a double"};
    }
    return v.e;
  }
  static double cD(const Val &v) { u64 u = (u64)v.c; double d; memcpy(&d, &u, 8); return d; }
  static Val fromD(double d) { u64 u; memcpy(&u, &d, 8); return CV(u); }

  // ---------- memory ----------
  ObjP *findObj(State &S, u64 a)
  {
    auto it = S.mem.upper_bound(a);
    if (it == S.mem.begin()) return nullptr;
    --it;
    if (a >= it->second->base + it->second->size && !(a == it->second->base)) return nullptr;
    return &it->second;
  }
  std::string where(State &S)
  {
    std::string r;
    int n = 0;
    for (int i = (int)S.st.size() - 1; i >= 0 && n < 6; --i, ++n) {
      Frame &f = S.st[i];
      if (f.blk < (int)f.f->blocks.size() && f.idx < (int)f.f->blocks[f.blk].ins.size()) {
        Instruction *I = f.f->blocks[f.blk].ins[f.idx].I;
        if (I && I->getDebugLoc()) {
          auto *L = I->getDebugLoc().get();
          r += (n ? " <- " : "") + L->getFilename().str() + ":" + std::to_string(L->getLine());
          while ((L = L->getInlinedAt()) && n < 8) {
            r += " <- " + L->getFilename().str() + ":" + std::to_string(L->getLine());
            ++n;
          }
        } else
          r += (n ? " <- " : "") + f.f->name;
      }
    }
    return r;
  }
  Obj &objFor(State &S, u64 a, u64 n, bool write)
  {
    ObjP *o = findObj(S, a);
    if (!o) throw PathEnd{"error", "invalid memory access (no object) at " + where(S)};
    if ((*o)->freed) throw PathEnd{"error", "use after free at " + where(S)};
    if (a + n > (*o)->base + (*o)->size) throw PathEnd{"error", "out-of-bounds access at " + where(S)};
    if (write) {
      if ((*o)->ro) throw PathEnd{"error", "write to constant memory at " + where(S)};
      if (o->use_count() > 1) *o = std::make_shared<Obj>(**o);
    }
    return **o;
  }
  u64 alloc(State &S, u64 size, char kind, const std::string &nm = "", bool zero = false, u64 align = 16)
  {
    auto o  = std::make_shared<Obj>();
    if (align < 16) align = 16;
    u64 a   = (S.nextAddr + align - 1) / align * align;
    o->base = a;
    o->size = size;
    o->kind = kind;
    o->name = nm;
    if (size > (1u << 28)) throw PathEnd{"limit", "allocation too large"};
    o->bytes.assign(size, 0);
    o->flag.assign(size, zero ? 0 : 2);
    S.nextAddr = a + size + 64;
    S.mem[a]   = o;
    return a;
  }
  void storeVal(State &S, u64 a, const Val &v, unsigned nbytes, unsigned width)
  {
    Obj &o  = objFor(S, a, nbytes, true);
    u64 off = a - o.base;
    if (v.e) {
      EP e = v.e;
      if (!e->isF && e->k != K_UNDEF && e->width != nbytes * 8) e = P.zext(e, nbytes * 8);
      if (e->k == K_BVC) { storeVal(S, a, CV(e->c), nbytes, width); return; }
      if (o.sym.empty()) o.sym.resize(o.size);
      for (unsigned i = 0; i < nbytes; ++i) {
        o.flag[off + i] = 1;
        o.sym[off + i]  = SymB{e, (uint8_t)i};
      }
    } else {
      u128 c = v.c;
      for (unsigned i = 0; i < nbytes; ++i) {
        o.bytes[off + i] = (uint8_t)(c >> (8 * i));
        o.flag[off + i]  = 0;
      }
    }
  }
  EP byteExpr(State &S, Obj &o, u64 off)
  {
    if (o.flag[off] == 0) return P.bvc(o.bytes[off], 8);
    SymB &b = o.sym[off];
    EP e    = b.e;
    if (e->k == K_UNDEF) e = undefAs(e, false, e->width);
    if (e->isF) {
      if (P.theory == TH_FP) e = P.f2bits(e);
      else throw PathEnd{"unsupported", "partial read of a symbolic double at " + where(S)};
    }
    return P.extract(e, 8 * b.idx, 8);
  }
  Val loadVal(State &S, u64 a, unsigned nbytes)
  {
    Obj *o  = &objFor(S, a, nbytes, false);
    u64 off = a - o->base;
    bool allC = true, anyU = false, allU = true;
    for (unsigned i = 0; i < nbytes; ++i) {
      uint8_t f = o->flag[off + i];
      if (f != 0) allC = false;
      if (f == 2) anyU = true; else allU = false;
    }
    if (allC) {
      u128 c = 0;
      if (nbytes <= 8) { u64 t = 0; memcpy(&t, &o->bytes[off], nbytes); c = t; }
      else for (unsigned i = 0; i < nbytes; ++i) c |= (u128)o->bytes[off + i] << (8 * i);
      return CV(c);
    }
    if (anyU) {
      o   = &objFor(S, a, nbytes, false);
      if (o->ro) throw PathEnd{"error", "uninitialised constant"};
      o = &objFor(S, a, nbytes, true);
      if (o->sym.empty()) o->sym.resize(o->size);
      if (allU) {
        EP u = P.undef("uninit" + std::to_string(S.undefCtr++), nbytes * 8);
        for (unsigned i = 0; i < nbytes; ++i) { o->flag[off + i] = 1; o->sym[off + i] = SymB{u, (uint8_t)i}; }
        return EV(u);
      }
      for (unsigned i = 0; i < nbytes; ++i)
        if (o->flag[off + i] == 2) {
          o->flag[off + i] = 1;
          o->sym[off + i]  = SymB{P.bvv("uninit" + std::to_string(S.undefCtr++) + ".b", 8), 0};
        }
    }
    if (o->flag[off] == 1) {
      EP e    = o->sym[off].e;
      bool ok = e->width == nbytes * 8;
      for (unsigned i = 0; ok && i < nbytes; ++i)
        ok = o->flag[off + i] == 1 && o->sym[off + i].e == e && o->sym[off + i].idx == i;
      if (ok) return EV(e);
    }
    EP r = byteExpr(S, *o, off);
    for (unsigned i = 1; i < nbytes; ++i) r = P.concat(byteExpr(S, *o, off + i), r);
    return EV(r);
  }
  void copyMem(State &S, u64 d, u64 s, u64 n)
  {
    if (!n) return;
    Obj &so0 = objFor(S, s, n, false);
    u64 soff = s - so0.base;
    std::vector<uint8_t> b(so0.bytes.begin() + soff, so0.bytes.begin() + soff + n),
      f(so0.flag.begin() + soff, so0.flag.begin() + soff + n);
    std::vector<SymB> sy;
    if (!so0.sym.empty()) sy.assign(so0.sym.begin() + soff, so0.sym.begin() + soff + n);
    Obj &o  = objFor(S, d, n, true);
    u64 off = d - o.base;
    memcpy(&o.bytes[off], b.data(), n);
    memcpy(&o.flag[off], f.data(), n);
    if (!sy.empty()) {
      if (o.sym.empty()) o.sym.resize(o.size);
      std::copy(sy.begin(), sy.end(), o.sym.begin() + off);
    }
  }
  std::string cstr(State &S, u64 a)
  {
    std::string r;
    for (int i = 0; i < 4096; ++i) {
      Val v = loadVal(S, a + i, 1);
      if (v.e || !v.c) break;
      r += (char)v.c;
    }
    return r;
  }

  // ---------- path condition ----------
  void addPC(State &S, EP c, std::shared_ptr<z3::model> m)
  {
    if (P.isC(c)) return;
    auto n   = std::make_shared<PCNode>();
    n->cond  = c;
    n->prev  = S.pc;
    n->depth = S.pc ? S.pc->depth + 1 : 1;
    S.pc     = n;
    S.known[c]         = true;
    S.known[P.lnot(c)] = false;
    if (c->k == K_AND && c->width == 1) { S.known[c->a] = true; S.known[c->b] = true; }
    S.model = m;
  }
  // 1 yes, 0 no, -1 unknown (counts as possible)
  int feasible(State &S, EP c, std::shared_ptr<z3::model> &m)
  {
    if (S.model) {
      int r = smt->evalIn(*S.model, c);
      if (r == 1) { m = S.model; return 1; }
    }
    auto r = smt->check(S.pc, {c}, &m, smt->tBranch);
    if (r == z3::sat) return 1;
    if (r == z3::unsat) return 0;
    m.reset();
    return -1;
  }
  // Decide a condition in this state; the other outcome, if possible, is queued as a clone
  // that re-executes the current instruction.
  bool decide(State &S, EP c)
  {
    if (P.isC(c)) return c->c != 0;
    auto k = S.known.find(c);
    if (k != S.known.end()) return k->second;
    EP nc = P.lnot(c);
    std::shared_ptr<z3::model> mt, mf;
    int ft = feasible(S, c, mt);
    if (ft == 0) { S.known[c] = false; S.known[nc] = true; return false; }
    int ff = feasible(S, nc, mf);
    if (ff == 0) { S.known[c] = true; S.known[nc] = false; return true; }
    if (nowS() > deadline) { timedOut = true; throw PathEnd{"limit", "time budget"}; }
    // both possible
    ++forks;
    ++S.forks;
    if (debug) fprintf(stderr, "fork %ld at %s\n", forks, where(S).c_str());
    State o = S;
    addPC(o, nc, ff == 1 ? mf : nullptr);
    if (ff != 1) o.sure = false;
    work.push_back(std::move(o));
    addPC(S, c, ft == 1 ? mt : nullptr);
    if (ft != 1) S.sure = false;
    return true;
  }
  // all values a tree of choices between constants can take
  bool leafConsts(EP e, std::set<u64> &out)
  {
    if (e->width > 64) return false;
    u64 mk = (u64)ExprPool::mask(e->width);
    switch (e->k) {
    case K_BVC: out.insert((u64)e->c); return true;
    case K_ITE: return leafConsts(e->b, out) && leafConsts(e->e, out) && out.size() < 64;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_FLT: case K_FLE: case K_FEQ: case K_UNO:
      out.insert(0); out.insert(1); return true;
    case K_ZEXT: return leafConsts(e->a, out);
    case K_SEXT: {
      std::set<u64> t;
      if (!leafConsts(e->a, t)) return false;
      for (u64 v : t) out.insert((u64)ExprPool::sgn(v, e->a->width) & mk);
      return true;
    }
    case K_EXTRACT: {
      std::set<u64> t;
      if (!leafConsts(e->a, t)) return false;
      for (u64 v : t) out.insert((v >> (unsigned)e->c) & mk);
      return true;
    }
    case K_ADD: case K_SUB: case K_MUL: case K_SHL: case K_LSHR: case K_OR: case K_AND: case K_XOR: case K_CONCAT: {
      if (e->width == 1) { out.insert(0); out.insert(1); return true; }
      std::set<u64> x, y;
      if (!leafConsts(e->a, x) || !leafConsts(e->b, y) || x.size() * y.size() > 64) return false;
      for (u64 a : x)
        for (u64 b : y) {
          bool ok = true;
          u64 r = e->k == K_CONCAT ? (a << e->b->width) | b : (u64)ExprPool::foldBV(e->k, a, b, e->width, ok);
          if (!ok) return false;
          out.insert(r & mk);
        }
      return true;
    }
    default: return false;
    }
  }
  // evaluates a tree of choices between constants by deciding its conditions; false: some other shape
  bool resolve(State &S, EP e, u64 &out)
  {
    u64 mk = (u64)ExprPool::mask(e->width), a, b;
    switch (e->k) {
    case K_BVC: out = (u64)e->c; return true;
    case K_ITE: return resolve(S, decide(S, e->a) ? e->b : e->e, out);
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_FLT: case K_FLE: case K_FEQ: case K_UNO:
      out = decide(S, e); return true;
    case K_ZEXT: return resolve(S, e->a, out);
    case K_SEXT:
      if (!resolve(S, e->a, a)) return false;
      out = (u64)ExprPool::sgn(a, e->a->width) & mk;
      return true;
    case K_EXTRACT:
      if (!resolve(S, e->a, a)) return false;
      out = (a >> (unsigned)e->c) & mk;
      return true;
    case K_ADD: case K_SUB: case K_MUL: case K_SHL: case K_LSHR: case K_OR: case K_AND: case K_XOR: case K_CONCAT: {
      if (!resolve(S, e->a, a) || !resolve(S, e->b, b)) return false;
      bool ok = true;
      out = e->k == K_CONCAT ? (a << e->b->width) | b : (u64)ExprPool::foldBV(e->k, a, b, e->width, ok) & mk;
      return ok;
    }
    default: return false;
    }
  }
  u64 concretize(State &S, const Val &v, unsigned w, const char *what)
  {
    if (!v.e) return (u64)v.c;
    EP e = asI(v, w);
    if (P.isC(e)) return (u64)e->c;
    {
      std::set<u64> leaves;
      u64 r;
      if (leafConsts(e, leaves) && resolve(S, e, r)) return r;
    }
    for (int it = 0; it < 600; ++it) {
      // pick a value from a model
      std::shared_ptr<z3::model> m = S.model;
      if (!m || smt->nonlin(e)) {
        auto r = smt->check(S.pc, {}, &m, smt->tAssert);
        if (r == z3::unsat) throw PathEnd{"infeasible", ""};
        if (r != z3::sat) {
          // no model at hand: try the constants the expression is built from
          std::set<u64> leaves;
          if (!leafConsts(e, leaves)) throw PathEnd{"unsupported", std::string("cannot concretise ") + what + " at " + where(S)};
          for (u64 val : leaves)
            if (decide(S, P.cmp(K_EQ, e, P.bvc(val, w)))) return val;
          throw PathEnd{"infeasible", ""};
        }
      }
      z3::expr z = m->eval(smt->tr(e), true);
      uint64_t val;
      if (!z.is_numeral_u64(val)) throw PathEnd{"unsupported", std::string("cannot concretise ") + what + " (" + z.to_string() + ") at " + where(S)};
      // values already excluded on this path show up as known conditions
      if (decide(S, P.cmp(K_EQ, e, P.bvc(val, w)))) return val;
    }
    throw PathEnd{"limit", std::string("too many values for ") + what};
  }

  // ---------- constants ----------
  Val constVal(const Constant *C)
  {
    auto it = ccache.find(C);
    if (it != ccache.end()) return it->second;
    Val v = constVal0(C);
    ccache[C] = v;
    return v;
  }
  Val constVal0(const Constant *C)
  {
    if (auto *ci = dyn_cast<ConstantInt>(C)) {
      const APInt &a = ci->getValue();
      u128 r         = a.getRawData()[0];
      if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64;
      return CV(r & ExprPool::mask(a.getBitWidth()));
    }
    if (auto *cf = dyn_cast<ConstantFP>(C)) {
      APInt a = cf->getValueAPF().bitcastToAPInt();
      if (a.getBitWidth() > 64) throw PathEnd{"unsupported", "long double"};
      return CV(a.getZExtValue());
    }
    if (isa<ConstantPointerNull>(C)) return CV(0);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
      Type *t = C->getType();
      if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val v;
        v.agg      = std::make_shared<std::vector<Val>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                     : t->isArrayTy() ? t->getArrayNumElements()
                                      : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.agg->push_back(constVal(C->getAggregateElement(i)));
        return v;
      }
      return CV(0);
    }
    if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = isa<ConstantDataSequential>(C) ? cast<ConstantDataSequential>(C)->getNumElements()
                                                  : C->getNumOperands();
      for (unsigned i = 0; i < n; ++i) v.agg->push_back(constVal(C->getAggregateElement(i)));
      return v;
    }
    if (auto *g = dyn_cast<GlobalAlias>(C)) return constVal(g->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(C)) {
      auto it = gaddr.find(g);
      if (it == gaddr.end()) throw PathEnd{"unsupported", "unknown global " + g->getName().str()};
      return CV(it->second);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
      unsigned op = ce->getOpcode();
      switch (op) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto *gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(*DL, off)) throw PathEnd{"unsupported", "const gep"};
        return CV((u64)constVal(ce->getOperand(0)).c + off.getZExtValue());
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
        unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getIntegerBitWidth();
        return CV(constVal(ce->getOperand(0)).c & ExprPool::mask(w));
      }
      case Instruction::Sub: case Instruction::Add: case Instruction::Mul: case Instruction::Xor: {
        unsigned w = ce->getType()->getIntegerBitWidth();
        bool ok;
        Kind k = op == Instruction::Sub ? K_SUB : op == Instruction::Add ? K_ADD : op == Instruction::Mul ? K_MUL : K_XOR;
        return CV(ExprPool::foldBV(k, constVal(ce->getOperand(0)).c, constVal(ce->getOperand(1)).c, w, ok));
      }
      case Instruction::ICmp: {
        u128 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return CV(a == b);
        if (ce->getPredicate() == CmpInst::ICMP_NE) return CV(a != b);
        break;
      }
      default: break;
      }
      throw PathEnd{"unsupported", std::string("constant expression ") + ce->getOpcodeName()};
    }
    throw PathEnd{"unsupported", "constant kind"};
  }
  void writeConst(Obj &o, u64 off, const Constant *C)
  {
    Type *t = C->getType();
    u64 sz  = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
      memset(&o.bytes[off], 0, std::min<u64>(sz, o.size - off));
      return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(C)) {
      auto *sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(C)) {
      u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeConst(o, off + i * es, ca->getOperand(i));
      return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
      StringRef s = cd->getRawDataValues();
      memcpy(&o.bytes[off], s.data(), s.size());
      return;
    }
    if (auto *cv = dyn_cast<ConstantVector>(C)) {
      u64 es = DL->getTypeAllocSize(cv->getType()->getElementType());
      for (unsigned i = 0; i < cv->getNumOperands(); ++i) writeConst(o, off + i * es, cv->getOperand(i));
      return;
    }
    Val v = constVal(C);
    u64 n = DL->getTypeStoreSize(t);
    for (u64 i = 0; i < n; ++i) o.bytes[off + i] = (uint8_t)(v.c >> (8 * i));
  }

  // ---------- loading ----------
  bool load(const std::string &path)
  {
    SMDiagnostic err;
    M = parseIRFile(path, err, ctx);
    if (!M) { err.print("symex", errs()); return false; }
    DL = &M->getDataLayout();
    u64 fa = 0x1000;
    for (Function &F : *M) {
      gaddr[&F] = fa;
      fnAt[fa]  = &F;
      fa += 16;
    }
    State S;
    for (GlobalVariable &G : M->globals()) {
      u64 sz = DL->getTypeAllocSize(G.getValueType());
      if (G.isDeclaration()) sz = std::max<u64>(sz, 1024);
      gaddr[&G] = alloc(S, sz, 'g', G.getName().str(), true, G.getAlign() ? G.getAlign()->value() : 16);
    }
    for (GlobalVariable &G : M->globals())
      if (G.hasInitializer()) {
        Obj &o = *S.mem[gaddr[&G]];
        writeConst(o, 0, G.getInitializer());
        if (G.isConstant()) o.ro = true;
      }
    initMem  = S.mem;
    initNext = S.nextAddr;
    return true;
  }
  u64 initNext = 0;

  unsigned tyWidth(Type *t)
  {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
  }
  FuncInfo *info(Function *F)
  {
    auto &p = finfo[F];
    if (p) return p.get();
    p       = std::make_unique<FuncInfo>();
    FuncInfo *f = p.get();
    f->F    = F;
    f->name = F->getName().str();
    f->decl = F->isDeclaration();
    if (f->decl) return f;
    int n = 0;
    for (Argument &A : F->args()) f->slot[&A] = n++;
    int b = 0;
    for (BasicBlock &B : *F) {
      f->bidx[&B] = b++;
      for (Instruction &I : B)
        if (!I.getType()->isVoidTy()) f->slot[&I] = n++;
    }
    f->nslots = n;
    f->blocks.resize(b);
    auto opnd = [&](Value *V) -> Opnd {
      Opnd o{-1, {}};
      auto it = f->slot.find(V);
      if (it != f->slot.end()) { o.slot = it->second; return o; }
      if (auto *C = dyn_cast<Constant>(V)) { o.cv = constVal(C); return o; }
      return o;  // metadata, blocks, asm
    };
    for (BasicBlock &B : *F) {
      DBlock &db = f->blocks[f->bidx[&B]];
      for (Instruction &I : B) {
        if (auto *ph = dyn_cast<PHINode>(&I)) {
          Phi q;
          q.dst = f->slot[&I];
          for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
            q.in.push_back({f->bidx[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
          db.phis.push_back(q);
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        DInst d;
        d.I  = &I;
        d.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) d.dst = f->slot[&I];
        d.width = tyWidth(I.getType());
        d.fp    = I.getType()->isFloatingPointTy();
        switch (d.op) {
        case Instruction::Br:
          if (cast<BranchInst>(I).isConditional()) d.ops.push_back(opnd(cast<BranchInst>(I).getCondition()));
          for (unsigned i = 0; i < I.getNumSuccessors(); ++i) d.succ[i] = f->bidx[I.getSuccessor(i)];
          break;
        case Instruction::Switch: d.ops.push_back(opnd(cast<SwitchInst>(I).getCondition())); break;
        case Instruction::GetElementPtr: {
          auto *g = cast<GetElementPtrInst>(&I);
          d.ops.push_back(opnd(g->getPointerOperand()));
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value *idx = it.getOperand();
            if (StructType *st = it.getStructTypeOrNull()) {
              d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              u64 es = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(idx)) d.off += ci->getSExtValue() * (int64_t)es;
              else {
                d.scaled.push_back({(int)d.ops.size(), (int64_t)es});
                d.ops.push_back(opnd(idx));
              }
            }
          }
          break;
        }
        case Instruction::Load: d.size = DL->getTypeStoreSize(I.getType()); d.ops.push_back(opnd(I.getOperand(0))); break;
        case Instruction::Store:
          d.size  = DL->getTypeStoreSize(I.getOperand(0)->getType());
          d.width = tyWidth(I.getOperand(0)->getType());
          d.ops.push_back(opnd(I.getOperand(0)));
          d.ops.push_back(opnd(I.getOperand(1)));
          break;
        case Instruction::Call: case Instruction::Invoke: {
          auto *cb = cast<CallBase>(&I);
          for (auto &a : cb->args()) d.ops.push_back(opnd(a.get()));
          Value *cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          d.callee = dyn_cast<Function>(cv);
          if (!d.callee) d.ops.push_back(opnd(cv));
          if (d.op == Instruction::Invoke) d.succ[0] = f->bidx[cast<InvokeInst>(I).getNormalDest()];
          break;
        }
        case Instruction::ICmp: case Instruction::FCmp:
          d.width = tyWidth(I.getOperand(0)->getType());
          for (Value *o : I.operands()) d.ops.push_back(opnd(o));
          break;
        default:
          for (Value *o : I.operands()) d.ops.push_back(opnd(o));
          break;
        }
        db.ins.push_back(std::move(d));
      }
    }
    return f;
  }

  // ---------- execution ----------
  void enterBlock(Frame &f, int to)
  {
    DBlock &b = f.f->blocks[to];
    if (!b.phis.empty()) {
      std::vector<Val> nv;
      nv.reserve(b.phis.size());
      for (auto &p : b.phis) {
        bool ok = false;
        for (auto &in : p.in)
          if (in.first == f.blk) { nv.push_back(in.second.slot >= 0 ? f.regs[in.second.slot] : in.second.cv); ok = true; break; }
        if (!ok) throw PathEnd{"unsupported", "phi"};
      }
      for (size_t i = 0; i < nv.size(); ++i) f.regs[b.phis[i].dst] = std::move(nv[i]);
    }
    f.blk = to;
    f.idx = 0;
  }
  void pushCall(State &S, FuncInfo *fi, std::vector<Val> args, int retDst)
  {
    if (S.st.size() > 2000) throw PathEnd{"error", "stack overflow"};
    Frame fr;
    fr.f = fi;
    fr.regs.resize(fi->nslots);
    for (size_t i = 0; i < args.size() && i < fi->F->arg_size(); ++i) {
      // byval arguments need a copy
      if (fi->F->hasParamAttribute((unsigned)i, Attribute::ByVal)) {
        Type *t = fi->F->getParamByValType((unsigned)i);
        u64 n   = DL->getTypeAllocSize(t);
        u64 a   = alloc(S, n, 's', "byval");
        copyMem(S, a, (u64)args[i].c, n);
        fr.allocas.push_back(a);
        fr.regs[i] = CV(a);
      } else
        fr.regs[i] = args[i];
    }
    fr.retDst = retDst;
    S.st.push_back(std::move(fr));
  }

  void run(const std::string &entry);
  void runPath(State &S);
  void step(State &S);
  void execCall(State &S, DInst &d, Frame &f);
  bool intrinsic(State &S, DInst &d, std::vector<Val> &a, Val &r);
  void setupExt();
  EP icmp(State &S, CmpInst::Predicate p, const Val &a, const Val &b, unsigned w);
  EP fcmp(CmpInst::Predicate p, EP a, EP b);
  Val fpArith(State &S, unsigned op, const Val &a, const Val &b, unsigned w);
  EP castScalar(State &S, Instruction *I, const Val &v);
  EP roundSingle(State &S, EP x);
  EP roundTo(State &S, EP x, int bits, std::map<EP, EP> &of);
  EP intToDouble(State &S, EP a, bool sg);
  std::map<EP, EP> singleOf, doubleOf;
  std::set<EP> singles;
  bool smtCheck(State &S, EP cond, const std::string &msg);
  void addCandidate(State &S, const std::string &msg, const std::string &kind, std::shared_ptr<z3::model> m,
                    std::vector<EP> extra);
  void finishPath(State &S, const PathEnd &pe);
  EP deriv(EP f, EP x);
  std::unordered_map<u64, EP> dcache;
  double evalD(EP e, std::unordered_map<EP, u128> &memo);
  u128 evalE(EP e, std::unordered_map<EP, u128> &memo);
  std::unordered_map<EP, u128> modelInputs(State &S, z3::model &m, const std::vector<EP> &vars);
  std::string dumpInputs(const std::vector<std::tuple<std::string, char, std::string>> &in);
  std::vector<std::tuple<std::string, char, std::string>> inputList(State &S, z3::model &m);
  void writeResult(const std::string &path, const std::string &entry, int extraPending = 0);
};

EP Engine::fcmp(CmpInst::Predicate p, EP a, EP b)
{
  auto lt = [&](EP x, EP y) { return P.fcmp(K_FLT, x, y); };
  auto le = [&](EP x, EP y) { return P.fcmp(K_FLE, x, y); };
  auto eq = [&](EP x, EP y) { return P.fcmp(K_FEQ, x, y); };
  auto un = [&]() { return P.fcmp(K_UNO, a, b); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return P.bvc(0, 1);
  case CmpInst::FCMP_TRUE: return P.bvc(1, 1);
  case CmpInst::FCMP_OEQ: return eq(a, b);
  case CmpInst::FCMP_OGT: return lt(b, a);
  case CmpInst::FCMP_OGE: return le(b, a);
  case CmpInst::FCMP_OLT: return lt(a, b);
  case CmpInst::FCMP_OLE: return le(a, b);
  case CmpInst::FCMP_ONE: return P.lnot(P.lor(eq(a, b), un()));
  case CmpInst::FCMP_ORD: return P.lnot(un());
  case CmpInst::FCMP_UNO: return un();
  case CmpInst::FCMP_UEQ: return P.lor(eq(a, b), un());
  case CmpInst::FCMP_UGT: return P.lnot(le(a, b));
  case CmpInst::FCMP_UGE: return P.lnot(lt(a, b));
  case CmpInst::FCMP_ULT: return P.lnot(le(b, a));
  case CmpInst::FCMP_ULE: return P.lnot(lt(b, a));
  case CmpInst::FCMP_UNE: return P.lnot(eq(a, b));
  default: throw PathEnd{"unsupported", "fcmp"};
  }
}

EP Engine::icmp(State &S, CmpInst::Predicate p, const Val &a, const Val &b, unsigned w)
{
  if (P.theory == TH_REAL && ((a.e && a.e->isF) || (b.e && b.e->isF))) {
    EP x = asF(a, w), y = asF(b, w);
    if (p == CmpInst::ICMP_EQ) return P.fcmp(K_FEQ, x, y);
    if (p == CmpInst::ICMP_NE) return P.lnot(P.fcmp(K_FEQ, x, y));
    if (p == CmpInst::ICMP_SLT && !b.e && b.c == 0) return P.fcmp(K_FLT, x, P.fc(0, w));
    if (p == CmpInst::ICMP_SGT && !b.e && b.c == ExprPool::mask(w)) return P.fcmp(K_FLE, P.fc(0, w), x);
    throw PathEnd{"unsupported", "integer comparison of a symbolic double"};
  }
  EP x = asI(a, w), y = asI(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ: return P.cmp(K_EQ, x, y);
  case CmpInst::ICMP_NE: return P.lnot(P.cmp(K_EQ, x, y));
  case CmpInst::ICMP_UGT: return P.cmp(K_ULT, y, x);
  case CmpInst::ICMP_UGE: return P.cmp(K_ULE, y, x);
  case CmpInst::ICMP_ULT: return P.cmp(K_ULT, x, y);
  case CmpInst::ICMP_ULE: return P.cmp(K_ULE, x, y);
  case CmpInst::ICMP_SGT: return P.cmp(K_SLT, y, x);
  case CmpInst::ICMP_SGE: return P.cmp(K_SLE, y, x);
  case CmpInst::ICMP_SLT: return P.cmp(K_SLT, x, y);
  case CmpInst::ICMP_SLE: return P.cmp(K_SLE, x, y);
  default: throw PathEnd{"unsupported", "icmp"};
  }
}

Val Engine::fpArith(State &S, unsigned op, const Val &av, const Val &bv, unsigned w)
{
  if (!av.e && !bv.e && w == 64) {
    double a = cD(av), b = cD(bv);
    switch (op) {
    case Instruction::FAdd: return fromD(a + b);
    case Instruction::FSub: return fromD(a - b);
    case Instruction::FMul: return fromD(a * b);
    case Instruction::FDiv: return fromD(a / b);
    case Instruction::FRem: return fromD(std::fmod(a, b));
    }
  }
  EP a = asF(av, w), b = asF(bv, w);
  Kind k = op == Instruction::FAdd   ? K_FADD
           : op == Instruction::FSub ? K_FSUB
           : op == Instruction::FMul ? K_FMUL
           : op == Instruction::FDiv ? K_FDIV
                                     : K_FREM;
  if (P.theory == TH_REAL) {
    auto sign = [&](EP x) -> int {
      if (decide(S, P.fcmp(K_FEQ, x, P.fc(0, w)))) return 0;
      return decide(S, P.fcmp(K_FLT, x, P.fc(0, w))) ? -1 : 1;
    };
    if (k == K_FMUL) {
      if (P.isFC(b)) std::swap(a, b);
      if (P.isFC(a) && std::isinf(a->d) && !P.isFC(b)) {
        int s = sign(b);
        return s == 0 ? fromD(NAN) : w == 32 ? EV(P.fc(a->d * s, 32)) : fromD(a->d * s);
      }
    }
    if (k == K_FDIV && !P.isFC(b)) {
      if (decide(S, P.fcmp(K_FEQ, b, P.fc(0, w)))) {
        int s = P.isFC(a) ? (std::isnan(a->d) ? 0 : a->d > 0 ? 1 : a->d < 0 ? -1 : 0) : sign(a);
        return EV(P.fc(s == 0 ? NAN : s * INFINITY, w));
      }
      if (P.isFC(a) && std::isinf(a->d)) return EV(P.fc(a->d * sign(b), w));
    }
    if (k == K_FDIV && P.isFC(b) && b->d == 0 && !P.isFC(a)) {
      int s = sign(a);
      return EV(P.fc(s == 0 ? NAN : s * INFINITY * (std::signbit(b->d) ? -1 : 1), w));
    }
  }
  return EV(P.fbin(k, a, b));
}

EP Engine::castScalar(State &S, Instruction *I, const Val &v)
{
  Type *st = I->getOperand(0)->getType(), *dt = I->getType();
  unsigned sw = tyWidth(st), dw = tyWidth(dt);
  if (!sw || !dw) throw PathEnd{"unsupported", "cast type"};
  switch (I->getOpcode()) {
  case Instruction::Trunc: return P.extract(asI(v, sw), 0, dw);
  case Instruction::ZExt: return P.zext(asI(v, sw), dw);
  case Instruction::SExt: return P.sext(asI(v, sw), dw);
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    EP e = asI(v, sw);
    return dw > sw ? P.zext(e, dw) : P.extract(e, 0, dw);
  }
  case Instruction::SIToFP: return dw == 32 && P.theory == TH_REAL ? roundSingle(S, P.si2f(asI(v, sw), 64, true)) : dw == 64 && sw == 64 && P.theory == TH_REAL ? intToDouble(S, asI(v, sw), true) : P.si2f(asI(v, sw), dw, true);
  case Instruction::UIToFP: return dw == 32 && P.theory == TH_REAL ? roundSingle(S, P.si2f(asI(v, sw), 64, false)) : P.si2f(asI(v, sw), dw, false);
  case Instruction::FPToSI: return P.f2i(asF(v, sw), dw, true);
  case Instruction::FPToUI: return P.f2i(asF(v, sw), dw, false);
  case Instruction::FPExt: return P.fext(asF(v, sw), dw);
  case Instruction::FPTrunc: return dw == 32 && sw == 64 && P.theory == TH_REAL ? roundSingle(S, asF(v, sw)) : P.ftrunc(asF(v, sw), dw);
  default: throw PathEnd{"unsupported", "cast"};
  }
}

// Rounding to single precision when doubles are reals: an arbitrary value within half an ulp
// (relative 2^-24; subnormal results are not modelled), the same one for the same argument.
EP Engine::roundSingle(State &S, EP x)
{
  if (P.isFC(x) || (x->k == K_FEXT && x->a->width == 32) || singles.count(x)) return P.ftrunc(x, 32);
  return P.ftrunc(roundTo(S, x, 24, singleOf), 32);
}

EP Engine::roundTo(State &S, EP x, int bits, std::map<EP, EP> &of)
{
  EP &v = of[x];
  if (!v) {
    v = P.fv((bits == 24 ? "single." : "double.") + std::to_string(singles.size()), 64);
    singles.insert(v);
    auto b   = P.interval(x);
    double m = std::max(std::fabs(b.first), std::fabs(b.second)) * std::ldexp(1.01, -bits);
    if (std::isfinite(m)) P.setBox(v, b.first - m, b.second + m);
  }
  EP d = P.fbin(K_FSUB, v, x), e = P.fbin(K_FMUL, P.fabs_(x), P.fc(std::ldexp(1., -bits), 64));
  EP c = P.land(P.fcmp(K_FLE, d, e), P.fcmp(K_FLE, P.fneg(e), d));
  if (!P.isC(c) && !S.known.count(c)) {
    std::shared_ptr<z3::model> m;
    int q = feasible(S, c, m);
    if (q == 0) throw PathEnd{"infeasible", ""};
    if (q < 0) S.sure = false;
    addPC(S, c, m);
  }
  return v;
}

// integers that doubles cannot represent exactly are rounded as well (relative 2^-53)
EP Engine::intToDouble(State &S, EP a, bool sg)
{
  EP x = P.si2f(a, 64, sg);
  if (P.isC(a)) return x;
  std::pair<double, double> r;
  if (!P.intAsReal(a, r, 0) || std::max(std::fabs(r.first), std::fabs(r.second)) <= 0x1p53) return x;
  return roundTo(S, x, 53, doubleOf);
}

void Engine::step(State &S)
{
  Frame &f = S.st.back();
  DInst &d = f.f->blocks[f.blk].ins[f.idx];
  d.hit    = true;
  ++S.steps;
  auto op = [&](int i) -> const Val & {
    const Opnd &o = d.ops[i];
    return o.slot >= 0 ? f.regs[o.slot] : o.cv;
  };
  auto set = [&](Val v) {
    f.regs[d.dst] = std::move(v);
    ++f.idx;
  };
  switch (d.op) {
  case Instruction::Ret: {
    Val r;
    bool has = !d.ops.empty();
    if (has) r = op(0);
    for (u64 a : f.allocas) S.mem.erase(a);
    int dst = f.retDst;
    S.st.pop_back();
    if (S.st.empty()) throw PathEnd{"ok", ""};
    Frame &g = S.st.back();
    DInst &c = g.f->blocks[g.blk].ins[g.idx];
    if (dst >= 0 && has) g.regs[dst] = r;
    if (c.op == Instruction::Invoke) enterBlock(g, c.succ[0]);
    else ++g.idx;
    return;
  }
  case Instruction::Br:
    if (d.ops.empty()) { enterBlock(f, d.succ[0]); return; }
    {
      const Val &c = op(0);
      bool t       = c.e ? decide(S, asI(c, 1)) : (c.c & 1);
      enterBlock(f, t ? d.succ[0] : d.succ[1]);
      return;
    }
  case Instruction::Switch: {
    auto *sw   = cast<SwitchInst>(d.I);
    unsigned w = sw->getCondition()->getType()->getIntegerBitWidth();
    const Val v = op(0);
    if (!v.e) {
      for (auto &c : sw->cases())
        if (c.getCaseValue()->getValue().getZExtValue() == (u64)v.c) { enterBlock(f, f.f->bidx[c.getCaseSuccessor()]); return; }
      enterBlock(f, f.f->bidx[sw->getDefaultDest()]);
      return;
    }
    EP e = asI(v, w);
    for (auto &c : sw->cases())
      if (decide(S, P.cmp(K_EQ, e, P.bvc(c.getCaseValue()->getValue().getZExtValue(), w)))) {
        enterBlock(f, f.f->bidx[c.getCaseSuccessor()]);
        return;
      }
    enterBlock(f, f.f->bidx[sw->getDefaultDest()]);
    return;
  }
  case Instruction::Unreachable: throw PathEnd{"error", "unreachable code reached at " + where(S)};
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(d.I);
    u64 n    = DL->getTypeAllocSize(ai->getAllocatedType());
    if (ai->isArrayAllocation()) n *= concretize(S, op(0), tyWidth(ai->getArraySize()->getType()), "alloca size");
    u64 a = alloc(S, n, 's', "", false, ai->getAlign().value());
    f.allocas.push_back(a);
    set(CV(a));
    return;
  }
  case Instruction::Load: {
    u64 a   = concretize(S, op(0), 64, "load address");
    Type *t = d.I->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; ++i) {
        Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 off  = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
        v.agg->push_back(loadVal(S, a + off, DL->getTypeStoreSize(et)));
      }
      set(v);
      return;
    }
    if (!d.width) throw PathEnd{"unsupported", "load type"};
    Val v = loadVal(S, a, d.size);
    if (v.e && d.width < d.size * 8) v = EV(P.extract(asI(v, d.size * 8), 0, d.width));
    else if (!v.e) v.c &= ExprPool::mask(d.width);
    set(v);
    return;
  }
  case Instruction::Store: {
    u64 a = concretize(S, op(1), 64, "store address");
    const Val &v = op(0);
    if (v.agg) {
      Type *t = d.I->getOperand(0)->getType();
      for (unsigned i = 0; i < v.agg->size(); ++i) {
        Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 off  = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
        if ((*v.agg)[i].agg) throw PathEnd{"unsupported", "nested aggregate store"};
        storeVal(S, a + off, (*v.agg)[i], DL->getTypeStoreSize(et), 0);
      }
      ++f.idx;
      return;
    }
    if (!d.width) throw PathEnd{"unsupported", "store type"};
    storeVal(S, a, v, d.size, d.width);
    ++f.idx;
    return;
  }
  case Instruction::GetElementPtr: {
    u64 a = concretize(S, op(0), 64, "pointer") + d.off;
    for (auto &sc : d.scaled) {
      unsigned w = tyWidth(cast<GetElementPtrInst>(d.I)->getOperand(0) ? Type::getInt64Ty(ctx) : nullptr);
      // index width
      const Opnd &o = d.ops[sc.first];
      (void)o;
      w          = 64;
      const Val &iv = op(sc.first);
      u64 idx;
      if (iv.e) {
        EP e = iv.e->k == K_UNDEF ? undefAs(iv.e, false, iv.e->width) : iv.e;
        idx  = concretize(S, EV(P.sext(e, w)), w, "index");
      } else {
        // sign-extend according to the operand type
        idx = (u64)iv.c;
        for (unsigned k = 1; k < d.I->getNumOperands(); ++k) {
          auto it = f.f->slot.find(d.I->getOperand(k));
          if (it != f.f->slot.end() && it->second == o.slot) {
            unsigned iw = d.I->getOperand(k)->getType()->getIntegerBitWidth();
            if (iw < 64) idx = (u64)ExprPool::sgn(iv.c, iw);
            break;
          }
        }
      }
      a += idx * (u64)sc.second;
    }
    set(CV(a));
    return;
  }
  case Instruction::Call: case Instruction::Invoke: execCall(S, d, f); return;
  case Instruction::ICmp: {
    const Val &a = op(0), &b = op(1);
    auto p = cast<CmpInst>(d.I)->getPredicate();
    if (!a.e && !b.e && d.width && d.width <= 64) {
      u64 x = (u64)a.c, y = (u64)b.c;
      int64_t sx = (int64_t)ExprPool::sgn(x, d.width), sy = (int64_t)ExprPool::sgn(y, d.width);
      bool r;
      switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      default: r = sx <= sy; break;
      }
      set(CV(r));
      return;
    }
    if (!d.width) throw PathEnd{"unsupported", "icmp type"};
    set(EV(icmp(S, p, a, b, d.width)));
    return;
  }
  case Instruction::FCmp: {
    if (!d.width) throw PathEnd{"unsupported", "fcmp type"};
    set(EV(fcmp(cast<CmpInst>(d.I)->getPredicate(), asF(op(0), d.width), asF(op(1), d.width))));
    return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    if (op(0).agg) {
      unsigned w = tyWidth(d.I->getType()->getScalarType());
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < op(0).agg->size(); ++i) v.agg->push_back(fpArith(S, d.op, (*op(0).agg)[i], (*op(1).agg)[i], w));
      set(v);
      return;
    }
    if (!d.width) throw PathEnd{"unsupported", "fp type"};
    set(fpArith(S, d.op, op(0), op(1), d.width));
    return;
  }
  case Instruction::FNeg:
    if (op(0).agg) {
      unsigned w = tyWidth(d.I->getType()->getScalarType());
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      for (auto &x : *op(0).agg) v.agg->push_back(EV(P.fneg(asF(x, w))));
      set(v);
      return;
    }
    set(EV(P.fneg(asF(op(0), d.width))));
    return;
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
  case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    const Val &a = op(0), &b = op(1);
    static const std::map<unsigned, Kind> km{
      {Instruction::Add, K_ADD},   {Instruction::Sub, K_SUB},   {Instruction::Mul, K_MUL},   {Instruction::UDiv, K_UDIV},
      {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND},
      {Instruction::Or, K_OR},     {Instruction::Xor, K_XOR},   {Instruction::Shl, K_SHL},   {Instruction::LShr, K_LSHR},
      {Instruction::AShr, K_ASHR}};
    Kind k = km.at(d.op);
    if (!d.width) throw PathEnd{"unsupported", "int vector op"};
    if (!a.e && !b.e) {
      bool ok;
      u128 r = ExprPool::foldBV(k, a.c, b.c, d.width, ok);
      if (!ok) throw PathEnd{"error", "integer division by zero at " + where(S)};
      set(CV(r));
      return;
    }
    if (P.theory == TH_REAL && ((a.e && a.e->isF) || (b.e && b.e->isF))) {
      const Val &x = (a.e && a.e->isF) ? a : b, &y = (a.e && a.e->isF) ? b : a;
      u128 sign    = (u128)1 << (d.width - 1);
      if (!y.e && k == K_XOR && y.c == sign) { set(EV(P.fneg(asF(x, d.width)))); return; }
      if (!y.e && k == K_AND && y.c == ExprPool::mask(d.width - 1)) { set(EV(P.fabs_(asF(x, d.width)))); return; }
      throw PathEnd{"unsupported", "bit operation on a symbolic double at " + where(S)};
    }
    EP x = asI(a, d.width), y = asI(b, d.width);
    if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM)
      if (decide(S, P.cmp(K_EQ, y, P.bvc(0, d.width)))) throw PathEnd{"error", "integer division by zero at " + where(S)};
    set(EV(P.bin(k, x, y)));
    return;
  }
  case Instruction::Select: {
    const Val &c = op(0), &a = op(1), &b = op(2);
    if (!c.e) { set((c.c & 1) ? a : b); return; }
    EP ce = asI(c, 1);
    auto k = S.known.find(ce);
    if (k != S.known.end()) { set(k->second ? a : b); return; }
    if (d.I->getType()->isPointerTy() || a.agg) {
      bool t = decide(S, ce);
      set(t ? a : b);
      return;
    }
    if (d.fp || (a.e && a.e->isF) || (b.e && b.e->isF)) {
      EP x = asF(a, d.width), y = asF(b, d.width);
      if (P.theory == TH_REAL && ((P.isFC(x) && !std::isfinite(x->d)) || (P.isFC(y) && !std::isfinite(y->d)))) {
        bool t = decide(S, ce);  // keep infinities out of symbolic terms
        set(t ? a : b);
        return;
      }
      if (P.theory == TH_REAL && P.isFC(x) && P.isFC(y)) {
        bool t = decide(S, ce);  // a choice between constants selects a configuration
        set(t ? a : b);
        return;
      }
      if (forkSelect && !absDerived(x) && !absDerived(y)) {
        bool t = decide(S, ce);
        set(t ? a : b);
        return;
      }
      set(EV(P.ite(ce, x, y)));
      return;
    }
    set(EV(P.ite(ce, asI(a, d.width), asI(b, d.width))));
    return;
  }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt:
  case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI:
  case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
    set(EV(castScalar(S, d.I, op(0))));
    return;
  case Instruction::BitCast:
    if (op(0).agg || !tyWidth(d.I->getOperand(0)->getType()) || !d.width) throw PathEnd{"unsupported", "vector bitcast"};
    set(op(0));
    return;
  case Instruction::Freeze: set(op(0)); return;
  case Instruction::ExtractValue: {
    Val v = op(0);
    for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = v.agg ? (*v.agg)[i] : CV(0); v = t; }
    set(v);
    return;
  }
  case Instruction::InsertValue: {
    ArrayRef<unsigned> idx = cast<InsertValueInst>(d.I)->getIndices();
    std::function<Val(const Val &, unsigned, Type *)> ins = [&](const Val &v, unsigned k, Type *t) -> Val {
      if (k == idx.size()) return op(1);
      Val r;
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      r.agg      = v.agg ? std::make_shared<std::vector<Val>>(*v.agg) : std::make_shared<std::vector<Val>>(n);
      Type *et   = t->isStructTy() ? t->getStructElementType(idx[k]) : t->getArrayElementType();
      (*r.agg)[idx[k]] = ins((*r.agg)[idx[k]], k + 1, et);
      return r;
    };
    set(ins(op(0), 0, d.I->getType()));
    return;
  }
  case Instruction::ExtractElement: {
    u64 i = concretize(S, op(1), 64, "vector index");
    set((*op(0).agg)[i]);
    return;
  }
  case Instruction::InsertElement: {
    u64 i = concretize(S, op(2), 64, "vector index");
    Val v;
    unsigned n = cast<FixedVectorType>(d.I->getType())->getNumElements();
    v.agg      = op(0).agg ? std::make_shared<std::vector<Val>>(*op(0).agg) : std::make_shared<std::vector<Val>>(n);
    (*v.agg)[i] = op(1);
    set(v);
    return;
  }
  case Instruction::ShuffleVector: {
    auto *sv   = cast<ShuffleVectorInst>(d.I);
    unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    for (int m : sv->getShuffleMask()) {
      if (m < 0) v.agg->push_back(CV(0));
      else if ((unsigned)m < n) v.agg->push_back(op(0).agg ? (*op(0).agg)[m] : CV(0));
      else v.agg->push_back(op(1).agg ? (*op(1).agg)[m - n] : CV(0));
    }
    set(v);
    return;
  }
  case Instruction::Fence: ++f.idx; return;
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(d.I);
    u64 a    = concretize(S, op(0), 64, "address");
    unsigned n = DL->getTypeStoreSize(rm->getValOperand()->getType());
    Val o    = loadVal(S, a, n);
    if (o.e || op(1).e) throw PathEnd{"unsupported", "symbolic atomic"};
    u128 r;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Add: r = o.c + op(1).c; break;
    case AtomicRMWInst::Sub: r = o.c - op(1).c; break;
    case AtomicRMWInst::Xchg: r = op(1).c; break;
    default: throw PathEnd{"unsupported", "atomicrmw"};
    }
    storeVal(S, a, CV(r), n, 0);
    set(o);
    return;
  }
  case Instruction::LandingPad: case Instruction::Resume: throw PathEnd{"error", "exception propagated at " + where(S)};
  default: throw PathEnd{"unsupported", std::string("instruction ") + d.I->getOpcodeName()};
  }
}

bool Engine::intrinsic(State &S, DInst &d, std::vector<Val> &a, Val &r)
{
  auto *F    = d.callee;
  unsigned w = d.width;
  auto un    = [&](Kind k) { r = EV(P.fun(k, asF(a[0], w))); return true; };
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
  case Intrinsic::stackrestore:
    return true;
  case Intrinsic::stacksave: r = CV(0x500); return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    r = a[0];
    return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    u64 dd = concretize(S, a[0], 64, "memcpy"), s = concretize(S, a[1], 64, "memcpy"), n = concretize(S, a[2], 64, "memcpy size");
    copyMem(S, dd, s, n);
    return true;
  }
  case Intrinsic::memset: {
    u64 dd = concretize(S, a[0], 64, "memset"), n = concretize(S, a[2], 64, "memset size");
    u64 v  = concretize(S, a[1], 8, "memset value");
    if (!n) return true;
    Obj &o  = objFor(S, dd, n, true);
    u64 off = dd - o.base;
    memset(&o.bytes[off], (int)v, n);
    memset(&o.flag[off], 0, n);
    return true;
  }
  case Intrinsic::fabs:
    if (a[0].agg) {
      unsigned ew = tyWidth(d.I->getType()->getScalarType());
      r.agg       = std::make_shared<std::vector<Val>>();
      for (auto &x : *a[0].agg) r.agg->push_back(EV(P.fabs_(asF(x, ew))));
      return true;
    }
    r = EV(P.fabs_(asF(a[0], w)));
    return true;
  case Intrinsic::sqrt: {
    EP x = asF(a[0], w);
    if (P.theory == TH_REAL && !P.isFC(x) && !P.nonneg(x) && decide(S, P.fcmp(K_FLT, x, P.fc(0, w)))) { r = EV(P.fc(NAN, w)); return true; }
    r = EV(P.fun(K_FSQRT, x));
    return true;
  }
  case Intrinsic::floor: return un(K_FFLOOR);
  case Intrinsic::ceil: return un(K_FCEIL);
  case Intrinsic::trunc: return un(K_FTRUNCI);
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un(K_FRINT);
  case Intrinsic::fmuladd: case Intrinsic::fma:
    r = EV(P.fbin(K_FADD, P.fbin(K_FMUL, asF(a[0], w), asF(a[1], w)), asF(a[2], w)));
    return true;
  case Intrinsic::minnum: case Intrinsic::maxnum: {
    EP x = asF(a[0], w), y = asF(a[1], w);
    EP lt = P.fcmp(K_FLT, x, y);
    r     = EV(F->getIntrinsicID() == Intrinsic::minnum ? P.ite(lt, x, y) : P.ite(lt, y, x));
    return true;
  }
  case Intrinsic::copysign: {
    EP x = P.fabs_(asF(a[0], w)), y = asF(a[1], w);
    if (P.isFC(y)) { r = EV(std::signbit(y->d) ? P.fneg(x) : x); return true; }
    r = EV(P.ite(P.fcmp(K_FLT, y, P.fc(0, w)), P.fneg(x), x));
    return true;
  }
  case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::pow:
  case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
    static const std::map<Intrinsic::ID, std::string> nm{{Intrinsic::exp, "exp"}, {Intrinsic::log, "log"}, {Intrinsic::sin, "sin"}, {Intrinsic::cos, "cos"}, {Intrinsic::pow, "pow"}, {Intrinsic::exp2, "exp2"}, {Intrinsic::log2, "log2"}, {Intrinsic::log10, "log10"}};
    auto it = ext.find(nm.at(F->getIntrinsicID()));
    return it->second(S, d, a, r);
  }
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
    EP x = asI(a[0], w), y = asI(a[1], w);
    auto id = F->getIntrinsicID();
    bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::smax || id == Intrinsic::umax;
    EP lt   = P.cmp(sg ? K_SLT : K_ULT, x, y);
    r       = EV(mx ? P.ite(lt, y, x) : P.ite(lt, x, y));
    return true;
  }
  case Intrinsic::abs: {
    EP x = asI(a[0], w);
    r    = EV(P.ite(P.cmp(K_SLT, x, P.bvc(0, w)), P.bin(K_SUB, P.bvc(0, w), x), x));
    return true;
  }
  case Intrinsic::usub_sat: {
    EP x = asI(a[0], w), y = asI(a[1], w);
    r    = EV(P.ite(P.cmp(K_ULT, x, y), P.bvc(0, w), P.bin(K_SUB, x, y)));
    return true;
  }
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    unsigned ww = tyWidth(d.I->getOperand(0)->getType());
    EP x = asI(a[0], ww), y = asI(a[1], ww);
    auto id = F->getIntrinsicID();
    bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
    Kind k  = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow)   ? K_MUL
              : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_ADD
                                                                                             : K_SUB;
    unsigned w2 = k == K_MUL ? 2 * ww : ww + 1;
    if (w2 > 128) throw PathEnd{"unsupported", "wide overflow"};
    EP xe = sg ? P.sext(x, w2) : P.zext(x, w2), ye = sg ? P.sext(y, w2) : P.zext(y, w2);
    EP re = P.bin(k, xe, ye);
    EP rl = P.extract(re, 0, ww);
    EP ov = P.lnot(P.cmp(K_EQ, sg ? P.sext(rl, w2) : P.zext(rl, w2), re));
    r.agg = std::make_shared<std::vector<Val>>();
    r.agg->push_back(EV(rl));
    r.agg->push_back(EV(ov));
    return true;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
    u64 v = concretize(S, a[0], w, "bit count");
    auto id = F->getIntrinsicID();
    if (id == Intrinsic::ctpop) r = CV(__builtin_popcountll(v));
    else if (id == Intrinsic::ctlz) r = CV(v ? __builtin_clzll(v) - (64 - w) : w);
    else if (id == Intrinsic::cttz) r = CV(v ? __builtin_ctzll(v) : w);
    else throw PathEnd{"unsupported", "bswap"};
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    if (a[0].e || a[1].e || a[2].e || w > 64) throw PathEnd{"unsupported", "symbolic funnel shift"};
    unsigned sh = (unsigned)((u64)a[2].c % w);
    u128 x = (a[0].c << w) | a[1].c;
    r = CV((F->getIntrinsicID() == Intrinsic::fshl ? (x >> (w - sh)) : (x >> sh)) & ExprPool::mask(w));
    return true;
  }
  case Intrinsic::is_constant: r = CV(0); return true;
  case Intrinsic::objectsize: r = CV(ExprPool::mask(w)); return true;
  case Intrinsic::is_fpclass: {
    unsigned sw  = tyWidth(d.I->getOperand(0)->getType());
    u64 mask = (u64)a[1].c;
    EP x = asF(a[0], sw);
    EP res = P.bvc(0, 1);
    EP zero = P.fc(0, sw), inf = P.fc(INFINITY, sw), ninf = P.fc(-INFINITY, sw);
    if (mask & 3) res = P.lor(res, P.fcmp(K_UNO, x, x));
    if (mask & 0x200) res = P.lor(res, P.fcmp(K_FEQ, x, inf));
    if (mask & 4) res = P.lor(res, P.fcmp(K_FEQ, x, ninf));
    u64 fin = mask & 0x1f8;
    if (fin == 0x1f8) res = P.lor(res, P.land(P.fcmp(K_FLT, ninf, x), P.fcmp(K_FLT, x, inf)));
    else if (fin == 0x60) res = P.lor(res, P.fcmp(K_FEQ, x, zero));
    else if (fin) throw PathEnd{"unsupported", "is_fpclass"};
    r = EV(res);
    return true;
  }
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
    throw PathEnd{"error", "undefined-behaviour trap at " + where(S)};
  case Intrinsic::eh_typeid_for: r = CV(1); return true;
  case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: break;
  default: break;
  }
  throw PathEnd{"unsupported", "intrinsic " + F->getName().str()};
}

void Engine::execCall(State &S, DInst &d, Frame &f)
{
  std::vector<Val> args;
  unsigned na = cast<CallBase>(d.I)->arg_size();
  args.reserve(na);
  for (unsigned i = 0; i < na; ++i) args.push_back(d.ops[i].slot >= 0 ? f.regs[d.ops[i].slot] : d.ops[i].cv);
  Function *F = d.callee;
  if (!F && cast<CallBase>(d.I)->isInlineAsm()) {  // comments (EIGEN_ASM_COMMENT) and compiler barriers only
    StringRef as = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())->getAsmString();
    if (!d.I->getType()->isVoidTy() || !(as.empty() || as.starts_with("#"))) throw PathEnd{"unsupported", "inline assembly at " + where(S)};
    ++f.idx;
    return;
  }
  if (!F) {
    const Opnd &o = d.ops[na];
    u64 a         = concretize(S, o.slot >= 0 ? f.regs[o.slot] : o.cv, 64, "call target");
    auto it       = fnAt.find(a);
    if (it == fnAt.end()) throw PathEnd{"error", "call through an invalid pointer at " + where(S)};
    F = it->second;
  }
  auto done = [&](Val r) {
    Frame &g = S.st.back();
    if (d.dst >= 0) g.regs[d.dst] = std::move(r);
    if (d.op == Instruction::Invoke) enterBlock(g, d.succ[0]);
    else ++g.idx;
  };
  if (F->isIntrinsic()) {
    Function *save = d.callee;
    (void)save;
    Val r;
    intrinsic(S, d, args, r);
    done(r);
    return;
  }
  auto it = ext.find(F->getName().str());
  if (it != ext.end()) {
    Val r;
    size_t depth = S.st.size();
    if (it->second(S, d, args, r)) {
      if (S.st.size() == depth) done(r);
      return;
    }
  }
  if (F->isDeclaration()) {
    std::string n = F->getName().str();
    // stream output and locale machinery: modelled as no effect, returning the stream
    if (n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZSt16__ostream_insert", 0) == 0 || n.rfind("_ZStls", 0) == 0
        || n.rfind("_ZNSt8ios_base", 0) == 0 || n.rfind("_ZNSt9basic_ios", 0) == 0 || n.rfind("_ZSt4endl", 0) == 0) {
      externSeen.insert("stream:" + n);
      done(args.empty() ? CV(0) : args[0]);
      return;
    }
    throw PathEnd{"unsupported", "external function " + n};
  }
  FuncInfo *fi = info(F);
  pushCall(S, fi, std::move(args), d.dst);
}

// ---------- assertions ----------
std::unordered_map<EP, u128> Engine::modelInputs(State &S, z3::model &m, const std::vector<EP> &vars)
{
  std::unordered_map<EP, u128> r;
  for (EP v : vars) {
    z3::expr x = m.eval(smt->tr(v), true);
    if (!v->isF) {
      u128 c = 0;
      std::string s = x.get_decimal_string(0);
      for (char ch : s)
        if (ch >= '0' && ch <= '9') c = c * 10 + (ch - '0');
      r[v] = c;
    } else {
      double dv = 0;
      if (P.theory == TH_REAL) {
        std::string s = x.is_algebraic() ? z3::expr(smt->c, Z3_get_algebraic_number_lower(smt->c, x, 30)).get_decimal_string(40)
                                         : x.get_decimal_string(40);
        if (!s.empty() && s.back() == '?') s.pop_back();
        dv = strtod(s.c_str(), nullptr);
      } else {
        z3::expr bv = m.eval(z3::expr(smt->c, Z3_mk_fpa_to_ieee_bv(smt->c, x)), true).simplify();
        uint64_t u = 0;
        bv.is_numeral_u64(u);
        if (v->width == 32) { uint32_t u3 = (uint32_t)u; float ff; memcpy(&ff, &u3, 4); dv = ff; }
        else memcpy(&dv, &u, 8);
      }
      u64 u;
      memcpy(&u, &dv, 8);
      r[v] = u;
    }
  }
  return r;
}

std::vector<std::tuple<std::string, char, std::string>> Engine::inputList(State &S, z3::model &m)
{
  auto vals = modelInputs(S, m, S.inputs);
  std::vector<std::tuple<std::string, char, std::string>> out;
  for (EP v : S.inputs) {
    char buf[64];
    if (v->isF) {
      double dv;
      u64 u = (u64)vals[v];
      memcpy(&dv, &u, 8);
      snprintf(buf, sizeof buf, "%a", dv);
      out.push_back({P.names[v->name], 'd', buf});
    } else {
      snprintf(buf, sizeof buf, "%lld", (long long)ExprPool::sgn(vals[v], v->width));
      out.push_back({P.names[v->name], 'i', buf});
    }
  }
  return out;
}

// Evaluate an expression in machine arithmetic under concrete inputs. Doubles are returned as bits.
u128 Engine::evalE(EP root, std::unordered_map<EP, u128> &memo)
{
  std::vector<EP> stk{root};
  auto D = [&](EP x) { double d; u64 u = (u64)memo[x]; memcpy(&d, &u, 8); return d; };
  while (!stk.empty()) {
    EP x = stk.back();
    if (memo.count(x)) { stk.pop_back(); continue; }
    bool ready = true;
    kids(x, [&](EP c) { if (!memo.count(c)) { stk.push_back(c); ready = false; } });
    if (!ready) continue;
    stk.pop_back();
    u128 r = 0;
    double dr = 0;
    bool isd = x->isF;
    bool ok;
    switch (x->k) {
    case K_BVC: r = x->c; break;
    case K_FC: dr = x->d; break;
    case K_LIN: dr = x->d; for (auto &p : x->lin->t) dr += p.second * D(p.first); break;
    case K_BVV: case K_UNDEF: r = 0; break;
    case K_FV: dr = 0; break;
    case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_AND: case K_OR:
    case K_XOR: case K_SHL: case K_LSHR: case K_ASHR: r = ExprPool::foldBV(x->k, memo[x->a], memo[x->b], x->width, ok); break;
    case K_CONCAT: r = (memo[x->a] << x->b->width) | memo[x->b]; break;
    case K_EXTRACT: r = (memo[x->a] >> (unsigned)x->c) & ExprPool::mask(x->width); break;
    case K_ZEXT: r = memo[x->a]; break;
    case K_SEXT: r = (u128)ExprPool::sgn(memo[x->a], x->a->width) & ExprPool::mask(x->width); break;
    case K_EQ: r = memo[x->a] == memo[x->b]; break;
    case K_ULT: r = memo[x->a] < memo[x->b]; break;
    case K_ULE: r = memo[x->a] <= memo[x->b]; break;
    case K_SLT: r = ExprPool::sgn(memo[x->a], x->a->width) < ExprPool::sgn(memo[x->b], x->a->width); break;
    case K_SLE: r = ExprPool::sgn(memo[x->a], x->a->width) <= ExprPool::sgn(memo[x->b], x->a->width); break;
    case K_ITE: r = memo[x->a] ? memo[x->b] : memo[x->e]; isd = false; break;
    case K_FADD: dr = ExprPool::rnd(D(x->a) + D(x->b), x->width); break;
    case K_FSUB: dr = ExprPool::rnd(D(x->a) - D(x->b), x->width); break;
    case K_FMUL: dr = ExprPool::rnd(D(x->a) * D(x->b), x->width); break;
    case K_FDIV: dr = ExprPool::rnd(D(x->a) / D(x->b), x->width); break;
    case K_FREM: dr = std::fmod(D(x->a), D(x->b)); break;
    case K_FNEG: dr = -D(x->a); break;
    case K_FABS: dr = std::fabs(D(x->a)); break;
    case K_FSQRT: dr = ExprPool::rnd(std::sqrt(D(x->a)), x->width); break;
    case K_FEXT: dr = D(x->a); break;
    case K_FTRUNC: dr = ExprPool::rnd(D(x->a), x->width); break;
    case K_SI2F: dr = ExprPool::rnd((double)(long long)ExprPool::sgn(memo[x->a], x->a->width), x->width); break;
    case K_UI2F: dr = ExprPool::rnd((double)(unsigned long long)memo[x->a], x->width); break;
    case K_F2SI: r = (u128)(__int128)(long long)D(x->a) & ExprPool::mask(x->width); break;
    case K_F2UI: r = (u128)(unsigned long long)D(x->a) & ExprPool::mask(x->width); break;
    case K_FLT: r = D(x->a) < D(x->b); break;
    case K_FLE: r = D(x->a) <= D(x->b); break;
    case K_FEQ: r = D(x->a) == D(x->b); break;
    case K_UNO: r = std::isnan(D(x->a)) || std::isnan(D(x->b)); break;
    case K_F2BITS:
      if (x->width == 32) { float ff = (float)D(x->a); uint32_t u; memcpy(&u, &ff, 4); r = u; }
      else r = memo[x->a];
      break;
    case K_BITS2F:
      if (x->width == 32) { uint32_t u = (uint32_t)memo[x->a]; float ff; memcpy(&ff, &u, 4); dr = ff; }
      else { r = memo[x->a]; isd = false; }
      break;
    case K_FFLOOR: dr = std::floor(D(x->a)); break;
    case K_FCEIL: dr = std::ceil(D(x->a)); break;
    case K_FRINT: dr = std::nearbyint(D(x->a)); break;
    case K_FTRUNCI: dr = std::trunc(D(x->a)); break;
    case K_FCALL: {
      const std::string &n = P.names[x->name];
      double v = D(x->a);
      dr = n == "exp" ? std::exp(v) : n == "log" ? std::log(v) : n == "sin" ? std::sin(v) : n == "cos" ? std::cos(v)
         : n == "tan" ? std::tan(v) : n == "log2" ? std::log2(v) : n == "log10" ? std::log10(v) : n == "exp2" ? std::exp2(v)
         : n == "pow" ? std::pow(v, D(x->b)) : n == "atan2" ? std::atan2(v, D(x->b)) : 0;
      break;
    }
    }
    if (isd) { u64 u; memcpy(&u, &dr, 8); r = u; }
    memo[x] = r;
  }
  return memo[root];
}
double Engine::evalD(EP e, std::unordered_map<EP, u128> &memo)
{
  u64 u = (u64)evalE(e, memo);
  double d;
  memcpy(&d, &u, 8);
  return d;
}

void Engine::addCandidate(State &S, const std::string &msg, const std::string &kind, std::shared_ptr<z3::model> m,
                          std::vector<EP> extra)
{
  if ((int)cands.size() >= maxCands * 4 || candPerMsg[msg] >= maxCands) return;
  ++candPerMsg[msg];
  double tStart = nowS(), u = 0.31;
  // Prefer short binary fractions, which survive the trip back to machine arithmetic.
  std::vector<EP> cond = extra;
  if (P.theory == TH_REAL) {
    for (EP v : S.inputs) {
      if (!v->isF || nowS() - tStart > 15) continue;
      auto vals = modelInputs(S, *m, {v});
      double dv;
      u64 u = (u64)vals[v];
      memcpy(&dv, &u, 8);
      for (double q : {1.0, 16.0, 1024.0, 1048576.0}) {
        double r = std::nearbyint(dv * q) / q;
        if (!std::isfinite(r)) break;
        EP c = P.fcmp(K_FEQ, v, P.fc(r, 64));
        auto c2 = cond;
        c2.push_back(c);
        std::shared_ptr<z3::model> m2;
        if (smt->check(S.pc, c2, &m2, 1000) == z3::sat) {
          cond = c2;
          m    = m2;
          break;
        }
      }
    }
  }
  Candidate c;
  c.msg    = msg;
  c.kind   = kind;
  c.inputs = inputList(S, *m);
  // does it also violate in machine arithmetic?
  auto memo  = modelInputs(S, *m, S.inputs);
  c.doubleOk = true;
  for (PCNode *n = S.pc.get(); n; n = n->prev.get())
    if (!evalE(n->cond, memo)) { c.doubleOk = false; break; }
  for (EP e : extra)
    if (!evalE(e, memo)) c.doubleOk = false;
  cands.push_back(c);
  // A rounding error chosen by the solver seldom is the one of the machine: offer generic inputs too.
  if (singleOf.empty() && doubleOf.empty()) return;
  for (int t = 0; t < 5 && nowS() - tStart < 20; ++t) {
    cond = extra;
    for (EP v : S.inputs) {
      u += 0.6180339887498949;
      u -= std::floor(u);
      std::pair<double, double> r;
      if (v->isF) r = P.interval(v);
      else if (P.ibox.count(v)) r = P.ibox[v];
      else continue;
      double x = std::nearbyint((r.first + (r.second - r.first) * u) * 1024.) / 1024.;
      if (!std::isfinite(x) || std::fabs(x) > 9e18) continue;
      EP e = v->isF ? P.fcmp(K_FEQ, v, P.fc(x, 64)) : P.cmp(K_EQ, v, P.bvc((u64)((long long)x | (1 + 2 * t)), v->width));
      auto c2 = cond;
      c2.push_back(e);
      std::shared_ptr<z3::model> m2;
      if (smt->check(S.pc, c2, &m2, 1000) == z3::sat) { cond = c2; m = m2; }
    }
    Candidate g = c;
    g.inputs    = inputList(S, *m);
    g.doubleOk  = false;
    cands.push_back(g);
  }
}

bool Engine::smtCheck(State &S, EP cond, const std::string &msg)
{
  ++checks;
  ++chkMsgs[msg];
  if (P.isC(cond)) {
    if (cond->c) { ++chkStruct; return true; }
  } else {
    auto k = S.known.find(cond);
    if (k != S.known.end() && k->second) { ++chkStruct; return true; }
  }
  if (candPerMsg[msg] >= maxCands) { ++chkCex; return false; }
  EP nc = P.lnot(cond);
  std::shared_ptr<z3::model> m;
  z3::check_result r = z3::unknown;
  if (S.model && smt->evalIn(*S.model, nc) == 1) { r = z3::sat; m = S.model; }
  if (r == z3::unknown) r = smt->check(S.pc, {nc}, &m, smt->tAssert);
  if (r == z3::unknown && !smt->nlAll(S.pc, {nc}).empty()) r = smt->checkHard(S.pc, {nc}, &m, smt->tAssert);
  if (r == z3::unsat) { ++chkProved; return true; }
  if (r == z3::sat) {
    ++chkCex;
    if (debug) fprintf(stderr, "cex: %s\n", msg.c_str());
    addCandidate(S, msg, "assertion", m, {nc});
    return false;
  }
  ++chkUnknown;
  if (notes.size() < 20) notes.push_back("undecided: " + msg);
  return true;
}

EP Engine::deriv(EP f, EP x)
{
  std::vector<EP> stk{f};
  auto key = [&](EP e) { return ((u64)e->id << 32) | x->id; };
  auto G   = [&](EP e) { return dcache.at(key(e)); };
  while (!stk.empty()) {
    EP e = stk.back();
    if (dcache.count(key(e))) { stk.pop_back(); continue; }
    bool ready = true;
    kids(e, [&](EP c) { if (c->isF && !dcache.count(key(c))) { stk.push_back(c); ready = false; } });
    if (!ready) continue;
    stk.pop_back();
    unsigned w = 64;
    EP z = P.fc(0, w), r = z;
    switch (e->k) {
    case K_FC: r = z; break;
    case K_FV: r = P.fc(e == x ? 1 : 0, w); break;
    case K_LIN: for (auto &p : e->lin->t) r = P.fbin(K_FADD, r, P.fbin(K_FMUL, P.fc(p.second, w), G(p.first))); break;
    case K_FADD: r = P.fbin(K_FADD, G(e->a), G(e->b)); break;
    case K_FSUB: r = P.fbin(K_FSUB, G(e->a), G(e->b)); break;
    case K_FNEG: r = P.fneg(G(e->a)); break;
    case K_FMUL: r = P.fbin(K_FADD, P.fbin(K_FMUL, G(e->a), e->b), P.fbin(K_FMUL, e->a, G(e->b))); break;
    case K_FDIV:
      r = P.fbin(K_FDIV, P.fbin(K_FSUB, G(e->a), P.fbin(K_FMUL, e, G(e->b))), e->b);
      break;
    case K_FSQRT: r = P.fbin(K_FDIV, G(e->a), P.fbin(K_FMUL, P.fc(2, w), e)); break;
    case K_ITE: r = P.ite(e->a, G(e->b), G(e->e)); break;
    case K_FABS: r = P.ite(P.fcmp(K_FLT, e->a, z), P.fneg(G(e->a)), G(e->a)); break;
    case K_FCALL: {
      const std::string &n = P.names[e->name];
      if (n == "sin") r = P.fbin(K_FMUL, P.fcall("cos", e->a, nullptr, w), G(e->a));
      else if (n == "cos") r = P.fneg(P.fbin(K_FMUL, P.fcall("sin", e->a, nullptr, w), G(e->a)));
      else if (n == "exp") r = P.fbin(K_FMUL, e, G(e->a));
      else throw PathEnd{"unsupported", "derivative of " + n};
      break;
    }
    default: throw PathEnd{"unsupported", "derivative"};
    }
    dcache[key(e)] = r;
  }
  return G(f);
}

void Engine::setupExt()
{
  auto &X = ext;
  auto allocFn = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    u64 n = concretize(S, a[0], 64, "allocation size");
    r     = CV(alloc(S, n, 'h'));
    return true;
  };
  auto freeFn = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    u64 p = concretize(S, a[0], 64, "free");
    if (!p) return true;
    ObjP *o = findObj(S, p);
    if (!o || (*o)->base != p || (*o)->kind != 'h') throw PathEnd{"error", "invalid free at " + where(S)};
    if ((*o)->freed) throw PathEnd{"error", "double free at " + where(S)};
    auto n   = std::make_shared<Obj>();
    n->base  = p;
    n->size  = (*o)->size;
    n->freed = true;
    n->kind  = 'h';
    *o       = n;
    return true;
  };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t"}) X[n] = allocFn;
  for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) X[n] = allocFn;
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) X[n] = freeFn;
  X["calloc"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    u64 n = concretize(S, a[0], 64, "calloc") * concretize(S, a[1], 64, "calloc");
    r     = CV(alloc(S, n, 'h', "", true));
    return true;
  };
  X["realloc"] = [this, freeFn](State &S, DInst &d, std::vector<Val> &a, Val &r) {
    u64 p = concretize(S, a[0], 64, "realloc"), n = concretize(S, a[1], 64, "realloc size");
    u64 q = alloc(S, n, 'h');
    if (p) {
      u64 os = objFor(S, p, 0, false).size;
      copyMem(S, q, p, std::min(os, n));
      Val t;
      freeFn(S, d, a, t);
    }
    r = CV(q);
    return true;
  };
  auto mcpy = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    u64 d = concretize(S, a[0], 64, "memcpy"), s = concretize(S, a[1], 64, "memcpy"), n = concretize(S, a[2], 64, "memcpy");
    copyMem(S, d, s, n);
    r = a[0];
    return true;
  };
  X["memcpy"] = mcpy;
  X["memmove"] = mcpy;
  X["strlen"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) { r = CV(cstr(S, concretize(S, a[0], 64, "strlen")).size()); return true; };
  auto memcmpFn = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    u64 p = concretize(S, a[0], 64, "memcmp"), q = concretize(S, a[1], 64, "memcmp"), n = concretize(S, a[2], 64, "memcmp");
    int res = 0;
    for (u64 i = 0; i < n && !res; ++i) {
      u64 x = concretize(S, loadVal(S, p + i, 1), 8, "memcmp"), y = concretize(S, loadVal(S, q + i, 1), 8, "memcmp");
      res = x < y ? -1 : x > y ? 1 : 0;
    }
    r = CV((u128)(int64_t)res & ExprPool::mask(32));
    return true;
  };
  X["memcmp"] = memcmpFn;
  X["bcmp"] = memcmpFn;
  X["strcmp"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    int c = cstr(S, concretize(S, a[0], 64, "s")).compare(cstr(S, concretize(S, a[1], 64, "s")));
    r = CV((u128)(int64_t)c & ExprPool::mask(32));
    return true;
  };
  auto noop = [](State &, DInst &, std::vector<Val> &, Val &r) { r = CV(0); return true; };
  for (auto n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_release_x"}) X[n] = noop;
  X["__cxa_guard_acquire"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    Val b = loadVal(S, (u64)a[0].c, 1);
    r     = CV(b.c ? 0 : 1);
    return true;
  };
  X["__cxa_guard_release"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) { storeVal(S, (u64)a[0].c, CV(1), 1, 8); return true; };
  X["__cxa_guard_abort"] = noop;
  auto err = [this](const std::string &m) {
    return [this, m](State &S, DInst &, std::vector<Val> &, Val &) -> bool { throw PathEnd{"error", m + " at " + where(S)}; };
  };
  X["abort"] = err("abort");
  X["exit"] = err("exit");
  X["__cxa_throw"] = err("exception thrown");
  X["__cxa_rethrow"] = err("exception thrown");
  X["__cxa_pure_virtual"] = err("pure virtual call");
  X["_ZSt9terminatev"] = err("terminate");
  X["__clang_call_terminate"] = err("terminate");
  for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt25__throw_bad_function_callv", "_ZSt28__throw_bad_array_new_lengthv",
                 "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt27__throw_bad_optional_accessv",
                 "_ZSt24__throw_invalid_argumentPKc"})
    X[n] = err("exception thrown");
  X["__cxa_allocate_exception"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) { r = CV(alloc(S, 1024, 'h')); return true; };
  X["__cxa_free_exception"] = noop;
  X["__cxa_begin_catch"] = err("exception caught");
  X["__assert_fail"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) -> bool {
    throw PathEnd{"error", "assertion failed: " + cstr(S, (u64)a[0].c) + " at " + where(S)};
  };
  X["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = err("libstdc++ assertion failed");
  // math
  for (std::string n : {"exp", "log", "sin", "cos", "tan", "log2", "log10", "exp2"})
    X[n] = [this, n](State &S, DInst &, std::vector<Val> &a, Val &r) {
      if (!a[0].e) {
        double v = cD(a[0]);
        r = fromD(n == "exp" ? std::exp(v) : n == "log" ? std::log(v) : n == "sin" ? std::sin(v) : n == "cos" ? std::cos(v)
                : n == "tan" ? std::tan(v) : n == "log2" ? std::log2(v) : n == "log10" ? std::log10(v) : std::exp2(v));
        return true;
      }
      r = EV(P.fcall(n, asF(a[0], 64), nullptr, 64));
      return true;
    };
  for (std::string n : {"pow", "atan2"})
    X[n] = [this, n](State &S, DInst &, std::vector<Val> &a, Val &r) {
      if (!a[0].e && !a[1].e) { r = fromD(n == "pow" ? std::pow(cD(a[0]), cD(a[1])) : std::atan2(cD(a[0]), cD(a[1]))); return true; }
      if (n == "pow" && !a[1].e) {
        double k = cD(a[1]);
        if (k == std::floor(k) && k >= 0 && k <= 16) {
          EP x = asF(a[0], 64), p = P.fc(1, 64);
          for (int i = 0; i < (int)k; ++i) p = P.fbin(K_FMUL, p, x);
          r = EV(p);
          return true;
        }
      }
      r = EV(P.fcall(n, asF(a[0], 64), asF(a[1], 64), 64));
      return true;
    };
  X["lround"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    if (!a[0].e) {
      if (!(std::fabs(cD(a[0])) < 9e18)) throw PathEnd{"error", "lround out of range at " + where(S)};
      r = CV((u64)std::lround(cD(a[0])));
      return true;
    }
    EP x = asF(a[0], 64), t = P.fun(K_FFLOOR, P.fbin(K_FADD, P.fabs_(x), P.fc(0.5, 64)));
    r = EV(P.f2i(P.ite(P.fcmp(K_FLT, x, P.fc(0, 64)), P.fneg(t), t), 64, true));
    return true;
  };
  X["llround"] = X["lround"];
  X["sqrt"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    EP x = asF(a[0], 64);
    if (P.theory == TH_REAL && !P.isFC(x) && !P.nonneg(x) && decide(S, P.fcmp(K_FLT, x, P.fc(0, 64)))) { r = fromD(NAN); return true; }
    r = EV(P.fun(K_FSQRT, x));
    return true;
  };
  X["fabs"]  = [this](State &, DInst &, std::vector<Val> &a, Val &r) { r = EV(P.fabs_(asF(a[0], 64))); return true; };
  X["floor"] = [this](State &, DInst &, std::vector<Val> &a, Val &r) { r = EV(P.fun(K_FFLOOR, asF(a[0], 64))); return true; };
  X["ceil"]  = [this](State &, DInst &, std::vector<Val> &a, Val &r) { r = EV(P.fun(K_FCEIL, asF(a[0], 64))); return true; };
  X["fmod"]  = [this](State &, DInst &, std::vector<Val> &a, Val &r) { r = EV(P.fbin(K_FREM, asF(a[0], 64), asF(a[1], 64))); return true; };
  // clock: mode 0 stands still, mode 1 arbitrary non-decreasing instants
  X["_ZNSt6chrono3_V212system_clock3nowEv"] = [this](State &S, DInst &, std::vector<Val> &, Val &r) {
    if (S.clockMode == 0) { r = CV(1000000000); return true; }
    if (S.clockMode == 2) { r = CV(1000000000 + 1000 * (u64)++S.clockN); return true; }
    EP v = P.bvv("clock" + std::to_string(S.clockN++), 64);
    EP prev = S.clockE ? S.clockE : P.bvc(0, 64);
    S.inputs.push_back(v);
    S.model.reset();
    EP c = P.land(P.cmp(K_SLE, prev, v), P.cmp(K_SLT, v, P.bvc((u128)1 << 60, 64)));
    std::shared_ptr<z3::model> m;
    smt->check(S.pc, {c}, &m, smt->tBranch);
    addPC(S, c, m);
    S.clockE = v;
    r = EV(v);
    return true;
  };
  X["_ZNSt6chrono3_V212steady_clock3nowEv"] = X["_ZNSt6chrono3_V212system_clock3nowEv"];

  // harness interface
  auto uniq = [](State &S, const std::string &n) {
    int k = S.nameCtr[n]++;
    return n + "#" + std::to_string(k);
  };
  X["sx_real"] = [this, uniq](State &S, DInst &, std::vector<Val> &a, Val &r) {
    std::string n = uniq(S, cstr(S, (u64)a[0].c));
    double lo = cD(a[1]), hi = cD(a[2]);
    EP v = P.fv(n, 64);
    S.inputs.push_back(v);
    P.useBox = false;  // the box itself has to be asserted
    EP c = P.land(P.fcmp(K_FLE, P.fc(lo, 64), v), P.fcmp(K_FLE, v, P.fc(hi, 64)));
    P.useBox = true;
    if (P.theory == TH_REAL) P.setBox(v, lo, hi);
    std::shared_ptr<z3::model> m;
    if (!P.isC(c)) {
      auto q = smt->check(S.pc, {c}, &m, smt->tBranch);
      if (q == z3::unsat) throw PathEnd{"infeasible", ""};
    } else m = S.model;
    addPC(S, c, m);
    r = EV(v);
    return true;
  };
  X["sx_any"] = [this, uniq](State &S, DInst &, std::vector<Val> &a, Val &r) {
    EP v = P.fv(uniq(S, cstr(S, (u64)a[0].c)), 64);
    S.inputs.push_back(v);
    r = EV(v);
    return true;
  };
  X["sx_int"] = [this, uniq](State &S, DInst &, std::vector<Val> &a, Val &r) {
    EP v = P.bvv(uniq(S, cstr(S, (u64)a[0].c)), 64);
    S.inputs.push_back(v);
    if (P.isC(asI(a[1], 64)) && P.isC(asI(a[2], 64))) {
      double lo = (double)(long long)asI(a[1], 64)->c, hi = (double)(long long)asI(a[2], 64)->c;
      auto it = P.ibox.find(v);
      if (it == P.ibox.end()) P.ibox[v] = {lo, hi};
      else it->second = {std::min(lo, it->second.first), std::max(hi, it->second.second)};
    }
    EP c = P.land(P.cmp(K_SLE, asI(a[1], 64), v), P.cmp(K_SLE, v, asI(a[2], 64)));
    std::shared_ptr<z3::model> m;
    auto q = smt->check(S.pc, {c}, &m, smt->tBranch);
    if (q == z3::unsat) throw PathEnd{"infeasible", ""};
    addPC(S, c, m);
    r = EV(v);
    return true;
  };
  X["sx_concrete"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) { r = CV(concretize(S, a[0], 64, "sx_concrete")); return true; };
  X["sx_param"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    auto it = params.find(cstr(S, (u64)a[0].c));
    r       = it == params.end() ? a[1] : CV((u128)(u64)it->second);
    return true;
  };
  X["sx_symbolic"] = [](State &, DInst &, std::vector<Val> &, Val &r) { r = CV(1); return true; };
  X["sx_clock"] = [](State &S, DInst &, std::vector<Val> &a, Val &) { S.clockMode = (int)a[0].c; return true; };
  X["sx_assume"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    if (!a[0].e) { if (!(uint32_t)a[0].c) throw PathEnd{"infeasible", ""}; return true; }
    EP c = P.lnot(P.cmp(K_EQ, asI(a[0], 32), P.bvc(0, 32)));
    if (P.isC(c)) { if (!c->c) throw PathEnd{"infeasible", ""}; return true; }
    std::shared_ptr<z3::model> m;
    int q = feasible(S, c, m);
    if (q == 0) throw PathEnd{"infeasible", ""};
    if (q < 0) S.sure = false;
    addPC(S, c, m);
    return true;
  };
  X["sx_check"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    EP c = a[0].e ? P.lnot(P.cmp(K_EQ, asI(a[0], 32), P.bvc(0, 32))) : P.bvc((uint32_t)a[0].c != 0, 1);
    smtCheck(S, c, cstr(S, (u64)a[1].c));
    return true;
  };
  X["sx_check_le"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    EP x = asF(a[0], 64), y = P.fbin(K_FADD, asF(a[1], 64), asF(a[2], 64));
    smtCheck(S, P.fcmp(K_FLE, x, y), cstr(S, (u64)a[3].c));
    return true;
  };
  X["sx_check_eq"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    EP x = asF(a[0], 64), y = asF(a[1], 64), t = asF(a[2], 64);
    std::string msg = cstr(S, (u64)a[3].c);
    if (x == y) {
      bool nan = P.isFC(x) && std::isnan(x->d);
      smtCheck(S, P.bvc(!nan, 1), msg);
      return true;
    }
    EP df = P.fbin(K_FSUB, x, y);
    if (P.isFC(x) && P.isFC(y) && x->d == y->d) { smtCheck(S, P.bvc(1, 1), msg); return true; }
    EP c  = P.land(P.fcmp(K_FLE, df, t), P.fcmp(K_FLE, P.fneg(t), df));
    smtCheck(S, c, msg);
    return true;
  };
  X["sx_check_same"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    EP x = asF(a[0], 64), y = asF(a[1], 64);
    std::string msg = cstr(S, (u64)a[2].c);
    if (x == y) { smtCheck(S, P.bvc(1, 1), msg); return true; }
    EP bothNan = P.land(P.fcmp(K_UNO, x, x), P.fcmp(K_UNO, y, y));
    smtCheck(S, P.lor(P.fcmp(K_FEQ, x, y), bothNan), msg);
    return true;
  };
  X["sx_finite"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    EP x = asF(a[0], 64);
    if (P.isFC(x)) { r = CV(std::isfinite(x->d)); return true; }
    if (P.theory == TH_REAL) { r = CV(1); return true; }
    r = EV(P.zext(P.land(P.fcmp(K_FLT, P.fc(-INFINITY, 64), x), P.fcmp(K_FLT, x, P.fc(INFINITY, 64))), 32));
    return true;
  };
  X["sx_partial_"] = [this](State &S, DInst &, std::vector<Val> &a, Val &r) {
    EP fx = asF(a[0], 64), x = asF(a[1], 64);
    if (x->k != K_FV) throw PathEnd{"unsupported", "derivative with respect to a non-input"};
    r = EV(deriv(fx, x));
    return true;
  };
  X["sx_observe"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) {
    std::string on = cstr(S, (u64)a[0].c);
    on += "#" + std::to_string(S.nameCtr["obs:" + on]++);
    S.obs.push_back({on, asF(a[1], 64)});
    return true;
  };
  X["sx_cover"] = [this](State &S, DInst &, std::vector<Val> &a, Val &) { S.trail.push_back(cstr(S, (u64)a[0].c)); return true; };
  X["sx_stop"] = [](State &, DInst &, std::vector<Val> &, Val &) -> bool { throw PathEnd{"ok", ""}; };
}

void Engine::finishPath(State &S, const PathEnd &pe)
{
  ++paths;
  totalSteps += S.steps;
  ++endKinds[pe.kind];
  if (pe.kind == "infeasible") { ++infeasible; return; }
  if (pe.kind == "unsupported") {
    ++unsupported;
    if (notes.size() < 20) notes.push_back("unsupported: " + pe.msg);
    return;
  }
  if (pe.kind == "limit") {
    ++limitPaths;
    if (notes.size() < 20) notes.push_back("limit: " + pe.msg);
    if (pe.msg != "step limit") return;
  }
  std::shared_ptr<z3::model> m;
  bool haveModel = false;
  bool needModel = pe.kind == "error" || pe.kind == "limit" || (int)witnesses.size() < maxWitness;
  auto r         = z3::unknown;
  if (S.model) { r = z3::sat; m = S.model; }
  else if (pe.kind != "ok") r = smt->check(S.pc, {}, &m, smt->tAssert);
  else if (needModel || !S.sure) r = smt->check(S.pc, {}, &m, std::min(smt->tAssert, hardWit < 3 ? 2000u : 300u));
  if (r == z3::unknown && needModel && (pe.kind == "error" || pe.kind == "limit" || hardWit++ < 2))
    r = smt->checkHard(S.pc, {}, &m, pe.kind == "error" || pe.kind == "limit" ? smt->tAssert : std::min(smt->tAssert, 2000u));
  if (r == z3::unsat) { ++infeasible; --endKinds[pe.kind]; ++endKinds["infeasible"]; return; }
  haveModel = r == z3::sat;
  if (pe.kind == "error" || pe.kind == "limit") {
    ++checks;
    std::string msg = pe.kind == "limit" ? "no termination within the step bound" : pe.msg;
    if (haveModel) { ++chkCex; addCandidate(S, msg, pe.kind == "limit" ? "nontermination" : "crash", m, {}); }
    else ++chkUnknown;
    return;
  }
  ++pathsOk;
  if (!haveModel) ++unconfirmed;
  if (haveModel || S.sure)
    for (auto &t : S.trail) ++cover[t];
  if (haveModel) {
    if ((int)witnesses.size() < maxWitness) {
      // concrete witness of this path with expected observations, to be replayed natively
      auto in = inputList(S, *m);
      auto memo = modelInputs(S, *m, S.inputs);
      bool pcOk = true;
      for (PCNode *n = S.pc.get(); n; n = n->prev.get())
        if (!evalE(n->cond, memo)) { pcOk = false; break; }
      if (pcOk) {
        std::string w;
        for (auto &t : in) w += "in " + std::get<0>(t) + " " + std::get<1>(t) + " " + std::get<2>(t) + "\n";
        for (auto &o : S.obs) {
          char buf[64];
          snprintf(buf, sizeof buf, "%a", evalD(o.second, memo));
          w += "obs " + o.first + " " + buf + "\n";
        }
        for (auto &t : S.trail) w += "cover " + t + "\n";
        witnesses.push_back(w);
      }
    }
  }
}

void Engine::runPath(State &S)
{
  try {
    long lastT = 0;
    for (;;) {
      if (S.steps - lastT > 200000) {
        lastT = S.steps;
        if (nowS() > deadline) { timedOut = true; throw PathEnd{"limit", "time budget"}; }
        if (S.steps > maxSteps) throw PathEnd{"limit", "step limit"};
      }
      step(S);
    }
  } catch (PathEnd &pe) {
    if (debug) fprintf(stderr, "path end: %s %s (steps %ld)\n", pe.kind.c_str(), pe.msg.c_str(), S.steps);
    try { finishPath(S, pe); } catch (Unsupported &u) { ++unsupported; notes.push_back(std::string("unsupported: ") + u.what()); }
  } catch (Unsupported &u) {
    PathEnd pe{"unsupported", u.what()};
    ++paths;
    ++unsupported;
    if (notes.size() < 20) notes.push_back("unsupported: " + pe.msg + " at " + where(S));
    if (debug) fprintf(stderr, "unsupported %s at %s\n", u.what(), where(S).c_str());
  } catch (z3::exception &e) {
    ++paths;
    ++unsupported;
    if (notes.size() < 20) notes.push_back(std::string("z3: ") + e.msg());
  }
}

void Engine::run(const std::string &entry)
{
  t0 = nowS();
  Function *F = M->getFunction(entry);
  if (!F) { fprintf(stderr, "no function %s\n", entry.c_str()); exit(3); }
  State S0;
  S0.mem      = initMem;
  S0.nextAddr = initNext;
  // static initialisers
  if (GlobalVariable *ctors = M->getGlobalVariable("llvm.global_ctors"))
    if (auto *arr = dyn_cast<ConstantArray>(ctors->getInitializer()))
      for (auto &op : arr->operands()) {
        auto *cf = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1));
        if (!cf) continue;
        pushCall(S0, info(cf), {}, -1);
        try {
          while (!S0.st.empty()) step(S0);
        } catch (PathEnd &pe) {
          if (pe.kind != "ok") { fprintf(stderr, "static init: %s %s\n", pe.kind.c_str(), pe.msg.c_str()); exit(3); }
        }
        S0.st.clear();
      }
  pushCall(S0, info(F), {}, -1);
  work.push_back(std::move(S0));
  while (!work.empty()) {
    if (nowS() > deadline) { timedOut = true; break; }
    if (paths >= maxPaths) { notes.push_back("path bound"); break; }
    State S = std::move(work.back());
    work.pop_back();
    runPath(S);
  }
}

static std::string js(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

void Engine::writeResult(const std::string &path, const std::string &entry, int extraPending)
{
  // repository functions and lines whose code was executed
  std::set<std::string> fns;
  std::map<std::string, std::set<int>> lines;
  for (auto &kv : finfo)
    for (auto &b : kv.second->blocks)
      for (auto &d : b.ins)
        if (d.hit && d.I->getDebugLoc())
          for (DILocation *L = d.I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
            std::string fn = L->getFilename().str();
            auto p = fn.find("smooth/feedback/");
            if (p == std::string::npos) continue;
            lines[fn.substr(p)].insert(L->getLine());
            if (auto *sp = L->getScope()->getSubprogram()) {
              std::string nm = sp->getName().str();
              auto q = nm.find('<');
              if (q != std::string::npos && nm.rfind("operator", 0) != 0) nm = nm.substr(0, q);
              fns.insert(fn.substr(p + 16) + ":" + nm);
            }
          }
  std::ofstream o(path);
  o << "{\"entry\":" << js(entry) << ",\"paths\":" << paths << ",\"paths_ok\":" << pathsOk << ",\"unconfirmed\":" << unconfirmed << ",\"forks\":" << forks
    << ",\"steps\":" << totalSteps << ",\"checks\":" << checks << ",\"structural\":" << chkStruct << ",\"proved\":" << chkProved
    << ",\"cex\":" << chkCex << ",\"undecided\":" << chkUnknown << ",\"infeasible\":" << infeasible << ",\"unsupported\":" << unsupported
    << ",\"limit\":" << limitPaths << ",\"pending\":" << work.size() + extraPending << ",\"timed_out\":" << (timedOut ? "true" : "false")
    << ",\"queries\":" << smt->st.queries << ",\"q_sat\":" << smt->st.sat << ",\"q_unsat\":" << smt->st.unsat << ",\"q_unknown\":" << smt->st.unknown
    << ",\"solver_s\":" << smt->st.time << ",\"wall_s\":" << nowS() - t0 << ",\"exprs\":" << P.store.size();
  o << ",\"notes\":[";
  for (size_t i = 0; i < notes.size(); ++i) o << (i ? "," : "") << js(notes[i]);
  o << "],\"cover\":{";
  bool first = true;
  for (auto &kv : cover) { o << (first ? "" : ",") << js(kv.first) << ":" << kv.second; first = false; }
  o << "},\"check_msgs\":{";
  first = true;
  for (auto &kv : chkMsgs) { o << (first ? "" : ",") << js(kv.first) << ":" << kv.second; first = false; }
  o << "},\"functions\":[";
  first = true;
  for (auto &s : fns) { o << (first ? "" : ",") << js(s); first = false; }
  o << "],\"lines\":{";
  first = true;
  for (auto &kv : lines) { o << (first ? "" : ",") << js(kv.first) << ":" << kv.second.size(); first = false; }
  o << "},\"candidates\":[";
  for (size_t i = 0; i < cands.size(); ++i) {
    auto &c = cands[i];
    o << (i ? "," : "") << "{\"msg\":" << js(c.msg) << ",\"kind\":" << js(c.kind) << ",\"double_ok\":" << (c.doubleOk ? "true" : "false") << ",\"inputs\":[";
    for (size_t k = 0; k < c.inputs.size(); ++k)
      o << (k ? "," : "") << "[" << js(std::get<0>(c.inputs[k])) << ",\"" << std::get<1>(c.inputs[k]) << "\"," << js(std::get<2>(c.inputs[k])) << "]";
    o << "]}";
  }
  o << "],\"witnesses\":[";
  for (size_t i = 0; i < witnesses.size(); ++i) o << (i ? "," : "") << js(witnesses[i]);
  o << "]}\n";
}

int main(int argc, char **argv)
{
  Engine E;
  std::string bc, entry, out = "/dev/stdout";
  double budget = 1e9;
  unsigned tb = 3000, ta = 20000;
  int E_coefBits = 40;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx       = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--theory") { if (nx() == "fp") E.P.theory = TH_FP; }
    else if (a == "--budget") budget = std::stod(nx());
    else if (a == "--tbranch") tb = std::stoi(nx());
    else if (a == "--tassert") ta = std::stoi(nx());
    else if (a == "--max-steps") E.maxSteps = std::stol(nx());
    else if (a == "--max-paths") E.maxPaths = std::stol(nx());
    else if (a == "--witness") E.maxWitness = std::stoi(nx());
    else if (a == "--param") { std::string p = nx(); auto q = p.find('='); E.params[p.substr(0, q)] = std::stol(p.substr(q + 1)); }
    else if (a == "--coef-bits") E_coefBits = std::stoi(nx());
    else if (a == "--fork-select") E.forkSelect = true;
    else if (a == "--no-expand") E.P.expand = false;
    else if (a == "--max-expand") E.P.maxExpand = std::stoul(nx());
    else if (a == "--debug") E.debug = true;
    else bc = a;
  }
  E.smt          = std::make_unique<Smt>(E.P);
  E.smt->coefBits = E_coefBits;
  E.smt->tBranch = tb;
  E.smt->tAssert = ta;
  try {
    if (!E.load(bc)) return 3;
  } catch (PathEnd &p) {
    fprintf(stderr, "load: %s\n", p.msg.c_str());
    return 3;
  }
  E.setupExt();
  E.deadline = nowS() + budget;
  // nonlinear solver calls do not always honour their timeout; when one overruns the budget the
  // results so far are reported and the rest counts as not covered
  std::thread wd([&] {
    for (;;) {
      std::this_thread::sleep_for(std::chrono::milliseconds(500));
      double q = E.smt->busySince;
      if ((nowS() > E.deadline + 15 && q > 0 && nowS() - q > 10) || nowS() > E.deadline + 40) {
        E.timedOut = true;
        E.notes.push_back("a solver call overran the time budget");
        E.writeResult(out, entry, 1);
        fflush(nullptr);
        _exit(0);
      }
    }
  });
  wd.detach();
  E.run(entry);
  E.writeResult(out, entry);
  fflush(nullptr);
  _exit(0);
}
