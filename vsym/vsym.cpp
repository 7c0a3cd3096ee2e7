// vsym: symbolic executor for LLVM IR, used to decide bounded properties of the real C (and Rust) code.
//
// All paths are executed together.  Every register and memory cell holds a *value summary*: a list of
// (guard, value) pairs with disjoint guards.  Guards are Boolean functions (kept as ROBDDs) of the symbolic
// inputs and of theory atoms; values are concrete machine words or z3 bit-vector terms.  Control flow forks
// the path guard and joins it again at the post-dominating block, loop iterations are aligned, so joins need
// no separate merge.  Every assertion reached under path guard pc becomes the obligation  pc /\ !cond,  which
// is exported as an SMT formula over the inputs and decided by z3; a model is printed as input values.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef uint32_t G;  // guard: BDD node
typedef uint64_t u64;
typedef int64_t i64;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double T0;
struct Unsupported { std::string what; };
[[noreturn]] static void unsup(const std::string& s) { throw Unsupported{s}; }
static std::string valStr(const Value* v) { std::string s; raw_string_ostream o(s); o << *v; return s; }

// ---------------------------------------------------------------- BDD
struct BDD {
  struct Node { uint32_t var; G lo, hi; };
  std::vector<Node> n;
  struct Key { u64 a; u64 b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
  struct KH { size_t operator()(const Key& k) const { u64 x = k.a * 0x9E3779B97F4A7C15ull ^ (k.b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full; return x ^ (x >> 29); } };
  std::unordered_map<Key, G, KH> uniq;
  struct CE { G a, b; G r; uint8_t op; };
  std::vector<CE> cache;
  size_t maxNodes = 150000000;
  BDD() : cache(1 << 20, CE{0, 0, 0, 0}) { n.push_back({~0u, 0, 0}); n.push_back({~0u, 1, 1}); }
  G mk(uint32_t v, G lo, G hi) {
    if (lo == hi) return lo;
    Key k{((u64)v << 32) | lo, hi};
    auto it = uniq.find(k);
    if (it != uniq.end()) return it->second;
    if (n.size() > maxNodes) unsup("BDD node limit");
    n.push_back({v, lo, hi});
    G r = (G)(n.size() - 1);
    uniq.emplace(k, r);
    if (n.size() > cache.size() * 2 && cache.size() < (1u << 25)) cache.assign(cache.size() * 4, CE{0, 0, 0, 0});
    return r;
  }
  G var(uint32_t v) { return mk(v, 0, 1); }
  // op 1: and, 2: or, 3: a and not b, 4: xor
  G ap(uint8_t op, G a, G b) {
    switch (op) {
      case 1: if (!a || !b) return 0; if (a == 1) return b; if (b == 1) return a; if (a == b) return a; if (a > b) std::swap(a, b); break;
      case 2: if (a == 1 || b == 1) return 1; if (!a) return b; if (!b) return a; if (a == b) return a; if (a > b) std::swap(a, b); break;
      case 3: if (!a || b == 1 || a == b) return 0; if (!b) return a; break;
      case 4: if (a == b) return 0; if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b); break;
    }
    size_t h = ((u64)a * 0x9E3779B97F4A7C15ull + (u64)b * 0xC2B2AE3D27D4EB4Full + op * 0x165667B19E3779F9ull) >> 20 & (cache.size() - 1);
    { CE& c = cache[h]; if (c.op == op && c.a == a && c.b == b) return c.r; }
    uint32_t va = n[a].var, vb = n[b].var, v = va < vb ? va : vb;
    G al = va == v ? n[a].lo : a, ah = va == v ? n[a].hi : a;
    G bl = vb == v ? n[b].lo : b, bh = vb == v ? n[b].hi : b;
    G l = ap(op, al, bl), hh = ap(op, ah, bh);
    G r = mk(v, l, hh);
    h = ((u64)a * 0x9E3779B97F4A7C15ull + (u64)b * 0xC2B2AE3D27D4EB4Full + op * 0x165667B19E3779F9ull) >> 20 & (cache.size() - 1);
    cache[h] = CE{a, b, r, op};
    return r;
  }
  G And(G a, G b) { return ap(1, a, b); }
  G Or(G a, G b) { return ap(2, a, b); }
  G Diff(G a, G b) { return ap(3, a, b); }
  G Xor(G a, G b) { return ap(4, a, b); }
  G Not(G a) { return ap(3, 1, a); }
} B;

// ---------------------------------------------------------------- values
static const uint32_t UNDEF = 0xffffffffu;
struct Val {
  u64 v = 0; uint32_t s = 0;  // s==0 concrete; s==UNDEF undefined; otherwise term index (s-1)
  bool conc() const { return s == 0; }
  bool operator==(const Val& o) const { return v == o.v && s == o.s; }
  bool operator<(const Val& o) const { return s != o.s ? s < o.s : v < o.v; }
};
static Val C(u64 v) { Val r; r.v = v; return r; }
static Val U() { Val r; r.s = UNDEF; return r; }
struct Ent { G g; Val v; };
struct Sum {  // disjoint guards; entries outside the guards are "don't care"
  std::vector<Ent> e;
  Sum() {}
  Sum(Val v) { e.push_back({1, v}); }
  Sum(u64 c) { e.push_back({1, C(c)}); }
  bool single() const { return e.size() == 1; }
};
typedef std::vector<Sum> Reg;

static z3::context* Z;
static std::vector<z3::expr>* terms;
static std::unordered_map<unsigned, uint32_t> termIdx;
static size_t maxSum = 0;
static u64 nInstr = 0, nMerge = 0;

static void sumAdd(Sum& s, G g, Val v) {
  if (!g) return;
  for (auto& x : s.e) if (x.v == v) { x.g = B.Or(x.g, g); return; }
  s.e.push_back({g, v});
  if (s.e.size() > maxSum) maxSum = s.e.size();
  if (s.e.size() > 60000) unsup("value summary too large");
}
// for large summaries use an ordered index
struct SumBuilder {
  Sum out; std::map<Val, size_t> ix;
  void add(G g, Val v) {
    if (!g) return;
    if (out.e.size() < 12) { sumAdd(out, g, v); return; }
    if (ix.empty()) for (size_t i = 0; i < out.e.size(); i++) ix[out.e[i].v] = i;
    auto it = ix.find(v);
    if (it != ix.end()) { out.e[it->second].g = B.Or(out.e[it->second].g, g); return; }
    ix[v] = out.e.size(); out.e.push_back({g, v});
    if (out.e.size() > maxSum) maxSum = out.e.size();
    if (out.e.size() > 60000) unsup("value summary too large");
  }
  Sum take() { if (out.e.size() == 1) out.e[0].g = 1; return std::move(out); }
};
static Sum restrictTo(const Sum& s, G pc) {
  if (s.e.size() == 1) { Sum r; r.e.push_back({1, s.e[0].v}); return r; }
  Sum r;
  for (auto& x : s.e) { G g = B.And(x.g, pc); if (g) r.e.push_back({g, x.v}); }
  if (r.e.size() == 1) r.e[0].g = 1;
  return r;
}

static u64 maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskW(w); return (i64)((v ^ m) - m); }

static Val mkTerm(z3::expr e) {
  e = e.simplify();
  if (e.is_numeral()) { uint64_t u; if (Z3_get_numeral_uint64(*Z, e, &u)) return C(u); }
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = termIdx.find(id);
  Val r;
  if (it != termIdx.end()) { r.s = it->second; return r; }
  terms->push_back(e);
  r.s = (uint32_t)terms->size();
  termIdx[id] = r.s;
  return r;
}
static z3::expr toExpr(const Val& v, unsigned w) {
  if (v.s == 0) return Z->bv_val((uint64_t)(v.v & maskW(w)), w);
  return (*terms)[v.s - 1];
}
// predicate variables: BDD variable -> z3 Bool
static std::vector<z3::expr>* bddVars;
static std::unordered_map<unsigned, uint32_t> predIdx;
static uint32_t newBddVar(z3::expr e) { bddVars->push_back(e); return (uint32_t)bddVars->size() - 1; }
static std::set<std::string> stats_preds;
static G predicate(z3::expr e) {
  e = e.simplify();
  if (e.is_true()) return 1;
  if (e.is_false()) return 0;
  bool neg = false;
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) { neg = true; e = e.arg(0); }
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = predIdx.find(id);
  uint32_t v;
  if (it != predIdx.end()) v = it->second; else { v = newBddVar(e); predIdx[id] = v; }
  G g = B.var(v);
  return neg ? B.Not(g) : g;
}
static std::vector<int> bddExprMemo;  // node -> index in exprs
static std::vector<z3::expr>* bddExprs;
static std::vector<z3::expr> exprPool_dummy;
static std::unordered_map<G, size_t> exMemo;
static z3::expr bddExpr(G g) {
  if (g == 0) return Z->bool_val(false);
  if (g == 1) return Z->bool_val(true);
  auto it = exMemo.find(g);
  if (it != exMemo.end()) return (*bddExprs)[it->second];
  auto& nd = B.n[g];
  z3::expr v = (*bddVars)[nd.var];
  z3::expr lo = bddExpr(nd.lo), hi = bddExpr(nd.hi);
  z3::expr r = nd.lo == 0 ? (nd.hi == 1 ? v : (v && hi)) : nd.hi == 0 ? (nd.lo == 1 ? !v : (!v && lo)) : nd.lo == 1 ? (!v || hi) : nd.hi == 1 ? (v || lo) : z3::ite(v, hi, lo);
  bddExprs->push_back(r);
  exMemo[g] = bddExprs->size() - 1;
  return r;
}

// ---------------------------------------------------------------- obligations
struct Obl { std::string kind; std::string where; G g; };
static std::vector<Obl> obls;             // violation conditions
static std::map<std::string, size_t> oblIx;
static u64 nAsserts = 0;
static std::map<std::pair<G, G>, int> assertPairs;  // (path guard, condition) of every assertion reached
static std::map<int, G> reach;
static void violate(const std::string& kind, const std::string& where, G g) {
  if (!g) return;
  std::string k = kind + "@" + where;
  auto it = oblIx.find(k);
  if (it != oblIx.end()) { obls[it->second].g = B.Or(obls[it->second].g, g); return; }
  oblIx[k] = obls.size(); obls.push_back({kind, where, g});
}
static std::map<std::string, std::string> inputNames;  // for reporting

// ---------------------------------------------------------------- memory
struct Cell { unsigned sz; Sum s; };
struct Obj {
  std::string name; u64 size = 0; bool zero = false, dead = false, ro = false; const Function* fn = nullptr;
  std::map<u64, Cell> cells;
};
static std::deque<Obj> objs;
static const u64 BIAS = 0x1000;
static u64 addrOf(size_t id) { return ((u64)id << 32) + BIAS; }
static size_t newObj(const std::string& n, u64 sz, bool zero) {
  objs.emplace_back(); Obj& o = objs.back(); o.name = n; o.size = sz; o.zero = zero;
  return objs.size() - 1;
}
static const DataLayout* DL;

static Val extractVal(const Val& v, unsigned fromSz, unsigned off, unsigned len) {
  if (v.s == UNDEF) return v;
  if (v.s == 0) return C((v.v >> (8 * off)) & maskW(8 * len));
  return mkTerm(toExpr(v, fromSz * 8).extract(8 * (off + len) - 1, 8 * off));
}
static Val concatVal(const Val& lo, unsigned losz, const Val& hi, unsigned hisz) {
  if (lo.s == UNDEF && hi.s == UNDEF) return U();
  if (lo.s == UNDEF || hi.s == UNDEF) {  // partly undefined (padding): the undefined bytes are arbitrary
    static int k = 0;
    unsigned usz = lo.s == UNDEF ? losz : hisz;
    Val u = mkTerm(Z->bv_const(("undef" + std::to_string(k++)).c_str(), 8 * usz));
    return lo.s == UNDEF ? concatVal(u, losz, hi, hisz) : concatVal(lo, losz, u, hisz);
  }
  if (lo.s == 0 && hi.s == 0) return C(lo.v | (hi.v << (8 * losz)));
  return mkTerm(z3::concat(toExpr(hi, hisz * 8), toExpr(lo, losz * 8)));
}
static void splitAt(Obj& o, u64 pos) {  // make pos a cell boundary
  auto it = o.cells.lower_bound(pos);
  if (it != o.cells.end() && it->first == pos) return;
  if (it == o.cells.begin()) return;
  --it;
  u64 st = it->first; unsigned sz = it->second.sz;
  if (st + sz <= pos) return;
  Cell c = std::move(it->second);
  unsigned a = (unsigned)(pos - st);
  Cell lo, hi; lo.sz = a; hi.sz = sz - a;
  SumBuilder bl, bh;
  for (auto& x : c.s.e) { bl.add(x.g, extractVal(x.v, sz, 0, a)); bh.add(x.g, extractVal(x.v, sz, a, sz - a)); }
  lo.s = bl.take(); hi.s = bh.take();
  o.cells[st] = std::move(lo); o.cells[pos] = std::move(hi);
}
static Sum defaultSum(Obj& o) { return o.zero ? Sum(C(0)) : Sum(U()); }
static Sum& exactCell(Obj& o, u64 off, unsigned sz) {
  auto it = o.cells.find(off);
  if (it != o.cells.end() && it->second.sz == sz) return it->second.s;
  splitAt(o, off); splitAt(o, off + sz);
  // gather pieces
  u64 p = off; bool first = true; Sum acc; unsigned accsz = 0;
  std::vector<u64> del;
  while (p < off + sz) {
    auto j = o.cells.lower_bound(p);
    Sum piece; unsigned psz;
    if (j != o.cells.end() && j->first == p) { piece = j->second.s; psz = j->second.sz; del.push_back(p); }
    else { u64 nx = (j == o.cells.end()) ? off + sz : std::min<u64>(j->first, off + sz); psz = (unsigned)(nx - p); piece = defaultSum(o); }
    if (first) { acc = piece; accsz = psz; first = false; }
    else {
      SumBuilder b;
      for (auto& x : acc.e) for (auto& y : piece.e) { G g = B.And(x.g, y.g); if (g) b.add(g, concatVal(x.v, accsz, y.v, psz)); }
      acc = b.take(); accsz += psz;
    }
    p += psz;
  }
  for (u64 d : del) o.cells.erase(d);
  Cell c; c.sz = sz; c.s = std::move(acc);
  return (o.cells[off] = std::move(c)).s;
}
static void guardedStore(Sum& cell, const Sum& val, G pc) {
  if (pc == 1) { cell = val; return; }
  SumBuilder b;
  for (auto& x : val.e) b.add(B.And(x.g, pc), x.v);
  for (auto& x : cell.e) b.add(B.Diff(x.g, pc), x.v);
  cell = b.out; if (cell.e.size() == 1) cell.e[0].g = 1;
}

// ---------------------------------------------------------------- executor
static unsigned typeBits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  unsup("type " + [&] { std::string s; raw_string_ostream o(s); o << *t; return s; }());
}
static void leafTypes(Type* t, std::vector<Type*>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { for (auto* x : st->elements()) leafTypes(x, out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), out); return; }
  if (t->isVoidTy()) return;
  out.push_back(t);
}
static void leafOffsets(Type* t, u64 base, std::vector<std::pair<Type*, u64>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafOffsets(st->getElementType(i), base + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leafOffsets(at->getElementType(), base + i * es, out); return; }
  out.push_back({t, base});
}

struct FnInfo {
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
  struct Item { const BasicBlock* bb; Loop* loop; };
  std::map<Loop*, std::vector<Item>> items;  // nullptr = top level
  std::unordered_map<const Value*, unsigned> slot; unsigned nslots = 0;
};
static std::map<const Function*, std::unique_ptr<FnInfo>> fnInfo;
static std::map<const GlobalValue*, u64> gaddr;
static std::set<std::string> executed;
static u64 loopCap = 12000;
static double timeLimit = 1e9;
static Module* Mod;

static FnInfo& info(const Function& F) {
  auto& p = fnInfo[&F];
  if (p) return *p;
  p = std::make_unique<FnInfo>();
  p->DT = std::make_unique<DominatorTree>(const_cast<Function&>(F));
  p->LI = std::make_unique<LoopInfo>(*p->DT);
  ReversePostOrderTraversal<const Function*> RPOT(&F);
  std::set<Loop*> seen;
  std::map<const BasicBlock*, unsigned> idx; unsigned k = 0;
  for (auto* bb : RPOT) idx[bb] = k++;
  for (auto* bb : RPOT) {
    Loop* L = p->LI->getLoopFor(const_cast<BasicBlock*>(bb));
    // chain of loops
    std::vector<Loop*> chain; for (Loop* x = L; x; x = x->getParentLoop()) chain.push_back(x);
    for (int i = (int)chain.size() - 1; i >= 0; i--) {
      Loop* x = chain[i];
      if (seen.insert(x).second) { if (x->getHeader() != bb) unsup("irreducible loop in " + F.getName().str()); p->items[x->getParentLoop()].push_back({nullptr, x}); }
    }
    p->items[L].push_back({bb, nullptr});
    for (auto* s : successors(bb)) if (idx[s] <= idx[bb]) { if (!p->DT->dominates(s, bb)) unsup("irreducible CFG in " + F.getName().str()); }
  }
  for (auto& a : F.args()) p->slot[&a] = p->nslots++;
  for (auto& bb : F) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->slot[&i] = p->nslots++;
  return *p;
}

struct Frame {
  const Function* F; FnInfo* fi; std::vector<Reg> regs;
  struct Pend { G g = 0; std::map<const PHINode*, std::vector<SumBuilder>> phi; };
  std::unordered_map<const BasicBlock*, Pend> pend;
  G outG = 0; std::vector<SumBuilder> ret;
  std::vector<size_t> allocas; std::map<const Instruction*, size_t> allocaObj;
};

static Reg evalConst(const Constant* c);
static std::string locOf(const Instruction* I) {
  return I->getFunction()->getName().str();
}

static Reg evalConst(const Constant* c) {
  Reg r;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) unsup("wide int"); r.push_back(Sum(C(ci->getZExtValue()))); return r; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { r.push_back(Sum(C(cf->getValueAPF().bitcastToAPInt().getZExtValue()))); return r; }
  if (isa<ConstantPointerNull>(c)) { r.push_back(Sum(C(0))); return r; }
  if (isa<UndefValue>(c)) { std::vector<Type*> l; leafTypes(c->getType(), l); for (size_t i = 0; i < l.size(); i++) r.push_back(Sum(U())); return r; }
  if (isa<ConstantAggregateZero>(c)) { std::vector<Type*> l; leafTypes(c->getType(), l); for (size_t i = 0; i < l.size(); i++) r.push_back(Sum(C(0))); return r; }
  if (auto* gv = dyn_cast<GlobalAlias>(c)) return evalConst(gv->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) unsup("global " + gv->getName().str()); r.push_back(Sum(C(it->second))); return r; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) { Reg x = evalConst(cast<Constant>(ca->getOperand(i))); for (auto& y : x) r.push_back(y); } return r; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) { Reg x = evalConst(cd->getElementAsConstant(i)); r.push_back(x[0]); } return r; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce); APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) unsup("const gep");
        Reg b = evalConst(cast<Constant>(g->getPointerOperand()));
        r.push_back(Sum(C(b[0].e[0].v.v + off.getZExtValue()))); return r;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return evalConst(ce->getOperand(0));
      case Instruction::Trunc: { Reg b = evalConst(ce->getOperand(0)); r.push_back(Sum(C(b[0].e[0].v.v & maskW(typeBits(ce->getType()))))); return r; }
      case Instruction::Sub: { Reg a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); r.push_back(Sum(C((a[0].e[0].v.v - b[0].e[0].v.v) & maskW(typeBits(ce->getType()))))); return r; }
      case Instruction::Add: { Reg a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); r.push_back(Sum(C((a[0].e[0].v.v + b[0].e[0].v.v) & maskW(typeBits(ce->getType()))))); return r; }
    }
  }
  unsup("constant " + valStr(c));
}
static void initGlobal(Obj& o, const Constant* c, u64 off) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // object is zero-filled
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, cs->getOperand(i), off + sl->getElementOffset(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, ca->getOperand(i), off + i * es); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) { Cell x; x.sz = (unsigned)es; x.s = evalConst(cd->getElementAsConstant(i))[0]; o.cells[off + i * es] = x; } return; }
  Cell x; x.sz = (unsigned)DL->getTypeStoreSize(c->getType()); x.s = evalConst(c)[0]; o.cells[off] = x;
}

static Reg& regOf(Frame& f, const Value* v) { return f.regs[f.fi->slot.at(v)]; }
static Reg get(Frame& f, const Value* v, G pc) {
  if (auto* c = dyn_cast<Constant>(v)) return evalConst(c);
  Reg& r = regOf(f, v);
  Reg o; o.reserve(r.size());
  for (auto& s : r) o.push_back(restrictTo(s, pc));
  return o;
}
static Sum get1(Frame& f, const Value* v, G pc) {
  if (auto* c = dyn_cast<Constant>(v)) return evalConst(c)[0];
  Reg& r = regOf(f, v);
  if (r.empty()) unsup("use before def: " + valStr(v));
  return restrictTo(r[0], pc);
}
static void set1(Frame& f, const Instruction* I, Sum s) { Reg& r = regOf(f, I); r.assign(1, std::move(s)); }

// resolves a pointer value; reports a violation and returns nullptr when it is not dereferenceable for n bytes
static Obj* resolve(const Val& p, u64 n, G g, const Instruction* I, bool write, u64& off) {
  if (p.s == UNDEF) { violate("memory: access through uninitialised pointer", locOf(I), g); return nullptr; }
  if (p.s) unsup("symbolic pointer in " + locOf(I));
  u64 id = p.v >> 32; i64 o = (i64)(p.v & 0xffffffffull) - (i64)BIAS;
  if (id == 0 || id >= objs.size()) { violate("memory: invalid pointer", locOf(I), g); return nullptr; }
  Obj& ob = objs[id];
  if (ob.fn || ob.dead) { violate("memory: dead object or code", locOf(I) + ":" + ob.name, g); return nullptr; }
  if (o < 0 || (u64)o + n > ob.size) { violate(std::string("memory: out of bounds ") + (write ? "write" : "read"), locOf(I) + ":" + ob.name, g); return nullptr; }
  if (write && ob.ro) { violate("memory: write to constant", locOf(I) + ":" + ob.name, g); return nullptr; }
  off = (u64)o; return &ob;
}
static Sum loadScalar(const Sum& ptr, Type* t, G& pc, const Instruction* I) {
  unsigned sz = (unsigned)DL->getTypeStoreSize(t);
  unsigned bits = typeBits(t);
  SumBuilder b; G lost = 0;
  for (auto& x : ptr.e) {
    G g = B.And(x.g, pc); if (!g) continue;
    u64 off; Obj* o = resolve(x.v, sz, g, I, false, off);
    if (!o) { lost = B.Or(lost, g); continue; }
    Sum& c = exactCell(*o, off, sz);
    for (auto& y : c.e) {
      G gg = B.And(y.g, g); if (!gg) continue;
      Val v = y.v;
      if (v.s == 0) v.v &= maskW(bits);
      else if (v.s != UNDEF && bits != sz * 8) v = mkTerm(toExpr(v, sz * 8).extract(bits - 1, 0));
      b.add(gg, v);
    }
  }
  pc = B.Diff(pc, lost);
  return b.take();
}
static void storeScalar(const Sum& ptr, const Sum& val, Type* t, G& pc, const Instruction* I) {
  unsigned sz = (unsigned)DL->getTypeStoreSize(t);
  unsigned bits = typeBits(t);
  G lost = 0;
  for (auto& x : ptr.e) {
    G g = B.And(x.g, pc); if (!g) continue;
    u64 off; Obj* o = resolve(x.v, sz, g, I, true, off);
    if (!o) { lost = B.Or(lost, g); continue; }
    if (bits == 1 || bits == sz * 8) { 
      if (bits == 1) { Sum v2; for (auto& y : val.e) { if (y.v.s && y.v.s != UNDEF) unsup("symbolic i1"); v2.e.push_back(y); } guardedStore(exactCell(*o, off, sz), v2, g); }
      else guardedStore(exactCell(*o, off, sz), val, g);
    } else unsup("odd-width store");
  }
  pc = B.Diff(pc, lost);
}

// generic lifted operation
template <class Fn> static Sum lift1(const Sum& a, Fn f) {
  if (a.e.size() == 1) { return Sum(f(a.e[0].v)); }
  SumBuilder b; for (auto& x : a.e) b.add(x.g, f(x.v)); return b.take();
}
template <class Fn> static Sum lift2(const Sum& a, const Sum& c, Fn f) {
  if (a.e.size() == 1 && c.e.size() == 1) return Sum(f(a.e[0].v, c.e[0].v));
  SumBuilder b;
  for (auto& x : a.e) for (auto& y : c.e) { G g = a.e.size() == 1 ? y.g : c.e.size() == 1 ? x.g : B.And(x.g, y.g); if (g) b.add(g, f(x.v, y.v)); }
  return b.take();
}
// with --fold, a summary of several integers becomes one term (for code whose control and addresses do not depend on it)
static bool foldSums = false;
static Sum fold(const Sum& s, unsigned w) {
  if (s.e.size() < 2 || w > 64) return s;
  for (auto& x : s.e) if (x.v.s == UNDEF) return s;
  z3::expr r = toExpr(s.e.back().v, w);
  for (size_t i = s.e.size() - 1; i-- > 0;) r = z3::ite(bddExpr(s.e[i].g), toExpr(s.e[i].v, w), r);
  return Sum(mkTerm(r));
}
static Sum boolSum(G t) {
  if (t == 0) return Sum(C(0));
  if (t == 1) return Sum(C(1));
  Sum s; s.e.push_back({t, C(1)}); s.e.push_back({B.Not(t), C(0)}); return s;
}
// truth guard of an i1 summary under pc; undefined entries are reported
static G truth(const Sum& s, G& pc, const Instruction* I) {
  G t = 0, bad = 0;
  for (auto& x : s.e) {
    if (x.v.s == UNDEF) bad = B.Or(bad, B.And(x.g, pc));
    else if (x.v.s) t = B.Or(t, B.And(x.g, predicate(toExpr(x.v, 1) == Z->bv_val(1, 1))));
    else if (x.v.v & 1) t = B.Or(t, x.g);
  }
  if (bad) { violate("memory: branch on uninitialised value", locOf(I), bad); pc = B.Diff(pc, bad); }
  return B.And(t, pc);
}
static bool usesFP = false;
static z3::expr fpe(const Val& v, unsigned w) {
  usesFP = true;
  z3::expr e = toExpr(v, w);
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_FPA_TO_IEEE_BV) return e.arg(0);
  return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, e, w == 64 ? Z->fpa_sort<64>() : Z->fpa_sort<32>()));
}
static Val fpv(z3::expr e) { return mkTerm(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, e))); }
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static u64 fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static bool flagNsw = false;  // report signed overflow
static Val binop(const Instruction* I, unsigned op, unsigned w, const Val& a, const Val& b) {
  if (a.s == UNDEF || b.s == UNDEF) {
    if (op == Instruction::And && ((a.conc() && a.v == 0) || (b.conc() && b.v == 0))) return C(0);
    return U();
  }
  if (a.conc() && b.conc()) {
    u64 x = a.v & maskW(w), y = b.v & maskW(w), r = 0;
    switch (op) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: if (y >= w) return U(); r = x << y; break;
      case Instruction::LShr: if (y >= w) return U(); r = x >> y; break;
      case Instruction::AShr: if (y >= w) return U(); r = (u64)(sx(x, w) >> y); break;
      case Instruction::UDiv: if (!y) return U(); r = x / y; break;
      case Instruction::URem: if (!y) return U(); r = x % y; break;
      case Instruction::SDiv: if (!y || (sx(y, w) == -1 && x == (1ull << (w - 1)))) return U(); r = (u64)(sx(x, w) / sx(y, w)); break;
      case Instruction::SRem: if (!y || (sx(y, w) == -1 && x == (1ull << (w - 1)))) return U(); r = (u64)(sx(x, w) % sx(y, w)); break;
      default: unsup("binop");
    }
    return C(r & maskW(w));
  }
  z3::expr x = toExpr(a, w), y = toExpr(b, w);
  switch (op) {
    case Instruction::Add: return mkTerm(x + y);
    case Instruction::Sub: return mkTerm(x - y);
    case Instruction::Mul: return mkTerm(x * y);
    case Instruction::And: return mkTerm(x & y);
    case Instruction::Or: return mkTerm(x | y);
    case Instruction::Xor: return mkTerm(x ^ y);
    case Instruction::Shl: return mkTerm(z3::shl(x, y));
    case Instruction::LShr: return mkTerm(z3::lshr(x, y));
    case Instruction::AShr: return mkTerm(z3::ashr(x, y));
    case Instruction::UDiv: return mkTerm(z3::udiv(x, y));
    case Instruction::URem: return mkTerm(z3::urem(x, y));
    case Instruction::SDiv: return mkTerm(x / y);
    case Instruction::SRem: return mkTerm(z3::srem(x, y));
  }
  unsup("binop");
}
static Val fbinop(unsigned op, unsigned w, const Val& a, const Val& b) {
  if (a.s == UNDEF || b.s == UNDEF) return U();
  if (a.conc() && b.conc()) {
    if (w == 64) {
      double x = asD(a.v), y = asD(b.v);
      switch (op) { case Instruction::FAdd: return C(fromD(x + y)); case Instruction::FSub: return C(fromD(x - y)); case Instruction::FMul: return C(fromD(x * y)); case Instruction::FDiv: return C(fromD(x / y)); case Instruction::FRem: return C(fromD(fmod(x, y))); }
    } else {
      float x = asF(a.v), y = asF(b.v);
      switch (op) { case Instruction::FAdd: return C(fromF(x + y)); case Instruction::FSub: return C(fromF(x - y)); case Instruction::FMul: return C(fromF(x * y)); case Instruction::FDiv: return C(fromF(x / y)); }
    }
  }
  z3::expr x = fpe(a, w), y = fpe(b, w);
  z3::expr rm(*Z, Z3_mk_fpa_rne(*Z));
  // exact simplifications: a factor or divisor of one or minus one; operands of a commutative operation in one order
  auto unit = [&](const Val& c) { if (!c.conc()) return 0; double v = w == 64 ? asD(c.v) : asF(c.v); return v == 1 ? 1 : v == -1 ? -1 : 0; };
  if (op == Instruction::FMul || op == Instruction::FDiv)
    if (int u = unit(b)) return u > 0 ? a : fpv(z3::expr(*Z, Z3_mk_fpa_neg(*Z, x)));
  if (op == Instruction::FMul)
    if (int u = unit(a)) return u > 0 ? b : fpv(z3::expr(*Z, Z3_mk_fpa_neg(*Z, y)));
  if ((op == Instruction::FMul || op == Instruction::FAdd) && Z3_get_ast_id(*Z, x) > Z3_get_ast_id(*Z, y)) std::swap(x, y);
  switch (op) {
    case Instruction::FAdd: return fpv(z3::expr(*Z, Z3_mk_fpa_add(*Z, rm, x, y)));
    case Instruction::FSub: return fpv(z3::expr(*Z, Z3_mk_fpa_sub(*Z, rm, x, y)));
    case Instruction::FMul: return fpv(z3::expr(*Z, Z3_mk_fpa_mul(*Z, rm, x, y)));
    case Instruction::FDiv: return fpv(z3::expr(*Z, Z3_mk_fpa_div(*Z, rm, x, y)));
  }
  unsup("fbinop");
}
static Sum icmp(CmpInst::Predicate p, unsigned w, const Sum& a, const Sum& b) {
  G t = 0, und = 0, all = 0;
  for (auto& x : a.e) for (auto& y : b.e) {
    G g = a.e.size() == 1 ? y.g : b.e.size() == 1 ? x.g : B.And(x.g, y.g);
    if (!g) continue;
    all = B.Or(all, g);
    if (x.v.s == UNDEF || y.v.s == UNDEF) { und = B.Or(und, g); continue; }
    if (x.v.conc() && y.v.conc()) {
      u64 u = x.v.v & maskW(w), v = y.v.v & maskW(w); i64 su = sx(u, w), sv = sx(v, w); bool r;
      switch (p) {
        case CmpInst::ICMP_EQ: r = u == v; break; case CmpInst::ICMP_NE: r = u != v; break;
        case CmpInst::ICMP_UGT: r = u > v; break; case CmpInst::ICMP_UGE: r = u >= v; break;
        case CmpInst::ICMP_ULT: r = u < v; break; case CmpInst::ICMP_ULE: r = u <= v; break;
        case CmpInst::ICMP_SGT: r = su > sv; break; case CmpInst::ICMP_SGE: r = su >= sv; break;
        case CmpInst::ICMP_SLT: r = su < sv; break; case CmpInst::ICMP_SLE: r = su <= sv; break;
        default: unsup("icmp");
      }
      if (r) t = B.Or(t, g);
    } else {
      z3::expr u = toExpr(x.v, w), v = toExpr(y.v, w); z3::expr r(*Z);
      switch (p) {
        case CmpInst::ICMP_EQ: r = u == v; break; case CmpInst::ICMP_NE: r = u != v; break;
        case CmpInst::ICMP_UGT: r = z3::ugt(u, v); break; case CmpInst::ICMP_UGE: r = z3::uge(u, v); break;
        case CmpInst::ICMP_ULT: r = z3::ult(u, v); break; case CmpInst::ICMP_ULE: r = z3::ule(u, v); break;
        case CmpInst::ICMP_SGT: r = u > v; break; case CmpInst::ICMP_SGE: r = u >= v; break;
        case CmpInst::ICMP_SLT: r = u < v; break; case CmpInst::ICMP_SLE: r = u <= v; break;
        default: unsup("icmp");
      }
      t = B.Or(t, B.And(g, predicate(r)));
    }
  }
  if (!und) return boolSum(t);
  Sum s; G f = B.Diff(B.Diff(1, t), und);
  if (t) s.e.push_back({t, C(1)}); if (f) s.e.push_back({f, C(0)}); s.e.push_back({und, U()});
  if (s.e.size() == 1) s.e[0].g = 1;
  return s;
}
static Sum fcmp(CmpInst::Predicate p, unsigned w, const Sum& a, const Sum& b) {
  G t = 0, und = 0;
  for (auto& x : a.e) for (auto& y : b.e) {
    G g = a.e.size() == 1 ? y.g : b.e.size() == 1 ? x.g : B.And(x.g, y.g);
    if (!g) continue;
    if (x.v.s == UNDEF || y.v.s == UNDEF) { und = B.Or(und, g); continue; }
    if (x.v.conc() && y.v.conc()) {
      double u = w == 64 ? asD(x.v.v) : asF(x.v.v), v = w == 64 ? asD(y.v.v) : asF(y.v.v);
      bool un = std::isnan(u) || std::isnan(v), r;
      switch (p) {
        case CmpInst::FCMP_OEQ: r = u == v; break; case CmpInst::FCMP_UEQ: r = un || u == v; break;
        case CmpInst::FCMP_ONE: r = !un && u != v; break; case CmpInst::FCMP_UNE: r = u != v; break;
        case CmpInst::FCMP_OGT: r = u > v; break; case CmpInst::FCMP_UGT: r = !(u <= v); break;
        case CmpInst::FCMP_OGE: r = u >= v; break; case CmpInst::FCMP_UGE: r = !(u < v); break;
        case CmpInst::FCMP_OLT: r = u < v; break; case CmpInst::FCMP_ULT: r = !(u >= v); break;
        case CmpInst::FCMP_OLE: r = u <= v; break; case CmpInst::FCMP_ULE: r = !(u > v); break;
        case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_FALSE: r = false; break;
        default: unsup("fcmp");
      }
      if (r) t = B.Or(t, g);
    } else {
      z3::expr u = fpe(x.v, w), v = fpe(y.v, w);
      auto e = [&](Z3_ast q) { return z3::expr(*Z, q); };
      z3::expr r(*Z);
      z3::expr un = e(Z3_mk_fpa_is_nan(*Z, u)) || e(Z3_mk_fpa_is_nan(*Z, v));
      switch (p) {
        case CmpInst::FCMP_OEQ: r = e(Z3_mk_fpa_eq(*Z, u, v)); break;
        case CmpInst::FCMP_UEQ: r = un || e(Z3_mk_fpa_eq(*Z, u, v)); break;
        case CmpInst::FCMP_UNE: r = !e(Z3_mk_fpa_eq(*Z, u, v)); break;
        case CmpInst::FCMP_ONE: r = !un && !e(Z3_mk_fpa_eq(*Z, u, v)); break;
        case CmpInst::FCMP_OGT: r = e(Z3_mk_fpa_gt(*Z, u, v)); break;
        case CmpInst::FCMP_OGE: r = e(Z3_mk_fpa_geq(*Z, u, v)); break;
        case CmpInst::FCMP_OLT: r = e(Z3_mk_fpa_lt(*Z, u, v)); break;
        case CmpInst::FCMP_OLE: r = e(Z3_mk_fpa_leq(*Z, u, v)); break;
        case CmpInst::FCMP_UGT: r = !e(Z3_mk_fpa_leq(*Z, u, v)); break;
        case CmpInst::FCMP_UGE: r = !e(Z3_mk_fpa_lt(*Z, u, v)); break;
        case CmpInst::FCMP_ULT: r = !e(Z3_mk_fpa_geq(*Z, u, v)); break;
        case CmpInst::FCMP_ULE: r = !e(Z3_mk_fpa_gt(*Z, u, v)); break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        default: unsup("fcmp");
      }
      t = B.Or(t, B.And(g, predicate(r)));
    }
  }
  if (!und) return boolSum(t);
  Sum s; G f = B.Diff(B.Diff(1, t), und);
  if (t) s.e.push_back({t, C(1)}); if (f) s.e.push_back({f, C(0)}); s.e.push_back({und, U()});
  if (s.e.size() == 1) s.e[0].g = 1;
  return s;
}
static Val castVal(unsigned op, unsigned w, unsigned w2, bool dstF, bool srcF, const Val& v) {
  if (v.s == UNDEF) return v;
  if (v.conc()) {
    u64 x = v.v & maskW(w);
    switch (op) {
      case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return C(x & maskW(w2));
      case Instruction::SExt: return C((u64)sx(x, w) & maskW(w2));
      case Instruction::Trunc: return C(x & maskW(w2));
      case Instruction::SIToFP: return C(w2 == 64 ? fromD((double)sx(x, w)) : fromF((float)sx(x, w)));
      case Instruction::UIToFP: return C(w2 == 64 ? fromD((double)x) : fromF((float)x));
      case Instruction::FPToSI: { double d = w == 64 ? asD(x) : asF(x); if (!(d > -ldexp(1, w2 - 1) - 1 && d < ldexp(1, w2 - 1))) return U(); return C((u64)(i64)d & maskW(w2)); }
      case Instruction::FPToUI: { double d = w == 64 ? asD(x) : asF(x); if (!(d > -1 && d < ldexp(1, w2))) return U(); return C((u64)d & maskW(w2)); }
      case Instruction::FPExt: return C(fromD((double)asF(x)));
      case Instruction::FPTrunc: return C(fromF((float)asD(x)));
    }
    unsup("cast");
  }
  z3::expr x = toExpr(v, w);
  z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); z3::expr rz(*Z, Z3_mk_fpa_rtz(*Z));
  switch (op) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      if (w == w2) return v; return w2 < w ? mkTerm(x.extract(w2 - 1, 0)) : mkTerm(z3::zext(x, w2 - w));
    case Instruction::ZExt: return mkTerm(z3::zext(x, w2 - w));
    case Instruction::SExt: return mkTerm(z3::sext(x, w2 - w));
    case Instruction::Trunc: return mkTerm(x.extract(w2 - 1, 0));
    case Instruction::SIToFP: return fpv(z3::expr(*Z, Z3_mk_fpa_to_fp_signed(*Z, rm, x, w2 == 64 ? Z->fpa_sort<64>() : Z->fpa_sort<32>())));
    case Instruction::UIToFP: return fpv(z3::expr(*Z, Z3_mk_fpa_to_fp_unsigned(*Z, rm, x, w2 == 64 ? Z->fpa_sort<64>() : Z->fpa_sort<32>())));
    case Instruction::FPToSI: return mkTerm(z3::expr(*Z, Z3_mk_fpa_to_sbv(*Z, rz, fpe(v, w), w2)));
    case Instruction::FPToUI: return mkTerm(z3::expr(*Z, Z3_mk_fpa_to_ubv(*Z, rz, fpe(v, w), w2)));
  }
  unsup("symbolic cast");
}

static G callFn(const Function* F, std::vector<Reg> args, G pc, Reg& ret, int depth);
static void propagate(Frame& f, const BasicBlock* from, const BasicBlock* to, G g) {
  if (!g) return;
  auto& p = f.pend[to];
  p.g = B.Or(p.g, g);
  for (auto& phi : to->phis()) {
    const Value* v = phi.getIncomingValueForBlock(from);
    Reg r = get(f, v, g);
    auto& acc = p.phi[&phi];
    acc.resize(r.size());
    for (size_t i = 0; i < r.size(); i++) for (auto& x : r[i].e) acc[i].add(B.And(x.g, g), x.v);
  }
}

// --------------------------- builtins
static std::string cstr(const Val& p, const Instruction* I) {  // concrete string
  std::string s;
  u64 id = p.v >> 32; i64 o = (i64)(p.v & 0xffffffffull) - (i64)BIAS;
  if (p.s || id == 0 || id >= objs.size()) unsup("cstr pointer");
  Obj& ob = objs[id];
  for (;; o++) {
    if (o < 0 || (u64)o >= ob.size) unsup("unterminated string");
    Sum& c = exactCell(ob, (u64)o, 1);
    if (!c.single() || !c.e[0].v.conc()) unsup("symbolic string");
    char ch = (char)c.e[0].v.v; if (!ch) break; s.push_back(ch);
  }
  return s;
}
// all concrete strings at pointer p under g
static void cstrs(const Val& p, G g, const Instruction* I, std::string pre, std::vector<std::pair<G, std::string>>& out) {
  std::vector<std::pair<G, std::string>> cur{{g, pre}};
  u64 id = p.v >> 32; i64 o = (i64)(p.v & 0xffffffffull) - (i64)BIAS;
  if (p.s == UNDEF || id == 0 || id >= objs.size() || objs[id].fn) { violate("memory: invalid string pointer", locOf(I), g); return; }
  Obj& ob = objs[id];
  while (!cur.empty()) {
    if (o < 0 || (u64)o >= ob.size) { for (auto& x : cur) violate("memory: unterminated string", locOf(I) + ":" + ob.name, x.first); return; }
    Sum c = exactCell(ob, (u64)o, 1);
    std::vector<std::pair<G, std::string>> nx;
    for (auto& x : cur) for (auto& y : c.e) {
      G gg = B.And(x.first, y.g); if (!gg) continue;
      if (y.v.s == UNDEF) { violate("memory: uninitialised string", locOf(I) + ":" + ob.name, gg); continue; }
      if (y.v.s) unsup("symbolic char");
      if ((y.v.v & 0xff) == 0) out.push_back({gg, x.second}); else nx.push_back({gg, x.second + (char)y.v.v});
    }
    cur.swap(nx); o++;
    if (out.size() > 20000) unsup("too many strings");
  }
}
struct Combo { G g; std::vector<Val> v; };
static std::vector<Combo> combos(const std::vector<Reg>& args, G pc) {
  std::vector<Combo> cur{{pc, {}}};
  for (auto& r : args) {
    std::vector<Combo> nx;
    for (auto& c : cur) for (auto& x : r[0].e) { G g = B.And(c.g, x.g); if (g) { Combo n = c; n.g = g; n.v.push_back(x.v); nx.push_back(n); } }
    cur.swap(nx);
  }
  return cur;
}
static Val freshTerm(const std::string& n, unsigned w) { return mkTerm(Z->bv_const(n.c_str(), w)); }
static std::map<int, G> boolInputs;
static std::map<int, Sum> smallInputs;
static std::map<std::string, std::pair<char, int>> inputKinds;
static std::map<int, std::vector<G>> smallBits; static std::map<int, std::pair<i64, i64>> smallRange;

static void storeStr(u64 ptr, const std::string& s, G g, const Instruction* I) {
  for (size_t i = 0; i <= s.size(); i++) { G gg = g; storeScalar(Sum(C(ptr + i)), Sum(C(i < s.size() ? (unsigned char)s[i] : 0)), Type::getInt8Ty(Mod->getContext()), gg, I); }
}
static bool isFn(const std::string& n, const char* m) { return n == m; }

static std::map<std::string, G> outputs;
static u64 strObj(const std::string& s) {
  static std::map<std::string, u64> memo;
  auto it = memo.find(s); if (it != memo.end()) return it->second;
  size_t id = newObj("text", s.size() + 1, true);
  for (size_t i = 0; i < s.size(); i++) { Cell c; c.sz = 1; c.s = Sum(C((unsigned char)s[i])); objs[id].cells[i] = c; }
  objs[id].ro = true;
  return memo[s] = addrOf(id);
}

// returns true when handled
static bool builtin(Frame& f, const CallBase* I, const Function* F, std::vector<Reg>& args, G& pc, Reg& ret, int depth) {
  std::string n = F->getName().str();
  LLVMContext& ctx = Mod->getContext();
  auto cint = [&](size_t i) -> i64 { if (!args[i][0].single() || !args[i][0].e[0].v.conc()) unsup("non-constant argument of " + n); return sx(args[i][0].e[0].v.v, 32); };
  if (n == "vs_bool") {
    int id = (int)cint(0);
    if (!boolInputs.count(id)) { std::string nm = "b" + std::to_string(id); uint32_t v = newBddVar(Z->bool_const(nm.c_str())); boolInputs[id] = B.var(v); }
    ret = {boolSum(boolInputs[id])}; return true;
  }
  if (n == "vs_small") {
    int id = (int)cint(0); i64 lo = cint(1), hi = cint(2);
    if (!smallInputs.count(id)) {
      u64 cnt = (u64)(hi - lo + 1); int bits = 0; while ((1ull << bits) < cnt) bits++;
      std::vector<G> bv; for (int k = 0; k < bits; k++) { std::string nm = "s" + std::to_string(id) + "_" + std::to_string(k); bv.push_back(B.var(newBddVar(Z->bool_const(nm.c_str())))); }
      SumBuilder sb;
      for (u64 c = 0; c < (1ull << bits); c++) { G g = 1; for (int k = 0; k < bits; k++) g = B.And(g, (c >> k & 1) ? bv[k] : B.Not(bv[k])); sb.add(g, C((u64)(lo + (i64)std::min<u64>(c, cnt - 1)) & 0xffffffffu)); }
      smallInputs[id] = sb.take(); smallBits[id] = bv; smallRange[id] = {lo, hi};
    }
    ret = {smallInputs[id]}; return true;
  }
  if (n == "vs_u8" || n == "vs_i32" || n == "vs_u32" || n == "vs_u64" || n == "vs_f64") {
    int id = (int)cint(0); unsigned w = n == "vs_u8" ? 8 : (n == "vs_i32" || n == "vs_u32") ? 32 : 64;
    std::string nm = "t" + std::to_string(id);
    inputKinds[nm] = {n == "vs_f64" ? 'f' : 'i', (int)w};
    ret = {Sum(freshTerm(nm, w))}; return true;
  }
  if (n == "vs_assume") { G t = truth(args[0][0], pc, I); pc = t; return true; }
  if (n == "vs_assert") {
    nAsserts++;
    G p0 = pc; G t = truth(args[0][0], pc, I); G bad = B.Diff(pc, t);
    assertPairs[{p0, t}]++;
    std::string msg = "assert"; if (args.size() > 1) msg = cstr(args[1][0].e[0].v, I);
    violate("assert", msg, bad); return true;
  }
  if (n == "vs_reach") { int id = (int)cint(0); G& r = reach[id]; r = B.Or(r, pc); return true; }
  if (n == "vs_uf_d2" ) unsup(n);
  if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n.find("core9panicking") != std::string::npos || n.find("slice_index_fail") != std::string::npos || n.find("slice_start_index") != std::string::npos || n.find("slice_end_index") != std::string::npos || n.find("unwrap_failed") != std::string::npos || n.find("expect_failed") != std::string::npos || n.find("panic") != std::string::npos || n.find("handle_error") != std::string::npos || n.find("handle_alloc_error") != std::string::npos || n.find("len_mismatch_fail") != std::string::npos || n.find("slice_error_fail") != std::string::npos) {
    violate("abort", n + " in " + locOf(I), pc); pc = 0; return true;
  }
  if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0 || n == "memcpy" || n == "memmove") {
    for (auto& c : combos({args[0], args[1], args[2]}, pc)) {
      if (c.v[2].s) unsup("memcpy length"); u64 len = c.v[2].v; if (!len) continue;
      u64 so, d; Obj* s = resolve(c.v[1], len, c.g, I, false, so); Obj* o = resolve(c.v[0], len, c.g, I, true, d);
      if (!s || !o) { pc = B.Diff(pc, c.g); continue; }
      splitAt(*s, so); splitAt(*s, so + len);
      std::vector<std::pair<u64, Cell>> cp; u64 p = so;
      while (p < so + len) {
        auto j = s->cells.lower_bound(p);
        if (j != s->cells.end() && j->first == p) { cp.push_back({p - so, j->second}); p += j->second.sz; }
        else { u64 nx = j == s->cells.end() ? so + len : std::min<u64>(j->first, so + len); unsigned k = (unsigned)std::min<u64>(nx - p, 8 - (p & 7)); Cell z; z.sz = k; z.s = defaultSum(*s); cp.push_back({p - so, z}); p += k; }
      }
      for (auto& x : cp) guardedStore(exactCell(*o, d + x.first, x.second.sz), x.second.s, c.g);
    }
    ret = {args[0][0]}; return true;
  }
  if (n.rfind("llvm.memset", 0) == 0 || n == "memset") {
    for (auto& c : combos({args[0], args[1], args[2]}, pc)) {
      if (c.v[2].s || c.v[1].s) unsup("memset"); u64 len = c.v[2].v; if (!len) continue;
      u64 d; Obj* o = resolve(c.v[0], len, c.g, I, true, d);
      if (!o) { pc = B.Diff(pc, c.g); continue; }
      u64 by = c.v[1].v & 0xff;
      if (by == 0 && c.g == 1 && d == 0 && len == o->size) { o->cells.clear(); o->zero = true; continue; }
      splitAt(*o, d); splitAt(*o, d + len);
      u64 p = d;
      while (p < d + len) {
        auto j = o->cells.lower_bound(p);
        unsigned k;
        if (j != o->cells.end() && j->first == p) k = j->second.sz;
        else { u64 nx = j == o->cells.end() ? d + len : std::min<u64>(j->first, d + len); k = (unsigned)std::min<u64>(nx - p, 4 - (p & 3)); }
        u64 v = 0; for (unsigned q = 0; q < k; q++) v |= by << (8 * q);
        guardedStore(exactCell(*o, p, k), Sum(C(v)), c.g); p += k;
      }
    }
    ret = {args[0][0]}; return true;
  }
  if (n.rfind("llvm.lifetime", 0) == 0 || n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.experimental.noalias", 0) == 0 || n.rfind("llvm.stackrestore", 0) == 0 || n == "fflush" || n == "free" || n == "fclose" || n.rfind("llvm.va_", 0) == 0) {
    if (!F->getReturnType()->isVoidTy()) ret = {Sum(C(0))};
    return true;
  }
  if (n.rfind("llvm.expect", 0) == 0 || n.rfind("llvm.ptr.annotation", 0) == 0 || n.rfind("llvm.launder", 0) == 0) { ret = {args[0][0]}; return true; }
  if (n.rfind("llvm.is.constant", 0) == 0) { ret = {Sum(C(0))}; return true; }
  if (n.rfind("llvm.objectsize", 0) == 0) { ret = {Sum(C(~0ull))}; return true; }
  if (n.rfind("llvm.stacksave", 0) == 0) { ret = {Sum(C(0))}; return true; }
  if (n.rfind("llvm.umin", 0) == 0 || n.rfind("llvm.umax", 0) == 0 || n.rfind("llvm.smin", 0) == 0 || n.rfind("llvm.smax", 0) == 0) {
    unsigned w = typeBits(F->getReturnType()); bool mx = n.substr(6, 3) == "max"; bool sg = n[5] == 's';
    Sum c = icmp(sg ? (mx ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT) : (mx ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT), w, args[0][0], args[1][0]);
    G t = truth(c, pc, I); SumBuilder b;
    for (auto& x : args[0][0].e) b.add(B.And(x.g, t), x.v); for (auto& x : args[1][0].e) b.add(B.And(x.g, B.Diff(pc, t)), x.v);
    ret = {b.take()}; return true;
  }
  if (n.rfind("llvm.abs", 0) == 0) {
    unsigned w = typeBits(F->getReturnType());
    Sum z(C(0)); G t = truth(icmp(CmpInst::ICMP_SLT, w, args[0][0], z), pc, I);
    Sum ng = lift2(z, args[0][0], [&](const Val& a, const Val& b) { return binop(I, Instruction::Sub, w, a, b); });
    SumBuilder b; for (auto& x : ng.e) b.add(B.And(x.g, t), x.v); for (auto& x : args[0][0].e) b.add(B.And(x.g, B.Diff(pc, t)), x.v);
    ret = {b.take()}; return true;
  }
  if (n.rfind("llvm.usub.sat", 0) == 0 || n.rfind("llvm.uadd.sat", 0) == 0) {
    unsigned w = typeBits(F->getReturnType()); bool sub = n[6] == 's';
    ret = {lift2(args[0][0], args[1][0], [&](const Val& a, const Val& b) {
      if (a.s == UNDEF || b.s == UNDEF) return U();
      if (a.conc() && b.conc()) { u64 x = a.v, y = b.v; if (sub) return C(x < y ? 0 : x - y); u64 r = (x + y) & maskW(w); return C(r < x ? maskW(w) : r); }
      z3::expr x = toExpr(a, w), y = toExpr(b, w);
      return sub ? mkTerm(z3::ite(z3::ult(x, y), Z->bv_val(0, w), x - y)) : mkTerm(z3::ite(z3::ult(x + y, x), Z->bv_val(maskW(w), w), x + y)); })};
    return true;
  }
  if (n.find(".with.overflow") != std::string::npos) {
    unsigned w = typeBits(cast<StructType>(F->getReturnType())->getElementType(0));
    char sg = n[5]; std::string op = n.substr(6, 3); unsigned oc = op == "add" ? Instruction::Add : op == "sub" ? Instruction::Sub : Instruction::Mul;
    Sum r = lift2(args[0][0], args[1][0], [&](const Val& a, const Val& b) { return binop(I, oc, w, a, b); });
    G t = 0;
    for (auto& x : args[0][0].e) for (auto& y : args[1][0].e) {
      G g = B.And(B.And(x.g, y.g), pc); if (!g) continue;
      if (x.v.s == UNDEF || y.v.s == UNDEF) continue;
      if (x.v.conc() && y.v.conc()) {
        __int128 a, b; if (sg == 's') { a = sx(x.v.v, w); b = sx(y.v.v, w); } else { a = (__int128)(x.v.v & maskW(w)); b = (__int128)(y.v.v & maskW(w)); }
        __int128 v = oc == Instruction::Add ? a + b : oc == Instruction::Sub ? a - b : a * b; bool ov;
        if (sg == 's') ov = v < -((__int128)1 << (w - 1)) || v >= ((__int128)1 << (w - 1)); else ov = v < 0 || v >= ((__int128)1 << w);
        if (ov) t = B.Or(t, g);
      } else {
        unsigned ww = oc == Instruction::Mul ? 2 * w : w + 2;
        z3::expr a = sg == 's' ? z3::sext(toExpr(x.v, w), ww - w) : z3::zext(toExpr(x.v, w), ww - w), b = sg == 's' ? z3::sext(toExpr(y.v, w), ww - w) : z3::zext(toExpr(y.v, w), ww - w);
        z3::expr v = oc == Instruction::Add ? a + b : oc == Instruction::Sub ? a - b : a * b;
        z3::expr back = sg == 's' ? z3::sext(v.extract(w - 1, 0), ww - w) : z3::zext(v.extract(w - 1, 0), ww - w);
        t = B.Or(t, B.And(g, predicate(v != back)));
      }
    }
    ret = {r, boolSum(t)}; return true;
  }
  if (n.rfind("llvm.fshl", 0) == 0 || n.rfind("llvm.fshr", 0) == 0) {
    unsigned w = typeBits(F->getReturnType()); bool left = n[8] == 'l';
    Sum t = lift2(args[0][0], args[1][0], [&](const Val& a, const Val& b) { if (a.s || b.s || w > 32) unsup("fsh"); return C((a.v << w) | b.v); });
    ret = {lift2(t, args[2][0], [&](const Val& a, const Val& b) { if (a.s || b.s) unsup("fsh"); u64 s = b.v % w; return C((left ? (a.v << s) >> w : a.v >> s) & maskW(w)); })};
    return true;
  }
  if (n.rfind("llvm.ctpop", 0) == 0 || n.rfind("llvm.ctlz", 0) == 0 || n.rfind("llvm.cttz", 0) == 0 || n.rfind("llvm.bswap", 0) == 0) {
    unsigned w = typeBits(F->getReturnType());
    ret = {lift1(args[0][0], [&](const Val& a) {
      if (a.s == UNDEF) return a; if (a.s) unsup(n); u64 x = a.v & maskW(w);
      if (n[8] == 'p' && n[7] == 'o') {}
      if (n.rfind("llvm.ctpop", 0) == 0) return C((u64)__builtin_popcountll(x));
      if (n.rfind("llvm.ctlz", 0) == 0) return C(x ? (u64)(__builtin_clzll(x) - (64 - (int)w)) : w);
      if (n.rfind("llvm.cttz", 0) == 0) return C(x ? (u64)__builtin_ctzll(x) : w);
      u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((x >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return C(r); })};
    return true;
  }
  if (n.rfind("llvm.fabs", 0) == 0 || n == "fabs") {
    ret = {lift1(args[0][0], [&](const Val& a) { if (a.s == UNDEF) return a; if (a.conc()) return C(a.v & 0x7fffffffffffffffull); return fpv(z3::expr(*Z, Z3_mk_fpa_abs(*Z, fpe(a, 64)))); })}; return true;
  }
  if (n == "sqrt" || n.rfind("llvm.sqrt", 0) == 0) {
    ret = {lift1(args[0][0], [&](const Val& a) { if (a.s == UNDEF) return a; if (a.conc()) return C(fromD(sqrt(asD(a.v)))); auto d = Z->function("uf_sqrt", Z->bv_sort(64), Z->bv_sort(64)); return mkTerm(d(toExpr(a, 64))); })}; return true;
  }
  if (n == "pow" || n.rfind("llvm.pow.", 0) == 0) {
    ret = {lift2(args[0][0], args[1][0], [&](const Val& a, const Val& b) { if (a.s == UNDEF || b.s == UNDEF) return U(); if (a.conc() && b.conc()) return C(fromD(pow(asD(a.v), asD(b.v)))); auto d = Z->function("uf_pow", Z->bv_sort(64), Z->bv_sort(64), Z->bv_sort(64)); return mkTerm(d(toExpr(a, 64), toExpr(b, 64))); })}; return true;
  }
  if (n == "malloc" || n == "calloc") {
    u64 sz = n == "malloc" ? (u64)cint(0) : (u64)cint(0) * (u64)cint(1);
    ret = {Sum(C(addrOf(newObj("heap", sz, n == "calloc"))))}; return true;
  }
  if (n == "fprintf" || n == "printf" || n == "puts" || n == "putchar" || n == "perror" || n == "fputs" || n == "fputc" || n == "fwrite") {
    // formatted output on any stream: every possible text is handed to the harness hook vs_on_output(const char*)
    const Function* hook = Mod->getFunction("vs_on_output");
    ret = {Sum(C(0))};
    if (!hook || hook->isDeclaration()) return true;
    std::vector<std::pair<G, std::string>> texts;
    if (n == "fprintf" || n == "printf") {
      size_t fi = n == "fprintf" ? 1 : 0;
      for (auto& c : combos(args, pc)) {
        std::string fmt = cstr(c.v[fi], I);
        std::vector<std::pair<G, std::string>> cur{{c.g, ""}}; size_t ai = fi + 1;
        for (size_t i = 0; i < fmt.size(); i++) {
          if (fmt[i] != '%') { for (auto& x : cur) x.second += fmt[i]; continue; }
          std::string spec = "%"; i++; while (i < fmt.size() && strchr("-+ #0123456789.", fmt[i])) spec += fmt[i++];
          while (i < fmt.size() && strchr("lzhj", fmt[i])) i++;
          char k = fmt[i];
          if (k == '%') { for (auto& x : cur) x.second += '%'; continue; }
          if (ai >= c.v.size()) unsup("printf args");
          Val a = c.v[ai]; Type* at = I->getArgOperand((unsigned)ai)->getType(); ai++;
          char bb[512];
          if (k == 's') { std::vector<std::pair<G, std::string>> nx; for (auto& x : cur) { std::vector<std::pair<G, std::string>> o; cstrs(a, x.first, I, "", o); for (auto& y : o) { snprintf(bb, 512, (spec + "s").c_str(), y.second.c_str()); nx.push_back({y.first, x.second + (spec == "%" ? y.second : std::string(bb))}); } } cur.swap(nx); continue; }
          if (a.s == UNDEF) { violate("memory: uninitialised value printed", locOf(I), c.g); cur.clear(); break; }
          if (a.s) unsup("symbolic printf arg");
          std::string t; unsigned w = typeBits(at);
          if (k == 'd' || k == 'i') { snprintf(bb, 512, (spec + "lld").c_str(), (long long)sx(a.v, w)); t = bb; }
          else if (k == 'u' || k == 'x' || k == 'X' || k == 'o') { snprintf(bb, 512, (spec + "ll" + k).c_str(), (unsigned long long)(a.v & maskW(w))); t = bb; }
          else if (k == 'c') t = std::string(1, (char)a.v); else if (strchr("fFeEgG", k)) { snprintf(bb, 512, (spec + k).c_str(), asD(a.v)); t = bb; } else unsup(std::string("printf %") + k);
          for (auto& x : cur) x.second += t;
        }
        for (auto& x : cur) texts.push_back(x);
      }
    } else if (n == "puts") { for (auto& c : combos({args[0]}, pc)) { std::vector<std::pair<G, std::string>> o; cstrs(c.v[0], c.g, I, "", o); for (auto& x : o) { x.second += "\n"; texts.push_back(x); } } }
    else if (n == "fputs") { for (auto& c : combos({args[0]}, pc)) cstrs(c.v[0], c.g, I, "", texts); }
    else if (n == "fwrite") { for (auto& c : combos({args[0], args[1], args[2]}, pc)) { std::vector<std::pair<G, std::string>> o; cstrs(c.v[0], c.g, I, "", o); for (auto& x : o) { x.second = x.second.substr(0, c.v[1].v * c.v[2].v); texts.push_back(x); } } }
    else if (n == "putchar" || n == "fputc") { for (auto& x : args[0][0].e) texts.push_back({B.And(x.g, pc), std::string(1, (char)x.v.v)}); }
    std::map<std::string, G> grp; std::vector<std::string> order;
    for (auto& t : texts) { if (!grp.count(t.second)) order.push_back(t.second); G& g = grp[t.second]; g = B.Or(g, t.first); }
    G out = 0;
    for (auto& s : order) { Reg r; out = B.Or(out, callFn(hook, {Reg{Sum(C(strObj(s)))}}, grp[s], r, depth + 1)); }
    pc = B.And(pc, out);
    return true;
  }
  if (n == "atoi" || n == "atol" || n == "atoll" || n == "strtol" || n == "strtoll" || n == "strtoul" || n == "strtoull" || n == "strtod" || n == "atof" || n == "strtof") {
    bool fl = n == "strtod" || n == "atof" || n == "strtof", hasEnd = n[0] == 's';
    unsigned w = typeBits(I->getType()); SumBuilder rb; G done = 0;
    for (auto& c : combos(args, pc)) {
      std::vector<std::pair<G, std::string>> ss; cstrs(c.v[0], c.g, I, "", ss);
      for (auto& st : ss) {
        const char* b = st.second.c_str(); char* end = nullptr; G g = st.first; done = B.Or(done, g); u64 v;
        if (n == "strtof") v = fromF(strtof(b, &end)); else if (fl) v = fromD(strtod(b, &end));
        else { int base = hasEnd && !fl ? (int)c.v[2].v : 10; if (n == "strtoul" || n == "strtoull") v = strtoull(b, &end, base); else v = (u64)strtoll(b, &end, base); v &= maskW(w); }
        if (hasEnd && c.v[1].v) { G gg = g; storeScalar(Sum(c.v[1]), Sum(C(c.v[0].v + (u64)(end - b))), PointerType::get(ctx, 0), gg, I); }
        rb.add(g, C(v));
      }
    }
    pc = B.And(pc, done); ret = {rb.take()}; return true;
  }
  if (n == "sscanf" || n == "__isoc99_sscanf") {
    SumBuilder rb; G done = 0;
    for (auto& c : combos(args, pc)) {
      std::string fmt = cstr(c.v[1], I);
      std::vector<std::pair<G, std::string>> ss; cstrs(c.v[0], c.g, I, "", ss);
      for (auto& st : ss) {
        const std::string& s = st.second; G g = st.first; done = B.Or(done, g);
        size_t p = 0, ai = 2; int cnt = 0; bool fail = false; bool eof = false;
        for (size_t i = 0; i < fmt.size() && !fail; i++) {
          if (isspace((unsigned char)fmt[i])) { while (p < s.size() && isspace((unsigned char)s[p])) p++; continue; }
          if (fmt[i] != '%') { if (p < s.size() && s[p] == fmt[i]) p++; else fail = true; continue; }
          i++; bool skip = false; if (fmt[i] == '*') { skip = true; i++; }
          int width = 0; while (isdigit((unsigned char)fmt[i])) width = width * 10 + fmt[i++] - '0';
          std::string mod; while (strchr("lhzj", fmt[i])) mod += fmt[i++];
          char k = fmt[i];
          if (k == 'n') { G gg = g; storeScalar(Sum(c.v[ai++]), Sum(C((u64)p)), Type::getInt32Ty(ctx), gg, I); continue; }
          if (k != 'c') while (p < s.size() && isspace((unsigned char)s[p])) p++;
          if (p >= s.size()) { fail = true; if (!cnt) eof = true; break; }
          if (k == 'c') { if (!skip) { G gg = g; storeScalar(Sum(c.v[ai++]), Sum(C((unsigned char)s[p])), Type::getInt8Ty(ctx), gg, I); cnt++; } p++; continue; }
          if (k == 's') { size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q]) && (!width || (int)(q - p) < width)) q++; if (!skip) { storeStr(c.v[ai++].v, s.substr(p, q - p), g, I); cnt++; } p = q; continue; }
          if (k == 'd' || k == 'u' || k == 'i' || k == 'x') {
            std::string num = width ? s.substr(p, (size_t)width) : s.substr(p);
            char* end; i64 v = strtoll(num.c_str(), &end, k == 'i' ? 0 : k == 'x' ? 16 : 10);
            if (end == num.c_str()) { fail = true; break; }
            Type* st = mod == "l" || mod == "ll" || mod == "z" || mod == "j" ? Type::getInt64Ty(ctx) : mod == "h" ? Type::getInt16Ty(ctx) : mod == "hh" ? Type::getInt8Ty(ctx) : Type::getInt32Ty(ctx);
            if (!skip) { G gg = g; storeScalar(Sum(c.v[ai++]), Sum(C((u64)v & maskW(typeBits(st)))), st, gg, I); cnt++; }
            p += (size_t)(end - num.c_str()); continue;
          }
          if (k == 'f' || k == 'g' || k == 'e') {
            char* end; double v = strtod(s.c_str() + p, &end); if (end == s.c_str() + p) { fail = true; break; }
            if (!skip) { G gg = g; if (mod == "l") storeScalar(Sum(c.v[ai++]), Sum(C(fromD(v))), Type::getDoubleTy(ctx), gg, I); else storeScalar(Sum(c.v[ai++]), Sum(C(fromF((float)v))), Type::getFloatTy(ctx), gg, I); cnt++; }
            p = (size_t)(end - s.c_str()); continue;
          }
          unsup(std::string("scanf %") + k);
        }
        rb.add(g, C((u64)(eof ? -1 : cnt) & 0xffffffffu));
      }
    }
    pc = B.And(pc, done); ret = {rb.take()}; return true;
  }
  return false;
}

static G execBlock(Frame& f, const BasicBlock* bb, int depth);
static void execRegion(Frame& f, Loop* L, int depth) {
  for (auto& it : f.fi->items[L]) {
    if (it.bb) { auto p = f.pend.find(it.bb); if (p != f.pend.end() && p->second.g) execBlock(f, it.bb, depth); }
    else {
      u64 k = 0;
      for (;;) { auto p = f.pend.find(it.loop->getHeader()); if (p == f.pend.end() || !p->second.g) break; execRegion(f, it.loop, depth); if (++k > loopCap) { auto q = f.pend.find(it.loop->getHeader()); if (q != f.pend.end()) { violate("hang", f.F->getName().str(), q->second.g); f.pend.erase(q); } break; } }
    }
  }
}
static Sum gepSum(Frame& f, const GEPOperator* g, G pc) {
  Sum acc = get1(f, g->getPointerOperand(), pc);
  APInt off(64, 0);
  if (g->accumulateConstantOffset(*DL, off)) { u64 o = off.getZExtValue(); return lift1(acc, [&](const Val& v) { if (v.s == UNDEF) return v; if (v.s) unsup("symbolic gep base"); return C(v.v + o); }); }
  for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
    Value* op = gi.getOperand();
    if (StructType* st = gi.getStructTypeOrNull()) { u64 o = DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(op)->getZExtValue()); acc = lift1(acc, [&](const Val& v) { return v.s ? v : C(v.v + o); }); }
    else {
      u64 es = DL->getTypeAllocSize(gi.getIndexedType()); unsigned w = typeBits(op->getType());
      Sum ix = get1(f, op, pc);
      acc = lift2(acc, ix, [&](const Val& a, const Val& b) { if (a.s == UNDEF || b.s == UNDEF) return U(); if (a.s || b.s) unsup("symbolic index in " + f.F->getName().str()); return C(a.v + (u64)sx(b.v, w) * es); });
    }
  }
  return acc;
}

static G execBlock(Frame& f, const BasicBlock* bb, int depth) {
  Frame::Pend p = std::move(f.pend[bb]); f.pend.erase(bb);
  G pc = p.g;
  for (auto& x : p.phi) { Reg r; for (auto& sb : x.second) r.push_back(sb.take()); regOf(f, x.first) = std::move(r); }
  for (auto& in : *bb) {
    const Instruction* I = &in;
    if (isa<PHINode>(I)) continue;
    nInstr++;
    if ((nInstr & 1023) == 0 && now() - T0 > timeLimit) unsup("time limit");
    if (!pc) return 0;
    switch (I->getOpcode()) {
      case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I); u64 sz = DL->getTypeAllocSize(a->getAllocatedType());
        if (a->isArrayAllocation()) { Sum c = get1(f, a->getArraySize(), pc); if (!c.single() || c.e[0].v.s) unsup("dynamic alloca"); sz *= c.e[0].v.v; }
        size_t id = newObj(f.F->getName().str() + "." + a->getName().str(), sz, false); f.allocas.push_back(id);
        set1(f, I, Sum(C(addrOf(id)))); break;
      }
      case Instruction::Load: {
        auto* l = cast<LoadInst>(I); Sum ptr = get1(f, l->getPointerOperand(), pc);
        std::vector<std::pair<Type*, u64>> lv; leafOffsets(l->getType(), 0, lv); Reg r;
        for (auto& x : lv) { Sum pp = x.second ? lift1(ptr, [&](const Val& v) { return v.s ? v : C(v.v + x.second); }) : ptr; r.push_back(loadScalar(pp, x.first, pc, I)); }
        regOf(f, I) = std::move(r); break;
      }
      case Instruction::Store: {
        auto* s = cast<StoreInst>(I); Sum ptr = get1(f, s->getPointerOperand(), pc); Reg v = get(f, s->getValueOperand(), pc);
        std::vector<std::pair<Type*, u64>> lv; leafOffsets(s->getValueOperand()->getType(), 0, lv);
        for (size_t i = 0; i < lv.size(); i++) { Sum pp = lv[i].second ? lift1(ptr, [&](const Val& q) { return q.s ? q : C(q.v + lv[i].second); }) : ptr; storeScalar(pp, v[i], lv[i].first, pc, I); }
        break;
      }
      case Instruction::GetElementPtr: set1(f, I, gepSum(f, cast<GEPOperator>(I), pc)); break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        unsigned w = typeBits(I->getType()), op = I->getOpcode();
        Sum a = get1(f, I->getOperand(0), pc), b = get1(f, I->getOperand(1), pc);
        if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
          G z = B.Diff(pc, truth(icmp(CmpInst::ICMP_NE, w, b, Sum(C(0))), pc, I));
          if (z) { violate("arithmetic: division by zero", locOf(I), z); pc = B.Diff(pc, z); if (!pc) return 0; a = restrictTo(a, pc); b = restrictTo(b, pc); }
          if (op == Instruction::SDiv || op == Instruction::SRem) {
            G m = B.And(truth(icmp(CmpInst::ICMP_EQ, w, b, Sum(C(maskW(w)))), pc, I), truth(icmp(CmpInst::ICMP_EQ, w, a, Sum(C(1ull << (w - 1)))), pc, I));
            m = B.And(m, pc);
            if (m) { violate("arithmetic: signed division overflow", locOf(I), m); pc = B.Diff(pc, m); if (!pc) return 0; a = restrictTo(a, pc); b = restrictTo(b, pc); }
          }
        }
        if (w == 1 && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) {
          bool und = false; for (auto& x : a.e) und |= x.v.s == UNDEF; for (auto& x : b.e) und |= x.v.s == UNDEF;
          if (!und) { G x = truth(a, pc, I), y = truth(b, pc, I); set1(f, I, restrictTo(boolSum(op == Instruction::And ? B.And(x, y) : op == Instruction::Or ? B.Or(x, y) : B.Xor(x, y)), pc)); break; }
        }
        if (foldSums && w > 1) { a = fold(a, w); b = fold(b, w); }
        set1(f, I, lift2(a, b, [&](const Val& x, const Val& y) { return binop(I, op, w, x, y); })); break;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        unsigned w = typeBits(I->getType()); Sum a = get1(f, I->getOperand(0), pc), b = get1(f, I->getOperand(1), pc);
        set1(f, I, lift2(a, b, [&](const Val& x, const Val& y) { return fbinop(I->getOpcode(), w, x, y); })); break;
      }
      case Instruction::FNeg: {
        unsigned w = typeBits(I->getType()); Sum a = get1(f, I->getOperand(0), pc);
        set1(f, I, lift1(a, [&](const Val& x) { if (x.s == UNDEF) return x; if (x.conc()) return C(x.v ^ (1ull << (w - 1))); return fpv(z3::expr(*Z, Z3_mk_fpa_neg(*Z, fpe(x, w)))); })); break;
      }
      case Instruction::ICmp: { unsigned w = typeBits(I->getOperand(0)->getType()); set1(f, I, restrictTo(icmp(cast<ICmpInst>(I)->getPredicate(), w, get1(f, I->getOperand(0), pc), get1(f, I->getOperand(1), pc)), pc)); break; }
      case Instruction::FCmp: { unsigned w = typeBits(I->getOperand(0)->getType()); set1(f, I, restrictTo(fcmp(cast<FCmpInst>(I)->getPredicate(), w, get1(f, I->getOperand(0), pc), get1(f, I->getOperand(1), pc)), pc)); break; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast: {
        unsigned w = typeBits(I->getOperand(0)->getType()), w2 = typeBits(I->getType());
        Sum a = get1(f, I->getOperand(0), pc);
        Sum r = lift1(a, [&](const Val& x) { return castVal(I->getOpcode(), w, w2, false, false, x); });
        if (w2 == 1) { for (auto& x : r.e) if (x.v.s && x.v.s != UNDEF) { G t = truth(r, pc, I); r = restrictTo(boolSum(t), pc); break; } }
        set1(f, I, std::move(r)); break;
      }
      case Instruction::Freeze: { Reg r = get(f, I->getOperand(0), pc); for (auto& s : r) { bool u = false; for (auto& x : s.e) u |= x.v.s == UNDEF; if (u) s = lift1(s, [&](const Val& x) { return x.s == UNDEF ? C(0) : x; }); } regOf(f, I) = r; break; }
      case Instruction::Select: {
        auto* s = cast<SelectInst>(I); Sum c = get1(f, s->getCondition(), pc);
        bool und = false; for (auto& x : c.e) und |= x.v.s == UNDEF;
        G t; G pcs = pc; if (und) { G tt = 0; for (auto& x : c.e) if (x.v.s == 0 && (x.v.v & 1)) tt = B.Or(tt, x.g); t = B.And(tt, pc); } else t = truth(c, pcs, I);
        G uu = 0; if (und) for (auto& x : c.e) if (x.v.s == UNDEF) uu = B.Or(uu, B.And(x.g, pc));
        G e = B.Diff(B.Diff(pc, t), uu);
        Reg a = get(f, s->getTrueValue(), t), b = get(f, s->getFalseValue(), e), r;
        for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { SumBuilder sb; if (t) for (auto& x : a[i].e) sb.add(B.And(x.g, t), x.v); if (e) for (auto& x : b[i].e) sb.add(B.And(x.g, e), x.v); if (uu) sb.add(uu, U()); r.push_back(sb.take()); }
        regOf(f, I) = std::move(r); break;
      }
      case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(I); Reg a = get(f, ev->getAggregateOperand(), pc);
        Type* t = ev->getAggregateOperand()->getType(); size_t pos = 0;
        for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) { std::vector<Type*> l; leafTypes(st->getElementType(k), l); pos += l.size(); } t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); std::vector<Type*> l; leafTypes(at->getElementType(), l); pos += l.size() * ix; t = at->getElementType(); } }
        std::vector<Type*> l; leafTypes(t, l); Reg r(a.begin() + pos, a.begin() + pos + l.size()); regOf(f, I) = r; break;
      }
      case Instruction::InsertValue: {
        auto* ev = cast<InsertValueInst>(I); Reg a = get(f, ev->getAggregateOperand(), pc); Reg v = get(f, ev->getInsertedValueOperand(), pc);
        Type* t = ev->getAggregateOperand()->getType(); size_t pos = 0;
        for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) { std::vector<Type*> l; leafTypes(st->getElementType(k), l); pos += l.size(); } t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); std::vector<Type*> l; leafTypes(at->getElementType(), l); pos += l.size() * ix; t = at->getElementType(); } }
        for (size_t i = 0; i < v.size(); i++) a[pos + i] = v[i]; regOf(f, I) = a; break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(I);
        std::vector<Reg> args; for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) continue; args.push_back(get(f, a, pc)); }
        Sum callee; const Function* direct = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        Reg ret; G out = 0;
        auto doCall = [&](const Function* F, G g) {
          Reg r; G o = g;
          std::vector<Reg> as; for (auto& a : args) { Reg q; for (auto& s : a) q.push_back(restrictTo(s, g)); as.push_back(q); }
          for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) {
            u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); size_t id = newObj("byval", sz, false); f.allocas.push_back(id);
            std::vector<std::pair<Type*, u64>> lv; leafOffsets(cb->getParamByValType(i), 0, lv);
            for (auto& x : lv) { Sum pp = lift1(as[i][0], [&](const Val& v) { return v.s ? v : C(v.v + x.second); }); Sum v = loadScalar(pp, x.first, o, I); G oo = o; storeScalar(Sum(C(addrOf(id) + x.second)), v, x.first, oo, I); }
            as[i] = {Sum(C(addrOf(id)))};
          }
          if (F->isDeclaration() || F->getName().starts_with("vs_") && F->isDeclaration()) {
            if (!builtin(f, cb, F, as, o, r, depth)) unsup("call to " + F->getName().str());
          } else o = callFn(F, as, o, r, depth + 1);
          if (!I->getType()->isVoidTy()) { if (ret.empty() && o == g && g == pc) ret = r; else if (o) { if (ret.size() < r.size()) ret.resize(r.size()); for (size_t k = 0; k < r.size(); k++) { SumBuilder sb; for (auto& x : ret[k].e) sb.add(B.And(x.g, out), x.v); for (auto& x : r[k].e) sb.add(B.And(x.g, o), x.v); ret[k] = sb.take(); } } }
          out = B.Or(out, o);
        };
        if (direct) doCall(direct, pc);
        else {
          if (cb->isInlineAsm()) { out = pc; }
          else {
            Sum c = get1(f, cb->getCalledOperand(), pc);
            for (auto& x : c.e) { G g = B.And(x.g, pc); if (!g) continue; u64 id = x.v.v >> 32; if (x.v.s || id == 0 || id >= objs.size() || !objs[id].fn) { violate("memory: bad function pointer", locOf(I), g); continue; } doCall(objs[id].fn, g); }
          }
        }
        pc = out;
        if (!pc) return 0;
        if (!I->getType()->isVoidTy()) { Reg r; for (auto& s : ret) r.push_back(restrictTo(s, pc)); regOf(f, I) = r; }
        if (auto* iv = dyn_cast<InvokeInst>(I)) { propagate(f, bb, iv->getNormalDest(), pc); return 0; }
        break;
      }
      case Instruction::Br: {
        auto* br = cast<BranchInst>(I);
        if (br->isUnconditional()) { propagate(f, bb, br->getSuccessor(0), pc); return 0; }
        G t = truth(get1(f, br->getCondition(), pc), pc, I); G e = B.Diff(pc, t);
        if (br->getSuccessor(0) == br->getSuccessor(1)) { propagate(f, bb, br->getSuccessor(0), pc); return 0; }
        propagate(f, bb, br->getSuccessor(0), t); propagate(f, bb, br->getSuccessor(1), e); return 0;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I); Sum c = get1(f, sw->getCondition(), pc); unsigned w = typeBits(sw->getCondition()->getType());
        std::map<const BasicBlock*, G> dst;
        for (auto& x : c.e) {
          G g = B.And(x.g, pc); if (!g) continue;
          if (x.v.s == UNDEF) { violate("memory: branch on uninitialised value", locOf(I), g); continue; }
          if (x.v.conc()) { auto* cs = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), x.v.v))->getCaseSuccessor(); G& d = dst[cs]; d = B.Or(d, g); }
          else { G rest = g; for (auto& k : sw->cases()) { G q = B.And(rest, predicate(toExpr(x.v, w) == Z->bv_val((uint64_t)k.getCaseValue()->getZExtValue(), w))); G& d = dst[k.getCaseSuccessor()]; d = B.Or(d, q); rest = B.Diff(rest, q); } G& d = dst[sw->getDefaultDest()]; d = B.Or(d, rest); }
        }
        for (auto& d : dst) propagate(f, bb, d.first, d.second);
        return 0;
      }
      case Instruction::Ret: {
        auto* r = cast<ReturnInst>(I);
        if (r->getReturnValue()) { Reg v = get(f, r->getReturnValue(), pc); if (f.ret.size() < v.size()) f.ret.resize(v.size()); for (size_t i = 0; i < v.size(); i++) for (auto& x : v[i].e) f.ret[i].add(B.And(x.g, pc), x.v); }
        f.outG = B.Or(f.outG, pc); return 0;
      }
      case Instruction::Unreachable: violate("abort", "unreachable code in " + locOf(I), pc); return 0;
      case Instruction::Fence: break;
      default: unsup("instruction " + valStr(I));
    }
  }
  return 0;
}
static int dumpOut = 0;
static G callFn(const Function* F, std::vector<Reg> args, G pc, Reg& ret, int depth) {
  if (depth > 300) unsup("recursion depth");
  if (F->isDeclaration()) unsup("call to undefined " + F->getName().str());
  executed.insert(F->getName().str());
  Frame f; f.F = F; f.fi = &info(*F); f.regs.resize(f.fi->nslots);
  size_t i = 0; for (auto& a : F->args()) { if (i < args.size()) f.regs[f.fi->slot[&a]] = std::move(args[i]); i++; }
  f.pend[&F->getEntryBlock()].g = pc;
  execRegion(f, nullptr, depth);
  for (auto& kv : f.pend) if (kv.second.g) unsup("unprocessed block in " + F->getName().str());
  for (size_t id : f.allocas) { objs[id].dead = true; objs[id].cells.clear(); }
  ret.clear(); for (auto& s : f.ret) ret.push_back(s.take());
  return f.outG;
}

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } return o; }

int main(int argc, char** argv) {
  T0 = now();
  std::string file, entry = "main", smtDir; unsigned qms = 120000; bool one = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--timeout") timeLimit = atof(argv[++i]);
    else if (a == "--query-ms") qms = (unsigned)atoi(argv[++i]);
    else if (a == "--loop-cap") loopCap = strtoull(argv[++i], nullptr, 10);
    else if (a == "--fold") foldSums = true;
    else if (a == "--smt") smtDir = argv[++i];
    else file = a;
  }
  Z = new z3::context(); terms = new std::vector<z3::expr>(); bddVars = new std::vector<z3::expr>(); bddExprs = new std::vector<z3::expr>();
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("vsym", errs()); return 3; }
  Mod = M.get(); DL = &M->getDataLayout();
  objs.emplace_back();  // id 0 = null
  std::string status = "ok", what; double texec = 0;
  try {
    for (auto& F : *M) { size_t id = newObj(F.getName().str(), 1, false); objs[id].fn = &F; gaddr[&F] = addrOf(id); }
    for (auto& g : M->globals()) { size_t id = newObj(g.getName().str(), g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0, true); gaddr[&g] = addrOf(id); }
    for (auto& g : M->globals()) if (g.hasInitializer()) { Obj& o = objs[gaddr[&g] >> 32]; initGlobal(o, g.getInitializer(), 0); o.ro = g.isConstant(); }
    Function* F = M->getFunction(entry);
    if (!F) unsup("no entry " + entry);
    Reg r; std::vector<Reg> args; for (auto& a : F->args()) { (void)a; args.push_back(Reg{Sum(C(0))}); }
    G out = callFn(F, args, 1, r, 0);
    reach[-1] = out;
  } catch (Unsupported& u) { status = "unsupported"; what = u.what; }
  catch (z3::exception& e) { status = "unsupported"; what = std::string("z3: ") + e.msg(); }
  texec = now() - T0;
  // decide the obligations
  std::ostringstream js; js << "{\"status\":\"" << status << "\",\"what\":\"" << jesc(what) << "\",\"exec_s\":" << texec;
  int nq = 0; double tq = 0; std::string verdict = "unknown";
  std::ostringstream viol; bool any = false, unk = false; bool firstv = true;
  if (status == "ok") {
    z3::solver s(*Z); z3::params p(*Z); p.set("timeout", qms); s.set(p);
    // with floats each query gets a solver of its own: z3 then preprocesses it as a whole
    auto check = [&](z3::expr e) { if (tq > 4e-3 * qms) { if (!usesFP) s.push(); return z3::unknown; } if (usesFP) { z3::solver f(*Z); f.set(p); s = f; } else s.push(); s.add(e); double t = now(); auto r = s.check(); tq += now() - t; nq++; return r; };
    auto pop = [&]() { if (!usesFP) s.pop(); };
    try {
    // 1: all obligations at once
    z3::expr_vector ov(*Z); for (auto& o : obls) ov.push_back(bddExpr(o.g));
    for (auto& a : assertPairs) ov.push_back(bddExpr(a.first.first) && !bddExpr(a.first.second));
    z3::check_result r0 = z3::unsat;
    z3::expr all = ov.empty() ? Z->bool_val(false) : z3::mk_or(ov);
    if (!smtDir.empty()) { z3::solver d(*Z); d.add(all); std::ofstream(smtDir) << d.to_smt2(); }
    r0 = check(all);
    if (r0 != z3::unsat) {
      pop();
      for (auto& o : obls) {
        auto r = check(bddExpr(o.g));
        if (r == z3::sat) {
          any = true; z3::model m = s.get_model();
          if (!firstv) viol << ","; firstv = false;
          viol << "{\"kind\":\"" << jesc(o.kind) << "\",\"where\":\"" << jesc(o.where) << "\",\"inputs\":{";
          bool fi = true;
          for (auto& b : boolInputs) { z3::expr v = m.eval(Z->bool_const(("b" + std::to_string(b.first)).c_str()), true); if (!fi) viol << ","; fi = false; viol << "\"b" << b.first << "\":" << (v.is_true() ? 1 : 0); }
          for (auto& b : smallInputs) { u64 c = 0; for (size_t k = 0; k < smallBits[b.first].size(); k++) { z3::expr v = m.eval(Z->bool_const(("s" + std::to_string(b.first) + "_" + std::to_string(k)).c_str()), true); if (v.is_true()) c |= 1ull << k; } i64 val = std::min<i64>(smallRange[b.first].first + (i64)c, smallRange[b.first].second); if (!fi) viol << ","; fi = false; viol << "\"s" << b.first << "\":" << val; }
          for (auto& t : inputKinds) { z3::expr v = m.eval(Z->bv_const(t.first.c_str(), (unsigned)t.second.second), true); uint64_t u = 0; Z3_get_numeral_uint64(*Z, v, &u); if (!fi) viol << ","; fi = false; viol << "\"" << t.first << "\":" << u; }
          viol << "}}";
        } else if (r == z3::unknown) unk = true;
        pop();
      }
      verdict = any ? "violated" : unk ? "unknown" : "holds";
    } else { pop(); verdict = "holds"; }
    // 2: vacuity witnesses: every vs_reach point and the end of the harness must be reachable
    } catch (z3::exception& e) { verdict = "unknown"; what = e.msg(); }
    js << ",\"witness\":{"; bool fw = true;
    try { for (auto& r : reach) { auto c = check(bddExpr(r.second)); pop(); if (!fw) js << ","; fw = false; js << "\"" << r.first << "\":" << (c == z3::sat ? 1 : c == z3::unknown ? -1 : 0); } } catch (z3::exception&) {}
    js << "}";
  }
  js << ",\"verdict\":\"" << verdict << "\",\"violations\":[" << viol.str() << "],\"queries\":" << nq << ",\"query_s\":" << tq << ",\"asserts\":" << nAsserts << ",\"obligations\":" << (obls.size() + assertPairs.size()) << ",\"violation_sites\":" << obls.size()
     << ",\"instructions\":" << nInstr << ",\"bdd_nodes\":" << B.n.size() << ",\"atoms\":" << bddVars->size() << ",\"max_summary\":" << maxSum << ",\"bool_inputs\":" << boolInputs.size() << ",\"functions\":[";
  bool ff = true; for (auto& e : executed) { if (!ff) js << ","; ff = false; js << "\"" << jesc(e) << "\""; }
  js << "]}";
  std::cout << js.str() << "\n";
  std::cout.flush();
  _exit(0);
}
