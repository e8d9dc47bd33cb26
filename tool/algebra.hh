// Value numbering of floating point expressions modulo the field axioms: an
// SSA value is a rational function of its opaque leaves (loads, phis, results
// of uninterpreted functions). A comparison whose two sides differ by a
// constant is decided. Only instructions which carry the 'reassoc' flag are
// interpreted.
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include <cmath>
#include <map>
#include <string>
#include <vector>
namespace alg {
using namespace llvm;
using Num = long double;
using Mono = std::vector<std::pair<int,int>>;
using Poly = std::map<Mono, Num>;
constexpr size_t limit = 6000;
struct Rat { Poly n; std::map<int,int> d; };   // n / prod factor^e
struct TooBig {};
struct Ctx {
  std::map<std::string, int> vars; std::map<int, Rat> square;     // sqrt leaves know their square
  std::vector<Poly> factors; std::map<std::string, int> factorIds;
  std::map<const Value*, Rat> memo;
  long budget = 20000000;
  bool big = false;
  int var(const std::string& k) { return vars.emplace(k, (int)vars.size()).first->second; }
  static std::string str(const Poly& p) { std::string s; for (auto& [m, c] : p) { char b[40]; snprintf(b, 40, "%.10Lg", c); s += b; for (auto& [v, e] : m) s += "v" + std::to_string(v) + "^" + std::to_string(e); s += "+"; } return s; }
  static std::string str(const Rat& r) { std::string s = str(r.n) + "/"; for (auto& [f, e] : r.d) s += "f" + std::to_string(f) + "^" + std::to_string(e); return s; }
  static void acc(Poly& p, const Mono& m, Num c) {
    if (c == 0) return;
    auto [it, fresh] = p.emplace(m, c);
    if (fresh) return;
    Num s = it->second + c;
    if (std::fabs(s) <= 1e-11L*(std::fabs(it->second) + std::fabs(c))) p.erase(it); else it->second = s;
  }
  static Mono mul(const Mono& a, const Mono& b) {
    Mono r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; }
    }
    return r;
  }
  Poly mul(const Poly& a, const Poly& b) {
    budget -= (long)(a.size()*b.size()); if (budget < 0) big = true;
    Poly r; if (big) return r;
    for (auto& [m, c] : a) { for (auto& [n, d] : b) acc(r, mul(m, n), c*d); if (r.size() > limit) { big = true; return r; } }
    return r;
  }
  static Poly add(Poly a, const Poly& b, Num s = 1) { for (auto& [m, c] : b) acc(a, m, s*c); return a; }
  static bool constant(const Poly& p, Num& c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { c = p.begin()->second; return true; } return false; }
  static bool quot(const Mono& a, const Mono& b, Mono& r) { r.clear(); size_t i = 0; for (auto& [v, e] : b) { while (i < a.size() && a[i].first < v) r.push_back(a[i++]); if (i == a.size() || a[i].first != v || a[i].second < e) return false; if (a[i].second > e) r.push_back({v, a[i].second - e}); ++i; } while (i < a.size()) r.push_back(a[i++]); return true; }
  // total degree, then lexicographic: a monomial order
  static bool less(const Mono& a, const Mono& b) { int x = 0, y = 0; for (auto& p : a) x += p.second; for (auto& p : b) y += p.second; if (x != y) return x < y; size_t i = 0; for (; i < a.size() && i < b.size(); ++i) { if (a[i].first != b[i].first) return a[i].first > b[i].first; if (a[i].second != b[i].second) return a[i].second < b[i].second; } return i == a.size() && i < b.size(); }
  static Poly::const_iterator lead(const Poly& p) { auto r = p.begin(); for (auto i = p.begin(); i != p.end(); ++i) if (less(r->first, i->first)) r = i; return r; }
  bool divide(const Poly& a, const Poly& f, Poly& q) {
    if (a.size() > 400 || f.size() > 40) return false;
    q.clear(); Poly r = a; auto lf = lead(f); int steps = 0;
    while (!r.empty()) { if (++steps > 500) return false; auto lr = lead(r); Mono m; if (!quot(lr->first, lf->first, m)) return false; Num c = lr->second/lf->second; Mono lm = lr->first; acc(q, m, c); for (auto& [k, d] : f) { Mono t = mul(k, m); if (t == lm) r.erase(t); else acc(r, t, -c*d); } budget -= f.size(); }
    return true;
  }
  void cancel(Rat& r) {
    if (r.n.empty()) { r.d.clear(); return; }
    for (auto it = r.d.begin(); it != r.d.end();) { Poly q; while (it->second > 0 && divide(r.n, factors[it->first], q)) { r.n = q; --it->second; } if (it->second == 0) it = r.d.erase(it); else ++it; }
  }
  int factor(const Poly& p) { auto k = str(p); auto [it, fresh] = factorIds.emplace(k, (int)factors.size()); if (fresh) factors.push_back(p); return it->second; }
  static Rat num(Num c) { Rat r; if (c != 0) r.n[{}] = c; return r; }
  Rat leaf(const std::string& k) { Rat r; r.n[{{var(k), 1}}] = 1; return r; }
  Poly expand(const std::map<int,int>& d) { Poly p; p[{}] = 1; for (auto& [f, e] : d) for (int i = 0; i < e; ++i) p = mul(p, factors[f]); return p; }
  Rat add(const Rat& a, const Rat& b, Num s = 1) {
    if (a.d == b.d) { Rat r{add(a.n, b.n, s), a.d}; cancel(r); return r; }
    Rat r; r.d = a.d; for (auto& [f, e] : b.d) { int& x = r.d[f]; x = std::max(x, e); }
    auto miss = [&](const std::map<int,int>& d) { std::map<int,int> m; for (auto& [f, e] : r.d) { auto it = d.find(f); int k = e - (it == d.end() ? 0 : it->second); if (k) m[f] = k; } return m; };
    r.n = add(mul(a.n, expand(miss(a.d))), mul(b.n, expand(miss(b.d))), s); cancel(r); return r;
  }
  Rat reduce(Rat r) {   // v^2 -> radicand
    for (int guard = 0; guard < 8 && !big; ++guard) {
      int v = -1;
      for (auto& [m, c] : r.n) for (auto& [w, e] : m) if (e >= 2 && square.count(w)) v = w;
      if (v < 0) break;
      Poly keep; std::map<int, Poly> by;
      for (auto& [m, c] : r.n) { int k = 0; Mono t; for (auto& [w, e] : m) if (w == v && e >= 2) { k = e/2; if (e%2) t.push_back({w, 1}); } else t.push_back({w, e}); if (k) acc(by[k], t, c); else acc(keep, m, c); }
      Rat s{keep, {}};
      for (auto& [k, p] : by) { Rat t{p, {}}; for (int i = 0; i < k; ++i) t = mulRaw(t, square[v]); s = add(s, t); }
      Rat d; d.n[{}] = 1; d.d = r.d; r = mulRaw(s, d);
    }
    for (auto it = r.d.begin(); it != r.d.end() && !big;) {   // 1/v^2
      auto& f = factors[it->first];
      if (it->second >= 2 && f.size() == 1 && f.begin()->first.size() == 1 && f.begin()->first[0].second == 1 && square.count(f.begin()->first[0].first)) {
        int v = f.begin()->first[0].first, k = it->second/2; Rat s = r; s.d[it->first] -= 2*k; if (!s.d[it->first]) s.d.erase(it->first);
        Rat q = inv(square[v]); for (int i = 0; i < k; ++i) s = mulRaw(s, q); r = s; it = r.d.begin();
      } else ++it;
    }
    return r;
  }
  Rat mulRaw(const Rat& a, const Rat& b) { Rat r{mul(a.n, b.n), a.d}; for (auto& [f, e] : b.d) r.d[f] += e; cancel(r); return r; }
  Rat mul(const Rat& a, const Rat& b) { Rat r = mulRaw(a, b); return square.empty() ? r : reduce(r); }
  Rat inv(const Rat& a) {
    Rat r; r.n = expand(a.d); Num c; if (a.n.empty()) { big = true; return r; }
    if (constant(a.n, c)) { for (auto& [m, x] : r.n) x /= c; return r; }
    // split off the common monomial, normalise the leading coefficient
    Mono g = a.n.begin()->first; for (auto& [m, x] : a.n) { Mono h; for (auto& [v, e] : g) for (auto& [w, k] : m) if (v == w) h.push_back({v, std::min(e, k)}); g = h; }
    for (auto& [v, e] : g) r.d[factor({{Mono{{v, 1}}, 1}})] += e;
    Poly q; for (auto& [m, x] : a.n) { Mono t; quot(m, g, t); q[t] = x; }
    Num l = lead(q)->second; if (q.size() > 1) { for (auto& [m, x] : q) x /= l; r.d[factor(q)] += 1; }
    for (auto& [m, x] : r.n) x /= l;
    cancel(r); return r;
  }
  Rat root(const Rat& a) { Num c; if (a.d.empty() && constant(a.n, c) && c >= 0) return num(std::sqrt(c)); Rat r = leaf("sqrt(" + str(a) + ")"); square[r.n.begin()->first[0].first] = a; return r; }
  Rat magnitude(Rat a) { Num c; if (a.d.empty() && constant(a.n, c)) return num(std::fabs(c)); if (lead(a.n)->second < 0) for (auto& [m, x] : a.n) x = -x; return leaf("abs(" + str(a) + ")"); }
  static std::string ptr(const Value* v) { char b[32]; snprintf(b, 32, "%p", (const void*)v); return b; }
  std::string key(const Value* v) { if (v->getType()->isDoubleTy()) return str(eval(v)); if (auto* c = dyn_cast<ConstantInt>(v)) return "#" + std::to_string(c->getSExtValue()); return ptr(v); }
  Rat eval(const Value* v) {
    auto it = memo.find(v); if (it != memo.end()) return it->second;
    Rat r = compute(v);
    if (big && budget > 0) { big = false; r = leaf(ptr(v)); }
    return memo[v] = r;
  }
  Rat compute(const Value* v) {
    if (auto* c = dyn_cast<ConstantFP>(v)) { double x = c->getValueAPF().convertToDouble(); if (std::isfinite(x)) return num(x); return leaf(ptr(v)); }
    auto* I = dyn_cast<Instruction>(v);
    if (!I || !v->getType()->isDoubleTy()) return leaf(ptr(v));
    if (I->getOpcode() == Instruction::FNeg) return add(Rat{}, eval(I->getOperand(0)), -1);
    auto* call = dyn_cast<CallBase>(I);
    const Function* f = call ? call->getCalledFunction() : nullptr;
    auto name = f ? f->getName() : StringRef();
    if (f && (f->getIntrinsicID() == Intrinsic::sqrt || name == "sqrt")) return root(eval(call->getArgOperand(0)));
    if (f && (f->getIntrinsicID() == Intrinsic::fabs || name == "fabs")) return magnitude(eval(call->getArgOperand(0)));
    if (f && f->isDeclaration() && f->doesNotAccessMemory() && f->getIntrinsicID() != Intrinsic::fma && f->getIntrinsicID() != Intrinsic::fmuladd && f->getIntrinsicID() != Intrinsic::powi) { std::string k = name.str() + "("; for (auto& a : call->args()) k += key(a) + ","; return leaf(k); }
    if (!isa<FPMathOperator>(I) || !I->hasAllowReassoc()) return leaf(ptr(v));
    if (f && (f->getIntrinsicID() == Intrinsic::fma || f->getIntrinsicID() == Intrinsic::fmuladd)) return add(mul(eval(call->getArgOperand(0)), eval(call->getArgOperand(1))), eval(call->getArgOperand(2)));
    if (f && f->getIntrinsicID() == Intrinsic::powi) if (auto* e = dyn_cast<ConstantInt>(call->getArgOperand(1))) { int n = e->getSExtValue(); if (n >= -6 && n <= 6) { Rat b = eval(call->getArgOperand(0)), r = num(1); for (int i = 0; i < std::abs(n); ++i) r = mul(r, b); return n < 0 ? inv(r) : r; } }
    switch (I->getOpcode()) {
      case Instruction::FAdd: return add(eval(I->getOperand(0)), eval(I->getOperand(1)));
      case Instruction::FSub: return add(eval(I->getOperand(0)), eval(I->getOperand(1)), -1);
      case Instruction::FMul: return mul(eval(I->getOperand(0)), eval(I->getOperand(1)));
      case Instruction::FDiv: { Rat d = eval(I->getOperand(1)); if (d.n.empty()) return leaf(ptr(v)); return mul(eval(I->getOperand(0)), inv(d)); }
      default: return leaf(ptr(v));
    }
  }
  // is the value a number, for all (finite) values of the inputs? 1: yes, 0: it is 0/0, -1: unknown
  std::map<const Value*, int> isNumber;
  int number(const Value* v) { auto it = isNumber.find(v); return it != isNumber.end() ? it->second : isNumber[v] = number1(v); }
  int number1(const Value* v) {
    if (auto* c = dyn_cast<ConstantFP>(v)) return c->getValueAPF().isFinite() ? 1 : -1;
    auto* I = dyn_cast<Instruction>(v); if (!I) return -1;
    auto op = [&](int k) { return number(I->getOperand(k)); };
    if (auto* call = dyn_cast<CallBase>(I)) { auto* f = call->getCalledFunction(); return f && (f->getName() == "symd" || f->getName() == "feval") ? 1 : -1; }
    switch (I->getOpcode()) {
      case Instruction::SIToFP: case Instruction::UIToFP: return 1;
      case Instruction::FNeg: return op(0) == 1 ? 1 : -1;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: return op(0) == 1 && op(1) == 1 ? 1 : -1;
      case Instruction::FDiv: {
        if (!I->hasAllowReassoc() || op(0) != 1 || op(1) != 1) return -1;
        Rat d = eval(I->getOperand(1)); Num c; if (big || !d.d.empty() || !constant(d.n, c)) return -1;
        if (c != 0) return 1;
        Rat n = eval(I->getOperand(0)); return !big && n.n.empty() ? 0 : -1;
      }
      default: return -1;
    }
  }
  static Num size(const Poly& p) { Num s = 0; for (auto& [m, c] : p) s = std::max(s, std::fabs(c)); return s; }
  // is a - b a constant (independent of all leaves)?
  bool difference(const Value* a, const Value* b, Num& c) {
    Rat x = eval(a), y = eval(b), d = add(x, y, -1);
    if (big) return false;
    Num s = size(d.n); if (s <= 1e-10L*std::max(size(x.n), size(y.n))) { c = 0; return true; }
    for (auto it = d.n.begin(); it != d.n.end();) if (!it->first.empty() && std::fabs(it->second) < 1e-13L) it = d.n.erase(it); else ++it;   // rounding residue
    return (d.n.empty() || d.d.empty()) && constant(d.n, c);
  }
};
// decides comparisons of doubles
static int run(Function& F) {
  Ctx X; std::vector<std::pair<Instruction*, bool>> done;
  auto dbl = [&](Value* v) -> Value* {   // the double behind an integer pattern
    if (v->getType()->isDoubleTy()) return v;
    if (auto* b = dyn_cast<BitCastInst>(v)) if (b->getSrcTy()->isDoubleTy()) return b->getOperand(0);
    if (auto* c = dyn_cast<ConstantInt>(v)) if (c->getBitWidth() == 64) return ConstantFP::get(v->getContext(), APFloat(APFloat::IEEEdouble(), c->getValue()));
    return nullptr;
  };
  for (auto& I : instructions(F)) {
    auto* C = dyn_cast<CmpInst>(&I); if (!C) continue;
    if (X.budget < 0) break;
    Num c; X.big = false;
    if (auto* fc = dyn_cast<FCmpInst>(C)) {
      if (auto pr = fc->getPredicate(); pr == CmpInst::FCMP_UNO || pr == CmpInst::FCMP_ORD) {
        if (!fc->getOperand(0)->getType()->isDoubleTy()) continue;
        int a = X.number(fc->getOperand(0)), b = X.number(fc->getOperand(1));
        if (a == 0 || b == 0) done.push_back({C, pr == CmpInst::FCMP_UNO}); else if (a == 1 && b == 1) done.push_back({C, pr == CmpInst::FCMP_ORD});
        continue;
      }
      if (!fc->getOperand(0)->getType()->isDoubleTy() || !X.difference(fc->getOperand(0), fc->getOperand(1), c)) continue;
      switch (fc->getPredicate()) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: done.push_back({C, c == 0}); break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: done.push_back({C, c != 0}); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: done.push_back({C, c < 0}); break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: done.push_back({C, c <= 0}); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: done.push_back({C, c > 0}); break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: done.push_back({C, c >= 0}); break;
        default: break;
      }
    } else if (C->isEquality() && C->getOperand(0)->getType()->isIntegerTy(64)) {
      auto* a = dbl(C->getOperand(0)); auto* b = dbl(C->getOperand(1));
      if (!a || !b || (isa<Constant>(a) && isa<Constant>(b)) || !(isa<BitCastInst>(C->getOperand(0)) || isa<BitCastInst>(C->getOperand(1)))) continue;
      if (X.difference(a, b, c) && c == 0) done.push_back({C, C->getPredicate() == CmpInst::ICMP_EQ});
    }
  }
  for (auto& [C, v] : done) { C->replaceAllUsesWith(ConstantInt::get(C->getType(), v)); C->eraseFromParent(); }
  return done.size();
}
}
