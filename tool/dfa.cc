// dfa: static value-flow analysis over LLVM bitcode of the witness drivers.
//
// For every root function (extern "C", name starting with "w_") the tool
//   1. inlines all code that originates from the analysed source tree (plus
//      glue: std::get/tuple/optional/..., Dune::Hybrid, dune-typetree), leaving
//      every other library function an opaque call,
//   2. drops exceptional edges and paths that cannot return normally,
//   3. runs a flow-sensitive abstract interpretation (taints + points-to over
//      byte intervals of abstract objects) to a fixpoint,
//   4. prints facts (final state of parameter objects, return value, writes,
//      opaque calls) as JSON.
// Nothing is executed and no solver is used.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>

#include <algorithm>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;
namespace dw = llvm::dwarf;

static std::vector<std::string> inlinePrefixes;   // source path prefixes to inline
static bool optDump = false;
static int optMaxInstr = 60000;

// ---------------------------------------------------------------- DI helpers
static std::string diFile(const DISubprogram* sp) {
  if (!sp) return "";
  std::string f = sp->getFilename().str();
  if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
  return f;
}
static std::string scopeName(const DIScope* s) {
  std::string r;
  while (s) {
    if (auto ns = dyn_cast<DINamespace>(s)) {
      std::string n = ns->getName().str();
      if (n == "__cxx11" || n == "_V2" || (ns->getExportSymbols())) { s = ns->getScope(); continue; }
      r = n + (r.empty() ? "" : "::" + r);
      s = ns->getScope();
    } else if (auto t = dyn_cast<DIType>(s)) {
      r = t->getName().str() + (r.empty() ? "" : "::" + r);
      s = t->getScope();
    } else if (auto sp = dyn_cast<DISubprogram>(s)) {
      r = sp->getName().str() + "()" + (r.empty() ? "" : "::" + r);
      s = sp->getScope();
    } else break;
  }
  return r;
}
static std::string qualName(const DISubprogram* sp) {
  if (!sp) return "";
  auto s = scopeName(sp->getScope());
  return s.empty() ? sp->getName().str() : s + "::" + sp->getName().str();
}
static const DIType* strip(const DIType* t, bool* isConst = nullptr) {
  while (t) {
    auto d = dyn_cast<DIDerivedType>(t);
    if (!d) break;
    auto tag = d->getTag();
    if (tag == dw::DW_TAG_const_type) { if (isConst) *isConst = true; t = d->getBaseType(); }
    else if (tag == dw::DW_TAG_volatile_type || tag == dw::DW_TAG_typedef ||
             tag == dw::DW_TAG_restrict_type || tag == dw::DW_TAG_template_alias) t = d->getBaseType();
    else break;
  }
  return t;
}
static bool isPtrLike(const DIType* t) {
  t = strip(t);
  auto d = dyn_cast_or_null<DIDerivedType>(t);
  return d && (d->getTag() == dw::DW_TAG_pointer_type || d->getTag() == dw::DW_TAG_reference_type ||
               d->getTag() == dw::DW_TAG_rvalue_reference_type);
}
static bool isRvalRef(const DIType* t) {
  t = strip(t);
  auto d = dyn_cast_or_null<DIDerivedType>(t);
  return d && d->getTag() == dw::DW_TAG_rvalue_reference_type;
}
static const DIType* pointee(const DIType* t, bool* isConst) {
  t = strip(t);
  auto d = dyn_cast_or_null<DIDerivedType>(t);
  if (!d) return nullptr;
  bool c = false;
  auto r = strip(d->getBaseType(), &c);
  if (isConst) *isConst = c;
  return r;
}
static DenseMap<const DIType*, int> ptrMemo;
static bool containsPointer(const DIType* t, int depth = 0) {
  t = strip(t);
  if (!t) return true;
  if (isPtrLike(t)) return true;
  if (isa<DIBasicType>(t)) return false;
  auto it = ptrMemo.find(t);
  if (it != ptrMemo.end()) return it->second;
  ptrMemo[t] = 0;
  bool r = false;
  if (auto c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dw::DW_TAG_enumeration_type) r = false;
    else if (c->getTag() == dw::DW_TAG_array_type) r = containsPointer(c->getBaseType(), depth + 1);
    else if (c->isForwardDecl()) r = true;
    else if (depth > 12) r = true;
    else
      for (auto e : c->getElements())
        if (auto d = dyn_cast_or_null<DIDerivedType>(e)) {
          if (d->getTag() == dw::DW_TAG_member && !d->isStaticMember()) r |= containsPointer(d->getBaseType(), depth + 1);
          else if (d->getTag() == dw::DW_TAG_inheritance) r |= containsPointer(d->getBaseType(), depth + 1);
        }
  }
  ptrMemo[t] = r;
  return r;
}

// which types get expanded into members (others are atomic cells)
static bool fileIsInlined(const std::string& f) {
  for (auto& p : inlinePrefixes) if (f.compare(0, p.size(), p) == 0) return true;
  return false;
}
static std::string typeQual(const DIType* t) {
  t = strip(t);
  if (!t) return "";
  auto s = scopeName(t->getScope());
  return s.empty() ? t->getName().str() : s + "::" + t->getName().str();
}
static bool startsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
static bool expandable(const DICompositeType* c) {
  auto tag = c->getTag();
  if (tag != dw::DW_TAG_structure_type && tag != dw::DW_TAG_class_type && tag != dw::DW_TAG_union_type) return false;
  if (c->isForwardDecl()) return false;
  auto f = c->getFilename().str();
  if (!f.empty() && f[0] != '/') f = c->getDirectory().str() + "/" + f;
  if (fileIsInlined(f)) return true;
  auto q = typeQual(c);
  static const char* ok[] = {"std::tuple<", "std::_Tuple_impl<", "std::_Head_base<", "std::optional<", "std::_Optional_",
                             "std::pair<", "std::variant<", "std::__detail::__variant", "Dune::TypeTree::", "std::array<",
                             "Dune::TupleVector<", "std::reference_wrapper<"};
  for (auto p : ok) if (startsWith(q, p)) return true;
  return false;
}
struct Leaf { int64_t off, len; std::string path, type; };
static void leaves(const DIType* t, int64_t base, const std::string& path, std::vector<Leaf>& out, int depth = 0) {
  t = strip(t);
  if (!t) return;
  int64_t sz = t->getSizeInBits() / 8;
  auto c = dyn_cast<DICompositeType>(t);
  if (c && expandable(c) && depth < 24) {
    size_t before = out.size();
    for (auto e : c->getElements())
      if (auto d = dyn_cast_or_null<DIDerivedType>(e)) {
        if (d->getTag() == dw::DW_TAG_inheritance) leaves(d->getBaseType(), base + d->getOffsetInBits() / 8, path, out, depth + 1);
        else if (d->getTag() == dw::DW_TAG_member && !d->isStaticMember()) {
          std::string n = d->getName().str();
          leaves(d->getBaseType(), base + d->getOffsetInBits() / 8, n.empty() ? path : (path.empty() ? n : path + "." + n), out, depth + 1);
        }
      }
    (void)before;
    return;
  }
  // empty classes occupy no state
  if (c && (c->getTag() == dw::DW_TAG_structure_type || c->getTag() == dw::DW_TAG_class_type) && !c->isForwardDecl()) {
    std::function<bool(const DICompositeType*)> empty = [&](const DICompositeType* x) {
      for (auto e : x->getElements())
        if (auto d = dyn_cast_or_null<DIDerivedType>(e)) {
          if (d->getTag() == dw::DW_TAG_member && !d->isStaticMember()) return false;
          if (d->getTag() == dw::DW_TAG_inheritance) {
            auto b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()));
            if (!b || !empty(b)) return false;
          }
        }
      return true;
    };
    if (sz <= 1 && empty(c)) return;
  }
  std::string tn = typeQual(t);
  if (isPtrLike(t)) { bool cc; auto p = pointee(t, &cc); tn = typeQual(p) + "*"; }
  if (sz > 0) out.push_back({base, sz, path, tn});
}

// ---------------------------------------------------------------- inlining policy
static DenseMap<const Function*, int> reachMemo;
static bool isRepoFn(const Function* F) { auto sp = F->getSubprogram(); return sp && fileIsInlined(diFile(sp)); }
static DenseSet<const Function*> reachesRepo;
static void computeReach(Module& M) {
  DenseMap<const Function*, std::vector<const Function*>> callers;
  std::vector<const Function*> work;
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    for (auto& I : instructions(F))
      if (auto cb = dyn_cast<CallBase>(&I))
        if (auto G = cb->getCalledFunction()) callers[G].push_back(&F);
    if (isRepoFn(&F)) { reachesRepo.insert(&F); work.push_back(&F); }
  }
  while (!work.empty()) {
    auto G = work.back(); work.pop_back();
    for (auto F : callers[G]) if (reachesRepo.insert(F).second) work.push_back(F);
  }
}
static bool contains(const std::string& s, const char* x) { return s.find(x) != std::string::npos; }
static bool stdOpaque(const std::string& q) {
  static const char* bl[] = {"std::vector<", "std::_Vector_base<", "std::allocator", "std::__new_allocator", "std::_Sp_", "std::__shared_count",
                             "std::shared_ptr<", "std::__shared_ptr", "std::make_shared", "std::allocate_shared", "std::function<", "std::_Function",
                             "std::map<", "std::_Rb_tree", "std::multimap<", "std::set<", "std::unordered", "std::_Hash", "std::basic_string", "std::__cxx11", "std::__uninitialized",
                             "std::uninitialized", "std::__do_uninit", "std::_Construct", "std::construct_at", "std::_Destroy", "std::destroy_at",
                             "std::__relocate", "std::__unique_ptr", "std::unique_ptr<", "std::make_unique", "std::bitset", "std::__copy_move", "std::list<", "std::deque<",
                             "std::thread", "std::mutex", "std::sort", "std::__introsort"};
  for (auto p : bl) if (startsWith(q, p)) return true;
  return false;
}
static bool glue(const std::string& q) {
  static const char* wl[] = {"std::get<", "std::__get_helper", "std::forward", "std::move<", "std::tuple<", "std::_Tuple_impl", "std::_Head_base",
                             "std::array<", "std::__array_traits", "std::optional<", "std::_Optional_", "std::_Enable_", "std::apply<", "std::__apply_impl",
                             "std::invoke", "std::__invoke", "std::reference_wrapper", "std::ref<", "std::cref<", "std::addressof", "std::__addressof", "std::as_const",
                             "std::make_tuple", "std::tie<", "std::forward_as_tuple", "std::pair<", "std::make_pair", "std::min<", "std::max<", "std::swap<", "std::exchange",
                             "std::variant", "std::__detail::__variant", "std::visit", "std::__do_visit", "std::begin<", "std::end<", "std::size<", "std::data<",
                             "std::integral_constant", "std::get_if<", "std::holds_alternative", "std::make_optional", "std::tuple_cat", "std::__tuple_concater",
                             "std::__addressof", "std::__exchange", "std::__fill_a", "std::fill<", "std::copy_n<", "std::tuple_size", "std::accumulate", "std::multiplies", "std::plus",
                             "Dune::Hybrid::", "Dune::TypeTree::", "Dune::unpackIntegerSequence", "Dune::applyPartial", "Dune::overload", "Dune::Impl::Overload",
                             "Dune::resolveRef", "Dune::Std::", "Dune::index_constant", "Dune::makeTupleFromVariadic", "Dune::wrap_or_move", "Dune::stackobject_to_shared_ptr",
                             "Dune::StaticIntegralRange", "Dune::IntegralRange", "Dune::range", "Dune::Impl::IntegralRange", "Dune::transformedRangeView",
                             "Dune::PriorityTag", "Dune::makeOverload", "Dune::TupleVector", "Dune::TypeTree", "Dune::index_sequence", "Dune::Impl::"};
  for (auto p : wl) if (startsWith(q, p)) return true;
  return false;
}
static std::map<const Function*, int> inlMemo;
static bool shouldInline(const Function* F) {
  if (!F || F->isDeclaration() || F->isVarArg()) return false;
  auto it = inlMemo.find(F);
  if (it != inlMemo.end()) return it->second;
  bool r = false;
  auto sp = F->getSubprogram();
  if (sp) {
    auto q = qualName(sp);
    if (isRepoFn(F)) r = true;
    else if (stdOpaque(q)) r = false;
    else if (glue(q)) r = true;
    else if (reachesRepo.count(F)) r = true;
  } else {
    // compiler generated thunks etc. without subprogram
    r = F->getInstructionCount() < 40 && reachesRepo.count(F);
  }
  return inlMemo[F] = r;
}

static void simplifyFn(Function& F, FunctionAnalysisManager& FAM, bool full) {
  FunctionPassManager FPM;
  FPM.addPass(LowerInvokePass());
  FPM.addPass(SimplifyCFGPass());
  FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
  if (full) {
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(SimplifyCFGPass());
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(ADCEPass());
    FPM.addPass(SimplifyCFGPass());
  }
  FPM.run(F, FAM);
  FAM.invalidate(F, PreservedAnalyses::none());
}

static DenseSet<const Function*> prepped;
static void prepFn(Function& F, FunctionAnalysisManager& FAM) {
  if (!prepped.insert(&F).second) return;
  FunctionPassManager FPM;
  FPM.addPass(LowerInvokePass());
  FPM.addPass(SimplifyCFGPass());
  FPM.run(F, FAM);
  FAM.invalidate(F, PreservedAnalyses::none());
}

static bool inlineAll(Function* R, FunctionAnalysisManager& FAM) {
  struct Item { CallBase* cb; std::vector<Function*> hist; };
  std::vector<std::pair<WeakTrackingVH, std::vector<Function*>>> work;
  prepFn(*R, FAM);
  for (auto& I : instructions(*R))
    if (auto cb = dyn_cast<CallBase>(&I)) work.push_back({cb, {}});
  bool budgetOk = true;
  size_t steps = 0;
  while (!work.empty()) {
    auto [h, hist] = work.back();
    work.pop_back();
    if (!h) continue;
    auto cb = dyn_cast<CallBase>((Value*)h);
    if (!cb) continue;
    auto G = cb->getCalledFunction();
    if (!shouldInline(G)) continue;
    if (std::count(hist.begin(), hist.end(), G) >= 2) continue;
    if (hist.size() > 120) continue;
    if (R->getInstructionCount() > (unsigned)optMaxInstr) { budgetOk = false; break; }
    prepFn(*G, FAM);
    InlineFunctionInfo IFI;
    auto res = InlineFunction(*cb, IFI, /*MergeAttributes*/ false, nullptr, /*InsertLifetime*/ false);
    if (!res.isSuccess()) continue;
    auto nh = hist;
    nh.push_back(G);
    for (auto c : IFI.InlinedCallSites) work.push_back({c, nh});
    ++steps;
  }
  return budgetOk;
}

// remove blocks that cannot reach a return
static void pruneNoReturn(Function& F) {
  std::set<BasicBlock*> live;
  std::vector<BasicBlock*> work;
  for (auto& B : F) {
    // cut after noreturn calls
    for (auto& I : B)
      if (auto cb = dyn_cast<CallBase>(&I))
        if (cb->doesNotReturn() && !isa<UnreachableInst>(cb->getNextNode())) { changeToUnreachable(cb->getNextNode()); break; }
  }
  for (auto& B : F) if (isa<ReturnInst>(B.getTerminator())) { live.insert(&B); work.push_back(&B); }
  while (!work.empty()) {
    auto b = work.back(); work.pop_back();
    for (auto p : predecessors(b)) if (live.insert(p).second) work.push_back(p);
  }
  for (auto& B : F) {
    if (!live.count(&B)) continue;
    auto T = B.getTerminator();
    std::vector<BasicBlock*> dead, keep;
    for (auto s : successors(&B)) (live.count(s) ? keep : dead).push_back(s);
    if (dead.empty()) continue;
    if (keep.size() == 1 || (keep.size() >= 1 && std::all_of(keep.begin(), keep.end(), [&](auto k) { return k == keep[0]; }))) {
      bool firstKept = false;
      for (auto s : successors(&B)) {
        if (s == keep[0] && !firstKept) { firstKept = true; continue; }
        s->removePredecessor(&B);
      }
      auto nb = BranchInst::Create(keep[0], T);
      nb->setDebugLoc(T->getDebugLoc());
      T->eraseFromParent();
    }
    // switches with several live successors: left as is (dead successors end in unreachable)
  }
  removeUnreachableBlocks(F);
}

// ---------------------------------------------------------------- abstract domain
struct Loc {
  int obj; int64_t off; int64_t len;   // len==0: exact address, len>0: somewhere inside/below region [off,off+len)
  bool operator<(const Loc& o) const { return std::tie(obj, off, len) < std::tie(o.obj, o.off, o.len); }
  bool operator==(const Loc& o) const { return obj == o.obj && off == o.off && len == o.len; }
};
static const int64_t INF = (int64_t)1 << 40;
struct AV {
  std::set<int> t;      // taint symbols
  std::set<Loc> l;      // locations
  bool join(const AV& o) {
    auto a = t.size();
    t.insert(o.t.begin(), o.t.end());
    if (std::includes(l.begin(), l.end(), o.l.begin(), o.l.end())) return t.size() != a;
    std::set<Loc> n = l;
    n.insert(o.l.begin(), o.l.end());
    normalise(n);
    bool ch = n != l;
    l.swap(n);
    return ch || t.size() != a;
  }
  // widening: many addresses in one object collapse to "anywhere in the object"
  static void normalise(std::set<Loc>& n) {
    std::map<int, int> cnt; std::set<int> whole;
    for (auto& x : n) { cnt[x.obj]++; if (x.len == INF) whole.insert(x.obj); }
    for (auto& [ob, c] : cnt) if (c > 6) whole.insert(ob);
    if (whole.empty() && n.size() <= 32) return;
    std::set<Loc> r;
    for (auto& x : n) if (!whole.count(x.obj)) r.insert(x);
    for (auto ob : whole) r.insert({ob, 0, INF});
    if (r.size() > 32) {
      std::set<Loc> q; std::set<int> w2;
      for (auto& x : r) { int t = topObj(x.obj); if (t != x.obj) w2.insert(t); }
      for (auto& x : r) if (topObj(x.obj) == x.obj && !w2.count(x.obj)) q.insert(x);
      for (auto t : w2) q.insert({t, 0, INF});
      r.swap(q);
    }
    n.swap(r);
  }
  static std::function<int(int)> topObj;
  bool operator==(const AV& o) const { return t == o.t && l == o.l; }
};
std::function<int(int)> AV::topObj;
struct Entry { int64_t len; AV init, wr; bool operator==(const Entry& o) const { return len == o.len && init == o.init && wr == o.wr; }
  AV all() const { AV a = init; a.join(wr); return a; } };
using Mem = std::map<int64_t, Entry>;   // disjoint intervals
struct State { std::map<int, std::shared_ptr<const Mem>> m; };

struct Obj {
  enum K { Param, Alloca, Global, Heap, Deref, Func, Elem } k;
  std::string name;
  int parent = -1; int64_t poff = 0, plen = 0;   // for Deref, Elem
  int depth = 0;
  int64_t size = -1;
  const DIType* ty = nullptr;
  std::vector<Leaf> lv;
  const Value* v = nullptr;
};

struct Sym { int param; int64_t off; std::string name; };

struct Analyzer {
  Function& F;
  const DataLayout& DL;
  DISubprogram* rootSP;
  std::vector<Obj> objs;
  std::map<const Value*, int> objOf;
  std::map<std::pair<int, int64_t>, int> derefOf;
  std::map<std::pair<int, int64_t>, int> symOf;
  std::vector<Sym> syms;
  std::map<const Value*, AV> regs;
  std::map<const BasicBlock*, State> inEntry, inLatch;
  std::map<const BasicBlock*, std::vector<const Value*>> ctl;   // controlling conditions
  std::unique_ptr<DominatorTree> DT;
  std::unique_ptr<PostDominatorTree> PDT;
  std::unique_ptr<LoopInfo> LI;
  State fin; bool finSet = false;
  AV retAV;
  struct W { int obj; int64_t off, len; std::string site, via; bool isInit; bool operator<(const W& o) const { return std::tie(obj, off, len, site, via) < std::tie(o.obj, o.off, o.len, o.site, o.via); } };
  std::set<W> writes;
  struct Call { std::string name, site; bool indirect; std::vector<AV> args; std::vector<AV> deep; AV ret; AV ctl; };
  std::map<const Instruction*, Call> calls;
  bool record = false;
  bool changedReg = false;

  Analyzer(Function& f, DISubprogram* sp) : F(f), DL(f.getParent()->getDataLayout()), rootSP(sp) {}

  // ---- objects and symbols
  int sym(int param, int64_t off, const std::string& name) {
    auto k = std::make_pair(param, off);
    auto it = symOf.find(k);
    if (it != symOf.end()) return it->second;
    int id = syms.size();
    syms.push_back({param, off, name});
    return symOf[k] = id;
  }
  const Leaf* leafAt(const Obj& o, int64_t off) {
    const Leaf* best = nullptr;
    for (auto& l : o.lv) if (off >= l.off && off < l.off + l.len) if (!best || l.len < best->len) best = &l;
    return best;
  }
  int mkObj(Obj o) { objs.push_back(std::move(o)); return objs.size() - 1; }
  int deref(int obj, int64_t off) {
    auto lf = leafAt(objs[obj], off);
    int64_t key = off;
    if (objs[obj].k == Obj::Deref && objs[obj].depth >= 2) key = 0;
    auto k = std::make_pair(obj, key);
    auto it = derefOf.find(k);
    if (it != derefOf.end()) return it->second;
    if (objs[obj].depth >= 3) return derefOf[k] = obj;   // summary: collapse onto itself
    Obj o;
    o.k = Obj::Deref; o.parent = obj; o.poff = key; o.depth = objs[obj].depth + 1;
    o.name = "*(" + objName(obj, key) + ")";
    // type of pointee, if known
    int id = mkObj(o);
    if (getenv("DFADBG")) errs() << "deref " << objs[id].name << "\n";
    return derefOf[k] = id;
  }
  // summary object for everything an opaque object (container, ...) gives access to
  std::map<std::pair<int, int64_t>, int> elemOf;
  std::map<int, std::vector<int>> elemsIn;
  Loc elem(int obj, int64_t off, int64_t len) {
    auto& po = objs[obj];
    if (auto lf = leafAt(po, off)) if (lf->off != off || lf->len != len) { if (off + len <= lf->off + lf->len) { off = lf->off; len = lf->len; } }
    auto k = std::make_pair(obj, off);
    auto it = elemOf.find(k);
    if (it != elemOf.end()) return {it->second, 0, 0};
    if (po.depth >= 3) return {obj, off, len ? len : 8};
    Obj o;
    o.k = Obj::Elem; o.parent = obj; o.poff = off; o.plen = len; o.depth = po.depth + 1;
    o.name = "elem(" + objName(obj, off) + ")";
    int id = mkObj(o);
    elemsIn[obj].push_back(id);
    elemOf[k] = id;
    return {id, 0, 0};
  }
  void killElems(State& s, int obj, int64_t off, int64_t len, int d = 0) {
    auto it = elemsIn.find(obj);
    if (it == elemsIn.end() || d > 4) return;
    for (auto e : it->second)
      if (objs[e].poff < off + len && off < objs[e].poff + objs[e].plen) { s.m.erase(e); killElems(s, e, 0, INF, d + 1); }
  }
  void copyElems(State& s, int so, int64_t soff, int dobj, int64_t doff, int64_t len, int d = 0) {
    auto it = elemsIn.find(so);
    if (it == elemsIn.end() || d > 3) return;
    for (auto e : std::vector<int>(it->second))
      if (objs[e].poff >= soff && objs[e].poff < soff + len) {
        Loc t = elem(dobj, objs[e].poff - soff + doff, objs[e].plen);
        if (t.len || t.obj == e) continue;
        auto m = s.m.find(e);
        if (m != s.m.end()) s.m[t.obj] = m->second;
        copyElems(s, e, 0, t.obj, 0, INF, d + 1);
      }
  }
  std::string objName(int obj, int64_t off) {
    auto& o = objs[obj];
    auto lf = leafAt(o, off);
    if (lf && !lf->path.empty()) return o.name + "." + lf->path + (off != lf->off ? "+" + std::to_string(off - lf->off) : "");
    return off ? o.name + "+" + std::to_string(off) : o.name;
  }
  // initial taint of obj at off
  std::set<int> initTaint(int obj, int64_t off, int64_t len) {
    std::set<int> r;
    auto& o = objs[obj];
    if (o.k == Obj::Param) {
      if (o.lv.empty()) { r.insert(sym(obj, 0, o.name)); return r; }
      for (auto& l : o.lv)
        if (l.off < off + len && off < l.off + l.len) r.insert(sym(obj, l.off, o.name + (l.path.empty() ? "" : "." + l.path + "@" + std::to_string(l.off))));
      return r;
    }
    if (o.k == Obj::Deref) {
      int p = o.parent; int64_t po = o.poff;
      return initTaint(p, po, 8);
    }
    if (o.k == Obj::Global) { if (auto g = dyn_cast<GlobalVariable>(o.v)) if (!g->isConstant()) r.insert(sym(obj, 0, "G:" + o.name)); return r; }
    return r;
  }
  AV initAV(int obj, int64_t off, int64_t len) {
    AV a;
    if (objs[obj].k == Obj::Elem) return a;
    auto& o = objs[obj];
    if (o.k == Obj::Param || o.k == Obj::Deref) {
      a.t = initTaint(obj, off, len);
      if (len >= 8) {
        if (len == 8) a.l.insert({deref(obj, off), 0, 0});
      }
    } else if (o.k == Obj::Global) a.t = initTaint(obj, off, len);
    return a;
  }

  // ---- memory
  const Mem& mem(State& s, int obj) { static const Mem empty; auto it = s.m.find(obj); return it == s.m.end() ? empty : *it->second; }
  Mem& memW(State& s, int obj) {
    auto& p = s.m[obj];
    if (!p) p = std::make_shared<Mem>();
    else if (p.use_count() > 1) p = std::make_shared<Mem>(*p);
    return const_cast<Mem&>(*p);
  }
  static void splitAt(Mem& m, int64_t x) {
    auto it = m.upper_bound(x);
    if (it == m.begin()) return;
    --it;
    if (it->first < x && x < it->first + it->second.len) {
      Entry e = it->second;
      int64_t end = it->first + e.len;
      it->second.len = x - it->first;
      Entry e2 = e; e2.len = end - x;
      m[x] = e2;
    }
  }
  AV readRegion(State& s, int obj, int64_t off, int64_t len) {
    AV r;
    if (objs[obj].k == Obj::Elem) { AV p = readRegion(s, objs[obj].parent, objs[obj].poff, clampLen(objs[obj].parent, objs[obj].poff, objs[obj].plen)); r.t = p.t; }
    const Mem& m = mem(s, obj);
    int64_t cur = off, end = off + len;
    auto it = m.upper_bound(off);
    if (it != m.begin()) --it;
    for (; it != m.end() && it->first < end; ++it) {
      int64_t a = it->first, b = a + it->second.len;
      if (b <= off) continue;
      if (a > cur) r.join(initAV(obj, cur, a - cur));
      r.join(it->second.all());
      cur = std::max(cur, b);
    }
    if (cur < end) {
      int64_t e = end;
      r.join(initAV(obj, cur, e - cur));
    }
    return r;
  }
  void noteWrite(int obj, int64_t off, int64_t len, const Instruction* I, const std::string& via) {
    if (!record) return;
    if (objs[obj].k == Obj::Alloca) return;
    writes.insert({obj, off, len, site(I), via, onceInit(I)});
  }
  // inside the guarded initialisation of a function-local static (runs once, in one thread)
  bool onceInit(const Instruction* I) {
    for (auto& B : F) for (auto& J : B) {
      auto* c = dyn_cast<CallBase>(&J); auto* f = c ? c->getCalledFunction() : nullptr;
      if (!f || f->getName() != "__cxa_guard_acquire") continue;
      for (auto* u : c->users()) if (auto* cmp = dyn_cast<ICmpInst>(u)) for (auto* w : cmp->users()) if (auto* br = dyn_cast<BranchInst>(w)) {
        auto* s = br->getSuccessor(cmp->getPredicate() == CmpInst::ICMP_EQ ? 1 : 0);
        if (br->isConditional() && DT->dominates(s, I->getParent())) return true;
      }
    }
    return false;
  }
  // materialise lazily initial entries in [off,off+len)
  void materialise(Mem& m, int obj, int64_t off, int64_t len) {
    splitAt(m, off);
    splitAt(m, off + len);
    int64_t cur = off, end = off + len;
    std::vector<std::pair<int64_t, int64_t>> gaps;
    for (auto it = m.lower_bound(off); it != m.end() && it->first < end; ++it) {
      if (it->first > cur) gaps.push_back({cur, it->first});
      cur = it->first + it->second.len;
    }
    if (cur < end) gaps.push_back({cur, end});
    for (auto [a, b] : gaps) {
      // split gaps on leaf boundaries
      std::vector<int64_t> cuts{a};
      for (auto& l : objs[obj].lv) { if (l.off > a && l.off < b) cuts.push_back(l.off); if (l.off + l.len > a && l.off + l.len < b) cuts.push_back(l.off + l.len); }
      cuts.push_back(b);
      std::sort(cuts.begin(), cuts.end());
      cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
      for (size_t i = 0; i + 1 < cuts.size(); ++i) m[cuts[i]] = Entry{cuts[i + 1] - cuts[i], initAV(obj, cuts[i], cuts[i + 1] - cuts[i]), {}};
    }
  }
  void strongStore(State& s, int obj, int64_t off, int64_t len, const AV& v, const Instruction* I, const std::string& via = "") {
    if (objs[obj].k == Obj::Elem) { weakStore(s, obj, off, len, v, I, true, via); return; }
    killElems(s, obj, off, len);
    Mem& m = memW(s, obj);
    splitAt(m, off);
    splitAt(m, off + len);
    m.erase(m.lower_bound(off), m.lower_bound(off + len));
    m[off] = Entry{len, {}, v};
    noteWrite(obj, off, len, I, via);
  }
  void weakStore(State& s, int obj, int64_t off, int64_t len, const AV& v, const Instruction* I, bool dropInit, const std::string& via = "") {
    if (objs[obj].k == Obj::Elem) {
      AV tv; tv.t = v.t;
      weakStore(s, objs[obj].parent, objs[obj].poff, clampLen(objs[obj].parent, objs[obj].poff, objs[obj].plen), tv, I, dropInit, via);
      if (v.l.empty()) return;
    }
    if (len > INF / 2) {
      // whole object: clamp to known extent
      if (objs[obj].size > 0) { len = objs[obj].size - off; if (len <= 0) len = 1; }
      else len = INF;
    }
    Mem& m = memW(s, obj);
    materialise(m, obj, off, len);
    for (auto it = m.lower_bound(off); it != m.end() && it->first < off + len; ++it) {
      if (dropInit) it->second.init = {};
      it->second.wr.join(v);
    }
    noteWrite(obj, off, len, I, via);
  }
  int64_t clampLen(int obj, int64_t off, int64_t len) {
    if (objs[obj].size >= 0 && off + len > objs[obj].size) { len = objs[obj].size - off; if (len < 1) len = 1; }
    return len;
  }
  void storeTo(State& s, const AV& ptr, int64_t len, const AV& v, const Instruction* I) {
    bool single = ptr.l.size() == 1;
    for (auto& l : ptr.l) {
      if (objs[l.obj].k == Obj::Func) continue;
      if (l.len == 0) {
        if (single && strongOk(l.obj)) strongStore(s, l.obj, l.off, len, v, I);
        else weakStore(s, l.obj, l.off, len, v, I, false);
      } else weakStore(s, l.obj, l.off, clampLen(l.obj, l.off, l.len), v, I, single);
    }
  }
  bool strongOk(int obj) { return true; }
  AV loadFrom(State& s, const AV& ptr, int64_t len, bool wantLoc) {
    AV r;
    for (auto& l : ptr.l) {
      if (objs[l.obj].k == Obj::Func) continue;
      if (l.len == 0) r.join(readRegion(s, l.obj, l.off, len));
      else {
        r.join(readRegion(s, l.obj, l.off, clampLen(l.obj, l.off, l.len)));
        if (wantLoc) r.l.insert(l);
      }
    }
    if (ptr.l.empty()) r.t = ptr.t;
    if (!wantLoc) r.l.clear();
    return r;
  }
  // deep content of pointer value (bounded)
  AV deepTaint(State& s, const AV& v, int64_t len, int depth = 0) {
    AV r;
    r.t = v.t;
    std::set<std::pair<int, int64_t>> seen;
    deepRec(s, v, len, depth, r, seen);
    return r;
  }
  void deepRec(State& s, const AV& v, int64_t len, int depth, AV& r, std::set<std::pair<int, int64_t>>& seen) {
    if (depth > 3) return;
    for (auto& l : v.l) {
      auto& o = objs[l.obj];
      if (o.k == Obj::Func) continue;
      if (!seen.insert({l.obj, l.off}).second) continue;
      int64_t n = l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, len > 0 ? len : 8);
      AV c = readRegion(s, l.obj, l.off, n);
      r.t.insert(c.t.begin(), c.t.end());
      if (objs[l.obj].k == Obj::Alloca || objs[l.obj].k == Obj::Heap || objs[l.obj].k == Obj::Param) deepRec(s, c, -1, depth + 1, r, seen);
    }
  }

  // ---- sites
  std::string site(const Instruction* I) {
    if (!I || !I->getDebugLoc()) return "?";
    const DILocation* d = I->getDebugLoc();
    std::string first, repo;
    for (auto x = d; x; x = x->getInlinedAt()) {
      std::string f = x->getFilename().str();
      if (!f.empty() && f[0] != '/') f = x->getDirectory().str() + "/" + f;
      std::string q = f + ":" + std::to_string(x->getLine());
      if (first.empty()) first = q;
      if (fileIsInlined(f) && repo.empty()) {
        auto sp = x->getScope()->getSubprogram();
        repo = q + (sp ? " (" + sp->getName().str() + ")" : "");
      }
    }
    return repo.empty() ? first : repo;
  }

  // ---- values
  int globalObj(const Value* v) {
    auto it = objOf.find(v);
    if (it != objOf.end()) return it->second;
    Obj o;
    o.v = v;
    o.name = v->getName().str();
    o.k = isa<Function>(v) ? Obj::Func : Obj::Global;
    if (auto g = dyn_cast<GlobalVariable>(v)) o.size = DL.getTypeAllocSize(g->getValueType());
    int id = mkObj(o);
    objOf[v] = id;
    return id;
  }
  AV val(const Value* v) {
    AV a;
    if (auto c = dyn_cast<Constant>(v)) {
      if (isa<GlobalVariable>(c) || isa<Function>(c) || isa<GlobalAlias>(c)) { a.l.insert({globalObj(c), 0, 0}); return a; }
      if (auto ce = dyn_cast<ConstantExpr>(c)) {
        if (auto gep = dyn_cast<GEPOperator>(ce)) {
          AV b = val(gep->getPointerOperand());
          APInt off(64, 0);
          if (gep->accumulateConstantOffset(DL, off)) { AV r; for (auto l : b.l) r.l.insert({l.obj, l.off + (l.len ? 0 : off.getSExtValue()), l.len}); return r; }
        }
        for (auto& op : ce->operands()) a.join(val(op));
      }
      return a;
    }
    auto it = regs.find(v);
    if (it != regs.end()) return it->second;
    return a;
  }
  void set(const Value* v, AV a) {
    auto& r = regs[v];
    if (r.join(a)) changedReg = true;
  }
  static constexpr int CTL = 1 << 24;   // marks a taint that arrived through a branch condition only
  AV ctlTaint(const BasicBlock* b) {
    AV r;
    auto it = ctl.find(b);
    if (it != ctl.end()) for (auto c : it->second) { AV x = val(c); for (auto i : x.t) r.t.insert(i | CTL); }
    return r;
  }

  void setup() {
    AV::topObj = [this](int o) { while (objs[o].k == Obj::Deref && objs[objs[o].parent].k == Obj::Deref) o = objs[o].parent; return o; };
    // parameters
    auto types = rootSP ? rootSP->getType()->getTypeArray() : nullptr;
    unsigned ai = 0;
    bool sret = F.arg_size() && F.getArg(0)->hasStructRetAttr();
    for (auto& A : F.args()) {
      unsigned idx = ai++;
      const DIType* dt = nullptr;
      unsigned di = sret ? idx : idx + 1;
      if (types && di < types.size()) dt = types[di];
      AV a;
      if (A.getType()->isPointerTy()) {
        Obj o;
        o.k = Obj::Param;
        o.name = "P" + std::to_string(sret ? (int)idx - 1 : (int)idx);
        if (sret && idx == 0) { o.k = Obj::Alloca; o.name = "RET"; }
        if (dt) {
          bool c = false;
          auto p = isPtrLike(dt) ? pointee(dt, &c) : strip(dt);
          o.ty = p;
          if (p) { o.size = p->getSizeInBits() / 8; leaves(p, 0, "", o.lv); }
          if (o.size == 0) o.size = -1;
        }
        int id = mkObj(o);
        objOf[&A] = id;
        a.l.insert({id, 0, 0});
      } else {
        Obj o; o.k = Obj::Param; o.name = "P" + std::to_string(idx); int id = mkObj(o);
        a.t.insert(sym(id, 0, o.name));
      }
      regs[&A] = a;
    }
    DT = std::make_unique<DominatorTree>(F);
    PDT = std::make_unique<PostDominatorTree>(F);
    LI = std::make_unique<LoopInfo>(*DT);
    for (auto& A : F) {
      auto T = A.getTerminator();
      const Value* cond = nullptr;
      if (auto br = dyn_cast<BranchInst>(T)) { if (br->isConditional()) cond = br->getCondition(); }
      else if (auto sw = dyn_cast<SwitchInst>(T)) cond = sw->getCondition();
      if (!cond) continue;
      auto ip = PDT->getNode(&A) ? PDT->getNode(&A)->getIDom() : nullptr;
      for (auto S : successors(&A)) {
        auto n = PDT->getNode(S);
        while (n && n != ip) {
          if (n->getBlock()) ctl[n->getBlock()].push_back(cond);
          n = n->getIDom();
        }
      }
    }
  }

  bool joinMem(std::shared_ptr<const Mem>& dst, const std::shared_ptr<const Mem>& src, int obj) {
    static const auto emptyMem = std::make_shared<const Mem>();
    const Mem& S = src ? *src : *emptyMem;
    if (dst == src) return false;
    auto nm = std::make_shared<Mem>(dst ? *dst : *emptyMem);
    std::vector<int64_t> cuts;
    for (auto& [o, e] : S) { cuts.push_back(o); cuts.push_back(o + e.len); }
    for (auto c : cuts) splitAt(*nm, c);
    Mem s2 = S;
    for (auto& [o, e] : *nm) { splitAt(s2, o); splitAt(s2, o + e.len); }
    // fill
    for (auto& [o, e] : s2) if (!nm->count(o)) (*nm)[o] = Entry{e.len, initAV(obj, o, e.len), {}};
    for (auto& [o, e] : *nm) {
      auto it = s2.find(o);
      Entry x = it != s2.end() ? it->second : Entry{e.len, initAV(obj, o, e.len), {}};
      e.init.join(x.init);
      e.wr.join(x.wr);
    }
    if (dst && *nm == *dst) return false;
    dst = nm;
    return true;
  }
  bool joinState(State& d, const State& s) {
    bool ch = false;
    for (auto& [o, m] : s.m) { bool c = joinMem(d.m[o], m, o); if (c && getenv("DFADBG")) errs() << "chg " << o << " " << objs[o].name << " " << d.m[o]->size() << "\n"; ch |= c; }
    for (auto& [o, m] : d.m)
      if (!s.m.count(o)) ch |= joinMem(m, nullptr, o);
    return ch;
  }

  AV gep(const GEPOperator* g) {
    AV b = val(g->getPointerOperand()), r;
    r.t = b.t;
    APInt off(64, 0);
    if (g->accumulateConstantOffset(DL, off)) {
      for (auto l : b.l) {
        if (l.len) { r.l.insert(l); continue; }
        int64_t no = l.off + off.getSExtValue();
        auto& o = objs[l.obj];
        if (no < 0 || (o.size > 0 && no >= o.size && no != l.off)) r.l.insert(regionOf(l));   // one past the end etc.
        else r.l.insert({l.obj, no, 0});
      }
      return r;
    }
    // variable index
    int64_t cst = 0, arr = -1;
    {
      Type* T = g->getSourceElementType();
      bool first = true;
      for (auto& ix : g->indices()) {
        auto ci = dyn_cast<ConstantInt>(ix);
        if (first) {
          first = false;
          if (!ci) break;
          cst += ci->getSExtValue() * (int64_t)DL.getTypeAllocSize(T);
          continue;
        }
        if (auto st = dyn_cast<StructType>(T)) {
          if (!ci) break;
          cst += DL.getStructLayout(st)->getElementOffset(ci->getZExtValue());
          T = st->getElementType(ci->getZExtValue());
        } else if (auto at = dyn_cast<ArrayType>(T)) {
          int64_t esz = DL.getTypeAllocSize(at->getElementType());
          if (!ci) { arr = esz * (int64_t)at->getNumElements(); break; }
          cst += esz * ci->getSExtValue();
          T = at->getElementType();
        } else break;
      }
    }
    for (auto l : b.l) {
      if (l.len) { r.l.insert(l); continue; }
      auto& o = objs[l.obj];
      int64_t s = l.off + cst;
      if (arr > 0) r.l.insert({l.obj, s, arr});
      else if (auto lf = leafAt(o, s)) r.l.insert({l.obj, lf->off, lf->len});
      else if (o.size > 0) r.l.insert({l.obj, 0, o.size});
      else r.l.insert({l.obj, 0, INF});
    }
    for (auto& op : g->indices()) { AV x = val(op); r.t.insert(x.t.begin(), x.t.end()); }
    return r;
  }

  Loc regionOf(const Loc& l) {
    if (l.len) return l;
    auto& o = objs[l.obj];
    if (auto lf = leafAt(o, l.off)) return {l.obj, lf->off, lf->len};
    if (o.size > 0) return {l.obj, 0, o.size};
    return {l.obj, 0, INF};
  }
  struct ArgInfo { bool ptr = false, cnst = true, known = false, rval = false; int64_t size = 0; const DIType* pt = nullptr; };
  std::map<const CallBase*, std::vector<ArgInfo>> aiMemo;
  std::vector<ArgInfo>& argInfo(const CallBase* cb) {
    auto it = aiMemo.find(cb);
    if (it != aiMemo.end()) return it->second;
    std::vector<ArgInfo> r(cb->arg_size());
    auto G = cb->getCalledFunction();
    auto sp = G ? G->getSubprogram() : nullptr;
    bool sret = cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet);
    auto types = sp ? sp->getType()->getTypeArray() : nullptr;
    std::string dn = G ? demangle(G->getName().str()) : "";
    bool constMethod = dn.size() > 6 && dn.compare(dn.size() - 6, 6, " const") == 0;
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
      if (!cb->getArgOperand(i)->getType()->isPointerTy()) continue;
      auto& a = r[i];
      a.ptr = true;
      if (sret && i == 0) { a.cnst = false; a.known = true; if (auto t = cb->getParamStructRetType(0)) a.size = DL.getTypeAllocSize(t); continue; }
      unsigned di = sret ? i : i + 1;
      if (types && di < types.size() && types[di]) {
        bool c = false;
        const DIType* t = types[di];
        if (isPtrLike(t)) { a.pt = pointee(t, &c); a.rval = isRvalRef(t); }
        else { a.pt = strip(t); c = true; }   // by-value class passed indirectly
        a.cnst = c; a.known = true;
        if (a.pt) a.size = a.pt->getSizeInBits() / 8;
      } else {
        // no debug info: use the demangled name
        a.known = !dn.empty();
        if (constMethod && i == (sret ? 1u : 0u)) a.cnst = true;
        else a.cnst = G ? false : true;
      }
    }
    return aiMemo[cb] = r;
  }

  // objects that merely refer to elements held elsewhere
  static bool iterLike(const DIType* t) {
    if (!t) return false;
    if (isPtrLike(t)) return true;
    std::string n = t->getName().str();
    n = n.substr(0, n.find('<'));
    for (auto k : {"iterator", "Iterator", "shared_ptr", "unique_ptr", "reference", "span", "Range", "Facade", "Proxy"}) if (contains(n, k)) return true;
    return false;
  }
  static bool nameIs(const std::string& n, std::initializer_list<const char*> l) { for (auto x : l) if (n == x) return true; return false; }

  void call(State& s, const CallBase* cb) {
    auto G = cb->getCalledFunction();
    if (auto ii = dyn_cast<IntrinsicInst>(cb)) {
      auto id = ii->getIntrinsicID();
      if (isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume) return;
      if (auto mt = dyn_cast<MemTransferInst>(ii)) {
        AV d = val(mt->getDest()), sr = val(mt->getSource());
        auto n = dyn_cast<ConstantInt>(mt->getLength());
        AV ct = ctlTaint(cb->getParent());
        if (n && d.l.size() == 1 && d.l.begin()->len == 0 && sr.l.size() == 1 && sr.l.begin()->len == 0) {
          auto dl = *d.l.begin(), sl = *sr.l.begin();
          int64_t N = n->getSExtValue();
          // copy piecewise
          Mem tmp = mem(s, sl.obj);
          materialise(tmp, sl.obj, sl.off, N);
          std::vector<std::pair<int64_t, Entry>> pieces;
          for (auto it = tmp.lower_bound(sl.off); it != tmp.end() && it->first < sl.off + N; ++it) {
            AV a = it->second.all();
            pieces.push_back({it->first - sl.off, Entry{it->second.len, {}, a}});
          }
          Mem& m = memW(s, dl.obj);
          if (objs[dl.obj].k == Obj::Elem) {
            for (auto& [o, e] : pieces) { e.wr.t.insert(ct.t.begin(), ct.t.end()); weakStore(s, dl.obj, dl.off + o, e.len, e.wr, cb, true, "memcpy"); }
            return;
          }
          killElems(s, dl.obj, dl.off, N);
          splitAt(m, dl.off); splitAt(m, dl.off + N);
          m.erase(m.lower_bound(dl.off), m.lower_bound(dl.off + N));
          for (auto& [o, e] : pieces) { e.wr.t.insert(ct.t.begin(), ct.t.end()); m[dl.off + o] = e; }
          copyElems(s, sl.obj, sl.off, dl.obj, dl.off, N);
          noteWrite(dl.obj, dl.off, N, cb, "memcpy");
        } else {
          int64_t N = n ? n->getSExtValue() : INF;
          AV v;
          for (auto& l : sr.l) v.join(readRegion(s, l.obj, l.off, l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, N)));
          v.t.insert(ct.t.begin(), ct.t.end());
          for (auto& l : d.l) weakStore(s, l.obj, l.off, l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, N), v, cb, d.l.size() == 1);
        }
        return;
      }
      if (auto ms = dyn_cast<MemSetInst>(ii)) {
        AV d = val(ms->getDest()), v = val(ms->getValue());
        auto n = dyn_cast<ConstantInt>(ms->getLength());
        AV ct = ctlTaint(cb->getParent()); v.t.insert(ct.t.begin(), ct.t.end());
        for (auto& l : d.l) {
          if (n && l.len == 0 && d.l.size() == 1) strongStore(s, l.obj, l.off, n->getSExtValue(), v, cb);
          else weakStore(s, l.obj, l.off, l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, INF), v, cb, d.l.size() == 1);
        }
        return;
      }
      AV r;
      for (auto& a : cb->args()) r.join(val(a));
      if (!cb->getType()->isPointerTy()) r.l.clear();
      if (!cb->getType()->isVoidTy()) set(cb, r);
      return;
    }
    auto sp = G ? G->getSubprogram() : nullptr;
    std::string name = sp ? sp->getName().str() : (G ? demangle(G->getName().str()) : "<indirect>");
    std::string qn = sp ? qualName(sp) : name;
    // allocation
    if (G && (G->getName() == "_Znwm" || G->getName() == "_Znam" || startsWith(G->getName().str(), "_Znwm") || G->getName() == "malloc")) {
      auto it = objOf.find(cb);
      if (it == objOf.end()) { Obj o; o.k = Obj::Heap; o.name = "heap@" + site(cb); o.v = cb; objOf[cb] = mkObj(o); }
      AV a; a.l.insert({objOf[cb], 0, 0});
      set(cb, a);
      return;
    }
    if (G && (startsWith(G->getName().str(), "_Zdl") || startsWith(G->getName().str(), "_Zda") || G->getName() == "free")) return;
    auto& ai = argInfo(cb);
    bool sret = cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet);
    unsigned thisIdx = sret ? 1 : 0;
    bool isMethod = sp && sp->getType()->getTypeArray().size() > 1 && sp->getType()->getTypeArray()[1] && sp->getType()->getTypeArray()[1]->isArtificial();
    std::string base = name;
    { auto p = base.find('<'); if (p != std::string::npos && p > 0 && !startsWith(base, "operator")) base = base.substr(0, p); }
    std::string cls;
    if (isMethod && sp->getScope()) { cls = sp->getScope()->getName().str(); }
    std::string clsBase = cls.substr(0, cls.find('<'));
    bool ctor = isMethod && base == clsBase, dtor = isMethod && !base.empty() && base[0] == '~';
    bool assign = isMethod && startsWith(base, "operator=") && !startsWith(base, "operator==");
    bool killer = ctor || assign || nameIs(base, {"update", "bind", "assign", "clear", "reset", "emplace", "fill"});
    bool resize = nameIs(base, {"resize", "reserve", "shrink_to_fit"});
    AV ct = ctlTaint(cb->getParent());
    std::vector<AV> args(cb->arg_size()), deep(cb->arg_size());
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
      args[i] = val(cb->getArgOperand(i));
      deep[i] = ai[i].ptr ? deepTaint(s, args[i], ai[i].size) : args[i];
      if (!ai[i].ptr) deep[i].l.clear();
    }
    AV rdeep;    // union of all inputs
    AV rlocs;    // pointers the result may hold
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
      if (sret && i == 0) continue;
      rdeep.t.insert(deep[i].t.begin(), deep[i].t.end());
      if (ai[i].ptr)
        for (auto& l : args[i].l) {
          if (objs[l.obj].k == Obj::Func) continue;
          int64_t n = l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, ai[i].size > 0 ? ai[i].size : 8);
          if (l.len) rlocs.l.insert(l);
          AV c = readRegion(s, l.obj, l.off, n);
          if (iterLike(ai[i].pt) && !c.l.empty()) rlocs.l.insert(c.l.begin(), c.l.end());
          else if (!l.len) rlocs.l.insert(elem(l.obj, l.off, n));
        }
    }
    bool copyLike = (ctor || assign) && cb->arg_size() == 2 && ai[1].ptr && ai[0].pt && ai[1].pt &&
                    (ai[0].pt == ai[1].pt || typeQual(ai[0].pt) == typeQual(ai[1].pt));
    // effects on non-const pointer arguments
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
      if (!ai[i].ptr || ai[i].cnst) continue;
      if (!G) continue;
      if (sret && i == 0) continue;
      bool isThis = isMethod && i == thisIdx;
      if (ai[i].rval) continue;   // moved-from argument: value unspecified, ignore
      AV v;
      for (unsigned j = 0; j < cb->arg_size(); ++j)
        if (j != i && !(sret && j == 0)) {
          v.t.insert(deep[j].t.begin(), deep[j].t.end());
        }
      if (copyLike && i == 0) {
        for (auto& l : args[1].l) { AV c = readRegion(s, l.obj, l.off, l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, ai[1].size)); v.join(c); }
      } else if (isThis && (!ai[i].pt || containsPointer(ai[i].pt))) {
        for (unsigned j = 0; j < cb->arg_size(); ++j)
          if (j != i && !(sret && j == 0) && ai[j].ptr)
            for (auto& l : args[j].l) {
              if (objs[l.obj].k == Obj::Func) continue;
              // by-pointer captured
              if (ctor || assign || nameIs(base, {"push_back", "emplace_back", "insert", "emplace", "bind", "assign"})) {
                v.l.insert(l);
                AV c = readRegion(s, l.obj, l.off, l.len ? clampLen(l.obj, l.off, l.len) : clampLen(l.obj, l.off, ai[j].size > 0 ? ai[j].size : 8));
                v.l.insert(c.l.begin(), c.l.end());
              }
            }
      }
      v.t.insert(ct.t.begin(), ct.t.end());
      std::string via = qn;
      for (auto& l : args[i].l) {
        if (objs[l.obj].k == Obj::Func) continue;
        int64_t n = l.len ? clampLen(l.obj, l.off, l.len) : (ai[i].size > 0 ? clampLen(l.obj, l.off, ai[i].size) : 8);
        bool single = args[i].l.size() == 1 && l.len == 0;
        if (isThis && dtor) { if (single) strongStore(s, l.obj, l.off, n, AV{}, cb, via); continue; }
        if (isThis && killer && single) {
          strongStore(s, l.obj, l.off, n, v, cb, via);
          if (copyLike && args[1].l.size() == 1 && args[1].l.begin()->len == 0) copyElems(s, args[1].l.begin()->obj, args[1].l.begin()->off, l.obj, l.off, n);
        }
        else if (isThis && nameIs(base, {"push_back", "insert", "emplace_back", "emplace", "push_front"})) {
          AV tv; tv.t = v.t;
          weakStore(s, l.obj, l.off, n, tv, cb, false, via);
          if (!l.len && !v.l.empty()) {
            Loc el = elem(l.obj, l.off, n);
            for (unsigned j = 0; j < cb->arg_size(); ++j)
              if (j != i && !(sret && j == 0) && ai[j].ptr && ai[j].size > 0)
                for (auto& sl : args[j].l) {
                  if (objs[sl.obj].k == Obj::Func || sl.len) continue;
                  Mem tmp = mem(s, sl.obj);
                  for (auto& [o, e] : tmp) if (o >= sl.off && o < sl.off + ai[j].size && !e.all().l.empty()) weakStore(s, el.obj, o - sl.off, std::min(e.len, ai[j].size), e.all(), cb, false, via);
                }
          }
        }
        else if (isThis && killer && l.len) weakStore(s, l.obj, l.off, n, v, cb, args[i].l.size() == 1, via);
        else if (isThis && nameIs(base, {"begin", "end", "operator[]", "data", "at", "back", "front", "operator->", "operator*", "get", "find", "impl", "value"}))
          ;   // element access, does not modify
        else weakStore(s, l.obj, l.off, n, v, cb, l.len && args[i].l.size() == 1 && !resize && !v.t.empty(), via);
      }
    }
    // result
    AV r;
    r.t = rdeep.t;
    const DIType* rt = sp && sp->getType()->getTypeArray().size() ? sp->getType()->getTypeArray()[0] : nullptr;
    if (sret) {
      int64_t n = ai[0].size > 0 ? ai[0].size : 8;
      AV v;
      v.t = rdeep.t;
      v.t.insert(ct.t.begin(), ct.t.end());
      if (!rt || containsPointer(rt)) v.l = rlocs.l;
      if (v.l.size() > 24) { AV x; x.join(v); v = x; }
      for (auto& l : args[0].l) {
        if (l.len == 0 && args[0].l.size() == 1) strongStore(s, l.obj, l.off, clampLen(l.obj, l.off, n), v, cb, qn);
        else weakStore(s, l.obj, l.off, l.len ? clampLen(l.obj, l.off, l.len) : n, v, cb, false, qn);
      }
    }
    if (!cb->getType()->isVoidTy()) {
      if (cb->getType()->isPointerTy() || ((cb->getType()->isStructTy() || cb->getType()->isIntegerTy(64)) && (!rt || containsPointer(rt)))) r.l = rlocs.l;
      if (assign && cb->getType()->isPointerTy()) r.l = args[0].l;
      set(cb, r);
    }
    if (record) calls[cb] = Call{qn, site(cb), !G, args, deep, sret ? AV{} : r, ct};
  }

  // returns state after block
  void transfer(const BasicBlock* B, State& s) {
    for (auto& I : *B) {
      if (auto a = dyn_cast<AllocaInst>(&I)) {
        auto it = objOf.find(&I);
        if (it == objOf.end()) {
          Obj o; o.k = Obj::Alloca; o.name = "alloca:" + I.getName().str(); o.v = &I;
          if (auto sz = a->getAllocationSize(DL)) o.size = sz->getFixedValue();
          objOf[&I] = mkObj(o);
        }
        AV v; v.l.insert({objOf[&I], 0, 0});
        set(&I, v);
      } else if (auto ld = dyn_cast<LoadInst>(&I)) {
        AV p = val(ld->getPointerOperand());
        int64_t n = DL.getTypeStoreSize(ld->getType());
        auto T = ld->getType();
        AV v = loadFrom(s, p, n, T->isPointerTy() || T->isStructTy() || T->isArrayTy() || T->isVectorTy() || T->isIntegerTy(64) || T->isIntegerTy(128));
        for (auto x : p.t) v.t.insert(x);
        set(&I, v);
      } else if (auto st = dyn_cast<StoreInst>(&I)) {
        AV p = val(st->getPointerOperand()), v = val(st->getValueOperand());
        AV ct = ctlTaint(B);
        v.t.insert(ct.t.begin(), ct.t.end());
        storeTo(s, p, DL.getTypeStoreSize(st->getValueOperand()->getType()), v, st);
      } else if (auto g = dyn_cast<GetElementPtrInst>(&I)) set(&I, gep(cast<GEPOperator>(g)));
      else if (auto ph = dyn_cast<PHINode>(&I)) {
        AV r;
        for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) r.join(val(ph->getIncomingValue(i)));
        // an induction pointer walks through the region it starts in
        if (LI->isLoopHeader(B) && ph->getType()->isPointerTy()) {
          bool ind = false;
          for (auto& in : ph->incoming_values()) {
            const Value* v = in;
            bool any = false;
            for (int d = 0; d < 8; ++d) {
              if (auto g = dyn_cast<GEPOperator>(v)) { v = g->getPointerOperand(); any = true; } else break;
            }
            if (any && v == ph) ind = true;
          }
          if (ind) {
            std::set<Loc> n;
            for (auto& l : r.l) n.insert(regionOf(l));
            r.l = n;
          }
        }
        // control dependence of the merge
        if (!LI->isLoopHeader(B)) {
          for (auto p : predecessors(B)) {
            AV c = ctlTaint(p);
            AV own = ctlTaint(B);
            for (auto x : c.t) r.t.insert(x);
            auto T = p->getTerminator();
            if (auto br = dyn_cast<BranchInst>(T)) if (br->isConditional()) { AV y = val(br->getCondition()); r.t.insert(y.t.begin(), y.t.end()); }
          }
        }
        set(&I, r);
      } else if (auto cb = dyn_cast<CallBase>(&I)) call(s, cb);
      else if (auto r = dyn_cast<ReturnInst>(&I)) {
        if (r->getReturnValue()) retAV.join(val(r->getReturnValue()));
        if (!finSet) { fin = s; finSet = true; } else joinState(fin, s);
      } else if (I.isTerminator()) {
      } else if (isa<ICmpInst>(I) || isa<FCmpInst>(I)) {
        AV r;
        for (auto& op : I.operands()) { AV x = val(op); r.t.insert(x.t.begin(), x.t.end());
        }
        set(&I, r);
      } else {
        AV r;
        for (auto& op : I.operands()) if (!isa<BasicBlock>(op)) r.join(val(op));
        auto T = I.getType();
        if (T->isIntegerTy() && !T->isIntegerTy(64) && !T->isIntegerTy(128)) r.l.clear();
        if (isa<BinaryOperator>(I) ) { if (I.getOpcode() != Instruction::Or && I.getOpcode() != Instruction::Shl && I.getOpcode() != Instruction::Add) r.l.clear(); }
        if (isa<PtrToIntInst>(I)) {}
        if (T->isFloatingPointTy()) r.l.clear();
        set(&I, r);
      }
    }
  }

  int iterations = 0;
  bool run() {
    setup();
    ReversePostOrderTraversal<Function*> rpo(&F);
    std::vector<BasicBlock*> order(rpo.begin(), rpo.end());
    auto runOnce = [&](bool rec) {
      bool ch = false;
      record = rec;
      finSet = false;
      for (auto B : order) {
        bool header = LI->isLoopHeader(B);
        auto L = LI->getLoopFor(B);
        State s;
        bool have = false;
        if (B == &F.getEntryBlock()) have = true;
        if (inEntry.count(B)) { s = inEntry[B]; have = true; }
        bool latch = header && inLatch.count(B);
        if (latch) { State t = s; joinState(t, inLatch[B]); s = t; }
        if (!have) continue;
        State exitState; bool useExit = false;
        // a header that may leave the loop: assume at least one iteration
        bool headerExits = false;
        if (header) for (auto S : successors(B)) if (!L->contains(S)) headerExits = true;
        if (headerExits && L->getNumBlocks() > 1) {
          useExit = true;
          if (latch) { exitState = inLatch[B]; bool r = record; record = false; transfer(B, exitState); record = r; }
        }
        transfer(B, s);
        auto flow = [&](BasicBlock* S, const State& st) {
          bool back = LI->isLoopHeader(S) && LI->getLoopFor(S)->contains(B);
          auto& mp = back ? inLatch : inEntry;
          auto it = mp.find(S);
          if (it == mp.end()) { mp[S] = st; ch = true; }
          else ch |= joinState(it->second, st);
        };
        for (auto S : successors(B)) {
          if (useExit && !L->contains(S)) { if (latch) flow(S, exitState); }
          else flow(S, s);
        }
      }
      return ch;
    };
    for (int it = 0; it < 80; ++it) {
      if (getenv("DFADBG")) errs() << "iter " << it << " objs " << objs.size() << "\n";
      changedReg = false;
      bool ch = runOnce(false);
      ++iterations;
      if (!ch && !changedReg) { retAV = {}; runOnce(true); return true; }
    }
    retAV = {};
    runOnce(true);
    return false;
  }

  // ---- output
  json::Array jt(const std::set<int>& t) { json::Array a; for (auto x : t) a.push_back((x & CTL ? "c:" : "") + syms[x & ~CTL].name); return a; }
  json::Array jl(const std::set<Loc>& l) {
    json::Array a;
    for (auto& x : l) {
      std::string n = objName(x.obj, x.off);
      if (x.len) n = "in(" + n + ")";
      a.push_back(n);
    }
    return a;
  }
  json::Object jav(const AV& a) { return json::Object{{"t", jt(a.t)}, {"l", jl(a.l)}}; }
  json::Object out(bool converged) {
    json::Object root;
    root["converged"] = converged;
    root["iterations"] = iterations;
    root["instructions"] = (int64_t)F.getInstructionCount();
    root["returns"] = finSet;
    json::Array ps;
    for (size_t oi = 0; oi < objs.size(); ++oi) {
      auto& o = objs[oi];
      if (o.k != Obj::Param && o.name != "RET") continue;
      json::Object po;
      po["name"] = o.name;
      po["type"] = o.ty ? typeQual(o.ty) : "";
      json::Array ls;
      for (auto& l : std::vector<Leaf>(o.lv)) {
        AV a = readRegion(fin, oi, l.off, l.len);
        json::Object lo;
        lo["path"] = l.path; lo["off"] = l.off; lo["len"] = l.len; lo["type"] = l.type;
        AV el;
        std::function<void(int, int64_t, int64_t, int)> rec = [&](int ob, int64_t o1, int64_t o2, int d) {
          if (d > 3 || !elemsIn.count(ob)) return;
          for (auto e : elemsIn[ob]) if (objs[e].poff >= o1 && objs[e].poff < o2) {
            for (auto& [k, en] : mem(fin, e)) { AV x = en.all(); el.l.insert(x.l.begin(), x.l.end()); }
            rec(e, 0, INF, d + 1);
          }
        };
        rec(oi, l.off, l.off + l.len, 0);
        lo["t"] = jt(a.t); lo["l"] = jl(a.l); lo["el"] = jl(el.l);
        bool w = false;
        const Mem& m = mem(fin, oi);
        for (auto& [k, e] : m) if (k < l.off + l.len && l.off < k + e.len) w = true;
        lo["touched"] = w;
        ls.push_back(std::move(lo));
      }
      po["leaves"] = std::move(ls);
      ps.push_back(std::move(po));
    }
    root["params"] = std::move(ps);
    json::Array ws;
    for (auto& w : writes) {
      auto& o = objs[w.obj];
      if (o.k == Obj::Global) if (auto* g = dyn_cast_or_null<GlobalVariable>(o.v)) if (g->isThreadLocal() || g->isConstant()) continue;
      const char* kk[] = {"param", "alloca", "global", "heap", "deref", "func", "elem"};
      ws.push_back(json::Object{{"obj", o.name}, {"kind", kk[o.k]}, {"what", objName(w.obj, w.off)}, {"len", w.len > INF / 2 ? -1 : w.len}, {"site", w.site}, {"via", w.via}, {"once", w.isInit}});
    }
    root["writes"] = std::move(ws);
    root["ret"] = jav(retAV);
    json::Array cs;
    for (auto& B : F) for (auto& I : B) {
      auto it = calls.find(&I);
      if (it == calls.end()) continue;
      auto& c = it->second;
      json::Array as;
      for (size_t i = 0; i < c.args.size(); ++i) { auto o = jav(c.args[i]); o["deep"] = jt(c.deep[i].t); as.push_back(std::move(o)); }
      cs.push_back(json::Object{{"name", c.name}, {"site", c.site}, {"indirect", c.indirect}, {"args", std::move(as)}, {"ret", jav(c.ret)}, {"ctl", jt(c.ctl.t)}});
    }
    root["calls"] = std::move(cs);
    return root;
  }
};

int main(int argc, char** argv) {
  std::string in, outf, only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--prefix") inlinePrefixes.push_back(argv[++i]);
    else if (a == "--dump") optDump = true;
    else if (a == "--root") only = argv[++i];
    else if (a == "-o") outf = argv[++i];
    else in = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print(argv[0], errs()); return 3; }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  computeReach(*M);
  std::vector<Function*> roots;
  for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("w_") && (only.empty() || F.getName() == only)) roots.push_back(&F);
  json::Object res;
  for (auto R : roots) {
    auto sp = R->getSubprogram();
    bool ok = inlineAll(R, FAM);
    simplifyFn(*R, FAM, true);
    pruneNoReturn(*R);
    simplifyFn(*R, FAM, true);
    if (optDump) R->print(errs());
    Analyzer A(*R, sp);
    bool conv = A.run();
    auto o = A.out(conv);
    o["inlined_ok"] = ok;
    res[R->getName().str()] = std::move(o);
  }
  std::error_code ec;
  raw_fd_ostream os(outf.empty() ? "-" : outf, ec);
  os << json::Value(std::move(res)) << "\n";
  return 0;
}
