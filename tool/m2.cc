// m2: decides obligation witnesses on the compiler's IR.
//
// Input: unoptimised bitcode of a witness driver. Every extern "C" function
// o_* is a root; each call VIOLATED(line, msg) in it is an obligation "this
// point is unreachable", each REACHED(line) a non-vacuity marker. All code
// reachable from the roots is inlined, then LLVM's value analyses (SSA
// construction, value numbering, sparse constant propagation, memory
// dependence, loop peeling/unrolling for constant trip counts, dead branch
// elimination) are run to saturation, together with value numbering of floating
// point expressions modulo the field axioms (algebra.hh). An obligation is discharged when its
// call has been proven unreachable for all values of the opaque inputs;
// "uncond" marks a call the analysis has proven to be reached on every run.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/ValueMapper.h"
#include "algebra.hh"
#include <chrono>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static bool isRoot(const Function& F) { return !F.isDeclaration() && F.getName().starts_with("o_"); }

static std::string strArg(const Value* v) {
  if (auto g = dyn_cast<GlobalVariable>(v->stripPointerCasts()))
    if (g->hasInitializer())
      if (auto c = dyn_cast<ConstantDataSequential>(g->getInitializer())) {
        std::string s = c->getAsString().str();
        while (!s.empty() && s.back() == 0) s.pop_back();
        return s;
      }
  return "";
}
struct Site { int64_t line; std::string msg; bool uncond; };
static const Function* callee(const Instruction& I) { if (auto c = dyn_cast<CallBase>(&I)) return c->getCalledFunction(); return nullptr; }
static void collect(Function& F, std::vector<Site>& v, std::vector<int64_t>& r) {
  std::set<const BasicBlock*> must;
  const BasicBlock* b = &F.getEntryBlock();
  while (b && must.insert(b).second) {
    auto* t = b->getTerminator();
    if (auto* br = dyn_cast<BranchInst>(t)) b = br->isUnconditional() ? br->getSuccessor(0) : nullptr;
    else if (auto* iv = dyn_cast<InvokeInst>(t)) b = iv->getNormalDest();
    else b = nullptr;
  }
  for (auto& I : instructions(F))
    if (auto* c = callee(I)) {
      auto& cb = cast<CallBase>(I);
      auto line = [&] { auto* k = dyn_cast<ConstantInt>(cb.getArgOperand(0)); return k ? k->getSExtValue() : -1; };
      if (c->getName() == "VIOLATED") {
        auto* a0 = cb.getArgOperand(0);
        std::string m = strArg(cb.getArgOperand(1));
        v.push_back({line(), m, must.count(I.getParent()) > 0});
      }
      if (c->getName() == "REACHED") r.push_back(line());
    }
}

// a local object made of 4-byte integers
static bool onlyInts(Type* t) {
  if (auto* a = dyn_cast<ArrayType>(t)) return onlyInts(a->getElementType());
  if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements() > 0 && llvm::all_of(s->elements(), onlyInts);
  return t->isIntegerTy(32);
}
static bool ints(const Value* p) { auto* a = dyn_cast<AllocaInst>(p->stripPointerCasts()); return a && onlyInts(a->getAllocatedType()); }
// a short copy of an array of ints becomes int-wise, so that its elements stay separate values
static void splitShortCopies(Module& M) {
  std::vector<MemCpyInst*> todo;
  for (auto& F : M) for (auto& I : instructions(F)) if (auto* c = dyn_cast<MemCpyInst>(&I)) {
    auto* n = dyn_cast<ConstantInt>(c->getLength());
    if (!n || c->isVolatile() || n->getZExtValue() % 4 || n->getZExtValue() > 32 || (!ints(c->getDest()) && !ints(c->getSource()))) continue;
    todo.push_back(c);
  }
  for (auto* c : todo) {
    IRBuilder<> B(c); uint64_t n = cast<ConstantInt>(c->getLength())->getZExtValue();
    for (uint64_t k = 0; k < n; k += 4) B.CreateAlignedStore(B.CreateAlignedLoad(B.getInt32Ty(), B.CreateConstGEP1_64(B.getInt8Ty(), c->getSource(), k), Align(4)), B.CreateConstGEP1_64(B.getInt8Ty(), c->getDest(), k), Align(4));
    c->eraseFromParent();
  }
}

// loads from the destination of a memcpy become loads from its source
static int forwardThroughMemcpy(Function& F, FunctionAnalysisManager& FAM) {
  auto& MSSA = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
  auto& DL = F.getParent()->getDataLayout();
  std::vector<std::tuple<LoadInst*, MemTransferInst*, int64_t>> todo;
  for (auto& I : instructions(F)) {
    auto* L = dyn_cast<LoadInst>(&I);
    if (!L || !L->isSimple()) continue;
    auto* ma = MSSA.getWalker()->getClobberingMemoryAccess(L);
    auto* md = dyn_cast<MemoryDef>(ma);
    if (!md || !md->getMemoryInst()) continue;
    auto* M = dyn_cast<MemTransferInst>(md->getMemoryInst());
    if (!M || M->isVolatile()) continue;
    auto* n = dyn_cast<ConstantInt>(M->getLength());
    if (!n) continue;
    APInt lo(64, 0), mo(64, 0);
    auto* lb = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, lo, true);
    auto* mb = M->getDest()->stripAndAccumulateConstantOffsets(DL, mo, true);
    if (lb != mb) continue;
    int64_t k = lo.getSExtValue() - mo.getSExtValue();
    int64_t sz = DL.getTypeStoreSize(L->getType()).getFixedValue();
    if (k < 0 || k + sz > (int64_t)n->getZExtValue()) continue;
    todo.push_back({L, M, k});
  }
  for (auto& [L, M, k] : todo) {
    IRBuilder<> B(M);
    auto* p = B.CreateConstGEP1_64(B.getInt8Ty(), M->getSource(), k);
    auto* r = B.CreateAlignedLoad(L->getType(), p, Align(1));
    L->replaceAllUsesWith(r);
    L->eraseFromParent();
  }
  return todo.size();
}

// the dynamic type of an object is that of the last store to its vtable pointer: an indirect call in between does not change it
static MemoryAccess* vptrDef(MemorySSA& S, MemoryAccess* a, const MemoryLocation& loc, std::set<MemoryAccess*>& seen, Value*& v, bool& ok) {
  while (ok && a && !S.isLiveOnEntryDef(a)) {
    if (auto* phi = dyn_cast<MemoryPhi>(a)) {
      if (!seen.insert(phi).second) return nullptr;
      for (unsigned i = 0; ok && i < phi->getNumIncomingValues(); ++i) vptrDef(S, phi->getIncomingValue(i), loc, seen, v, ok);
      return nullptr;
    }
    auto* d = cast<MemoryDef>(a);
    auto* I = d->getMemoryInst();
    if (auto* cb = dyn_cast<CallBase>(I)) {
      auto* f = cb->getCalledFunction();
      if (!f || (!f->isIntrinsic() && f->isDeclaration())) { a = d->getDefiningAccess(); continue; }
    }
    auto* c = S.getWalker()->getClobberingMemoryAccess(d, loc);
    if (c != d) { a = c; continue; }
    auto* st = dyn_cast<StoreInst>(I);
    auto& DL = I->getModule()->getDataLayout();
    APInt x(64, 0), y(64, 0);
    if (st && st->getValueOperand()->getType()->isPointerTy() && st->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, x, true) == loc.Ptr->stripAndAccumulateConstantOffsets(DL, y, true) && x == y) {
      if (v && v != st->getValueOperand()) ok = false;
      v = st->getValueOperand();
      return nullptr;
    }
    ok = false;
  }
  if (!a || S.isLiveOnEntryDef(a)) ok = false;
  return nullptr;
}
static int resolveVirtual(Function& F, FunctionAnalysisManager& FAM) {
  auto& MSSA = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
  std::vector<std::pair<LoadInst*, Constant*>> todo;
  for (auto& I : instructions(F)) {
    auto* cb = dyn_cast<CallBase>(&I);
    if (!cb || !cb->isIndirectCall()) continue;
    auto* slot = dyn_cast<LoadInst>(cb->getCalledOperand());
    if (!slot) continue;
    APInt o(64, 0);
    auto* L = dyn_cast<LoadInst>(slot->getPointerOperand()->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), o, true));
    if (!L || !L->isSimple()) continue;
    auto* ma = MSSA.getMemoryAccess(L);
    if (!ma) continue;
    std::set<MemoryAccess*> seen; Value* v = nullptr; bool ok = true;
    vptrDef(MSSA, cast<MemoryUse>(ma)->getDefiningAccess(), MemoryLocation::get(L), seen, v, ok);
    if (ok && v && isa<Constant>(v)) todo.push_back({L, cast<Constant>(v)});
  }
  int n = 0; std::set<LoadInst*> done;
  for (auto& [L, v] : todo) if (done.insert(L).second) { L->replaceAllUsesWith(v); ++n; }
  return n;
}

// makes the first iteration of every remaining loop explicit, so that its trip count can be decided by value propagation
static int peelLoops(Function& F, FunctionAnalysisManager& FAM) {
  FunctionPassManager FPM; FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
  auto PA = FPM.run(F, FAM); FAM.invalidate(F, PA);
  auto& LI = FAM.getResult<LoopAnalysis>(F); auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
  auto& DT = FAM.getResult<DominatorTreeAnalysis>(F); auto& AC = FAM.getResult<AssumptionAnalysis>(F);
  int n = 0;
  std::vector<Loop*> ls;
  for (auto* L : LI.getLoopsInPreorder()) {   // the outermost loop of a nest first: its inner loops are peeled once their trip counts are explicit
    bool nested = false;
    for (auto* o : ls) nested |= o->contains(L);
    if (!nested && canPeel(L)) ls.push_back(L);
  }
  for (auto* L : ls) { ValueToValueMapTy m; if (peelLoop(L, 1, &LI, &SE, DT, &AC, true, m)) ++n; }
  if (n) FAM.invalidate(F, PreservedAnalyses::none());
  return n;
}

int main(int argc, char** argv) {
  std::vector<const char*> opts = {"m2", "-inline-threshold=1000000", "-inlinehint-threshold=1000000", "-inlinecold-threshold=1000000",
    "-unroll-threshold=40000", "-unroll-partial-threshold=0", "-unroll-max-upperbound=40", "-memdep-block-scan-limit=20000", "-memdep-block-number-limit=20000",
    "-available-load-scan-limit=2000", "-memssa-check-limit=5000", "-dse-memoryssa-scanlimit=5000", "-jump-threading-threshold=20", "-gvn-max-num-deps=2000",
    "-simplifycfg-merge-cond-stores=false", "-enable-loop-distribute=false"};
  cl::ParseCommandLineOptions(opts.size(), opts.data());
  std::string in, out, dump; bool badAlloc = false, bottomUp = true;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "--bad-alloc") badAlloc = true; else if (a == "--top-down") bottomUp = false; else if (a == "--bottom-up") bottomUp = true; else if (a == "--dump") dump = argv[++i]; else in = a;
  }
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(in, err, C);
  if (!M) { err.print("m2", errs()); return 2; }
  splitShortCopies(*M);
  std::map<std::string, std::pair<int, std::set<int64_t>>> before;   // obligations per root after inlining
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::OptimizeForSize);
    F.removeFnAttr(Attribute::MinSize); F.removeFnAttr(Attribute::Cold);
    if (!isRoot(F)) {
      if (!F.hasLocalLinkage() && !F.hasAvailableExternallyLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); F.setDSOLocal(true); }
      // roots of recursion stay calls
      F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  if (auto* f = M->getFunction("VIOLATED")) { f->removeFnAttr(Attribute::Cold); f->addFnAttr(Attribute::NoUnwind); }
  // the C++ runtime's exception machinery does not touch program memory
  for (auto n : {"__cxa_allocate_exception", "__cxa_throw", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow", "__cxa_free_exception", "__cxa_get_exception_ptr", "_Unwind_Resume"})
    if (auto* f = M->getFunction(n)) {
      f->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      for (auto* u : f->users()) if (auto* cb = dyn_cast<CallBase>(u)) cb->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      if (std::string(n) == "__cxa_begin_catch" || std::string(n) == "__cxa_end_catch") f->addFnAttr(Attribute::NoUnwind);
    }
  if (!badAlloc)   // allocation succeeds
    for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_Znam"})
      if (auto* f = M->getFunction(n)) { f->addFnAttr(Attribute::NoUnwind); for (auto* u : f->users()) if (auto* cb = dyn_cast<CallBase>(u)) cb->addFnAttr(Attribute::NoUnwind); }
  // allocation and deallocation touch nothing but the block itself
  auto effects = [&](const char* n, MemoryEffects e) { if (auto* f = M->getFunction(n)) if (f->isDeclaration()) { f->setMemoryEffects(e); for (auto* u : f->users()) if (auto* cb = dyn_cast<CallBase>(u)) cb->setMemoryEffects(e); } };
  for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_Znam"}) effects(n, MemoryEffects::inaccessibleMemOnly());
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) effects(n, MemoryEffects::inaccessibleOrArgMemOnly());
  // the witness runs in a single thread
  if (auto* g = M->getGlobalVariable("__libc_single_threaded")) { std::vector<LoadInst*> ls; for (auto* u : g->users()) if (auto* l = dyn_cast<LoadInst>(u)) ls.push_back(l); for (auto* l : ls) { l->replaceAllUsesWith(ConstantInt::get(l->getType(), 1)); l->eraseFromParent(); } }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = true; PTO.LoopInterleaving = false;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto count = [&](Module& N) { for (auto& F : N) if (isRoot(F)) { std::vector<Site> v; std::vector<int64_t> r; collect(F, v, r); before[F.getName().str()] = {(int)v.size(), std::set<int64_t>(r.begin(), r.end())}; } };
  if (bottomUp) {   // simplify functions before they are inlined
    { auto N = CloneModule(*M); LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PassBuilder P; P.registerModuleAnalyses(MA); P.registerCGSCCAnalyses(CG); P.registerFunctionAnalyses(FA); P.registerLoopAnalyses(L); P.crossRegisterProxies(L, FA, CG, MA);
      ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass()); MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG))); MPM.run(*N, MA); count(*N); }
    std::vector<std::string> al; for (auto& F : *M) if (F.hasFnAttribute(Attribute::AlwaysInline)) { F.removeFnAttr(Attribute::AlwaysInline); al.push_back(F.getName().str()); }
    ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.addPass(PB.buildModuleSimplificationPipeline(OptimizationLevel::O2, ThinOrFullLTOPhase::None)); MPM.run(*M, MAM);
    for (auto& n : al) if (auto* F = M->getFunction(n)) if (!F->isDeclaration()) F->addFnAttr(Attribute::AlwaysInline);
  }
  {
    ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(GlobalDCEPass()); MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
    MPM.run(*M, MAM);
  }
  if (!bottomUp) count(*M);
  auto open = [&] {   // witnesses not yet discharged
    for (auto& F : *M) if (isRoot(F)) { std::vector<Site> v; std::vector<int64_t> r; collect(F, v, r); if (!v.empty()) return true; }
    return false;
  };
  int peeled = 0;
  auto t0 = std::chrono::steady_clock::now();
  auto late = [&] { return std::chrono::steady_clock::now() - t0 > std::chrono::seconds(150); };   // what is open by then stays undecided
  for (int k = 0, quiet = 0; k < 8 + peeled && quiet < 2 && !late(); ++k) {
    size_t n0 = M->getInstructionCount(); if (getenv("M2_TRACE")) errs() << "round " << k << " instructions " << n0 << " after " << std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - t0).count() << " s\n";
    auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O3);
    MPM.run(*M, MAM);
    int fw = 0;
    for (auto& F : *M) if (isRoot(F)) { int n = forwardThroughMemcpy(F, FAM); n += resolveVirtual(F, FAM); if (k >= 1) n += alg::run(F); fw += n; if (n) FAM.invalidate(F, PreservedAnalyses::none()); }
    if (!open() && k >= 1) break;
    bool again = false;
    if (k >= 1 && peeled < 16)
      for (auto& F : *M) if (isRoot(F) && F.getInstructionCount() < 30000) {
        std::vector<Site> v; std::vector<int64_t> r; collect(F, v, r);
        if (!v.empty()) { int n = peelLoops(F, FAM); if (n) fw += n, again = true; }
      }
    if (again) ++peeled;
    quiet = (fw == 0 && M->getInstructionCount() == n0) ? quiet + 1 : 0;
  }
  if (!dump.empty()) { std::error_code ec; raw_fd_ostream o(dump, ec); M->print(o, nullptr); }
  json::Object res;
  for (auto& F : *M) {
    if (!isRoot(F)) continue;
    std::vector<Site> v; std::vector<int64_t> r; collect(F, v, r);
    json::Array va, ra, ca; std::set<std::string> cs;
    for (auto& s : v) va.push_back(json::Object{{"line", s.line}, {"msg", s.msg}, {"uncond", s.uncond}});
    for (auto x : r) ra.push_back(x);
    int n = 0; for (auto& I : instructions(F)) { ++n; if (auto* c = callee(I)) if (!c->isDeclaration()) cs.insert(c->getName().str()); }
    for (auto& s : cs) ca.push_back(s);
    auto& b = before[F.getName().str()];
    json::Array ma; for (auto x : b.second) ma.push_back(x);
    res[F.getName()] = json::Object{{"obligations", b.first}, {"markers", std::move(ma)}, {"violated", std::move(va)}, {"reached", std::move(ra)}, {"instructions", n}, {"residual_calls", std::move(ca)}};
  }
  if (out.empty()) outs() << json::Value(std::move(res)) << "\n";
  else { std::error_code ec; raw_fd_ostream o(out, ec); o << json::Value(std::move(res)) << "\n"; }
  return 0;
}
