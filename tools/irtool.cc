// irtool: load LLVM bitcode, normalise it (optional inlining policy + pass pipeline),
// and dump the selected functions as JSON for the analyses in /verif/sa.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <map>
#include <set>
using namespace llvm;
static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> InlineRe("inline", cl::desc("mark alwaysinline (demangled regex)"));
static cl::opt<std::string> NoInlineRe("noinline", cl::desc("mark noinline (demangled regex)"));
static cl::opt<std::string> RootRe("roots", cl::desc("functions to dump (demangled regex)"));
static cl::opt<std::string> Passes("passes", cl::init(""));
static cl::opt<bool> Reach("reach", cl::desc("also dump functions reachable from roots"));
static cl::opt<bool> KeepOnlyRoots("internalize", cl::desc("drop bodies not reachable from roots before passes"));
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<std::string> OutBC("bc", cl::init(""));
static cl::opt<bool> Types("types", cl::init(true));
static cl::opt<bool> InlineMain("inline-main", cl::desc("mark functions defined in their own translation unit's main file alwaysinline"));
static cl::opt<std::string> InlineCallers("inline-callers", cl::desc("mark functions that transitively call a match alwaysinline (demangled regex)"));
static cl::opt<std::string> StripRe("strip-inline", cl::desc("drop alwaysinline, mark noinline (demangled regex), before the marks below"));
static cl::opt<bool> Callees("callees", cl::desc("also list the signatures of the defined functions the dumped ones call"));
static cl::opt<bool> Globals("globals", cl::init(false));
static cl::opt<bool> IncludeDecl("alltypes", cl::init(false));

static std::string dem(StringRef n) { return demangle(n.str()); }
struct J { raw_ostream &o; void str(StringRef s) { o << '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if (c < 32 || c > 126) { o << format("\\u%04x", c); } else o << c; } o << '"'; } };

static std::map<const DIType *, int> TyId; static std::vector<const DIType *> TyQ;
static int tyid(const DIType *t) { if (!t) return -1; auto it = TyId.find(t); if (it != TyId.end()) return it->second; int id = TyQ.size(); TyId[t] = id; TyQ.push_back(t); return id; }

struct FDump {
  Function &F; J &j; const DataLayout &DL; std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bids; int next = 0;
  FDump(Function &f, J &jj) : F(f), j(jj), DL(f.getParent()->getDataLayout()) {
    int b = 0; for (auto &B : F) { bids[&B] = b++; for (auto &I : B) ids[&I] = next++; }
  }
  void ty(Type *t) { std::string s; raw_string_ostream os(s); t->print(os); j.str(os.str()); }
  void constant(const Constant *C, int depth = 0) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) { j.o << "[\"c\","; if (CI->getBitWidth() == 1) j.o << (CI->isZero() ? 0 : 1); else CI->getValue().print(j.o, true); j.o << "," << CI->getBitWidth() << "]"; }
    else if (isa<ConstantPointerNull>(C)) j.o << "[\"n\"]";
    else if (isa<PoisonValue>(C) || isa<UndefValue>(C)) j.o << "[\"u\"]";
    else if (auto *G = dyn_cast<GlobalValue>(C)) { j.o << "[\"g\","; j.str(G->getName()); j.o << "]"; }
    else if (auto *CF = dyn_cast<ConstantFP>(C)) { SmallString<32> s; CF->getValueAPF().toString(s, 0, 0); j.o << "[\"f\","; j.str(s); j.o << "]"; }
    else if (auto *GO = dyn_cast<GEPOperator>(C)) { j.o << "[\"xgep\","; gep(GO); j.o << "]"; }
    else if (auto *CE = dyn_cast<ConstantExpr>(C)) { j.o << "[\"x\","; j.str(CE->getOpcodeName()); for (auto &O : CE->operands()) { j.o << ","; val(O.get()); } j.o << "]"; }
    else if (isa<ConstantAggregateZero>(C)) { j.o << "[\"z\"]"; }
    else if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { j.o << "[\"da\","; if (CD->getElementType()->isIntegerTy()) { j.o << CD->getElementByteSize() << ",["; for (unsigned i = 0; i < CD->getNumElements(); i++) { if (i) j.o << ","; CD->getElementAsAPInt(i).print(j.o, true); } j.o << "]"; } else j.o << "0,[]"; j.o << "]"; }
    else if (auto *CA = dyn_cast<ConstantAggregate>(C)) { j.o << "[\"agg\","; if (auto *ST = dyn_cast<StructType>(CA->getType())) { auto *SL = DL.getStructLayout(ST); j.o << "["; for (unsigned i = 0; i < CA->getNumOperands(); i++) { if (i) j.o << ","; j.o << "[" << (uint64_t)SL->getElementOffset(i) << ","; val(CA->getOperand(i)); j.o << "]"; } j.o << "]"; } else { uint64_t es = DL.getTypeAllocSize(CA->getOperand(0)->getType()); j.o << "["; for (unsigned i = 0; i < CA->getNumOperands(); i++) { if (i) j.o << ","; j.o << "[" << i * es << ","; val(CA->getOperand(i)); j.o << "]"; } j.o << "]"; } j.o << "]"; }
    else { std::string s; raw_string_ostream os(s); C->print(os); j.o << "[\"?\","; j.str(os.str()); j.o << "]"; }
  }
  void gep(const GEPOperator *G) {
    val(G->getPointerOperand()); unsigned bw = DL.getIndexSizeInBits(0); MapVector<Value *, APInt> V; APInt C(bw, 0);
    bool ok = G->collectOffset(DL, bw, V, C); j.o << "," << (ok ? C.getSExtValue() : 0) << ",["; bool f = true;
    if (ok) for (auto &p : V) { if (!f) j.o << ","; f = false; j.o << "["; p.second.print(j.o, true); j.o << ","; val(p.first); j.o << "]"; }
    j.o << "]," << (ok ? 1 : 0) << ",["; // constant steps (type-structure), for debugging
    j.o << "]";
  }
  void val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *A = dyn_cast<Argument>(V)) { j.o << "[\"a\"," << A->getArgNo() << "]"; return; }
    if (auto *B = dyn_cast<BasicBlock>(V)) { j.o << "[\"b\"," << bids[B] << "]"; return; }
    if (isa<Instruction>(V)) { j.o << "[\"i\"," << ids[V] << "]"; return; }
    if (isa<InlineAsm>(V)) { j.o << "[\"asm\"]"; return; }
    j.o << "[\"m\"]";
  }
  void loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc(); j.o << "[";
    if (L) { bool first = true; for (; L; L = L->getInlinedAt()) { if (!first) j.o << ","; first = false; j.o << "["; j.str(L->getFilename()); j.o << "," << L->getLine() << ","; auto *SP = L->getScope()->getSubprogram(); j.str(SP ? SP->getName() : ""); j.o << "]"; } }
    j.o << "]";
  }
  void dump(bool body = true) {
    j.o << "{\"name\":"; j.str(F.getName()); j.o << ",\"dem\":"; j.str(dem(F.getName())); j.o << ",\"linkage\":\"" << (F.hasLocalLinkage() ? "local" : F.hasLinkOnceODRLinkage() ? "odr" : "ext") << "\"";
    auto *SP = F.getSubprogram();
    if (SP) { j.o << ",\"file\":"; j.str(SP->getFilename()); j.o << ",\"line\":" << SP->getLine(); }
    j.o << ",\"ret\":"; ty(F.getReturnType());
    // args
    std::map<int, const DILocalVariable *> dv;
    for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) { auto *LV = D->getVariable(); if (LV && LV->getArg() && LV->getScope()->getSubprogram() == SP && !D->getDebugLoc()->getInlinedAt()) dv[LV->getArg()] = LV; }
    j.o << ",\"args\":["; unsigned nargs = F.arg_size(); bool sret = nargs && F.hasParamAttribute(0, Attribute::StructRet);
    for (unsigned i = 0; i < nargs; i++) { if (i) j.o << ","; auto *A = F.getArg(i); j.o << "{\"ty\":"; ty(A->getType()); const DILocalVariable *LV = nullptr; 
      for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) { auto *v = D->getVariable(); if (!v || !v->getArg() || v->getScope()->getSubprogram() != SP || D->getDebugLoc()->getInlinedAt()) continue; Value *loc0 = D->getNumVariableLocationOps() ? D->getVariableLocationOp(0) : nullptr; if (loc0 == A) LV = v; else if (loc0 && isa<AllocaInst>(loc0)) for (auto *U : loc0->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (S->getValueOperand() == A && S->getPointerOperand() == loc0) LV = v; }
      if (!LV && !sret && dv.count(i + 1) && dv.size() == nargs) LV = dv[i + 1];
      if (LV) { j.o << ",\"n\":"; j.str(LV->getName()); j.o << ",\"t\":" << tyid(LV->getType()); }
      if (A->hasByValAttr()) j.o << ",\"byval\":1"; if (sret && i == 0) j.o << ",\"sret\":1"; j.o << "}"; }
    j.o << "]";
    if (SP && SP->getType()) { j.o << ",\"sig\":["; bool f = true; for (auto *T : SP->getType()->getTypeArray()) { if (!f) j.o << ","; f = false; j.o << tyid(T); } j.o << "]"; }
    if (SP && SP->getTemplateParams()) { j.o << ",\"targs\":["; bool f = true; for (auto *T : SP->getTemplateParams()) { if (!f) j.o << ","; f = false; j.o << "["; j.str(T->getName()); j.o << ","; if (auto *TV = dyn_cast<DITemplateValueParameter>(T)) { if (auto *VM = dyn_cast_or_null<ConstantAsMetadata>(TV->getValue())) val(VM->getValue()); else j.o << "null"; } else { j.o << tyid(T->getType()); } j.o << "]"; } j.o << "]"; }
    j.o << ",\"blocks\":["; bool fb = true;
    if (body) for (auto &B : F) {
      if (!fb) j.o << ",\n"; fb = false; j.o << "["; bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue; if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue; }
        if (!fi) j.o << ",\n "; fi = false;
        j.o << "{\"id\":" << ids[&I] << ",\"op\":"; j.str(I.getOpcodeName()); j.o << ",\"ty\":"; ty(I.getType());
        if (auto *P = dyn_cast<PHINode>(&I)) { j.o << ",\"in\":["; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { if (k) j.o << ","; j.o << "[" << bids[P->getIncomingBlock(k)] << ","; val(P->getIncomingValue(k)); j.o << "]"; } j.o << "]"; }
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { j.o << ",\"gep\":["; gep(cast<GEPOperator>(G)); j.o << "]"; }
        else if (auto *C = dyn_cast<CmpInst>(&I)) { j.o << ",\"pred\":\"" << CmpInst::getPredicateName(C->getPredicate()) << "\",\"ops\":["; val(C->getOperand(0)); j.o << ","; val(C->getOperand(1)); j.o << "],\"oty\":"; ty(C->getOperand(0)->getType()); }
        else if (auto *CB = dyn_cast<CallBase>(&I)) { j.o << ",\"callee\":"; Value *cv = CB->getCalledOperand()->stripPointerCasts(); if (auto *CF = dyn_cast<Function>(cv)) { j.str(CF->getName()); j.o << ",\"cdem\":"; j.str(dem(CF->getName())); } else { j.o << "null,\"cv\":"; val(cv); } j.o << ",\"ops\":["; bool f = true; for (auto &A : CB->args()) { if (!f) j.o << ","; f = false; val(A.get()); } j.o << "],\"oty\":["; f = true; for (auto &A : CB->args()) { if (!f) j.o << ","; f = false; ty(A->getType()); } j.o << "]"; if (auto *M = dyn_cast<MemTransferInst>(CB)) (void)M; if (auto *Inv = dyn_cast<InvokeInst>(CB)) { j.o << ",\"succ\":[" << bids[Inv->getNormalDest()] << "]"; } }
        else if (auto *S = dyn_cast<SwitchInst>(&I)) { j.o << ",\"ops\":["; val(S->getCondition()); j.o << "],\"def\":" << bids[S->getDefaultDest()] << ",\"cases\":["; bool f = true; for (auto &c : S->cases()) { if (!f) j.o << ","; f = false; j.o << "["; c.getCaseValue()->getValue().print(j.o, true); j.o << "," << bids[c.getCaseSuccessor()] << "]"; } j.o << "]"; }
        else if (auto *Br = dyn_cast<BranchInst>(&I)) { j.o << ",\"ops\":["; if (Br->isConditional()) val(Br->getCondition()); j.o << "],\"succ\":["; for (unsigned k = 0; k < Br->getNumSuccessors(); k++) { if (k) j.o << ","; j.o << bids[Br->getSuccessor(k)]; } j.o << "]"; }
        else { j.o << ",\"ops\":["; bool f = true; for (auto &O : I.operands()) { if (!f) j.o << ","; f = false; val(O.get()); } j.o << "]"; if (I.getNumOperands()) { j.o << ",\"oty\":"; ty(I.getOperand(0)->getType()); }
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) if (OB->hasNoSignedWrap()) j.o << ",\"nsw\":1";
          if (auto *A = dyn_cast<AllocaInst>(&I)) { j.o << ",\"size\":" << (A->getAllocationSize(DL) ? (uint64_t)A->getAllocationSize(DL)->getFixedValue() : 0) << ",\"aty\":"; ty(A->getAllocatedType()); 
            for (auto *DU : findDbgDeclares(A)) { j.o << ",\"n\":"; j.str(DU->getVariable()->getName()); j.o << ",\"t\":" << tyid(DU->getVariable()->getType()); break; } }
          if (isa<LoadInst>(I)) j.o << ",\"size\":" << (uint64_t)DL.getTypeStoreSize(I.getType()).getFixedValue();
          if (auto *S = dyn_cast<StoreInst>(&I)) j.o << ",\"size\":" << (uint64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { j.o << ",\"idx\":["; bool f2 = true; for (auto x : E->indices()) { if (!f2) j.o << ","; f2 = false; j.o << x; } j.o << "]"; }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) { j.o << ",\"idx\":["; bool f2 = true; for (auto x : E->indices()) { if (!f2) j.o << ","; f2 = false; j.o << x; } j.o << "]"; }
        }
        j.o << ",\"loc\":"; loc(I); j.o << "}";
      }
      j.o << "]";
    }
    j.o << "]}";
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err; std::unique_ptr<Module> M;
  for (auto &in : Inputs) { auto m = parseIRFile(in, Err, Ctx); if (!m) { Err.print("irtool", errs()); return 2; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link error\n"; return 2; } }
  for (auto &A : M->aliases()) if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) A.replaceAllUsesWith(F);
  { // calls of virtual functions on 'this' in a class nothing derives from have one target
    std::set<const Value *> Bases; for (auto &G : M->globals()) if (G.getName().starts_with("_ZTI") && G.hasInitializer()) for (auto &O : G.getInitializer()->operands()) if (auto *T = dyn_cast<GlobalVariable>(O->stripPointerCasts())) if (T->getName().starts_with("_ZTI")) Bases.insert(T);
    for (auto &G : M->globals()) { if (!G.getName().starts_with("_ZTVN") || !G.hasInitializer()) continue; std::string in = G.getName().drop_front(5).drop_back(1).str();
      auto *TI = M->getNamedGlobal(("_ZTI" + G.getName().drop_front(4)).str()); if (!TI || Bases.count(TI)) continue; auto *V = G.getInitializer()->getAggregateElement(0u); if (!V) continue;
      for (auto &F : *M) { StringRef n = F.getName(); if (F.isDeclaration() || F.arg_empty() || !n.consume_front("_ZN")) continue; n.consume_front("K"); if (!n.consume_front(in) || n.empty() || !isDigit(n[0])) continue;
        for (auto &B : F) for (auto &I : B) { auto *CB = dyn_cast<CallBase>(&I); if (!CB || CB->getCalledFunction() || CB->arg_empty()) continue; auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()); if (!L) continue; APInt off(64, 0); auto *P = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true); auto *L2 = dyn_cast<LoadInst>(P);
          if (!L2 || L2->getPointerOperand() != CB->getArgOperand(0)) continue; auto *L3 = dyn_cast<LoadInst>(L2->getPointerOperand()); if (!L3) continue; auto *A = dyn_cast<AllocaInst>(L3->getPointerOperand()); bool own = false; if (A) for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U)) own = S->getValueOperand() == F.getArg(0); if (!own) continue;
          auto *E = V->getAggregateElement(2 + off.getZExtValue() / 8); if (!E) continue; if (auto *T = dyn_cast<Function>(E->stripPointerCasts())) CB->setCalledFunction(T); } } } }
  auto RX = [](std::string s, const char *d) { return Regex(s.empty() ? std::string(d) : s); };
  Regex inl = RX(InlineRe, "^$"), noin = RX(NoInlineRe, "^$"), roots = RX(RootRe, ".");
  std::vector<Function *> R;
  for (auto &F : *M) { if (F.isDeclaration()) continue; if (roots.match(dem(F.getName()))) R.push_back(&F); }
  auto reach = [&](std::vector<Function *> w) { std::set<Function *> seen(w.begin(), w.end()); while (!w.empty()) { auto *F = w.back(); w.pop_back(); for (auto &B : *F) for (auto &I : B) for (auto &O : I.operands()) { SmallVector<Constant *, 4> cs; if (auto *C = dyn_cast<Constant>(O.get())) cs.push_back(C); while (!cs.empty()) { auto *C = cs.pop_back_val(); if (auto *CF = dyn_cast<Function>(C)) { if (!CF->isDeclaration() && seen.insert(CF).second) w.push_back(CF); } else if (isa<ConstantExpr>(C) || isa<ConstantAggregate>(C)) { for (auto &o : C->operands()) if (auto *cc = dyn_cast<Constant>(o.get())) cs.push_back(cc); } else if (auto *GV = dyn_cast<GlobalVariable>(C)) { if (GV->hasInitializer() && isa<ConstantAggregate>(GV->getInitializer()) && GV->isConstant()) cs.push_back(GV->getInitializer()); } } } } return seen; };
  if (KeepOnlyRoots) { auto s = reach(R); for (auto &F : *M) if (!F.isDeclaration() && !s.count(&F)) { F.deleteBody(); F.setComdat(nullptr);} }
  for (auto &F : *M) { if (F.isDeclaration()) continue; std::string d = dem(F.getName()); F.removeFnAttr(Attribute::OptimizeNone);
    if (!NoInlineRe.empty() && noin.match(d)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    else if (!InlineRe.empty() && inl.match(d)) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); for (auto *U : F.users()) if (auto *CB = dyn_cast<CallBase>(U)) CB->removeFnAttr(Attribute::NoInline); } }
  if (!StripRe.empty()) { Regex sr(StripRe); for (auto &F : *M) if (!F.isDeclaration() && sr.match(dem(F.getName()))) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } }
  { std::set<Function *> S; auto mark = [&](Function &F) { if (F.isDeclaration() || roots.match(dem(F.getName())) || (!NoInlineRe.empty() && noin.match(dem(F.getName())))) return; F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); for (auto *U : F.users()) if (auto *CB = dyn_cast<CallBase>(U)) CB->removeFnAttr(Attribute::NoInline); };
    if (InlineMain) for (auto &F : *M) if (auto *SP = F.getSubprogram()) if (SP->getUnit() && SP->getFilename() == SP->getUnit()->getFilename()) mark(F);
    if (!InlineCallers.empty()) { Regex ic(InlineCallers); std::vector<Function *> w; for (auto &F : *M) if (ic.match(dem(F.getName()))) w.push_back(&F);
      while (!w.empty()) { auto *F = w.back(); w.pop_back(); for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) { auto *P = CB->getFunction(); if (S.insert(P).second) { mark(*P); w.push_back(P); } } } } }
  if (!Passes.empty()) { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); ModulePassManager MPM; if (auto E = PB.parsePassPipeline(MPM, Passes)) { errs() << toString(std::move(E)) << "\n"; return 2; } MPM.run(*M, MAM); }
  if (!OutBC.empty()) { std::error_code ec; raw_fd_ostream o(OutBC, ec); WriteBitcodeToFile(*M, o); }
  std::error_code ec; raw_fd_ostream o(Out, ec); J j{o};
  R.clear(); for (auto &F : *M) if (!F.isDeclaration() && roots.match(dem(F.getName()))) R.push_back(&F);
  std::vector<Function *> D = R; if (Reach) { auto s = reach(R); D.assign(s.begin(), s.end()); }
  std::sort(D.begin(), D.end(), [](Function *a, Function *b) { return a->getName() < b->getName(); });
  o << "{\"functions\":[\n"; bool f = true; for (auto *F : D) { if (!f) o << ",\n"; f = false; FDump(*F, j).dump(); }
  if (Callees) { std::set<Function *> S(D.begin(), D.end()); std::vector<Function *> C; for (auto *F : D) for (auto &B : *F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (!G->isDeclaration() && S.insert(G).second) C.push_back(G);
    std::sort(C.begin(), C.end(), [](Function *a, Function *b) { return a->getName() < b->getName(); }); for (auto *F : C) { if (!f) o << ",\n"; f = false; FDump(*F, j).dump(false); } }
  o << "],\n\"globals\":[\n"; f = true;
  if (Globals && !M->empty()) { Function *F0 = nullptr; for (auto &F : *M) if (!F.isDeclaration()) { F0 = &F; break; } if (F0) { FDump fd(*F0, j); for (auto &G : M->globals()) { if (!f) o << ",\n"; f = false; o << "{\"name\":"; j.str(G.getName()); o << ",\"dem\":"; j.str(dem(G.getName())); o << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"local\":" << (G.hasLocalLinkage() ? 1 : 0) << ",\"decl\":" << (G.isDeclaration() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"size\":" << (G.getValueType()->isSized() ? (uint64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue() : 0); SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv); if (!gv.empty()) { o << ",\"file\":"; j.str(gv[0]->getVariable()->getFilename()); o << ",\"line\":" << gv[0]->getVariable()->getLine() << ",\"t\":" << tyid(gv[0]->getVariable()->getType()); } if (G.hasInitializer() && G.isConstant()) { o << ",\"init\":"; fd.val(G.getInitializer()); } else if (G.hasInitializer()) { o << ",\"init\":"; fd.val(G.getInitializer()); } o << "}"; } } }
  if (IncludeDecl) { DebugInfoFinder DF; DF.processModule(*M); for (auto *T : DF.types()) tyid(T); }
  o << "],\n\"types\":[\n"; if (Types) for (size_t i = 0; i < TyQ.size(); i++) { if (i) o << ",\n"; auto *T = TyQ[i]; o << "{\"name\":"; j.str(T->getName()); o << ",\"size\":" << T->getSizeInBits() / 8;
      if (auto *CT = dyn_cast<DICompositeType>(T)) { unsigned tag = CT->getTag(); o << ",\"kind\":\"" << (tag == dwarf::DW_TAG_array_type ? "array" : tag == dwarf::DW_TAG_enumeration_type ? "enum" : tag == dwarf::DW_TAG_union_type ? "union" : "struct") << "\",\"id\":"; j.str(CT->getIdentifier()); o << ",\"decl\":" << (CT->isForwardDecl() ? 1 : 0); o << ",\"base\":" << tyid(CT->getBaseType());
        if (tag == dwarf::DW_TAG_array_type) { o << ",\"dims\":["; bool g = true; for (auto *E : CT->getElements()) if (auto *SR = dyn_cast<DISubrange>(E)) { if (!g) o << ","; g = false; if (auto *c = SR->getCount().dyn_cast<ConstantInt *>()) o << c->getSExtValue(); else o << -1; } o << "]"; }
        else if (tag == dwarf::DW_TAG_enumeration_type) { o << ",\"vals\":["; bool g = true; for (auto *E : CT->getElements()) if (auto *EN = dyn_cast<DIEnumerator>(E)) { if (!g) o << ","; g = false; o << "["; j.str(EN->getName()); o << "," << EN->getValue().getSExtValue() << "]"; } o << "]"; }
        else { o << ",\"mem\":["; bool g = true; for (auto *E : CT->getElements()) if (auto *MT = dyn_cast<DIDerivedType>(E)) { if (MT->isStaticMember()) continue; if (MT->getTag() != dwarf::DW_TAG_member && MT->getTag() != dwarf::DW_TAG_inheritance) continue; if (!g) o << ","; g = false; o << "["; j.str(MT->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : MT->getName()); o << "," << MT->getOffsetInBits() / 8 << "," << MT->getSizeInBits() / 8 << "," << tyid(MT->getBaseType()) << "]"; } o << "]"; } }
      else if (auto *DT = dyn_cast<DIDerivedType>(T)) { unsigned tag = DT->getTag(); o << ",\"kind\":\"" << (tag == dwarf::DW_TAG_pointer_type ? "ptr" : (tag == dwarf::DW_TAG_reference_type || tag == dwarf::DW_TAG_rvalue_reference_type) ? "ref" : tag == dwarf::DW_TAG_const_type ? "const" : tag == dwarf::DW_TAG_typedef ? "typedef" : "other") << "\",\"base\":" << tyid(DT->getBaseType()); }
      else if (isa<DIBasicType>(T)) o << ",\"kind\":\"basic\",\"enc\":" << cast<DIBasicType>(T)->getEncoding();
      else o << ",\"kind\":\"sub\"";
      o << "}"; }
  o << "]}\n"; return 0;
}
