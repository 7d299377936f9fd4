// irx: load LLVM bitcode produced from /repo's sources, apply an inlining policy and a
// pass pipeline, and export the resulting IR (with debug locations and class layouts) as JSON.
// It executes nothing of the analysed program.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string demangleName(StringRef n) { return llvm::demangle(n.str()); }
static std::string typeStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

struct Exporter {
  Module &M; const DataLayout &DL; json::OStream &J;
  DenseMap<const Value *, unsigned> ids; DenseMap<const BasicBlock *, unsigned> bids;
  std::map<const DIType *, bool> seenDI;
  Exporter(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) {}

  void gepInfo(const GEPOperator *G) {
    unsigned BW = DL.getIndexSizeInBits(G->getPointerAddressSpace());
    MapVector<Value *, APInt> VO; APInt CO(BW, 0);
    if (G->collectOffset(DL, BW, VO, CO)) {
      J.attribute("off", CO.getSExtValue());
      J.attributeArray("idx", [&] { for (auto &p : VO) J.array([&] { operand(p.first); J.value(p.second.getSExtValue()); }); });
    } else J.attribute("badgep", true);
    J.attribute("sty", typeStr(G->getSourceElementType()));
    J.attribute("inb", G->isInBounds());
  }
  void operand(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      SmallString<40> s; CI->getValue().toStringUnsigned(s);
      J.object([&] { J.attribute("k", "c"); J.attribute("v", s.str()); J.attribute("w", CI->getBitWidth()); });
    } else if (isa<ConstantPointerNull>(V)) J.object([&] { J.attribute("k", "null"); });
    else if (isa<UndefValue>(V)) J.object([&] { J.attribute("k", "undef"); J.attribute("ty", typeStr(V->getType())); });
    else if (auto *GV = dyn_cast<GlobalValue>(V)) J.object([&] { J.attribute("k", "g"); J.attribute("n", GV->getName()); });
    else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      J.object([&] { J.attribute("k", "ce"); J.attribute("op", CE->getOpcodeName());
        if (auto *G = dyn_cast<GEPOperator>(CE)) gepInfo(G);
        J.attributeArray("ops", [&] { for (auto &o : CE->operands()) operand(o.get()); }); });
    } else if (auto *C = dyn_cast<Constant>(V)) {
      J.object([&] { std::string s; raw_string_ostream o(s); C->printAsOperand(o, false);
        J.attribute("k", C->isNullValue() ? "zero" : "const"); J.attribute("s", o.str()); J.attribute("ty", typeStr(C->getType())); });
    } else if (auto *BB = dyn_cast<BasicBlock>(V)) J.object([&] { J.attribute("k", "b"); J.attribute("id", bids[BB]); });
    else if (auto *MV = dyn_cast<MetadataAsValue>(V)) J.object([&] { J.attribute("k", "md"); });
    else if (isa<InlineAsm>(V)) J.object([&] { J.attribute("k", "asm"); });
    else { auto it = ids.find(V); if (it == ids.end()) J.object([&] { J.attribute("k", "unk"); });
      else J.object([&] { J.attribute("k", isa<Argument>(V) ? "a" : "i"); J.attribute("id", it->second); }); }
  }
  std::map<const DILocation *, int> locIds; std::vector<const DILocation *> locs;
  int locId(const DILocation *L) { auto it = locIds.find(L); if (it != locIds.end()) return it->second;
    if (L->getInlinedAt()) locId(L->getInlinedAt()); int n = locs.size(); locs.push_back(L); locIds[L] = n; return n; }
  void dloc(const DebugLoc &D) { if (D) J.attribute("dl", locId(D.get())); }
  void locTable() {
    J.attributeArray("locs", [&] { for (size_t i = 0; i < locs.size(); i++) { auto *L = locs[i]; J.array([&] {
        auto *SP = L->getScope()->getSubprogram(); J.value(L->getFilename()); J.value(L->getLine());
        J.value(SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : std::string());
        J.value(L->getInlinedAt() ? (int64_t)locIds[L->getInlinedAt()] : (int64_t)-1); }); } });
    J.attributeArray("cols", [&] { for (auto *L : locs) J.value(L->getColumn()); });
  }
  void attrsOfCall(const CallBase *C) {
    J.attribute("ro", C->onlyReadsMemory()); J.attribute("rn", C->doesNotAccessMemory());
    J.attribute("argmem", C->onlyAccessesArgMemory());
    J.attribute("noret", C->doesNotReturn());
    J.attributeArray("aro", [&] { for (unsigned i = 0; i < C->arg_size(); i++) J.value(C->getArgOperand(i)->getType()->isPointerTy() && C->onlyReadsMemory(i)); });
  }
  void inst(const Instruction &I) {
    J.object([&] {
      J.attribute("id", ids[&I]); J.attribute("op", I.getOpcodeName()); J.attribute("ty", typeStr(I.getType()));
      if (I.getType()->isSized()) J.attribute("sz", (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
      if (auto *C = dyn_cast<ICmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *C = dyn_cast<FCmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", typeStr(A->getAllocatedType())); J.attribute("nm", A->getName());
        auto s = A->getAllocationSize(DL); J.attribute("asz", s ? (int64_t)s->getFixedValue() : -1); }
      if (auto *S = dyn_cast<StoreInst>(&I)) J.attribute("ssz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sty", typeStr(S->getValueOperand()->getType())); if (S->isVolatile()) J.attribute("vol", true); if (S->isAtomic()) J.attribute("atomic", true);}
      if (auto *S = dyn_cast<LoadInst>(&I)) { if (S->isVolatile()) J.attribute("vol", true); if (S->isAtomic()) J.attribute("atomic", true);}
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) gepInfo(cast<GEPOperator>(G));
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.array([&] { operand(P->getIncomingValue(i)); J.value(bids[P->getIncomingBlock(i)]); }); });
      } else if (auto *B = dyn_cast<BranchInst>(&I)) {
        J.attributeArray("succ", [&] { for (unsigned k = 0; k < B->getNumSuccessors(); k++) J.value(bids[B->getSuccessor(k)]); });
        if (B->isConditional()) J.attributeArray("ops", [&] { operand(B->getCondition()); });
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("ops", [&] { operand(S->getCondition()); });
        J.attribute("def", bids[S->getDefaultDest()]);
        J.attributeArray("cases", [&] { for (auto &c : S->cases()) J.array([&] { operand(c.getCaseValue()); J.value(bids[c.getCaseSuccessor()]); }); });
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        if (auto *F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) J.attribute("fn", F->getName());
        else { J.attribute("indirect", true); if (isa<InlineAsm>(C->getCalledOperand())) J.attribute("asm", true); J.attributeBegin("callee"); operand(C->getCalledOperand()); J.attributeEnd(); }
        J.attributeArray("ops", [&] { for (auto &a : C->args()) operand(a.get()); });
        J.attributeArray("aty", [&] { for (auto &a : C->args()) J.value(typeStr(a->getType())); });
        J.attributeArray("sret", [&] { for (unsigned i = 0; i < C->arg_size(); i++) J.value(C->paramHasAttr(i, Attribute::StructRet)); });
        attrsOfCall(C);
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { J.attribute("normal", bids[IV->getNormalDest()]); J.attribute("unwind", bids[IV->getUnwindDest()]); }
      } else {
        J.attributeArray("ops", [&] { for (auto &o : I.operands()) operand(o.get()); });
        J.attributeArray("oty", [&] { for (auto &o : I.operands()) J.value(typeStr(o->getType())); });
        if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix", [&] { for (unsigned x : E->indices()) J.value(x); });
        if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix", [&] { for (unsigned x : E->indices()) J.value(x); });
      }
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { J.attribute("nuw", O->hasNoUnsignedWrap()); J.attribute("nsw", O->hasNoSignedWrap()); }
      if (auto *O = dyn_cast<PossiblyExactOperator>(&I)) if (O->isExact()) J.attribute("ex", true);
      dloc(I.getDebugLoc());
    });
  }
  void func(const Function &F, bool body) {
    ids.clear(); bids.clear(); unsigned n = 0, b = 0;
    for (auto &A : F.args()) ids[&A] = n++;
    for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    J.object([&] {
      J.attribute("name", F.getName()); J.attribute("dem", demangleName(F.getName()));
      J.attribute("decl", F.isDeclaration()); J.attribute("linkage", (int)F.getLinkage());
      J.attribute("ret", typeStr(F.getReturnType()));
      if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename()); J.attribute("line", SP->getLine()); }
      J.attributeArray("args", [&] { for (auto &A : F.args()) J.object([&] { J.attribute("id", ids[&A]); J.attribute("name", A.getName()); J.attribute("ty", typeStr(A.getType()));
          if (A.hasStructRetAttr()) J.attribute("sret", true); }); });
      if (body && !F.isDeclaration())
        J.attributeArray("blocks", [&] { for (auto &BB : F) J.object([&] { J.attribute("id", bids[&BB]);
            J.attributeArray("insts", [&] { for (auto &I : BB) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto k = II->getIntrinsicID();
                  if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::experimental_noalias_scope_decl) continue; }
                inst(I); } }); }); });
    });
  }
  std::string diName(const DIType *T) {
    if (!T) return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) { case dwarf::DW_TAG_pointer_type: return diName(D->getBaseType()) + "*";
        case dwarf::DW_TAG_reference_type: return diName(D->getBaseType()) + "&";
        case dwarf::DW_TAG_const_type: return "const " + diName(D->getBaseType());
        case dwarf::DW_TAG_volatile_type: return "volatile " + diName(D->getBaseType());
        case dwarf::DW_TAG_typedef: return diName(D->getBaseType());
        default: return D->getName().str(); } }
    std::string s = T->getName().str();
    for (auto *Sc = T->getScope(); Sc; Sc = Sc->getScope()) { if (isa<DIFile>(Sc) || isa<DICompileUnit>(Sc)) break; if (!Sc->getName().empty()) s = Sc->getName().str() + "::" + s; }
    return s;
  }
  void ditypes(DebugInfoFinder &DF) {
    J.attributeArray("classes", [&] {
      std::set<std::string> done;
      for (auto *T : DF.types()) { auto *C = dyn_cast<DICompositeType>(T); if (!C) continue;
        if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) continue;
        if (C->isForwardDecl()) continue; std::string nm = diName(C); if (!done.insert(nm).second) continue;
        J.object([&] { J.attribute("name", nm); J.attribute("size", (int64_t)C->getSizeInBits() / 8);
          J.attribute("file", C->getFilename()); J.attribute("line", C->getLine());
          J.attributeArray("members", [&] { for (auto *E : C->getElements()) { auto *D = dyn_cast_or_null<DIDerivedType>(E); if (!D) continue;
              bool inh = D->getTag() == dwarf::DW_TAG_inheritance; if (D->getTag() != dwarf::DW_TAG_member && !inh) continue; if (D->isStaticMember()) continue;
              J.object([&] { J.attribute("name", D->getName()); J.attribute("base", inh); J.attribute("off", (int64_t)D->getOffsetInBits() / 8);
                J.attribute("sz", (int64_t)(D->getBaseType() ? D->getBaseType()->getSizeInBits() / 8 : 0)); J.attribute("msz", (int64_t)D->getSizeInBits() / 8); J.attribute("type", diName(D->getBaseType())); }); } }); }); } });
  }
};

static std::vector<Regex> readRegexes(const std::string &file) {
  std::vector<Regex> v; auto B = MemoryBuffer::getFile(file); if (!B) { errs() << "cannot read " << file << "\n"; exit(3); }
  SmallVector<StringRef, 32> L; (*B)->getBuffer().split(L, '\n'); for (auto s : L) { s = s.trim(); if (s.empty() || s.startswith("#")) continue; v.emplace_back(s); }
  return v;
}
static bool matchAny(const std::vector<Regex> &R, const std::string &s) { for (auto &r : R) if (r.match(s)) return true; return false; }

static bool isStd(StringRef n) { return Regex("^_Z(St|N?K?St|NS[abtsiod]|NKS[abtsiod]|NK?9__gnu_cxx|9__gnu_cxx)").match(n); }

// every number of a local starts out as a value of its own: freeze undef
static void markType(IRBuilder<> &B, const DataLayout &DL, Value *P, Type *T, uint64_t off, unsigned depth) {
  if (depth > 8) return;
  if (auto *S = dyn_cast<StructType>(T)) { if (S->isOpaque()) return; auto *L = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) markType(B, DL, P, S->getElementType(i), off + L->getElementOffset(i), depth + 1); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { if (A->getElementType()->isIntegerTy(8) || A->getNumElements() > 8) return;
    for (unsigned i = 0; i < A->getNumElements(); i++) markType(B, DL, P, A->getElementType(), off + i * DL.getTypeAllocSize(A->getElementType()).getFixedValue(), depth + 1); return; }
  if (!T->isIntegerTy() || T->getIntegerBitWidth() > 64 || T->getIntegerBitWidth() < 8) return;
  B.CreateStore(B.CreateFreeze(UndefValue::get(T)), off ? B.CreateConstGEP1_64(B.getInt8Ty(), P, off) : P);
}
static void markLocals(Function &F) {
  const DataLayout &DL = F.getParent()->getDataLayout(); std::vector<AllocaInst *> As;
  for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (!A->isArrayAllocation() && DL.getTypeAllocSize(A->getAllocatedType()) <= 512) As.push_back(A);
  for (auto *A : As) { std::vector<Instruction *> at;
    for (auto *U : A->users()) if (auto *II = dyn_cast<IntrinsicInst>(U)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) at.push_back(II->getNextNode());
    if (at.empty()) at.push_back(A->getNextNode());
    for (auto *I : at) { while (isa<AllocaInst>(I)) I = I->getNextNode(); IRBuilder<> B(I); B.SetCurrentDebugLocation(I->getDebugLoc()); markType(B, DL, A, A->getAllocatedType(), 0, 0); } }
}

int main(int argc, char **argv) {
  std::string in, out, pipeline, keepFile, rootFile, inlFile; bool dropAsserts = false, ignoreStdBig = false; unsigned stdMax = 0; bool noInline = false; bool dumpll = false, marks = false;
  for (int i = 1; i < argc; i++) { StringRef a = argv[i];
    if (a.consume_front("--passes=")) pipeline = a.str(); else if (a.consume_front("--keep=")) keepFile = a.str();
    else if (a.consume_front("--inline=")) inlFile = a.str();
    else if (a.consume_front("--roots=")) rootFile = a.str(); else if (a == "--drop-asserts") dropAsserts = true;
    else if (a.consume_front("--std-max=")) a.getAsInteger(10, stdMax); else if (a == "--no-inline") noInline = true; else if (a == "--ll") dumpll = true; else if (a == "--mark-locals") marks = true;
    else if (in.empty()) in = a.str(); else out = a.str(); }
  (void)ignoreStdBig;
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(in, E, C); if (!M) { E.print(argv[0], errs()); return 3; }
  std::vector<Regex> keep, roots, inl; if (!keepFile.empty()) keep = readRegexes(keepFile); if (!rootFile.empty()) roots = readRegexes(rootFile); if (!inlFile.empty()) inl = readRegexes(inlFile);
  for (auto &A : make_early_inc_range(M->aliases())) { auto *T = A.getAliaseeObject(); if (!T) continue; A.replaceAllUsesWith(A.getAliasee()); A.eraseFromParent(); }
  // std::copy of trivially copyable elements is a block move (the library's body special-cases short lengths)
  for (auto &F : *M) { if (F.isDeclaration() || F.arg_size() != 3 || !Regex("^_ZNSt11__copy_moveILb[01]ELb1ESt26random_access_iterator_tagE8__copy_m").match(F.getName())) continue;
    if (!F.getReturnType()->isPointerTy() || !F.getArg(0)->getType()->isPointerTy() || !F.getArg(1)->getType()->isPointerTy() || !F.getArg(2)->getType()->isPointerTy()) continue;
    auto *SP = F.getSubprogram(); F.deleteBody(); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setSubprogram(SP);
    IRBuilder<> B(BasicBlock::Create(C, "", &F)); if (SP) B.SetCurrentDebugLocation(DILocation::get(C, SP->getLine(), 0, SP));
    Value *n = B.CreateSub(B.CreatePtrToInt(F.getArg(1), B.getInt64Ty()), B.CreatePtrToInt(F.getArg(0), B.getInt64Ty()));
    B.CreateMemMove(F.getArg(2), MaybeAlign(1), F.getArg(0), MaybeAlign(1), n);
    B.CreateRet(B.CreateGEP(B.getInt8Ty(), F.getArg(2), n)); }
  if (dropAsserts) {  // an assertion that fails ends the program: continue on the passing side only
    for (auto &F : *M) for (auto &BB : F) { bool fail = false;
        for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (G->getName() == "__assert_fail") fail = true;
        if (!fail) continue;
        std::vector<BasicBlock *> P(pred_begin(&BB), pred_end(&BB));
        for (auto *p : P) if (auto *B = dyn_cast<BranchInst>(p->getTerminator())) if (B->isConditional()) {
              BasicBlock *o = B->getSuccessor(0) == &BB ? B->getSuccessor(1) : B->getSuccessor(0); if (o == &BB) continue;
              BB.removePredecessor(p); auto *N = BranchInst::Create(o, B); N->setDebugLoc(B->getDebugLoc()); B->eraseFromParent(); } } }
  for (auto &F : *M) { if (F.isDeclaration()) continue;
    if (marks) markLocals(F);
    F.removeFnAttr(Attribute::OptimizeNone); std::string d = demangleName(F.getName());
    bool isRoot = matchAny(roots, d); if (!rootFile.empty() && !isRoot && !F.hasLocalLinkage() ) F.setLinkage(GlobalValue::InternalLinkage), F.setComdat(nullptr);
    if (noInline) continue;
    bool k = matchAny(keep, d) || isRoot; if (k && matchAny(inl, d) && !isRoot) k = false;
    if (!k && stdMax && isStd(F.getName()) && !matchAny(inl, d)) {
      // keep library functions that allocate, loop or are large as opaque, modelled calls
      bool big = F.getInstructionCount() > stdMax; DominatorTree DT(F); LoopInfo LI(DT); if (!LI.empty()) big = true; k = big; }
    if (k) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); } }
  if (!pipeline.empty()) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM; if (auto Er = PB.parsePassPipeline(MPM, pipeline)) { errs() << toString(std::move(Er)) << "\n"; return 3; }
    MPM.run(*M, MAM); }
  if (dumpll) { std::error_code EC; raw_fd_ostream O(out + ".ll", EC); M->print(O, nullptr); }
  DebugInfoFinder DF; DF.processModule(*M);
  std::error_code EC; raw_fd_ostream OS(out, EC); json::OStream J(OS, 0); Exporter X(*M, J);
  J.object([&] {
    J.attribute("file", M->getSourceFileName());
    J.attributeArray("globals", [&] { for (auto &G : M->globals()) J.object([&] { J.attribute("name", G.getName()); J.attribute("dem", demangleName(G.getName())); J.attribute("const", G.isConstant()); J.attribute("tls", G.isThreadLocal());
        J.attribute("linkage", (int)G.getLinkage()); J.attribute("decl", G.isDeclaration());
        J.attribute("ty", typeStr(G.getValueType()));
        if (G.hasInitializer()) { if (auto *D = dyn_cast<ConstantDataSequential>(G.getInitializer())) if (D->isString() ) { std::string h; for (unsigned char c : D->getAsString()) { char b[3]; snprintf(b, 3, "%02x", c); h += b; } J.attribute("hex", h); }
          if (auto *CI = dyn_cast<ConstantInt>(G.getInitializer())) { SmallString<40> s; CI->getValue().toStringUnsigned(s); J.attribute("init", s.str()); } } }); });
    X.ditypes(DF);
    J.attributeArray("functions", [&] { for (auto &F : *M) X.func(F, true); });
    X.locTable();
  });
  return 0;
}
