// irexport: reads LLVM bitcode, normalises it (inlining of file-local helpers, SROA)
// and writes one JSON object per line for the Python analyses.
//   irexport IN.bc OUT.jsonl [--no-inline] [--keep name,name,...]
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
using json::Array; using json::Object;
typedef json::Value JV;

static std::map<std::string, std::vector<std::string>> Fields;  // struct -> field names
static const DataLayout *DL;
static std::set<std::string> Inlined;

// the name macros of the function armas_pivot also rename the struct tag in some units
static std::string canonStruct(StringRef n) {
  if (n.starts_with("armas_") && n.size() > 8 && n[7] == '_' && n.ends_with("_pivot") && n.size() == 13) return "armas_pivot";
  return n.str();
}
static std::string baseName(StringRef n) {
  // strip "struct." / "union." and the ".N" suffix that linking adds
  if (n.starts_with("struct.")) n = n.drop_front(7);
  else if (n.starts_with("union.")) n = n.drop_front(6);
  size_t p = n.rfind('.');
  if (p != StringRef::npos && p + 1 < n.size()) {
    bool dig = true;
    for (char c : n.drop_front(p + 1)) dig &= (c >= '0' && c <= '9');
    if (dig) n = n.take_front(p);
  }
  return canonStruct(n);
}
static std::string tyStr(Type *T) {
  if (auto *ST = dyn_cast<StructType>(T)) {
    if (ST->hasName()) return "S:" + baseName(ST->getName());
    return "S:?";
  }
  if (auto *AT = dyn_cast<ArrayType>(T))
    return "[" + std::to_string(AT->getNumElements()) + " x " + tyStr(AT->getElementType()) + "]";
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}
static std::string diType(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diType(D->getBaseType(), depth + 1) + " *";
    case dwarf::DW_TAG_const_type: return "const " + diType(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + diType(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_restrict_type: return diType(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: return D->getName().str();
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diType(C->getBaseType(), depth + 1) + " []";
    std::string k = C->getTag() == dwarf::DW_TAG_structure_type ? "struct " :
                    C->getTag() == dwarf::DW_TAG_union_type ? "union " :
                    C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "";
    return k + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "func";
  return T->getName().str();
}
static const DICompositeType *stripToStruct(const DIType *T) {
  while (T) {
    if (auto *C = dyn_cast<DICompositeType>(T)) return C;
    if (auto *D = dyn_cast<DIDerivedType>(T)) { T = D->getBaseType(); continue; }
    return nullptr;
  }
  return nullptr;
}
static void collectFields(Module &M) {
  DebugInfoFinder F; F.processModule(M);
  for (DIType *T : F.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_structure_type || C->getName().empty()) continue;
    std::vector<std::string> v;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E)) v.push_back(D->getName().str());
    if (!v.empty()) Fields[canonStruct(C->getName())] = v;
  }
}

struct FnExp {
  Function &F;
  std::map<const Value *, int> id;
  std::map<const BasicBlock *, int> bid;
  FnExp(Function &F) : F(F) {}
  JV opnd(const Value *V) {
    auto it = id.find(V);
    if (it != id.end()) return it->second;
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      if (CI->getBitWidth() <= 64) {
        // i1 as 0/1, others signed
        int64_t x = CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue();
        return Array{"c", x, (int64_t)CI->getBitWidth()};
      }
      return Array{"k", "bigint"};
    }
    if (isa<ConstantPointerNull>(V)) return Array{"null"};
    if (isa<UndefValue>(V)) return Array{"undef"};
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; CF->getValueAPF().toString(s);
      return Array{"fp", s.str().str()};
    }
    if (auto *GV = dyn_cast<GlobalValue>(V)) return Array{"g", GV->getName().str()};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) {
        Array a{"gep", opnd(G->getPointerOperand())};
        a.push_back(gepSteps(G));
        return a;
      }
      if (CE->isCast()) return opnd(CE->getOperand(0));
      return Array{"k", "constexpr"};
    }
    if (isa<ConstantAggregateZero>(V)) return Array{"zero"};
    if (isa<Constant>(V)) {
      std::string s; raw_string_ostream os(s); V->print(os); return Array{"k", os.str()};
    }
    return Array{"k", "other"};
  }
  Array gepSteps(const GEPOperator *G) {
    Array st;
    Type *T = G->getSourceElementType();
    auto I = G->idx_begin();
    // first index: pointer arithmetic
    const Value *first = *I; ++I;
    if (!(isa<ConstantInt>(first) && cast<ConstantInt>(first)->isZero()))
      st.push_back(Array{"i", (int64_t)DL->getTypeAllocSize(T).getFixedValue(), opnd(first), tyStr(T)});
    for (; I != G->idx_end(); ++I) {
      if (auto *ST = dyn_cast<StructType>(T)) {
        unsigned k = cast<ConstantInt>(*I)->getZExtValue();
        std::string sn = ST->hasName() ? baseName(ST->getName()) : "?";
        std::string fn = std::to_string(k);
        auto it = Fields.find(sn);
        if (it != Fields.end() && k < it->second.size()) fn = it->second[k];
        st.push_back(Array{"f", sn, fn, (int64_t)k});
        T = ST->getElementType(k);
      } else if (auto *AT = dyn_cast<ArrayType>(T)) {
        T = AT->getElementType();
        st.push_back(Array{"i", (int64_t)DL->getTypeAllocSize(T).getFixedValue(), opnd(*I), tyStr(T)});
      } else if (auto *VT = dyn_cast<VectorType>(T)) {
        T = VT->getElementType();
        st.push_back(Array{"i", (int64_t)DL->getTypeAllocSize(T).getFixedValue(), opnd(*I), tyStr(T)});
      }
    }
    return st;
  }
  JV locOf(const Instruction &I) {
    // [line, file, scope chain "fn@line<fn..."]
    const DILocation *L = I.getDebugLoc();
    if (!L) return nullptr;
    Array a{(int64_t)L->getLine(), L->getFilename().str()};
    std::string sc;
    if (L->getInlinedAt()) sc = L->getScope()->getSubprogram()->getName().str();
    if (!sc.empty()) a.push_back(sc);
    return a;
  }
  JV run() {
    Object o;
    o["kind"] = "fn"; o["name"] = F.getName().str();
    o["linkage"] = F.hasInternalLinkage() ? "static" : "extern";
    Array ps; int n = 0;
    DISubprogram *SP = F.getSubprogram();
    std::vector<std::string> dt, dn;
    if (SP) {
      o["file"] = SP->getFilename().str(); o["line"] = (int64_t)SP->getLine();
      if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) dt.push_back(diType(T));
      dn.resize(F.arg_size() + 2);
    }
    // parameter names
    std::map<unsigned, std::string> pn;
    if (SP) for (auto *N : SP->getRetainedNodes())
      if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg()) pn[V->getArg()] = V->getName().str();
    std::map<const Value *, std::string> vname;
    for (auto &B : F) for (auto &I : B) {
      if (auto *D = dyn_cast<DbgValueInst>(&I)) {
        if (D->getNumVariableLocationOps() == 1 && !I.getDebugLoc()->getInlinedAt() && !D->getExpression()->isFragment()) {
          Value *V = D->getVariableLocationOp(0);
          if (V) { if (isa<Argument>(V) && D->getVariable()->getArg()) vname[V] = D->getVariable()->getName().str();
                   else vname.emplace(V, D->getVariable()->getName().str()); }
        }
      } else if (auto *D = dyn_cast<DbgDeclareInst>(&I)) {
        if (D->getAddress()) vname.emplace(D->getAddress(), D->getVariable()->getName().str());
      }
    }
    bool sret = false;
    for (auto &A : F.args()) {
      Object p; p["ty"] = tyStr(A.getType());
      unsigned k = n + 1;
      if (pn.count(k)) p["name"] = pn[k]; else if (vname.count(&A)) p["name"] = vname[&A]; else p["name"] = "arg" + std::to_string(n);
      if (k < dt.size()) p["dt"] = dt[k];
      if (SP && SP->getType() && k < SP->getType()->getTypeArray().size()) {
        auto *CT = stripToStruct(SP->getType()->getTypeArray()[k]);
        if (CT && CT->getTag() == dwarf::DW_TAG_structure_type) p["st"] = canonStruct(CT->getName());
      }
      if (A.hasByValAttr()) p["byval"] = true;
      if (A.hasStructRetAttr()) p["sret"] = true;
      ps.push_back(std::move(p));
      id[&A] = n++;
    }
    (void)sret;
    o["params"] = std::move(ps);
    o["ret"] = dt.size() ? dt[0] : "?";
    int b = 0;
    for (auto &B : F) {
      bid[&B] = b++;
      for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; id[&I] = n++; }
    }
    Object names;
    for (auto &kv : vname) if (id.count(kv.first)) names[std::to_string(id[kv.first])] = kv.second;
    o["names"] = std::move(names);
    Array blocks;
    for (auto &B : F) {
      Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Array a{id[&I], I.getOpcodeName(), tyStr(I.getType()), locOf(I)};
        if (auto *AI = dyn_cast<AllocaInst>(&I)) { a.push_back(tyStr(AI->getAllocatedType())); a.push_back(opnd(AI->getArraySize())); }
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { a.push_back(opnd(G->getPointerOperand())); a.push_back(gepSteps(cast<GEPOperator>(G))); }
        else if (auto *C = dyn_cast<ICmpInst>(&I)) { a.push_back(ICmpInst::getPredicateName(C->getPredicate()).str()); a.push_back(opnd(C->getOperand(0))); a.push_back(opnd(C->getOperand(1))); }
        else if (auto *C = dyn_cast<FCmpInst>(&I)) { a.push_back(FCmpInst::getPredicateName(C->getPredicate()).str()); a.push_back(opnd(C->getOperand(0))); a.push_back(opnd(C->getOperand(1))); }
        else if (auto *P = dyn_cast<PHINode>(&I)) {
          Array inc; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) inc.push_back(Array{bid[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
          a.push_back(std::move(inc));
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) { a.push_back(opnd(Br->getCondition())); a.push_back(bid[Br->getSuccessor(0)]); a.push_back(bid[Br->getSuccessor(1)]); }
          else { a.push_back(nullptr); a.push_back(bid[Br->getSuccessor(0)]); }
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          a.push_back(opnd(S->getCondition())); a.push_back(bid[S->getDefaultDest()]);
          Array cs; for (auto &c : S->cases()) cs.push_back(Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          a.push_back(std::move(cs));
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->isInlineAsm()) a.push_back(Array{"asm"}); else a.push_back(opnd(CB->getCalledOperand()->stripPointerCasts()));
          Array as; for (auto &A : CB->args()) as.push_back(opnd(A.get()));
          a.push_back(std::move(as));
        } else if (auto *St = dyn_cast<StoreInst>(&I)) {
          a.push_back(opnd(St->getValueOperand())); a.push_back(opnd(St->getPointerOperand())); a.push_back(tyStr(St->getValueOperand()->getType()));
          if (St->isAtomic()) a.push_back(Array{"atomic"});
        } else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
          a.push_back(opnd(Ld->getPointerOperand()));
          if (Ld->isAtomic()) a.push_back(Array{"atomic"});
        } else if (auto *RW = dyn_cast<AtomicRMWInst>(&I)) {
          a.push_back(opnd(RW->getPointerOperand())); a.push_back(opnd(RW->getValOperand()));
          a.push_back(Array{AtomicRMWInst::getOperationName(RW->getOperation()).str()});
        } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { a.push_back(opnd(EV->getAggregateOperand())); a.push_back((int64_t)EV->getIndices()[0]); }
        else { for (auto &U : I.operands()) { if (isa<BasicBlock>(U.get())) continue; a.push_back(opnd(U.get())); } }
        ins.push_back(std::move(a));
      }
      blocks.push_back(std::move(ins));
    }
    o["blocks"] = std::move(blocks);
    return JV(std::move(o));
  }
};

static unsigned countI(Function &F) { unsigned n = 0; for (auto &B : F) for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) n++; return n; }

static bool selfRec(Function &F) {
  for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() == &F) return true;
  return false;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  bool inl = true; std::set<std::string> keep, force; bool ext = false, first = false; unsigned allocN = 0, hdrN = 0, predN = 0, locN = 0;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--no-inline") inl = false;
    else if (a == "--inline-tiny-extern") ext = true;
    else if (a == "--keep-first") first = true;
    else if (a.rfind("--inline-alloc=", 0) == 0) allocN = atoi(a.c_str() + 15);
    else if (a.rfind("--inline-header=", 0) == 0) hdrN = atoi(a.c_str() + 16);
    else if (a.rfind("--inline-pred=", 0) == 0) predN = atoi(a.c_str() + 14);
    else if (a.rfind("--inline-local=", 0) == 0) locN = atoi(a.c_str() + 15);
    else if (a.rfind("--force=", 0) == 0) { SmallVector<StringRef, 64> v; StringRef(a).drop_front(8).split(v, ','); for (auto s : v) force.insert(s.str()); }
    else if (a.rfind("--keep=", 0) == 0) { SmallVector<StringRef, 64> v; StringRef(a).drop_front(7).split(v, ','); for (auto s : v) keep.insert(s.str()); }
  }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  collectFields(*M);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  // first SROA so that sizes are meaningful
  { FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM); }
  // inlining drops the address of a first member: hide it behind a call meanwhile
  std::map<Function *, Type *> First; std::map<Type *, Function *> FirstOf;
  if (first) {
    std::vector<GetElementPtrInst *> gs;
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *G = dyn_cast<GetElementPtrInst>(&I))
      if (G->getSourceElementType()->isStructTy() && G->getNumIndices() == 2 && G->hasAllZeroIndices()) gs.push_back(G);
    for (auto *G : gs) {
      Function *&H = FirstOf[G->getSourceElementType()];
      if (!H) {
        H = Function::Create(FunctionType::get(PointerType::get(C, 0), {PointerType::get(C, 0)}, false), GlobalValue::ExternalLinkage,
                             "__sa_first." + std::to_string(FirstOf.size()), M.get());
        First[H] = G->getSourceElementType();
      }
      auto *Cl = CallInst::Create(H, {G->getPointerOperand()}, "", G);
      Cl->setDebugLoc(G->getDebugLoc());
      G->replaceAllUsesWith(Cl); G->eraseFromParent();
    }
  }
  auto unhide = [&]() {
    for (auto &[H, Ty] : First) {
      std::vector<CallInst *> cs;
      for (auto *U : H->users()) if (auto *Cl = dyn_cast<CallInst>(U)) cs.push_back(Cl);
      auto *Z = ConstantInt::get(Type::getInt32Ty(C), 0);
      for (auto *Cl : cs) {
        auto *G = GetElementPtrInst::CreateInBounds(Ty, Cl->getArgOperand(0), {Z, Z}, "", Cl);
        G->setDebugLoc(Cl->getDebugLoc());
        Cl->replaceAllUsesWith(G); Cl->eraseFromParent();
      }
      H->eraseFromParent();
    }
    First.clear();
  };
  if (inl || ext) {
    // bottom-up over call graph SCCs: inline file-local non-recursive helpers
    std::vector<Function *> order;
    { CallGraph CG(*M);
      std::set<Function *> rec;
      for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I) {
        bool cyc = (*I).size() > 1;
        for (auto *N : *I) if (Function *F = N->getFunction()) if (!F->isDeclaration()) {
          if (!cyc && !selfRec(*F)) order.push_back(F);
        }
      } }
    std::vector<Function *> inlined;
    for (Function *F : order) {
      if (F->hasAddressTaken() || keep.count(F->getName().str())) continue;
      unsigned uses = 0; for (auto *U : F->users()) if (isa<CallBase>(U)) uses++;
      unsigned sz = countI(*F);
      bool st = F->hasInternalLinkage() && inl;
      bool ok = false;
      if (st && ((uses == 1 && sz <= 350) || sz <= 60)) ok = true;
      if (st && predN && sz <= predN) {
        // file-local tests of their arguments
        bool pure = F->getReturnType()->isIntegerTy();
        for (auto &B : *F) for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (isa<StoreInst>(I) || isa<CallBase>(I) || isa<AllocaInst>(I)) pure = false;
        }
        if (pure) ok = true;
      }
      if (!F->hasInternalLinkage() && ext && sz <= 24) {
        bool pure = true;
        for (auto &B : *F) for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          if (isa<StoreInst>(I) || isa<CallBase>(I)) pure = false;
        }
        if (pure && F->size() <= 8) ok = true;
      }
      if (!F->hasInternalLinkage() && allocN && sz <= allocN) {
        // small functions that allocate or free: the typestate analysis sees through them
        static const std::set<std::string> heap = {"malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "strdup", "fopen", "fclose"};
        for (auto &B : *F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (Function *G = CB->getCalledFunction()) if (heap.count(G->getName().str())) ok = true;
      }
      if (st && locN && sz <= locN) ok = true;
      if (hdrN && sz <= hdrN) if (auto *SP = F->getSubprogram()) if (SP->getFilename().ends_with(".h")) ok = true;
      if (force.count(F->getName().str())) ok = true;
      if (!ok) continue;
      std::vector<CallBase *> calls;
      for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledFunction() == F) calls.push_back(CB);
      for (auto *CB : calls) { InlineFunctionInfo IFI; InlineFunction(*CB, IFI); }
      F->removeDeadConstantUsers();
      if (F->hasInternalLinkage() && F->use_empty()) inlined.push_back(F);
    }
    for (Function *F : inlined) if (F->use_empty()) { Inlined.insert(F->getName().str()); F->eraseFromParent(); }
    MAM.clear(); FAM.clear();
    unhide();
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM);
  }
  for (auto &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
  std::error_code EC; raw_fd_ostream os(argv[2], EC);
  if (EC) return 2;
  Object fo; for (auto &kv : Fields) { Array a; for (auto &s : kv.second) a.push_back(s); fo[kv.first] = std::move(a); }
  Object ts;   // struct sizes
  for (auto *ST : M->getIdentifiedStructTypes()) if (ST->isSized()) ts[baseName(ST->getName())] = (int64_t)DL->getTypeAllocSize(ST).getFixedValue();
  os << JV(Object{{"kind", "structs"}, {"fields", std::move(fo)}, {"sizes", std::move(ts)}}) << "\n";
  { Array a; for (auto &s : Inlined) a.push_back(s); os << JV(Object{{"kind", "inlined"}, {"names", std::move(a)}}) << "\n"; }
  for (auto &G : M->globals()) {
    Object g{{"kind", "global"}, {"name", G.getName().str()}, {"const", G.isConstant()}, {"tls", G.isThreadLocal()}, {"ty", tyStr(G.getValueType())}, {"def", !G.isDeclaration()}, {"static", G.hasInternalLinkage()}};
    SmallVector<DIGlobalVariableExpression *, 1> dv; G.getDebugInfo(dv);
    if (!dv.empty()) { g["file"] = dv[0]->getVariable()->getFilename().str(); g["line"] = (int64_t)dv[0]->getVariable()->getLine(); }
    if (G.hasInitializer()) {
      Array fs; std::vector<std::pair<const Constant *, int>> st{{G.getInitializer(), -1}};
      const Constant *I = G.getInitializer();
      auto ref = [&](const Constant *c, int k) { c = cast<Constant>(c->stripPointerCasts()); if (isa<GlobalValue>(c)) fs.push_back(Array{k, c->getName().str()}); };
      if (isa<ConstantStruct>(I) || isa<ConstantArray>(I)) for (unsigned k = 0; k < I->getNumOperands(); k++) {
        auto *c = cast<Constant>(I->getOperand(k)); ref(c, k);
        for (unsigned j = 0; j < c->getNumOperands(); j++) if (auto *cc = dyn_cast<Constant>(c->getOperand(j))) if (isa<ConstantStruct>(c)) ref(cc, k * 100 + j);
      } else ref(I, 0);
      g["refs"] = std::move(fs);
      if (auto *CD = dyn_cast<ConstantDataArray>(I)) if (CD->isCString()) g["str"] = json::fixUTF8(CD->getAsCString());
    }
    os << JV(std::move(g)) << "\n";
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic()) os << JV(Object{{"kind", "decl"}, {"name", F.getName().str()}}) << "\n"; continue; }
    FnExp X(F); os << X.run() << "\n";
  }
  return 0;
}
