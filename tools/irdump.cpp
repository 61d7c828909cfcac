// irdump: reads one LLVM module (.bc/.ll), promotes locals to SSA, prints JSON.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static std::map<const Value *, int> Ids;
static const DataLayout *DL;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s);
  if (auto *ST = dyn_cast<StructType>(T)) { if (ST->hasName()) return "%" + ST->getName().str(); }
  T->print(o); return o.str();
}

static json::Value constVal(const Constant *C);
static json::Value gepIdx(Type *SrcTy, ArrayRef<const Value *> Idx, std::function<json::Value(const Value*)> F) {
  // list of steps: {"i": value, "sz": bytes} or {"s": structname, "f": idx, "o": byteoffset}
  json::Array A;
  Type *T = SrcTy; bool first = true;
  for (auto *V : Idx) {
    if (first) {
      first = false;
      uint64_t sz = T->isSized() ? DL->getTypeAllocSize(T).getFixedValue() : 0;
      if (auto *CI = dyn_cast<ConstantInt>(V)) if (CI->isZero()) continue;
      A.push_back(json::Object{{"i", F(V)}, {"sz", (int64_t)sz}, {"t", tyStr(T)}});
      continue;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      unsigned n = cast<ConstantInt>(V)->getZExtValue();
      A.push_back(json::Object{{"s", tyStr(ST)}, {"f", (int64_t)n},
        {"o", (int64_t)DL->getStructLayout(ST)->getElementOffset(n).getFixedValue()}, {"t", tyStr(ST->getElementType(n))}});
      T = ST->getElementType(n);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      T = AT->getElementType();
      A.push_back(json::Object{{"i", F(V)}, {"sz", (int64_t)DL->getTypeAllocSize(T).getFixedValue()}, {"t", tyStr(T)}, {"n", (int64_t)AT->getNumElements()}});
    } else {
      A.push_back(json::Object{{"i", F(V)}, {"sz", 0}});
    }
  }
  return A;
}
static json::Value val(const Value *V) {
  auto it = Ids.find(V);
  if (it != Ids.end()) return it->second;
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  return json::Object{{"k", "other"}};
}
static json::Value constVal(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64) return json::Object{{"k", "i"}, {"v", CI->getBitWidth()==1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue()}, {"w", (int64_t)CI->getBitWidth()}};
    return json::Object{{"k", "other"}};
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    SmallString<32> S; CF->getValueAPF().toString(S);
    return json::Object{{"k", "f"}, {"v", S.str().str()}};
  }
  if (isa<ConstantPointerNull>(C)) return json::Object{{"k", "null"}};
  if (isa<UndefValue>(C)) return json::Object{{"k", "undef"}};
  if (auto *F = dyn_cast<Function>(C)) return json::Object{{"k", "fn"}, {"v", F->getName()}};
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    if (G->isConstant() && G->hasInitializer() && G->hasPrivateLinkage())
      if (auto *CD = dyn_cast<ConstantDataSequential>(G->getInitializer()))
        if (CD->isCString() && json::isUTF8(CD->getAsCString())) return json::Object{{"k", "str"}, {"v", CD->getAsCString()}};
    return json::Object{{"k", "g"}, {"v", G->getName()}};
  }
  if (isa<ConstantAggregateZero>(C)) return json::Object{{"k", "zero"}, {"t", tyStr(C->getType())}};
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array A; for (auto &Op : CA->operands()) A.push_back(constVal(cast<Constant>(Op)));
    return json::Object{{"k", "agg"}, {"t", tyStr(C->getType())}, {"v", std::move(A)}};
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    json::Array A; for (unsigned i = 0; i < CD->getNumElements(); i++) A.push_back(constVal(CD->getElementAsConstant(i)));
    return json::Object{{"k", "agg"}, {"t", tyStr(C->getType())}, {"v", std::move(A)}};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      SmallVector<const Value *, 4> Idx(G->idx_begin(), G->idx_end());
      return json::Object{{"k", "gep"}, {"b", constVal(cast<Constant>(G->getPointerOperand()))}, {"steps", gepIdx(G->getSourceElementType(), Idx, val)}};
    }
    json::Array A; for (auto &Op : CE->operands()) A.push_back(constVal(cast<Constant>(Op)));
    return json::Object{{"k", "ce"}, {"op", CE->getOpcodeName()}, {"v", std::move(A)}};
  }
  return json::Object{{"k", "other"}};
}

static std::string diTy(const DIType *T) {
  if (!T) return "void";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: return D->getName().str();
    case dwarf::DW_TAG_pointer_type: return diTy(D->getBaseType()) + " *";
    case dwarf::DW_TAG_const_type: return "const " + diTy(D->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTy(D->getBaseType());
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    std::string k = C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : C->getTag() == dwarf::DW_TAG_union_type ? "union " : C->getTag() == dwarf::DW_TAG_structure_type ? "struct " : "";
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTy(C->getBaseType());
      for (auto *E : C->getElements()) if (auto *R = dyn_cast<DISubrange>(E)) { if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) s += "[" + std::to_string(CI->getSExtValue()) + "]"; else s += "[]"; }
      return s;
    }
    return k + C->getName().str();
  }
  if (auto *S = dyn_cast<DISubroutineType>(T)) {
    std::string s; auto A = S->getTypeArray(); bool first = true; std::string r = "void";
    for (unsigned i = 0; i < A.size(); i++) {
      if (i == 0) { r = diTy(A[i]); continue; }
      if (!first) s += ", "; first = false;
      s += A[i] ? diTy(A[i]) : "...";
    }
    return r + " (" + s + ")";
  }
  return "?";
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; FunctionPassManager FPM; FPM.addPass(PromotePass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  json::Object Root;
  Root["file"] = M->getSourceFileName();
  // struct layouts
  json::Object Structs;
  for (auto *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque() || !ST->isSized()) continue;
    json::Array E; auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      E.push_back(json::Object{{"o", (int64_t)SL->getElementOffset(i).getFixedValue()}, {"t", tyStr(ST->getElementType(i))}, {"z", (int64_t)DL->getTypeAllocSize(ST->getElementType(i)).getFixedValue()}});
    Structs[tyStr(ST)] = json::Object{{"size", (int64_t)SL->getSizeInBytes().getFixedValue()}, {"e", std::move(E)}};
  }
  Root["structs"] = std::move(Structs);
  // debug info types
  DebugInfoFinder DIF; DIF.processModule(*M);
  json::Object DIs, Typedefs, Enums;
  for (auto *T : DIF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
        if (C->isForwardDecl()) continue;
        json::Array A;
        for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E))
          A.push_back(json::Object{{"n", D->getName()}, {"o", (int64_t)D->getOffsetInBits() / 8}, {"t", diTy(D->getBaseType())}, {"z", (int64_t)D->getSizeInBits() / 8}});
        std::string n = C->getName().str();
        if (n.empty()) n = "anon@" + std::to_string(C->getLine());
        DIs[(C->getTag() == dwarf::DW_TAG_union_type ? "union." : "struct.") + n] = json::Object{{"m", std::move(A)}, {"size", (int64_t)C->getSizeInBits() / 8}};
      } else if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Object A;
        for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIEnumerator>(E)) A[D->getName()] = D->getValue().getSExtValue();
        std::string n = C->getName().str(); if (n.empty()) n = "anon@" + std::to_string(C->getLine());
        Enums[n] = std::move(A);
      }
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef) Typedefs[D->getName()] = diTy(D->getBaseType());
    }
  }
  Root["di"] = std::move(DIs); Root["typedefs"] = std::move(Typedefs); Root["enums"] = std::move(Enums);
  json::Object Globals;
  for (auto &G : M->globals()) {
    if (G.hasPrivateLinkage() && G.isConstant()) { if (auto *CD = G.hasInitializer() ? dyn_cast<ConstantDataSequential>(G.getInitializer()) : nullptr) if (CD->isCString()) continue; }
    json::Object O{{"const", G.isConstant()}, {"tls", G.isThreadLocal()}, {"decl", G.isDeclaration()}, {"internal", G.hasLocalLinkage()}, {"t", tyStr(G.getValueType())}};
    if (G.hasInitializer()) O["init"] = constVal(G.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) { O["dt"] = diTy(GVs[0]->getVariable()->getType()); O["line"] = (int64_t)GVs[0]->getVariable()->getLine(); O["file"] = GVs[0]->getVariable()->getFilename(); O["name"] = GVs[0]->getVariable()->getName(); }
    Globals[G.getName()] = std::move(O);
  }
  Root["globals"] = std::move(Globals);
  json::Object Fns;
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    json::Object FO;
    FO["internal"] = F.hasLocalLinkage();
    FO["vararg"] = F.isVarArg();
    FO["ret"] = tyStr(F.getReturnType());
    if (F.isDeclaration()) { FO["decl"] = true; Fns[F.getName()] = std::move(FO); continue; }
    Ids.clear(); int n = 0;
    json::Array Args;
    std::map<unsigned, std::pair<std::string, std::string>> AN;
    std::map<const Value *, std::pair<std::string, std::string>> AllocaName;
    if (auto *SP = F.getSubprogram()) {
      FO["file"] = SP->getFilename(); FO["line"] = (int64_t)SP->getLine();
      auto A = SP->getType()->getTypeArray(); json::Array PT;
      for (unsigned i = 0; i < A.size(); i++) PT.push_back(diTy(A[i]));
      FO["proto"] = std::move(PT);
    }
    for (auto &BB : F) for (auto &I : BB) {
      if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
        if (DV->getVariable()->getArg() && !I.getDebugLoc().getInlinedAt()) AN[DV->getVariable()->getArg()] = {DV->getVariable()->getName().str(), diTy(DV->getVariable()->getType())};
        if (isa<DbgDeclareInst>(DV)) if (auto *V = DV->getVariableLocationOp(0)) AllocaName[V] = {DV->getVariable()->getName().str(), diTy(DV->getVariable()->getType())};
      }
    }
    for (auto &A : F.args()) {
      Ids[&A] = n++;
      auto P = AN[A.getArgNo() + 1];
      json::Object AO{{"n", P.first}, {"t", tyStr(A.getType())}, {"dt", P.second}};
      if (A.hasByValAttr()) AO["byval"] = tyStr(A.getParamByValType());
      if (A.hasStructRetAttr()) AO["sret"] = true;
      Args.push_back(std::move(AO));
    }
    FO["args"] = std::move(Args);
    std::map<const BasicBlock *, int> BI; int b = 0;
    for (auto &BB : F) { BI[&BB] = b++; for (auto &I : BB) if (!isa<DbgInfoIntrinsic>(I)) Ids[&I] = n++; }
    json::Array BBs;
    for (auto &BB : F) {
      json::Array Is;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object O; O["d"] = Ids[&I]; O["op"] = I.getOpcodeName();
        if (auto &L = I.getDebugLoc()) { O["l"] = (int64_t)L.getLine(); if (L->getFilename() != StringRef(F.getSubprogram() ? F.getSubprogram()->getFilename() : "")) O["lf"] = L->getFilename(); }
        if (!I.getType()->isVoidTy()) O["t"] = tyStr(I.getType());
        json::Array Ops;
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          Ops.push_back(val(G->getPointerOperand()));
          SmallVector<const Value *, 4> Idx(G->idx_begin(), G->idx_end());
          O["steps"] = gepIdx(G->getSourceElementType(), Idx, val);
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          for (auto &A : C->args()) Ops.push_back(val(A));
          O["c"] = val(C->getCalledOperand()->stripPointerCasts());
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array Bs;
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { Ops.push_back(val(P->getIncomingValue(i))); Bs.push_back(BI[P->getIncomingBlock(i)]); }
          O["b"] = std::move(Bs);
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) Ops.push_back(val(Br->getCondition()));
          json::Array Bs; for (unsigned k = 0; k < Br->getNumSuccessors(); k++) Bs.push_back(BI[Br->getSuccessor(k)]); O["b"] = std::move(Bs);
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          Ops.push_back(val(S->getCondition()));
          json::Array Cs; for (auto &C : S->cases()) Cs.push_back(json::Array{C.getCaseValue()->getSExtValue(), BI[C.getCaseSuccessor()]});
          O["cases"] = std::move(Cs); O["b"] = json::Array{BI[S->getDefaultDest()]};
        } else {
          for (auto &Op : I.operands()) if (!isa<BasicBlock>(Op)) Ops.push_back(val(Op));
          if (auto *Cm = dyn_cast<CmpInst>(&I)) O["p"] = CmpInst::getPredicateName(Cm->getPredicate());
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            O["at"] = tyStr(A->getAllocatedType());
            if (auto Sz = A->getAllocationSize(*DL)) O["sz"] = (int64_t)Sz->getFixedValue();
            auto P = AllocaName.find(A); if (P != AllocaName.end()) { O["vn"] = P->second.first; O["vt"] = P->second.second; }
          }
          if (isa<StoreInst>(&I)) { O["st"] = tyStr(I.getOperand(0)->getType()); O["z"] = (int64_t)DL->getTypeStoreSize(I.getOperand(0)->getType()).getFixedValue(); }
          if (isa<LoadInst>(&I)) O["z"] = (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue();
          if (isa<CastInst>(&I)) O["ft"] = tyStr(I.getOperand(0)->getType());
          if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array X; for (auto i : EV->indices()) X.push_back((int64_t)i); O["x"] = std::move(X); }
          if (auto *EV = dyn_cast<InsertValueInst>(&I)) { json::Array X; for (auto i : EV->indices()) X.push_back((int64_t)i); O["x"] = std::move(X); }
        }
        O["o"] = std::move(Ops);
        Is.push_back(std::move(O));
      }
      BBs.push_back(std::move(Is));
    }
    FO["bb"] = std::move(BBs);
    Fns[F.getName()] = std::move(FO);
  }
  Root["fns"] = std::move(Fns);
  std::error_code EC; raw_fd_ostream OS(argv[2], EC);
  OS << json::Value(std::move(Root));
  return 0;
}
