#include "llvm/Support/Regex.h"
// irdump: link LLVM bitcode of /repo's translation units, inline the project's own helpers (except
// the ones a "view" keeps opaque), promote memory to registers, and dump the type-checked program
// as JSON for the analyses in engine/*.py.  Nothing is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Metadata.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include <set>
#include <map>
#include <fstream>
using namespace llvm;

static std::string repoPrefix;
static std::map<const Value *, int> ids;
static const DataLayout *DL;

static std::string demBase(StringRef n) {
  std::string d = demangle(n.str());
  // strip the parameter list: find the '(' matching the final ')', honouring templates/operator()
  size_t e = d.rfind(')');
  if (e == std::string::npos) return d;
  int depth = 0;
  for (size_t i = e + 1; i-- > 0;) {
    if (d[i] == ')') depth++;
    else if (d[i] == '(') { depth--; if (depth == 0) { d = d.substr(0, i); break; } }
  }
  return d;
}
static bool inRepo(const Function &F) {
  if (auto *SP = F.getSubprogram()) {
    std::string p = SP->getFilename().str();
    if (!p.empty() && p[0] != '/' && SP->getDirectory().size())
      p = SP->getDirectory().str() + "/" + p;
    return StringRef(p).starts_with(repoPrefix);
  }
  return false;
}
static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
static int64_t tySize(Type *T) { if (!T->isSized()) return 0; return (int64_t)DL->getTypeAllocSize(T).getFixedValue(); }

static json::Value opnd(const Value *V);
static json::Value constVal(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<40> s; CI->getValue().toString(s, 10, CI->getBitWidth() != 1);
    return json::Array{"i", std::string(s.str()), (int64_t)CI->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
  if (isa<UndefValue>(C)) return json::Array{"undef", isa<PoisonValue>(C) ? "poison" : "undef", tyStr(C->getType())};
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero", tyStr(C->getType()), tySize(C->getType())};
  if (auto *F = dyn_cast<Function>(C)) return json::Array{"f", demBase(F->getName()), F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Array{"g", G->getName().str(), 0};
  if (auto *CF = dyn_cast<ConstantFP>(C)) { SmallString<40> s; CF->getValueAPF().toString(s); return json::Array{"fp", std::string(s.str())}; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    APInt off(64, 0);
    const Value *B = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (B != CE) if (auto *G = dyn_cast<GlobalVariable>(B)) return json::Array{"g", G->getName().str(), off.getSExtValue()};
    return json::Array{"ce", tyStr(CE->getType())};
  }
  if (C->getType()->isVectorTy() || C->getType()->isArrayTy() || C->getType()->isStructTy()) {
    json::Array a; a.push_back("agg");
    json::Array e; unsigned n = 0;
    if (auto *VT = dyn_cast<FixedVectorType>(C->getType())) n = VT->getNumElements();
    else if (auto *AT = dyn_cast<ArrayType>(C->getType())) n = AT->getNumElements();
    else n = C->getType()->getStructNumElements();
    if (n <= 4096) for (unsigned i = 0; i < n; i++) if (auto *E = C->getAggregateElement(i)) e.push_back(constVal(E));
    a.push_back(tyStr(C->getType())); a.push_back(std::move(e));
    return std::move(a);
  }
  return json::Array{"c?", tyStr(C->getType())};
}
static json::Value opnd(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  auto it = ids.find(V);
  if (it != ids.end()) return json::Array{"v", it->second};
  return json::Array{"m"};
}

static json::Value dbg(const Instruction &I) {
  DILocation *L = I.getDebugLoc();
  if (!L) return nullptr;
  json::Array chain;
  for (; L; L = L->getInlinedAt()) {
    std::string fn; if (auto *SP = L->getScope()->getSubprogram()) fn = SP->getName().str();
    std::string file = L->getFilename().str();
    size_t p = file.find(repoPrefix); if (p == 0) file = file.substr(repoPrefix.size());
    chain.push_back(json::Array{file, (int64_t)L->getLine(), fn});
  }
  return std::move(chain);
}

static std::string diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(D->getBaseType()) + "&";
      case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: return diTypeName(D->getBaseType());
      case dwarf::DW_TAG_typedef: return D->getName().str();
      default: return diTypeName(D->getBaseType());
    }
  }
  return T->getName().str();
}
static std::string diStripTypedef(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type) { T = D->getBaseType(); continue; }
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return diStripTypedef(D->getBaseType()) + "*";
    if (D->getTag() == dwarf::DW_TAG_reference_type) return diStripTypedef(D->getBaseType()) + "&";
    break;
  }
  return T ? T->getName().str() : "void";
}

int main(int argc, char **argv) {
  // irdump REPO_PREFIX VIEWFILE|- OUT.json a.bc b.bc ...
  if (argc < 5) return 2;
  repoPrefix = argv[1];
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  std::set<std::string> keep; std::set<std::string> extra; std::vector<std::unique_ptr<Regex>> extraRe; bool inlineNone = false; bool optDeep = false; bool byCopy = false;
  if (std::string(argv[2]) != "-") {
    std::ifstream in(argv[2]); std::string l;
    while (std::getline(in, l)) {
      if (l.empty()) continue;
      if (l == "!noinline") inlineNone = true;
      else if (l == "!deep") optDeep = true;
      else if (l == "!bycopy") byCopy = true;
      else if (l[0] == '~') extraRe.push_back(std::make_unique<Regex>(l.substr(1)));
      else if (l[0] == '+') extra.insert(l.substr(1));
      else keep.insert(l);
    }
  }
  DL = &M->getDataLayout();
  // recursion
  std::set<Function *> rec;
  { CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      if (it.hasCycle()) for (auto *N : *it) if (N->getFunction()) rec.insert(N->getFunction()); }
  int inl = 0;
  std::set<std::string> callsSeen;
  for (Function &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    if (F.isDeclaration()) continue;
    std::string b = demBase(F.getName());
    bool repo = inRepo(F);
    bool k = keep.count(b) || b == "main" || StringRef(b).starts_with("main_") || rec.count(&F);
    bool x = extra.count(b); if (!repo) for (auto &R : extraRe) x = x || R->match(b);
    bool want = (repo && !k && !inlineNone) || (x && !rec.count(&F));
    if (want) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); inl++; }
    else if (!F.hasFnAttribute(Attribute::AlwaysInline) || repo) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    // keep bodies available for dumping even when everything got inlined
    if (repo && F.hasLocalLinkage()) F.setLinkage(GlobalValue::ExternalLinkage);
    if (repo && F.hasLinkOnceLinkage()) F.setLinkage(GlobalValue::WeakODRLinkage);
  }
  // scalars passed to containers by constant reference are passed through a copy, so that the variable itself can become a register
  if (byCopy) for (Function &F : *M) if (!F.isDeclaration() && inRepo(F)) {
    std::vector<std::pair<CallBase *, unsigned>> todo;
    for (auto &BB : F) for (auto &In : BB) if (auto *CB = dyn_cast<CallBase>(&In)) {
      Function *C = CB->getCalledFunction(); if (!C) continue;
      std::string b = demBase(C->getName());
      if (!StringRef(b).starts_with("std::vector<") || !(StringRef(b).ends_with("::push_back") || StringRef(b).ends_with("::vector") || StringRef(b).ends_with("::resize") || StringRef(b).ends_with("::assign"))) continue;
      for (unsigned i = 1; i < CB->arg_size(); i++)
        if (auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(i)->stripPointerCasts())) if (A->getAllocatedType()->isIntegerTy()) todo.push_back({CB, i});
    }
    for (auto &t : todo) {
      auto *A = cast<AllocaInst>(t.first->getArgOperand(t.second)->stripPointerCasts());
      auto *T = new AllocaInst(A->getAllocatedType(), A->getAddressSpace(), "", &*F.getEntryBlock().begin());
      auto *L = new LoadInst(A->getAllocatedType(), A, "", t.first);
      new StoreInst(L, T, t.first);
      t.first->setArgOperand(t.second, T);
    }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string pipe = "function(sroa<preserve-cfg>),always-inline,function(sroa<preserve-cfg>,sroa<preserve-cfg>,loop-simplify)";
  if (optDeep) pipe = "function(sroa<preserve-cfg>),always-inline,function(sroa<modify-cfg>,early-cse,simplifycfg,loop-simplify)";
  if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);

  json::Object root; json::Object fns; json::Object structs; json::Object globals;
  DebugInfoFinder DIF; DIF.processModule(*M);
  for (auto *T : DIF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Array ms; for (auto *E : C->getElements()) if (auto *en = dyn_cast<DIEnumerator>(E)) ms.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
      if (C->getName().size()) structs["enum " + C->getName().str()] = std::move(ms);
      continue;
    }
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type) continue;
    StringRef file = C->getFilename();
    std::string p = file.str(); if (!p.empty() && p[0] != '/') p = C->getDirectory().str() + "/" + p;
    if (!StringRef(p).starts_with(repoPrefix)) continue;
    std::string nm = C->getName().str();
    if (nm.empty()) continue;
    json::Array ms;
    for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member)
      ms.push_back(json::Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, diStripTypedef(D->getBaseType())});
    if (ms.size()) structs[nm] = std::move(ms);
  }
  for (GlobalVariable &G : M->globals()) {
    json::Object g; g["const"] = G.isConstant(); g["size"] = tySize(G.getValueType()); g["ty"] = tyStr(G.getValueType());
    if (G.hasInitializer()) {
      if (auto *CDS = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
        if (CDS->isString()) { std::string s = CDS->getAsString().str(); g["str"] = json::fixUTF8(s); }
        else g["init"] = constVal(CDS);
      } else if (tySize(G.getValueType()) <= 65536) g["init"] = constVal(G.getInitializer());
    }
    g["dem"] = demangle(G.getName().str());
    globals[G.getName().str()] = std::move(g);
  }
  for (Function &F : *M) {
    if (F.isDeclaration() || !inRepo(F)) continue;
    ids.clear(); int n = 0;
    json::Object jf;
    json::Array jargs;
    auto *SP = F.getSubprogram();
    std::vector<std::string> tyn; 
    if (SP && SP->getType()) for (auto *T : SP->getType()->getTypeArray()) tyn.push_back(diStripTypedef(T));
    bool sret = F.arg_size() && F.getArg(0)->hasStructRetAttr();
    std::vector<std::string> nms(F.arg_size());
    if (SP) for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) {
      unsigned ix = LV->getArg() - 1 + (sret ? 1 : 0); if (ix < nms.size()) nms[ix] = LV->getName().str(); }
    unsigned ai = 0;
    for (auto &A : F.args()) {
      ids[&A] = n++;
      json::Object a; a["id"] = ids[&A]; a["ty"] = tyStr(A.getType()); a["name"] = nms[ai];
      unsigned ti = ai + (sret ? 0 : 1);
      a["dty"] = (ti < tyn.size()) ? tyn[ti] : "";
      if (A.hasByValAttr()) a["byval"] = tySize(A.getParamByValType());
      if (A.hasStructRetAttr()) a["sret"] = tySize(A.getParamStructRetType());
      jargs.push_back(std::move(a)); ai++;
    }
    std::map<const BasicBlock *, int> bid; int bn = 0;
    for (auto &B : F) { bid[&B] = bn++; for (auto &I : B) ids[&I] = n++; }
    json::Array blocks;
    for (auto &B : F) {
      json::Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyStr(I.getType());
        if (auto d = dbg(I); d.kind() != json::Value::Null) o["dbg"] = std::move(d);
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          if (G->collectOffset(*DL, 64, vo, co)) {
            o["base"] = opnd(G->getPointerOperand()); o["off"] = co.getSExtValue();
            json::Array vs; for (auto &p : vo) vs.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
            o["var"] = std::move(vs);
          } else o["base"] = json::Array{"m"};
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array inc; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) inc.push_back(json::Array{bid[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
          o["in"] = std::move(inc);
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          const Value *cal = C->getCalledOperand()->stripPointerCasts();
          if (auto *TS = I.getMetadata(LLVMContext::MD_tbaa_struct)) {
            json::Array fl;
            for (unsigned q = 0; q + 2 < TS->getNumOperands() + 0u; q += 3) {
              auto *a = mdconst::dyn_extract<ConstantInt>(TS->getOperand(q));
              auto *b = mdconst::dyn_extract<ConstantInt>(TS->getOperand(q + 1));
              if (a && b) fl.push_back(json::Array{(int64_t)a->getZExtValue(), (int64_t)b->getZExtValue()});
            }
            o["fields"] = std::move(fl);
          }
          if (auto *CF = dyn_cast<Function>(cal)) { o["callee"] = demBase(CF->getName()); o["mangled"] = CF->getName().str(); o["decl"] = CF->isDeclaration(); o["repo"] = inRepo(*CF); }
          else o["ind"] = opnd(cal);
          json::Array as; json::Array bv; for (unsigned i = 0; i < C->arg_size(); i++) { as.push_back(opnd(C->getArgOperand(i))); if (C->isByValArgument(i)) bv.push_back(json::Array{(int64_t)i, tySize(C->getParamByValType(i))}); if (C->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int64_t)i; }
          o["args"] = std::move(as); if (bv.size()) o["byval"] = std::move(bv);
          json::Array aty; for (unsigned i = 0; i < C->arg_size(); i++) aty.push_back(tyStr(C->getArgOperand(i)->getType())); o["aty"] = std::move(aty);
          if (auto *V = dyn_cast<InvokeInst>(&I)) { o["normal"] = bid[V->getNormalDest()]; o["unwind"] = bid[V->getUnwindDest()]; }
        } else {
          json::Array as; for (auto &U : I.operands()) {
            if (isa<BasicBlock>(U)) continue;
            as.push_back(opnd(U)); }
          o["args"] = std::move(as);
          if (auto *X = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(X->getPredicate()).str(); o["aty"] = tyStr(X->getOperand(0)->getType()); }
          if (auto *X = dyn_cast<LoadInst>(&I)) o["sz"] = tySize(X->getType());
          if (auto *X = dyn_cast<StoreInst>(&I)) { o["sz"] = tySize(X->getValueOperand()->getType()); o["vty"] = tyStr(X->getValueOperand()->getType()); }
          if (auto *X = dyn_cast<AllocaInst>(&I)) { o["sz"] = tySize(X->getAllocatedType()); o["aty"] = tyStr(X->getAllocatedType()); }
          if (auto *X = dyn_cast<CastInst>(&I)) o["src"] = tyStr(X->getSrcTy());
          if (auto *X = dyn_cast<ShuffleVectorInst>(&I)) { json::Array m; for (int k : X->getShuffleMask()) m.push_back(k); o["mask"] = std::move(m); }
          if (auto *X = dyn_cast<ExtractValueInst>(&I)) { json::Array m; for (unsigned k : X->indices()) m.push_back((int64_t)k); o["idx"] = std::move(m); }
          if (auto *X = dyn_cast<InsertValueInst>(&I)) { json::Array m; for (unsigned k : X->indices()) m.push_back((int64_t)k); o["idx"] = std::move(m); }
          if (auto *X = dyn_cast<BranchInst>(&I)) { json::Array s; for (unsigned k = 0; k < X->getNumSuccessors(); k++) s.push_back(bid[X->getSuccessor(k)]); o["succ"] = std::move(s); }
          if (auto *X = dyn_cast<SwitchInst>(&I)) { o["default"] = bid[X->getDefaultDest()]; json::Array cs; for (auto &c : X->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); }
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    jf["args"] = std::move(jargs); jf["blocks"] = std::move(blocks); jf["ret"] = tyStr(F.getReturnType());
    jf["retd"] = tyn.size() ? tyn[0] : ""; jf["mangled"] = F.getName().str(); jf["dem"] = demBase(F.getName());
    if (SP) { std::string file = SP->getFilename().str(); if (StringRef(file).starts_with(repoPrefix)) file = file.substr(repoPrefix.size()); jf["file"] = file; jf["line"] = (int64_t)SP->getLine(); }
    fns[F.getName().str()] = std::move(jf);
  }
  root["functions"] = std::move(fns); root["structs"] = std::move(structs); root["globals"] = std::move(globals); root["inlined"] = inl;
  std::error_code ec; raw_fd_ostream out(argv[3], ec); if (ec) return 2;
  out << json::Value(std::move(root)); out.close();
  return 0;
}
