// irdump: canonicalise an LLVM module built from the repository's sources and
// dump it (functions, blocks, instructions, loops, scalar evolution) as JSON.
// It never executes anything: it is the front end of every rule in /verif/lib.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SCCIterator.h"
#include <map>
#include <set>

using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore, cl::desc("<ir files>"));
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::list<std::string> NoInline("noinline", cl::desc("regex on demangled names: keep opaque"));
static cl::list<std::string> Roots("root", cl::desc("regex on names: dump only these (default all)"));
static cl::opt<std::string> Pre("pre", cl::init(""), cl::desc("pass pipeline before inlining"));
static cl::opt<std::string> Post("post", cl::init(""), cl::desc("pass pipeline after inlining"));
static cl::opt<bool> Inline("inline-all", cl::init(false));
static cl::opt<bool> MarkUninit("mark-uninit", cl::init(false), cl::desc("give every part of a local variable a value of its own, @gsb.uninit.*, where its life begins"));
static cl::opt<bool> NoSCEV("no-scev", cl::init(false));
static cl::opt<bool> LibAttrs("libattrs");
static cl::opt<std::string> Reaching("inline-reaching", cl::init(""), cl::desc("inline only functions that (transitively) call a library function matching this"));
static cl::opt<bool> StripLifetimes("strip-lifetimes", cl::init(true));

static std::string dem(StringRef n) { return demangle(n.str()); }

struct Dumper {
  Module &M;
  ModuleSlotTracker MST;
  DenseMap<const Value *, int> ids;
  DenseMap<const BasicBlock *, int> bids;
  DenseMap<const Loop *, int> lids;
  ScalarEvolution *SE = nullptr;
  LoopInfo *LI = nullptr;
  Dumper(Module &M) : M(M), MST(&M) {}

  static std::string ty(Type *t) {
    std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
  }

  json::Value ref(const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
      SmallString<32> s; ci->getValue().toStringSigned(s);
      return json::Array{"c", std::string(s.str()), (int64_t)ci->getBitWidth()};
    }
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
      SmallString<32> s; cf->getValueAPF().toString(s);
      return json::Array{"f", std::string(s.str()), ty(cf->getType())};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
    if (isa<UndefValue>(v)) return json::Array{"undef"};
    if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName()};
    if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName()};
    if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
    if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"b", (int64_t)bids.lookup(b)};
    if (isa<Instruction>(v)) return json::Array{"i", (int64_t)ids.lookup(v)};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      json::Array ops;
      for (auto &o : ce->operands()) ops.push_back(ref(o.get()));
      json::Array r{"ce", ce->getOpcodeName(), std::move(ops)};
      if (auto *gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(M.getDataLayout(), off)) r.push_back((int64_t)off.getSExtValue());
      }
      return r;
    }
    if (isa<ConstantAggregateZero>(v)) return json::Array{"zero"};
    if (auto *c = dyn_cast<Constant>(v)) {
      std::string s; raw_string_ostream o(s); c->print(o); return json::Array{"k", o.str()};
    }
    std::string s; raw_string_ostream o(s); v->print(o);
    return json::Array{"?", o.str()};
  }

  int loopId(const Loop *L) {
    auto it = lids.find(L);
    return it == lids.end() ? -1 : it->second;
  }

  json::Value scev(const SCEV *s, int depth = 0) {
    if (depth > 60) return json::Array{"cnc"};
    auto nary = [&](const char *n, const SCEVNAryExpr *e) {
      json::Array a{n};
      for (auto *o : e->operands()) a.push_back(scev(o, depth + 1));
      return a;
    };
    switch (s->getSCEVType()) {
    case scConstant: {
      SmallString<32> t; cast<SCEVConstant>(s)->getAPInt().toStringSigned(t);
      return json::Array{"c", std::string(t.str())};
    }
    case scTruncate: { auto *c = cast<SCEVCastExpr>(s);
      return json::Array{"trunc", scev(c->getOperand(), depth + 1), (int64_t)SE->getTypeSizeInBits(c->getType())}; }
    case scZeroExtend: { auto *c = cast<SCEVCastExpr>(s);
      return json::Array{"zext", scev(c->getOperand(), depth + 1), (int64_t)SE->getTypeSizeInBits(c->getType()), (int64_t)SE->getTypeSizeInBits(c->getOperand()->getType())}; }
    case scSignExtend: { auto *c = cast<SCEVCastExpr>(s);
      return json::Array{"sext", scev(c->getOperand(), depth + 1), (int64_t)SE->getTypeSizeInBits(c->getType()), (int64_t)SE->getTypeSizeInBits(c->getOperand()->getType())}; }
    case scPtrToInt: return json::Array{"p2i", scev(cast<SCEVCastExpr>(s)->getOperand(), depth + 1)};
    case scAddExpr: return nary("add", cast<SCEVNAryExpr>(s));
    case scMulExpr: return nary("mul", cast<SCEVNAryExpr>(s));
    case scUDivExpr: { auto *d = cast<SCEVUDivExpr>(s);
      return json::Array{"udiv", scev(d->getLHS(), depth + 1), scev(d->getRHS(), depth + 1)}; }
    case scUMaxExpr: return nary("umax", cast<SCEVNAryExpr>(s));
    case scSMaxExpr: return nary("smax", cast<SCEVNAryExpr>(s));
    case scUMinExpr: return nary("umin", cast<SCEVNAryExpr>(s));
    case scSMinExpr: return nary("smin", cast<SCEVNAryExpr>(s));
    case scSequentialUMinExpr: return nary("umin", cast<SCEVNAryExpr>(s));
    case scAddRecExpr: {
      auto *a = cast<SCEVAddRecExpr>(s);
      json::Array r{"rec", (int64_t)loopId(a->getLoop())};
      for (auto *o : a->operands()) r.push_back(scev(o, depth + 1));
      return r;
    }
    case scUnknown: return json::Array{"u", ref(cast<SCEVUnknown>(s)->getValue())};
    case scVScale: case scCouldNotCompute: return json::Array{"cnc"};
    }
    return json::Array{"cnc"};
  }

  json::Value dbg(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return nullptr;
    json::Array chain;
    for (; L; L = L->getInlinedAt()) {
      std::string fn;
      if (auto *sp = L->getScope()->getSubprogram()) fn = sp->getName().str();
      chain.push_back(json::Array{L->getFilename(), (int64_t)L->getLine(), fn});
    }
    return chain;
  }

  json::Object function(Function &F, FunctionAnalysisManager &FAM) {
    ids.clear(); bids.clear(); lids.clear();
    json::Object o;
    o["name"] = F.getName(); o["dem"] = dem(F.getName());
    o["ret"] = ty(F.getReturnType());
    o["decl"] = F.isDeclaration();
    o["linkage"] = (int64_t)F.getLinkage();
    o["vararg"] = F.isVarArg();
    o["noreturn"] = F.doesNotReturn();
    json::Array as;
    for (auto &a : F.args()) as.push_back(json::Object{{"t", ty(a.getType())}, {"n", a.getName()},
        {"noalias", a.hasNoAliasAttr()}, {"byval", a.hasByValAttr()}, {"sret", a.hasStructRetAttr()},
        {"readonly", a.onlyReadsMemory()}});
    o["args"] = std::move(as);
    if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename(); o["line"] = (int64_t)sp->getLine(); o["sp"] = sp->getName(); }
    if (F.isDeclaration()) return o;
    int n = 0, b = 0;
    for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    LI = &FAM.getResult<LoopAnalysis>(F);
    if (!NoSCEV) SE = &FAM.getResult<ScalarEvolutionAnalysis>(F);
    int l = 0;
    for (auto *L : LI->getLoopsInPreorder()) lids[L] = l++;
    json::Array loops;
    for (auto *L : LI->getLoopsInPreorder()) {
      json::Object lo;
      lo["id"] = (int64_t)lids[L]; lo["header"] = (int64_t)bids[L->getHeader()];
      lo["parent"] = L->getParentLoop() ? (int64_t)lids[L->getParentLoop()] : (int64_t)-1;
      lo["depth"] = (int64_t)L->getLoopDepth();
      json::Array bl, ex; SmallVector<BasicBlock *, 8> exb, lat;
      for (auto *BB : L->blocks()) bl.push_back((int64_t)bids[BB]);
      L->getExitingBlocks(exb); L->getLoopLatches(lat);
      for (auto *BB : exb) {
        json::Object e{{"b", (int64_t)bids[BB]}};
        if (SE) e["count"] = scev(SE->getExitCount(L, BB));
        ex.push_back(std::move(e));
      }
      json::Array la; for (auto *BB : lat) la.push_back((int64_t)bids[BB]);
      lo["blocks"] = std::move(bl); lo["exits"] = std::move(ex); lo["latches"] = std::move(la);
      if (SE) lo["btc"] = scev(SE->getBackedgeTakenCount(L));
      loops.push_back(std::move(lo));
    }
    o["loops"] = std::move(loops);
    json::Array blocks;
    for (auto &BB : F) {
      json::Array insts;
      for (auto &I : BB) {
        json::Object io;
        io["id"] = (int64_t)ids[&I]; io["op"] = I.getOpcodeName(); io["t"] = ty(I.getType());
        json::Array ops;
        if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
            inc.push_back(json::Array{(int64_t)bids[p->getIncomingBlock(k)], ref(p->getIncomingValue(k))});
          io["inc"] = std::move(inc);
        } else if (auto *c = dyn_cast<CallBase>(&I)) {
          for (auto &a : c->args()) ops.push_back(ref(a.get()));
          if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) {
            io["callee"] = f->getName(); io["cdem"] = dem(f->getName());
            if (f->isIntrinsic()) io["intr"] = true;
          } else io["ind"] = ref(c->getCalledOperand());
          if (c->doesNotReturn()) io["noreturn"] = true;
          json::Array bv; for (unsigned k=0;k<c->arg_size();k++) if (c->isByValArgument(k)) bv.push_back((int64_t)k);
          if (!bv.empty()) io["byval"] = std::move(bv);
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(ref(s->getCondition()));
          io["default"] = (int64_t)bids[s->getDefaultDest()];
          json::Array cs;
          for (auto &c : s->cases()) { SmallString<32> t; c.getCaseValue()->getValue().toStringSigned(t);
            cs.push_back(json::Array{std::string(t.str()), (int64_t)bids[c.getCaseSuccessor()]}); }
          io["cases"] = std::move(cs);
        } else {
          for (auto &a : I.operands()) ops.push_back(ref(a.get()));
        }
        if (auto *c = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(c->getPredicate());
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) io["src"] = ty(g->getSourceElementType());
        if (auto *a = dyn_cast<AllocaInst>(&I)) { io["aty"] = ty(a->getAllocatedType());
          auto sz = a->getAllocationSize(M.getDataLayout()); if (sz) io["size"] = (int64_t)sz->getFixedValue(); io["n"] = a->getName(); }
        if (auto *ld = dyn_cast<LoadInst>(&I)) { io["vol"] = ld->isVolatile(); io["atomic"] = ld->isAtomic();
          io["sz"] = (int64_t)M.getDataLayout().getTypeStoreSize(ld->getType()).getFixedValue(); }
        if (auto *st = dyn_cast<StoreInst>(&I)) { io["vt"] = ty(st->getValueOperand()->getType()); io["atomic"] = st->isAtomic();
          io["sz"] = (int64_t)M.getDataLayout().getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); }
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (unsigned k : ev->indices()) ix.push_back((int64_t)k); io["idx"] = std::move(ix); }
        if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (unsigned k : iv->indices()) ix.push_back((int64_t)k); io["idx"] = std::move(ix); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          // decompose into base + sum(scale*var) + const
          MapVector<Value *, APInt> var; APInt off(64, 0);
          if (g->collectOffset(M.getDataLayout(), 64, var, off)) {
            json::Array vs;
            for (auto &p : var) vs.push_back(json::Array{ref(p.first), (int64_t)p.second.getSExtValue()});
            io["goff"] = (int64_t)off.getSExtValue(); io["gvar"] = std::move(vs);
          }
        }
        io["ops"] = std::move(ops);
        if (SE && SE->isSCEVable(I.getType())) io["scev"] = scev(SE->getSCEV(&I));
        auto d = dbg(I); if (d.kind() != json::Value::Null) io["dbg"] = std::move(d);
        insts.push_back(std::move(io));
      }
      json::Array succ; for (auto *S : successors(&BB)) succ.push_back((int64_t)bids[S]);
      blocks.push_back(json::Object{{"id", (int64_t)bids[&BB]}, {"name", BB.getName()}, {"insts", std::move(insts)}, {"succ", std::move(succ)}});
    }
    o["blocks"] = std::move(blocks);
    SE = nullptr;
    return o;
  }
};

static json::Value ditype(const DIType *t, int depth = 0);

static void collectTypes(Module &M, json::Object &out) {
  // composite types with member names and offsets (from debug info)
  DebugInfoFinder Fd; Fd.processModule(M);
  for (auto *T : Fd.types())
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
      if (C->getName().empty()) continue;
      json::Object o; o["size"] = (int64_t)(C->getSizeInBits() / 8); o["file"] = C->getFilename();
      o["tag"] = C->getTag() == dwarf::DW_TAG_union_type ? "union" : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct";
      json::Array ms;
      for (auto *E : C->getElements()) {
        if (auto *D = dyn_cast<DIDerivedType>(E)) {
          std::string tn; const DIType *b = D->getBaseType(); std::string pre;
          while (auto *dd = dyn_cast_or_null<DIDerivedType>(b)) {
            if (dd->getTag() == dwarf::DW_TAG_pointer_type) pre += "*";
            else if (dd->getTag() == dwarf::DW_TAG_typedef) {}
            b = dd->getBaseType();
          }
          tn = (b ? b->getName().str() : std::string("void")) + pre;
          ms.push_back(json::Array{D->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), (int64_t)(D->getSizeInBits() / 8), tn});
        } else if (auto *en = dyn_cast<DIEnumerator>(E)) {
          ms.push_back(json::Array{en->getName(), (int64_t)en->getValue().getSExtValue()});
        }
      }
      o["members"] = std::move(ms);
      out[C->getName()] = std::move(o);
    }
}

// the scalar parts of a type with their offsets; false if there are too many or it is none of the repository's
static bool leaves(Type *t, uint64_t off, const DataLayout &DL, std::vector<std::pair<Type *, uint64_t>> &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    if (s->isOpaque() || (s->hasName() && (s->getName().contains("std::") || s->getName().contains("_IO_")))) return false;
    auto *sl = DL.getStructLayout(s);
    for (unsigned k = 0; k < s->getNumElements(); k++) if (!leaves(s->getElementType(k), off + sl->getElementOffset(k), DL, out)) return false;
    return true;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    if (a->getElementType()->isIntegerTy(8) || a->getNumElements() > 16) return true;
    for (unsigned k = 0; k < a->getNumElements(); k++) if (!leaves(a->getElementType(), off + k * DL.getTypeAllocSize(a->getElementType()), DL, out)) return false;
    return true;
  }
  if (!t->isSingleValueType() || t->isVectorTy()) return false;
  out.push_back({t, off});
  return out.size() <= 40;
}
static void markUninit(Module &M) {
  auto &DL = M.getDataLayout(); unsigned n = 0;
  // what an allocation holds is not to be folded away
  for (auto &F : M) {
    StringRef nm = F.getName();
    if (nm == "malloc" || nm == "aligned_alloc" || nm == "realloc" || nm.starts_with("_Znw") || nm.starts_with("_Zna")) {
      F.removeFnAttr(Attribute::AllocKind); F.removeFnAttr(Attribute::Builtin); F.addFnAttr(Attribute::NoBuiltin);
      for (auto *u : F.users()) if (auto *c = dyn_cast<CallBase>(u)) { c->removeFnAttr(Attribute::Builtin); c->removeFnAttr(Attribute::AllocKind); c->addFnAttr(Attribute::NoBuiltin); }
    }
  }
  std::vector<Function *> fs;
  for (auto &F : M) if (!F.isDeclaration()) fs.push_back(&F);
  for (auto *F : fs) {
    std::vector<AllocaInst *> as;
    for (auto &I : instructions(*F)) if (auto *a = dyn_cast<AllocaInst>(&I)) as.push_back(a);
    for (auto *a : as) {
      std::vector<std::pair<Type *, uint64_t>> ls;
      if (a->isArrayAllocation() || !leaves(a->getAllocatedType(), 0, DL, ls)) continue;
      DebugLoc loc; std::string name = a->getName().str();
      auto dd = findDbgDeclares(a);
      if (dd.empty()) continue;    // temporaries are written where they are made
      loc = dd[0]->getDebugLoc(); name = dd[0]->getVariable()->getName().str();
      if (dd[0]->getVariable()->isParameter()) continue;
      std::vector<Instruction *> at;
      for (auto *u : a->users()) if (auto *ii = dyn_cast<IntrinsicInst>(u)) if (ii->getIntrinsicID() == Intrinsic::lifetime_start) at.push_back(ii->getNextNode());
      if (at.empty()) at.push_back(dd[0]->getNextNode());
      for (auto *i : at) {
        IRBuilder<> B(i); B.SetCurrentDebugLocation(loc);
        for (auto &[t, off] : ls) {
          std::string tn; raw_string_ostream os(tn); t->print(os); os.flush();
          auto fc = M.getOrInsertFunction("gsb.uninit." + std::to_string(n++) + "." + name + "." + std::to_string(off), FunctionType::get(t, false));
          auto *f = cast<Function>(fc.getCallee()); f->setMemoryEffects(MemoryEffects::none()); f->setDoesNotThrow(); f->setWillReturn();
          Value *p = off ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), a, off) : (Value *)a;
          B.CreateStore(B.CreateCall(fc), p);
        }
      }
    }
  }
}
int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &in : Inputs) {
    auto m = parseIRFile(in, Err, Ctx);
    if (!m) { Err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto run = [&](StringRef p) {
    if (p.empty()) return true;
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return false; }
    MPM.run(*M, MAM); return true;
  };
  if (MarkUninit) markUninit(*M);
  if (StripLifetimes)
    for (auto &F : *M) for (auto it = inst_begin(F), e = inst_end(F); it != e;) {
      Instruction *I = &*it++;
      if (auto *II = dyn_cast<IntrinsicInst>(I))
        if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::dbg_declare || II->getIntrinsicID() == Intrinsic::dbg_value ||
            II->getIntrinsicID() == Intrinsic::dbg_label || II->getIntrinsicID() == Intrinsic::assume || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) I->eraseFromParent();
    }
  if (LibAttrs)   // library calls touch what their arguments point to and their own state, nothing else
    for (auto &F : *M) if (F.isDeclaration()) {
      StringRef n = F.getName();
      for (const char *k : {"fread", "fwrite", "fclose", "fopen", "fprintf", "printf", "fputs", "fputc", "putc", "puts", "putchar", "fflush", "ferror", "feof", "clearerr", "fseek", "ftell", "rewind", "fscanf", "__isoc99_fscanf",
                            "__isoc23_fscanf", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "fgets", "sprintf", "snprintf", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strncat", "perror"})
        if (n == k) F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
    }
  std::vector<Regex> ni, ro;
  for (auto &r : NoInline) ni.emplace_back(r);
  for (auto &r : Roots) ro.emplace_back(r);
  for (auto &F : *M) { if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::InlineHint); }
  if (!run(Pre)) return 2;
  std::set<Function *> reach;
  if (!Reaching.empty()) {
    Regex rr(Reaching); bool ch = true;
    while (ch) {
      ch = false;
      for (auto &F : *M) { if (F.isDeclaration() || reach.count(&F)) continue;
        for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()))
          if (reach.count(t) || (t->isDeclaration() && rr.match(t->getName()))) { reach.insert(&F); ch = true; break; } }
    }
  }
  if (Inline) {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::string d = dem(F.getName());
      bool keep = false;
      for (auto &r : ni) if (r.match(d) || r.match(F.getName())) keep = true;
      if (!Reaching.empty() && !reach.count(&F)) keep = true;
      // self-recursive functions stay opaque
      for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (c->getCalledFunction() == &F) keep = true;
      if (keep) F.addFnAttr(Attribute::NoInline);
      else F.addFnAttr(Attribute::AlwaysInline);
    }
    if (!run("always-inline")) return 2;
    MAM.clear(); FAM.clear();
  }
  if (!run(Post)) return 2;
  if (verifyModule(*M, &errs())) return 2;
  MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
  json::Object top; json::Array fs; json::Object types, globals;
  Dumper D(*M);
  for (auto &F : *M) {
    if (!ro.empty()) {
      bool ok = F.isDeclaration(); std::string d = dem(F.getName());
      for (auto &r : ro) if (r.match(F.getName()) || r.match(d)) ok = true;
      if (!ok) continue;
    }
    fs.push_back(D.function(F, FAM));
  }
  for (auto &G : M->globals()) {
    json::Object g; g["t"] = Dumper::ty(G.getValueType()); g["const"] = G.isConstant(); g["decl"] = G.isDeclaration(); g["internal"] = G.hasLocalLinkage();
    if (G.hasInitializer()) {
      if (auto *c = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
        if (c->isString()) g["str"] = json::fixUTF8(c->getAsString());
        if (c->getElementType()->isIntegerTy()) { json::Array a; for (unsigned k = 0; k < c->getNumElements(); k++) a.push_back((int64_t)c->getElementAsInteger(k)); g["ints"] = std::move(a); g["ew"] = (int64_t)c->getElementByteSize(); }
      } else if (isa<ConstantAggregateZero>(G.getInitializer())) g["zero"] = true;
      else if (auto *s = dyn_cast<ConstantStruct>(G.getInitializer())) {
        json::Array a; for (auto &o : s->operands()) { 
          if (auto *arr = dyn_cast<ConstantArray>(o.get())) for (auto &x : arr->operands()) a.push_back(D.ref(x.get())); else a.push_back(D.ref(o.get())); } g["elts"] = std::move(a);
      }
    }
    globals[G.getName()] = std::move(g);
  }
  collectTypes(*M, types);
  top["functions"] = std::move(fs); top["types"] = std::move(types); top["globals"] = std::move(globals);
  std::error_code EC; raw_fd_ostream os(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  os << json::Value(std::move(top));
  return 0;
}
