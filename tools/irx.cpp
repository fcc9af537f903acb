// irx: run a normalising pass pipeline on an LLVM module and export the
// functions matching a regex (plus the globals they touch) as JSON.
// usage: irx IN.bc OUT.json ROOT_REGEX KEEP_REGEX(noinline) PIPELINE
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::set<const GlobalVariable *> gvs;
static std::vector<const GlobalVariable *> gvq;

static std::string tyname(Type *t) {
  std::string s; raw_string_ostream o(s); t->print(o); return o.str();
}
static json::Value fpval(const APFloat &f) {
  SmallString<64> s;
  // exact value: hexadecimal float
  APFloat d = f; bool li;
  d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  char buf[64]; snprintf(buf, sizeof buf, "%a", d.convertToDouble());
  return json::Array{"f", std::string(buf)};
}
// no use of the address can write through it
static bool readOnly(const Value *v) {
  for (const User *u : v->users()) {
    if (isa<GetElementPtrInst>(u) || isa<ConstantExpr>(u) || isa<BitCastInst>(u)) {
      if (!readOnly(u)) return false;
    } else if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
    else if (auto *m = dyn_cast<MemTransferInst>(u)) { if (m->getRawDest() == v) return false; }
    else return false;
  }
  return true;
}
static void useg(const GlobalVariable *g) { if (gvs.insert(g).second) gvq.push_back(g); }
static json::Value cst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<32> s; ci->getValue().toString(s, 10, ci->getBitWidth() > 1);
    return json::Array{"i", std::string(s.str()), (int64_t)ci->getBitWidth()};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return fpval(cf->getValueAPF());
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef"};
  if (auto *f = dyn_cast<Function>(c)) return json::Array{"fn", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) { useg(g); return json::Array{"g", g->getName().str(), 0}; }
  if (auto *ce = dyn_cast<ConstantExpr>(c); ce && ce->getType()->isIntegerTy()) {
    if (ce->getOpcode() == Instruction::PtrToInt) return json::Array{"p2i", cst(ce->getOperand(0))};
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add || ce->getOpcode() == Instruction::Mul)
      return json::Array{"cbin", ce->getOpcodeName(), cst(ce->getOperand(0)), cst(ce->getOperand(1))};
  }
  if (isa<ConstantExpr>(c)) {
    APInt off(64, 0);
    const Value *b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *g = dyn_cast<GlobalVariable>(b)) { useg(g); return json::Array{"g", g->getName().str(), off.getSExtValue()}; }
  }
  if (c->isNullValue()) return json::Array{"zero", tyname(c->getType())};
  if (auto *cv = dyn_cast<ConstantDataSequential>(c)) {
    json::Array a; for (unsigned i = 0; i < cv->getNumElements(); i++) a.push_back(cst(cv->getElementAsConstant(i)));
    return json::Array{"vec", std::move(a)};
  }
  if (auto *cv = dyn_cast<ConstantAggregate>(c)) {
    json::Array a; for (unsigned i = 0; i < cv->getNumOperands(); i++) a.push_back(cst(cv->getOperand(i)));
    return json::Array{"vec", std::move(a)};
  }
  return json::Array{"unk", tyname(c->getType())};
}
static json::Value opnd(const Value *v) {
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"v", it->second};
  if (auto *c = dyn_cast<Constant>(v)) return cst(c);
  if (isa<BasicBlock>(v)) return json::Array{"bb"};
  if (auto *m = dyn_cast<MetadataAsValue>(v)) return json::Array{"md"};
  return json::Array{"unk"};
}
static void flat(const Constant *c, uint64_t off, json::Array &out, int depth = 0) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) {
    if (DL->getTypeAllocSize(t) > 8) { out.push_back(json::Array{(int64_t)off, "Z", (int64_t)DL->getTypeAllocSize(t)}); return; }
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) { if (auto *e = c->getAggregateElement(i)) flat(e, off + (uint64_t)sl->getElementOffset(i), out, depth + 1); }
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->isString(8)) { std::string s = cd->getRawDataValues().str(); std::string h; for (unsigned char ch : s) { char b[3]; snprintf(b, 3, "%02x", ch); h += b; } out.push_back(json::Array{(int64_t)off, "S", h}); return; }
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
    uint64_t n = t->isArrayTy() ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t sz = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; i++) { if (auto *e = c->getAggregateElement(i)) flat(e, off + i * sz, out, depth + 1); }
    return;
  }
  out.push_back(json::Array{(int64_t)off, tyname(t), cst(c)});
}
static json::Value loc(const Instruction &I) {
  if (auto &dl = I.getDebugLoc()) {
    json::Array chain;
    const DILocation *d = dl.get();
    int n = 0;
    while (d && n++ < 8) {
      std::string fn; if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
      chain.push_back(json::Array{d->getFilename().str(), (int64_t)d->getLine(), fn});
      d = d->getInlinedAt();
    }
    return chain;
  }
  return nullptr;
}
int main(int argc, char **argv) {
  if (argc < 6) { errs() << "usage\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  Regex root(argv[3]), keep(argv[4]);
  bool inl = std::string(argv[5]).find("always-inline") != std::string::npos;
  // constructors emitted as aliases of one another
  for (auto &A : M->aliases())
    if (auto *G = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(G);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    for (auto &B : F) if (auto *T = B.getTerminator()) T->setMetadata("llvm.loop", nullptr);
    if (!inl) continue;
    F.removeFnAttr(Attribute::NoInline);
    std::string dm = demangle(F.getName().str());
    if ((std::string(argv[4]).size() && (keep.match(F.getName()) || keep.match(dm)))) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
    if (root.match(F.getName()) ) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.addFnAttr(Attribute::AlwaysInline);
  }
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto err = PB.parsePassPipeline(MPM, argv[5])) { errs() << toString(std::move(err)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  json::Object out; json::Array fns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string dm = demangle(F.getName().str());
    if (!root.match(F.getName()) && !root.match(dm) && !F.hasAddressTaken()) continue;
    ids.clear(); int n = 0;
    json::Object fo; fo["name"] = F.getName().str(); fo["dname"] = dm;
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); fo["sname"] = sp->getName().str(); }
    fo["noexcept"] = F.doesNotThrow();
    fo["ret"] = tyname(F.getReturnType());
    json::Array args;
    for (auto &A : F.args()) { ids[&A] = n; args.push_back(json::Array{n, A.getName().str(), tyname(A.getType()), A.hasStructRetAttr()?1:0}); n++; }
    fo["args"] = std::move(args);
    std::map<const BasicBlock *, int> bid; int nb = 0;
    for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) ids[&I] = n++; }
    DominatorTree DT(F); LoopInfo LI(DT);
    json::Array blocks;
    for (auto &B : F) {
      json::Object bo; bo["id"] = bid[&B];
      json::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { if (ii->isLifetimeStartOrEnd() || ii->getIntrinsicID() == Intrinsic::assume || ii->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl) continue; }
        json::Object io; io["id"] = ids[&I]; io["op"] = I.getOpcodeName(); io["ty"] = tyname(I.getType());
        auto l = loc(I); if (l != nullptr) io["loc"] = std::move(l);
        if (I.hasName()) io["nm"] = I.getName().str();
        json::Array ops;
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          ops.push_back(opnd(g->getPointerOperand()));
          if (g->collectOffset(*DL, 64, vo, co)) {
            io["off"] = co.getSExtValue(); json::Array ts;
            for (auto &kv : vo) ts.push_back(json::Array{kv.second.getSExtValue(), opnd(kv.first)});
            io["terms"] = std::move(ts);
          }
          io["sety"] = tyname(g->getSourceElementType());
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { ops.push_back(opnd(p->getIncomingValue(i))); inc.push_back(bid[p->getIncomingBlock(i)]); }
          io["inc"] = std::move(inc);
        } else if (auto *b = dyn_cast<BranchInst>(&I)) {
          json::Array su; if (b->isConditional()) ops.push_back(opnd(b->getCondition()));
          for (unsigned i = 0; i < b->getNumSuccessors(); i++) su.push_back(bid[b->getSuccessor(i)]);
          io["succ"] = std::move(su);
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(opnd(s->getCondition())); json::Array su; su.push_back(bid[s->getDefaultDest()]); json::Array cs;
          for (auto &c : s->cases()) { su.push_back(bid[c.getCaseSuccessor()]); cs.push_back(cst(c.getCaseValue())); }
          io["succ"] = std::move(su); io["cases"] = std::move(cs);
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          for (auto &a : cb->args()) ops.push_back(opnd(a.get()));
          if (auto *f = cb->getCalledFunction()) { io["callee"] = f->getName().str(); io["dcallee"] = demangle(f->getName().str()); io["cdecl"] = f->isDeclaration(); }
          else { io["calleev"] = opnd(cb->getCalledOperand()); }
          io["nounwind"] = cb->doesNotThrow();
          io["onlyread"] = cb->onlyReadsMemory(); io["nomem"] = cb->doesNotAccessMemory();
          json::Array aty; for (auto &a : cb->args()) aty.push_back(tyname(a->getType())); io["aty"] = std::move(aty);
          json::Array ro; for (unsigned i = 0; i < cb->arg_size(); i++) ro.push_back(cb->onlyReadsMemory(i) ? 1 : 0); io["argro"] = std::move(ro);
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { io["succ"] = json::Array{bid[iv->getNormalDest()], bid[iv->getUnwindDest()]}; }
        } else {
          for (auto &o : I.operands()) ops.push_back(opnd(o.get()));
          if (auto *c = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto *a = dyn_cast<AllocaInst>(&I)) { io["aty"] = tyname(a->getAllocatedType()); if (auto s = a->getAllocationSize(*DL)) io["asz"] = (int64_t)s->getFixedValue(); }
          if (auto *l = dyn_cast<LoadInst>(&I)) { io["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue(); io["vol"] = l->isVolatile(); }
          if (auto *s = dyn_cast<StoreInst>(&I)) { io["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue(); io["vty"] = tyname(s->getValueOperand()->getType()); }
          if (auto *c = dyn_cast<CastInst>(&I)) { io["sty"] = tyname(c->getSrcTy()); }
          if (auto *e = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int64_t)i); io["idx"] = std::move(ix); }
          if (auto *e = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int64_t)i); io["idx"] = std::move(ix); }
          if (isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<ReturnInst>(I)) io["succ"] = json::Array{};
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { io["nsw"] = ob->hasNoSignedWrap(); io["nuw"] = ob->hasNoUnsignedWrap(); }
        }
        if (auto *md = I.getMetadata(LLVMContext::MD_tbaa)) {
          if (md->getNumOperands() > 1) if (auto *at = dyn_cast<MDNode>(md->getOperand(1))) if (at->getNumOperands() > 0) if (auto *s = dyn_cast<MDString>(at->getOperand(0))) io["tbaa"] = s->getString().str();
        }
        io["ops"] = std::move(ops);
        is.push_back(std::move(io));
      }
      bo["ins"] = std::move(is);
      blocks.push_back(std::move(bo));
    }
    fo["blocks"] = std::move(blocks);
    json::Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Object lo; lo["header"] = bid[L->getHeader()]; lo["depth"] = (int64_t)L->getLoopDepth();
      json::Array bs; for (auto *b : L->blocks()) bs.push_back(bid[b]); lo["blocks"] = std::move(bs);
      if (L->getLoopLatch()) lo["latch"] = bid[L->getLoopLatch()]; else lo["latch"] = nullptr;
      lo["parent"] = L->getParentLoop() ? json::Value(bid[L->getParentLoop()->getHeader()]) : json::Value(nullptr);
      loops.push_back(std::move(lo));
    }
    fo["loops"] = std::move(loops);
    fns.push_back(std::move(fo));
  }
  // globals
  json::Object gs;
  for (size_t i = 0; i < gvq.size(); i++) {
    auto *g = gvq[i]; json::Object go; go["const"] = g->isConstant() || (g->hasLocalLinkage() && g->hasInitializer() && readOnly(g)); go["ty"] = tyname(g->getValueType()); go["size"] = (int64_t)DL->getTypeAllocSize(g->getValueType());
    go["dname"] = demangle(g->getName().str()); go["internal"] = g->hasLocalLinkage();
    if (g->hasInitializer()) { json::Array a; flat(g->getInitializer(), 0, a); go["init"] = std::move(a); }
    gs[g->getName().str()] = std::move(go);
  }
  json::Array decls; for (auto &F : *M) { json::Object d; d["n"] = F.getName().str(); d["d"] = demangle(F.getName().str()); d["decl"] = F.isDeclaration(); d["used"] = !F.use_empty(); decls.push_back(std::move(d)); }
  out["functions"] = std::move(fns); out["globals"] = std::move(gs); out["decls"] = std::move(decls);
  std::error_code ec; raw_fd_ostream os(argv[2], ec); os << json::Value(std::move(out)); os << "\n";
  return 0;
}
