#include "ir.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <unordered_map>
using namespace llvm;

static LLVMContext* C;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<Type*, Ty*> tyCache;
static std::unordered_map<const Constant*, int32_t> constCache;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::map<std::string, uint64_t> gnames;
std::vector<Val> constVals;
std::vector<Fn*> fns;
std::map<std::string, Fn*> fnByName;
std::map<uint64_t, int> tlsGlobals;

static Ty* T(Type* t) {
  auto it = tyCache.find(t);
  if (it != tyCache.end()) return it->second;
  Ty* r = new Ty;
  tyCache[t] = r;
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) { r->kind = K_VOID; return r; }
  if (t->isSized()) { r->store = DL->getTypeStoreSize(t).getFixedValue(); r->alloc = DL->getTypeAllocSize(t).getFixedValue(); }
  if (t->isIntegerTy()) { r->kind = K_INT; r->bits = t->getIntegerBitWidth(); }
  else if (t->isPointerTy()) { r->kind = K_PTR; r->bits = 64; }
  else if (t->isFloatTy()) { r->kind = K_F32; r->bits = 32; }
  else if (t->isDoubleTy()) { r->kind = K_F64; r->bits = 64; }
  else if (t->isX86_FP80Ty()) { r->kind = K_OTHERFP; r->bits = 80; }
  else if (t->isFloatingPointTy()) { r->kind = K_OTHERFP; r->bits = 128; }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    r->kind = K_AGG; r->isVec = true; r->nElem = v->getNumElements(); r->elem = T(v->getElementType());
    uint32_t eb = r->elem->bits;
    for (unsigned i = 0; i < r->nElem; i++)
      r->leaves.push_back({eb % 8 ? 0xffffffffu : i * (eb / 8), eb, r->elem->kind});
  } else if (auto* s = dyn_cast<StructType>(t)) {
    r->kind = K_AGG;
    if (s->isSized()) {
      auto* sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) {
        Ty* e = T(s->getElementType(i));
        uint32_t off = sl->getElementOffset(i).getFixedValue();
        if (e->kind == K_AGG) for (auto& l : e->leaves) r->leaves.push_back({off + l.off, l.bits, l.kind});
        else r->leaves.push_back({off, e->bits, e->kind});
      }
    }
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    r->kind = K_AGG;
    Ty* e = T(a->getElementType());
    if (a->getNumElements() <= 4096)
      for (uint64_t i = 0; i < a->getNumElements(); i++) {
        uint32_t off = i * e->alloc;
        if (e->kind == K_AGG) for (auto& l : e->leaves) r->leaves.push_back({off + l.off, l.bits, l.kind});
        else r->leaves.push_back({off, e->bits, e->kind});
      }
  }
  return r;
}
std::string tyName(Ty* t) { return "ty" + std::to_string(t->kind) + ":" + std::to_string(t->bits); }

static unsigned leafCount(Type* t) { Ty* x = T(t); return x->kind == K_AGG ? x->leaves.size() : 1; }

static Fn* getFn(const Function* f) {
  auto it = fnByName.find(f->getName().str());
  return it == fnByName.end() ? nullptr : it->second;
}
static uint64_t addrOf(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto* a = dyn_cast<GlobalAlias>(g)) {
    const Constant* base = a->getAliasee();
    APInt off(64, 0);
    const Value* b = base->stripAndAccumulateConstantOffsets(*DL, off, true);
    return addrOf(cast<GlobalValue>(b)) + off.getSExtValue();
  }
  fprintf(stderr, "engine: no address for %s\n", g->getName().str().c_str());
  exit(3);
}

static Lit* apLits(const APInt& v) {
  unsigned w = v.getBitWidth();
  Lit* l = (Lit*)malloc(w * sizeof(Lit));
  for (unsigned i = 0; i < w; i++) l[i] = v[i] ? 1 : 0;
  return l;
}
static bool constInt(const Constant* c, uint64_t& out); // evaluates to a concrete 64-bit value
static Val constVal(const Constant* c);
static void constLeaves(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (t->isAggregateType() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant* e = c->getAggregateElement(i);
      if (!e) {
        errs() << "engine: unsupported constant " << *c << "\n"; exit(3);
      }
      constLeaves(e, out);
    }
  } else
    out.push_back(constVal(c));
}
static bool constInt(const Constant* c, uint64_t& out) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return false; out = i->getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { out = 0; return true; }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    auto a = f->getValueAPF().bitcastToAPInt();
    out = a.getBitWidth() <= 64 ? a.getZExtValue() : 0; return true;
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out = addrOf(g); return true; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    uint64_t x, y;
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        if (!constInt(e->getOperand(0), x)) return false;
        APInt off(64, 0);
        if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return false;
        out = x + off.getSExtValue(); return true;
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
        if (!constInt(e->getOperand(0), x)) return false;
        out = x;
        if (e->getType()->isIntegerTy() && e->getType()->getIntegerBitWidth() < 64) out &= (1ull << e->getType()->getIntegerBitWidth()) - 1;
        return true;
      case Instruction::Trunc:
        if (!constInt(e->getOperand(0), x)) return false;
        out = x & ((1ull << e->getType()->getIntegerBitWidth()) - 1); return true;
      case Instruction::Add: if (!constInt(e->getOperand(0), x) || !constInt(e->getOperand(1), y)) return false; out = x + y; break;
      case Instruction::Sub: if (!constInt(e->getOperand(0), x) || !constInt(e->getOperand(1), y)) return false; out = x - y; break;
      case Instruction::And: if (!constInt(e->getOperand(0), x) || !constInt(e->getOperand(1), y)) return false; out = x & y; break;
      case Instruction::ICmp: {
        if (!constInt(e->getOperand(0), x) || !constInt(e->getOperand(1), y)) return false;
        auto p = cast<ConstantExpr>(e)->getPredicate();
        out = p == CmpInst::ICMP_EQ ? x == y : p == CmpInst::ICMP_NE ? x != y : p == CmpInst::ICMP_ULT ? x < y : x > y; return true;
      }
      case Instruction::Select:
        if (!constInt(e->getOperand(0), x)) return false;
        return constInt(cast<Constant>(e->getOperand(x ? 1 : 2)), out);
      default: return false;
    }
    unsigned w = e->getType()->isIntegerTy() ? e->getType()->getIntegerBitWidth() : 64;
    if (w < 64) out &= (1ull << w) - 1;
    return true;
  }
  return false;
}
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  Val v{0, nullptr};
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
    if (auto* i = dyn_cast<ConstantInt>(c)) v.p = apLits(i->getValue());
    else if (isa<UndefValue>(c)) v.p = apLits(APInt(t->getIntegerBitWidth(), 0));
    else { errs() << "engine: unsupported wide constant " << *c << "\n"; exit(3); }
    return v;
  }
  if (t->isAggregateType() || t->isVectorTy()) {
    std::vector<Val> ls;
    constLeaves(c, ls);
    Val* p = (Val*)malloc(sizeof(Val) * (ls.size() + 1));
    memcpy(p, ls.data(), sizeof(Val) * ls.size());
    v.p = p;
    return v;
  }
  if (constInt(c, v.c)) return v;
  if (t->isX86_FP80Ty()) return v;
  errs() << "engine: unsupported constant " << *c << "\n";
  exit(3);
}
static int32_t constOp(const Constant* c) {
  auto it = constCache.find(c);
  if (it != constCache.end()) return it->second;
  constVals.push_back(constVal(c));
  int32_t r = -(int32_t)constVals.size();
  constCache[c] = r;
  return r;
}

static void writeConst(const Constant* c, uint64_t addr, uint8_t* d) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cds->getRawDataValues();
    memcpy(d, s.data(), s.size());
    return;
  }
  if (t->isStructTy()) {
    auto* sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) writeConst(c->getAggregateElement(i), addr, d + sl->getElementOffset(i).getFixedValue());
    return;
  }
  if (t->isArrayTy()) {
    uint64_t sz = DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue();
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) writeConst(c->getAggregateElement(i), addr, d + i * sz);
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(vt->getElementType()).getFixedValue();
    for (unsigned i = 0; i < vt->getNumElements(); i++) writeConst(c->getAggregateElement(i), addr, d + i * sz);
    return;
  }
  if (auto* ci = dyn_cast<ConstantInt>(c); ci && ci->getBitWidth() > 64) {
    for (unsigned i = 0; i < ci->getBitWidth() / 8; i++) d[i] = ci->getValue().extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (t->isX86_FP80Ty()) {
    auto a = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt();
    for (unsigned i = 0; i < 10; i++) d[i] = a.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  uint64_t v;
  if (!constInt(c, v)) { errs() << "engine: unsupported initializer " << *c << "\n"; exit(3); }
  memcpy(d, &v, DL->getTypeStoreSize(t).getFixedValue());
}
uint64_t globalAddr(const std::string& n) { auto it = gnames.find(n); return it == gnames.end() ? 0 : it->second; }

void loadModule(const std::vector<std::string>& paths, const std::vector<std::string>& libs) {
  C = new LLVMContext;
  SMDiagnostic err;
  M = parseIRFile(paths[0], err, *C);
  if (!M) { err.print("vsym", errs()); exit(3); }
  Linker lk(*M);
  for (size_t i = 1; i < paths.size(); i++) {
    auto m = parseIRFile(paths[i], err, *C);
    if (!m) { err.print("vsym", errs()); exit(3); }
    if (lk.linkInModule(std::move(m))) { fprintf(stderr, "vsym: linking %s failed\n", paths[i].c_str()); exit(3); }
  }
  for (auto& l : libs) {
    auto m = parseIRFile(l, err, *C);
    if (!m) { err.print("vsym", errs()); exit(3); }
    if (lk.linkInModule(std::move(m), Linker::LinkOnlyNeeded)) { fprintf(stderr, "vsym: linking %s failed\n", l.c_str()); exit(3); }
  }
  DL = &M->getDataLayout();
  for (auto& f : *M) {
    Fn* x = new Fn;
    x->name = f.getName().str();
    x->id = fns.size();
    x->defined = !f.isDeclaration();
    x->llvmFn = &f;
    x->varargs = f.isVarArg();
    x->ret = T(f.getReturnType());
    for (auto& a : f.args()) {
      x->params.push_back(T(a.getType()));
      x->byval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()).getFixedValue() : 0);
    }
    if (auto* sp = f.getSubprogram()) x->src = (sp->getFilename()).str() + ":" + std::to_string(sp->getLine());
    fns.push_back(x);
    fnByName[x->name] = x;
    uint64_t a = newObj(1, 5, false);
    objs[a >> 32].aux = x->id;
    x->addr = a;
    gaddr[&f] = a;
  }
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    if (g.isDeclaration() && sz < 64) sz = 64;
    uint64_t a = newObj(sz, g.isConstant() ? 4 : 3, false);
    gaddr[&g] = a;
    gnames[g.getName().str()] = a;
    if (g.isThreadLocal()) { int k = tlsGlobals.size(); tlsGlobals[a] = k; }
  }
  for (auto& g : M->globals())
    if (g.hasInitializer() && !isa<UndefValue>(g.getInitializer())) writeConst(g.getInitializer(), gaddr[&g], objs[gaddr[&g] >> 32].d);
  for (auto& al : M->aliases()) {
    if (auto* f = dyn_cast<Function>(al.getAliasee()->stripPointerCasts())) fnByName[al.getName().str()] = getFn(f);
  }
}

static const char* internStr(const std::string& s) {
  static std::map<std::string, const char*> m;
  auto it = m.find(s);
  if (it != m.end()) return it->second;
  return m[s] = strdup(s.c_str());
}

void decode(Fn* fn) {
  if (fn->decoded) return;
  fn->decoded = true;
  Function& f = *(Function*)fn->llvmFn;
  std::unordered_map<const Value*, int32_t> reg;
  std::unordered_map<const BasicBlock*, int32_t> bid;
  int32_t n = 0;
  for (auto& a : f.args()) reg[&a] = n++;
  int nb = 0;
  for (auto& b : f) {
    bid[&b] = nb++;
    for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
  }
  fn->nregs = n;
  fn->blocks.resize(nb);
  auto opnd = [&](const Value* v) -> int32_t {
    if (auto* c = dyn_cast<Constant>(v)) return constOp(c);
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1;
    return reg.at(v);
  };
  for (auto& b : f) {
    Block& B = fn->blocks[bid[&b]];
    for (auto& phi : b.phis())
      for (unsigned k = 0; k < phi.getNumIncomingValues(); k++) {
        int32_t pb = bid[phi.getIncomingBlock(k)];
        auto& mv = B.in[pb];
        bool dup = false;
        for (auto& m : mv) if (m.dst == reg[&phi]) dup = true;
        if (!dup) mv.push_back({reg[&phi], opnd(phi.getIncomingValue(k)), T(phi.getType())});
      }
    for (auto& i : b) {
      if (isa<PHINode>(i)) continue;
      Inst x;
      x.ty = T(i.getType());
      if (!i.getType()->isVoidTy()) x.dst = reg[&i];
      if (auto& dl = i.getDebugLoc()) { x.line = dl.getLine(); if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) x.file = internStr(sc->getFilename().str()); }
      auto bin = [&](Op o) { x.op = o; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.ty2 = T(i.getOperand(0)->getType()); };
      auto cast1 = [&](Op o) { x.op = o; x.a = opnd(i.getOperand(0)); x.ty2 = T(i.getOperand(0)->getType()); };
      switch (i.getOpcode()) {
        case Instruction::Add: bin(O_ADD); break;
        case Instruction::Sub: bin(O_SUB); break;
        case Instruction::Mul: bin(O_MUL); break;
        case Instruction::UDiv: bin(O_UDIV); break;
        case Instruction::SDiv: bin(O_SDIV); break;
        case Instruction::URem: bin(O_UREM); break;
        case Instruction::SRem: bin(O_SREM); break;
        case Instruction::Shl: bin(O_SHL); break;
        case Instruction::LShr: bin(O_LSHR); break;
        case Instruction::AShr: bin(O_ASHR); break;
        case Instruction::And: bin(O_AND); break;
        case Instruction::Or: bin(O_OR); break;
        case Instruction::Xor: bin(O_XOR); break;
        case Instruction::FAdd: bin(O_FADD); break;
        case Instruction::FSub: bin(O_FSUB); break;
        case Instruction::FMul: bin(O_FMUL); break;
        case Instruction::FDiv: bin(O_FDIV); break;
        case Instruction::FRem: bin(O_FREM); break;
        case Instruction::FNeg: cast1(O_FNEG); break;
        case Instruction::ICmp: bin(O_ICMP); x.sub = cast<ICmpInst>(i).getPredicate(); break;
        case Instruction::FCmp: bin(O_FCMP); x.sub = cast<FCmpInst>(i).getPredicate(); break;
        case Instruction::Select: x.op = O_SELECT; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.c = opnd(i.getOperand(2)); x.ty2 = T(i.getOperand(0)->getType()); break;
        case Instruction::Trunc: cast1(O_ITRUNC); break;
        case Instruction::ZExt: cast1(O_ZEXT); break;
        case Instruction::SExt: cast1(O_SEXT); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          cast1(O_NOPCAST);
          if (T(i.getType())->bits < x.ty2->bits) x.op = O_ITRUNC; else if (T(i.getType())->bits > x.ty2->bits) x.op = O_ZEXT;
          break;
        }
        case Instruction::AddrSpaceCast: cast1(O_NOPCAST); break;
        case Instruction::BitCast: cast1(O_BITCAST); if (x.ty->kind != K_AGG && x.ty2->kind != K_AGG) x.op = O_NOPCAST; break;
        case Instruction::FPExt: cast1(O_FPEXT); break;
        case Instruction::FPTrunc: cast1(O_FPTRUNC); break;
        case Instruction::FPToUI: cast1(O_FPTOUI); break;
        case Instruction::FPToSI: cast1(O_FPTOSI); break;
        case Instruction::UIToFP: cast1(O_UITOFP); break;
        case Instruction::SIToFP: cast1(O_SITOFP); break;
        case Instruction::Alloca: {
          auto& a = cast<AllocaInst>(i);
          x.op = O_ALLOCA; x.imm = DL->getTypeAllocSize(a.getAllocatedType()).getFixedValue();
          x.a = opnd(a.getArraySize()); x.ty2 = T(a.getArraySize()->getType());
          break;
        }
        case Instruction::Load: x.op = O_LOAD; x.a = opnd(i.getOperand(0)); x.sub = cast<LoadInst>(i).isAtomic(); break;
        case Instruction::Store: x.op = O_STORE; x.a = opnd(i.getOperand(1)); x.b = opnd(i.getOperand(0)); x.ty2 = T(i.getOperand(0)->getType()); x.sub = cast<StoreInst>(i).isAtomic(); break;
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(i);
          x.op = O_GEP; x.a = opnd(g.getPointerOperand()); x.imm = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* idx = gi.getOperand();
            if (auto* st = gi.getStructTypeOrNull()) { x.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue(); continue; }
            int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
            if (auto* ci = dyn_cast<ConstantInt>(idx)) x.imm += ci->getSExtValue() * sz;
            else x.gep.push_back({opnd(idx), T(idx->getType())->bits, sz});
          }
          break;
        }
        case Instruction::ExtractValue: {
          auto& e = cast<ExtractValueInst>(i);
          x.op = O_EXTRACTVALUE; x.a = opnd(e.getAggregateOperand()); x.ty2 = T(e.getAggregateOperand()->getType());
          Type* t = e.getAggregateOperand()->getType(); unsigned s = 0;
          for (unsigned k : e.indices()) {
            for (unsigned j = 0; j < k; j++) s += leafCount(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType());
            t = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType();
          }
          x.imm = s; break;
        }
        case Instruction::InsertValue: {
          auto& e = cast<InsertValueInst>(i);
          x.op = O_INSERTVALUE; x.a = opnd(e.getAggregateOperand()); x.b = opnd(e.getInsertedValueOperand()); x.ty2 = T(e.getInsertedValueOperand()->getType());
          Type* t = e.getAggregateOperand()->getType(); unsigned s = 0;
          for (unsigned k : e.indices()) {
            for (unsigned j = 0; j < k; j++) s += leafCount(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType());
            t = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType();
          }
          x.imm = s; break;
        }
        case Instruction::ExtractElement: x.op = O_EXTRACTELT; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.ty2 = T(i.getOperand(0)->getType()); break;
        case Instruction::InsertElement: x.op = O_INSERTELT; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.c = opnd(i.getOperand(2)); break;
        case Instruction::ShuffleVector: {
          auto& s = cast<ShuffleVectorInst>(i);
          x.op = O_SHUFFLE; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.ty2 = T(i.getOperand(0)->getType());
          for (int m : s.getShuffleMask()) x.imms.push_back((int64_t)m);
          break;
        }
        case Instruction::AtomicRMW: {
          auto& r = cast<AtomicRMWInst>(i);
          x.op = O_RMW; x.a = opnd(r.getPointerOperand()); x.b = opnd(r.getValOperand()); x.ty2 = T(r.getValOperand()->getType());
          switch (r.getOperation()) {
            case AtomicRMWInst::Xchg: x.sub = 0; break; case AtomicRMWInst::Add: x.sub = 1; break; case AtomicRMWInst::Sub: x.sub = 2; break;
            case AtomicRMWInst::And: x.sub = 3; break; case AtomicRMWInst::Or: x.sub = 4; break; case AtomicRMWInst::Xor: x.sub = 5; break;
            default: x.sub = 99;
          }
          break;
        }
        case Instruction::AtomicCmpXchg: {
          auto& r = cast<AtomicCmpXchgInst>(i);
          x.op = O_CMPXCHG; x.a = opnd(r.getPointerOperand()); x.b = opnd(r.getCompareOperand()); x.c = opnd(r.getNewValOperand()); x.ty2 = T(r.getCompareOperand()->getType());
          break;
        }
        case Instruction::Fence: x.op = O_FENCE; break;
        case Instruction::Freeze: cast1(O_FREEZE); break;
        case Instruction::Br: {
          auto& br = cast<BranchInst>(i);
          if (br.isUnconditional()) { x.op = O_BR; x.t0 = bid[br.getSuccessor(0)]; }
          else { x.op = O_CBR; x.a = opnd(br.getCondition()); x.t0 = bid[br.getSuccessor(0)]; x.t1 = bid[br.getSuccessor(1)]; }
          break;
        }
        case Instruction::Switch: {
          auto& s = cast<SwitchInst>(i);
          x.op = O_SWITCH; x.a = opnd(s.getCondition()); x.ty2 = T(s.getCondition()->getType()); x.t0 = bid[s.getDefaultDest()];
          for (auto& cs : s.cases()) { x.imms.push_back(cs.getCaseValue()->getZExtValue()); x.targets.push_back(bid[cs.getCaseSuccessor()]); }
          break;
        }
        case Instruction::Ret: x.op = O_RET; x.sub = i.getNumOperands() != 0; if (x.sub) { x.a = opnd(i.getOperand(0)); x.ty2 = T(i.getOperand(0)->getType()); } break;
        case Instruction::Unreachable: x.op = O_UNREACHABLE; break;
        case Instruction::Resume: x.op = O_RESUME; x.a = opnd(i.getOperand(0)); break;
        case Instruction::LandingPad: {
          auto& lp = cast<LandingPadInst>(i);
          x.op = O_LANDINGPAD; x.sub = lp.isCleanup();
          for (unsigned k = 0; k < lp.getNumClauses(); k++) {
            if (lp.isCatch(k)) { uint64_t v; constInt(lp.getClause(k), v); x.imms.push_back(v); }
            else x.imms.push_back(~0ull); // filter: treated as never matching
          }
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(i);
          x.op = i.getOpcode() == Instruction::Call ? O_CALL : O_INVOKE;
          if (auto* inv = dyn_cast<InvokeInst>(&i)) { x.t0 = bid[inv->getNormalDest()]; x.t1 = bid[inv->getUnwindDest()]; }
          if (isa<DbgInfoIntrinsic>(i)) continue;
          Function* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
          if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) cf = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
          if (cb.isInlineAsm()) {
            std::string as = cast<InlineAsm>(cb.getCalledOperand())->getAsmString();
            x.name = "asm:" + as;
            if (as.empty()) continue;
            x.op = O_INTRIN;
          } else if (cf && cf->isIntrinsic()) {
            std::string nm = cf->getName().str();
            auto pre = [&](const char* p) { return nm.compare(0, strlen(p), p) == 0; };
            if (pre("llvm.dbg") || pre("llvm.lifetime") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || pre("llvm.prefetch") || pre("llvm.stackrestore") || pre("llvm.assume") || pre("llvm.donothing") || pre("llvm.x86.sse2.lfence") || pre("llvm.x86.sse2.mfence")) {
              if (x.op == O_INVOKE) { x.op = O_BR; B.insts.push_back(std::move(x)); }
              continue;
            }
            if (x.op == O_INVOKE) x.sub = 1;
            x.op = O_INTRIN;
            x.name = nm;
          } else if (cf) x.callee = getFn(cf);
          else { x.c = opnd(cb.getCalledOperand()); }
          for (auto& a : cb.args()) { x.ops.push_back(opnd(a.get())); x.opTys.push_back(T(a->getType())); }
          break;
        }
        default: x.op = O_UNSUPPORTED; { std::string s; raw_string_ostream os(s); os << i; x.name = s; }
      }
      B.insts.push_back(std::move(x));
    }
  }
}

std::vector<Fn*> ctorList() {
  std::vector<std::pair<uint64_t, Fn*>> v;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
    if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& o : a->operands()) {
        auto* s = cast<ConstantStruct>(o);
        if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), getFn(f)});
      }
  std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
  std::vector<Fn*> r;
  for (auto& p : v) r.push_back(p.second);
  return r;
}
