// Loading: globals, constants, decoding of functions, post-dominators, liveness.
#include "engine.h"
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <algorithm>
using namespace llvm;

extern const std::vector<std::string>& builtinNames();

u32 Memory::alloc(u32 size, OK kind, u32 site, bool zero) {
  Obj* o = new Obj(); o->size = size; o->kind = kind; o->site = site;
  o->bytes.assign(size, 0); o->init.assign(size, zero ? 1 : 0); o->tag.assign(size, 1);
  u32 id;
  if (tn.empty()) { id = n++; if ((id >> 6) >= ch.size()) ch.push_back(Ref<Chunk>()); }
  else { id = tn[tcur]++; if (id >= n - (tn.size() - 1 - tcur) * TREGION) throw Unsupported("too many objects in one thread"); }
  if (!ch[id >> 6]) ch[id >> 6] = Ref<Chunk>(new Chunk());
  ch[id >> 6].own()->o[id & 63] = Ref<Obj>(o);
  return id;
}
void Memory::spawn() {
  auto more = [&] { n = (n + 63) & ~63u; tn.push_back(n); n += TREGION; ch.resize(n >> 6); };
  if (tn.empty()) more();
  more();
}
void Memory::set(u32 id, Ref<Obj> o) {
  while ((id >> 6) >= ch.size()) ch.push_back(Ref<Chunk>(new Chunk()));
  ch[id >> 6].own()->o[id & 63] = o;
  if (id >= n) n = id + 1;
}

Engine::Engine(Module& m, const Config& c) : cfg(c), M(m), DL(m.getDataLayout()) {
  sol.dumpDir = c.dump;
  auto& names = builtinNames();
  for (size_t i = 0; i < names.size(); i++) builtinIds[names[i]] = i;
  initGlobals();
}

unsigned Engine::widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}

DFunc* Engine::fn(const Function* F) {
  auto it = funcs.find(F);
  if (it != funcs.end()) return it->second;
  DFunc* f = new DFunc(); f->F = F; f->name = F->getName().str(); f->id = funcList.size();
  if (auto* sp = F->getSubprogram()) { f->file = sp->getFilename().str(); if (!f->file.empty() && f->file[0] != '/') f->file = sp->getDirectory().str() + "/" + f->file; f->fromRepo = f->file.compare(0, cfg.repo.size(), cfg.repo) == 0; }
  funcs[F] = f; funcList.push_back(f);
  return f;
}

void Engine::initGlobals() {
  u32 e = mem0.alloc(4, OK::Global, 0, true); errnoAddr = Memory::addr(e);
  for (auto& F : M) { u32 id = mem0.alloc(1, OK::Func, 0, true); gaddr[&F] = Memory::addr(id); funcByObj[id] = fn(&F); }
  for (auto& G : M.globals()) {
    u64 sz = DL.getTypeAllocSize(G.getValueType()).getFixedValue();
    if (sz > (1u << 23)) sz = 64;
    u32 id = mem0.alloc(sz ? sz : 1, G.isConstant() ? OK::Const : OK::Global, 0, true);
    gaddr[&G] = Memory::addr(id);
    if (!G.hasInitializer()) externGlobals[G.getName().str()] = &G;
  }
  for (auto& A : M.aliases()) { auto* b = A.getAliaseeObject(); if (b && gaddr.count(b)) gaddr[&A] = gaddr[b]; }
  for (auto& G : M.globals()) if (G.hasInitializer()) writeConst(mem0, gaddr[&G], G.getInitializer());
}

void Engine::writeConst(Memory& m, u64 a, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type* t = c->getType();
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = DL.getTypeAllocSize(ca->getElementType());
    for (unsigned i = 0; i < ca->getNumElements(); i++) writeConst(m, a + i * es, ca->getElementAsConstant(i));
    return;
  }
  if (auto* s = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL.getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(m, a + sl->getElementOffset(i), s->getOperand(i));
    return;
  }
  if (auto* s = dyn_cast<ConstantArray>(c)) {
    u64 es = DL.getTypeAllocSize(s->getType()->getElementType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(m, a + i * es, s->getOperand(i));
    return;
  }
  Val v = constVal(c);
  if (v.t == VT::Undef) return;
  unsigned sz = sizeOf(t);
  u32 id = Memory::idOf(a), off = Memory::offOf(a);
  Obj* o = m.own(id);
  if (off + sz <= o->size) objStore(o, off, v, sz);
}

Val Engine::constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) throw Unsupported("integer constant wider than 64 bits"); return Val::I(i->getZExtValue(), i->getBitWidth()); }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy()) return Val::Dv(D(f->getValueAPF().convertToDouble()));
    if (t->isFloatTy()) { Val v = Val::Dv(D((double)f->getValueAPF().convertToFloat())); return v; }
    throw Unsupported("floating constant of unusual type");
  }
  if (isa<ConstantPointerNull>(c)) return Val::I(0, 64);
  if (isa<UndefValue>(c)) { // includes poison
    if (auto* st = dyn_cast<StructType>(t)) { auto* a = new Agg(); for (unsigned i = 0; i < st->getNumElements(); i++) a->v.push_back(Val()); return Val::A(a); }
    Val v; v.w = widthOf(t); return v; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported("unknown global " + g->getName().str()); return Val::I(it->second, 64); }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    auto* a = new Agg();
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) a->v.push_back(constVal(c->getAggregateElement(i)));
    return Val::A(a);
  }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = constVal(e->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(e)->accumulateConstantOffset(DL, off)) throw Unsupported("constant gep");
        return Val::I(b.c + off.getSExtValue(), 64); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val b = constVal(e->getOperand(0)); return Val::I(b.c, widthOf(t)); }
      case Instruction::Sub: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); return Val::I(a.c - b.c, a.w); }
      case Instruction::Add: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); return Val::I(a.c + b.c, a.w); }
      case Instruction::Trunc: { Val a = constVal(e->getOperand(0)); return Val::I(a.c, widthOf(t)); }
      case Instruction::ICmp: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); bool r = a.c == b.c; if (e->getPredicate() == CmpInst::ICMP_NE) r = !r; else if (e->getPredicate() != CmpInst::ICMP_EQ) throw Unsupported("constant icmp"); return Val::I(r, 1); }
      default: throw Unsupported(std::string("constant expression ") + e->getOpcodeName());
    }
  }
  throw Unsupported("unhandled constant");
}

Opnd Engine::opnd(DFunc*, const Value* v, const std::map<const Value*, u32>& slots) {
  Opnd o;
  if (auto* c = dyn_cast<Constant>(v)) { o.isC = true;
    if (isa<Constant>(v) && v->getType()->isVectorTy()) throw Unsupported("vector constant");
    o.c = constVal(c); return o; }
  auto it = slots.find(v);
  if (it == slots.end()) throw Unsupported("operand without slot");
  o.slot = it->second; return o;
}

void Engine::decode(DFunc* f) {
  if (f->decoded) return;
  f->decoded = true;
  const Function& F = *f->F;
  std::map<const Value*, u32> slots; u32 n = 0;
  for (auto& A : F.args()) slots[&A] = n++;
  std::map<const BasicBlock*, int> bidx;
  for (auto& B : F) { int k = bidx.size(); bidx[&B] = k; for (auto& I : B) if (!I.getType()->isVoidTy()) slots[&I] = n++; }
  f->nslots = n;
  f->bl.resize(bidx.size());
  for (auto& B : F) {
    DBlock& db = f->bl[bidx[&B]]; db.B = &B;
    // phis per predecessor
    std::map<int, std::vector<std::pair<u32, Opnd>>> ph;
    for (auto& P : B.phis()) for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
      auto& l = ph[bidx[P.getIncomingBlock(i)]];
      bool dup = false; for (auto& x : l) if (x.first == slots[&P]) dup = true;
      if (!dup) l.push_back({slots[&P], opnd(f, P.getIncomingValue(i), slots)});
    }
    for (auto& x : ph) db.phis.push_back(x);
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst d; d.op = I.getOpcode(); d.I = &I; d.ty = I.getType();
      if (!I.getType()->isVoidTy()) d.dst = slots[&I];
      d.w = widthOf(I.getType());
      d.isDbl = I.getType()->isFloatingPointTy();
      if (I.getType()->isVectorTy()) throw Unsupported("vector instruction in " + f->name);
      switch (I.getOpcode()) {
        case Instruction::Br: {
          auto& br = cast<BranchInst>(I);
          if (br.isConditional()) d.ops.push_back(opnd(f, br.getCondition(), slots));
          for (unsigned i = 0; i < br.getNumSuccessors(); i++) d.succ.push_back(bidx[br.getSuccessor(i)]);
          break; }
        case Instruction::Switch: {
          auto& sw = cast<SwitchInst>(I);
          d.ops.push_back(opnd(f, sw.getCondition(), slots));
          d.succ.push_back(bidx[sw.getDefaultDest()]);
          for (auto& cs : sw.cases()) { d.cases.push_back(cs.getCaseValue()->getZExtValue()); d.succ.push_back(bidx[cs.getCaseSuccessor()]); }
          break; }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(I);
          d.ops.push_back(opnd(f, g.getPointerOperand(), slots));
          for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) {
            Value* idx = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) { d.gepOff += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
            i64 es = DL.getTypeAllocSize(gti.getIndexedType()).getFixedValue();
            if (auto* ci = dyn_cast<ConstantInt>(idx)) { d.gepOff += ci->getSExtValue() * es; continue; }
            d.gep.push_back({opnd(f, idx, slots), es});
          }
          break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(I);
          if (cb.isInlineAsm()) { auto* ia = cast<InlineAsm>(cb.getCalledOperand()); if (!ia->getAsmString().empty()) throw Unsupported("inline asm"); d.intrin = -1; break; }
          for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { Opnd o; o.isC = true; o.c = Val::I(0, 64); d.ops.push_back(o); } else d.ops.push_back(opnd(f, a, slots)); }
          const Function* cf = cb.getCalledFunction();
          if (!cf) if (auto* al = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliaseeObject());
          if (!cf) cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
          if (cf) {
            if (cf->isIntrinsic()) d.intrin = cf->getIntrinsicID();
            else { auto it = builtinIds.find(cf->getName().str()); if (it != builtinIds.end()) d.builtin = it->second; else d.callee = fn(cf); }
          } else d.ops.push_back(opnd(f, cb.getCalledOperand(), slots));
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.succ.push_back(bidx[iv->getNormalDest()]); d.succ.push_back(bidx[iv->getUnwindDest()]); }
          break; }
        case Instruction::ExtractValue: for (unsigned i : cast<ExtractValueInst>(I).indices()) d.idx.push_back(i); d.ops.push_back(opnd(f, I.getOperand(0), slots)); break;
        case Instruction::InsertValue: for (unsigned i : cast<InsertValueInst>(I).indices()) d.idx.push_back(i); d.ops.push_back(opnd(f, I.getOperand(0), slots)); d.ops.push_back(opnd(f, I.getOperand(1), slots)); break;
        case Instruction::ICmp: case Instruction::FCmp: d.aux = cast<CmpInst>(I).getPredicate(); d.ops.push_back(opnd(f, I.getOperand(0), slots)); d.ops.push_back(opnd(f, I.getOperand(1), slots)); break;
        case Instruction::Alloca: {
          auto& al = cast<AllocaInst>(I); d.aux2 = DL.getTypeAllocSize(al.getAllocatedType()).getFixedValue(); d.ops.push_back(opnd(f, al.getArraySize(), slots)); break; }
        case Instruction::Store: d.aux2 = sizeOf(I.getOperand(0)->getType()); d.ty = I.getOperand(0)->getType(); d.ops.push_back(opnd(f, I.getOperand(0), slots)); d.ops.push_back(opnd(f, I.getOperand(1), slots)); break;
        case Instruction::AtomicRMW: d.aux = cast<AtomicRMWInst>(I).getOperation(); for (auto& o : I.operands()) d.ops.push_back(opnd(f, o, slots)); break;
        case Instruction::LandingPad: break;
        default:
          for (auto& o : I.operands()) { if (isa<BasicBlock>(o)) throw Unsupported(std::string("instruction ") + I.getOpcodeName()); d.ops.push_back(opnd(f, o, slots)); }
      }
      db.in.push_back(std::move(d));
    }
  }
  postdom(f); liveness(f);
}

// immediate post-dominators over normal control flow only: unwind edges and blocks that cannot reach a
// return are ignored, so that throwing checks do not hide join points
void Engine::postdom(DFunc* f) {
  int n = f->bl.size();
  std::vector<std::vector<int>> succ(n), pred(n + 1);
  for (int b = 0; b < n; b++) {
    auto& t = f->bl[b].in.back();
    if (t.op == Instruction::Br || t.op == Instruction::Switch) succ[b] = t.succ;
    else if (t.op == Instruction::Invoke) succ[b] = {t.succ[0]};
    else if (t.op == Instruction::Ret) succ[b] = {n};
  }
  std::vector<char> can(n + 1, 0); can[n] = 1;
  bool ch = true;
  while (ch) { ch = false; for (int b = 0; b < n; b++) if (!can[b]) for (int s : succ[b]) if (can[s]) { can[b] = 1; ch = true; break; } }
  for (int b = 0; b < n; b++) { std::vector<int> k; for (int s : succ[b]) if (can[s]) k.push_back(s); succ[b] = k; for (int s : k) pred[s].push_back(b); }
  // order: reverse post-order from the exit on the reversed graph
  std::vector<int> order; std::vector<char> seen(n + 1, 0);
  std::vector<std::pair<int, size_t>> st{{n, 0}}; seen[n] = 1;
  while (!st.empty()) { auto& [b, i] = st.back(); if (i < pred[b].size()) { int p = pred[b][i++]; if (!seen[p]) { seen[p] = 1; st.push_back({p, 0}); } } else { order.push_back(b); st.pop_back(); } }
  std::vector<int> num(n + 1, -1), ip(n + 1, -1);
  for (size_t i = 0; i < order.size(); i++) num[order[i]] = i;
  ip[n] = n; ch = true;
  while (ch) { ch = false;
    for (int k = (int)order.size() - 2; k >= 0; k--) {
      int b = order[k], ni = -1;
      for (int s : succ[b]) if (ip[s] != -1) {
        if (ni == -1) ni = s;
        else { int x = s, y = ni; while (x != y) { while (num[x] < num[y]) x = ip[x]; while (num[y] < num[x]) y = ip[y]; } ni = x; } }
      if (ni != ip[b]) { ip[b] = ni; ch = true; }
    } }
  for (int b = 0; b < n; b++) f->bl[b].ipdom = ip[b] == -1 ? -2 : ip[b] == n ? -1 : ip[b];   // -1: function return, -2: none
}

void Engine::liveness(DFunc* f) {
  int n = f->bl.size(); size_t words = (f->nslots + 63) / 64;
  auto bit = [](std::vector<u64>& v, u32 s, bool on) { if (on) v[s >> 6] |= 1ull << (s & 63); else v[s >> 6] &= ~(1ull << (s & 63)); };
  std::vector<std::vector<u64>> in(n, std::vector<u64>(words, 0));   // live after phis of the block
  bool ch = true;
  while (ch) { ch = false;
    for (int b = n - 1; b >= 0; b--) {
      std::vector<u64> l(words, 0);
      auto& t = f->bl[b].in.back();
      for (int s : t.succ) {
        std::vector<u64> x = in[s];
        for (auto& ph : f->bl[s].phis) for (auto& pr : ph.second) bit(x, pr.first, false);
        for (auto& ph : f->bl[s].phis) if (ph.first == b) for (auto& pr : ph.second) if (!pr.second.isC) bit(x, pr.second.slot, true);
        for (size_t i = 0; i < words; i++) l[i] |= x[i];
      }
      for (int k = (int)f->bl[b].in.size() - 1; k >= 0; k--) {
        auto& d = f->bl[b].in[k];
        if (d.dst != ~0u) bit(l, d.dst, false);
        for (auto& o : d.ops) if (!o.isC) bit(l, o.slot, true);
        for (auto& g : d.gep) if (!g.o.isC) bit(l, g.o.slot, true);
      }
      if (l != in[b]) { in[b] = l; ch = true; }
    } }
  for (int b = 0; b < n; b++) f->bl[b].live = in[b];
}
