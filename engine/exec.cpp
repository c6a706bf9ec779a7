// The interpreter proper: memory, control flow, forking and merging, calls, exceptions.
#include "engine.h"
#include <llvm/IR/IntrinsicInst.h>
#include <algorithm>
#include <cmath>
using namespace llvm;

static u64 gMid = 1, gLastMid = 0, gLastEpoch = 0;   // whose values the evaluation memo holds
u64 evM(State& s, E e) { if (s.mid != gLastMid || gLastEpoch != evalEpochNow()) { evalEpoch(); gLastMid = s.mid; gLastEpoch = evalEpochNow(); } return evalExpr(e, s.model); }
static double evMD(State& s, D d) { if (s.mid != gLastMid || gLastEpoch != evalEpochNow()) { evalEpoch(); gLastMid = s.mid; gLastEpoch = evalEpochNow(); } return evalD(d, s.model); }
static void setModel(State& s, Model&& m) { s.model = std::move(m); s.mid = ++gMid; }

void Engine::tick() {
  if (steps - lastCheck < 20000) return;
  lastCheck = steps;
  double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (t > cfg.maxSeconds) { incomplete = "time budget exhausted"; stopAll = true; }
  else if (steps > cfg.maxSteps) { incomplete = "step budget exhausted"; stopAll = true; }
}

std::string Engine::where(State& s) {
  auto& f = s.fr();
  for (size_t i = f.size(); i-- > 0;) {
    auto& fr = *f[i];
    auto& b = fr.f->bl[fr.blk];
    if (fr.ip < b.in.size()) if (auto& dl = b.in[fr.ip].I->getDebugLoc()) { if (auto* sc = dl.get()) {
      const DILocation* l = sc;
      for (; l; l = l->getInlinedAt()) { std::string file = l->getFilename().str(); if (!file.empty() && file[0] != '/') file = l->getDirectory().str() + "/" + file;
        if (file.compare(0, cfg.repo.size(), cfg.repo) == 0) return file + ":" + std::to_string(l->getLine()); } } }
  }
  return f.empty() ? "?" : f.back()->f->name;
}
std::string Engine::stack(State& s) { std::string r; auto& f = s.fr(); for (size_t i = f.size(); i-- > 0 && r.size() < 1500;) r += f[i]->f->name + " < "; return r; }

std::map<std::string, long long> Engine::inputs(const State& s, const Model& m) {
  std::map<std::string, long long> r(s.fixedVars);
  for (auto& v : s.vars) { u64 idx = v.second.first->c; r[v.first] = (long long)(idx < m.size() ? m[idx] : gVars[idx].lo) + v.second.second; }
  return r;
}
void Engine::report(State& s, const std::string& kind, const std::string& msg, const Model* m) {
  ensure(s);
  Violation v; v.kind = kind; v.msg = msg; v.where = where(s);
  std::string key = kind + "|" + msg + "|" + v.where;
  const Model& mm = m ? *m : s.model;
  v.vars = inputs(s, mm);
  if (getenv("SX_TRACE_VIOL")) fprintf(stderr, "violation %s: %s at %s\n  %s\n", kind.c_str(), msg.c_str(), v.where.c_str(), stack(s).c_str());
  if (violKeys.insert(key).second) viol.push_back(v);
  if ((int)viol.size() >= cfg.maxViol) stopAll = true;
}

// a speculated path condition is decided as soon as anything depends on it
void Engine::ensure(State& s) {
  if (s.spec < 0) return;
  std::vector<E> pre(s.pc.begin(), s.pc.begin() + s.spec); E c = mkBool(true);
  for (size_t i = s.spec; i < s.pc.size(); i++) c = mkAnd(c, s.pc[i]);
  s.spec = -1; s.specDepth = 0;
  std::vector<E> full; full.swap(s.pc); s.pc = pre;
  Model m; bool ok = feasible(s, c, &m);
  s.pc.swap(full);
  if (!ok) throw PathEnd();
  setModel(s, std::move(m));
}
bool Engine::feasible(State& s, E cond, Model* out) {
  ensure(s);
  if (isTrue(cond)) { if (out) *out = s.model; return true; }
  if (isFalse(cond)) return false;
  if (evM(s, cond)) { sol.st.modelHits++; if (out) *out = s.model; return true; }
  Model m;
  static bool slow = getenv("SX_SLOW"); double before = sol.st.seconds;
  Res r = sol.check(s.pc, cond, s.model, &m);
  if (slow && sol.st.seconds - before > 1) fprintf(stderr, "slow query %.1fs -> %d at %s\n  %s\n", sol.st.seconds - before, (int)r, stack(s).c_str(), exprStr(cond, 4).c_str());
  if (r == Res::Unknown) throw Incomplete("solver gave up on a query");
  if (r == Res::Unsat) return false;
  evalEpoch(); gLastMid = 0;
  if (!evalExpr(cond, m)) throw Incomplete("solver model does not satisfy the query it answers");
  for (E p : s.pc) if (!evalExpr(p, m)) throw Incomplete("solver model does not satisfy the path condition");
  if (out) *out = std::move(m);
  return true;
}
void Engine::assume(State& s, E c) {
  if (isTrue(c)) return;
  if (isFalse(c)) throw PathEnd();
  ensure(s);
  if (!evM(s, c)) { Model m; if (!feasible(s, c, &m)) throw PathEnd(); setModel(s, std::move(m)); }
  if (c->k == K::And && c->w == 1) { s.pc.push_back(c->a[0]); s.pc.push_back(c->a[1]); }
  else s.pc.push_back(c);
}

D Engine::asD(const Val& v) {
  if (v.t == VT::Dbl) return v.d();
  if (v.t == VT::Int) { if (v.um) throw Unsupported("partly undefined bits read as double"); if (v.conc()) return D(bitsDbl(v.c)); return dFromBits(v.e()); }
  throw Unsupported("double expected");
}
E Engine::asE(const Val& v, unsigned w) {
  if (v.t == VT::Int) { E e = v.e(); return e->w == w ? e : e->w < w ? mkZExt(e, w) : mkExtract(e, 0, w); }
  if (v.t == VT::Dbl) { if (v.conc()) return mkConst(v.c, 64); return mkDBits(v.d().n); }
  throw Unsupported("integer expected");
}
Val Engine::iteVal(E c, const Val& a, const Val& b) {
  if (isC(c)) return c->c ? a : b;
  if (a.same(b)) return a;
  if (a.t == VT::Undef) return b;
  if (b.t == VT::Undef) return a;
  if (a.t == VT::Agg && b.t == VT::Agg) { auto* g = new Agg(); for (size_t i = 0; i < a.agg()->v.size(); i++) g->v.push_back(iteVal(c, a.agg()->v[i], b.agg()->v[i])); return Val::A(g); }
  if (a.t == VT::Dbl || b.t == VT::Dbl) return Val::Dv(dIte(c, asD(a), asD(b)));
  if (a.um != b.um) { if (a.um == maskw((a.w + 7) / 8)) return b; }
  Val r = Val::X(mkIte(c, a.e(), b.e())); r.um = a.um | b.um; return r;
}

// ---------------------------------------------------------------- memory
void Engine::clearSym(Obj* o, u32 off, unsigned size) {
  if (o->sym.empty()) return;
  auto it = o->sym.lower_bound(off >= 8 ? off - 8 : 0);
  while (it != o->sym.end() && it->first < off + size) {
    if (it->first + it->second.size <= off) { ++it; continue; }
    if (it->first >= off && it->first + it->second.size <= off + size) { it = o->sym.erase(it); continue; }
    // partial overlap: split into byte cells
    SymCell c = it->second; u32 p = it->first;
    it = o->sym.erase(it);
    E e = asE(c.v, c.size * 8);
    for (unsigned i = 0; i < c.size; i++) if (p + i < off || p + i >= off + size) { Val b = Val::X(mkExtract(e, i * 8, 8)); if (b.conc()) { o->bytes[p + i] = b.c; o->init[p + i] = 1; o->tag[p + i] = 1; } else { o->sym[p + i] = SymCell{b, 1}; o->tag[p + i] = 1; } }
    it = o->sym.lower_bound(off);
  }
}
static void fixTags(Obj* o, u32 off, unsigned size) {   // break cells that straddle the borders of [off, off+size)
  u32 p = off;
  while (p > 0 && o->tag[p] == 0) p--;
  if (p < off) for (u32 q = p; q < off; q++) o->tag[q] = 1;
  u32 e = off + size;
  while (e < o->size && o->tag[e] == 0) { o->tag[e] = 1; e++; }
}
void Engine::objStore(Obj* o, u32 off, const Val& v, unsigned size) {
  clearSym(o, off, size); fixTags(o, off, size);
  bool dbl = v.t == VT::Dbl;
  for (unsigned i = 0; i < size; i++) o->tag[off + i] = 0;
  o->tag[off] = size | (dbl ? 0x80 : 0);
  if (v.t == VT::Undef) { for (unsigned i = 0; i < size; i++) { o->init[off + i] = 0; o->tag[off + i] = 1; } return; }
  if (v.conc()) {
    u64 c = v.c;
    if (dbl && size == 4) { float f = (float)bitsDbl(c); u32 b; memcpy(&b, &f, 4); c = b; }
    for (unsigned i = 0; i < size; i++) { o->bytes[off + i] = i < 8 ? (u8)(c >> (8 * i)) : 0; o->init[off + i] = !((v.um >> i) & 1); }
    if (v.um) for (unsigned i = 0; i < size; i++) o->tag[off + i] = 1;
    return;
  }
  if (v.um) { // partly undefined symbolic value: store bytewise
    E e = asE(v, size * 8);
    for (unsigned i = 0; i < size; i++) { o->tag[off + i] = 1; if ((v.um >> i) & 1) { o->init[off + i] = 0; continue; } Val b = Val::X(mkExtract(e, i * 8, 8)); o->init[off + i] = 1; if (b.conc()) o->bytes[off + i] = b.c; else o->sym[off + i] = SymCell{b, 1}; }
    return;
  }
  Val w = v;
  if (!dbl && v.w < size * 8) w = Val::X(mkZExt(v.e(), size * 8));
  for (unsigned i = 0; i < size; i++) o->init[off + i] = 1;
  o->sym[off] = SymCell{w, (u8)size};
}
Val Engine::objLoad(const Obj* o, u32 off, unsigned size, bool isDbl, unsigned w) {
  bool any = false;
  if (!o->sym.empty()) {
    auto it = o->sym.find(off);
    if (it != o->sym.end() && it->second.size == size) {
      const Val& v = it->second.v;
      if (isDbl) return v.t == VT::Dbl ? v : Val::Dv(asD(v));
      if (v.t == VT::Dbl) { if (size != 8) throw Unsupported("float read as integer"); return Val::X(asE(v, 64)); }
      if (w < v.w) return Val::X(mkExtract(v.e(), 0, w));
      return v;
    }
    auto lo = o->sym.lower_bound(off >= 8 ? off - 8 : 0);
    for (; lo != o->sym.end() && lo->first < off + size; ++lo) if (lo->first + lo->second.size > off) any = true;
  }
  unsigned um = 0;
  for (unsigned i = 0; i < size; i++) if (!o->init[off + i]) um |= 1u << i;
  if (um == (size >= 8 ? 0xffu : (1u << size) - 1)) { Val v; v.w = w; return v; }
  if (size > 8) throw Unsupported("wide load");
  if (!any) {
    u64 c = 0; for (unsigned i = 0; i < size; i++) c |= (u64)o->bytes[off + i] << (8 * i);
    if (isDbl) { if (um) return Val(); if (size == 4) { u32 b = c; float f; memcpy(&f, &b, 4); return Val::Dv(D((double)f)); } return Val::Dv(D(bitsDbl(c))); }
    Val v = Val::I(c, w); v.um = um; return v;
  }
  E e = nullptr;
  for (int i = size - 1; i >= 0; i--) {
    E b = nullptr;
    for (auto it = o->sym.lower_bound(off + i >= 8 ? off + i - 8 : 0); it != o->sym.end() && it->first <= off + i; ++it)
      if (it->first + it->second.size > off + i) { b = mkExtract(asE(it->second.v, it->second.size * 8), (off + i - it->first) * 8, 8); }
    if (!b) b = mkConst(o->bytes[off + i], 8);
    e = e ? mkConcat(e, b) : b;
  }
  if (isDbl) { if (um) return Val(); if (size != 8) throw Unsupported("float assembled from bytes"); return Val::Dv(dFromBits(e)); }
  if (w < e->w) e = mkExtract(e, 0, w);
  Val v = Val::X(e); v.um = um; return v;
}

Obj* Engine::checkAccess(State& s, u64 a, u64 size, bool write, u32& off, bool soft, std::string* err) {
  u32 id = Memory::idOf(a); off = Memory::offOf(a);
  std::string e;
  Obj* o = id == 0xffffffffu ? nullptr : s.mem.get(id);
  if (!o) {
    if (a < 4096) e = "null pointer access";
    else if (off > (1u << (ADDR_SHIFT - 1)) && id != 0xffffffffu) e = "access before an object";
    else e = "wild pointer access";
  }
  else if (!o->alive) e = o->kind == OK::Stack ? "access to a dead stack object" : "use after free";
  else if ((u64)off + size > o->size) e = off > (1u << (ADDR_SHIFT - 1)) ? "out-of-bounds access (before object)" : "out-of-bounds access: offset " + std::to_string(off) + " size " + std::to_string(size) + " object " + std::to_string(o->size);
  else if (o->kind == OK::Func) e = "data access to a function";
  else if (write && o->kind == OK::Const) e = "write to constant memory";
  if (e.empty()) return o;
  if (soft) { if (err) *err = e; return nullptr; }
  fatal(s, "memory", (write ? std::string("write: ") : std::string("read: ")) + e);
}
Val Engine::loadC(State& s, u64 a, unsigned size, bool isDbl, unsigned w) {
  u32 off; Obj* o = checkAccess(s, a, size, false, off);
  if (s.raceOn) race(s, a, size, false);
  return objLoad(o, off, size, isDbl, w);
}
void Engine::storeC(State& s, u64 a, const Val& v, unsigned size) {
  u32 off; checkAccess(s, a, size, true, off);
  if (s.raceOn) race(s, a, size, true);
  if (v.t == VT::Int && v.w > 64) throw Unsupported("wide store");
  objStore(s.mem.own(Memory::idOf(a)), off, v, size);
}
// possible concrete addresses with their conditions; reports any feasible bad one
std::vector<std::pair<u64, E>> Engine::resolve(State& s, const Val& a, u64 size, bool write) {
  E e = a.e();
  std::vector<u64> cand;
  if (!constLeaves(e, cand, 256)) {
    cand.clear(); E seen = mkBool(true); Model m;
    while (feasible(s, seen, &m)) {
      evalEpoch(); gLastMid = 0; u64 v = evalExpr(e, m);
      cand.push_back(v); seen = mkAnd(seen, mkNot(mkEq(e, mkConst(v, 64))));
      if (cand.size() > 64) throw Unsupported("symbolic address with too many targets");
    }
  }
  std::vector<std::pair<u64, E>> out; std::string err, badErr; E bad = mkBool(false);
  for (u64 v : cand) {
    u32 off; E c = mkEq(e, mkConst(v, 64));
    if (isFalse(c)) continue;
    if (checkAccess(s, v, size, write, off, true, &err)) out.push_back({v, c});
    else { bad = mkOr(bad, c); badErr = err; }
  }
  Model m;
  if (!isFalse(bad)) {
    if (feasible(s, bad, &m)) { report(s, "memory", (write ? std::string("write: ") : std::string("read: ")) + badErr, &m); assume(s, mkNot(bad)); }
  }
  if (out.empty()) throw PathEnd();
  return out;
}
// keeps the targets an address can really have on this path
void Engine::prune(State& s, std::vector<std::pair<u64, E>>& r) {
  std::vector<std::pair<u64, E>> k; Model m;
  for (auto& x : r) if (feasible(s, x.second, &m)) k.push_back(x);
  r.swap(k);
  if (r.empty()) throw PathEnd();
}
Val Engine::load(State& s, const Val& addr, Type* t) {
  if (addr.t != VT::Int || addr.um) fatal(s, "memory", "read through an uninitialised pointer");
  if (auto* st = dyn_cast<StructType>(t)) { auto* g = new Agg(); auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Val a2 = addr; if (a2.conc()) a2.c += sl->getElementOffset(i); else a2 = Val::X(mkBin(K::Add, addr.e(), mkConst(sl->getElementOffset(i), 64))); g->v.push_back(load(s, a2, st->getElementType(i))); } return Val::A(g); }
  unsigned size = sizeOf(t), w = widthOf(t); bool dbl = t->isFloatingPointTy();
  if (!w) throw Unsupported("load of unusual type");
  if (addr.conc()) return loadC(s, addr.c, size, dbl, w);
  auto r = resolve(s, addr, size, false);
  for (bool pruned = false;; pruned = true) {
    try {
      Val v; bool first = true;
      for (size_t i = r.size(); i-- > 0;) {
        Val x = loadC(s, r[i].first, size, dbl, w);
        if (x.t == VT::Undef) { Model m; if (feasible(s, r[i].second, &m)) { Val u; u.w = w; if (r.size() == 1) return u; report(s, "uninit", "symbolic read may hit uninitialised memory", &m); } continue; }
        if (first) { v = x; first = false; } else v = iteVal(r[i].second, x, v);
      }
      return v;
    } catch (Unsupported&) { if (pruned) throw; prune(s, r); }
  }
}
void Engine::store(State& s, const Val& addr, const Val& v, unsigned size) {
  if (addr.t != VT::Int || addr.um) fatal(s, "memory", "write through an uninitialised pointer");
  if (v.t == VT::Agg) {
    throw Unsupported("aggregate store");
  }
  if (addr.conc()) { storeC(s, addr.c, v, size); return; }
  auto r = resolve(s, addr, size, true);
  prune(s, r);
  bool dbl = v.t == VT::Dbl;
  for (auto& x : r) { Val old = loadC(s, x.first, size, dbl, dbl ? 64 : v.w); Val nv = r.size() == 1 ? v : iteVal(x.second, v, old); storeC(s, x.first, nv, size); }
}
void Engine::memCopy(State& s, u64 d, u64 src, u64 n) {
  if (!n) return;
  u32 so, dof; checkAccess(s, src, n, false, so); checkAccess(s, d, n, true, dof);
  if (s.raceOn) { race(s, src, n, false); race(s, d, n, true); }
  Obj tmp = *s.mem.get(Memory::idOf(src));
  fixTags(&tmp, so, n);
  { // break symbolic cells at the borders of the source region
    std::vector<std::pair<u32, SymCell>> cells;
    for (auto& c : tmp.sym) if (c.first < so + n && c.first + c.second.size > so) {
      if (c.first >= so && c.first + c.second.size <= so + n) cells.push_back(c);
      else { E e = asE(c.second.v, c.second.size * 8); for (unsigned i = 0; i < c.second.size; i++) if (c.first + i >= so && c.first + i < so + n) cells.push_back({c.first + i, SymCell{Val::X(mkExtract(e, i * 8, 8)), 1}}); }
    }
    Obj* o = s.mem.own(Memory::idOf(d));
    clearSym(o, dof, n); fixTags(o, dof, n);
    for (u64 i = 0; i < n; i++) { o->bytes[dof + i] = tmp.bytes[so + i]; o->init[dof + i] = tmp.init[so + i]; o->tag[dof + i] = tmp.tag[so + i]; }
    for (auto& c : cells) o->sym[c.first - so + dof] = c.second;
  }
}
void Engine::memSet(State& s, u64 d, const Val& v, u64 n) {
  if (!n) return;
  u32 off; checkAccess(s, d, n, true, off);
  if (s.raceOn) race(s, d, n, true);
  Obj* o = s.mem.own(Memory::idOf(d));
  if (v.t == VT::Int && v.conc()) { clearSym(o, off, n); fixTags(o, off, n); for (u64 i = 0; i < n; i++) { o->bytes[off + i] = v.c; o->init[off + i] = 1; o->tag[off + i] = 1; } }
  else for (u64 i = 0; i < n; i++) objStore(o, off + i, v.t == VT::Int ? Val::X(mkExtract(v.e(), 0, 8)) : v, 1);
}
u64 Engine::doAlloc(State& s, u64 n, OK k) {
  s.mem.tcur = s.cur; u32 id = s.mem.alloc(n, k, 0);
  if (k != OK::Stack && k != OK::Exc) { s.heapLive++; s.heapBytes += n; }
  return Memory::addr(id);
}
void Engine::doFree(State& s, u64 a, OK k, bool) {
  if (!a) return;
  u32 id = Memory::idOf(a); Obj* o = id == 0xffffffffu ? nullptr : s.mem.get(id);
  if (!o || Memory::offOf(a) != 0 || (o->kind != OK::Malloc && o->kind != OK::New && o->kind != OK::NewArr)) fatal(s, "memory", "free of a pointer that was not allocated");
  if (!o->alive) fatal(s, "memory", "double free");
  if (o->kind != k) fatal(s, "memory", "allocation and deallocation functions do not match");
  if (s.raceOn) race(s, a, o->size, true);
  s.heapLive--; s.heapBytes -= o->size;
  Obj* w = s.mem.own(id); w->alive = false; w->bytes.clear(); w->init.clear(); w->tag.clear(); w->sym.clear();
}
std::string Engine::cstr(State& s, u64 a) {
  std::string r;
  for (;; a++) { u32 off; Obj* o = checkAccess(s, a, 1, false, off); Val v = objLoad(o, off, 1, false, 8); if (v.t != VT::Int || !v.conc()) throw Unsupported("symbolic C string"); if (!v.c) break; r += (char)v.c; if (r.size() > 4096) break; }
  return r;
}

// ---------------------------------------------------------------- frames and control
void Engine::pushFrame(State& s, DFunc* f, const std::vector<Val>& args, const CallBase* cb) {
  if (f->F->isDeclaration()) throw Unsupported("call to undefined function " + f->name);
  if (s.fr().size() > 400) fatal(s, "hang", "call stack too deep");
  decode(f);
  f->executed = true; f->calls++;
  Frame* fr = new Frame(); fr->f = f; fr->regs.resize(f->nslots);
  if (args.size() < f->F->arg_size()) throw Unsupported("call with too few arguments to " + f->name);
  for (unsigned i = 0; i < f->F->arg_size(); i++) {
    fr->regs[i] = args[i];
    if (f->F->hasParamAttribute(i, Attribute::ByVal)) {
      u64 sz = DL.getTypeAllocSize(f->F->getParamByValType(i)).getFixedValue();
      u64 n = doAlloc(s, sz, OK::Stack); fr->allocas.push_back(Memory::idOf(n));
      if (!args[i].conc()) throw Unsupported("symbolic byval pointer");
      memCopy(s, n, args[i].c, sz); fr->regs[i] = Val::I(n, 64);
    }
  }
  if (f->F->isVarArg()) {     // laid out as the calling convention has it: six integer registers, eight for numbers, the rest in a row
    u64 na = f->F->arg_size(), extra = args.size() - na, gp = 0, fp = 48, ov = 176;
    fr->va = doAlloc(s, 176 + 8 * extra, OK::Stack); fr->allocas.push_back(Memory::idOf(fr->va));
    for (u64 i = na; i < args.size(); i++) {
      const Val& v = args[i]; bool d = v.t == VT::Dbl; u64 at;
      if (d && fp < 176) { at = fp; fp += 16; } else if (!d && gp < 48) { at = gp; gp += 8; } else { at = ov; ov += 8; }
      storeC(s, fr->va + at, v, d ? 8 : v.t == VT::Int && v.w < 64 ? v.w / 8 : 8);
    }
  }
  (void)cb;
  fr->inDbl = (!s.fr().empty() && s.fr().back()->inDbl) || f->F->getReturnType()->isDoubleTy();
  s.fr().push_back(Ref<Frame>(fr));
}
static void popFrame(State& s) {
  Frame& f = *s.fr().back();
  for (u32 a : f.allocas) { Obj* o = s.mem.own(a); o->alive = false; o->bytes.clear(); o->init.clear(); o->tag.clear(); o->sym.clear(); }
  s.fr().pop_back();
}
void Engine::jump(State& s, int blk) {
  Frame& f = top(s);
  int pred = f.blk;
  auto& ph = f.f->bl[blk].phis;
  if (!ph.empty()) {
    for (auto& p : ph) if (p.first == pred) {
      if (p.second.size() == 1) { Val v = p.second[0].second.isC ? p.second[0].second.c : f.regs[p.second[0].second.slot]; f.regs[p.second[0].first] = v; }
      else { std::vector<Val> vs; vs.reserve(p.second.size()); for (auto& x : p.second) vs.push_back(x.second.isC ? x.second.c : f.regs[x.second.slot]); for (size_t i = 0; i < vs.size(); i++) f.regs[p.second[i].first] = vs[i]; }
      break;
    }
  }
  f.blk = blk; f.ip = 0; f.pred = pred;
}
R Engine::callDone(State& s, const DInst& I, const Val& v) {
  Frame& f = top(s);
  if (I.dst != ~0u) f.regs[I.dst] = v;
  if (I.op == Instruction::Invoke) { jump(s, I.succ[0]); return R::Jumped; }
  f.ip++;
  return R::Jumped;
}
R Engine::doRet(State& s, const Val& v, bool) {
  bool silent = s.fr().back()->silent;
  popFrame(s);
  if (s.fr().empty()) return R::Jumped;
  if (silent) return R::Jumped;
  Frame& f = *s.fr().back();
  const DInst& I = f.f->bl[f.blk].in[f.ip];
  return callDone(s, I, v);
}

bool Engine::pureInst(DFunc* f, const DInst& I, int depth) {
  (void)f;
  switch (I.op) {
    case Instruction::Alloca: case Instruction::Invoke: case Instruction::Resume: case Instruction::Unreachable: case Instruction::LandingPad: case Instruction::Switch:
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::Fence: return false;
    case Instruction::Call:
      if (I.intrin) return I.intrin != Intrinsic::trap && I.intrin != Intrinsic::memcpy && I.intrin != Intrinsic::memmove && I.intrin != Intrinsic::memset;
      if (I.builtin >= 0) { static const std::set<std::string> ok = {"sqrt", "pow", "fabs", "floor", "ceil", "fmin", "fmax", "round", "trunc", "abs", "labs"}; auto* c = dyn_cast<CallBase>(I.I); return c && c->getCalledFunction() && ok.count(c->getCalledFunction()->getName().str()); }
      return I.callee && depth < 5 && pureFn(I.callee, depth + 1);
    default: return true;
  }
}
bool Engine::pureFn(DFunc* f, int depth) {
  if (f->F->isDeclaration()) return false;
  if (f->pure >= 0) return f->pure;
  f->pure = 0; decode(f);
  if (f->bl.size() != 1) return false;
  for (auto& I : f->bl[0].in) if (!pureInst(f, I, depth)) return false;
  return f->pure = 1;
}
// everything between a branch and the block where its sides meet: few blocks, no cycles, no calls with effects
bool Engine::pureRegion(DFunc* f, int blk, int join) {
  std::map<int, int> col; int n = 0;
  std::function<bool(int)> go = [&](int b) -> bool {
    if (b == join) return true;
    auto it = col.find(b); if (it != col.end()) return it->second == 2;
    if (b == blk || ++n > 10) return false;
    col[b] = 1;
    if (f->bl[b].in.size() > 60) return false;
    for (auto& I : f->bl[b].in) if (!pureInst(f, I, 0)) return false;
    for (int x : f->bl[b].in.back().succ) if (!go(x)) return false;
    col[b] = 2; return true; };
  for (int x : f->bl[blk].in.back().succ) if (!go(x)) return false;
  return true;
}

R Engine::branch(State& s, const DInst& I, E cond, int t, int f) {
  if (isC(cond)) { jump(s, cond->c ? t : f); return R::Jumped; }
  {
    Frame& fr = *s.fr().back(); DBlock& db = fr.f->bl[fr.blk];
    if (s.mergeMode && s.th.size() == 1 && db.ipdom != -2 && s.specDepth < 5 && I.op == Instruction::Br) {
      if (db.pure < 0) db.pure = pureRegion(fr.f, fr.blk, db.ipdom);
      if (db.pure) {
        // both sides are short and harmless: follow them without asking, they meet again at once
        bool known = s.spec < 0; bool side = known ? evM(s, cond) : true;
        forks++;
        SP a(new State(s)), b(new State(s));
        a->pc.push_back(side ? cond : mkNot(cond)); b->pc.push_back(side ? mkNot(cond) : cond);
        if (known) { b->spec = s.pc.size(); b->specDepth = 1; } else a->specDepth++, b->specDepth++;
        if (!I.ops.empty() && !I.ops[0].isC) { top(*a).regs[I.ops[0].slot] = Val::I(side, 1); top(*b).regs[I.ops[0].slot] = Val::I(!side, 1); }
        jump(*a, side ? t : f); jump(*b, side ? f : t);
        forkMerge = true; forkStop = Stop{s.cur, s.fr().size(), db.ipdom};
        forkOut.clear(); forkOut.push_back({std::move(a), false}); forkOut.push_back({std::move(b), false});
        return R::Fork;
      }
    }
  }
  ensure(s);
  bool side = evM(s, cond);
  E other = side ? mkNot(cond) : cond;
  Model m;
  if (!feasible(s, other, &m)) { jump(s, side ? t : f); return R::Jumped; }
  forks++;
  if (cfg.stats) forkSites[where(s) + " " + s.fr().back()->f->name.substr(0, 60)]++;
  SP a(new State(s)), b(new State(s));
  // a: side of the current model, b: the other one
  a->pc.push_back(side ? cond : mkNot(cond));
  b->pc.push_back(other); setModel(*b, std::move(m));
  if (!I.ops.empty() && !I.ops[0].isC && I.op == Instruction::Br) { top(*a).regs[I.ops[0].slot] = Val::I(side, 1); top(*b).regs[I.ops[0].slot] = Val::I(!side, 1); }
  Frame& fr = *s.fr().back();
  int ip = fr.f->bl[fr.blk].ipdom;
  jump(*a, side ? t : f); jump(*b, side ? f : t);
  forkMerge = ip != -2 && s.mergeMode && s.th.size() == 1;
  forkStop = Stop{s.cur, s.fr().size(), ip};
  forkOut.clear(); forkOut.push_back({std::move(a), false}); forkOut.push_back({std::move(b), false});
  return R::Fork;
}
// an operand is needed as a concrete number: either it is one, or fork over its values (replacing the register)
bool Engine::concretize(State& s, const Opnd& o, u64& out) {
  Val v = get(s, o);
  if (v.t == VT::Undef || (v.t == VT::Int && v.um)) fatal(s, "uninit", "uninitialised value used as a size or index");
  if (v.t == VT::Dbl) throw Unsupported("double used as an integer argument");
  if (v.conc()) { out = v.c; return true; }
  E e = v.e(); E seen = mkBool(true); Model m; std::vector<std::pair<u64, Model>> vals;
  while (feasible(s, seen, &m)) {
    evalEpoch(); gLastMid = 0; u64 x = evalExpr(e, m);
    vals.push_back({x, m}); seen = mkAnd(seen, mkNot(mkEq(e, mkConst(x, e->w))));
    if (vals.size() > 600) throw Unsupported("too many values to split on");
  }
  forks += vals.size() - 1;
  forkOut.clear(); forkMerge = false;
  std::sort(vals.begin(), vals.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& x : vals) {
    SP c(new State(s)); E q = mkEq(e, mkConst(x.first, e->w)); if (!isTrue(q)) c->pc.push_back(q); setModel(*c, std::move(x.second));
    top(*c).regs[o.slot] = Val::I(x.first, e->w); forkOut.push_back({std::move(c), false});
  }
  return false;
}

// ---------------------------------------------------------------- exceptions
u32 Engine::typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; u32 n = typeIds.size() + 1; typeIds[ti] = n; return n; }
bool Engine::typeMatches(State& s, u64 thrown, u64 caught) {
  if (!caught || thrown == caught) return true;
  auto word = [&](u64 a) -> u64 { u32 off; Obj* o = checkAccess(s, a, 8, false, off, true); if (!o) return 0; Val v = objLoad(o, off, 8, false, 64); return v.t == VT::Int && v.conc() ? v.c : 0; };
  u64 n1 = word(thrown + 8), n2 = word(caught + 8);
  if (n1 && n2 && (n1 == n2 || cstr(s, n1) == cstr(s, n2))) return true;
  u64 vt = word(thrown);
  auto isKind = [&](const char* nm) { auto it = externGlobals.find(nm); return it != externGlobals.end() && (vt & ~0xffull & ~((1ull << ADDR_SHIFT) - 1)) == gaddr[it->second]; };
  if (isKind("_ZTVN10__cxxabiv120__si_class_type_infoE")) return typeMatches(s, word(thrown + 16), caught);
  if (isKind("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) {
    u64 cnt = word(thrown + 16) >> 32;
    for (u64 i = 0; i < cnt && i < 16; i++) if (typeMatches(s, word(thrown + 24 + 16 * i), caught)) return true;
  }
  return false;
}
R Engine::throwExc(State& s, u64 obj) { ensure(s); return unwind(s, obj); }
R Engine::unwind(State& s, u64 obj) {
  u64 ti = s.exc[obj].tinfo;
  std::string at = where(s);
  while (!s.fr().empty()) {
    Frame& f = *s.fr().back();
    const DInst* I = f.ip < f.f->bl[f.blk].in.size() ? &f.f->bl[f.blk].in[f.ip] : nullptr;
    if (I && I->op == Instruction::Invoke) {
      const LandingPadInst* lp = cast<InvokeInst>(I->I)->getUnwindDest()->getLandingPadInst();
      bool go = lp->isCleanup(); u32 sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (!lp->isCatch(i)) { go = true; continue; }
        const Constant* c = lp->getClause(i);
        Val cv = constVal(c);
        if (typeMatches(s, ti, cv.c)) { go = true; sel = typeId(cv.c); break; }
      }
      if (go) {
        int dest = I->succ[1];
        auto* g = new Agg(); g->v.push_back(Val::I(obj, 64)); g->v.push_back(Val::I(sel, 32));
        top(s).excVal = Val::A(g);
        jump(s, dest);
        return R::Jumped;
      }
    }
    if (s.fr().size() == 1) { report(s, "uncaught", "exception escapes: " + [&] { std::string n; u32 off; if (checkAccess(s, ti + 8, 8, false, off, true)) { Val v = loadC(s, ti + 8, 8, false, 64); if (v.conc()) n = cstr(s, v.c); } return n; }() + " thrown at " + at); throw PathEnd(); }
    popFrame(s);
  }
  throw PathEnd();
}

// ---------------------------------------------------------------- merging
bool Engine::stopHit(State& s, const Stop& st) {
  size_t d = s.fr().size();
  if (st.block == -1) return d < st.depth;
  return d == st.depth && s.fr().back()->blk == st.block && s.fr().back()->ip == 0;
}
static const std::vector<u64>& liveAt(DFunc* f, int blk, u32 ip) {
  static std::map<std::pair<const void*, u32>, std::vector<u64>> cache;
  DBlock& b = f->bl[blk];
  if (ip == 0) return b.live;
  auto key = std::make_pair((const void*)&b, ip);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  size_t words = b.live.size(); std::vector<u64> l(words, 0);
  auto bit = [](std::vector<u64>& v, u32 s, bool on) { if (on) v[s >> 6] |= 1ull << (s & 63); else v[s >> 6] &= ~(1ull << (s & 63)); };
  int bi = blk; auto& t = b.in.back();
  for (int sx : t.succ) { std::vector<u64> x = f->bl[sx].live; for (auto& ph : f->bl[sx].phis) for (auto& pr : ph.second) bit(x, pr.first, false); for (auto& ph : f->bl[sx].phis) if (ph.first == bi) for (auto& pr : ph.second) if (!pr.second.isC) bit(x, pr.second.slot, true); for (size_t i = 0; i < words; i++) l[i] |= x[i]; }
  for (int k = (int)b.in.size() - 1; k >= (int)ip; k--) { auto& d = b.in[k]; if (d.dst != ~0u) bit(l, d.dst, false); for (auto& o : d.ops) if (!o.isC) bit(l, o.slot, true); for (auto& g : d.gep) if (!g.o.isC) bit(l, g.o.slot, true); }
  return cache[key] = l;
}
static bool ptrLike(const Val& v) { return v.t == VT::Int && v.w == 64 && (v.conc() ? v.c >= (ADDR_BASE << ADDR_SHIFT) && v.c < (1ull << 60) : v.e()->hi >= (ADDR_BASE << ADDR_SHIFT)); }
// 8: everything may be joined inside functions that compute a double; 16: heap use and undefined bytes may differ
static int modeOf(const State& s) { int m = s.mergeMode; if ((m & 8) && !s.th[0].fr.empty() && s.th[0].fr.back()->inDbl) m |= 7; return m; }
static bool canMerge(const Val& a, const Val& b, int mode, const char** why) {
  if (a.same(b)) return true;
  if (a.t == VT::Agg || b.t == VT::Agg) { if (a.t != b.t || a.agg()->v.size() != b.agg()->v.size()) { *why = "aggregate"; return false; } for (size_t i = 0; i < a.agg()->v.size(); i++) if (!canMerge(a.agg()->v[i], b.agg()->v[i], mode, why)) return false; return true; }
  if (a.t == VT::Undef || b.t == VT::Undef) { if (mode & 16) return true; *why = "undef"; return false; }
  if (a.t == VT::Dbl || b.t == VT::Dbl) { if (mode & 1) return true; *why = "double"; return false; }
  if (a.um != b.um && !(mode & 16)) { *why = "undef bytes"; return false; }
  if ((a.um && a.um == maskw((a.w + 7) / 8)) || (b.um && b.um == maskw((b.w + 7) / 8))) return (mode & 16) || a.um == b.um;
  if (a.um || b.um) { *why = "undef bytes"; return false; }
  if (ptrLike(a) || ptrLike(b)) { if (mode & 4) return true; *why = "pointer"; return false; }
  if (a.w == 1) return true;
  if (mode & 2) return true;
  *why = "int"; return false;
}
bool Engine::mergeMem(State& a, State& b, E g) {
  const char* why = ""; const int mode = modeOf(a);
  // first pass: check, second pass: apply
  struct Todo { u32 id; u32 off; unsigned size; Val va, vb; };
  std::vector<Todo> todo; std::vector<u32> fromB;
  u32 n = std::max(a.mem.n, b.mem.n);
  for (u32 id = 0; id < n; id++) {
    if ((id & 63) == 0 && (id >> 6) < a.mem.ch.size() && (id >> 6) < b.mem.ch.size() && a.mem.ch[id >> 6].p == b.mem.ch[id >> 6].p && id + 64 <= std::min(a.mem.n, b.mem.n)) { id += 63; continue; }
    Obj *x = a.mem.get(id), *y = b.mem.get(id);
    if (x == y) continue;
    bool ax = x && x->alive, ay = y && y->alive;
    if (!ax && !ay) continue;
    if (ax != ay) { if (!(mode & 16)) { mergeWhy["object alive on one side"]++; return false; } if (ay) fromB.push_back(id); continue; }
    if (x->size != y->size || x->kind != y->kind) { mergeWhy["object shape"]++; return false; }
    u32 p = 0;
    while (p < x->size) {
      bool sx = x->sym.count(p), sy = y->sym.count(p);
      if (!sx && !sy && x->bytes[p] == y->bytes[p] && x->init[p] == y->init[p]) { p++; continue; }
      // cell containing p
      u32 q = p;
      while (q > 0 && ((x->tag[q] & 0x7f) == 0 || (y->tag[q] & 0x7f) == 0) && p - q < 8) q--;
      unsigned cs = std::max(x->tag[q] & 0x7f, y->tag[q] & 0x7f);
      if (sx) cs = std::max<unsigned>(cs, x->sym[p].size);
      if (sy) cs = std::max<unsigned>(cs, y->sym[p].size);
      bool dbl = (x->tag[q] & 0x80) || (y->tag[q] & 0x80);
      if (cs == 0 || q + cs > x->size || q + cs <= p) { q = p; cs = 1; dbl = false; }
      if (dbl) {
        bool bad = false; for (unsigned i = 0; i < cs; i++) if (x->init[q + i] != y->init[q + i]) bad = true;
        if (bad && cs == 8 && !(mode & 16)) { mergeWhy["uninit double"]++; return false; }
      }
      Val va = objLoad(x, q, cs, dbl, cs * 8), vb = objLoad(y, q, cs, dbl, cs * 8);
      if (!va.same(vb)) {
        if (!canMerge(va, vb, mode, &why)) { mergeWhy[std::string("memory: ") + why]++; return false; }
        todo.push_back({id, q, cs, va, vb});
      }
      p = q + cs;
    }
  }
  for (u32 id : fromB) if (id < a.mem.n) a.mem.set(id, b.mem.ch[id >> 6]->o[id & 63]);
  for (auto& t : todo) objStore(a.mem.own(t.id), t.off, iteVal(g, t.va, t.vb), t.size);
  for (u32 id = a.mem.n; id < b.mem.n; id++) if (b.mem.ch[id >> 6]) a.mem.set(id, b.mem.ch[id >> 6]->o[id & 63]);
  // chunk slots present in a but dead in b stay dead
  return true;
}
bool Engine::tryMerge(State& a, State& b) {
  if (a.th.size() != 1 || b.th.size() != 1) return false;
  Thread &ta = a.th[0], &tb = b.th[0];
  if (ta.fr.size() != tb.fr.size() || ta.caught != tb.caught || !(a.exc == b.exc) || a.varCount != b.varCount || a.vars != b.vars || a.mergeMode != b.mergeMode || (!(a.mergeMode & 16) && (a.heapLive != b.heapLive || a.heapBytes != b.heapBytes)) || a.fixedVars != b.fixedVars || a.obs.size() != b.obs.size()) { mergeWhy["state shape"]++; return false; }
  const char* why = ""; const int mode = modeOf(a);
  for (size_t i = 0; i < ta.fr.size(); i++) {
    if (ta.fr[i].p == tb.fr[i].p) continue;
    Frame &x = *ta.fr[i], &y = *tb.fr[i];
    if (x.f != y.f || x.blk != y.blk || x.ip != y.ip || x.allocas != y.allocas) { mergeWhy["position"]++; return false; }
    const auto& lv = liveAt(x.f, x.blk, x.ip);
    for (u32 r = 0; r < x.regs.size(); r++) if ((lv[r >> 6] >> (r & 63)) & 1) if (!canMerge(x.regs[r], y.regs[r], mode, &why)) { mergeWhy[std::string("register: ") + why]++; return false; }
  }
  // path conditions
  size_t p = 0; while (p < a.pc.size() && p < b.pc.size() && a.pc[p] == b.pc[p]) p++;
  if (p == a.pc.size() && p == b.pc.size()) return false;
  auto conj = [](const std::vector<E>& v, size_t from) { E r = mkBool(true); for (size_t i = from; i < v.size(); i++) r = mkAnd(r, v[i]); return r; };
  E g; std::vector<E> npc(a.pc.begin(), a.pc.begin() + p);
  if (p < a.pc.size() && p < b.pc.size() && a.pc[p] == mkNot(b.pc[p])) {
    g = a.pc[p];
    E ca = conj(a.pc, p + 1), cb = conj(b.pc, p + 1);
    E x = mkOr(mkNot(g), ca), y = mkOr(g, cb);
    if (!isTrue(x)) npc.push_back(x);
    if (!isTrue(y)) npc.push_back(y);
  } else {
    g = conj(a.pc, p); E h = conj(b.pc, p);
    E x = mkOr(g, h); if (!isTrue(x)) npc.push_back(x);
  }
  try {
    State backup(a);
    if (!mergeMem(a, b, g)) { return false; }
    try {
      for (size_t i = 0; i < ta.fr.size(); i++) {
        if (ta.fr[i].p == tb.fr[i].p) continue;
        Frame& x = *ta.fr[i].own(); Frame& y = *tb.fr[i];
        const auto& lv = liveAt(x.f, x.blk, x.ip);
        for (u32 r = 0; r < x.regs.size(); r++) { if ((lv[r >> 6] >> (r & 63)) & 1) x.regs[r] = iteVal(g, x.regs[r], y.regs[r]); else x.regs[r] = Val(); }
      }
      for (size_t i = 0; i < a.obs.size(); i++) { if (a.obs[i].first != b.obs[i].first) throw Unsupported("observations differ"); a.obs[i].second = iteVal(g, a.obs[i].second, b.obs[i].second); }
    } catch (Unsupported&) { a = backup; throw; }
  } catch (Unsupported& u) { mergeWhy[std::string("unsupported: ") + u.what()]++; return false; }
  if (a.spec < 0) {}
  else if (b.spec < 0) { a.spec = -1; a.specDepth = 0; a.model = b.model; }
  else { a.spec = std::min<int>(std::min(a.spec, b.spec), p); a.specDepth = std::max(a.specDepth, b.specDepth); }
  a.pc = npc; a.steps = std::max(a.steps, b.steps); a.mid = ++gMid;
  merges++;
  return true;
}
std::vector<SP> Engine::mergeAll(std::vector<SP>& v) {
  std::vector<SP> out;
  if (v.size() > 256) { for (auto& s : v) out.push_back(std::move(s)); return out; }
  for (auto& s : v) {
    bool done = false;
    for (size_t k = out.size(); k-- > 0 && !done && out.size() - k <= 12;) if (tryMerge(*out[k], *s)) done = true;
    if (!done) { if (!out.empty()) mergeFail++; out.push_back(std::move(s)); }
  }
  // a merged state may have become mergeable with another one
  bool ch = out.size() > 1 && out.size() < v.size();
  while (ch) { ch = false; for (size_t i = 0; i < out.size() && !ch; i++) for (size_t j = i + 1; j < out.size() && j < i + 8 && !ch; j++) if (tryMerge(*out[i], *out[j])) { out.erase(out.begin() + j); ch = true; } }
  return out;
}

void Engine::run(SP s0, const Stop* stop, std::vector<SP>& arrived, std::vector<SP>& escaped, int depth) {
  std::vector<SP> work; work.push_back(std::move(s0));
  while (!work.empty() && !stopAll) {
    SP s = std::move(work.back()); work.pop_back();
    for (;;) {
      if (stopAll) return;
      if (stop) {
        if (s->spec >= 0 && s->fr().size() < stop->depth && stop->block != -1) { try { ensure(*s); } catch (PathEnd&) { paths++; break; } catch (Incomplete& u) { incomplete = std::string(u.what()) + " at " + where(*s); stopAll = true; break; } }
        if (s->fr().size() < stop->depth) { (stop->block == -1 ? arrived : escaped).push_back(std::move(s)); break; }
        if (stopHit(*s, *stop)) { arrived.push_back(std::move(s)); break; }
      }
      if (s->fr().empty()) {
        if (s->cur == 0) {
          try { ensure(*s); } catch (PathEnd&) { paths++; break; } catch (Incomplete& u) { incomplete = u.what(); stopAll = true; break; }
          completed++;
          if (samples.size() < cfg.maxSamples && (completed & (completed - 1)) == 0) sample(*s);
          break; }
      }
      R r;
      try { r = step(*s); }
      catch (PathEnd&) { r = R::Dead; }
      catch (Unsupported& u) { std::string m = std::string(u.what()) + " at " + where(*s) + " in " + (s->fr().empty() ? "?" : s->fr().back()->f->name); unsupported.insert(m); incomplete = "unsupported: " + m; if (getenv("SX_TRACE_UNSUP")) fprintf(stderr, "%s\n  %s\n", m.c_str(), stack(*s).c_str()); stopAll = true; r = R::Dead; }
      catch (Incomplete& u) { incomplete = std::string(u.what()) + " at " + where(*s); stopAll = true; r = R::Dead; }
      if (r == R::Dead) { paths++; break; }
      if (r != R::Fork) continue;
      auto kids = std::move(forkOut); forkOut.clear();
      if (forkMerge && depth < 3000) {
        Stop st = forkStop; std::vector<SP> arr, esc;
        for (auto& k : kids) { run(std::move(k.first), &st, arr, esc, depth + 1); if (stopAll) return; }
        for (auto& m : mergeAll(arr)) work.push_back(std::move(m));
        for (auto& e : esc) work.push_back(std::move(e));
      } else for (size_t i = kids.size(); i-- > 0;) work.push_back(std::move(kids[i].first));
      break;
    }
  }
}

// inputs of a completed path with what they make observable: the solver's own model, and models pulled towards random inputs
void Engine::sample(State& s) {
  static u64 rng = cfg.seed * 0x9e3779b97f4a7c15ull + 1;
  auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto add = [&](const Model& m) {
    Sample x; x.in = inputs(s, m);
    for (auto& o : s.obs) { evalEpoch(); gLastMid = 0; x.obs.push_back({o.first, o.second.t == VT::Undef ? NAN : o.second.t == VT::Dbl ? evalD(o.second.d(), m) : (double)sextw(o.second.conc() ? o.second.c : evalExpr(o.second.e(), m), o.second.w)}); }
    samples.push_back(x); };
  add(s.model);
  for (int round = 0; round < 3 && samples.size() < cfg.maxSamples && !s.vars.empty(); round++) {
    Model m = s.model, m2; bool moved = false;
    std::vector<E> vs; for (auto& v : s.vars) vs.push_back(v.second.first);
    State t(s); size_t tries = std::min<size_t>(vs.size(), 6);
    for (size_t k = 0; k < tries; k++) {
      E v = vs[rnd() % vs.size()]; if (v->k != K::Var) continue;
      u64 lo = gVars[v->c].lo, hi = gVars[v->c].hi; E c = mkEq(v, mkConst(lo + rnd() % (hi - lo + 1), v->w));
      if (feasible(t, c, &m2)) { t.pc.push_back(c); setModel(t, Model(m2)); m = m2; moved = true; }
    }
    if (moved) add(m);
  }
}
void Engine::explore(const std::string& entry) {
  t0 = std::chrono::steady_clock::now();
  SP s(new State()); s->mem = mem0; s->th.resize(1); s->th[0].clock.resize(1, 1); s->mid = ++gMid;
  std::vector<std::pair<u64, const Function*>> ctors;
  if (auto* g = M.getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  const Function* F = M.getFunction(entry);
  if (!F) { incomplete = "no entry point " + entry; return; }
  try {
    pushFrame(*s, fn(F), {}, nullptr);
    for (size_t i = ctors.size(); i-- > 0;) if (ctors[i].second) { pushFrame(*s, fn(ctors[i].second), {}, nullptr); s->fr().back()->silent = true; }
  } catch (Unsupported& u) { incomplete = std::string("unsupported: ") + u.what(); unsupported.insert(u.what()); return; }
  std::vector<SP> a, e;
  run(std::move(s), nullptr, a, e, 0);
}
std::vector<std::string> Engine::executedRepoFunctions() const {
  std::vector<std::string> r;
  for (auto* f : funcList) if (f->executed && f->fromRepo) r.push_back(f->name);
  return r;
}

// ---------------------------------------------------------------- instructions
R Engine::step(State& s) {
  if (s.fr().empty()) { // a finished secondary thread
    Thread& t = s.th[s.cur]; t.st = TS::Done; syncRel(s, 0x10000ull + s.cur); return schedule(s, true);
  }
  steps++; s.steps++;
  if (s.steps > cfg.pathSteps) { report(s, "hang", "path executes more than " + std::to_string(cfg.pathSteps) + " instructions"); throw PathEnd(); }
  tick();
  Frame& f = *s.fr().back();
  return exec(s, f.f->bl[f.blk].in[f.ip]);
}

static int cmpKind(unsigned p, bool& swap, bool& neg, K& k) {
  swap = neg = false;
  switch (p) {
    case CmpInst::ICMP_EQ: k = K::Eq; break;
    case CmpInst::ICMP_NE: k = K::Eq; neg = true; break;
    case CmpInst::ICMP_ULT: k = K::Ult; break;
    case CmpInst::ICMP_ULE: k = K::Ule; break;
    case CmpInst::ICMP_UGT: k = K::Ult; swap = true; break;
    case CmpInst::ICMP_UGE: k = K::Ule; swap = true; break;
    case CmpInst::ICMP_SLT: k = K::Slt; break;
    case CmpInst::ICMP_SLE: k = K::Sle; break;
    case CmpInst::ICMP_SGT: k = K::Slt; swap = true; break;
    case CmpInst::ICMP_SGE: k = K::Sle; swap = true; break;
  }
  return 0;
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  i64 x = sextw(a, w), y = sextw(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; default: return x >= y;
  }
}
Val Engine::fpRound(const Val& v, Type* t) { if (!t->isFloatTy()) return v; return Val::Dv(v.conc() ? D((double)(float)bitsDbl(v.c)) : (v.d().n->k == DK::Fix && v.d().n->lo > -(1ll << 24) && v.d().n->hi < (1ll << 24)) ? v.d() : dMap(v.d(), [](double x) { return (double)(float)x; })); }

Val Engine::arith(State& s, const DInst& I, const Val& a, const Val& b) {
  unsigned w = I.w;
  if (w > 64) throw Unsupported("integer wider than 64 bits");
  if (a.t == VT::Undef || b.t == VT::Undef) {
    // x & 0, undef | ... are not worth modelling: undefined in, undefined out (division by undef is an error)
    if (I.op == Instruction::SDiv || I.op == Instruction::UDiv || I.op == Instruction::SRem || I.op == Instruction::URem) fatal(s, "uninit", "division with an uninitialised operand");
    Val r; r.w = w; return r;
  }
  Val x = a, y = b;
  if (x.t == VT::Dbl) x = Val::X(asE(x, 64));
  if (y.t == VT::Dbl) y = Val::X(asE(y, 64));
  u8 um = 0;
  if (x.um | y.um) {
    unsigned nb = (w + 7) / 8;
    if (I.op == Instruction::And && y.conc() && !y.um) { for (unsigned i = 0; i < nb; i++) if ((x.um >> i & 1) && ((y.c >> (8 * i)) & 0xff)) um |= 1 << i; }
    else if (I.op == Instruction::Or || I.op == Instruction::Xor || I.op == Instruction::And) um = x.um | y.um;
    else if ((I.op == Instruction::LShr || I.op == Instruction::AShr) && y.conc() && y.c % 8 == 0) um = x.um >> (y.c / 8);
    else if (I.op == Instruction::Shl && y.conc() && y.c % 8 == 0) um = (x.um << (y.c / 8)) & maskw(nb);
    else { Val r; r.w = w; return r; }
    if (um == maskw(nb)) { Val r; r.w = w; return r; }
  }
  switch (I.op) {
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      if (y.conc()) { if (y.c == 0) fatal(s, "arith", "integer division by zero"); }
      else { E z = mkEq(y.e(), mkConst(0, w)); Model m; if (feasible(s, z, &m)) { report(s, "arith", "integer division by zero", &m); assume(s, mkNot(z)); } }
      break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      if (y.conc() && y.c >= w) { Val r; r.w = w; return r; }
      break;
    default: break;
  }
  K k;
  switch (I.op) {
    case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break;
    case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::URem: k = K::URem; break; case Instruction::SRem: k = K::SRem; break;
    case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; case Instruction::Xor: k = K::Xor; break;
    case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; default: k = K::AShr; break;
  }
  if (x.conc() && y.conc()) {
    u64 p = x.c, q = y.c, r; i64 sp = sextw(p, w), sq = sextw(q, w);
    switch (k) {
      case K::Add: r = p + q; break; case K::Sub: r = p - q; break; case K::Mul: r = p * q; break;
      case K::UDiv: r = p / q; break; case K::URem: r = p % q; break;
      case K::SDiv: r = sq == -1 ? (u64)-sp : (u64)(sp / sq); break; case K::SRem: r = sq == -1 ? 0 : (u64)(sp % sq); break;
      case K::And: r = p & q; break; case K::Or: r = p | q; break; case K::Xor: r = p ^ q; break;
      case K::Shl: r = p << q; break; case K::LShr: r = p >> q; break; default: r = (u64)(sp >> q); break;
    }
    Val v = Val::I(r, w); v.um = um; return v;
  }
  Val v = Val::X(mkBin(k, x.e(), y.e())); v.um = um; return v;
}

R Engine::exec(State& s, const DInst& I) {
  auto next = [&](const Val& v) { Frame& f = top(s); if (I.dst != ~0u) f.regs[I.dst] = v; f.ip++; return R::Next; };
  switch (I.op) {
    case Instruction::Br: {
      if (I.ops.empty()) { jump(s, I.succ[0]); return R::Jumped; }
      Val c = get(s, I.ops[0]);
      if (c.t != VT::Int || c.um) fatal(s, "uninit", "branch depends on an uninitialised value");
      if (c.conc()) { jump(s, I.succ[c.c ? 0 : 1]); return R::Jumped; }
      if (I.succ[0] == I.succ[1]) { jump(s, I.succ[0]); return R::Jumped; }
      return branch(s, I, c.e(), I.succ[0], I.succ[1]); }
    case Instruction::Switch: {
      Val c = get(s, I.ops[0]);
      if (c.t != VT::Int || c.um) fatal(s, "uninit", "switch on an uninitialised value");
      if (c.conc()) { int d = I.succ[0]; for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == c.c) d = I.succ[i + 1]; jump(s, d); return R::Jumped; }
      u64 dummy; concretizeOpnd: if (!concretize(s, I.ops[0], dummy)) return R::Fork; goto concretizeOpnd; }
    case Instruction::Ret: { Val v; if (!I.ops.empty()) v = get(s, I.ops[0]); return doRet(s, v, !I.ops.empty()); }
    case Instruction::Unreachable: fatal(s, "unreachable", "unreachable code executed");
    case Instruction::Call: case Instruction::Invoke: return doCall(s, I);
    case Instruction::LandingPad: return next(s.fr().back()->excVal);
    case Instruction::Resume: { Val v = get(s, I.ops[0]); u64 o = v.agg()->v[0].c;
      // leave this frame
      Frame& f = *s.fr().back(); (void)f; popFrame(s);
      if (s.fr().empty()) { report(s, "uncaught", "exception escapes the harness"); throw PathEnd(); }
      return unwind(s, o); }
    case Instruction::Alloca: {
      u64 n; if (!concretize(s, I.ops[0], n)) return R::Fork;
      u64 sz = n * I.aux2; if (sz >= (1u << ADDR_SHIFT) - 1) throw Unsupported("huge stack object");
      u64 a = doAlloc(s, sz ? sz : 1, OK::Stack); top(s).allocas.push_back(Memory::idOf(a)); return next(Val::I(a, 64)); }
    case Instruction::Load: {
      if (cast<LoadInst>(I.I)->isAtomic()) { Val ad = get(s, I.ops[0]); if (ad.conc()) { syncAcq(s, ad.c); bool ro = s.raceOn; s.raceOn = false; Val v = load(s, ad, I.ty); s.raceOn = ro; return next(v); } }
      return next(load(s, get(s, I.ops[0]), I.ty)); }
    case Instruction::Store: {
      Val v = get(s, I.ops[0]), ad = get(s, I.ops[1]);
      bool at = cast<StoreInst>(I.I)->isAtomic(), ro = s.raceOn;
      if (at) s.raceOn = false;
      if (v.t == VT::Agg) { auto* st = cast<StructType>(I.ty); auto* sl = DL.getStructLayout(st); if (!ad.conc()) throw Unsupported("aggregate store to symbolic address"); for (unsigned i = 0; i < st->getNumElements(); i++) store(s, Val::I(ad.c + sl->getElementOffset(i), 64), v.agg()->v[i], sizeOf(st->getElementType(i))); }
      else store(s, ad, v, I.aux2);
      s.raceOn = ro;
      if (at && ad.conc()) syncRel(s, ad.c);
      return next(Val()); }
    case Instruction::AtomicRMW: {
      Val ad = get(s, I.ops[0]), x = get(s, I.ops[1]); if (!ad.conc()) throw Unsupported("atomic on symbolic address");
      bool ro = s.raceOn; s.raceOn = false; syncAcq(s, ad.c);
      Val old = load(s, ad, I.ty); Val nv; DInst t; t.w = I.w;
      switch (I.aux) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: t.op = Instruction::Add; nv = arith(s, t, old, x); break; case AtomicRMWInst::Sub: t.op = Instruction::Sub; nv = arith(s, t, old, x); break; case AtomicRMWInst::And: t.op = Instruction::And; nv = arith(s, t, old, x); break; case AtomicRMWInst::Or: t.op = Instruction::Or; nv = arith(s, t, old, x); break; default: throw Unsupported("atomicrmw kind"); }
      store(s, ad, nv, sizeOf(I.ty)); s.raceOn = ro; syncRel(s, ad.c);
      return next(old); }
    case Instruction::AtomicCmpXchg: {
      Val ad = get(s, I.ops[0]), c = get(s, I.ops[1]), n = get(s, I.ops[2]); if (!ad.conc()) throw Unsupported("atomic on symbolic address");
      Type* vt = I.I->getOperand(1)->getType(); bool ro = s.raceOn; s.raceOn = false; syncAcq(s, ad.c);
      Val old = load(s, ad, vt); E eq = mkEq(old.e(), c.e()); store(s, ad, iteVal(eq, n, old), sizeOf(vt)); s.raceOn = ro; syncRel(s, ad.c);
      auto* g = new Agg(); g->v = {old, Val::X(eq)}; return next(Val::A(g)); }
    case Instruction::Fence: return next(Val());
    case Instruction::GetElementPtr: {
      Val b = get(s, I.ops[0]);
      if (b.t != VT::Int) { Val r; r.w = 64; return next(r); }
      bool conc = b.conc(); u64 off = I.gepOff;
      for (auto& g : I.gep) { const Val v = get(s, g.o); if (v.t != VT::Int || v.um) { Val r; r.w = 64; return next(r); } if (v.conc()) off += sextw(v.c, v.w) * g.scale; else conc = false; }
      if (conc) return next(Val::I(b.c + off, 64));
      E e = mkConst(off, 64);
      for (auto& g : I.gep) { Val v = get(s, g.o); if (!v.conc()) { E x = v.e(); x = x->w < 64 ? mkSExt(x, 64) : x; e = mkBin(K::Add, e, mkBin(K::Mul, x, mkConst(g.scale, 64))); } }
      e = mkBin(K::Add, b.e(), e);
      return next(Val::X(e)); }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Val v = arith(s, I, get(s, I.ops[0]), get(s, I.ops[1])); return next(v); }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val a = get(s, I.ops[0]), b = get(s, I.ops[1]);
      if (a.t == VT::Undef || b.t == VT::Undef) { Val r; r.w = I.w; return next(r); }
      D x = asD(a), y = asD(b), r;
      switch (I.op) { case Instruction::FAdd: r = dBin('+', x, y); break; case Instruction::FSub: r = dBin('-', x, y); break; case Instruction::FMul: r = dBin('*', x, y); break; case Instruction::FDiv: r = dBin('/', x, y); break; default: r = dMap2(x, y, [](double p, double q) { return std::fmod(p, q); }); }
      return next(fpRound(Val::Dv(r), I.ty)); }
    case Instruction::FNeg: { Val a = get(s, I.ops[0]); if (a.t == VT::Undef) return next(a); return next(Val::Dv(dNeg(asD(a)))); }
    case Instruction::ICmp: {
      Val a = get(s, I.ops[0]), b = get(s, I.ops[1]);
      if (a.t == VT::Undef || b.t == VT::Undef || ((a.um | b.um) != 0)) { Val r; r.w = 1; return next(r); }
      if (a.t == VT::Dbl) a = Val::X(asE(a, 64));
      if (b.t == VT::Dbl) b = Val::X(asE(b, 64));
      if (a.conc() && b.conc()) return next(Val::I(icmpC(I.aux, a.c, b.c, a.w), 1));
      bool sw, neg; K k; cmpKind(I.aux, sw, neg, k);
      E e = sw ? mkBin(k, b.e(), a.e()) : mkBin(k, a.e(), b.e()); if (neg) e = mkNot(e);
      return next(Val::X(e)); }
    case Instruction::FCmp: {
      Val a = get(s, I.ops[0]), b = get(s, I.ops[1]);
      if (a.t == VT::Undef || b.t == VT::Undef) { Val r; r.w = 1; return next(r); }
      return next(Val::X(dCmp(asD(a), asD(b), I.aux))); }
    case Instruction::Select: {
      Val c = get(s, I.ops[0]);
      if (c.t != VT::Int) { Val r; r.w = I.w; return next(r); }
      if (c.conc()) return next(get(s, I.ops[c.c ? 1 : 2]));
      Val a = get(s, I.ops[1]), b = get(s, I.ops[2]);
      if ((a.t == VT::Undef) != (b.t == VT::Undef)) { // one side undefined: keep only as exact as the feasible side allows
        E bad = a.t == VT::Undef ? c.e() : mkNot(c.e()); Model m; if (feasible(s, bad, &m)) { u64 d; if (!concretize(s, I.ops[0], d)) return R::Fork; } }
      if (I.ty && (I.ty->isPointerTy() ? !(modeOf(s) & 4) : I.ty->isIntegerTy() && I.w > 1 && !(modeOf(s) & 2))) { u64 d; if (!concretize(s, I.ops[0], d)) return R::Fork; return next(get(s, I.ops[d ? 1 : 2])); }
      return next(iteVal(c.e(), a, b)); }
    case Instruction::Trunc: { Val a = get(s, I.ops[0]); if (a.t == VT::Undef) { Val r; r.w = I.w; return next(r); } if (a.t == VT::Dbl) a = Val::X(asE(a, 64)); Val r = a.conc() ? Val::I(a.c, I.w) : Val::X(mkExtract(a.e(), 0, I.w)); unsigned nb = (I.w + 7) / 8; r.um = a.um & maskw(nb); if (r.um == maskw(nb)) { Val u; u.w = I.w; return next(u); } return next(r); }
    case Instruction::ZExt: { Val a = get(s, I.ops[0]); if (a.t == VT::Undef) { Val r; r.w = I.w; return next(r); } if (I.w > 64) throw Unsupported("wide integer"); Val r = a.conc() ? Val::I(a.c, I.w) : Val::X(mkZExt(a.e(), I.w)); r.um = a.um; return next(r); }
    case Instruction::SExt: { Val a = get(s, I.ops[0]); if (a.t == VT::Undef || a.um) { Val r; r.w = I.w; return next(r); } if (I.w > 64) throw Unsupported("wide integer"); return next(a.conc() ? Val::I((u64)sextw(a.c, a.w), I.w) : Val::X(mkSExt(a.e(), I.w))); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = get(s, I.ops[0]); if (a.t == VT::Undef) { a.w = I.w; return next(a); } if (a.w == I.w) return next(a); return next(Val::X(asE(a, I.w))); }
    case Instruction::BitCast: {
      Val a = get(s, I.ops[0]); if (a.t == VT::Undef) { a.w = I.w; return next(a); }
      if (I.isDbl) { if (I.ty->isFloatTy()) throw Unsupported("bitcast to float"); return next(Val::Dv(asD(a))); }
      if (a.t == VT::Dbl) { if (I.w != 64) throw Unsupported("bitcast from float"); return next(Val::X(asE(a, 64))); }
      return next(a); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = get(s, I.ops[0]); if (a.t == VT::Undef) { a.w = I.w; return next(a); }
      D d = asD(a); bool sg = I.op == Instruction::FPToSI;
      if (d.conc()) { double x = d.c; u64 r; if (sg) { if (!(x > -9.3e18 && x < 9.2e18)) r = 1ull << 63; else r = (u64)(i64)x; if (I.w == 32 && !(x > -2147483649.0 && x < 2147483648.0)) r = 0x80000000u; } else r = x > -1 && x < 1.8e19 ? (u64)x : (1ull << 63); return next(Val::I(r, I.w)); }
      return next(Val::X(dToInt(d, I.w, sg))); }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      Val a = get(s, I.ops[0]); if (a.t == VT::Undef || a.um) { Val r; r.w = I.w; return next(r); }
      bool sg = I.op == Instruction::SIToFP;
      if (a.conc()) return next(fpRound(Val::Dv(D(sg ? (double)sextw(a.c, a.w) : (double)a.c)), I.ty));
      return next(fpRound(Val::Dv(dFromInt(a.e(), sg)), I.ty)); }
    case Instruction::FPExt: case Instruction::FPTrunc: { Val a = get(s, I.ops[0]); if (a.t == VT::Undef) return next(a); if (!I.ty->isFloatTy() && !I.ty->isDoubleTy()) throw Unsupported("extended precision"); return next(I.op == Instruction::FPTrunc ? fpRound(Val::Dv(asD(a)), I.ty) : a); }
    case Instruction::ExtractValue: { Val a = get(s, I.ops[0]); for (unsigned i : I.idx) { if (a.t != VT::Agg) { a = Val(); break; } a = a.agg()->v[i]; } return next(a); }
    case Instruction::InsertValue: {
      Val a = get(s, I.ops[0]), v = get(s, I.ops[1]); auto* g = new Agg();
      if (a.t == VT::Agg) g->v = a.agg()->v; else g->v.resize(isa<StructType>(I.ty) ? cast<StructType>(I.ty)->getNumElements() : cast<ArrayType>(I.ty)->getNumElements());
      if (I.idx.size() == 1) g->v[I.idx[0]] = v;
      else if (I.idx.size() == 2) { auto* h = new Agg(); if (g->v[I.idx[0]].t == VT::Agg) h->v = g->v[I.idx[0]].agg()->v; else h->v.resize(I.idx[1] + 1); if (h->v.size() <= I.idx[1]) h->v.resize(I.idx[1] + 1); h->v[I.idx[1]] = v; g->v[I.idx[0]] = Val::A(h); }
      else throw Unsupported("deep insertvalue");
      return next(Val::A(g)); }
    case Instruction::Freeze: {
      Val a = get(s, I.ops[0]);
      if (a.t == VT::Undef) { if (I.isDbl) return next(Val::Dv(D(0.0))); return next(a); }   // an undefined value stays tracked as undefined
      return next(a); }
    default: throw Unsupported(std::string("instruction ") + I.I->getOpcodeName());
  }
}

R Engine::doCall(State& s, const DInst& I) {
  if (I.intrin == -1) return callDone(s, I, Val());
  if (I.intrin) { std::vector<Val> a; for (auto& o : I.ops) a.push_back(get(s, o)); return intrinsic(s, I, a); }
  if (I.builtin >= 0) { std::vector<Val> a; for (auto& o : I.ops) a.push_back(get(s, o)); return builtin(s, I, I.builtin, a); }
  DFunc* f = I.callee;
  std::vector<Val> a; a.reserve(I.ops.size());
  size_t n = cast<CallBase>(I.I)->arg_size();
  for (size_t i = 0; i < n; i++) a.push_back(get(s, I.ops[i]));
  if (!f) {
    u64 p; if (!concretize(s, I.ops[n], p)) return R::Fork;
    auto it = funcByObj.find(Memory::idOf(p));
    if (it == funcByObj.end() || Memory::offOf(p)) fatal(s, "memory", "call through a bad function pointer");
    f = it->second;
    auto b = builtinIds.find(f->name);
    if (b != builtinIds.end()) return builtin(s, I, b->second, a);
  }
  if (f->F->isDeclaration()) {
    throw Unsupported("call to undefined function " + f->name);
  }
  pushFrame(s, f, a, cast<CallBase>(I.I));
  return R::Jumped;
}
