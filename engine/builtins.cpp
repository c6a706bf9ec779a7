// Functions the interpreter provides itself: allocation, exceptions, libm, threads and the sx_* harness interface.
#include "engine.h"
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <algorithm>
#include <cmath>
#include <cerrno>
using namespace llvm;

enum B { b_malloc, b_calloc, b_realloc, b_free, b_new, b_newarr, b_new_nt, b_newarr_nt, b_del, b_dels, b_delarr, b_delarrs,
  b_memcpy, b_memmove, b_memset, b_sqrt, b_pow, b_fabs, b_floor, b_ceil, b_fmin, b_fmax, b_exp, b_log, b_round, b_trunc, b_fmod, b_abs, b_labs,
  b_abort, b_exit, b_terminate, b_purevirt, b_atexit, b_tatexit,
  b_alloc_exc, b_free_exc, b_throw, b_begin_catch, b_end_catch, b_rethrow, b_get_exc, b_resume, b_guard_acq, b_guard_rel, b_guard_abort,
  b_errno, b_puts, b_printf, b_putchar, b_curexc, b_rethrow_obj, b_exc_incref, b_exc_decref,
  b_sx_int, b_sx_choose, b_sx_double, b_sx_menu, b_sx_assume, b_sx_assert, b_sx_reach, b_sx_close, b_sx_and, b_sx_or, b_sx_not, b_sx_implies, b_sx_ited, b_sx_itei,
  b_sx_concretize, b_sx_concretize_d, b_sx_merge, b_sx_live, b_sx_liveobj, b_sx_native, b_sx_fail, b_sx_is_sym_d, b_sx_same_d, b_sx_debug, b_sx_choose_menu, b_sx_max, b_sx_min, b_sx_long,
  b_thr_create, b_thr_join, b_mx_lock, b_mx_unlock, b_cv_wait, b_cv_notify, b_thr_self, b_thr_yield, b_thr_count, b_roundtrip, b_strtod, b_observe, b_log2, b_log10, b_cbrt, b_hypot, b_sin, b_cos, b_rint, b_nearbyint, b_copysign, b_fdim, b_last };
static const std::vector<std::string> names = {
  "malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm",
  "memcpy", "memmove", "memset", "sqrt", "pow", "fabs", "floor", "ceil", "fmin", "fmax", "exp", "log", "round", "trunc", "fmod", "abs", "labs",
  "abort", "exit", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_atexit", "__cxa_thread_atexit",
  "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow", "__cxa_get_exception_ptr", "_Unwind_Resume", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
  "__errno_location", "puts", "printf", "putchar", "__sx_current_exception", "__sx_rethrow", "__sx_exc_incref", "__sx_exc_decref",
  "sx_int", "sx_choose", "sx_double", "sx_menu", "sx_assume", "sx_assert", "sx_reach", "sx_close", "sx_and", "sx_or", "sx_not", "sx_implies", "sx_ite_d", "sx_ite_i",
  "sx_concretize", "sx_concretize_d", "sx_merge_mode", "sx_live_bytes", "sx_live_objects", "sx_native", "sx_fail", "sx_is_sym_d", "sx_same_d", "sx_debug", "sx_choose_menu", "sx_max", "sx_min", "sx_long",
  "__sx_thread_create", "__sx_thread_join", "__sx_mutex_lock", "__sx_mutex_unlock", "__sx_cond_wait", "__sx_cond_notify", "__sx_thread_self", "__sx_yield", "__sx_thread_count", "__sx_roundtrip", "__sx_host_strtod", "sx_observe", "log2", "log10", "cbrt", "hypot", "sin", "cos", "rint", "nearbyint", "copysign", "fdim" };
const std::vector<std::string>& builtinNames() { if (names.size() != b_last) abort(); return names; }

E Engine::newVar(State& s, const std::string& name, i64 lo, i64 hi, i64& rlo, i64& rhi) {
  int n = s.varCount[name]++;
  std::string k = name + "#" + std::to_string(n);
  auto f = cfg.fix.find(k);
  if (f == cfg.fix.end()) f = cfg.fix.find(name);
  if (f != cfg.fix.end()) { lo = std::max(lo, f->second.first); hi = std::min(hi, f->second.second); if (lo > hi) throw PathEnd(); }
  rlo = lo; rhi = hi;
  if (lo == hi) { s.fixedVars[k] = lo; return nullptr; }
  std::string key = k + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  E& e = varByKey[key];
  if (!e) { if (gVars.size() >= 500) throw Unsupported("too many symbolic inputs"); e = mkVar(key, bitsFor(hi - lo), 0, hi - lo); }
  s.vars[k] = {e, lo};
  return e;
}

// ---------------------------------------------------------------- threads
void Engine::syncAcq(State& s, u64 key) { if (!s.multi) return; auto it = s.syncClock.find(key); if (it == s.syncClock.end()) return; auto& c = s.th[s.cur].clock; if (c.size() < it->second.size()) c.resize(it->second.size(), 0); for (size_t i = 0; i < it->second.size(); i++) c[i] = std::max(c[i], it->second[i]); }
void Engine::syncRel(State& s, u64 key) { if (!s.multi) return; auto& c = s.th[s.cur].clock; auto& d = s.syncClock[key]; if (d.size() < c.size()) d.resize(c.size(), 0); for (size_t i = 0; i < c.size(); i++) d[i] = std::max(d[i], c[i]); if (c.size() <= (size_t)s.cur) c.resize(s.cur + 1, 0); c[s.cur]++; }
void Engine::race(State& s, u64 a, u64 size, bool write) {
  auto& c = s.th[s.cur].clock; int me = s.cur;
  Obj* ob = s.mem.get(Memory::idOf(a));
  if (ob && ob->kind == OK::Const) return;
  for (u64 i = 0; i < size; i++) {
    RaceCell& r = s.race[a + i];
    auto seen = [&](int t, u32 k) { return t == me || ((size_t)t < c.size() && c[t] >= k); };
    bool bad = r.wt >= 0 && !seen(r.wt, r.wc);
    if (write && !bad) for (size_t t = 0; t < r.rc.size(); t++) if (r.rc[t] && !seen(t, r.rc[t])) bad = true;
    if (bad) { fatal(s, "race", std::string("unsynchronised ") + (write ? "write" : "read") + " of shared memory"); }
    if (write) { r.wt = me; r.wc = c[me]; r.rc.clear(); }
    else { if (r.rc.size() <= (size_t)me) r.rc.resize(me + 1, 0); r.rc[me] = c[me]; }
  }
}
void Engine::spawnThread(State& s, u64 fnp, u64 arg, u32& tid) {
  tid = s.th.size();
  s.multi = true; s.mem.spawn();
  auto& pc = s.th[s.cur].clock; if (pc.size() <= (size_t)s.cur) pc.resize(s.cur + 1, 0);
  Thread t; t.clock = pc; t.clock.resize(tid + 1, 0); t.clock[tid] = 1; pc[s.cur]++;
  s.th.push_back(t);
  s.raceOn = true; if (s.mergeMode) s.modeBefore = s.mergeMode; s.mergeMode = 0;
  auto it = funcByObj.find(Memory::idOf(fnp)); if (it == funcByObj.end()) throw Unsupported("thread function");
  int c = s.cur; s.cur = tid; pushFrame(s, it->second, {Val::I(arg, 64)}, nullptr); s.cur = c;
}
// States that agree in everything but how they were reached are continued once.
static bool sameObj(const Obj* x, const Obj* y) {
  bool ax = x && x->alive, ay = y && y->alive;
  if (x == y || (!ax && !ay)) return true;
  if (ax != ay || x->size != y->size || x->kind != y->kind || x->bytes != y->bytes || x->init != y->init || x->sym.size() != y->sym.size()) return false;
  for (auto i = x->sym.begin(), j = y->sym.begin(); i != x->sym.end(); ++i, ++j) if (i->first != j->first || i->second.size != j->second.size || !i->second.v.same(j->second.v)) return false;
  return true;
}
static bool sameState(const State& a, const State& b) {
  if (a.th.size() != b.th.size() || a.mutexOwner != b.mutexOwner || a.heapLive != b.heapLive || a.heapBytes != b.heapBytes || a.mem.n != b.mem.n || a.mem.tn != b.mem.tn || a.pc != b.pc || a.vars != b.vars || !(a.exc == b.exc) || a.obs.size() != b.obs.size() || a.mergeMode != b.mergeMode) return false;
  for (size_t i = 0; i < a.obs.size(); i++) if (a.obs[i].first != b.obs[i].first || !a.obs[i].second.same(b.obs[i].second)) return false;
  for (size_t t = 0; t < a.th.size(); t++) {
    const Thread &x = a.th[t], &y = b.th[t];
    if (x.st != y.st || x.caught != y.caught || x.fr.size() != y.fr.size() || x.joined != y.joined || x.atVisible != y.atVisible) return false;
    if (x.st != TS::Run && x.st != TS::Done && (x.waitOn != y.waitOn || x.waitMutex != y.waitMutex)) return false;
    if (x.atVisible && (x.pk != y.pk || x.po[0] != y.po[0] || x.po[1] != y.po[1])) return false;
    for (size_t i = 0; i < x.fr.size(); i++) {
      const Frame &f = *x.fr[i], &g = *y.fr[i]; if (&f == &g) continue;
      if (f.f != g.f || f.blk != g.blk || f.ip != g.ip || f.pred != g.pred || f.allocas != g.allocas || f.regs.size() != g.regs.size()) return false;
      for (size_t k = 0; k < f.regs.size(); k++) if (!f.regs[k].same(g.regs[k])) return false;
    }
  }
  for (size_t c = 0; c < a.mem.ch.size(); c++) { Chunk *x = a.mem.ch[c].p, *y = b.mem.ch[c].p; if (x == y) continue; for (int k = 0; k < 64; k++) if (!sameObj(x ? x->o[k].p : nullptr, y ? y->o[k].p : nullptr)) return false; }
  return true;
}
void Engine::seenBefore(State& s) {
  if (cfg.preempt != -1) return;
  u64 h = s.heapLive * 31 + s.heapBytes; auto mix = [&](u64 v) { h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; };
  for (auto& t : s.th) { mix((u64)t.st); mix(t.fr.size()); if (!t.fr.empty()) { mix((u64)t.fr.back()->f); mix(t.fr.back()->blk); mix(t.fr.back()->ip); } }
  for (auto& m : s.mutexOwner) { mix(m.first); mix(m.second); }
  for (u32 n : s.mem.tn) mix(n);
  for (E e : s.pc) mix((u64)e);
  auto& b = cache[h];
  for (auto& o : b) if (sameState(*o, s)) { cacheCut++; throw PathEnd(); }
  b.emplace_back(new State(s)); b.back()->race.clear();
}
// back to one thread: nothing is concurrent any more
void Engine::allJoined(State& s) {
  if (s.cur) return;
  for (size_t t = 1; t < s.th.size(); t++) if (s.th[t].st != TS::Done || !s.th[t].joined) return;
  s.th.resize(1); s.th[0].clock.clear(); s.th[0].atVisible = s.th[0].resumed = false; s.multi = s.raceOn = false; s.race.clear(); s.syncClock.clear(); s.mergeMode = s.modeBefore; s.mem.tn.clear();
  seenBefore(s);
}
// Every enabled thread is a choice at every visible operation.  What lies between two visible operations is independent
// of the other threads as long as no race is reported, and races are checked on every access.
R Engine::schedule(State& s, bool must) {
  auto runnable = [&](int t) {
    Thread& th = s.th[t];
    switch (th.st) {
      case TS::Run: { if (!th.atVisible || th.pk != 1) return true; auto it = s.mutexOwner.find(th.po[0]); return it == s.mutexOwner.end() || it->second == t; }
      case TS::WaitMutex: return !s.mutexOwner.count(th.waitOn); case TS::WaitJoin: return s.th[th.waitOn].st == TS::Done; default: return false; }
  };
  std::vector<int> opt; bool self = !must && runnable(s.cur);
  if (self) opt.push_back(s.cur);
  if (!self || cfg.preempt < 0 || s.preempt < cfg.preempt) for (size_t t = 0; t < s.th.size(); t++) if ((!self || (int)t != s.cur) && runnable(t)) opt.push_back(t);
  if (opt.empty()) {
    std::string d; for (auto& t : s.th) d += t.st == TS::Done ? "done " : t.st == TS::WaitMutex || t.st == TS::Run ? "mutex " : t.st == TS::WaitCond ? "cond " : "join ";
    for (size_t t = 0; t < s.th.size(); t++) if (!s.th[t].fr.empty()) { s.cur = t; break; }
    fatal(s, "deadlock", "no thread can run: " + d);
  }
  seenBefore(s);
  auto go = [&](State& z, int t) {
    if (self && t != z.cur) z.preempt++;
    z.cur = t; Thread& th = z.th[t];
    if (th.st == TS::WaitMutex) { z.mutexOwner[th.waitOn] = t; syncAcq(z, th.waitOn); th.st = TS::Run; }
    else if (th.st == TS::WaitJoin) { syncAcq(z, 0x10000ull + th.waitOn); th.st = TS::Run; allJoined(z); return; }
    if (th.atVisible) th.resumed = true;
  };
  if (opt.size() == 1) { go(s, opt[0]); return R::Jumped; }
  std::string k = "sched#" + std::to_string(s.varCount["sched"]++);
  auto fx = cfg.fix.find(k); forkOut.clear(); forkMerge = false;
  for (int t : opt) {
    if (fx != cfg.fix.end() && (t < fx->second.first || t > fx->second.second)) continue;
    SP c(new State(s)); c->fixedVars[k] = t; try { go(*c, t); } catch (PathEnd&) { continue; } forkOut.push_back({std::move(c), false});
  }
  if (forkOut.empty()) throw PathEnd();
  forks += forkOut.size() - 1;
  return R::Fork;
}

// ---------------------------------------------------------------- builtins
R Engine::builtin(State& s, const DInst& I, int id, std::vector<Val>& a) {
  auto ret = [&](const Val& v) { return callDone(s, I, v); };
  auto num = [&](int i, u64& out) { return concretize(s, I.ops[i], out); };
  auto cond = [&](const Val& v) -> E { if (v.t != VT::Int || v.um) fatal(s, "uninit", "condition depends on an uninitialised value"); return mkNot(mkEq(v.e(), mkConst(0, v.w))); };
  auto b32 = [&](E e) { return Val::X(mkZExt(e, 32)); };
  auto dbl1 = [&](double (*f)(double)) { if (a[0].t == VT::Undef) return ret(a[0]); return ret(Val::Dv(dMap(asD(a[0]), f))); };
  auto allocRet = [&](u64 n, OK k, bool nothrow) -> R {
    if (n >= (1u << ADDR_SHIFT) - 4096) {
      if (nothrow) return ret(Val::I(0, 64));
      auto* F = M.getFunction("__sx_throw_bad_alloc"); if (!F) throw Unsupported("huge allocation");
      pushFrame(s, fn(F), {}, nullptr); return R::Jumped;
    }
    return ret(Val::I(doAlloc(s, n, k), 64)); };
  // scheduling points
  auto visible = [&](R& r, int kind, u64 o1, u64 o2 = 0) { if (!s.multi) return false; Thread& t = s.th[s.cur]; if (t.resumed) { t.resumed = false; t.atVisible = false; return false; } t.atVisible = true; t.pk = kind; t.po[0] = o1; t.po[1] = o2; r = schedule(s, false); return true; };
  u64 n, m; R r;
  switch (id) {
    case b_malloc: if (!num(0, n)) return R::Fork; return allocRet(n, OK::Malloc, true);
    case b_calloc: { if (!num(0, n)) return R::Fork; if (!num(1, m)) return R::Fork; if (n * m >= (1u << ADDR_SHIFT) - 4096) return ret(Val::I(0, 64)); u64 p = doAlloc(s, n * m, OK::Malloc); Obj* o = s.mem.own(Memory::idOf(p)); std::fill(o->init.begin(), o->init.end(), 1); return ret(Val::I(p, 64)); }
    case b_realloc: { if (!num(1, n)) return R::Fork; u64 p = doAlloc(s, n, OK::Malloc); if (a[0].c) { Obj* o = s.mem.get(Memory::idOf(a[0].c)); memCopy(s, p, a[0].c, std::min<u64>(n, o ? o->size : 0)); doFree(s, a[0].c, OK::Malloc, false); } return ret(Val::I(p, 64)); }
    case b_free: case b_del: case b_dels: case b_delarr: case b_delarrs: {
      if (a[0].t == VT::Undef) fatal(s, "memory", "free of an uninitialised pointer");
      if (!num(0, n)) return R::Fork;
      doFree(s, n, id == b_free ? OK::Malloc : (id == b_del || id == b_dels) ? OK::New : OK::NewArr, false); return ret(Val()); }
    case b_new: case b_new_nt: if (!num(0, n)) return R::Fork; return allocRet(n, OK::New, id == b_new_nt);
    case b_newarr: case b_newarr_nt: if (!num(0, n)) return R::Fork; return allocRet(n, OK::NewArr, id == b_newarr_nt);
    case b_memcpy: case b_memmove: { if (!num(0, n)) return R::Fork; u64 q, len; if (!num(1, q)) return R::Fork; if (!num(2, len)) return R::Fork; memCopy(s, n, q, len); return ret(Val::I(n, 64)); }
    case b_memset: { u64 len; if (!num(0, n)) return R::Fork; if (!num(2, len)) return R::Fork; memSet(s, n, a[1], len); return ret(Val::I(n, 64)); }
    case b_sqrt: return dbl1([](double x) { return std::sqrt(x); });
    case b_exp: return dbl1([](double x) { return std::exp(x); });
    case b_log: return dbl1([](double x) { return std::log(x); });
    case b_log2: return dbl1([](double x) { return std::log2(x); });
    case b_log10: return dbl1([](double x) { return std::log10(x); });
    case b_cbrt: return dbl1([](double x) { return std::cbrt(x); });
    case b_sin: return dbl1([](double x) { return std::sin(x); });
    case b_cos: return dbl1([](double x) { return std::cos(x); });
    case b_rint: case b_nearbyint: return dbl1([](double x) { return std::nearbyint(x); });
    case b_hypot: return ret(Val::Dv(dMap2(asD(a[0]), asD(a[1]), [](double p, double q) { return std::hypot(p, q); })));
    case b_copysign: return ret(Val::Dv(dMap2(asD(a[0]), asD(a[1]), [](double p, double q) { return std::copysign(p, q); })));
    case b_fdim: return ret(Val::Dv(dMap2(asD(a[0]), asD(a[1]), [](double p, double q) { return std::fdim(p, q); })));
    case b_round: return dbl1([](double x) { return std::round(x); });
    case b_trunc: return dbl1([](double x) { return std::trunc(x); });
    case b_ceil: return dbl1([](double x) { return std::ceil(x); });
    case b_floor: if (a[0].t == VT::Undef) return ret(a[0]); return ret(Val::Dv(dFloor(asD(a[0]))));
    case b_fabs: if (a[0].t == VT::Undef) return ret(a[0]); return ret(Val::Dv(dAbs(asD(a[0]))));
    case b_pow: { if (a[0].t == VT::Undef || a[1].t == VT::Undef) return ret(Val()); D x = asD(a[0]), y = asD(a[1]); if (y.conc() && y.c == 2 && !x.conc()) return ret(Val::Dv(dBin('*', x, x))); return ret(Val::Dv(dMap2(x, y, [](double p, double q) { return std::pow(p, q); }))); }
    case b_fmod: return ret(Val::Dv(dMap2(asD(a[0]), asD(a[1]), [](double p, double q) { return std::fmod(p, q); })));
    case b_fmin: case b_fmax: case b_sx_min: case b_sx_max: { if (a[0].t == VT::Undef) return ret(a[0]); if (a[1].t == VT::Undef) return ret(a[1]); D x = asD(a[0]), y = asD(a[1]); bool mn = id == b_fmin || id == b_sx_min; return ret(Val::Dv(dIte(dCmp(x, y, mn ? 4 : 2), x, y))); }
    case b_abs: case b_labs: { if (a[0].t == VT::Undef) return ret(a[0]); E e = a[0].e(); return ret(Val::X(mkIte(mkBin(K::Slt, e, mkConst(0, e->w)), mkBin(K::Sub, mkConst(0, e->w), e), e))); }
    case b_abort: fatal(s, "abort", "abort called");
    case b_exit: fatal(s, "abort", "exit called");
    case b_terminate: fatal(s, "abort", "std::terminate called");
    case b_purevirt: fatal(s, "abort", "pure virtual call");
    case b_atexit: case b_tatexit: return ret(Val::I(0, 32));
    case b_alloc_exc: { if (!num(0, n)) return R::Fork; u64 p = doAlloc(s, n ? n : 1, OK::Exc); s.exc[p] = ExcInfo(); return ret(Val::I(p, 64)); }
    case b_free_exc: { s.exc.erase(a[0].c); s.mem.own(Memory::idOf(a[0].c))->alive = false; return ret(Val()); }
    case b_throw: { ExcInfo& x = s.exc[a[0].c]; x.tinfo = a[1].c; x.dtor = a[2].t == VT::Int ? a[2].c : 0; x.refs = 1; return unwind(s, a[0].c); }
    case b_begin_catch: { u64 o = a[0].c; auto& x = s.exc[o]; x.handlers++; x.rethrown = false; s.th[s.cur].caught.push_back(o); return ret(Val::I(o, 64)); }
    case b_end_catch: {
      auto& c = s.th[s.cur].caught; if (c.empty()) throw Unsupported("end_catch without exception");
      u64 o = c.back(); c.pop_back(); auto& x = s.exc[o]; x.handlers--;
      callDone(s, I, Val());
      if (x.handlers <= 0 && !x.rethrown && --x.refs <= 0) { u64 d = x.dtor; s.exc.erase(o); s.mem.own(Memory::idOf(o))->site = 1; if (d) { auto it = funcByObj.find(Memory::idOf(d)); if (it != funcByObj.end() && !it->second->F->isDeclaration()) { pushFrame(s, it->second, {Val::I(o, 64)}, nullptr); s.fr().back()->silent = true; s.fr().back()->allocas.push_back(Memory::idOf(o)); } } }
      return R::Jumped; }
    case b_rethrow: { auto& c = s.th[s.cur].caught; if (c.empty()) fatal(s, "abort", "rethrow without an exception (terminate)"); u64 o = c.back(); s.exc[o].rethrown = true; return unwind(s, o); }
    case b_get_exc: return ret(a[0]);
    case b_resume: { popFrame: { Frame& f = *s.fr().back(); for (u32 x : f.allocas) { Obj* o = s.mem.own(x); o->alive = false; } s.fr().pop_back(); } return unwind(s, a[0].c); }
    case b_curexc: { auto& c = s.th[s.cur].caught; return ret(Val::I(c.empty() ? 0 : c.back(), 64)); }
    case b_exc_incref: s.exc[a[0].c].refs++; return ret(Val());
    case b_exc_decref: s.exc[a[0].c].refs--; return ret(Val());
    case b_rethrow_obj: { s.exc[a[0].c].refs++; return unwind(s, a[0].c); }
    case b_guard_acq: {
      bool ro0 = s.raceOn; s.raceOn = false; Val g = loadC(s, a[0].c, 1, false, 8); s.raceOn = ro0;
      { auto it = s.mutexOwner.find(a[0].c); if (it != s.mutexOwner.end() && it->second == s.cur) { if (!g.c) return ret(Val::I(1, 32)); s.mutexOwner.erase(it); syncAcq(s, a[0].c); return ret(Val::I(0, 32)); } }
      if (g.c) { syncAcq(s, a[0].c); return ret(Val::I(0, 32)); }
      if (s.multi) { if (visible(r, 1, a[0].c)) return r; if (g.c) { syncAcq(s, a[0].c); return ret(Val::I(0, 32)); }
        if (s.mutexOwner.count(a[0].c)) { Thread& t = s.th[s.cur]; t.st = TS::WaitMutex; t.waitOn = a[0].c; t.atVisible = false; /* retry as owner, then notice it is initialised */ return schedule(s, true); }
        s.mutexOwner[a[0].c] = s.cur; }
      return ret(Val::I(1, 32)); }
    case b_guard_rel: case b_guard_abort: { bool ro = s.raceOn; s.raceOn = false; if (id == b_guard_rel) storeC(s, a[0].c, Val::I(1, 8), 1); s.raceOn = ro; syncRel(s, a[0].c); s.mutexOwner.erase(a[0].c); return ret(Val()); }
    case b_roundtrip: {
      u64 pr, md; if (a[0].t == VT::Undef) return ret(a[0]); if (!num(1, pr)) return R::Fork; if (!num(2, md)) return R::Fork;
      int P = sextw(pr, 32), Md = md;
      auto f = [P, Md](double x) {
        char b[1400]; int p = P;
        if ((Md & 260) == 260) snprintf(b, sizeof b, "%a", x); else if (Md & 4) snprintf(b, sizeof b, "%.*f", p < 0 ? 6 : p, x); else if (Md & 256) snprintf(b, sizeof b, "%.*e", p < 0 ? 6 : p, x); else snprintf(b, sizeof b, "%.*g", p < 0 ? 6 : p, x);
        return strtod(b, nullptr); };
      return ret(Val::Dv(dMap(asD(a[0]), f))); }
    case b_strtod: {
      std::string t = cstr(s, a[0].c); char* end; errno = 0; double v = strtod(t.c_str(), &end);
      storeC(s, a[1].c, Val::I(end - t.c_str(), 64), 8); storeC(s, a[2].c, Val::I(errno == ERANGE, 32), 4); return ret(Val::Dv(D(v))); }
    case b_errno: return ret(Val::I(errnoAddr, 64));
    case b_puts: case b_printf: case b_putchar: return ret(Val::I(0, 32));

    case b_sx_int: case b_sx_long: { std::string nm = cstr(s, a[0].c); i64 lo, hi; unsigned w = id == b_sx_int ? 32 : 64; E v = newVar(s, nm, sextw(a[1].c, w), sextw(a[2].c, w), lo, hi); if (!v) return ret(Val::I((u64)lo, w)); return ret(Val::X(mkBin(K::Add, mkZExt(v, w), mkConst((u64)lo, w)))); }
    case b_sx_choose: {
      std::string nm = cstr(s, a[0].c); i64 lo = sextw(a[1].c, 32), hi = sextw(a[2].c, 32); int k = s.varCount[nm]; std::string key = nm + "#" + std::to_string(k);
      auto f = cfg.fix.find(key); if (f == cfg.fix.end()) f = cfg.fix.find(nm);
      if (f != cfg.fix.end()) { lo = std::max(lo, f->second.first); hi = std::min(hi, f->second.second); }
      if (lo > hi) throw PathEnd();
      s.varCount[nm]++;
      if (lo == hi) { s.fixedVars[key] = lo; return ret(Val::I((u64)lo, 32)); }
      std::vector<SP> kids; forks += hi - lo;
      for (i64 v = lo; v <= hi; v++) { SP c(new State(s)); c->fixedVars[key] = v; callDone(*c, I, Val::I((u64)v, 32)); kids.push_back(std::move(c)); }
      forkOut.clear(); forkMerge = false; for (auto& c : kids) forkOut.push_back({std::move(c), false});
      return R::Fork; }
    case b_sx_double: { std::string nm = cstr(s, a[0].c); i64 lo, hi; int sc = sextw(a[3].c, 32); E v = newVar(s, nm, sextw(a[1].c, 64), sextw(a[2].c, 64), lo, hi); if (!v) return ret(Val::Dv(D(std::ldexp((double)lo, -sc)))); unsigned w = 60; return ret(Val::Dv(dFix(mkBin(K::Add, mkZExt(v, w), mkConst((u64)lo, w)), sc, lo, hi))); }
    case b_sx_menu: case b_sx_choose_menu: {
      std::string nm = cstr(s, a[0].c); int cnt = sextw(a[2].c, 32); i64 lo, hi; std::vector<double> t; for (int i = 0; i < cnt; i++) { Val x = loadC(s, a[1].c + 8 * i, 8, true, 64); t.push_back(x.d().c); }
      E v = newVar(s, nm, 0, cnt - 1, lo, hi); if (!v) return ret(Val::Dv(D(t[lo])));
      std::vector<double> u(t.begin() + lo, t.begin() + hi + 1); return ret(Val::Dv(dTab(v, u))); }
    case b_sx_assume: assume(s, cond(a[0])); return ret(Val());
    case b_sx_assert: {
      E c = cond(a[0]); asserts++;
      if (isTrue(c)) return ret(Val());
      ensure(s);
      Model mm; assertQueries++;
      if (c->k == K::Or) for (E part : {c->a[0], c->a[1]}) { // one half alone may already be easy to prove
        if (part->k == K::Or) part = part->a[0];
        if (isC(part) || evM(s, part) == 0) continue;
        unsigned t = sol.timeoutMs; sol.timeoutMs = std::min(t, 20000u); Res q = sol.check(s.pc, mkNot(part), s.model, nullptr); sol.timeoutMs = t;
        if (q == Res::Unsat) return ret(Val()); }
      if (feasible(s, mkNot(c), &mm)) { std::string msg = cstr(s, a[1].c); report(s, "assert", msg, &mm); assume(s, c); }
      return ret(Val()); }
    case b_sx_fail: { fatal(s, "assert", cstr(s, a[0].c)); }
    case b_sx_reach: ensure(s); reach[cstr(s, a[0].c)]++; return ret(Val());
    case b_sx_close: { D x = asD(a[0]), y = asD(a[1]); D e = asD(a[2]); // both NaN counts as close
      E nn = mkAnd(dIsNaN(x), dIsNaN(y)); E eq = dCmp(x, y, 1);
      if (dSame(x, y)) return ret(Val::I(1, 32));
      E c = isTrue(eq) ? eq : mkOr(mkOr(eq, nn), dCmp(dAbs(dBin('-', x, y)), e, 5)); return ret(b32(c)); }
    case b_sx_and: return ret(b32(mkAnd(cond(a[0]), cond(a[1]))));
    case b_sx_or: return ret(b32(mkOr(cond(a[0]), cond(a[1]))));
    case b_sx_not: return ret(b32(mkNot(cond(a[0]))));
    case b_sx_implies: return ret(b32(mkOr(mkNot(cond(a[0])), cond(a[1]))));
    case b_sx_ited: return ret(iteVal(cond(a[0]), a[1], a[2]));
    case b_sx_itei: return ret(iteVal(cond(a[0]), a[1], a[2]));
    case b_sx_concretize: if (!num(0, n)) return R::Fork; return ret(Val::I(n, 64));
    case b_sx_concretize_d: {
      if (a[0].t == VT::Undef) fatal(s, "uninit", "uninitialised double");
      D d = asD(a[0]); if (d.conc()) return ret(a[0]);
      // split over the values of the double
      std::vector<std::pair<double, Model>> vals; E seen = mkBool(true); Model mm;
      while (feasible(s, seen, &mm)) { evalEpoch(); double x = evalD(d, mm); vals.push_back({x, mm}); seen = mkAnd(seen, x != x ? mkNot(dIsNaN(d)) : mkNot(dCmp(d, D(x), 1))); if (vals.size() > 300) throw Unsupported("too many doubles to split on"); }
      s.mid = ~0ull - s.mid;
      std::vector<SP> kids;
      for (auto& x : vals) { SP c(new State(s)); c->pc.push_back(x.first != x.first ? dIsNaN(d) : dCmp(d, D(x.first), 1)); static u64 fresh = 1ull << 62; c->model = x.second; c->mid = ++fresh; if (!I.ops[0].isC) top(*c).regs[I.ops[0].slot] = Val::Dv(D(x.first)); callDone(*c, I, Val::Dv(D(x.first))); kids.push_back(std::move(c)); }
      forkOut.clear(); forkMerge = false; forks += kids.size() - 1; for (auto& c : kids) forkOut.push_back({std::move(c), false});
      return R::Fork; }
    case b_observe: s.obs.push_back({cstr(s, a[0].c), a[1]}); return ret(Val());
    case b_sx_merge: s.mergeMode = s.multi ? 0 : (int)a[0].c; return ret(Val());
    case b_sx_live: return ret(Val::I(s.heapBytes, 64));
    case b_sx_liveobj: return ret(Val::I(s.heapLive, 64));
    case b_sx_native: return ret(Val::I(0, 32));
    case b_sx_is_sym_d: return ret(Val::I(a[0].t == VT::Dbl && !a[0].conc(), 32));
    case b_sx_same_d: { D x = asD(a[0]), y = asD(a[1]); return ret(b32(mkOr(dCmp(x, y, 1), mkAnd(dIsNaN(x), dIsNaN(y))))); }
    case b_sx_debug: { std::string v; for (size_t i = 1; i < a.size(); i++) v += a[i].t == VT::Undef ? " undef" : a[i].t == VT::Dbl ? " " + dStr(a[i].d()) : " " + (a[i].conc() ? std::to_string((i64)a[i].c) : exprStr(a[i].e(), 3)); fprintf(stderr, "debug %s%s\n", cstr(s, a[0].c).c_str(), v.c_str()); return ret(Val()); }

    case b_thr_create: { if (!num(0, n)) return R::Fork; if (visible(r, 0, 0x20000)) return r; u32 t; spawnThread(s, n, a[1].c, t); return ret(Val::I(t, 32)); }
    case b_thr_join: {
      if (visible(r, 0, 0x10000ull + a[0].c)) return r;
      u64 t = a[0].c; if (t >= s.th.size()) throw Unsupported("join of unknown thread");
      callDone(s, I, Val());
      s.th[t].joined = true;
      if (s.th[t].st == TS::Done) { syncAcq(s, 0x10000ull + t); allJoined(s); return R::Jumped; }
      s.th[s.cur].st = TS::WaitJoin; s.th[s.cur].waitOn = t; return schedule(s, true); }
    case b_mx_lock: {
      if (visible(r, 1, a[0].c)) return r;
      u64 k = a[0].c; auto it = s.mutexOwner.find(k);
      if (it != s.mutexOwner.end()) { if (it->second == s.cur) fatal(s, "deadlock", "mutex locked twice by the same thread"); callDone(s, I, Val()); s.th[s.cur].st = TS::WaitMutex; s.th[s.cur].waitOn = k; return schedule(s, true); }
      s.mutexOwner[k] = s.cur; syncAcq(s, k); return ret(Val()); }
    case b_mx_unlock: {
      u64 k = a[0].c; auto it = s.mutexOwner.find(k); if (it == s.mutexOwner.end() || it->second != s.cur) fatal(s, "deadlock", "unlock of a mutex that is not held");
      s.mutexOwner.erase(it); syncRel(s, k); return ret(Val()); }
    case b_cv_wait: {
      if (visible(r, 0, a[0].c, a[1].c)) return r;
      u64 k = a[1].c; auto it = s.mutexOwner.find(k); if (it == s.mutexOwner.end() || it->second != s.cur) fatal(s, "deadlock", "wait without holding the mutex");
      s.mutexOwner.erase(it); syncRel(s, k); callDone(s, I, Val());
      s.th[s.cur].st = TS::WaitCond; s.th[s.cur].waitOn = a[0].c; s.th[s.cur].waitMutex = k; return schedule(s, true); }
    case b_cv_notify: {
      if (visible(r, 0, a[0].c)) return r;
      bool all = a[1].c;
      std::vector<int> w; for (size_t t = 0; t < s.th.size(); t++) if (s.th[t].st == TS::WaitCond && s.th[t].waitOn == a[0].c) w.push_back(t);
      auto wake = [](State& z, int t) { z.th[t].st = TS::WaitMutex; z.th[t].waitOn = z.th[t].waitMutex; z.th[t].atVisible = false; };
      if (all || w.size() <= 1) { for (int t : w) wake(s, t); return ret(Val()); }
      std::string k = "wake#" + std::to_string(s.varCount["wake"]++); auto fx = cfg.fix.find(k); forkOut.clear(); forkMerge = false;
      for (int t : w) { if (fx != cfg.fix.end() && (t < fx->second.first || t > fx->second.second)) continue; SP c(new State(s)); c->fixedVars[k] = t; wake(*c, t); callDone(*c, I, Val()); forkOut.push_back({std::move(c), false}); }
      if (forkOut.empty()) throw PathEnd();
      return R::Fork; }
    case b_thr_self: return ret(Val::I(s.cur, 32));
    case b_thr_count: { u64 c = 0; for (auto& t : s.th) if (t.st != TS::Done) c++; return ret(Val::I(c, 32)); }
    case b_thr_yield: if (visible(r, 0, 0)) return r; return ret(Val());
  }
  throw Unsupported("builtin " + names[id]);
}

R Engine::intrinsic(State& s, const DInst& I, std::vector<Val>& a) {
  auto ret = [&](const Val& v) { return callDone(s, I, v); };
  auto und = [&]() { Val v; v.w = I.w; return callDone(s, I, v); };
  auto anyUndef = [&](int n) { for (int i = 0; i < n; i++) if (a[i].t == VT::Undef) return true; return false; };
  auto num = [&](int i, u64& out) { return concretize(s, I.ops[i], out); };
  u64 n, m, q;
  switch (I.intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      if (!num(2, q)) return R::Fork;
      if (!q) return ret(Val());
      if (!num(0, n)) return R::Fork;
      if (!num(1, m)) return R::Fork;
      memCopy(s, n, m, q); return ret(Val());
    case Intrinsic::memset: if (!num(2, q)) return R::Fork; if (!q) return ret(Val()); if (!num(0, n)) return R::Fork; memSet(s, n, a[1], q); return ret(Val());
    case Intrinsic::vastart: { u64 va = top(s).va; if (!va) throw Unsupported("va_start"); if (!num(0, n)) return R::Fork; storeC(s, n, Val::I(0, 32), 4); storeC(s, n + 4, Val::I(48, 32), 4); storeC(s, n + 8, Val::I(va + 176, 64), 8); storeC(s, n + 16, Val::I(va, 64), 8); return ret(Val()); }
    case Intrinsic::vaend: return ret(Val());
    case Intrinsic::vacopy: if (!num(0, n) || !num(1, m)) return R::Fork; memCopy(s, n, m, 24); return ret(Val());
    case Intrinsic::lifetime_start: return ret(Val());
    case Intrinsic::lifetime_end: return ret(Val());
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return ret(Val());
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return ret(Val::I(0, 64));
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: return ret(a[0]);
    case Intrinsic::is_constant: return ret(Val::I(0, 1));
    case Intrinsic::objectsize: return ret(Val::I(a[1].c ? 0 : ~0ull, I.w));
    case Intrinsic::trap: fatal(s, "abort", "trap");
    case Intrinsic::eh_typeid_for: return ret(Val::I(typeId(a[0].c), 32));
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      if (anyUndef(2)) return und();
      E x = a[0].e(), y = a[1].e(); K k = (I.intrin == Intrinsic::umin || I.intrin == Intrinsic::umax) ? K::Ult : K::Slt; bool mn = I.intrin == Intrinsic::umin || I.intrin == Intrinsic::smin;
      return ret(iteVal(mkBin(k, x, y), mn ? a[0] : a[1], mn ? a[1] : a[0])); }
    case Intrinsic::abs: { if (anyUndef(1)) return und(); E e = a[0].e(); return ret(Val::X(mkIte(mkBin(K::Slt, e, mkConst(0, e->w)), mkBin(K::Sub, mkConst(0, e->w), e), e))); }
    case Intrinsic::fabs: if (anyUndef(1)) return und(); return ret(Val::Dv(dAbs(asD(a[0]))));
    case Intrinsic::sqrt: if (anyUndef(1)) return und(); return ret(fpRound(Val::Dv(dMap(asD(a[0]), [](double x) { return std::sqrt(x); })), I.ty));
    case Intrinsic::floor: if (anyUndef(1)) return und(); return ret(Val::Dv(dFloor(asD(a[0]))));
    case Intrinsic::ceil: if (anyUndef(1)) return und(); return ret(Val::Dv(dMap(asD(a[0]), [](double x) { return std::ceil(x); })));
    case Intrinsic::round: if (anyUndef(1)) return und(); return ret(Val::Dv(dMap(asD(a[0]), [](double x) { return std::round(x); })));
    case Intrinsic::trunc: if (anyUndef(1)) return und(); return ret(Val::Dv(dMap(asD(a[0]), [](double x) { return std::trunc(x); })));
    case Intrinsic::rint: case Intrinsic::nearbyint: if (anyUndef(1)) return und(); return ret(Val::Dv(dMap(asD(a[0]), [](double x) { return std::nearbyint(x); })));
    case Intrinsic::exp: if (anyUndef(1)) return und(); return ret(Val::Dv(dMap(asD(a[0]), [](double x) { return std::exp(x); })));
    case Intrinsic::log: if (anyUndef(1)) return und(); return ret(Val::Dv(dMap(asD(a[0]), [](double x) { return std::log(x); })));
    case Intrinsic::pow: { if (anyUndef(2)) return und(); D x = asD(a[0]), y = asD(a[1]); if (y.conc() && y.c == 2 && !x.conc()) return ret(Val::Dv(dBin('*', x, x))); return ret(Val::Dv(dMap2(x, y, [](double p, double q) { return std::pow(p, q); }))); }
    case Intrinsic::powi: { if (anyUndef(2)) return und(); int e = sextw(a[1].c, 32); D x = asD(a[0]); if (e == 2) return ret(Val::Dv(dBin('*', x, x))); return ret(Val::Dv(dMap(x, [e](double p) { return std::pow(p, e); }))); }
    case Intrinsic::copysign: if (anyUndef(2)) return und(); return ret(Val::Dv(dMap2(asD(a[0]), asD(a[1]), [](double p, double q) { return std::copysign(p, q); })));
    case Intrinsic::minnum: case Intrinsic::maxnum: { if (anyUndef(2)) return und(); D x = asD(a[0]), y = asD(a[1]); E xn = dIsNaN(x), yn = dIsNaN(y); E c = mkOr(yn, mkAnd(mkNot(xn), dCmp(x, y, I.intrin == Intrinsic::minnum ? 4 : 2))); return ret(Val::Dv(dIte(c, x, y))); }
    case Intrinsic::fmuladd: if (anyUndef(3)) return und(); return ret(Val::Dv(dBin('+', dBin('*', asD(a[0]), asD(a[1])), asD(a[2]))));
    case Intrinsic::is_fpclass: {
      if (anyUndef(1)) return und(); D x = asD(a[0]); u64 mask = a[1].c;
      if (x.conc()) { double v = x.c; int c = v != v ? 3 : std::isinf(v) ? (v < 0 ? 4 : 0x200) : v == 0 ? (std::signbit(v) ? 0x20 : 0x40) : std::fpclassify(v) == FP_SUBNORMAL ? (v < 0 ? 0x10 : 0x80) : (v < 0 ? 8 : 0x100); return ret(Val::I((c & mask) != 0, 1)); }
      E e = mkBool(false);
      if (mask & 3) e = mkOr(e, dIsNaN(x));
      if (mask & 0x200) e = mkOr(e, dCmp(x, D(INFINITY), 1));
      if (mask & 4) e = mkOr(e, dCmp(x, D(-INFINITY), 1));
      if (mask & ~0x207ull) throw Unsupported("is_fpclass mask");
      return ret(Val::X(e)); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      if (a[0].t == VT::Undef || a[1].t == VT::Undef) { auto* g = new Agg(); g->v.resize(2); return ret(Val::A(g)); }
      unsigned w = a[0].w; auto* g = new Agg();
      if (!a[0].conc() || !a[1].conc()) { u64 d; if (!a[0].conc() && !num(0, d)) return R::Fork; if (!a[1].conc() && !num(1, d)) return R::Fork; }
      u64 x = a[0].c, y = a[1].c; u64 r; bool ov; __int128 sx = sextw(x, w), sy = sextw(y, w), sr; unsigned __int128 ux = x, uy = y, ur;
      switch (I.intrin) {
        case Intrinsic::uadd_with_overflow: ur = ux + uy; r = (u64)ur; ov = ur > maskw(w); break;
        case Intrinsic::usub_with_overflow: r = x - y; ov = x < y; break;
        case Intrinsic::umul_with_overflow: ur = ux * uy; r = (u64)ur; ov = ur > maskw(w); break;
        default: sr = I.intrin == Intrinsic::sadd_with_overflow ? sx + sy : I.intrin == Intrinsic::ssub_with_overflow ? sx - sy : sx * sy; r = (u64)sr; ov = sr != (__int128)sextw((u64)sr, w); break;
      }
      g->v = {Val::I(r, w), Val::I(ov, 1)}; return ret(Val::A(g)); }
    case Intrinsic::usub_sat: { if (anyUndef(2)) return und(); E x = a[0].e(), y = a[1].e(); return ret(Val::X(mkIte(mkBin(K::Ult, x, y), mkConst(0, x->w), mkBin(K::Sub, x, y)))); }
    case Intrinsic::uadd_sat: { if (anyUndef(2)) return und(); E x = a[0].e(), y = a[1].e(), r = mkBin(K::Add, x, y); return ret(Val::X(mkIte(mkBin(K::Ult, r, x), mkConst(~0ull, x->w), r))); }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
      if (anyUndef(1)) return und();
      if (!num(0, n)) return R::Fork;
      unsigned w = I.w; u64 r = 0;
      if (I.intrin == Intrinsic::ctpop) r = __builtin_popcountll(n); else if (I.intrin == Intrinsic::ctlz) { r = w; for (int i = w - 1; i >= 0; i--) if (n >> i & 1) { r = w - 1 - i; break; } } else if (I.intrin == Intrinsic::cttz) { r = w; for (unsigned i = 0; i < w; i++) if (n >> i & 1) { r = i; break; } } else r = w == 64 ? __builtin_bswap64(n) : w == 32 ? __builtin_bswap32(n) : __builtin_bswap16(n);
      return ret(Val::I(r, w)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (anyUndef(3)) return und();
      unsigned w = I.w; if (!num(2, q)) return R::Fork; q %= w;
      E x = a[0].e(), y = a[1].e(); if (I.intrin == Intrinsic::fshr) { if (q == 0) return ret(a[1]); q = w - q; }
      if (q == 0) return ret(a[0]);
      return ret(Val::X(mkBin(K::Or, mkBin(K::Shl, x, mkConst(q, w)), mkBin(K::LShr, y, mkConst(w - q, w))))); }
    default: throw Unsupported("intrinsic " + Intrinsic::getName((Intrinsic::ID)I.intrin).str());
  }
}
