// Symbolic interpreter for LLVM IR.
#pragma once
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <list>
#include <set>

struct Agg;
enum class VT : u8 { Undef, Int, Dbl, Agg };
struct Val {
  VT t = VT::Undef; u8 w = 0; u8 um = 0;     // um: mask of undefined bytes of a concrete/symbolic int
  u64 c = 0;                                  // concrete int value, or bits of a concrete double
  const void* p = nullptr;                    // E (Int), DNode (Dbl), Agg
  static Val I(u64 v, unsigned w) { Val x; x.t = VT::Int; x.w = w; x.c = v & maskw(w); return x; }
  static Val X(E e) { if (isC(e)) return I(e->c, e->w); Val x; x.t = VT::Int; x.w = e->w; x.p = e; return x; }
  static Val Dv(D d) { Val x; x.t = VT::Dbl; x.w = 64; if (d.n) x.p = d.n; else x.c = dblBits(d.c); return x; }
  static Val A(const Agg* a) { Val x; x.t = VT::Agg; x.p = a; return x; }
  bool conc() const { return !p; }
  E e() const { return p ? (E)p : mkConst(c, w); }
  D d() const { return p ? D((const DNode*)p) : D(bitsDbl(c)); }
  const Agg* agg() const { return (const Agg*)p; }
  bool same(const Val& o) const { return t == o.t && w == o.w && c == o.c && p == o.p && um == o.um; }
};
struct Agg { std::vector<Val> v; };

// ---- memory --------------------------------------------------------------------------------------
enum class OK : u8 { Global, Const, Stack, Malloc, New, NewArr, Func, Exc };
struct SymCell { Val v; u8 size; };
struct Obj {
  int rc = 0;
  u32 size = 0; OK kind = OK::Global; bool alive = true; 
  std::vector<u8> bytes, init, tag;          // tag: cell size at a cell's first byte, 0 inside
  std::map<u32, SymCell> sym;
  u32 site = 0;
};
template <class T> struct Ref {
  T* p = nullptr;
  Ref() {} Ref(T* x) : p(x) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
  T* own() { if (p->rc > 1) { T* n = new T(*p); n->rc = 0; *this = Ref(n); } return p; }
};
static const u64 ADDR_SHIFT = 24, ADDR_BASE = 0x1000;
struct Chunk { int rc = 0; Ref<Obj> o[64]; };
struct Memory {
  std::vector<Ref<Chunk>> ch; u32 n = 0;
  std::vector<u32> tn; int tcur = 0;          // with several threads: next id of each, from ranges of their own, so that ids do not depend on the interleaving
  static const u32 TREGION = 16384; void spawn();
  u32 alloc(u32 size, OK kind, u32 site, bool zero = false);
  Obj* get(u32 id) const { if (id >= n || !ch[id >> 6]) return nullptr; return ch[id >> 6]->o[id & 63].p; }
  Obj* own(u32 id) { Chunk* c = ch[id >> 6].own(); return c->o[id & 63].own(); }
  void set(u32 id, Ref<Obj> o);
  static u64 addr(u32 id) { return (u64)(id + ADDR_BASE) << ADDR_SHIFT; }
  static u32 idOf(u64 a) { u64 i = (a >> ADDR_SHIFT); return i < ADDR_BASE ? 0xffffffffu : (u32)(i - ADDR_BASE); }
  static u32 offOf(u64 a) { return a & ((1u << ADDR_SHIFT) - 1); }
};

// ---- decoded program -----------------------------------------------------------------------------
struct Opnd { bool isC = false; u32 slot = 0; Val c; };
struct DFunc;
struct GepTerm { Opnd o; i64 scale; };
struct DInst {
  unsigned op = 0; u32 dst = ~0u; const llvm::Instruction* I = nullptr; llvm::Type* ty = nullptr;
  std::vector<Opnd> ops; unsigned w = 0; unsigned aux = 0; u64 aux2 = 0;
  std::vector<int> succ; std::vector<u64> cases; // terminators
  std::vector<GepTerm> gep; i64 gepOff = 0;
  DFunc* callee = nullptr; int builtin = -1; int intrin = 0; bool isDbl = false;
  std::vector<unsigned> idx;
};
struct DBlock { std::vector<DInst> in; std::vector<std::pair<int, std::vector<std::pair<u32, Opnd>>>> phis; const llvm::BasicBlock* B; int ipdom = -2; std::vector<u64> live; int pure = -1; };
struct DFunc { const llvm::Function* F; std::string name, file; bool decoded = false; bool fromRepo = false; u32 nslots = 0; std::vector<DBlock> bl; u32 id; bool executed = false; u64 calls = 0; u64 vararg = 0; int pure = -1; };

struct Frame {
  int rc = 0;
  DFunc* f; int blk = 0; u32 ip = 0; int pred = -1; std::vector<Val> regs; std::vector<u32> allocas; Val excVal; bool silent = false; u64 va = 0;               // va: where the arguments beyond the named ones are kept
  bool inDbl = false;                            // this function or one it was called by returns a double
};

struct ExcInfo { u64 tinfo = 0, dtor = 0; int handlers = 0; int refs = 0; bool rethrown = false; bool operator==(const ExcInfo& o) const { return tinfo == o.tinfo && handlers == o.handlers && refs == o.refs && rethrown == o.rethrown; } };
enum class TS : u8 { Run, WaitMutex, WaitCond, WaitJoin, WaitFlag, Done };
struct Thread { std::vector<Ref<Frame>> fr; TS st = TS::Run; u64 waitOn = 0, waitMutex = 0; std::vector<u64> caught; std::vector<u32> clock; bool resumed = false, atVisible = false; bool joined = false; u8 pk = 0; u64 po[2] = {0, 0}; };
struct RaceCell { int wt = -1; u32 wc = 0; std::vector<u32> rc; };

struct State {
  std::vector<Thread> th; int cur = 0;
  Memory mem; std::vector<E> pc; Model model;
  std::map<u64, ExcInfo> exc;
  std::map<std::string, int> varCount; std::map<std::string, std::pair<E, i64>> vars;
  u64 steps = 0; int mergeMode = 1; int preempt = 0; bool atBlock = false; bool multi = false; int modeBefore = 1;
  std::map<u64, int> mutexOwner;                 // address -> thread
  std::map<u64, std::vector<u32>> syncClock;     // mutex / flag clocks
  std::map<u64, RaceCell> race;                  // byte-cell access history (only while several threads exist)
  bool raceOn = false;
  u64 heapLive = 0, heapBytes = 0;
  std::map<std::string, long long> fixedVars;    // inputs decided by splitting rather than by a variable
  std::vector<std::pair<std::string, Val>> obs; // sx_observe
  int spec = -1; int specDepth = 0;              // pc[spec..] is not yet known to be satisfiable (speculated side of a small diamond)
  u64 mid = 0;                                   // identity of `model`
  std::vector<Ref<Frame>>& fr() { return th[cur].fr; }
};
typedef std::unique_ptr<State> SP;

struct Violation { std::string kind, msg, where; std::map<std::string, long long> vars; };

struct Config {
  u64 maxSteps = 400000000ull, pathSteps = 20000000; double maxSeconds = 600; int maxViol = 1; bool trace = false;
  std::string repo = "/repo/"; int preempt = -1; std::string dump; bool stats = false; u64 maxPaths = 100000000;
  std::map<std::string, std::pair<i64, i64>> fix; u64 seed = 1; unsigned maxSamples = 8;
};
