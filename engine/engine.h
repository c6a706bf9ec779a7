#pragma once
#include "exec.h"
#include <chrono>

struct Stop { int tid; size_t depth; int block; };   // block == -1: return from the frame at `depth`
enum class R { Next, Jumped, Dead, Fork };

struct Incomplete : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathEnd {};                       // the current path ends here (error already reported, or assumption false)

u64 evM(State& s, E e);                // value under the state's current model

class Engine {
public:
  Config cfg; Solver sol;
  std::vector<Violation> viol; std::map<std::string, u64> reach; std::set<std::string> violKeys;
  std::string incomplete; u64 paths = 0, completed = 0, steps = 0, forks = 0, merges = 0, cacheCut = 0, mergeFail = 0, asserts = 0, assertQueries = 0;
  std::set<std::string> unsupported;
  std::map<std::string, u64> mergeWhy; std::map<std::string, u64> forkSites;
  struct Sample { std::map<std::string, long long> in; std::vector<std::pair<std::string, double>> obs; };
  std::vector<Sample> samples; void sample(State& s);
  bool stopAll = false;

  Engine(llvm::Module& m, const Config& c);
  void explore(const std::string& entry);
  std::vector<std::string> executedRepoFunctions() const;

private:
  llvm::Module& M; const llvm::DataLayout& DL;
  std::map<const llvm::Function*, DFunc*> funcs; std::vector<DFunc*> funcList;
  std::map<u32, DFunc*> funcByObj; std::map<const llvm::GlobalValue*, u64> gaddr;
  std::map<std::string, const llvm::GlobalVariable*> externGlobals;
  Memory mem0; std::map<u64, u32> typeIds; u64 errnoAddr = 0;
  std::map<std::string, int> builtinIds;
  std::map<std::string, E> varByKey;
  static std::map<std::string, long long> inputs(const State& s, const Model& m);
  std::chrono::steady_clock::time_point t0;
  std::vector<std::pair<SP, bool>> forkOut;           // children produced by the last Fork; Stop in forkStop
  Stop forkStop; bool forkMerge = false;
  u64 lastCheck = 0;

  // setup
  void initGlobals(); void writeConst(Memory& m, u64 a, const llvm::Constant* c); Val constVal(const llvm::Constant* c);
  DFunc* fn(const llvm::Function* F); void decode(DFunc* f); Opnd opnd(DFunc* f, const llvm::Value* v, const std::map<const llvm::Value*, u32>& slots);
  void postdom(DFunc* f); void liveness(DFunc* f);
  unsigned widthOf(llvm::Type* t); unsigned sizeOf(llvm::Type* t) { return DL.getTypeStoreSize(t).getFixedValue(); }

  // running
  void run(SP s, const Stop* stop, std::vector<SP>& arrived, std::vector<SP>& escaped, int depth);
  R step(State& s); R exec(State& s, const DInst& I);
  R branch(State& s, const DInst& I, E cond, int t, int f);
  void jump(State& s, int blk); void pushFrame(State& s, DFunc* f, const std::vector<Val>& args, const llvm::CallBase* cb);
  R doRet(State& s, const Val& v, bool has); R callDone(State& s, const DInst& I, const Val& v);
  R doCall(State& s, const DInst& I); R builtin(State& s, const DInst& I, int id, std::vector<Val>& a); R intrinsic(State& s, const DInst& I, std::vector<Val>& a);
  R throwExc(State& s, u64 obj); R unwind(State& s, u64 obj);
  bool typeMatches(State& s, u64 thrown, u64 caught); u32 typeId(u64 ti);
  std::vector<SP> mergeAll(std::vector<SP>& v); bool tryMerge(State& a, State& b);
  bool mergeMem(State& a, State& b, E g);
  bool stopHit(State& s, const Stop& st);

  Val get(State& s, const Opnd& o) { return o.isC ? o.c : s.fr().back()->regs[o.slot]; }
  void set(State& s, u32 dst, const Val& v) { if (dst != ~0u) s.fr().back().own()->regs[dst] = v; }
  Frame& top(State& s) { return *s.fr().back().own(); }

  Val load(State& s, const Val& addr, llvm::Type* t); void store(State& s, const Val& addr, const Val& v, unsigned size);
  Val loadC(State& s, u64 a, unsigned size, bool isDbl, unsigned w); void storeC(State& s, u64 a, const Val& v, unsigned size);
  Val objLoad(const Obj* o, u32 off, unsigned size, bool isDbl, unsigned w); void objStore(Obj* o, u32 off, const Val& v, unsigned size);
  void clearSym(Obj* o, u32 off, unsigned size);
  void memCopy(State& s, u64 d, u64 src, u64 n); void memSet(State& s, u64 d, const Val& v, u64 n);
  Obj* checkAccess(State& s, u64 a, u64 size, bool write, u32& off, bool soft = false, std::string* err = nullptr);
  std::vector<std::pair<u64, E>> resolve(State& s, const Val& a, u64 size, bool write);
  void prune(State& s, std::vector<std::pair<u64, E>>& r);
  Val iteVal(E c, const Val& a, const Val& b);
  u64 doAlloc(State& s, u64 n, OK k); void doFree(State& s, u64 a, OK k, bool sized);
  bool concretize(State& s, const Opnd& o, u64& out);   // false: forked (children in forkOut)
  std::string cstr(State& s, u64 a);
  void race(State& s, u64 a, u64 size, bool write); void syncAcq(State& s, u64 key); void syncRel(State& s, u64 key);
  void seenBefore(State& s); void allJoined(State& s); std::unordered_map<u64, std::vector<SP>> cache;
  R schedule(State& s, bool mustSwitch); void spawnThread(State& s, u64 fnp, u64 arg, u32& tid);

  bool feasible(State& s, E cond, Model* m); void ensure(State& s); bool pureRegion(DFunc* f, int blk, int join); bool pureFn(DFunc* f, int depth); bool pureInst(DFunc* f, const DInst& I, int depth);
  void assume(State& s, E c);
  void report(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
  [[noreturn]] void fatal(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) { report(s, kind, msg, m); throw PathEnd(); }
  std::string where(State& s); std::string stack(State& s);
  E newVar(State& s, const std::string& name, i64 lo, i64 hi, i64& rlo, i64& rhi);
  Val arith(State& s, const DInst& I, const Val& a, const Val& b); Val fpRound(const Val& v, llvm::Type* t);
  D asD(const Val& v); E asE(const Val& v, unsigned w);
  void tick();
};
