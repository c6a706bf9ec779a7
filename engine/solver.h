// QF_BV queries through z3's C API.
#pragma once
#include "expr.h"
#include <bitset>
#include <z3.h>

typedef std::bitset<512> VarSet;
enum class Res { Sat, Unsat, Unknown };

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, coreHits = 0; double seconds = 0, maxSeconds = 0; u64 sweeps = 0, sweepMerged = 0; };

class Solver {
public:
  Solver();
  // is (pc and extra) satisfiable?  pc is known to be satisfiable and `base` is a model of it; the answer's model extends base
  Res check(const std::vector<E>& pc, E extra, const Model& base, Model* out);
  SolverStats st;
  unsigned timeoutMs = 60000;
  std::string dumpDir;            // when set, every query is also written as SMT-LIB 2
  const VarSet& support(E e);
private:
  Z3_context c;
  Res solve(const std::vector<E>& rel, E extra, const VarSet& vs, unsigned ms, Model* m);
  Res solveInc(const std::vector<E>& rel, E extra, const VarSet& vs, unsigned ms, Model* m, std::vector<u32>* core);
  Z3_ast lit(E e);
  Z3_solver inc = nullptr; std::unordered_map<u32, Z3_ast> lits; std::unordered_map<Z3_ast, u32> litId; std::vector<char> ranged; u64 incSize = 0;
  std::unordered_map<u32, std::vector<std::vector<u32>>> cores;   // unsatisfiable sets of constraints, by the question asked
  bool sweep(std::vector<E>& rel, E& extra);   // merges equal sub-terms, each merge proved; true if something changed
  bool equal(E a, E b, const std::vector<E>& cuts);
  std::unordered_map<u32, E> rep; std::unordered_map<u64, char> eqMemo; std::vector<E> cuts; std::vector<char> isCut;
  Z3_ast bv(E e); Z3_ast bo(E e);
  Z3_ast table(const std::vector<u64>& v, Z3_ast idx, unsigned iw, unsigned w, bool asBool);
  std::vector<Z3_ast> bvMemo, boMemo, vars;
  std::unordered_map<u32, VarSet> sup;
  std::unordered_map<std::string, std::pair<Res, Model>> cache;
  u64 dumped = 0;
};
E dBitsLower(const DNode* d);
