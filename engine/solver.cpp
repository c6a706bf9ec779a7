#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>

static void onErr(Z3_context c, Z3_error_code e) { throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); }

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  c = Z3_mk_context(cfg);     // ASTs live as long as the context
  Z3_set_error_handler(c, onErr);
}

const VarSet& Solver::support(E e) {
  auto it = sup.find(e->id);
  if (it != sup.end()) return it->second;
  VarSet s;
  if (e->k == K::Var) { if (e->c >= s.size()) throw Unsupported("too many symbolic variables"); s.set(e->c); }
  else if (e->k == K::DBits) s = support(dBitsLower(e->dn));
  else for (int i = 0; i < 3; i++) if (e->a[i]) s |= support(e->a[i]);
  return sup.emplace(e->id, s).first->second;
}

Z3_ast Solver::table(const std::vector<u64>& v, Z3_ast idx, unsigned iw, unsigned w, bool asBool) {
  Z3_sort s = Z3_mk_bv_sort(c, w);
  std::vector<Z3_ast> bits(iw);
  for (unsigned b = 0; b < iw; b++) {
    Z3_ast x = Z3_mk_extract(c, b, b, idx);
    bits[b] = Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
  }
  std::function<Z3_ast(unsigned, u64)> rec = [&](unsigned nb, u64 base) -> Z3_ast { // entries base .. base + 2^nb - 1
    u64 lo = std::min<u64>(base, v.size() - 1), hi = std::min<u64>(base + (nb >= 63 ? ~0ull >> 1 : (1ull << nb) - 1), v.size() - 1);
    bool same = true;
    for (u64 i = lo; i <= hi && same; i++) if (v[i] != v[lo]) same = false;
    if (same) { if (asBool) return v[lo] ? Z3_mk_true(c) : Z3_mk_false(c); return Z3_mk_unsigned_int64(c, v[lo], s); }
    Z3_ast l = rec(nb - 1, base), h = rec(nb - 1, base + (1ull << (nb - 1)));
    if (l == h) return l;
    return Z3_mk_ite(c, bits[nb - 1], h, l);
  };
  return rec(iw, 0);
}

Z3_ast Solver::bo(E e) {
  if (boMemo.size() <= e->id) boMemo.resize(e->id + 1024, nullptr);
  if (boMemo[e->id]) return boMemo[e->id];
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case K::Not: r = Z3_mk_not(c, bo(e->a[0])); break;
    case K::And: { Z3_ast x[2] = {bo(e->a[0]), bo(e->a[1])}; r = Z3_mk_and(c, 2, x); break; }
    case K::Or: { Z3_ast x[2] = {bo(e->a[0]), bo(e->a[1])}; r = Z3_mk_or(c, 2, x); break; }
    case K::Xor: r = Z3_mk_xor(c, bo(e->a[0]), bo(e->a[1])); break;
    case K::Ite: r = Z3_mk_ite(c, bo(e->a[0]), bo(e->a[1]), bo(e->a[2])); break;
    case K::Eq: r = e->a[0]->w == 1 ? Z3_mk_iff(c, bo(e->a[0]), bo(e->a[1])) : Z3_mk_eq(c, bv(e->a[0]), bv(e->a[1])); break;
    case K::Ult: r = Z3_mk_bvult(c, bv(e->a[0]), bv(e->a[1])); break;
    case K::Ule: r = Z3_mk_bvule(c, bv(e->a[0]), bv(e->a[1])); break;
    case K::Slt: r = Z3_mk_bvslt(c, bv(e->a[0]), bv(e->a[1])); break;
    case K::Sle: r = Z3_mk_bvsle(c, bv(e->a[0]), bv(e->a[1])); break;
    case K::Table: r = table(e->tab->v, bv(e->a[0]), e->a[0]->w, 1, true); break;
    default: r = Z3_mk_eq(c, bv(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); break;
  }
  if (boMemo.size() <= e->id) boMemo.resize(e->id + 1024, nullptr);
  return boMemo[e->id] = r;
}

Z3_ast Solver::bv(E e) {
  if (bvMemo.size() <= e->id) bvMemo.resize(e->id + 1024, nullptr);
  if (bvMemo[e->id]) return bvMemo[e->id];
  Z3_ast r;
  Z3_sort s = Z3_mk_bv_sort(c, e->w);
  auto A = [&](int i) { return bv(e->a[i]); };
  switch (e->k) {
    case K::Const: r = Z3_mk_unsigned_int64(c, e->c, s); break;
    case K::Var: {
      Z3_symbol sy = Z3_mk_string_symbol(c, gVars[e->c].name.c_str());
      r = Z3_mk_const(c, sy, s);
      if (vars.size() <= e->c) vars.resize(e->c + 1, nullptr);
      vars[e->c] = r; break; }
    case K::Not: if (e->w == 1) goto viaBool; r = Z3_mk_bvnot(c, A(0)); break;
    case K::And: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(c, A(0), A(1)); break;
    case K::Or: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(c, A(0), A(1)); break;
    case K::Xor: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(c, A(0), A(1)); break;
    case K::Add: r = Z3_mk_bvadd(c, A(0), A(1)); break;
    case K::Sub: r = Z3_mk_bvsub(c, A(0), A(1)); break;
    case K::Mul: r = Z3_mk_bvmul(c, A(0), A(1)); break;
    case K::UDiv: r = Z3_mk_bvudiv(c, A(0), A(1)); break;
    case K::URem: r = Z3_mk_bvurem(c, A(0), A(1)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(c, A(0), A(1)); break;
    case K::SRem: r = Z3_mk_bvsrem(c, A(0), A(1)); break;
    case K::Shl: r = Z3_mk_bvshl(c, A(0), A(1)); break;
    case K::LShr: r = Z3_mk_bvlshr(c, A(0), A(1)); break;
    case K::AShr: r = Z3_mk_bvashr(c, A(0), A(1)); break;
    case K::Ite: r = Z3_mk_ite(c, bo(e->a[0]), A(1), A(2)); break;
    case K::ZExt: r = Z3_mk_zero_ext(c, e->w - e->a[0]->w, A(0)); break;
    case K::SExt: r = Z3_mk_sign_ext(c, e->w - e->a[0]->w, A(0)); break;
    case K::Extract: r = Z3_mk_extract(c, e->c + e->w - 1, e->c, A(0)); break;
    case K::Concat: r = Z3_mk_concat(c, A(0), A(1)); break;
    case K::Table: r = table(e->tab->v, A(0), e->a[0]->w, e->w, false); break;
    case K::DBits: r = bv(dBitsLower(e->dn)); break;
    default: viaBool: r = Z3_mk_ite(c, bo(e), Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s)); break;
  }
  if (bvMemo.size() <= e->id) bvMemo.resize(e->id + 1024, nullptr);
  return bvMemo[e->id] = r;
}

Res Solver::solve(const std::vector<E>& rel, E extra, const VarSet& vs, unsigned ms, Model* m) {
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FD"));
  Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
  Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
  for (E e : rel) Z3_solver_assert(c, s, bo(e));
  Z3_solver_assert(c, s, bo(extra));
  for (size_t i = 0; i < gVars.size() && i < 512; i++) if (vs.test(i) && i < vars.size() && vars[i]) {
    const VarInfo& v = gVars[i]; Z3_sort so = Z3_mk_bv_sort(c, v.w);
    if (v.hi != maskw(v.w)) Z3_solver_assert(c, s, Z3_mk_bvule(c, vars[i], Z3_mk_unsigned_int64(c, v.hi, so)));
    if (v.lo != 0) Z3_solver_assert(c, s, Z3_mk_bvuge(c, vars[i], Z3_mk_unsigned_int64(c, v.lo, so)));
  }
  if (!dumpDir.empty()) { char fn[64]; snprintf(fn, sizeof fn, "/q%06llu.smt2", (unsigned long long)dumped++); FILE* f = fopen((dumpDir + fn).c_str(), "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(c, s)); fclose(f); } }
  Z3_lbool r = Z3_solver_check(c, s);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat && m) {
    Z3_model zm = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, zm);
    m->assign(gVars.size(), 0);
    for (size_t i = 0; i < gVars.size(); i++) {
      (*m)[i] = gVars[i].lo;
      if (i < 512 && vs.test(i) && i < vars.size() && vars[i]) { Z3_ast v; if (Z3_model_eval(c, zm, vars[i], true, &v)) { u64 x; if (Z3_get_numeral_uint64(c, v, &x)) (*m)[i] = x; } }
    }
    Z3_model_dec_ref(c, zm);
  }
  Z3_solver_dec_ref(c, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.queries++; st.seconds += dt; st.maxSeconds = std::max(st.maxSeconds, dt);
  if (res == Res::Sat) st.sat++; else if (res == Res::Unsat) st.unsat++; else st.unknown++;
  return res;
}

// ---- one solver for most questions: every constraint is asserted once behind a literal of its own, a question is a set
// of assumed literals.  What was learnt stays, and unsatisfiable cores answer later questions.
Z3_ast Solver::lit(E e) {
  auto it = lits.find(e->id); if (it != lits.end()) return it->second;
  Z3_ast l = Z3_mk_const(c, Z3_mk_string_symbol(c, ("L" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(c));
  Z3_solver_assert(c, inc, Z3_mk_implies(c, l, bo(e)));
  const VarSet& vs = support(e);
  for (size_t i = 0; i < gVars.size() && i < 512; i++) if (vs.test(i) && i < vars.size() && vars[i]) {
    if (ranged.size() <= i) ranged.resize(i + 1, 0);
    if (ranged[i]) continue;
    ranged[i] = 1;
    const VarInfo& v = gVars[i]; Z3_sort so = Z3_mk_bv_sort(c, v.w);
    if (v.hi != maskw(v.w)) Z3_solver_assert(c, inc, Z3_mk_bvule(c, vars[i], Z3_mk_unsigned_int64(c, v.hi, so)));
    if (v.lo != 0) Z3_solver_assert(c, inc, Z3_mk_bvuge(c, vars[i], Z3_mk_unsigned_int64(c, v.lo, so)));
  }
  incSize++; litId[l] = e->id; return lits[e->id] = l;
}
static u64 incMax = getenv("SX_INC") ? atoi(getenv("SX_INC")) : 40;
Res Solver::solveInc(const std::vector<E>& rel, E extra, const VarSet& vs, unsigned ms, Model* m, std::vector<u32>* core) {
  auto t0 = std::chrono::steady_clock::now();
  if (inc && incSize > incMax) { Z3_solver_dec_ref(c, inc); inc = nullptr; }
  if (!inc) { inc = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FD")); Z3_solver_inc_ref(c, inc); lits.clear(); litId.clear(); ranged.clear(); incSize = 0; }
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
  Z3_solver_set_params(c, inc, p); Z3_params_dec_ref(c, p);
  std::vector<Z3_ast> as; for (E e : rel) as.push_back(lit(e));
  as.push_back(lit(extra));
  Z3_lbool r = Z3_solver_check_assumptions(c, inc, as.size(), as.data());
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat && m) {
    Z3_model zm = Z3_solver_get_model(c, inc); Z3_model_inc_ref(c, zm);
    m->assign(gVars.size(), 0);
    for (size_t i = 0; i < gVars.size(); i++) {
      (*m)[i] = gVars[i].lo;
      if (i < 512 && vs.test(i) && i < vars.size() && vars[i]) { Z3_ast v; if (Z3_model_eval(c, zm, vars[i], true, &v)) { u64 x; if (Z3_get_numeral_uint64(c, v, &x)) (*m)[i] = x; } }
    }
    Z3_model_dec_ref(c, zm);
  }
  if (res == Res::Unsat && core) {
    Z3_ast_vector cv = Z3_solver_get_unsat_core(c, inc); Z3_ast_vector_inc_ref(c, cv);
    for (unsigned i = 0; i < Z3_ast_vector_size(c, cv); i++) { auto it = litId.find(Z3_ast_vector_get(c, cv, i)); if (it != litId.end() && it->second != extra->id) core->push_back(it->second); }
    Z3_ast_vector_dec_ref(c, cv); std::sort(core->begin(), core->end());
  }
  if (res == Res::Unknown) { Z3_solver_dec_ref(c, inc); inc = nullptr; }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.queries++; st.seconds += dt; st.maxSeconds = std::max(st.maxSeconds, dt);
  if (res == Res::Sat) st.sat++; else if (res == Res::Unsat) st.unsat++; else st.unknown++;
  return res;
}

// ---- sweeping: two differently written computations of the same thing (the code's and the specification's) usually
// agree step by step.  Candidates come from evaluating all sub-terms on random inputs; a merge is made only when the
// solver proves it, first with already merged sub-terms cut out, then with everything below them.
static E rebuild(E e, const std::function<E(E)>& f) {
  switch (e->k) {
    case K::Const: case K::Var: return e;
    case K::Not: return mkNot(f(e->a[0]));
    case K::Ite: return mkIte(f(e->a[0]), f(e->a[1]), f(e->a[2]));
    case K::ZExt: return mkZExt(f(e->a[0]), e->w);
    case K::SExt: return mkSExt(f(e->a[0]), e->w);
    case K::Extract: return mkExtract(f(e->a[0]), e->c, e->w);
    case K::Concat: return mkConcat(f(e->a[0]), f(e->a[1]));
    case K::Table: return mkTable(f(e->a[0]), e->tab->v, e->w);
    case K::DBits: return f(dBitsLower(e->dn));
    default: return mkBin(e->k, f(e->a[0]), f(e->a[1]));
  }
}
bool Solver::equal(E a, E b, const std::vector<E>& cut) {
  if (a == b) return true;
  u64 key = ((u64)std::min(a->id, b->id) << 32) | std::max(a->id, b->id);
  auto it = eqMemo.find(key); if (it != eqMemo.end()) return it->second;
  E q = mkNot(mkEq(a, b));
  if (isFalse(q)) return eqMemo[key] = true;
  if (isTrue(q)) return eqMemo[key] = false;
  if (!cut.empty() && a->w > 0) { // with merged terms replaced by unknowns of their range
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Z3_ast> from, to; std::vector<E> used;
    std::unordered_map<u32, char> seen; std::vector<E> st2{a, b};
    seen[a->id] = seen[b->id] = 1;
    while (!st2.empty()) { E e = st2.back(); st2.pop_back();
      if (e != a && e != b && e->id < isCut.size() && isCut[e->id]) { used.push_back(e); continue; }
      if (e->k == K::DBits) { E l = dBitsLower(e->dn); if (!seen[l->id]) { seen[l->id] = 1; st2.push_back(l); } continue; }
      for (int i = 0; i < 3; i++) if (e->a[i] && !seen[e->a[i]->id]) { seen[e->a[i]->id] = 1; st2.push_back(e->a[i]); } }
    if (!used.empty()) {
      Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FD")); Z3_solver_inc_ref(c, s);
      Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 300); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
      Z3_ast qa = bo(q);
      for (E e : used) {
        Z3_sort so = Z3_mk_bv_sort(c, e->w); Z3_ast x = bv(e);
        Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, ("cut" + std::to_string(e->id)).c_str()), so);
        from.push_back(x); to.push_back(v);
        if (e->hi != maskw(e->w)) Z3_solver_assert(c, s, Z3_mk_bvule(c, v, Z3_mk_unsigned_int64(c, e->hi, so)));
        if (e->lo) Z3_solver_assert(c, s, Z3_mk_bvuge(c, v, Z3_mk_unsigned_int64(c, e->lo, so)));
      }
      Z3_solver_assert(c, s, Z3_substitute(c, qa, from.size(), from.data(), to.data()));
      const VarSet& vs = support(q);
      for (size_t i = 0; i < gVars.size() && i < 512; i++) if (vs.test(i) && i < vars.size() && vars[i]) {
        const VarInfo& v = gVars[i]; Z3_sort so = Z3_mk_bv_sort(c, v.w);
        if (v.hi != maskw(v.w)) Z3_solver_assert(c, s, Z3_mk_bvule(c, vars[i], Z3_mk_unsigned_int64(c, v.hi, so)));
        if (v.lo != 0) Z3_solver_assert(c, s, Z3_mk_bvuge(c, vars[i], Z3_mk_unsigned_int64(c, v.lo, so))); }
      Z3_lbool r = Z3_solver_check(c, s);
      Z3_solver_dec_ref(c, s);
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.queries++; st.seconds += dt; if (r == Z3_L_FALSE) st.unsat++; else if (r == Z3_L_TRUE) st.sat++; else st.unknown++;
      if (r == Z3_L_FALSE) return eqMemo[key] = true;
    }
  }
  VarSet vs = support(q);
  Res r = solve({}, q, vs, 400, nullptr);
  if (r == Res::Unknown) st.unknown--;   // only an attempt
  if (getenv("SX_SWEEP")) fprintf(stderr, "equal -> %d\n   %s\n   %s\n", (int)r, exprStr(a, 6).c_str(), exprStr(b, 6).c_str());
  return eqMemo[key] = r == Res::Unsat;
}
bool Solver::sweep(std::vector<E>& rel, E& extra) {
  st.sweeps++;
  // random inputs
  const int N = 48; static u64 rng = 0x1234567u; std::vector<Model> ms;
  auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  for (int k = 0; k < N; k++) { Model m; for (auto& v : gVars) { u64 r = v.hi - v.lo; u64 x = k == 0 ? 0 : k % 4 == 1 ? rnd() % (std::min<u64>(r, 2) + 1) : r == ~0ull ? rnd() : rnd() % (r + 1); m.push_back(v.lo + x); } ms.push_back(m); }
  std::unordered_map<u32, u64> sig, sig2; std::unordered_map<u32, char> cst;
  // order
  std::vector<E> order; std::unordered_map<u32, char> seen;
  std::function<void(E)> visit = [&](E e) { if (seen[e->id]) return; seen[e->id] = 1; if (e->k == K::DBits) visit(dBitsLower(e->dn)); for (int i = 0; i < 3; i++) if (e->a[i]) visit(e->a[i]); order.push_back(e); };
  for (E e : rel) visit(e);
  visit(extra);
  auto sign = [&](std::vector<E>& es) {
    std::vector<u64> h(es.size(), 1469598103934665603ull), g(h); std::vector<u64> f(es.size()); std::vector<char> same(es.size(), 1);
    for (int k = 0; k < N; k++) { evalEpoch(); for (size_t i = 0; i < es.size(); i++) { E e = es[i]; u64 v = e->w == 1 ? evalExpr(e, ms[k]) : (u64)sextw(evalExpr(e, ms[k]), e->w); if (!k) f[i] = v; else if (v != f[i]) same[i] = 0; h[i] = (h[i] ^ v) * 1099511628211ull; h[i] ^= h[i] >> 31; g[i] = (g[i] ^ (v & maskw(e->w))) * 1099511628211ull; g[i] ^= g[i] >> 31; } }
    for (size_t i = 0; i < es.size(); i++) { sig[es[i]->id] = h[i]; sig2[es[i]->id] = g[i] ^ 0x77; cst[es[i]->id] = same[i]; } };
  sign(order);
  std::unordered_map<u64, std::vector<E>> cls; std::unordered_map<u32, E> R; bool changed = false; u64 budget = 4000;
  auto t0 = std::chrono::steady_clock::now();
  auto f = [&](E e) -> E { auto it = R.find(e->id); return it == R.end() ? e : it->second; };
  for (E e : order) {
    E n = rebuild(e, f);
    R[e->id] = n;
    if (isC(n) || n->k == K::Var || n->k == K::ZExt || n->k == K::SExt || n->k == K::Extract || n->k == K::Not || n->k == K::Concat || n->k == K::DBits) { if (n != e) changed = true; continue; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > std::max(20.0, timeoutMs / 2000.0) || !budget) continue;
    if (!sig.count(n->id)) { std::vector<E> one{n}; sign(one); }
    u64 sg = sig[n->id] ^ (n->w == 1 ? 0x5555ull : 0);
    if (cst[n->id] && n->w <= 64) { E k = mkConst(evalExpr(n, ms[0]), n->w); evalEpoch(); k = mkConst(evalExpr(n, ms[0]), n->w); budget--; if (equal(n, k, cuts)) { R[e->id] = k; changed = true; st.sweepMerged++; continue; } }
    if (n->w == 1) { if (n != e) changed = true; continue; }   // merging conditions hides the structure the numbers share
    bool done = false;
    for (int uns = 0; uns < 2 && !done; uns++) { int tries = 0;
    for (E r : cls[uns ? sig2[n->id] : sg]) {
      if (r == n) { done = true; break; }
      if (++tries > 4) break;
      E x = n, y = r; unsigned w = std::max(n->w, r->w);
      if (n->w != r->w) { x = n->w == w ? n : uns ? mkZExt(n, w) : mkSExt(n, w); y = r->w == w ? r : uns ? mkZExt(r, w) : mkSExt(r, w); }
      budget--;
      if (equal(x, y, cuts)) {
        E to = r->w == n->w ? r : r->w < n->w ? (uns ? mkZExt(r, n->w) : mkSExt(r, n->w)) : mkExtract(r, 0, n->w);
        R[e->id] = to; changed = true; st.sweepMerged++; done = true;
        if (r->w > 1 && r->k != K::Var) { if (isCut.size() <= r->id) isCut.resize(r->id + 1024, 0); if (!isCut[r->id]) { isCut[r->id] = 1; cuts.push_back(r); } }
        break; }
    } }
    if (!done) { cls[sg].push_back(n); cls[sig2[n->id]].push_back(n); }
    if (n != e) changed = true;
  }
  for (E& e : rel) e = f(e);
  extra = f(extra);
  return changed;
}

Res Solver::check(const std::vector<E>& pc, E extra, const Model& base, Model* out) {
  if (isFalse(extra)) return Res::Unsat;
  // keep only the constraints that share variables (transitively) with the question
  VarSet vs = support(extra);
  std::vector<E> rel; std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { const VarSet& s = support(pc[i]); if ((s & vs).any()) { used[i] = 1; VarSet n = vs | s; if (n != vs) { vs = n; ch = true; } rel.push_back(pc[i]); } } }
  std::vector<u32> ids; for (E e : rel) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  { auto ci = cores.find(extra->id); if (ci != cores.end()) for (auto& k : ci->second) if (std::includes(ids.begin(), ids.end(), k.begin(), k.end())) { st.coreHits++; return Res::Unsat; } }
  ids.push_back(extra->id);
  std::string key((const char*)ids.data(), ids.size() * sizeof(u32));
  auto merge = [&](const Model& m) { if (!out) return; Model r(base); r.resize(gVars.size()); for (size_t i = base.size(); i < r.size(); i++) r[i] = gVars[i].lo; for (size_t i = 0; i < gVars.size(); i++) if (i < 512 && vs.test(i)) r[i] = i < m.size() ? m[i] : gVars[i].lo; *out = r; };
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (it->second.first == Res::Sat) merge(it->second.second); return it->second.first; }
  Model m; const unsigned first = 2500;
  Res res; static bool noInc = getenv("SX_NOINC");
  // short questions go to a reused solver that also names the constraints it needed; long ones to a fresh solver
  static u64 tried = 0, slow = 0; bool inc = !noInc && dumpDir.empty() && slow * 5 < tried + 20;
  if (!inc) res = solve(rel, extra, vs, std::min(timeoutMs, first), &m);
  else { std::vector<u32> core; tried++; auto t0 = std::chrono::steady_clock::now(); res = solveInc(rel, extra, vs, 150, &m, &core);
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0.08) slow++;
    if (res == Res::Unknown) { st.unknown--; res = solve(rel, extra, vs, std::min(timeoutMs, first), &m); }
    else if (res == Res::Unsat) { auto& cl = cores[extra->id]; if (cl.size() < 64) cl.push_back(core); } }
  if (res == Res::Unknown && timeoutMs > first) {
    st.unknown--;
    E ex = extra;
    sweep(rel, ex);
    bool no = isFalse(ex); for (E e : rel) if (isFalse(e)) no = true;
    if (no) res = Res::Unsat;
    else { VarSet v2 = vs; res = solve(rel, ex, v2, timeoutMs, &m); }
  }
  if (res != Res::Unknown) cache.emplace(key, std::make_pair(res, m));
  if (res == Res::Sat) merge(m);
  return res;
}
