#include "expr.h"
#include <algorithm>
#include <cassert>
#include <set>

std::vector<VarInfo> gVars;
size_t gMaxTable = 1u << 17;

u64 dblBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
double bitsDbl(u64 b) { double d; memcpy(&d, &b, 8); return d; }

// ---------------------------------------------------------------- hash consing
struct Key {
  K k; u8 w; u64 c; E a[3]; const void* p;
  bool operator==(const Key& o) const { return k == o.k && w == o.w && c == o.c && a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2] && p == o.p; }
};
struct KeyH { size_t operator()(const Key& k) const {
  u64 h = (u64)k.k * 0x9E3779B97F4A7C15ull + k.w;
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.c); mix((u64)k.a[0]); mix((u64)k.a[1]); mix((u64)k.a[2]); mix((u64)k.p); return h; } };
static std::unordered_map<Key, E, KeyH> gCons;
static std::deque<Expr> gPool;
size_t exprCount() { return gPool.size(); }

static E cons(K k, unsigned w, u64 c, E a, E b, E d, const IntTable* tab, const DNode* dn, u64 lo, u64 hi) {
  Key key{k, (u8)w, c, {a, b, d}, tab ? (const void*)tab : (const void*)dn};
  auto it = gCons.find(key);
  if (it != gCons.end()) return it->second;
  gPool.push_back(Expr{k, (u8)w, (u32)gPool.size(), c, {a, b, d}, tab, dn, lo, hi});
  E e = &gPool.back();
  gCons.emplace(key, e);
  return e;
}

E mkConst(u64 v, unsigned w) { v &= maskw(w); return cons(K::Const, w, v, 0, 0, 0, 0, 0, v, v); }
E mkVar(const std::string& name, unsigned w, u64 lo, u64 hi) {
  u64 idx = gVars.size();
  gVars.push_back(VarInfo{name, w, lo, hi});
  return cons(K::Var, w, idx, 0, 0, 0, 0, 0, lo, hi);
}

static u64 foldBin(K k, u64 a, u64 b, unsigned w, bool& ok) {
  ok = true;
  u64 m = maskw(w);
  switch (k) {
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: if (!b) return m; return a / b;
    case K::URem: if (!b) return a; return a % b;
    case K::SDiv: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case K::SRem: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case K::Shl: return b >= w ? 0 : (a << b) & m;
    case K::LShr: return b >= w ? 0 : a >> b;
    case K::AShr: { i64 x = sextw(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextw(a, w) < sextw(b, w);
    case K::Sle: return sextw(a, w) <= sextw(b, w);
    default: ok = false; return 0;
  }
}

static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }
static bool commut(K k) { return k == K::And || k == K::Or || k == K::Xor || k == K::Add || k == K::Mul || k == K::Eq; }

static int iteConstDepth(E e, int d) { // depth of an ite tree whose leaves are constants, or -1
  if (isC(e)) return 0;
  if (e->k != K::Ite || d <= 0) return -1;
  int x = iteConstDepth(e->a[1], d - 1); if (x < 0) return -1;
  int y = iteConstDepth(e->a[2], d - 1); if (y < 0) return -1;
  return 1 + std::max(x, y);
}

E mkNot(E a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->k == K::Not) return a->a[0];
  if (a->w == 1) {
    if (a->k == K::Ult) return mkBin(K::Ule, a->a[1], a->a[0]);
    if (a->k == K::Ule) return mkBin(K::Ult, a->a[1], a->a[0]);
    if (a->k == K::Slt) return mkBin(K::Sle, a->a[1], a->a[0]);
    if (a->k == K::Sle) return mkBin(K::Slt, a->a[1], a->a[0]);
  }
  return cons(K::Not, a->w, 0, a, 0, 0, 0, 0, a->w == 1 ? 0 : (~a->hi & maskw(a->w)), ~a->lo & maskw(a->w));
}

static bool isNotOf(E a, E b) {
  if (a->k == K::Not && a->a[0] == b) return true;
  if (b->k == K::Not && b->a[0] == a) return true;
  if (a->w == 1 && ((a->k == K::Ult && b->k == K::Ule) || (a->k == K::Ule && b->k == K::Ult) || (a->k == K::Slt && b->k == K::Sle) || (a->k == K::Sle && b->k == K::Slt)))
    return a->a[0] == b->a[1] && a->a[1] == b->a[0];
  return false;
}

E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) throw Unsupported("width mismatch in mkBin");
  unsigned rw = isCmp(k) ? 1 : w;
  if (isC(a) && isC(b)) { bool ok; u64 r = foldBin(k, a->c, b->c, w, ok); return mkConst(r, rw); }
  if (commut(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);   // const to the right
  u64 m = maskw(w);
  u64 lo = 0, hi = maskw(rw);
  switch (k) {
    case K::And:
      if (isC(b)) { if (b->c == 0) return b; if (b->c == m) return a; }
      if (a == b) return a;
      if (isNotOf(a, b)) return mkConst(0, w);
      if (w == 1) { // absorption
        if (b->k == K::And && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->k == K::And && (a->a[0] == b || a->a[1] == b)) return a;
        if (b->k == K::Or && (b->a[0] == a || b->a[1] == a)) return a;
        if (a->k == K::Or && (a->a[0] == b || a->a[1] == b)) return b;
        if (b->k == K::Or && isNotOf(b->a[0], a)) return mkAnd(a, b->a[1]);
        if (b->k == K::Or && isNotOf(b->a[1], a)) return mkAnd(a, b->a[0]);
        if (a->k == K::Or && isNotOf(a->a[0], b)) return mkAnd(b, a->a[1]);
        if (a->k == K::Or && isNotOf(a->a[1], b)) return mkAnd(b, a->a[0]);
      }
      if (isC(b)) { // mask keeping low bits of something narrow
        if (a->hi <= b->c && ((b->c + 1) & b->c) == 0) return a;
        if (a->k == K::ZExt && ((b->c + 1) & b->c) == 0 && b->c >= maskw(a->a[0]->w)) return a;
        if (((b->c + 1) & b->c) == 0 && b->c && b->c < m) { unsigned n = bitsFor(b->c); return mkZExt(mkExtract(a, 0, n), w); }
      }
      hi = std::min(a->hi, b->hi); break;
    case K::Or:
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
      if (a == b) return a;
      if (isNotOf(a, b)) return mkConst(m, w);
      if (w == 1) {
        if (b->k == K::Or && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->k == K::Or && (a->a[0] == b || a->a[1] == b)) return a;
        if (b->k == K::And && (b->a[0] == a || b->a[1] == a)) return a;
        if (a->k == K::And && (a->a[0] == b || a->a[1] == b)) return b;
        if (b->k == K::And && isNotOf(b->a[0], a)) return mkOr(a, b->a[1]);
        if (b->k == K::And && isNotOf(b->a[1], a)) return mkOr(a, b->a[0]);
        if (a->k == K::And && isNotOf(a->a[0], b)) return mkOr(b, a->a[1]);
        if (a->k == K::And && isNotOf(a->a[1], b)) return mkOr(b, a->a[0]);
        // (x & y) | (x & z) = x & (y | z)
        if (a->k == K::And && b->k == K::And)
          for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
            if (a->a[i] == b->a[j]) return mkAnd(a->a[i], mkOr(a->a[1 - i], b->a[1 - j]));
      }
      lo = std::max(a->lo, b->lo);
      { u64 h = a->hi | b->hi; hi = maskw(bitsFor(h)); if (hi > m) hi = m; if (h == 0) hi = 0; }
      break;
    case K::Xor:
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return mkNot(a); }
      break;
    case K::Add:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->k == K::Add && isC(a->a[1])) return mkBin(K::Add, a->a[0], mkConst(a->a[1]->c + b->c, w));
        if (a->k == K::Sub && isC(a->a[0])) return mkBin(K::Sub, mkConst(a->a[0]->c + b->c, w), a->a[1]);
      }
      if (a->hi <= m - b->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
      else if (isC(b) && a->lo + b->c > m && a->lo <= m) { // always wraps exactly once (adding a negative constant)
        u64 neg = (0 - b->c) & m; if (a->lo >= neg) { lo = a->lo - neg; hi = a->hi - neg; } }
      break;
    case K::Sub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(K::Add, a, mkConst(0 - b->c, w));
      if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
      break;
    case K::Mul:
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) return mkBin(K::Shl, a, mkConst(bitsFor(b->c) - 1, w));
      }
      { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= m) { hi = (u64)p; lo = a->lo * b->lo; } }
      break;
    case K::UDiv: if (isC(b) && b->c == 1) return a; if (isC(b) && b->c) { lo = a->lo / b->c; hi = a->hi / b->c; } break;
    case K::URem: if (isC(b) && b->c) { if (a->hi < b->c) return a; hi = b->c - 1; } break;
    case K::SDiv: if (isC(b) && b->c == 1) return a;
      if (a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1)) && b->lo > 0) return mkBin(K::UDiv, a, b);
      break;
    case K::SRem: if (a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1)) && b->lo > 0) return mkBin(K::URem, a, b);
      break;
    case K::Shl:
      if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); if (a->hi <= (m >> b->c)) { lo = a->lo << b->c; hi = a->hi << b->c; } }
      break;
    case K::LShr:
      if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
        if (a->hi >> b->c == 0) return mkConst(0, w);
        return mkZExt(mkExtract(a, b->c, w - b->c), w); }
      hi = a->hi; break;
    case K::AShr:
      if (isC(b)) { if (b->c == 0) return a; if (a->hi < (1ull << (w - 1))) return mkBin(K::LShr, a, b);
        unsigned s = b->c >= w ? w - 1 : b->c; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K::Eq:
      if (a == b) return mkBool(true);
      if (a->hi < b->lo || b->hi < a->lo) return mkBool(false);
      if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); if (isNotOf(a, b)) return mkBool(false); }
      if (isC(b)) {
        if (a->k == K::ZExt) { if (b->c > maskw(a->a[0]->w)) return mkBool(false); return mkEq(a->a[0], mkConst(b->c, a->a[0]->w)); }
        if (a->k == K::SExt) { u64 lowv = b->c & maskw(a->a[0]->w); if (((u64)sextw(lowv, a->a[0]->w) & m) != b->c) return mkBool(false); return mkEq(a->a[0], mkConst(lowv, a->a[0]->w)); }
        if (a->k == K::Add && isC(a->a[1])) return mkEq(a->a[0], mkConst(b->c - a->a[1]->c, w));
        if (a->k == K::Sub && isC(a->a[0])) return mkEq(a->a[1], mkConst(a->a[0]->c - b->c, w));
        if (a->k == K::Not) return mkEq(a->a[0], mkConst(~b->c, w));
        if (a->k == K::Shl && isC(a->a[1]) && a->hi == (a->a[0]->hi << a->a[1]->c)) {
          u64 s = a->a[1]->c; if (b->c & maskw(s)) return mkBool(false); return mkEq(a->a[0], mkConst(b->c >> s, w)); }
        if (a->k == K::Concat) { unsigned lw = a->a[1]->w; return mkAnd(mkEq(a->a[0], mkConst(b->c >> lw, a->a[0]->w)), mkEq(a->a[1], mkConst(b->c, lw))); }
        if (a->k == K::Table) { bool any = false, all = true; for (u64 x : a->tab->v) { if (x == b->c) any = true; else all = false; } if (!any) return mkBool(false); (void)all; }
      } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->k == K::Add && b->k == K::Add && isC(a->a[1]) && isC(b->a[1]) && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
      }
      break;
    case K::Ult: case K::Ule: {
      if (a == b) return mkBool(k == K::Ule);
      if (k == K::Ult) { if (a->hi < b->lo) return mkBool(true); if (a->lo >= b->hi) return mkBool(false); }
      else { if (a->hi <= b->lo) return mkBool(true); if (a->lo > b->hi) return mkBool(false); }
      // narrow
      unsigned n = std::max(bitsFor(a->hi), bitsFor(b->hi));
      if (n < w) return mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n));
      if (isC(b) && k == K::Ult) return mkBin(K::Ule, a, mkConst(b->c - 1, w));   // b->c > 0 here
      if (isC(a) && k == K::Ult) return mkBin(K::Ule, mkConst(a->c + 1, w), b);
      if (isC(b) && k == K::Ule && a->lo == b->c) return mkEq(a, b);
      if (isC(a) && k == K::Ule && b->hi == a->c) return mkEq(b, a);
      break; }
    case K::Slt: case K::Sle: {
      if (a == b) return mkBool(k == K::Sle);
      u64 s = 1ull << (w - 1);
      bool an = a->hi < s, bn = b->hi < s, ag = a->lo >= s, bg = b->lo >= s; // known non-negative / negative
      if ((an && bn) || (ag && bg)) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
      if (an && bg) return mkBool(false);
      if (ag && bn) return mkBool(true);
      if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
      if (a->k == K::SExt && isC(b)) {
        unsigned n = a->a[0]->w; i64 bv = sextw(b->c, w); i64 mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
        if (bv < mn) return mkBool(false);
        if (bv > mx) return mkBool(true);
        return mkBin(k, a->a[0], mkConst(b->c, n)); }
      if (b->k == K::SExt && isC(a)) {
        unsigned n = b->a[0]->w; i64 av = sextw(a->c, w); i64 mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
        if (av < mn) return mkBool(true);
        if (av > mx) return mkBool(false);
        return mkBin(k, mkConst(a->c, n), b->a[0]); }
      break; }
    default: break;
  }
  // push through ite trees with constant leaves when the other side is constant
  if (isC(b) && a->k == K::Ite && iteConstDepth(a, 8) >= 0) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
  if (isC(a) && b->k == K::Ite && iteConstDepth(b, 8) >= 0) return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
  return cons(k, rw, 0, a, b, 0, 0, 0, lo, hi);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w != b->w) throw Unsupported("width mismatch in ite");
  if (c->k == K::Not) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
  if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
  if (a->k == K::Ite && isNotOf(a->a[0], c)) a = a->a[2];
  if (b->k == K::Ite && isNotOf(b->a[0], c)) b = b->a[1];
  if (a == b) return a;
  if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkZExt(mkIte(c, a->a[0], b->a[0]), a->w);
  if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkSExt(mkIte(c, a->a[0], b->a[0]), a->w);
  return cons(K::Ite, a->w, 0, c, a, b, 0, 0, std::min(a->lo, b->lo), std::max(a->hi, b->hi));
}

E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  if (a->k == K::Ite && iteConstDepth(a, 8) >= 0) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  return cons(K::ZExt, w, 0, a, 0, 0, 0, 0, a->lo, a->hi);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u64)sextw(a->c, a->w), w);
  if (a->hi < (1ull << (a->w - 1))) return mkZExt(a, w);
  if (a->k == K::SExt) return mkSExt(a->a[0], w);
  if (a->k == K::Ite && iteConstDepth(a, 8) >= 0) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return cons(K::SExt, w, 0, a, 0, 0, 0, 0, 0, maskw(w));
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (a->k == K::Extract) return mkExtract(a->a[0], lo + a->c, w);
  if (a->k == K::ZExt) {
    unsigned n = a->a[0]->w;
    if (lo >= n) return mkConst(0, w);
    if (lo + w <= n) return mkExtract(a->a[0], lo, w);
    return mkZExt(mkExtract(a->a[0], lo, n - lo), w);
  }
  if (a->k == K::SExt) {
    unsigned n = a->a[0]->w;
    if (lo + w <= n) return mkExtract(a->a[0], lo, w);
    if (lo < n) return mkSExt(mkExtract(a->a[0], lo, n - lo), w);
  }
  if (a->k == K::Concat) {
    unsigned n = a->a[1]->w;
    if (lo >= n) return mkExtract(a->a[0], lo - n, w);
    if (lo + w <= n) return mkExtract(a->a[1], lo, w);
  }
  if (a->k == K::Ite) {
    if (iteConstDepth(a, 8) >= 0 || lo == 0) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  }
  if (lo == 0 && (a->k == K::Add || a->k == K::Sub || a->k == K::Mul || a->k == K::And || a->k == K::Or || a->k == K::Xor))
    return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
  if (lo == 0 && a->k == K::Shl && isC(a->a[1])) {
    if (a->a[1]->c >= w) return mkConst(0, w);
    return mkBin(K::Shl, mkExtract(a->a[0], 0, w), mkConst(a->a[1]->c, w)); }
  if (lo > 0 && a->k == K::Or) return mkBin(K::Or, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  if (lo > 0 && a->k == K::Shl && isC(a->a[1])) {
    u64 s = a->a[1]->c;
    if (lo >= s) return mkExtract(a->a[0], lo - s, w);   // (x << s)[lo..] = x[lo-s..]
    if (lo + w <= s) return mkConst(0, w);
  }
  if (lo == 0 && a->k == K::Table) { std::vector<u64> v; for (u64 x : a->tab->v) v.push_back(x & maskw(w)); return mkTable(a->a[0], v, w); }
  u64 rlo = 0, rhi = maskw(w);
  if (lo == 0 && a->hi <= maskw(w)) { rlo = a->lo; rhi = a->hi; }
  else if (lo > 0 && (a->hi >> lo) <= maskw(w)) { rlo = a->lo >> lo; rhi = a->hi >> lo; }
  return cons(K::Extract, w, lo, a, 0, 0, 0, 0, rlo, rhi);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) throw Unsupported("concat wider than 64");
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) return mkExtract(hi->a[0], lo->c, w);
  return cons(K::Concat, w, 0, hi, lo, 0, 0, 0, (hi->lo << lo->w) | lo->lo, (hi->hi << lo->w) | lo->hi);
}

struct VecH { size_t operator()(const std::vector<u64>& v) const { u64 h = v.size(); for (u64 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u64>, std::vector<const IntTable*>, VecH> gIntTabs;
static u32 gIntTabCount = 0;
static const IntTable* internIntTable(const std::vector<u64>& v, unsigned w) {
  auto& l = gIntTabs[v];
  for (auto t : l) if (t->w == w) return t;
  auto t = new IntTable{v, gIntTabCount++, (u8)w, *std::min_element(v.begin(), v.end()), *std::max_element(v.begin(), v.end())};
  l.push_back(t);
  return t;
}
// v is indexed by idx; idx is assumed < v.size() (the table is padded with its last entry)
E mkTable(E idx, const std::vector<u64>& v0, unsigned w) {
  std::vector<u64> v(v0);
  u64 m = maskw(w);
  for (auto& x : v) x &= m;
  if (idx->hi + 1 < v.size()) v.resize(idx->hi + 1);
  bool same = true;
  for (u64 i = idx->lo; i < v.size(); i++) if (v[i] != v[idx->lo < v.size() ? idx->lo : 0]) { same = false; break; }
  if (idx->lo >= v.size()) return mkConst(v.back(), w);
  if (same) return mkConst(v[idx->lo], w);
  if (isC(idx)) return mkConst(v[std::min<u64>(idx->c, v.size() - 1)], w);
  // values below the index's lower bound never matter
  for (u64 i = 0; i < idx->lo; i++) v[i] = v[idx->lo];
  if (idx->k == K::ZExt) return mkTable(idx->a[0], v, w);
  // affine with step +-1 -> arithmetic
  if (idx->lo == 0) {
    bool up = true;
    for (size_t i = 1; i < v.size() && up; i++) if (((v[i] - v[i - 1]) & m) != 1) up = false;
    if (up) { E x = idx->w < w ? mkZExt(idx, w) : mkExtract(idx, 0, w); return mkBin(K::Add, x, mkConst(v[0], w)); }
  }
  if (w == 1) { // threshold predicates
    size_t n = v.size(), p = idx->lo;
    while (p < n && v[p] == v[idx->lo]) p++;
    size_t q = p;
    while (q < n && v[q] == v[p]) q++;
    if (q == n) { E lt = mkBin(K::Ult, idx, mkConst(p, idx->w)); return v[idx->lo] ? lt : mkNot(lt); }
    // interval predicates: 0..0 1..1 0..0
    size_t r = q; while (r < n && v[r] == v[q]) r++;
    if (r == n) { E in = mkAnd(mkBin(K::Ule, mkConst(p, idx->w), idx), mkBin(K::Ult, idx, mkConst(q, idx->w))); return v[p] ? in : mkNot(in); }
  }
  if (idx->k == K::Ite && iteConstDepth(idx, 8) >= 0)
    return mkIte(idx->a[0], mkTable(idx->a[1], v, w), mkTable(idx->a[2], v, w));
  if (idx->k == K::Table) { // compose
    std::vector<u64> c; for (u64 x : idx->tab->v) c.push_back(v[std::min<u64>(x, v.size() - 1)]);
    return mkTable(idx->a[0], c, w);
  }
  const IntTable* t = internIntTable(v, w);
  return cons(K::Table, w, 0, idx, 0, 0, t, 0, t->lo, t->hi);
}
E mkDBits(const DNode* d) { return cons(K::DBits, 64, 0, 0, 0, 0, 0, d, 0, ~0ull); }

// ---------------------------------------------------------------- evaluation
static std::vector<u64> gMemoV; static std::vector<u32> gMemoE; static u32 gEpoch = 1;
void evalEpoch() { gEpoch++; }
unsigned long evalEpochNow() { return gEpoch; }
u64 evalExpr(E e, const Model& m) {
  if (e->k == K::Const) return e->c;
  if (e->k == K::Var) return e->c < m.size() ? m[e->c] : gVars[e->c].lo;
  if (gMemoE.size() <= e->id) { size_t n = gPool.size() + 1024; gMemoE.resize(n, 0); gMemoV.resize(n); }
  if (gMemoE[e->id] == gEpoch) return gMemoV[e->id];
  u64 r;
  switch (e->k) {
    case K::Not: r = ~evalExpr(e->a[0], m) & maskw(e->w); break;
    case K::Ite: r = evalExpr(e->a[0], m) ? evalExpr(e->a[1], m) : evalExpr(e->a[2], m); break;
    case K::ZExt: r = evalExpr(e->a[0], m); break;
    case K::SExt: r = (u64)sextw(evalExpr(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
    case K::Extract: r = (evalExpr(e->a[0], m) >> e->c) & maskw(e->w); break;
    case K::Concat: r = (evalExpr(e->a[0], m) << e->a[1]->w) | evalExpr(e->a[1], m); break;
    case K::Table: { u64 i = evalExpr(e->a[0], m); r = e->tab->v[std::min<u64>(i, e->tab->v.size() - 1)]; break; }
    case K::DBits: r = dblBits(evalD(D(e->dn), m)); break;
    default: { bool ok; u64 x = evalExpr(e->a[0], m), y = evalExpr(e->a[1], m); r = foldBin(e->k, x, y, e->a[0]->w, ok); }
  }
  if (gMemoE.size() <= e->id) { size_t n = gPool.size() + 1024; gMemoE.resize(n, 0); gMemoV.resize(n); }
  gMemoE[e->id] = gEpoch; gMemoV[e->id] = r;
  return r;
}

static bool leavesRec(E e, std::set<u64>& out, size_t cap, int depth) {
  if (depth > 64) return false;
  if (isC(e)) { out.insert(e->c); return out.size() <= cap; }
  if (e->hi - e->lo < cap && e->hi - e->lo < 16) { for (u64 x = e->lo;; x++) { out.insert(x); if (x == e->hi) break; } return out.size() <= cap; }
  switch (e->k) {
    case K::Ite: return leavesRec(e->a[1], out, cap, depth + 1) && leavesRec(e->a[2], out, cap, depth + 1);
    case K::Table: for (u64 x : e->tab->v) { out.insert(x); if (out.size() > cap) return false; } return true;
    case K::ZExt: return leavesRec(e->a[0], out, cap, depth + 1);
    case K::SExt: { std::set<u64> s; if (!leavesRec(e->a[0], s, cap, depth + 1)) return false; for (u64 x : s) out.insert((u64)sextw(x, e->a[0]->w) & maskw(e->w)); return out.size() <= cap; }
    case K::Extract: { std::set<u64> s; if (!leavesRec(e->a[0], s, cap, depth + 1)) return false; for (u64 x : s) out.insert((x >> e->c) & maskw(e->w)); return out.size() <= cap; }
    case K::Add: case K::Sub: case K::Mul: case K::Shl: case K::And: case K::Or: {
      std::set<u64> s, t; if (!leavesRec(e->a[0], s, cap, depth + 1) || !leavesRec(e->a[1], t, cap, depth + 1)) return false;
      if (s.size() * t.size() > cap * 4) return false;
      for (u64 x : s) for (u64 y : t) { bool ok; out.insert(foldBin(e->k, x, y, e->w, ok)); }
      return out.size() <= cap; }
    default: return false;
  }
}
bool constLeaves(E e, std::vector<u64>& out, size_t cap) {
  std::set<u64> s;
  if (!leavesRec(e, s, cap, 0)) return false;
  out.assign(s.begin(), s.end());
  return true;
}

static const char* kn[] = {"const", "var", "not", "and", "or", "xor", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "table", "dbits"};
std::string exprStr(E e, int depth) {
  if (isC(e)) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->k == K::Var) return gVars[e->c].name;
  if (depth <= 0) return "..";
  std::string s = std::string("(") + kn[(int)e->k] + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + exprStr(e->a[i], depth - 1);
  return s + ")";
}

// ---------------------------------------------------------------- doubles
struct DKey { DK k; E e; int scale; const DTable* t; const DNode *a, *b; bool operator<(const DKey& o) const { return std::tie(k, e, scale, t, a, b) < std::tie(o.k, o.e, o.scale, o.t, o.a, o.b); } };
static std::map<DKey, const DNode*> gD;
static std::deque<DNode> gDPool;
static const DNode* dCons(DK k, E e, int scale, i64 lo, i64 hi, const DTable* t, const DNode* a, const DNode* b) {
  DKey key{k, e, scale, t, a, b};
  auto it = gD.find(key);
  if (it != gD.end()) return it->second;
  gDPool.push_back(DNode{k, e, scale, lo, hi, t, a, b, (u32)gDPool.size()});
  gD[key] = &gDPool.back();
  return &gDPool.back();
}
static std::unordered_map<std::vector<u64>, const DTable*, VecH> gDTabs;
static const DTable* internD(const std::vector<double>& v, bool nan) {
  std::vector<u64> key; for (double d : v) key.push_back(dblBits(d));
  key.push_back(nan);
  auto& t = gDTabs[key];
  if (!t) t = new DTable{v, nan, (u32)gDTabs.size()};
  return t;
}
static unsigned sbits(i64 lo, i64 hi) { unsigned b = 1; while (b < 63 && (lo < -(1ll << (b - 1)) || hi > (1ll << (b - 1)) - 1)) b++; return b; }
static E fitS(E e, unsigned w) { return e->w == w ? e : e->w < w ? mkSExt(e, w) : mkExtract(e, 0, w); }

D dFix(E e, int scale, i64 lo, i64 hi) {
  if (lo == hi) return D(std::ldexp((double)lo, -scale));
  if (isC(e)) return D(std::ldexp((double)sextw(e->c, e->w), -scale));
  if (lo <= -(1ll << 53) || hi >= (1ll << 53)) throw Unsupported("fixed-point double leaves the exact range");
  return D(dCons(DK::Fix, fitS(e, sbits(lo, hi)), scale, lo, hi, 0, 0, 0));
}
static D tabNode(E idx, const DTable* t) { return D(dCons(DK::Tab, idx, 0, 0, 0, t, 0, 0)); }

// canonical table: strictly increasing, NaN last, -0.0 read as 0.0
D dTab(E idx, const std::vector<double>& vals0) {
  std::vector<double> vals(vals0);
  if (vals.empty()) throw Unsupported("empty table");
  if (idx->hi + 1 < vals.size()) vals.resize(idx->hi + 1);
  if (isC(idx)) return D(vals[std::min<u64>(idx->c, vals.size() - 1)]);
  for (auto& d : vals) if (d == 0) d = 0;
  for (u64 i = 0; i < idx->lo && i < vals.size(); i++) vals[i] = vals[std::min<u64>(idx->lo, vals.size() - 1)];
  std::vector<double> u; bool nan = false;
  for (double d : vals) if (d != d) nan = true; else u.push_back(d);
  std::sort(u.begin(), u.end());
  u.erase(std::unique(u.begin(), u.end()), u.end());
  if (u.size() + nan == 1) return D(vals[0]);
  std::vector<u64> rank(vals.size());
  bool ident = true;
  for (size_t i = 0; i < vals.size(); i++) {
    rank[i] = vals[i] != vals[i] ? u.size() : (u64)(std::lower_bound(u.begin(), u.end(), vals[i]) - u.begin());
    if (rank[i] != i) ident = false;
  }
  if (nan) u.push_back(NAN);
  // affine and dyadic -> Fix
  if (!nan && u.size() >= 2) {
    double step = u[1] - u[0];
    bool aff = std::isfinite(u[0]) && std::isfinite(step);
    for (size_t i = 1; aff && i < u.size(); i++) if (u[i] - u[i - 1] != step) aff = false;
    if (aff) {
      int sc = 0; bool ok = false;
      for (; sc <= 24; sc++) { double a = std::ldexp(u[0], sc), b = std::ldexp(step, sc); if (a == std::floor(a) && b == std::floor(b) && std::fabs(a) < 4e15 && b < 4e15) { ok = true; break; } }
      if (ok) {
        i64 A = (i64)std::ldexp(u[0], sc), B = (i64)std::ldexp(step, sc); i64 hi = A + B * (i64)(u.size() - 1);
        if (hi < (1ll << 52)) {
          E r = ident ? idx : mkTable(idx, rank, bitsFor(u.size() - 1));
          unsigned w = sbits(std::min<i64>(A, 0), std::max<i64>(hi, B * (i64)(u.size() - 1)));
          w = std::max<unsigned>(w, r->w + 1);
          E x = mkBin(K::Add, mkBin(K::Mul, mkZExt(r, w), mkConst((u64)B, w)), mkConst((u64)A, w));
          return dFix(x, sc, A, hi);
        }
      }
    }
  }
  if (u.size() > gMaxTable) throw Unsupported("table of doubles too large");
  unsigned w = bitsFor(u.size() - 1);
  E r = ident ? idx : mkTable(idx, rank, w);
  if (r->w > w) r = mkExtract(r, 0, w); else if (r->w < w) r = mkZExt(r, w);
  if (isC(r)) return D(u[r->c]);
  return tabNode(r, internD(u, nan));
}

static D forceDiff(D a);
struct TV { E idx; std::vector<double> v; };
static TV tabify(D a) {
  TV t;
  if (a.conc()) { t.idx = mkConst(0, 1); t.v = {a.c}; return t; }
  if (a.n->k == DK::Tab) { t.idx = a.n->e; t.v = a.n->t->v; return t; }
  if (a.n->k != DK::Fix) return tabify(forceDiff(a));
  u64 n = (u64)(a.n->hi - a.n->lo) + 1;
  if (n > gMaxTable) throw Unsupported("fixed-point range too large for a table: " + std::to_string(n));
  unsigned w = bitsFor(n - 1);
  unsigned ww = std::max<unsigned>(a.n->e->w + 1, w + 1);
  ww = std::min(ww, 64u);
  t.idx = mkExtract(mkBin(K::Sub, fitS(a.n->e, ww), mkConst((u64)a.n->lo, ww)), 0, w);
  for (u64 i = 0; i < n; i++) t.v.push_back(std::ldexp((double)(a.n->lo + (i64)i), -a.n->scale));
  return t;
}

// exact dyadic view; returns false if the value set is not dyadic of small scale
static bool asFix(D a, E& e, int& sc, i64& lo, i64& hi) {
  if (a.conc()) {
    if (!std::isfinite(a.c)) return false;
    for (int s = 0; s <= 30; s++) { double v = std::ldexp(a.c, s); if (v == std::floor(v) && std::fabs(v) < 9e15) { lo = hi = (i64)v; sc = s; e = mkConst((u64)lo, sbits(lo, hi)); return true; } }
    return false;
  }
  if (a.n->k == DK::Fix) { e = a.n->e; sc = a.n->scale; lo = a.n->lo; hi = a.n->hi; return true; }
  if (a.n->k == DK::Tab) {
    const auto& v = a.n->t->v;
    if (a.n->t->nan || !std::isfinite(v.front()) || !std::isfinite(v.back())) return false;
    int s = 0;
    for (double d : v) { while (s <= 20 && std::ldexp(d, s) != std::floor(std::ldexp(d, s))) s++; if (s > 20) return false; }
    if (std::fabs(std::ldexp(v.front(), s)) > 1e12 || std::fabs(std::ldexp(v.back(), s)) > 1e12) return false;
    lo = (i64)std::ldexp(v.front(), s); hi = (i64)std::ldexp(v.back(), s); sc = s;
    unsigned w = sbits(lo, hi);
    std::vector<u64> t; for (double d : v) t.push_back((u64)(i64)std::ldexp(d, s));
    e = mkTable(a.n->e, t, w);
    return true;
  }
  return false;
}

static D forceDiff(D a) {
  if (a.conc() || (a.n->k != DK::Diff && a.n->k != DK::AbsDiff)) return a;
  bool ab = a.n->k == DK::AbsDiff;
  return dMap2(D(a.n->a), D(a.n->b), [ab](double x, double y) { double d = x - y; return ab ? std::fabs(d) : d; });
}

D dMap(D a, const std::function<double(double)>& f) {
  if (a.conc()) return D(f(a.c));
  TV t = tabify(a);
  for (auto& x : t.v) x = f(x);
  return dTab(t.idx, t.v);
}
D dMap2(D a, D b, const std::function<double(double, double)>& f) {
  if (a.conc()) return dMap(b, [&](double y) { return f(a.c, y); });
  if (b.conc()) return dMap(a, [&](double x) { return f(x, b.c); });
  TV s = tabify(a), t = tabify(b);
  if (s.idx == t.idx) {
    std::vector<double> v; size_t n = std::max(s.v.size(), t.v.size());
    for (size_t i = 0; i < n; i++) v.push_back(f(s.v[std::min(i, s.v.size() - 1)], t.v[std::min(i, t.v.size() - 1)]));
    return dTab(s.idx, v);
  }
  if (s.v.size() * t.v.size() > gMaxTable) throw Unsupported("product table too large: " + std::to_string(s.v.size()) + "x" + std::to_string(t.v.size()));
  u64 n = s.v.size() * t.v.size();
  unsigned w = bitsFor(n - 1);
  auto fit = [&](E e) { return e->w < w ? mkZExt(e, w) : mkExtract(e, 0, w); };
  E idx = mkBin(K::Add, mkBin(K::Mul, fit(s.idx), mkConst(t.v.size(), w)), fit(t.idx));
  std::vector<double> v; v.reserve(n);
  for (double x : s.v) for (double y : t.v) v.push_back(f(x, y));
  return dTab(idx, v);
}

static double nat(char op, double x, double y) { switch (op) { case '+': return x + y; case '-': return x - y; case '*': return x * y; default: return x / y; } }

D dBin(char op, D a, D b) {
  if (a.conc() && b.conc()) return D(nat(op, a.c, b.c));
  if (op == '-' && !a.conc() && !b.conc() && a.n == b.n && a.n->k == DK::Fix) return D(0.0);
  E ea, eb; int sa, sb; i64 la, ha, lb, hb;
  if (op != '/') {
    if (asFix(a, ea, sa, la, ha) && asFix(b, eb, sb, lb, hb)) {
      if (op == '*') {
        __int128 p[4] = {(__int128)la * lb, (__int128)la * hb, (__int128)ha * lb, (__int128)ha * hb};
        __int128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
        if (a.n && b.n && a.n == b.n && lo < 0) lo = 0;   // a square
        if (lo > -(1ll << 53) && hi < (1ll << 53)) {
          unsigned w = std::max<unsigned>(sbits((i64)lo, (i64)hi), sbits((i64)std::min<__int128>(lo, std::min(la, lb)), (i64)std::max<__int128>(hi, std::max(ha, hb))));
          E r;
          if (a.n && b.n && ea == eb && ha - la <= 64) { // small squares by table
            TV t = tabify(D(dCons(DK::Fix, ea, 0, la, ha, 0, 0, 0)));
            std::vector<u64> sq; for (double x : t.v) sq.push_back((u64)(x * x));
            r = mkTable(t.idx, sq, sbits((i64)lo, (i64)hi));
          } else r = mkBin(K::Mul, fitS(ea, w), fitS(eb, w));
          return dFix(r, sa + sb, (i64)lo, (i64)hi);
        }
      } else {
        int s = std::max(sa, sb);
        int ka = s - sa, kb = s - sb;
        __int128 la2 = (__int128)la << ka, ha2 = (__int128)ha << ka, lb2 = (__int128)lb << kb, hb2 = (__int128)hb << kb;
        __int128 lo = op == '+' ? la2 + lb2 : la2 - hb2, hi = op == '+' ? ha2 + hb2 : ha2 - lb2;
        if (lo > -(1ll << 53) && hi < (1ll << 53) && la2 > -(1ll << 60) && lb2 > -(1ll << 60) && ha2 < (1ll << 60) && hb2 < (1ll << 60)) {
          unsigned w = std::max(std::max(sbits((i64)lo, (i64)hi), sbits((i64)la2, (i64)ha2)), sbits((i64)lb2, (i64)hb2));
          auto sh = [&](E e, int k) { E x = fitS(e, w); return k ? mkBin(K::Shl, x, mkConst(k, w)) : x; };
          E r = mkBin(op == '+' ? K::Add : K::Sub, sh(ea, ka), sh(eb, kb));
          return dFix(r, s, (i64)lo, (i64)hi);
        }
      }
    }
    if (op == '-' && !a.conc() && !b.conc() && a.n->k != DK::Diff && a.n->k != DK::AbsDiff && b.n->k != DK::Diff && b.n->k != DK::AbsDiff) {
      TV s = tabify(a), t = tabify(b);
      if (s.idx != t.idx) return D(dCons(DK::Diff, 0, 0, 0, 0, 0, a.n, b.n));
    }
  } else if (b.conc()) {
    int ex; double mant = std::frexp(b.c, &ex);
    if (std::fabs(mant) == 0.5 && asFix(a, ea, sa, la, ha)) { // +-2^(ex-1)
      int k = ex - 1; int s = sa + k;
      i64 lo = la, hi = ha; E e = ea;
      if (s < 0) { __int128 l2 = (__int128)lo << -s, h2 = (__int128)hi << -s; if (l2 > -(1ll << 53) && h2 < (1ll << 53)) { unsigned w = sbits((i64)l2, (i64)h2); e = mkBin(K::Shl, fitS(e, w), mkConst(-s, w)); lo = (i64)l2; hi = (i64)h2; s = 0; } else goto gen; }
      if (s > 40) goto gen;
      D r = dFix(e, s, lo, hi);
      return mant < 0 ? dNeg(r) : r;
    }
  }
gen:
  a = forceDiff(a); b = forceDiff(b);
  return dMap2(a, b, [op](double x, double y) { return nat(op, x, y); });
}
D dNeg(D a) {
  if (a.conc()) return D(-a.c);
  if (a.n->k == DK::Fix) { unsigned w = sbits(std::min(-a.n->hi, a.n->lo), std::max(-a.n->lo, a.n->hi)); return dFix(mkBin(K::Sub, mkConst(0, w), fitS(a.n->e, w)), a.n->scale, -a.n->hi, -a.n->lo); }
  if (a.n->k == DK::Diff) return D(dCons(DK::Diff, 0, 0, 0, 0, 0, a.n->b, a.n->a));
  return dMap(forceDiff(a), [](double x) { return -x; });
}
D dAbs(D a) {
  if (a.conc()) return D(std::fabs(a.c));
  if (a.n->k == DK::AbsDiff) return a;
  if (a.n->k == DK::Diff) { auto p = a.n->a, q = a.n->b; if (p->id > q->id) std::swap(p, q); return D(dCons(DK::AbsDiff, 0, 0, 0, 0, 0, p, q)); }
  if (a.n->k == DK::Fix) {
    if (a.n->lo >= 0) return a;
    if (a.n->hi <= 0) return dNeg(a);
    i64 hi = std::max(-a.n->lo, a.n->hi);
    unsigned w = sbits(-hi, hi);
    E e = fitS(a.n->e, w);
    E neg = mkBin(K::Slt, e, mkConst(0, w));
    return dFix(mkIte(neg, mkBin(K::Sub, mkConst(0, w), e), e), a.n->scale, 0, hi);
  }
  return dMap(a, [](double x) { return std::fabs(x); });
}
D dFloor(D a) {
  if (a.conc()) return D(std::floor(a.c));
  if (a.n->k == DK::Fix) {
    int s = a.n->scale; if (s <= 0) return a;
    i64 lo = a.n->lo >> s, hi = a.n->hi >> s;
    E e = a.n->e;
    if ((unsigned)s >= e->w) return dFix(mkSExt(mkExtract(e, e->w - 1, 1), 2), 0, lo, hi);
    return dFix(mkExtract(e, s, e->w - s), 0, lo, hi);
  }
  return dMap(a, [](double x) { return std::floor(x); });
}
bool dSame(D a, D b) { if (a.n || b.n) return a.n == b.n; return dblBits(a.c) == dblBits(b.c); }

D dIte(E c, D a, D b) {
  if (isC(c)) return c->c ? a : b;
  if (dSame(a, b)) return a;
  if (a.conc() && b.conc() && a.c == b.c) return a;
  a = forceDiff(a); b = forceDiff(b);
  E ea, eb; int sa, sb; i64 la, ha, lb, hb;
  bool bothTab = a.n && b.n && a.n->k == DK::Tab && b.n->k == DK::Tab;
  if (bothTab && a.n->t == b.n->t) return tabNode(mkIte(c, a.n->e, b.n->e), a.n->t);
  bool anyFix = (a.n && a.n->k == DK::Fix) || (b.n && b.n->k == DK::Fix) || (a.conc() && b.conc());
  if (anyFix && asFix(a, ea, sa, la, ha) && asFix(b, eb, sb, lb, hb)) {
    int s = std::max(sa, sb);
    if (s - sa < 20 && s - sb < 20) {
      i64 la2 = la << (s - sa), ha2 = ha << (s - sa), lb2 = lb << (s - sb), hb2 = hb << (s - sb);
      i64 lo = std::min(la2, lb2), hi = std::max(ha2, hb2);
      unsigned w = sbits(lo, hi);
      E x = fitS(ea, w), y = fitS(eb, w);
      if (s != sa) x = mkBin(K::Shl, x, mkConst(s - sa, w));
      if (s != sb) y = mkBin(K::Shl, y, mkConst(s - sb, w));
      return dFix(mkIte(c, x, y), s, lo, hi);
    }
  }
  TV s = tabify(a), t = tabify(b);
  std::vector<double> u(s.v); u.insert(u.end(), t.v.begin(), t.v.end());
  bool nan = false; for (double d : u) if (d != d) nan = true;
  for (auto& d : u) if (d == 0) d = 0;
  u.erase(std::remove_if(u.begin(), u.end(), [](double d) { return d != d; }), u.end());
  std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
  size_t nn = u.size();
  if (nan) u.push_back(NAN);
  if (u.size() > gMaxTable) throw Unsupported("union table too large");
  unsigned w = bitsFor(u.size() - 1);
  auto remap = [&](const TV& q) { std::vector<u64> r; for (double d : q.v) r.push_back(d != d ? nn : (u64)(std::lower_bound(u.begin(), u.begin() + nn, d) - u.begin())); return mkTable(q.idx, r, w); };
  E r = mkIte(c, remap(s), remap(t));
  return dTab(r, u);
}

E dIsNaN(D a) {
  if (a.conc()) return mkBool(a.c != a.c);
  if (a.n->k == DK::Fix) return mkBool(false);
  if (a.n->k == DK::Tab) return a.n->t->nan ? mkEq(a.n->e, mkConst(a.n->t->v.size() - 1, a.n->e->w)) : mkBool(false);
  return dIsNaN(forceDiff(a));
}

static bool predOf(double x, double y, unsigned pred) {
  if (x != x || y != y) return pred & 8;
  if (x == y) return pred & 1;
  if (x > y) return pred & 2;
  return pred & 4;
}

E dCmp(D a, D b, unsigned pred) {
  if (a.conc() && b.conc()) return mkBool(predOf(a.c, b.c, pred));
  bool lazyA = a.n && (a.n->k == DK::Diff || a.n->k == DK::AbsDiff), lazyB = b.n && (b.n->k == DK::Diff || b.n->k == DK::AbsDiff);
  if (lazyB && a.conc()) { unsigned p = (pred & 9) | ((pred & 2) << 1) | ((pred & 4) >> 1); return dCmp(b, a, p); }
  if (lazyA && b.conc() && b.c == b.c) {
    // x - y or |x - y| against a constant: for each x the y's that satisfy it form at most 3 runs; use a product only if small
    D p(a.n->a), q(a.n->b); bool ab = a.n->k == DK::AbsDiff; double c = b.c;
    TV s = tabify(p), t = tabify(q);
    std::vector<u64> lo, hi; bool win = true; u64 nt = t.v.size();
    for (double x : s.v) { // window of y indices where the predicate holds (or its complement, see below)
      u64 l = nt, h = 0; u64 cnt = 0;
      for (u64 j = 0; j < nt; j++) { double d = x - t.v[j]; if (ab) d = std::fabs(d); if (predOf(d, c, pred)) { if (l == nt) l = j; h = j; cnt++; } }
      if (cnt && cnt != h - l + 1) win = false;
      lo.push_back(cnt ? l : 1); hi.push_back(cnt ? h : 0);
    }
    bool neg = false;
    if (!win) { // try the complement
      win = true; neg = true; lo.clear(); hi.clear();
      for (double x : s.v) {
        u64 l = nt, h = 0, cnt = 0;
        for (u64 j = 0; j < nt; j++) { double d = x - t.v[j]; if (ab) d = std::fabs(d); if (!predOf(d, c, pred)) { if (l == nt) l = j; h = j; cnt++; } }
        if (cnt && cnt != h - l + 1) win = false;
        lo.push_back(cnt ? l : 1); hi.push_back(cnt ? h : 0);
      }
    }
    if (win) {
      unsigned w = std::max<unsigned>(bitsFor(nt), t.idx->w);
      E j = mkZExt(t.idx, w), L = mkTable(s.idx, lo, w), H = mkTable(s.idx, hi, w);
      E r = mkAnd(mkBin(K::Ule, L, j), mkBin(K::Ule, j, H));
      return neg ? mkNot(r) : r;
    }
    a = forceDiff(a);
    return dCmp(a, b, pred);
  }
  if (lazyA) a = forceDiff(a);
  if (lazyB) b = forceDiff(b);
  if (b.conc() || a.conc()) {
    if (a.conc()) { unsigned p = (pred & 9) | ((pred & 2) << 1) | ((pred & 4) >> 1); return dCmp(b, a, p); }
    if (b.c != b.c) return mkBool(pred & 8);
    if (a.n->k == DK::Tab) {
      std::vector<u64> v; for (double x : a.n->t->v) v.push_back(predOf(x, b.c, pred));
      return mkTable(a.n->e, v, 1);
    }
    // Fix against a constant
    double scaled = std::ldexp(b.c, a.n->scale);
    E e = a.n->e; unsigned w = e->w; i64 lo = a.n->lo, hi = a.n->hi;
    auto ltK = [&](double k, bool orEq) -> E { // value <(=) k
      double f = std::floor(k);
      i64 th; // value <= th
      if (k > 9e15) return mkBool(true);
      if (k < -9e15) return mkBool(false);
      if (orEq) th = (i64)f; else th = (f == k) ? (i64)f - 1 : (i64)f;
      if (th >= hi) return mkBool(true);
      if (th < lo) return mkBool(false);
      return mkBin(K::Sle, e, mkConst((u64)th, w));
    };
    bool eq = pred & 1, gt = pred & 2, lt = pred & 4;
    if (lt && gt && eq) return mkBool(true);
    E le = ltK(scaled, true), l = ltK(scaled, false);
    E r = mkBool(false);
    if (lt && eq) r = le; else if (lt && gt) r = mkOr(l, mkNot(le)); else if (gt && eq) r = mkNot(l);
    else if (lt) r = l; else if (gt) r = mkNot(le); else if (eq) r = mkAnd(le, mkNot(l));
    return r;
  }
  if (a.n == b.n) { E nn = dIsNaN(a); E r = mkBool(pred & 1); return mkIte(nn, mkBool(pred & 8), r); }
  auto cmpBits = [&](E x, E y, bool sgn) { // over equal-width ints
    bool eq = pred & 1, gt = pred & 2, lt = pred & 4;
    K lk = sgn ? K::Slt : K::Ult, lek = sgn ? K::Sle : K::Ule;
    if (lt && gt && eq) return mkBool(true);
    if (lt && eq) return mkBin(lek, x, y);
    if (gt && eq) return mkBin(lek, y, x);
    if (lt && gt) return mkNot(mkEq(x, y));
    if (lt) return mkBin(lk, x, y);
    if (gt) return mkBin(lk, y, x);
    if (eq) return mkEq(x, y);
    return mkBool(false);
  };
  if (a.n->k == DK::Fix && b.n->k == DK::Fix) {
    int s = std::max(a.n->scale, b.n->scale); int ka = s - a.n->scale, kb = s - b.n->scale;
    i64 la = a.n->lo << ka, ha = a.n->hi << ka, lb = b.n->lo << kb, hb = b.n->hi << kb;
    if (ha < lb) return mkBool(pred & 4);
    if (hb < la) return mkBool(pred & 2);
    unsigned w = sbits(std::min(la, lb), std::max(ha, hb));
    E x = fitS(a.n->e, w), y = fitS(b.n->e, w);
    if (ka) x = mkBin(K::Shl, x, mkConst(ka, w));
    if (kb) y = mkBin(K::Shl, y, mkConst(kb, w));
    // unsigned comparison when both are non-negative (better sharing)
    return cmpBits(x, y, !(la >= 0 && lb >= 0));
  }
  E nanA = dIsNaN(a), nanB = dIsNaN(b), un = mkOr(nanA, nanB);
  E r;
  if (a.n->k == DK::Tab && b.n->k == DK::Tab && a.n->t == b.n->t) r = cmpBits(a.n->e, b.n->e, false);
  else {
    TV s = tabify(a), t = tabify(b);
    std::vector<double> u(s.v); u.insert(u.end(), t.v.begin(), t.v.end());
    u.erase(std::remove_if(u.begin(), u.end(), [](double d) { return d != d; }), u.end());
    std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
    unsigned w = bitsFor(u.size());
    auto remap = [&](const TV& q) { std::vector<u64> rr; for (double d : q.v) rr.push_back(d != d ? u.size() : (u64)(std::lower_bound(u.begin(), u.end(), d) - u.begin())); return mkTable(q.idx, rr, w); };
    r = cmpBits(remap(s), remap(t), false);
  }
  if (isFalse(un)) return r;
  return mkIte(un, mkBool(pred & 8), r);
}

D dFromInt(E e, bool isSigned) {
  if (isC(e)) return D(isSigned ? (double)sextw(e->c, e->w) : (double)e->c);
  i64 lo, hi;
  if (e->hi < (1ull << (e->w - 1)) || !isSigned) { if (e->hi >= (1ull << 53)) throw Unsupported("int to double: range too large"); lo = e->lo; hi = e->hi; }
  else {
    std::vector<u64> lv;
    if (!constLeaves(e, lv, 4096)) { // a sign-extended narrow value
      E x = e; while (x->k == K::SExt) x = x->a[0];
      if (x->w > 40) throw Unsupported("int to double: unknown signed range");
      lo = -(1ll << (x->w - 1)); hi = (1ll << (x->w - 1)) - 1;
    } else { lo = INT64_MAX; hi = INT64_MIN; for (u64 v : lv) { i64 s = sextw(v, e->w); lo = std::min(lo, s); hi = std::max(hi, s); } }
  }
  unsigned w = sbits(lo, hi);
  E x = e->w >= w ? mkExtract(e, 0, w) : mkZExt(e, w);
  return dFix(x, 0, lo, hi);
}
E dToInt(D a, unsigned w, bool isSigned) {
  if (a.conc()) return mkConst((u64)(i64)a.c, w);
  if (a.n->k == DK::Fix) {
    E e = a.n->e; int s = a.n->scale;
    if (s > 0) {
      D f = dFloor(a);
      if (a.n->lo >= 0) return f.conc() ? mkConst((u64)(i64)f.c, w) : fitS(f.n->e, w);
      D g = dNeg(dFloor(dNeg(a)));
      E ef = f.conc() ? mkConst((u64)(i64)f.c, w) : fitS(f.n->e, w), eg = g.conc() ? mkConst((u64)(i64)g.c, w) : fitS(g.n->e, w);
      return mkIte(mkBin(K::Slt, e, mkConst(0, e->w)), eg, ef);
    }
    return fitS(e, w);
  }
  TV t = tabify(a);
  std::vector<u64> v;
  for (double d : t.v) { if (!(std::fabs(d) < 9e18)) v.push_back(1ull << (w - 1)); else v.push_back((u64)(i64)d); }
  return mkTable(t.idx, v, w);
}
double evalD(D a, const Model& m) {
  if (a.conc()) return a.c;
  switch (a.n->k) {
    case DK::Fix: return std::ldexp((double)sextw(evalExpr(a.n->e, m), a.n->e->w), -a.n->scale);
    case DK::Tab: return a.n->t->v[std::min<u64>(evalExpr(a.n->e, m), a.n->t->v.size() - 1)];
    case DK::Diff: return evalD(D(a.n->a), m) - evalD(D(a.n->b), m);
    default: return std::fabs(evalD(D(a.n->a), m) - evalD(D(a.n->b), m));
  }
}
D dFromBits(E e) {
  if (isC(e)) return D(bitsDbl(e->c));
  if (e->k == K::DBits) return D(e->dn);
  if (e->k == K::Ite) return dIte(e->a[0], dFromBits(e->a[1]), dFromBits(e->a[2]));
  throw Unsupported("integer bits reinterpreted as double");
}
std::string dStr(D a) {
  if (a.conc()) return std::to_string(a.c);
  if (a.n->k == DK::Fix) return "Fix(" + exprStr(a.n->e, 4) + ">>" + std::to_string(a.n->scale) + " in [" + std::to_string(a.n->lo) + "," + std::to_string(a.n->hi) + "])";
  if (a.n->k == DK::Tab) return "Tab(" + exprStr(a.n->e, 4) + " of " + std::to_string(a.n->t->v.size()) + ")";
  return "Diff";
}
E dBitsLower(const DNode* d) {
  TV t = tabify(D(d));
  std::vector<u64> v; for (double x : t.v) v.push_back(dblBits(x));
  return mkTable(t.idx, v, 64);
}
