// Hash-consed bit-vector expressions and finite-domain doubles.
//
// Integers are bit-vectors of width 1..64.  A symbolic double is always a function of bit-vectors:
//   Fix  v * 2^-scale, v a signed bit-vector with a known range: every double operation that stays in
//        this form (+, -, *, /2^k, neg, abs, floor) is exact, so it needs no rounding;
//   Tab  table[idx], a strictly increasing table of doubles computed with the machine's own double
//        arithmetic (sqrt, division, ...), indexed by an unsigned bit-vector; NaN may be the last entry.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum class K : u8 { Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
                    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat, Table, DBits };

struct DNode;
struct IntTable { std::vector<u64> v; u32 id; u8 w; u64 lo, hi; };

struct Expr {
  K k; u8 w; u32 id;
  u64 c;                 // const value | var index | extract low bit
  const Expr* a[3];
  const IntTable* tab;   // Table
  const DNode* dn;       // DBits
  u64 lo, hi;            // unsigned range
};
typedef const Expr* E;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
inline unsigned bitsFor(u64 n) { unsigned b = 1; while (b < 64 && (n >> b)) b++; return b; } // bits to hold n unsigned

struct VarInfo { std::string name; unsigned w; u64 lo, hi; };
extern std::vector<VarInfo> gVars;
typedef std::vector<u64> Model;   // value per var index

E mkConst(u64 v, unsigned w);
E mkVar(const std::string& name, unsigned w, u64 lo, u64 hi);
E mkNot(E a);
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkTable(E idx, const std::vector<u64>& v, unsigned w);
E mkDBits(const DNode* d);
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::Or, a, b); }
inline E mkBool(bool b) { return mkConst(b, 1); }
inline bool isC(E e) { return e->k == K::Const; }
inline bool isTrue(E e) { return e->k == K::Const && e->c == 1; }
inline bool isFalse(E e) { return e->k == K::Const && e->c == 0; }
u64 evalExpr(E e, const Model& m);      // memoised per call
unsigned long evalEpochNow();
void evalEpoch();                       // start a fresh memo (call when the model changes)
bool constLeaves(E e, std::vector<u64>& out, size_t cap); // value-set of an expression, if small
std::string exprStr(E e, int depth = 6);
size_t exprCount();

// ---- doubles -------------------------------------------------------------------------------------
struct DTable { std::vector<double> v; bool nan; u32 id; };   // strictly increasing; NaN last iff nan
enum class DK : u8 { Fix, Tab, Diff, AbsDiff };
struct DNode {
  DK k; E e; int scale; i64 lo, hi; const DTable* t; const DNode *a, *b; u32 id;
};
struct D {            // a double value: concrete (n == nullptr) or symbolic
  double c; const DNode* n;
  D() : c(0), n(nullptr) {}
  D(double x) : c(x), n(nullptr) {}
  D(const DNode* x) : c(0), n(x) {}
  bool conc() const { return !n; }
};
D dFix(E e, int scale, i64 lo, i64 hi);
D dTab(E idx, const std::vector<double>& vals);        // arbitrary table: canonicalised
D dBin(char op, D a, D b);                              // + - * /
D dNeg(D a); D dAbs(D a);
D dMap(D a, const std::function<double(double)>& f);
D dMap2(D a, D b, const std::function<double(double, double)>& f);
D dFloor(D a);
D dIte(E c, D a, D b);
bool dSame(D a, D b);
// predicate: bit 0 = eq, bit 1 = gt, bit 2 = lt, bit 3 = unordered (LLVM fcmp encoding order)
E dCmp(D a, D b, unsigned pred);
E dIsNaN(D a);
D dFromInt(E e, bool isSigned);
E dToInt(D a, unsigned w, bool isSigned);
double evalD(D a, const Model& m);
D dFromBits(E e);     // bit-vector (64) -> double, only DBits/const/ite of such
std::string dStr(D a);
E dBitsLower(const DNode* d);
u64 dblBits(double d);
double bitsDbl(u64 b);
extern size_t gMaxTable;
