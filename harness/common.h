// Shared by the harnesses: datasets with symbolic values, reference definitions, reading back group files.
// References are written from the documented definitions with plain arrays; nothing of the library is used.
#pragma once
#include <cmath>
#include <fstream>
#include <iomanip>
#include <limits>
#include <string>
#include <vector>
#include "sx.h"
#include "Exception.hpp"
#include "GenexAPI.hpp"
#include "TimeSeries.hpp"
#include "distance/Distance.hpp"

namespace ref {

static const double inf = std::numeric_limits<double>::infinity();
enum { EUC = 0, MAN = 1, CHE = 2, COS = 3, SOR = 4 };
static const char* const metricName[5] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};

// ---- grid of values: k * 2^-GS for GLO <= k <= GHI, plus an offset
#ifndef GLO
#define GLO -8
#endif
#ifndef GHI
#define GHI 8
#endif
#ifndef GS
#define GS 2
#endif
#ifdef WIDE     // larger cases: every WIDEth value is symbolic, the others are fixed and scattered over WLO..WHI on the same grid
#ifndef WLO
#define WLO -12
#define WHI 12
#endif
inline double val(const char* n) {
  static unsigned at = 0, s = 12345;
  if (at++ % WIDE == WIDE / 2) return sx_double(n, GLO, GHI, GS);
  s = s * 1664525u + 1013904223u;
  return (WLO + (int)((s >> 12) % (WHI - WLO + 1))) / (double)(1 << GS);
}
#else
inline double val(const char* n) { return sx_double(n, GLO, GHI, GS); }
#endif

// ---- point-wise metrics (sums in index order)
inline double term(int m, double x, double y) { double d = x - y; return m == EUC ? d * d : std::fabs(d); }
inline double pointwise(int m, const double* x, const double* y, int n) {
  if (m == COS) { double a = 0, b = 0, c = 0; for (int i = 0; i < n; i++) { a += x[i] * x[i]; b += y[i] * y[i]; c += x[i] * y[i]; } return c / std::sqrt(a * b); }
  if (m == SOR) { double a = 0, b = 0; for (int i = 0; i < n; i++) { a += std::fabs(x[i] - y[i]); b += std::fabs(x[i] + y[i]); } return a / b; }
  double s = 0;
  for (int i = 0; i < n; i++) s = m == CHE ? sx_max(s, term(m, x[i], y[i])) : s + term(m, x[i], y[i]);
  return m == EUC ? std::sqrt(s / n) : m == MAN ? s / n : s;
}

// ---- band: positions i, j may be paired when |i - j| <= band
inline int band(int m, int n, double ratio) { int l = m > n ? m : n; int r = (int)std::floor(l * ratio); return r < l - 1 ? r : l - 1; }
inline double combine(int metric, double acc, double t) { return metric == CHE ? sx_max(acc, t) : acc + t; }
inline double normWarped(int metric, double total, int m, int n) {
  int l = m > n ? m : n;
  return metric == EUC ? std::sqrt(total) / (2 * l) : metric == MAN ? total / (2 * l) : total;
}
// cheapest accumulated cost over monotone alignments inside the band (infinite if there is none)
inline double warpedTotal(int metric, const double* x, int m, const double* y, int n, int r) {
  std::vector<double> c(m * n, inf); std::vector<char> ok(m * n, 0);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      if (i - j > r || j - i > r) continue;
      double p = 0; bool any = !i && !j;
      for (int k = 0; k < 3; k++) {
        int a = i - (k != 1), b = j - (k != 0);
        if (a < 0 || b < 0 || !ok[a * n + b]) continue;
        p = any ? sx_min(p, c[a * n + b]) : c[a * n + b]; any = true;
      }
      if (!any) continue;
      ok[i * n + j] = 1; c[i * n + j] = combine(metric, p, term(metric, x[i], y[j]));
    }
  return ok[m * n - 1] ? c[m * n - 1] : inf;
}
inline bool reachable(int m, int n, double ratio) { int r = band(m, n, ratio); return m - n <= r && n - m <= r; }
inline double warped(int metric, const double* x, int m, const double* y, int n, double ratio) {
  double t = warpedTotal(metric, x, m, y, n, band(m, n, ratio));
  return reachable(m, n, ratio) ? normWarped(metric, t, m, n) : inf;
}

// ---- a dataset of symbolic values
struct Rows {
  std::vector<std::vector<double> > v;
  int count() const { return (int)v.size(); }
  int len(int i) const { return (int)v[i].size(); }
  int longest() const { int l = 0; for (size_t i = 0; i < v.size(); i++) if ((int)v[i].size() > l) l = (int)v[i].size(); return l; }
  const double* at(int i, int s) const { return &v[i][0] + s; }
  void add(const char* name, int n) { std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(val(name)); v.push_back(r); }
};
// lens: decimal digits, one per series, e.g. 332
inline Rows symbolicRows(const char* name, long lens) {
  Rows r; std::vector<int> l; for (; lens; lens /= 10) l.push_back((int)(lens % 10));
  for (size_t i = l.size(); i-- > 0;) r.add(name, l[i]);
  return r;
}
inline void writeRows(const char* file, const Rows& r) {
  std::ofstream f(sx_path(file)); f << std::setprecision(17);
  for (int i = 0; i < r.count(); i++) { for (int j = 0; j < r.len(i); j++) { if (j) f << " "; f << r.v[i][j]; } f << "\n"; }
}
inline void load(genex::GenexAPI& api, const std::string& name, const Rows& r) {
  std::string fn = name + ".txt"; writeRows(fn.c_str(), r);
  api.loadDataset(name, sx_path(fn.c_str()), " ");
}
template <class F> bool refused(F f) { try { f(); } catch (genex::GenexException&) { return true; } return false; }

// ---- groups as written by the documented text format
struct Member { int idx, start; };
struct GroupInfo { int length; std::vector<double> centroid; std::vector<Member> members; };
struct Groups {
  int version, items, maxLen, lenFrom, lenTo; double threshold; std::string distance; std::vector<GroupInfo> g; bool good;
};
inline Groups readGroups(const char* path) {
  Groups r; std::ifstream f(path); r.good = f.is_open();
  f >> r.version >> r.threshold >> r.items >> r.maxLen >> r.lenFrom >> r.lenTo >> r.distance;
  for (int l = r.lenFrom; l < r.lenTo && r.good; l++) {
    int n = -1; f >> n; if (n < 0 || n > 200) { r.good = false; break; }
    for (int i = 0; i < n; i++) {
      GroupInfo g; g.length = l;
      for (int k = 0; k < l; k++) { double d = 0; f >> d; g.centroid.push_back(d); }
      int c = -1; f >> c; if (c < 0 || c > 200) { r.good = false; return r; }
      for (int k = 0; k < c; k++) { Member m; m.idx = m.start = -1; f >> m.idx >> m.start; g.members.push_back(m); }
      r.g.push_back(g);
    }
  }
  if (!f) r.good = false;
  return r;
}
inline Groups groupsOf(genex::GenexAPI& api, const std::string& name, const char* file = "groups.txt") {
  api.saveGroupsOld(name, sx_path(file), false);
  return readGroups(sx_path(file));
}
inline int groupOf(const Groups& g, int length, int idx, int start) {
  for (size_t i = 0; i < g.g.size(); i++) if (g.g[i].length == length)
    for (size_t k = 0; k < g.g[i].members.size(); k++) if (g.g[i].members[k].idx == idx && g.g[i].members[k].start == start) return (int)i;
  return -1;
}
inline int total(const Rows& r, int from, int to) { int n = 0; for (int l = from; l < to; l++) for (int i = 0; i < r.count(); i++) if (r.len(i) >= l) n += r.len(i) - l + 1; return n; }

}  // namespace ref
using namespace ref;
using genex::TimeSeries; using genex::GenexAPI; using genex::GenexException;
#define REACH sx_reach("end")
