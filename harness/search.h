// Common to the search harnesses: candidates and what every list of results must satisfy.
#pragma once
#include "common.h"
typedef std::vector<genex::candidate_time_series_t> Results;
struct Sub { int idx, start, len; };
// all sub-sequences of lengths from..to
inline std::vector<Sub> subs(const Rows& r, int from, int to) {
  std::vector<Sub> v; for (int i = 0; i < r.count(); i++) for (int l = from; l <= to && l <= r.len(i); l++) for (int s = 0; s + l <= r.len(i); s++) { Sub x; x.idx = i; x.start = s; x.len = l; v.push_back(x); }
  return v;
}
inline bool is(const genex::candidate_time_series_t& c, const Sub& s) { return c.data.getIndex() == s.idx && c.data.getStart() == s.start && c.data.getEnd() == s.start + s.len; }
inline int at(const std::vector<Sub>& v, const genex::candidate_time_series_t& c) { for (size_t i = 0; i < v.size(); i++) if (is(c, v[i])) return (int)i; return -1; }
inline void checkValues(const Rows& r, const genex::candidate_time_series_t& c) {
  sx_assert(c.data.getIndex() >= 0 && c.data.getIndex() < r.count() && c.data.getStart() >= 0 && c.data.getStart() < c.data.getEnd() && c.data.getEnd() <= r.len(c.data.getIndex()), "a sub-sequence of the target");
  sx_assert(c.data.getLength() == c.data.getEnd() - c.data.getStart(), "its length");
  for (int i = 0; i < c.data.getLength(); i++) sx_assert(sx_same_d(c.data[i], r.v[c.data.getIndex()][c.data.getStart() + i]), "with its values");
}
inline void checkList(const Rows& r, const Results& res, const std::vector<Sub>& cand, const std::vector<double>& dist, int k) {
  int want = k < (int)cand.size() ? k : (int)cand.size();
  sx_assert((int)res.size() == want, "number of results");
  for (size_t i = 0; i < res.size(); i++) {
    checkValues(r, res[i]);
    int a = at(cand, res[i]);
    sx_assert(a >= 0, "a candidate");
    sx_assert(sx_close(res[i].dist, dist[a], 1e-9), "exact distance");
    sx_observe("dist", res[i].dist);
    for (size_t j = 0; j < i; j++) sx_assert(at(cand, res[j]) != a, "all different");
    if (i) sx_assert(res[i - 1].dist <= res[i].dist + 1e-9, "ascending");
  }
}
inline void checkNearest(const Results& res, const std::vector<Sub>& cand, const std::vector<double>& dist) {
  if (res.empty()) return;
  double last = res.back().dist;
  for (size_t a = 0; a < cand.size(); a++) { bool in = false; for (size_t i = 0; i < res.size(); i++) in = in || is(res[i], cand[a]); if (!in) sx_assert(dist[a] >= last - 1e-9, "nothing closer is left out"); }
}
