// Matching and distance through the API agree; metrics without an alignment are refused.
#include "common.h"
extern "C" void sx_main() {
  GenexAPI api; Rows r = symbolicRows("v", LENS); load(api, "d", r);
  double ratio = sx_choose("ratio", 0, 2) / 2.0; api.setWarpingBandRatio(ratio);
  int s = sx_choose("s", 0, 1), t = sx_choose("t", 0, 1);
  int e = r.len(0), f = sx_choose("f", 2, r.len(1)); sx_assume(t < f);
  std::string name = std::string(metricName[METRIC]);
  sx_assert(refused([&] { api.matchingBetween("d", 0, s, e, "d", 1, t, f, name); }), "a point-wise metric has no matching");
  sx_assert(refused([&] { api.matchingBetween("d", 0, s, e, "d", 1, t, f, "nosuch_dtw"); }), "unknown metric refused");
  sx_assert(refused([&] { api.matchingBetween("d", 0, s, e, "d", 1, t, f, "w"); }), "short name refused");
  int m = e - s, n = f - t;
  if (!reachable(m, n, ratio)) { sx_reach("apart"); return; }
  genex::matching_t k = api.matchingBetween("d", 0, s, e, "d", 1, t, f, name + "_dtw");
  double d = api.distanceBetween("d", 0, s, e, "d", 1, t, f, name + "_dtw");
  double acc = 0; int b = band(m, n, ratio);
  sx_assert(!k.empty() && k[0].first == 0 && k[0].second == 0 && k.back().first == m - 1 && k.back().second == n - 1, "from first to last pair");
  for (size_t i = 0; i < k.size(); i++) {
    int p = k[i].first, q = k[i].second;
    sx_assert(p >= 0 && p < m && q >= 0 && q < n && p - q <= b && q - p <= b, "inside the series and the band");
    if (i) { int dp = p - k[i - 1].first, dq = q - k[i - 1].second; sx_assert(dp >= 0 && dq >= 0 && dp <= 1 && dq <= 1 && dp + dq > 0, "moves one step forward"); }
    acc = combine(METRIC, acc, term(METRIC, r.v[0][s + p], r.v[1][t + q]));
  }
  sx_observe("d", d); sx_observe("n", (double)k.size());
  sx_assert(sx_close(d, normWarped(METRIC, acc, m, n), 1e-9), "accumulating along the matching gives the distance");
  REACH;
}
