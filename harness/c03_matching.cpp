// The reported matching is a legal alignment in the band and realises the reported distance.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(1);
  double x[LA], y[LB];
  for (int i = 0; i < LA; i++) x[i] = val("x");
  for (int i = 0; i < LB; i++) y[i] = val("y");
  int l = LA > LB ? LA : LB;
  double ratio = sx_choose("ratio", 0, l) / (double)l;
  int r = band(LA, LB, ratio);
  genex::setWarpingBandRatio(ratio);
  TimeSeries a(x, LA), b(y, LB);
  const genex::dist_t d = genex::getDistanceFromName(std::string(metricName[METRIC]) + "_dtw");
  genex::matching_t m;
  double got = d(a, b, inf, m);
  sx_observe("d", got);
  if (!reachable(LA, LB, ratio)) { if (METRIC < COS) sx_assert(got == inf, "nothing to match: infinite"); sx_reach("apart"); return; }
  // a defined value
  if (METRIC >= COS && got != got) { sx_reach("undefined"); return; }
  if (METRIC >= COS && got == inf) return;
  sx_assert(!m.empty(), "there is a matching");
  sx_assert(m.size() <= LA + LB - 1, "no longer than any alignment");
  sx_assert(m[0].first == 0 && m[0].second == 0, "starts at the first pair");
  size_t k = m.size();
  sx_assert(m[k - 1].first == LA - 1 && m[k - 1].second == LB - 1, "ends at the last pair");
  double t0 = 0, t1 = 0, t2 = 0;
  for (size_t i = 0; i < k; i++) {
    int p = m[i].first, q = m[i].second;
    sx_assert(p >= 0 && p < LA && q >= 0 && q < LB, "pairs positions of the two series");
    sx_assert(p - q <= r && q - p <= r, "stays inside the band");
    if (i) { int dp = p - m[i - 1].first, dq = q - m[i - 1].second; sx_assert(dp >= 0 && dq >= 0 && dp <= 1 && dq <= 1 && dp + dq > 0, "moves one step forward"); }
    if (METRIC < COS) t0 = combine(METRIC, t0, term(METRIC, x[p], y[q]));
    else if (METRIC == COS) { t0 += x[p] * x[p]; t1 += y[q] * y[q]; t2 += x[p] * y[q]; }
    else { t0 += std::fabs(x[p] - y[q]); t1 += std::fabs(x[p] + y[q]); }
  }
  double want = METRIC < COS ? normWarped(METRIC, t0, LA, LB) : METRIC == COS ? t2 / std::sqrt(t0 * t1) : t0 / t1;
  sx_assert(sx_close(got, want, 1e-9), "accumulating along the matching gives the distance");
  REACH;
}
