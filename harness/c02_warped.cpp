// Warped distances against the optimum over all alignments in the band, for every band ratio on a grid.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(7);
  double x[LA], y[LB];
  for (int i = 0; i < LA; i++) x[i] = val("x");
  for (int i = 0; i < LB; i++) y[i] = val("y");
  int l = LA > LB ? LA : LB;
#ifdef ANYRATIO
  double ratio = sx_double("ratio", 0, 32, 5);        // every k/32
#else
  double ratio = sx_choose("ratio", 0, 2 * l) / (2.0 * l);   // every band, reached from both ends of its range of ratios
#endif
  int r = (int)sx_concretize((int)std::floor(l * ratio)); if (r > l - 1) r = l - 1;
  genex::setWarpingBandRatio(ratio);
  TimeSeries a(x, LA), b(y, LB);
  const genex::dist_t d = genex::getDistanceFromName(std::string(metricName[METRIC]) + "_dtw");
  double got = d(a, b, inf, genex::gNoMatching);
  sx_observe("d", got);
  bool ok = LA - LB <= r && LB - LA <= r;
  double want = ok ? normWarped(METRIC, warpedTotal(METRIC, x, LA, y, LB, r), LA, LB) : inf;
  sx_assert(sx_close(got, want, 1e-9), "optimum over the alignments in the band");
  if (ok) sx_reach("aligned");
#ifdef SYM
  sx_assert(sx_close(d(b, a, inf, genex::gNoMatching), want, 1e-9), "symmetric");
#endif
#ifdef SELF
  sx_assert(sx_close(d(a, TimeSeries(a), inf, genex::gNoMatching), 0, 1e-9), "zero for identical series");
#endif
  REACH;
}
