// With any abandon limit the answer is the exact distance, or infinity when the exact distance is larger than the limit.
// KIND 0: point-wise, 1: warped, 2: the accelerated euclidean distance
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(7);
  double x[LA], y[LB];
  for (int i = 0; i < LA; i++) x[i] = val("x");
  for (int i = 0; i < LB; i++) y[i] = val("y");
  int l = LA > LB ? LA : LB;
  double ratio = KIND ? sx_choose("ratio", 0, l) / (double)l : 1;
  genex::setWarpingBandRatio(ratio);
  TimeSeries a(x, LA), b(y, LB);
  const genex::dist_t d = KIND == 2 ? genex::cascadeDistance : genex::getDistanceFromName(std::string(metricName[METRIC]) + (KIND ? "_dtw" : ""));
  double want = KIND == 0 ? pointwise(METRIC, x, y, LA) : warped(METRIC, x, LA, y, LB, ratio);
  int mode = sx_choose("limit_kind", 0, 2);
  double limit = mode == 0 ? sx_double("limit", 0, LIM, LIMS) : mode == 1 ? want : inf;
  double got = d(a, b, limit, genex::gNoMatching);
  sx_observe("d", got);
  // rounding: the point-wise euclidean distance compares squares, the accelerated one squares the limit
  double slack = (METRIC == EUC && KIND != 1) || (METRIC == MAN && KIND == 0 && LA == 3) || KIND == 2 ? 1e-9 : 0;
  if (mode == 1 && slack > 0) { sx_assert(sx_or(sx_close(got, want, 1e-9), got == inf), "exact or abandoned at the limit itself"); sx_reach("equal"); return; }
  sx_assert(sx_or(sx_close(got, want, 1e-9), sx_and(got == inf, want > limit - slack)), "exact, or infinite because it is larger than the limit");
  if (mode == 2) sx_assert(sx_close(got, want, 1e-9), "exact without a limit");
  if (mode == 0) sx_reach("limit"); else sx_reach("equal");
  REACH;
}
