// A wider band never makes the warped distance larger.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(7);
  double x[LA], y[LB];
  for (int i = 0; i < LA; i++) x[i] = val("x");
  for (int i = 0; i < LB; i++) y[i] = val("y");
  int l = LA > LB ? LA : LB;
  int r1 = sx_choose("r1", 0, l), r2 = sx_choose("r2", 0, l); sx_assume(r1 < r2);
  TimeSeries a(x, LA), b(y, LB);
  const genex::dist_t d = genex::getDistanceFromName(std::string(metricName[METRIC]) + "_dtw");
  genex::setWarpingBandRatio((double)r1 / l); double d1 = d(a, b, inf, genex::gNoMatching);
  genex::setWarpingBandRatio((double)r2 / l); double d2 = d(a, b, inf, genex::gNoMatching);
  sx_observe("d1", d1); sx_observe("d2", d2);
  sx_assert(d2 <= d1, "a wider band is never worse");
  REACH;
}
