// Pruning bounds against the warped distance, both argument orders.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(7);
  double x[LA], y[LB];
  for (int i = 0; i < LA; i++) x[i] = val("x");
  for (int i = 0; i < LB; i++) y[i] = val("y");
  int l = LA > LB ? LA : LB;
  double ratio = sx_choose("ratio", 0, l) / (double)l;
  genex::setWarpingBandRatio(ratio);
  TimeSeries a(x, LA), b(y, LB);
  double want = warped(EUC, x, LA, y, LB, ratio);
  double limit = inf;
  if (sx_choose("limited", 0, 1)) limit = sx_double("limit", 0, 16, 3);
  if (WHAT == 0) {
    double k = genex::kimLowerBound(a, b, limit);
    sx_observe("k", k);
    sx_assert(sx_or(k <= want + 1e-9, sx_and(k == inf, want > limit)), "first and last pair bound");
  } else if (WHAT == 1) {
    double k = genex::keoghLowerBound(a, b, limit);
    sx_observe("k", k);
    sx_assert(sx_or(k <= want + 1e-9, sx_and(k == inf, want > limit)), "envelope bound");
  } else if (WHAT == 2) {
    double k = genex::crossKeoghLowerBound(a, b, limit);
    sx_observe("k", k);
    sx_assert(sx_or(k <= want + 1e-9, sx_and(k == inf, want > limit - 1e-9)), "envelope bound of either series");
  } else {
    double k = genex::cascadeDistance(a, b, inf, genex::gNoMatching);
    sx_observe("k", k);
    sx_assert(sx_close(k, want, 1e-9), "accelerated equals plain when nothing is abandoned");
  }
  REACH;
}
