// Point-wise distances against their formulas, with the two series at arbitrary offsets inside larger buffers.
#include "common.h"
#ifndef LN
#define LN 3
#endif
#ifndef METRIC
#define METRIC 0
#endif
extern "C" void sx_main() {
  sx_merge_mode(7);
  double x[LN + 1], y[LN + 1];
  for (int i = 0; i < LN; i++) { x[i] = val("x"); y[i] = val("y"); }
  double bx[LN + 3], by[LN + 3];                       // the same values inside larger buffers
  int ox = OX, oy = OY;
  for (int i = 0; i < LN + 3; i++) { bx[i] = 77.5; by[i] = -31.25; }
  for (int i = 0; i < LN; i++) { bx[ox + i] = x[i]; by[oy + i] = y[i]; }
  TimeSeries a(x, LN), b(y, LN), as(bx, 1, ox, ox + LN), bs(by, 2, oy, oy + LN);
  TimeSeries ao(LN); for (int i = 0; i < LN; i++) ao[i] = x[i];
  const genex::dist_t d = genex::getDistanceFromName(metricName[METRIC]);
  double want = pointwise(METRIC, x, y, LN);
  double got = d(a, b, inf, genex::gNoMatching);
  sx_observe("d", got);
  sx_assert(sx_close(got, want, 1e-9), "value of the formula");
  sx_assert(sx_close(d(b, a, inf, genex::gNoMatching), want, 1e-9), "symmetric");
  sx_assert(sx_close(d(as, bs, inf, genex::gNoMatching), want, 1e-9), "same for a sub-sequence");
  sx_assert(sx_close(d(ao, bs, inf, genex::gNoMatching), want, 1e-9), "same for a series that owns its values");
  if (METRIC < COS) sx_assert(sx_close(d(a, as, inf, genex::gNoMatching), 0, 1e-9), "zero for equal values");
  for (int i = 0; i < LN; i++) sx_assert(sx_and(sx_same_d(a[i], x[i]), sx_same_d(b[i], y[i])), "arguments unchanged");
  REACH;
}
