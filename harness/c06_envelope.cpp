// Envelopes are sliding minima and maxima of the current values, whatever was asked or done before.
#include "common.h"
static int W;   // which of the two envelopes is asked for first
static void check(const TimeSeries& t, const double* v, int n, int r, const char* what) {
  const double *lo, *hi;
  if (W) { hi = t.getKeoghUpper(r); lo = t.getKeoghLower(r); } else { lo = t.getKeoghLower(r); hi = t.getKeoghUpper(r); }
  for (int i = 0; i < n; i++) {
    double a = v[i], b = v[i];
    for (int j = 0; j < n; j++) if (j - i <= r && i - j <= r) { a = sx_min(a, v[j]); b = sx_max(b, v[j]); }
    sx_observe("lo", lo[i]); sx_observe("hi", hi[i]);
    sx_assert(sx_and(sx_same_d(lo[i], a), sx_same_d(hi[i], b)), what);
  }
}
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  W = sx_choose("first", 0, 1);
  double x[LN + 2], y[LN + 2], z[LN + 3];
  for (int i = 0; i < LN; i++) { x[i] = val("x"); }
#if OPS == 0
  x[LN] = 99; z[0] = -99; for (int i = 0; i < LN; i++) z[i + 1] = x[i]; z[LN + 1] = 99;
  TimeSeries t(z, 3, 1, LN + 1);
  int r = sx_choose("r", 0, LN);
  check(t, x, LN, r, "sliding minimum and maximum");
#else
  for (int i = 0; i < LN; i++) y[i] = val("y");
  int n2 = sx_choose("other_length", LN > 1 ? LN - 1 : 1, LN);
  TimeSeries t(LN), u(n2); double v[LN], w[LN];
  for (int i = 0; i < LN; i++) t[i] = v[i] = x[i];
  for (int i = 0; i < n2; i++) u[i] = w[i] = y[i];
  int n = LN;
  if (sx_choose("ask_other", 0, 1)) check(u, w, n2, sx_choose("ru", 0, 1), "envelope of another series");
  for (int k = 0; k < OPS; k++) {
    int op = sx_choose("op", 0, 4), r = sx_choose("r", 0, LN - 1);
    if (op == 0) {}
    else if (op == 1) { if (n == n2) { t += u; for (int i = 0; i < n; i++) v[i] += w[i]; } else sx_assert(refused([&] { t += u; }), "different lengths cannot be added"); }
    else if (op == 2) { t = u; n = n2; for (int i = 0; i < n; i++) v[i] = w[i]; }
    else if (op == 3) { TimeSeries c(t); check(c, v, n, r, "envelope of a copy"); }
    else { t = TimeSeries(u); n = n2; for (int i = 0; i < n; i++) v[i] = w[i]; }
    check(t, v, n, r, "envelope of the current values");
  }
#endif
  REACH;
}
