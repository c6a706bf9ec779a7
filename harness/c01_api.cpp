// The same distances asked for through the API on a loaded dataset, with every legal pair of ranges, and the
// refusal of unequal lengths.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(7);
  GenexAPI api; Rows r = symbolicRows("v", LENS); load(api, "d", r);
  int metric = METRIC;
  int i = sx_choose("i", 0, r.count() - 1), j = sx_choose("j", 0, r.count() - 1);
  int s = sx_choose("s", 0, r.len(i) - 1), e = sx_choose("e", 1, r.len(i)), t = sx_choose("t", 0, r.len(j) - 1), f = sx_choose("f", 1, r.len(j));
  sx_assume(s < e && t < f);
  double got = 0;
  bool no = refused([&] { got = api.distanceBetween("d", i, s, e, "d", j, t, f, metricName[metric]); });
  if (e - s != f - t) { sx_assert(no, "different lengths are refused"); sx_reach("refused"); return; }
  sx_assert(!no, "equal lengths are answered");
  double want = pointwise(metric, r.at(i, s), r.at(j, t), e - s);
  sx_observe("d", got);
  sx_assert(sx_close(got, want, 1e-9), "value of the formula");
  REACH;
}
