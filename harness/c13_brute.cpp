// Exhaustive search.
#include "search.h"
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLEN); load(api, "d", r); load(api, "q", q);
  double ratio = RATIO; api.setWarpingBandRatio(ratio);
  int qs = QS; const double* x = q.at(0, qs < 0 ? 0 : qs); int ql = qs < 0 ? q.len(0) : q.len(0) - qs;
  std::vector<Sub> c = subs(r, 2, r.longest()); std::vector<double> dist;
  for (size_t a = 0; a < c.size(); a++) dist.push_back(warped(METRIC, x, ql, r.at(c[a].idx, c[a].start), c[a].len, ratio));
  int n = (int)c.size(), k = sx_choose("k", KLO, KHI < n + 2 ? KHI : n + 2);
  sx_assert(refused([&] { api.getKBestMatchesBruteForce(1, "d", "q", 0, qs, qs < 0 ? -1 : q.len(0), "nosuch"); }), "unknown metric refused");
  Results res;
  bool no = refused([&] { res = api.getKBestMatchesBruteForce(k, "d", "q", 0, qs, qs < 0 ? -1 : q.len(0), metricName[METRIC]); });
  sx_assert(no == (k <= 0), "refused exactly for k below one");
  if (no) { sx_reach("refused"); return; }
  checkList(r, res, c, dist, k); checkNearest(res, c, dist);
  REACH;
}
