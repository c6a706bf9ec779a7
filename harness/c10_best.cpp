// Best match on a grouped dataset.
#include "search.h"
#ifdef TH
#define QSHI(n) -1
#else
#define QSHI(n) (n) - 2
#endif
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLENS); load(api, "d", r);
#ifdef SAME
  q = r; std::string qn = "d";
#else
  load(api, "q", q); std::string qn = "q";
#endif
  double ratio = RATIO; api.setWarpingBandRatio(ratio);
#ifdef TH
  double th = TH;
#else
  double th = THI ? sx_double("threshold", 0, THI, 2) : 0;
#endif
  api.groupDataset("d", th, metricName[METRIC], 1, WHOLE);
  int qs = sx_choose("qs", -1, QSHI(q.len(0))), qe = qs < 0 ? -1 : sx_choose("qe", 2, q.len(0)); sx_assume(qs < 0 || qe - qs >= 2);
  int s0 = qs < 0 ? 0 : qs, ql = qs < 0 ? q.len(0) : qe - qs;
  const double* x = q.at(0, s0);
  int L = r.longest(); bool any = false;
  for (int l = WHOLE ? L : 2; l <= L; l++) any = any || reachable(ql, l, ratio);
  genex::candidate_time_series_t b;
  bool no = refused([&] { b = api.getBestMatch("d", qn, 0, qs, qe); });
  sx_assert(no == !any, "refused exactly when nothing grouped is within reach");
  if (no) { sx_reach("refused"); return; }
  checkValues(r, b);
  int bl = b.data.getLength();
  sx_assert(bl >= (WHOLE ? L : 2) && reachable(ql, bl, ratio), "a grouped length within reach");
  sx_assert(sx_close(b.dist, warped(METRIC, x, ql, r.at(b.data.getIndex(), b.data.getStart()), bl, ratio), 1e-9), "exact distance");
  sx_observe("dist", b.dist);
  Groups g = groupsOf(api, "d");
  for (size_t k = 0; k < g.g.size(); k++) if (reachable(ql, g.g[k].length, ratio))
    sx_assert(b.dist <= warped(METRIC, x, ql, &g.g[k].centroid[0], g.g[k].length, ratio) + 1e-9, "no representative is closer");
  if (!THI) {
    std::vector<Sub> c = subs(r, WHOLE ? L : 2, L);
    for (size_t a = 0; a < c.size(); a++) if (reachable(ql, c[a].len, ratio)) sx_assert(b.dist <= warped(METRIC, x, ql, r.at(c[a].idx, c[a].start), c[a].len, ratio) + 1e-9, "smallest of all when the threshold is zero");
  }
  REACH;
}
