// Computations do not influence one another and keep nothing.
#include "search.h"
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLEN); load(api, "d", r); load(api, "q", q);
  static const double ratios[2] = {1.0, 0.5}; double ratio = 1.0; api.setWarpingBandRatio(ratio);
  api.groupDataset("d", 1, "euclidean", 1, false);
  const double *x = q.at(0, 0), *y = r.at(0, 0); int nx = q.len(0), ny = r.len(0);
  long bytes = 0, objects = 0;
  for (int step = 0; step < STEPS; step++) {
    int op = OPS < 0 ? sx_choose("op", 0, 5) : OPS;
    for (int again = 0; again < 3; again++) {
      long b0 = sx_live_bytes(), o0 = sx_live_objects();
      int metric = op == 3 ? CHE : op == 1 ? MAN : EUC;
      if (op < 4) {
        std::string name = std::string(metricName[metric]) + "_dtw";
        if (op == 2) {
          genex::matching_t m = api.matchingBetween("q", 0, -1, -1, "d", 0, -1, -1, name);
          sx_assert(reachable(nx, ny, ratio) ? !m.empty() && m.front() == std::make_pair(0, 0) && m.back() == std::make_pair(nx - 1, ny - 1) : true, "a matching of these two");
        } else {
          double d = api.distanceBetween("q", 0, -1, -1, "d", 0, -1, -1, name);
          sx_assert(sx_close(d, warped(metric, x, nx, y, ny, ratio), 1e-9), "distance of these two"); sx_observe("dist", d);
        }
      } else if (op == 4) { genex::candidate_time_series_t c; bool no = refused([&] { c = api.getBestMatch("d", "q", 0); }); if (!no) { int l = c.data.getLength(); sx_assert(sx_close(c.dist, warped(EUC, x, nx, r.at(c.data.getIndex(), c.data.getStart()), l, ratio), 1e-9), "distance of the answer"); } }
      else { Results k = api.getKBestMatchesBruteForce(2, "d", "q", 0, -1, -1, "euclidean"); for (size_t i = 0; i < k.size(); i++) sx_assert(sx_close(k[i].dist, warped(EUC, x, nx, r.at(k[i].data.getIndex(), k[i].data.getStart()), k[i].data.getLength(), ratio), 1e-9), "distance of the answer"); }
      if (again) { sx_assert(sx_live_objects() == o0, "no object is kept"); sx_assert(sx_live_bytes() == b0, "no memory is kept"); }
    }
    if (step + 1 < STEPS) { ratio = ratios[sx_choose("ratio", 0, 1)]; api.setWarpingBandRatio(ratio); }
  }
  REACH;
}
