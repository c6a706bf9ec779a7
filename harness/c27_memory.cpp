// Abandoned computations, searches, preparations and loads keep nothing either.
#include "search.h"
static std::string nameOf(int metric, bool dtw) { return std::string(metricName[metric]) + (dtw ? "_dtw" : ""); }
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLEN); load(api, "d", r); load(api, "q", q);
  double ratio = RATIO; api.setWarpingBandRatio(ratio);
  writeRows("e.txt", r);
  const double *x = q.at(0, 0), *y = r.at(0, 0); int nx = q.len(0), ny = r.len(0);
  double limit = sx_double("limit", 0, 6, 2);
  for (int again = 0; again < 3; again++) {
    long b0 = sx_live_bytes(), o0 = sx_live_objects();
    if (OP == 0 || OP == 1) {           // point-wise and warped distances with a limit
      bool dtw = OP; TimeSeries a = api.getTimeSeries("q", 0, 0, dtw ? nx : 2), b = api.getTimeSeries("d", 0, 0, dtw ? ny : 2);
      double d = genex::getDistanceFromName(nameOf(METRIC, dtw))(a, b, limit, genex::gNoMatching);
      if (METRIC < COS) {
        double e = dtw ? warped(METRIC, x, nx, y, ny, ratio) : pointwise(METRIC, x, y, 2);
        sx_assert(sx_or(sx_close(d, e, 1e-9), sx_and(d == inf, e > limit - 1e-9)), "distance of these two");
      }
    } else if (OP == 2) {               // accelerated distance, bounds
      TimeSeries a = api.getTimeSeries("q", 0, 0, nx), b = api.getTimeSeries("d", 0, 0, ny);
      double d = genex::cascadeDistance(a, b, limit, genex::gNoMatching), e = warped(EUC, x, nx, y, ny, ratio);
      sx_assert(sx_or(sx_close(d, e, 1e-9), sx_and(d == inf, e > limit - 1e-9)), "distance of these two");
    } else if (OP == 3) {               // matchings of every metric
      api.matchingBetween("q", 0, -1, -1, "d", 0, -1, -1, nameOf(METRIC, true));
    } else if (OP == 4) {               // grouping anew, queries
      api.groupDataset("d", 1, nameOf(METRIC, false), 1, again == 1);
      refused([&] { api.getBestMatch("d", "q", 0); });
      api.getKBestMatches(2, 3, "d", "q", 0);
      api.groupDataset("d", 1, nameOf(METRIC, false), 1, false);
    } else if (OP == 5) {               // block averages
      api.preparePAA("d", 2);
      api.getKBestMatchesPAA(2, "d", "q", 0, -1, -1, "manhattan");
    } else if (OP == 6) {               // datasets
      api.loadDataset("e", sx_path("e.txt"), " ");
      api.preparePAA("e", 2); api.groupDataset("e", 1, nameOf(METRIC, false), 1, false); api.normalizeDataset("e");
      sx_assert(refused([&] { api.loadDataset("e", sx_path("e.txt"), " "); }), "name in use");
      sx_assert(refused([&] { api.loadDataset("f", sx_path("none.txt"), " "); }), "no such file");
      api.unloadDataset("e");
    } else {                            // group files
      if (!again) { api.groupDataset("d", 1, nameOf(METRIC, false), 1, false); api.saveGroups("d", sx_path("g.bin")); api.saveGroupsOld("d", sx_path("g.txt"), false); }
      api.loadGroups("d", sx_path("g.bin")); api.loadGroupsOld("d", sx_path("g.txt"));
      sx_assert(refused([&] { api.loadGroups("q", sx_path("g.bin")); }) && refused([&] { api.loadGroupsOld("q", sx_path("g.txt")); }), "groups of another dataset");
      api.loadGroups("d", sx_path("g.bin"));
    }
    if (again) { sx_assert(sx_live_objects() == o0, "no object is kept"); sx_assert(sx_live_bytes() == b0, "no memory is kept"); }
  }
  REACH;
}
