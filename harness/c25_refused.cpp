// Sequences of valid and refused grouping requests.
#include "groups.h"
#include "GroupableTimeSeriesSet.hpp"
extern "C" void sx_main() {
  sx_merge_mode(1);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", 2); load(api, "d", r); load(api, "fresh", r); load(api, "q", q); api.setWarpingBandRatio(1.0);
  { genex::GroupableTimeSeriesSet s; sx_assert(refused([&] { s.groupAllLengths("manhattan", 1, 1, false); }) && !s.isGrouped(), "nothing loaded"); sx_assert(refused([&] { s.getBestMatch(TimeSeries(2)); }), "nothing to search"); }
  bool grouped = false; Groups g; genex::dataset_metadata_t info = api.getDatasetInfo("d");
  for (int step = 0; step < STEPS; step++) {
    int op = sx_choose("op", 0, 5); bool no = true; int n = 0;
    if (op == 0) no = refused([&] { n = api.groupDataset("d", 1, "manhattan", 1, false); });
    if (op == 1) no = refused([&] { n = api.groupDataset("d", 0, "chebyshev", 1, true); });
    if (op == 2) no = refused([&] { api.groupDataset("d", 1, sx_choose("name", 0, 1) ? "nothing" : ""); });
    if (op == 3) no = refused([&] { api.groupDataset("d", 1, "manhattan", sx_choose("threads", -1, 0)); });
    if (op == 4) no = refused([&] { api.loadGroups("d", sx_path("none")); });
    if (op == 5) no = refused([&] { api.groupDataset("unknown", 1, "manhattan"); });
    sx_assert(no == (op > 1), "refused exactly when something is wrong with the request");
    genex::dataset_metadata_t now = api.getDatasetInfo("d");
    if (!no) {
      grouped = true; g = groupsOf(api, "d"); info = now;
      api.unloadDataset("fresh"); load(api, "fresh", r);
      int m = op == 0 ? api.groupDataset("fresh", 1, "manhattan", 1, false) : api.groupDataset("fresh", 0, "chebyshev", 1, true);
      sx_assert(n == m && n == (int)g.g.size(), "normal number of groups"); checkSameGroups(groupsOf(api, "fresh", "f.txt"), g);
      sx_assert(sameInfo(now, api.getDatasetInfo("fresh")), "normal description");
    } else if (now.isGrouped) { sx_assert(grouped && sameInfo(now, info), "as before"); checkSameGroups(g, groupsOf(api, "d", "n.txt")); }
    else { grouped = false; sx_assert(now.distance == "" && now.threshold == 0, "plainly ungrouped"); }
    sx_assert(refused([&] { api.getBestMatch("d", "q", 0); }) == !grouped && refused([&] { api.getKBestMatches(1, 1, "d", "q", 0); }) == !grouped && refused([&] { groupsOf(api, "d", "n.txt"); }) == !grouped, "queries work exactly when grouped");
  }
  REACH;
}
