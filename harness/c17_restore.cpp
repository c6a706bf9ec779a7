// Saved groups restore the same grouping: compressed format (FORMAT 0, C17), text format (FORMAT 1, C18).
#include "groups.h"
extern "C" void sx_main() {
  sx_merge_mode(1);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", 2);
  load(api, "a", r); load(api, "b", r); load(api, "c", r); load(api, "q", q);
  api.setWarpingBandRatio(1.0);
  double th = sx_double("threshold", 0, THI, THS); int whole = sx_choose("whole", 0, 1);
  int n = api.groupDataset("a", th, metricName[METRIC], 1, whole);
  int before = sx_choose("before", 0, 2);
  if (before == 1) api.groupDataset("b", 100, "chebyshev", 1, !whole);
  if (before == 2) api.groupDataset("b", 0, metricName[METRIC], 1, false);
  Answers want = answers(api, "a", "q", 1, 2); Groups g = groupsOf(api, "a");
  for (int round = 0; round < 2; round++) {
    std::string from = round ? "b" : "a", to = round ? "c" : "b"; int m;
#if FORMAT == 0
    api.saveGroups(from, sx_path("saved")); m = api.loadGroups(to, sx_path("saved"));
#else
    api.saveGroupsOld(from, sx_path("saved"), false); m = api.loadGroupsOld(to, sx_path("saved"));
#endif
    sx_assert(m == n, "same number of groups returned");
    sx_assert(sameInfo(api.getDatasetInfo("a"), api.getDatasetInfo(to)), "same description");
    checkSameGroups(g, groupsOf(api, to, "other.txt"));
    checkSameAnswers(want, answers(api, to, "q", 1, 2));
    checkSameGroups(g, groupsOf(api, "a"));
  }
#if FORMAT == 1
  // sizes only
  api.saveGroupsOld("a", sx_path("sizes.txt"), true);
  std::ifstream f(sx_path("sizes.txt")); int version = 0, items = 0, maxLen = 0, from = 0, to = 0; double t = -1; std::string dist;
  f >> version >> t >> items >> maxLen >> from >> to >> dist;
  sx_assert(sx_same_d(t, g.threshold) && items == r.count() && maxLen == r.longest() && from == g.lenFrom && to == g.lenTo && dist == metricName[METRIC], "head of the sizes-only file");
  size_t at = 0;
  for (int l = from; l < to; l++) { int c = -1; f >> c; int have = 0; for (size_t i = 0; i < g.g.size(); i++) have += g.g[i].length == l; sx_assert(c == have, "groups of this length"); for (int i = 0; i < c; i++, at++) { int s = -1; f >> s; sx_assert(s == (int)g.g[at].members.size(), "size of the group"); } }
#endif
  sx_observe("groups", n);
  REACH;
}
