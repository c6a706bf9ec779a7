// Grouping with several worker threads under every interleaving of their synchronisation operations, against one thread.
#include "groups.h"
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLEN); load(api, "d", r); load(api, "one", r); load(api, "q", q); api.setWarpingBandRatio(1.0);
  int m = api.groupDataset("one", TH, metricName[METRIC], 1, WHOLE);
  Groups g = groupsOf(api, "one");
  if (REGROUP) api.groupDataset("d", 0, "chebyshev", 1, true);
  int n = api.groupDataset("d", TH, metricName[METRIC], THREADS, WHOLE);
  sx_assert(n == m && n == (int)g.g.size(), "same number of groups");
  sx_assert(sameInfo(api.getDatasetInfo("d"), api.getDatasetInfo("one")), "same description");
  checkSameGroups(g, groupsOf(api, "d", "d.txt"));
  checkSameAnswers(answers(api, "one", "q", 2, 2), answers(api, "d", "q", 2, 2));
  if (n > 2) sx_reach("several");
  sx_observe("groups", n);
  REACH;
}
