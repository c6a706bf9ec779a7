// Grouping puts every sub-sequence into exactly one group; counts agree.  REGROUP: with another grouping before.
#include "common.h"
extern "C" void sx_main() {
  GenexAPI api; Rows r = symbolicRows("v", LENS); load(api, "d", r);
#ifdef THR
  double th = THR;
#else
  double th = sx_double("threshold", 0, 12, 2);
#endif
  int whole = WHOLE;
  if (REGROUP) { api.groupDataset("d", 0.5, "chebyshev", 1, !whole); }
  int n = api.groupDataset("d", th, metricName[METRIC], 1, whole);
  genex::dataset_metadata_t info = api.getDatasetInfo("d");
  sx_assert(info.isGrouped && info.distance == metricName[METRIC] && sx_same_d(info.threshold, th), "grouping settings are reported");
  Groups g = groupsOf(api, "d");
  int L = r.longest(), from = whole ? L : 2;
  sx_assert(g.good && g.items == r.count() && g.maxLen == L, "dataset dimensions");
  sx_assert(n == (int)g.g.size(), "number of groups");
  int members = 0;
  for (size_t i = 0; i < g.g.size(); i++) {
    sx_assert(g.g[i].length >= from && g.g[i].length <= L, "only the requested lengths");
    sx_assert(!g.g[i].members.empty(), "no empty group");
    members += (int)g.g[i].members.size();
    for (size_t k = 0; k < g.g[i].members.size(); k++) {
      ref::Member m = g.g[i].members[k];
      sx_assert(m.idx >= 0 && m.idx < r.count() && m.start >= 0 && m.start + g.g[i].length <= r.len(m.idx), "members are sub-sequences of the dataset");
      sx_assert(groupOf(g, g.g[i].length, m.idx, m.start) == (int)i, "in one group only");
    }
  }
  sx_assert(members == total(r, from, L + 1), "sizes add up to the number of sub-sequences");
  for (int l = from; l <= L; l++) for (int i = 0; i < r.count(); i++) for (int s = 0; s + l <= r.len(i); s++) sx_assert(groupOf(g, l, i, s) >= 0, "every sub-sequence is in a group");
  sx_observe("groups", n);
  if ((int)g.g.size() > 1) sx_reach("several");
  REACH;
}
