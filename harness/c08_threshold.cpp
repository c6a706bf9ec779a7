// Representatives are members, members are within half the threshold, and the greedy rule was followed.
#include "common.h"
static bool found(const Groups& g, size_t k, int i, int s) { return g.g[k].members.back().idx == i && g.g[k].members.back().start == s; }
extern "C" void sx_main() {
  GenexAPI api; Rows r = symbolicRows("v", LENS); load(api, "d", r);
  double th = sx_double("threshold", 0, THI, 2);
  api.groupDataset("d", th, metricName[METRIC], 1, WHOLE);
  Groups g = groupsOf(api, "d");
  const double eps = 1e-9;      // the start of a group is decided without: where a distance equals half the threshold, the values of this grid make it exact
  for (size_t k = 0; k < g.g.size(); k++) {
    int l = g.g[k].length; const std::vector<double>& c = g.g[k].centroid;
    int own = 0;
    for (size_t m = 0; m < g.g[k].members.size(); m++) {
      ref::Member e = g.g[k].members[m]; int same = 1;
      for (int i = 0; i < l; i++) same = sx_and(same, sx_same_d(c[i], r.v[e.idx][e.start + i]));
      own = sx_or(own, same);
      sx_assert(pointwise(METRIC, &c[0], r.at(e.idx, e.start), l) <= th / 2 + eps, "members are within half the threshold of the representative");
    }
    sx_assert(own, "the representative is one of the members");
  }
  // the rule, in the order in which sub-sequences are taken up: by start, then by series
  for (int l = WHOLE ? r.longest() : 2; l <= r.longest(); l++) {
    std::vector<size_t> seen;
    for (int s = 0; s + l <= r.longest(); s++)
      for (int i = 0; i < r.count(); i++) {
        if (s + l > r.len(i)) continue;
        int mine = groupOf(g, l, i, s); sx_assert(mine >= 0, "grouped");
        bool known = false; for (size_t q = 0; q < seen.size(); q++) known = known || seen[q] == (size_t)mine;
        double own = pointwise(METRIC, &g.g[mine].centroid[0], r.at(i, s), l);
        for (size_t q = 0; q < seen.size(); q++) {
          double d = pointwise(METRIC, &g.g[seen[q]].centroid[0], r.at(i, s), l);
          if (known) sx_assert(own <= d + eps, "joins a nearest representative");
          else sx_assert(d > th / 2, "starts a group only when no representative is near enough");
        }
        if (!known) { seen.push_back(mine); sx_assert(own <= eps, "the first member represents the group"); }
      }
    if (seen.size() > 1) sx_reach("several");
  }
  sx_observe("n", (double)g.g.size());
  REACH;
}
