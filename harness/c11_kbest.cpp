// k-best on a grouped dataset: C11 (list), C12 (nearest).
#include "search.h"
#ifdef SHAPES   // whole series in every order, two of the values symbolic
static const int rows[] = {5, 5, 6};
static const double base[3][6][4] = {
  {{0, 4, 4, 2}, {0, 0, 4, 4}, {3, 0, 4, 4}, {1, 0, 0, 4}, {0, 4, 4, 4}},     // warp onto the query from far away (point by point)
  {{9, 0, 4, 4}, {0, 0, 5, 4}, {-8, 0, 4, 4}, {1, 0, 4, 4}, {0, 1, 4, 4}},    // three alike, the others apart
  {{0, 3, 4, 4}, {1, 0, 4, 4}, {0, 0, 4, 6}, {3, 0, 4, 4}, {4, 0, 4, 4}, {0, 0, 4, -1}}};  // all apart
static Rows shapes() {
  bool taken[6] = {}; Rows r; int n = rows[SHAPES];
  for (int i = 0; i < n; i++) {
    int at = sx_choose("next", 0, n - 1 - i), b = 0;
    for (;; b++) if (!taken[b] && !at--) break;
    taken[b] = true; r.v.push_back(std::vector<double>(base[SHAPES][b], base[SHAPES][b] + 4));
    if (b == 0) r.v.back()[3] = val("v");
    if (b == 2 && n == 5) r.v.back()[0] = val("v");
  }
  return r;
}
#endif
extern "C" void sx_main() {
  sx_merge_mode(MODE);
#ifdef SHAPES
  GenexAPI api; Rows r = shapes(), q; q.v.push_back(std::vector<double>(4, 0)); q.v[0][2] = q.v[0][3] = 4;
#else
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLEN);
#endif
  load(api, "d", r); load(api, "q", q);
  double ratio = RATIO; api.setWarpingBandRatio(ratio);
  double th = THI ? sx_double("threshold", 0, THI, 2) : THFIX;
  api.groupDataset("d", th, metricName[METRIC], 1, WHOLE);
  const double* x = q.at(0, 0); int ql = q.len(0);
  int L = r.longest(), from = WHOLE ? L : 2;
  std::vector<Sub> all = subs(r, from, L), c; std::vector<double> dist;
  for (size_t a = 0; a < all.size(); a++) if (reachable(ql, all[a].len, ratio)) { c.push_back(all[a]); dist.push_back(warped(METRIC, x, ql, r.at(all[a].idx, all[a].start), all[a].len, ratio)); }
  int n = (int)c.size();
  int k = sx_choose("k", KLO, KHI < n + 1 ? KHI : n + 1), ke = FULL ? n + 1 : sx_choose("ke", KLO, KHI < n + 1 ? KHI : n + 1);
  Results res;
  bool no = refused([&] { res = api.getKBestMatches(k, ke, "d", "q", 0); });
  sx_assert(no == (k <= 0 || ke < k), "refused exactly for k below one or fewer examined than wanted");
  if (no) { sx_reach("refused"); return; }
  checkList(r, res, c, dist, k);
  if (ke >= n) { checkNearest(res, c, dist); sx_reach("exact"); }
  else {
    Groups g = groupsOf(api, "d");
    std::vector<int> grp, got;
    for (int i = 0; i < n; i++) {
      bool u = false;
      for (size_t j = 0; j < res.size(); j++) u = u || (res[j].data.getLength() == c[i].len && res[j].data.getIndex() == c[i].idx && res[j].data.getStart() == c[i].start);
      got.push_back(u); grp.push_back(groupOf(g, c[i].len, c[i].idx, c[i].start));
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (grp[i] == grp[j] && !got[i] && got[j]) sx_assert(dist[i] >= dist[j] - 1e-9, "no closer member of a group is passed over");
    if (k < ke) { REACH; return; }
    std::vector<double> rep; std::vector<int> used;
    for (size_t i = 0; i < g.g.size(); i++) {
      int l = g.g[i].length; bool u = false;
      for (size_t j = 0; j < res.size(); j++) u = u || (res[j].data.getLength() == l && groupOf(g, l, res[j].data.getIndex(), res[j].data.getStart()) == (int)i);
      used.push_back(u); rep.push_back(reachable(ql, l, ratio) ? warped(METRIC, x, ql, &g.g[i].centroid[0], l, ratio) : inf);
    }
    for (size_t i = 0; i < rep.size(); i++) for (size_t j = 0; j < rep.size(); j++) if (!used[i] && used[j]) sx_assert(rep[i] >= rep[j] - 1e-9, "no closer group is left out");
    sx_reach("budget");
  }
  REACH;
}
