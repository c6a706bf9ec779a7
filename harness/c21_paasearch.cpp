// Search on block averages.
#include "search.h"
static std::vector<double> blocks(const double* x, int n, int b) { std::vector<double> v; for (int i = 0; i < n; i += b) { double s = 0; int c = 0; for (; c < b && i + c < n; c++) s += x[i + c]; v.push_back(s / c); } return v; }
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), q = symbolicRows("q", QLEN); load(api, "d", r); load(api, "q", q);
  api.setWarpingBandRatio(RATIO);
  int k = sx_choose("k", KLO, KHI);
  sx_assert(refused([&] { api.getKBestMatchesPAA(k, "d", "q", 0, -1, -1, metricName[METRIC]); }), "not prepared");
  int b = sx_choose("block", 1, BHI);
#ifdef SEQ
  int before = sx_choose("before", 0, 3), first = before == 3 ? 0 : sx_choose("first", 1, BHI);
  if (before == 1) api.preparePAA("d", first);
  if (before == 2) { api.preparePAA("d", first); api.unloadDataset("d"); Rows o = symbolicRows("o", 2); r = o; load(api, "d", r); sx_assert(refused([&] { api.getKBestMatchesPAA(k, "d", "q", 0, -1, -1, metricName[METRIC]); }), "nothing prepared for the new dataset"); }
  if (before == 3) { sx_assert(refused([&] { api.preparePAA("d", 0); }), "no blocks"); sx_assert(refused([&] { api.getKBestMatchesPAA(k, "d", "q", 0, -1, -1, metricName[METRIC]); }), "still not prepared"); }
#endif
  api.preparePAA("d", b);
  Results res;
  bool no = refused([&] { res = api.getKBestMatchesPAA(k, "d", "q", 0, -1, -1, metricName[METRIC]); });
  sx_assert(no == (k <= 0), "refused exactly for k below one");
  if (no) { sx_reach("refused"); return; }
  std::vector<double> bq = blocks(q.at(0, 0), q.len(0), b);
  std::vector<Sub> c = subs(r, 2, r.longest()); std::vector<double> dist;
  for (size_t a = 0; a < c.size(); a++) { std::vector<double> x = blocks(r.at(c[a].idx, c[a].start), c[a].len, b); dist.push_back(warped(METRIC, &bq[0], (int)bq.size(), &x[0], (int)x.size(), RATIO)); }
  checkList(r, res, c, dist, k); checkNearest(res, c, dist);
  sx_assert(refused([&] { api.getKBestMatchesPAA(k, "d", "q", 0, -1, -1, "no such metric"); }), "unknown metric");
  { std::ofstream f(sx_path("e.txt")); f << "a 1 2\nb\n"; f.close(); api.loadDataset("e", sx_path("e.txt"), " ", -1, 1); sx_assert(api.getTimeSeriesLength("e", 1) == 0 && refused([&] { api.getKBestMatchesPAA(k, "d", "e", 1, -1, -1, metricName[METRIC]); }), "an empty query matches nothing"); }
  api.unloadDataset("d");
  sx_assert(refused([&] { api.getKBestMatchesPAA(k, "d", "q", 0, -1, -1, metricName[METRIC]); }), "unloaded");
  REACH;
}
