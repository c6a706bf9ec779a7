// Normalising a dataset.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  GenexAPI api; Rows r = symbolicRows("v", LENS), o = symbolicRows("o", 2); load(api, "d", r); load(api, "o", o);
  {
    std::ofstream f(sx_path("empty.txt"));
  }
  api.loadDataset("e", sx_path("empty.txt"), " ");
  sx_assert(refused([&] { api.normalizeDataset("e"); }), "nothing to normalise");
  sx_assert(refused([&] { api.normalizeDataset("unknown"); }), "unknown dataset");
  sx_assert(!api.getDatasetInfo("d").isNormalized, "not normalised yet");
  double lo = r.v[0][0], hi = lo;
  for (int i = 0; i < r.count(); i++) for (int j = 0; j < r.len(i); j++) { lo = sx_min(lo, r.v[i][j]); hi = sx_max(hi, r.v[i][j]); }
#ifdef GROUPED
  api.groupDataset("d", 1, "manhattan", 1, false);
#endif
  int times = sx_choose("times", 1, TIMES);
  for (int t = 0; t < times; t++) {
    std::pair<double, double> p = api.normalizeDataset("d");
    double span = hi - lo;
    if (t == 0) {
      sx_assert(sx_same_d(p.first, lo) && sx_same_d(p.second, hi), "old minimum and maximum");
      for (int i = 0; i < r.count(); i++) for (int j = 0; j < r.len(i); j++) { double x = r.v[i][j] - lo; r.v[i][j] = span == 0 ? 0 : x / span; }
    } else sx_assert(sx_same_d(p.first, 0) && sx_same_d(p.second, span == 0 ? 0 : 1), "a normalised dataset spans [0,1]");
    genex::dataset_metadata_t m = api.getDatasetInfo("d");
    sx_assert(m.isNormalized && m.itemCount == r.count() && m.itemLength == r.longest() && m.name == "d", "description");
    for (int i = 0; i < r.count(); i++) {
      sx_assert(api.getTimeSeriesLength("d", i) == r.len(i), "length");
      TimeSeries s = api.getTimeSeries("d", i, -1, -1);
      for (int j = 0; j < r.len(i); j++) { sx_assert(sx_close(s[j], r.v[i][j], 1e-12), "normalised value"); sx_observe("v", s[j]); }
    }
  }
  sx_assert(!api.getDatasetInfo("o").isNormalized, "other dataset is not touched");
  for (int j = 0; j < 2; j++) sx_assert(sx_same_d(api.getTimeSeries("o", 0, -1, -1)[j], o.v[0][j]), "other values");
  REACH;
}
