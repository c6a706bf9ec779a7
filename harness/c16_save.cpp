// Saving a dataset and loading it back.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(7);
  static const double menu[] = {0, 0.1, 1.0 / 3, -2.0 / 3, 123456.789012345, -1234567.25, 1e-7, 3.0000000000000004, 1e17, 12345678, 0.30000000000000004};
  GenexAPI api; Rows r; static const int lens[] = {LENA, LENB};
  for (int i = 0; i < 2; i++) { std::vector<double> v; for (int j = 0; j < lens[i]; j++) v.push_back(sx_menu("v", menu, (int)(sizeof(menu) / sizeof(menu[0])))); r.v.push_back(v); }
  bool names = sx_choose("names", 0, 1); char sep = " ,;"[sx_choose("sep", 0, 2)];
  { std::ofstream f(sx_path("in.txt")); f << std::setprecision(17);
    for (int i = 0; i < 2; i++) { if (names) f << (i ? "b" : "first") << " "; for (int j = 0; j < r.len(i); j++) f << r.v[i][j] << " "; f << "\n"; } }
  api.loadDataset("d", sx_path("in.txt"), " ", 0, 0, names);
#ifdef NORM
  if (sx_choose("normalise", 0, 1)) api.normalizeDataset("d");
#endif
  for (int round = 0; round < 2; round++) {
    std::string from = round ? "e" : "d", to = round ? "g" : "e";
    api.saveDataset(from, sx_path("out.txt"), sep);
    api.loadDataset(to, sx_path("out.txt"), std::string(1, sep), 0, 0, names);
    genex::dataset_metadata_t a = api.getDatasetInfo("d"), b = api.getDatasetInfo(to);
    sx_assert(a.itemCount == b.itemCount && a.itemLength == b.itemLength && b.itemCount == 2, "same shape");
    for (int i = 0; i < 2; i++) {
      sx_assert(api.getTimeSeriesName(to, i) == (names ? (i ? "b" : "first") : std::to_string(i)), "same name");
      sx_assert(api.getTimeSeriesLength(to, i) == r.len(i), "same length");
      TimeSeries x = api.getTimeSeries("d", i, -1, -1), y = api.getTimeSeries(to, i, -1, -1);
      for (int j = 0; j < r.len(i); j++) { sx_assert(sx_same_d(x[j], y[j]), "same value"); sx_observe("v", y[j]); }
#ifndef NORM
      for (int j = 0; j < r.len(i); j++) sx_assert(sx_same_d(r.v[i][j], y[j]), "the value loaded first");
#endif
    }
  }
  sx_assert(refused([&] { api.saveDataset("unknown", sx_path("out.txt"), sep); }), "unknown dataset");
  sx_assert(refused([&] { api.saveDataset("d", sx_path("missing/out.txt"), sep); }), "cannot be written");
  REACH;
}
