// Loading, unloading, and what the registry says.
#include "groups.h"
struct Slot { bool loaded, grouped, prepared, normal; Rows r; };
extern "C" void sx_main() {
  sx_merge_mode(1);
  static const char* const names[2] = {"a", "b"};
  GenexAPI api; api.setWarpingBandRatio(1.0); Slot m[2]; for (int i = 0; i < 2; i++) m[i].loaded = m[i].grouped = m[i].prepared = m[i].normal = false;
  for (int step = 0; step < STEPS; step++) {
    int op = sx_choose("op", 0, 7), w = op == 7 ? 0 : sx_choose("which", 0, 1); std::string n = names[w]; Slot& s = m[w];
    bool no, want;
    if (op == 0) {
      Rows r = symbolicRows("v", step % 2 ? 2 : 22); writeRows("f.txt", r);
      no = refused([&] { api.loadDataset(n, sx_path("f.txt"), " "); }); want = s.loaded;
      if (!s.loaded) { s.loaded = true; s.grouped = s.prepared = s.normal = false; s.r = r; }
    } else if (op == 1) { { std::ofstream f(sx_path("bad.txt")); f << "1 2\nx y\n"; } no = refused([&] { api.loadDataset(n, sx_path("bad.txt"), " "); }); want = true; }
    else if (op == 2) { no = refused([&] { api.loadDataset(n, sx_path("none.txt"), " "); }); want = true; }
    else if (op == 3) { no = refused([&] { api.unloadDataset(n); }); want = !s.loaded; s.loaded = false; }
    else if (op == 4) { no = refused([&] { api.groupDataset(n, 1, "manhattan"); }); want = !s.loaded; if (s.loaded) s.grouped = true; }
    else if (op == 5) { no = refused([&] { api.preparePAA(n, 2); }); want = !s.loaded; if (s.loaded) s.prepared = true; }
    else if (op == 6) { no = refused([&] { api.normalizeDataset(n); }); want = !s.loaded; if (s.loaded) { s.normal = true; s.prepared = false; for (int i = 0; i < s.r.count(); i++) { TimeSeries t = api.getTimeSeries(n, i, -1, -1); for (int j = 0; j < s.r.len(i); j++) s.r.v[i][j] = t[j]; } } }
    else { no = want = false; api.unloadAllDataset(); m[0].loaded = m[1].loaded = false; }
    sx_assert(no == want, "refused exactly when the name is in use or unknown, or the file is bad");
    int count = m[0].loaded + m[1].loaded;
    sx_assert(api.getDatasetCount() == count, "count");
    std::vector<genex::dataset_metadata_t> all = api.getAllDatasetInfo();
    sx_assert((int)all.size() == count, "list");
    for (int i = 0; i < 2; i++) {
      const Slot& x = m[i]; int found = 0;
      for (size_t k = 0; k < all.size(); k++) if (all[k].name == names[i]) { found++; if (x.loaded) sx_assert(sameInfo(all[k], api.getDatasetInfo(names[i])), "list and description agree"); }
      sx_assert(found == (int)x.loaded, "listed exactly when loaded");
      if (!x.loaded) {
        sx_assert(refused([&] { api.getDatasetInfo(names[i]); }), "no description"); sx_assert(refused([&] { api.getTimeSeries(names[i], 0, -1, -1); }), "no series"); sx_assert(refused([&] { api.getTimeSeriesName(names[i], 0); }) && refused([&] { api.getTimeSeriesLength(names[i], 0); }), "no series names");
        sx_assert(refused([&] { api.saveGroups(names[i], sx_path("x")); }) && refused([&] { api.loadGroups(names[i], sx_path("x")); }) && refused([&] { api.saveGroupsOld(names[i], sx_path("x"), false); }) && refused([&] { api.loadGroupsOld(names[i], sx_path("x")); }), "no groups");
        const char *u = names[i], *o = names[1 - i];       // o: the other dataset, loaded or not
        sx_assert(refused([&] { api.saveDataset(u, sx_path("x"), ' '); }), "nothing to save");
        sx_assert(refused([&] { api.getBestMatch(u, o, 0); }) && refused([&] { api.getBestMatch(o, u, 0); }), "no best match");
        sx_assert(refused([&] { api.getKBestMatches(1, 1, u, o, 0); }) && refused([&] { api.getKBestMatches(1, 1, o, u, 0); }), "no best matches");
        sx_assert(refused([&] { api.getKBestMatchesBruteForce(1, u, o, 0, -1, -1, "manhattan"); }) && refused([&] { api.getKBestMatchesBruteForce(1, o, u, 0, -1, -1, "manhattan"); }), "no exhaustive search");
        sx_assert(refused([&] { api.getKBestMatchesPAA(1, u, o, 0, -1, -1, "manhattan"); }) && refused([&] { api.getKBestMatchesPAA(1, o, u, 0, -1, -1, "manhattan"); }), "no search on block averages");
        sx_assert(refused([&] { api.distanceBetween(u, 0, -1, -1, o, 0, -1, -1, "manhattan"); }) && refused([&] { api.distanceBetween(o, 0, -1, -1, u, 0, -1, -1, "manhattan"); }), "no distance");
        sx_assert(refused([&] { api.matchingBetween(u, 0, -1, -1, o, 0, -1, -1, "manhattan_dtw"); }) && refused([&] { api.matchingBetween(o, 0, -1, -1, u, 0, -1, -1, "manhattan_dtw"); }), "no matching");
        sx_assert(api.getDatasetCount() == count && (int)api.getAllDatasetInfo().size() == count, "and asking changes nothing");
        continue;
      }
      genex::dataset_metadata_t d = api.getDatasetInfo(names[i]);
      sx_assert(d.name == names[i] && d.itemCount == x.r.count() && d.itemLength == x.r.longest() && d.isGrouped == x.grouped && d.isNormalized == x.normal && d.distance == (x.grouped ? "manhattan" : "") && d.threshold == (x.grouped ? 1 : 0), "description");
      for (int k = 0; k < x.r.count(); k++) { TimeSeries t = api.getTimeSeries(names[i], k, -1, -1); sx_assert(t.getLength() == x.r.len(k), "length"); for (int j = 0; j < x.r.len(k); j++) sx_assert(sx_same_d(t[j], x.r.v[k][j]), "value"); }
      sx_assert(refused([&] { api.getBestMatch(names[i], names[i], 0); }) == !x.grouped, "queries need a grouping of this dataset");
      sx_assert(refused([&] { api.getKBestMatchesPAA(1, names[i], names[i], 0, -1, -1, "manhattan"); }) == !x.prepared, "search on block averages needs preparation of this dataset");
    }
  }
  REACH;
}
