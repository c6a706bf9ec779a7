// Files that cannot be written or read to the end.
#include "groups.h"
extern "C" void sx_main() {
  sx_merge_mode(1);
  GenexAPI api; Rows a = symbolicRows("v", LENS), q = symbolicRows("q", 2);
  load(api, "d", a); load(api, "e", a); load(api, "q", q); api.setWarpingBandRatio(1.0);
  api.groupDataset("d", TH, "manhattan", 1, WHOLE);
  Groups g = groupsOf(api, "d"); genex::dataset_metadata_t info = api.getDatasetInfo("d"), plain = api.getDatasetInfo("e"); Answers want = answers(api, "d", "q", 1, 1);
  int what = WHAT; const char* f = sx_path("f"); std::string file(f);
  auto save = [&] { if (what == 0) api.saveDataset("d", file, ' '); else if (what == 1) api.saveGroups("d", file); else api.saveGroupsOld("d", file, what == 3); };
  auto restore = [&] { if (what == 0) api.loadDataset("x", file, " "); else if (what == 1) api.loadGroups("e", file); else api.loadGroupsOld("e", file); };
  auto same = [&] {                          // what was restored is what was saved
    if (what == 0) for (int i = 0; i < a.count(); i++) {
      sx_assert(api.getDatasetInfo("x").itemCount == a.count() && api.getTimeSeriesLength("x", i) == a.len(i), "every series");
      TimeSeries s = api.getTimeSeries("x", i, -1, -1); for (int j = 0; j < a.len(i); j++) sx_assert(sx_same_d(s[j], a.v[i][j]), "every value");
    } else checkSameGroups(g, groupsOf(api, "e", "again.txt"));
  };
  auto size = [&] { std::ifstream in(file, std::ios::binary); long n = 0; char c; while (in.get(c)) n++; return n; };
  bool fails;
  if (READ) {
    save(); long at = size() * sx_choose("at", 0, STEPS + 1) / STEPS;
    int good = sx_choose("good", 0, 1); sx_read_error_at(at, good); fails = refused(restore);
#ifdef HEAP
    if (fails) {
      long b0 = sx_live_bytes(), o0 = sx_live_objects();
      sx_read_error_at(at, good); sx_assert(refused(restore), "refused again");
      sx_assert(sx_live_objects() == o0, "no object is kept"); sx_assert(sx_live_bytes() == b0, "no memory is kept");
    }
#endif
    sx_read_error_at(-1, 0);
  } else {
    save(); long room = size() * sx_choose("room", 0, STEPS + 1) / STEPS;
    sx_disk_room(room); fails = refused(save); sx_disk_room(-1);
    if (!fails && what == 3) { std::ifstream in(file); std::string all, w; while (in >> w) all += w + " "; api.saveGroupsOld("d", sx_path("g"), true); std::ifstream in2(sx_path("g")); std::string all2; while (in2 >> w) all2 += w + " "; sx_assert(all.size() == all2.size(), "complete"); REACH; return; }
    if (!fails) restore();
  }
  if (!fails) { same(); sx_reach("complete"); }
  else {
    if (READ && what == 0) { sx_assert(api.getDatasetCount() == 3 && refused([&] { api.getDatasetInfo("x"); }), "nothing is left behind"); }
    if (READ && what) { sx_assert(sameInfo(plain, api.getDatasetInfo("e")) && refused([&] { groupsOf(api, "e"); }), "still ungrouped"); }
    save(); if (what != 3) { restore(); same(); }                   // works again once the fault is gone
    sx_reach("reported");
  }
  sx_assert(sameInfo(info, api.getDatasetInfo("d")), "description unchanged"); checkSameGroups(g, groupsOf(api, "d", "third.txt")); checkSameAnswers(want, answers(api, "d", "q", 1, 1));
  REACH;
}
