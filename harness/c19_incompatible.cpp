// A group file that does not fit changes nothing.
#include "groups.h"
static const int shapes[6] = {2, 3, 22, 32, 23, 33};
extern "C" void sx_main() {
  sx_merge_mode(1);
  GenexAPI api; int sa = sx_choose("from", 0, 5), sb = sx_choose("to", 0, 5);
  Rows a = symbolicRows("a", shapes[sa]), b = symbolicRows("b", shapes[sb]), q = symbolicRows("q", 2);
  load(api, "a", a); load(api, "b", b); load(api, "q", q); api.setWarpingBandRatio(1.0);
  api.groupDataset("a", 1, "manhattan", 1, false);
  int before = sx_choose("before", 0, 2); if (before) api.groupDataset("b", 0.5, "chebyshev", 1, before == 2);
  genex::dataset_metadata_t info = api.getDatasetInfo("b"); Answers want = answers(api, "b", "q", 1, 1); Groups g; if (before) g = groupsOf(api, "b");
  int kind = sx_choose("file", 0, 3);    // 0 compressed, 1 text, 2 missing, 3 text with another version
  if (kind == 0) api.saveGroups("a", sx_path("f")); else api.saveGroupsOld("a", sx_path("f"), false);
  if (kind == 3) {
    std::string all; { std::ifstream f(sx_path("f")); char c; while (f.get(c)) all.push_back(c); }
    int version = readGroups(sx_path("f")).version; std::ofstream f(sx_path("f")); f << (sx_choose("newer", 0, 1) ? version + 1 : version - 1) << all.substr(all.find(' '));
  }
  bool old = kind == 2 ? sx_choose("reader", 0, 1) : kind != 0;
  bool fits = kind < 2 && sa == sb;
  bool no = refused([&] { const char* f = sx_path(kind == 2 ? "none" : "f"); if (old) api.loadGroupsOld("b", f); else api.loadGroups("b", f); });
  sx_assert(no == !fits, "refused exactly when it does not fit");
  if (!no) { sx_reach("fits"); return; }
  sx_assert(sameInfo(info, api.getDatasetInfo("b")), "description unchanged");
  if (before) checkSameGroups(g, groupsOf(api, "b", "again.txt")); else sx_assert(refused([&] { groupsOf(api, "b"); }), "still ungrouped");
  checkSameAnswers(want, answers(api, "b", "q", 1, 1));
  REACH;
}
