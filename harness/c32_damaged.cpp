// Group files cut short, with one entry replaced, or not written for this dataset.
#include "groups.h"
#ifndef CUTS
#define CUTS 0
#endif
struct Tok { bool num; double d; std::string s; };
static void put(std::vector<Tok>& t, long v) { Tok k; k.num = false; k.d = 0; k.s = std::to_string(v); t.push_back(k); }
static void put(std::vector<Tok>& t, double v, int) { Tok k; k.num = true; k.d = v; t.push_back(k); }
static std::vector<Tok> tokens(const Groups& g) {
  std::vector<Tok> t; put(t, g.version); put(t, g.threshold, 0); put(t, g.items); put(t, g.maxLen); put(t, g.lenFrom); put(t, g.lenTo);
  Tok n; n.num = false; n.d = 0; n.s = g.distance; t.push_back(n);
  for (int l = g.lenFrom; l < g.lenTo; l++) {
    int c = 0; for (size_t i = 0; i < g.g.size(); i++) c += g.g[i].length == l;
    put(t, c);
    for (size_t i = 0; i < g.g.size(); i++) if (g.g[i].length == l) {
      for (int k = 0; k < l; k++) put(t, g.g[i].centroid[k], 0);
      put(t, (long)g.g[i].members.size());
      for (size_t k = 0; k < g.g[i].members.size(); k++) { put(t, g.g[i].members[k].idx); put(t, g.g[i].members[k].start); }
    }
  }
  return t;
}
static void write(const char* file, const std::vector<Tok>& t, size_t n) {
  std::ofstream f(sx_path(file)); f << std::setprecision(17);
  for (size_t i = 0; i < n; i++) { if (t[i].num) f << t[i].d; else f << t[i].s; f << " "; }
}
extern "C" void sx_main() {
  sx_merge_mode(1);
#ifdef BIG
  Rows a; a.add("v", BIG);
#else
  Rows a = symbolicRows("v", LENS);
#endif
  GenexAPI api; Rows q = symbolicRows("q", 2);
  load(api, "a", a); load(api, "d", a); load(api, "q", q); api.setWarpingBandRatio(1.0);
  api.groupDataset("a", TH, "manhattan", 1, WHOLE);
  bool before = sx_choose("before", 0, 1); if (before) api.groupDataset("d", 0.5, "chebyshev", 1, !WHOLE);
  genex::dataset_metadata_t info = api.getDatasetInfo("d"); Answers want = answers(api, "d", "q", 1, 1); Groups old, g;
#ifndef BIG
  if (before) old = groupsOf(api, "d");
  g = groupsOf(api, "a", "a.txt");
#endif
  bool must = false, may = false, text = KIND != 2;
  if (KIND == 0) {                          // cut short between two entries
    std::vector<Tok> t = tokens(g); int cut = sx_choose("cut", 0, (int)t.size());
    write("f", t, cut); must = cut < (int)t.size(); may = !must;
  } else if (KIND == 1) {                   // one entry replaced
    static const char* const other[] = {"-1", "0", "1", "2", "3", "4", "1000000", "2147483647", "99999999999999", "x"};
    std::vector<Tok> t = tokens(g); size_t n = t.size(); int at = sx_choose("at", 0, (int)n - 1), w = sx_choose("with", 0, 9);
    if (t[at].num && w < 9) { sx_reach("value"); return; }            // another representative or threshold: not a damaged file
    bool same = t[at].s == other[w]; t[at].num = false; t[at].s = other[w];
    write("f", t, n); may = true; must = w == 9 && at != 6; if (at == 0 || at == 2 || at == 3 || at == 6) must = true; if (same) must = false;
  } else {                                  // compressed file cut short
    api.saveGroups("a", sx_path("whole")); std::string s;
    { std::ifstream f(sx_path("whole"), std::ios::binary); char c; while (f.get(c)) s.push_back(c); }
    int cut = sx_choose("cut", CUTS, 16); size_t n = cut == 16 ? s.size() - 1 : s.size() * cut / 16;
    { std::ofstream f(sx_path("f"), std::ios::binary); f.write(s.data(), n); }
    must = true;
  }
  auto restore = [&] { if (text) api.loadGroupsOld("d", sx_path("f")); else api.loadGroups("d", sx_path("f")); };
  bool no = refused(restore);
  if (must) sx_assert(no, "refused");
  if (no) {
#ifdef HEAP
    long b0 = sx_live_bytes(), o0 = sx_live_objects();
    sx_assert(refused(restore), "refused again");
    sx_assert(sx_live_objects() == o0, "no object is kept"); sx_assert(sx_live_bytes() == b0, "no memory is kept");
#endif
    sx_assert(sameInfo(info, api.getDatasetInfo("d")), "description unchanged");
#ifndef BIG
    if (before) checkSameGroups(old, groupsOf(api, "d", "again.txt")); else sx_assert(refused([&] { groupsOf(api, "d"); }), "still ungrouped");
#endif
    checkSameAnswers(want, answers(api, "d", "q", 1, 1));
    sx_reach("refused");
  } else {
    sx_assert(may, "only a whole file is accepted");
    Groups h = groupsOf(api, "d", "again.txt"); int members = 0, L = a.longest();
    sx_assert(h.good && (h.lenFrom == 2 || h.lenFrom == L) && h.lenTo == L + 1, "lengths");
    for (size_t i = 0; i < h.g.size(); i++) { sx_assert(!h.g[i].members.empty(), "no empty group"); members += (int)h.g[i].members.size(); }
    for (int l = h.lenFrom; l <= L; l++) for (int i = 0; i < a.count(); i++) for (int s = 0; s + l <= a.len(i); s++) { sx_assert(groupOf(h, l, i, s) >= 0, "every sub-sequence is in a group"); members--; }
    sx_assert(members == 0, "in one group only");
    answers(api, "d", "q", 1, 1);
    REACH;
  }
}
