// Requests in and out of range.  Numbers are any int unless they choose a structure.
#include "groups.h"
#include <climits>
static bool legal(const Rows& r, int i, int s, int e) { return i >= 0 && i < r.count() && ((s < 0 && e < 0) || (s >= 0 && s < e && e <= r.len(i))); }
extern "C" void sx_main() {
  sx_merge_mode(1);
  GenexAPI api; Rows r = symbolicRows("v", LENS); load(api, "d", r); api.setWarpingBandRatio(RATIO);
  int grouped = sx_choose("grouped", 0, 2); if (grouped) api.groupDataset("d", 1, "manhattan", 1, grouped == 2);
  if (sx_choose("prepared", 0, 1)) api.preparePAA("d", 2); 
  genex::dataset_metadata_t info = api.getDatasetInfo("d"); Groups g; if (grouped) g = groupsOf(api, "d");
  int i = sx_int("i", INT_MIN, INT_MAX), s = sx_int("s", INT_MIN, INT_MAX), e = sx_int("e", INT_MIN, INT_MAX);
  bool ok = legal(r, i, s, e), no = false;
  i = (int)sx_concretize(ok ? i : 0) * ok + (ok ? 0 : i);
  if (ok) { s = (int)sx_concretize(s < 0 ? -1 : s); e = (int)sx_concretize(e < 0 ? -1 : e); }
  int len = !ok ? 0 : s < 0 ? r.len(i) : e - s; int L = r.longest();
  int what = sx_choose("what", 0, 8);
  if (what == 0) {
    no = refused([&] { TimeSeries t = api.getTimeSeries("d", i, s, e); sx_assert(t.getLength() == len && t.getIndex() == i, "the sub-sequence asked for"); for (int k = 0; k < len; k++) sx_assert(sx_same_d(t[k], r.v[i][(s < 0 ? 0 : s) + k]), "its values"); });
    sx_assert(no == !ok, "series");
  } else if (what == 1) {
    bool in = i >= 0 && i < r.count();
    sx_assert(refused([&] { int l = api.getTimeSeriesLength("d", i); for (int k = 0; k < r.count(); k++) if (i == k) sx_assert(l == r.len(k), "its length"); }) == !in, "length");
    sx_assert(refused([&] { api.getTimeSeriesName("d", i); }) == !in, "name");
  } else if (what == 2) {
    TimeSeries t = api.getTimeSeries("d", 0, 0, 2); int p = sx_int("p", INT_MIN, INT_MAX); double x = 0;
    sx_assert(refused([&] { x = t[p]; }) == !(p >= 0 && p < 2), "data point");
    for (int k = 0; k < 2; k++) if (p == k) sx_assert(sx_same_d(x, r.v[0][k]), "its value");
  } else if (what == 3) {
    bool first = sx_choose("first", 0, 1);
    no = refused([&] { if (first) api.distanceBetween("d", i, s, e, "d", 0, 0, 2, "manhattan_dtw"); else api.distanceBetween("d", 0, 0, 2, "d", i, s, e, "manhattan_dtw"); });
    sx_assert(no == !ok, "warped distance");
    no = refused([&] { if (first) api.distanceBetween("d", i, s, e, "d", 0, 0, 2, "manhattan"); else api.distanceBetween("d", 0, 0, 2, "d", i, s, e, "manhattan"); });
    sx_assert(no == !(ok && len == 2), "distance");
    sx_assert(refused([&] { api.distanceBetween("d", 0, 0, 2, "d", 0, 0, 2, "nothing"); }), "unknown distance");
  } else if (what == 4) {
    bool first = sx_choose("first", 0, 1);
    no = refused([&] { if (first) api.matchingBetween("d", i, s, e, "d", 0, 0, 2, "manhattan_dtw"); else api.matchingBetween("d", 0, 0, 2, "d", i, s, e, "manhattan_dtw"); });
    sx_assert(no == !ok, "matching");
    sx_assert(refused([&] { api.matchingBetween("d", 0, 0, 2, "d", 0, 0, 2, "manhattan"); }) && refused([&] { api.matchingBetween("d", 0, 0, 2, "d", 0, 0, 2, ""); }), "matching without warping");
  } else if (what == 5) {
    bool any = false; for (int l = grouped == 2 ? L : 2; l <= L; l++) any = any || reachable(len, l, RATIO);
    no = refused([&] { api.getBestMatch("d", "d", i, s, e); });
    if (!(ok && grouped && len < 2)) sx_assert(no == !(ok && grouped && any), "best match");
  } else if (what == 6) {
    no = refused([&] { api.getKBestMatches(1, 2, "d", "d", i, s, e); });
    if (!(ok && grouped && len < 2)) sx_assert(no == !(ok && grouped), "k-best");
  } else if (what == 7) {
    no = refused([&] { api.getKBestMatchesBruteForce(1, "d", "d", i, s, e, "manhattan"); });
    sx_assert(no == !ok, "exhaustive search");
    sx_assert(refused([&] { api.getKBestMatchesBruteForce(1, "d", "d", 0, -1, -1, "nothing"); }), "unknown metric");
  } else {
    bool prep = !refused([&] { api.getKBestMatchesPAA(1, "d", "d", 0, -1, -1, "manhattan"); });
    no = refused([&] { api.getKBestMatchesPAA(1, "d", "d", i, s, e, "manhattan"); });
    sx_assert(no == !(ok && prep), "search on block averages");
  }
  sx_assert(sameInfo(info, api.getDatasetInfo("d")), "description unchanged");
  if (grouped) checkSameGroups(g, groupsOf(api, "d", "again.txt"));
  for (int k = 0; k < r.count(); k++) { TimeSeries t = api.getTimeSeries("d", k, -1, -1); for (int j = 0; j < r.len(k); j++) sx_assert(sx_same_d(t[j], r.v[k][j]), "values unchanged"); }
  REACH;
}
