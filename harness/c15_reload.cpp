// Loading again into the same object.
#include "common.h"
#include "GroupableTimeSeriesSet.hpp"
extern "C" void sx_main() {
  sx_merge_mode(7);
  genex::GroupableTimeSeriesSet s;
  Rows cur; bool have = false;
  for (int step = 0; step < STEPS; step++) {
    int what = sx_choose("what", 0, 5);     // 0,1: a table, 2: missing, 3: bad, 4: names, 5: out of range
    Rows a = symbolicRows("a", what == 1 ? 3 : 22);
    writeRows("a.txt", a);
    if (what == 3) { std::ofstream f(sx_path("a.txt")); f << "1 2\n3 x\n"; }
    if (what == 5) { std::ofstream f(sx_path("a.txt")); f << "1 2\n3 1e999\n"; }
    if (what == 4) { std::ofstream f(sx_path("a.txt")); f << std::setprecision(17); for (int i = 0; i < a.count(); i++) { f << "n" << i << " "; for (int j = 0; j < a.len(i); j++) f << a.v[i][j] << " "; f << "\n"; } }
    bool no = refused([&] { s.loadData(what == 2 ? sx_path("none.txt") : sx_path("a.txt"), 0, 0, " ", what == 4); });
    sx_assert(no == (what == 2 || what == 3 || what == 5), "refused");
    if (no) { sx_assert(!s.isLoaded() && s.getItemCount() == 0 && s.getMaxLength() == 0, "empty after a refused load"); sx_assert(!s.isGrouped(), "and ungrouped"); sx_assert(refused([&] { s.getTimeSeries(0); }), "no series"); continue; }
    sx_assert(s.isLoaded() && s.getItemCount() == a.count() && s.getMaxLength() == a.longest() && !s.isNormalized() && !s.isGrouped(), "as if newly made");
    for (int i = 0; i < a.count(); i++) {
      sx_assert(s.getTimeSeriesName(i) == (what == 4 ? "n" + std::to_string(i) : std::to_string(i)), "name");
      sx_assert(s.getItemLength(i) == a.len(i), "length");
      TimeSeries t = s.getTimeSeries(i); for (int j = 0; j < a.len(i); j++) sx_assert(sx_same_d(t[j], a.v[i][j]), "value");
    }
    sx_assert(refused([&] { s.getTimeSeries(a.count()); }), "nothing of the old content");
    int then = sx_choose("then", 0, 2);
    if (then == 1) s.groupAllLengths("manhattan", 1, 1, false);
    if (then == 2) s.normalize();
    REACH;
  }
}
