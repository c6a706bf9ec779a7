// Loading a table: rows of fields, separators, limits, a name column, bad fields.
#include "common.h"
#include "TimeSeriesSet.hpp"
struct Field { std::string text; double value; int kind; };   // kind 0 number, 1 word, 2 out of range, 3 number followed by letters
typedef std::vector<std::vector<Field> > Table;
static const char* const seps[3] = {" ", ",", " ,"};
static Table table(const char* file, int rows, int most, int bad, const char* sep, bool last) {
  Table t; std::ofstream f(sx_path(file)); f << std::setprecision(17);
  int badAt = bad ? sx_choose("badAt", 0, rows * most - 1) : -1;
  for (int i = 0; i < rows; i++) {
    std::vector<Field> row; int n = sx_choose("fields", FLO, most);
    for (int j = 0; j < n; j++) {
      Field c; c.kind = badAt == i * most + j ? bad : 0; c.value = val("v");
      if (j) f << sep;
      if (c.kind == 0) f << c.value;
      else { c.text = c.kind == 1 ? "abc" : c.kind == 2 ? "1e999" : "2x"; if (c.kind == 3) c.value = 2; f << c.text; }
      row.push_back(c);
    }
    t.push_back(row);
    if (i + 1 < rows || last) f << "\n";
  }
  if (!last && rows && t.back().empty()) t.pop_back();      // no text after the last line break: no such line
  return t;
}
// what must come out: returns false when the file must be refused
static bool expect(const Table& t, int maxRow, int skip, bool names, Rows& r, std::vector<std::string>& nm) {
  int n = maxRow > 0 && maxRow < (int)t.size() ? maxRow : (int)t.size();
  for (int i = 0; i < n; i++) {
    std::vector<double> v; std::string name = names ? "" : std::to_string(i);
    for (int j = skip; j < (int)t[i].size(); j++) {
      const Field& c = t[i][j];
      if (names && j == skip) { name = c.text; continue; }
      if (c.kind == 1 || c.kind == 2) return false;
      v.push_back(c.value);
    }
    r.v.push_back(v); nm.push_back(name);
  }
  return true;
}
extern "C" void sx_main() {
  sx_merge_mode(7);
  int maxRow = sx_choose("maxRow", 0, ROWS + 1), skip = sx_choose("skip", SKLO, SKHI); bool names = NAMES;
  int bad = BAD; const char* sep = seps[sx_choose("sep", 0, 2)];
  Table t = table("t.txt", ROWS, MOST, bad, sep, sx_choose("nl", 0, 1));
  // fields in the name column must be text the harness knows
  if (names) { std::ofstream f(sx_path("t.txt")); f << std::setprecision(17); for (size_t i = 0; i < t.size(); i++) { for (size_t j = 0; j < t[i].size(); j++) { if (j) f << sep; if ((int)j == skip) { t[i][j].text = i ? "s2" : "7"; f << t[i][j].text; } else if (t[i][j].kind) f << t[i][j].text; else f << t[i][j].value; } f << "\n"; } }
  Rows r; std::vector<std::string> nm;
  bool ok = skip >= 0 && expect(t, maxRow, skip, names, r, nm);
  GenexAPI api; genex::dataset_metadata_t m;
  bool no = refused([&] { m = api.loadDataset("d", sx_path("t.txt"), " ,", maxRow, skip, names); });
  sx_assert(no == !ok, "refused exactly when something that is read is not a number");
  if (no) {
    sx_assert(api.getDatasetCount() == 0 && api.getAllDatasetInfo().empty(), "nothing is left behind");
    sx_assert(refused([&] { api.getDatasetInfo("d"); }), "not loaded");
    sx_reach("refused");
  } else {
    sx_assert(m.itemCount == r.count() && m.itemLength == r.longest() && !m.isGrouped && !m.isNormalized, "description");
    for (int i = 0; i < r.count(); i++) {
      sx_assert(api.getTimeSeriesLength("d", i) == r.len(i), "length");
      sx_assert(api.getTimeSeriesName("d", i) == nm[i], "name");
      TimeSeries s = api.getTimeSeries("d", i, -1, -1);
      sx_assert(s.getLength() == r.len(i), "whole series");
      for (int j = 0; j < r.len(i); j++) sx_assert(sx_same_d(s[j], r.v[i][j]), "value");
    }
    REACH;
  }
  sx_assert(refused([&] { api.loadDataset("x", sx_path("none.txt"), " "); }) && api.getDatasetCount() == (no ? 0 : 1), "missing file");
}
