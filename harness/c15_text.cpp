// Loading any short text.
#include "common.h"
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  std::string s; int n = sx_choose("n", 0, LN);
  for (int i = 0; i < n; i++) {
    int c = sx_int("c", 9, 126);       // without exponents, hexadecimal numbers, "inf" and "nan"
    sx_assume(c != 'e' && c != 'E' && c != 'x' && c != 'X' && c != 'i' && c != 'I' && c != 'n' && c != 'N');
    s.push_back((char)c);
  }
  { std::ofstream f(sx_path("t.txt")); f << s; }
  // reference: lines, fields separated by blanks or commas, each field must start with a number
  Rows r; bool ok = true; size_t p = 0;
  while (p < s.size()) {
    std::vector<double> row; std::string field;
    for (;; p++) {
      char c = p < s.size() ? s[p] : '\n';
      if (c == ' ' || c == ',' || c == '\n') {
        if (!field.empty()) {
          size_t k = 0; while (k < field.size() && field[k] >= 9 && field[k] <= 13) k++;
          double sign = 1, x = 0, scale = 1; bool any = false;
          if (k < field.size() && field[k] == '-') { sign = -1; k++; } else if (k < field.size() && field[k] == '+') k++;
          while (k < field.size() && field[k] >= '0' && field[k] <= '9') { x = x * 10 + ((field[k++] - '0') & 15); any = true; }
          if (k < field.size() && field[k] == '.') { k++; while (k < field.size() && field[k] >= '0' && field[k] <= '9') { scale *= 10; x = x * 10 + ((field[k++] - '0') & 15); any = true; } }
          if (!any) ok = false;
          row.push_back(sign * x / scale); field.clear();
        }
        if (c == '\n') { p++; break; }
      } else field.push_back(c);
    }
    r.v.push_back(row);
  }
  GenexAPI api;
  bool no = refused([&] { api.loadDataset("d", sx_path("t.txt"), " ,"); });
  sx_assert(no == !ok, "refused exactly when a field is not a number");
  if (no) { sx_assert(api.getDatasetCount() == 0, "nothing left behind"); sx_reach("refused"); return; }
  sx_assert(api.getDatasetInfo("d").itemCount == r.count() && api.getDatasetInfo("d").itemLength == r.longest(), "description");
  for (int i = 0; i < r.count(); i++) {
    sx_assert(api.getTimeSeriesLength("d", i) == r.len(i), "length");
    TimeSeries t = api.getTimeSeries("d", i, -1, -1);
    for (int j = 0; j < r.len(i); j++) { sx_assert(sx_close(t[j], r.v[i][j], 1e-12), "value"); sx_observe("v", t[j]); }
  }
  REACH;
}
