// Block averages.
#include "common.h"
#include "GroupableTimeSeriesSet.hpp"
#include "PAAWrapper.hpp"
static std::vector<double> blocks(const double* x, int n, int b) { std::vector<double> v; for (int i = 0; i < n; i += b) { double s = 0; int c = 0; for (; c < b && i + c < n; c++) s += x[i + c]; v.push_back(s / c); } return v; }
extern "C" void sx_main() {
  sx_merge_mode(7);
  Rows r = symbolicRows("v", LENS); writeRows("d.txt", r);
  genex::GroupableTimeSeriesSet d; d.loadData(sx_path("d.txt"), 0, 0, " ", false);
  genex::PAAWrapper w(d);
  int size = 1;
  for (int step = 0; step < STEPS; step++) {
    int b = sx_choose("block", -1, BHI);
    bool no = refused([&] { w.generatePAAMatrix(b); });
    sx_assert(no == (b < 1), "refused exactly for blocks of less than one value");
    if (no) { sx_reach("refused"); if (!step) return; } else size = b;
  }
  int i = sx_choose("series", -1, r.count()), s = sx_choose("start", -1, r.longest()), e = sx_choose("end", -1, r.longest() + 1);
  bool in = i >= 0 && i < r.count(), whole = s < 0 && e < 0; int s0 = whole ? 0 : s, e0 = whole && in ? r.len(i) : e;
  bool legal = in && s0 >= 0 && s0 < e0 && e0 <= r.len(i);
  std::vector<double> got; bool no = refused([&] { TimeSeries t = w.getPAA(i, s, e); for (int k = 0; k < t.getLength(); k++) got.push_back(t[k]); });
  sx_assert(no == !legal, "refused exactly when there is no such sub-sequence");
  if (no) { sx_reach("range"); return; }
  std::vector<double> want = blocks(r.at(i, s0), e0 - s0, size);
  sx_assert(got.size() == want.size(), "one value per block");
  for (size_t k = 0; k < want.size(); k++) { sx_assert(sx_close(got[k], want[k], 1e-9), "mean of the block"); sx_observe("mean", got[k]); }
  REACH;
}
