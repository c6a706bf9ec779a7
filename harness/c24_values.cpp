// Series as values.
#include "common.h"
struct Want { int index, start, end; std::vector<double> v; };
static void same(const TimeSeries& t, const Want& w) {
  sx_assert(t.getLength() == (int)w.v.size() && t.getIndex() == w.index && t.getStart() == w.start && t.getEnd() == w.end, "length, identity and position");
  for (size_t i = 0; i < w.v.size(); i++) sx_assert(sx_same_d(t[(int)i], w.v[i]), "values");
}
// 0: owns its values, 1: refers to an array as a whole, 2: refers to a part of a longer array
static TimeSeries* make(int kind, int n, double* store, const char* name, Want& w) {
  w.index = w.start = 0; w.end = n; w.v.clear(); for (int i = 0; i < n; i++) w.v.push_back(val(name));
  if (kind == 0) { TimeSeries* t = new TimeSeries(n); for (int i = 0; i < n; i++) (*t)[i] = w.v[i]; return t; }
  if (kind == 1) { for (int i = 0; i < n; i++) store[i] = w.v[i]; return new TimeSeries(store, n); }
  store[0] = 77; store[n + 1] = 88; for (int i = 0; i < n; i++) store[1 + i] = w.v[i];
  w.index = 3; w.start = 1; w.end = n + 1; return new TimeSeries(store, 3, 1, n + 1);
}
extern "C" void sx_main() {
  sx_merge_mode(7);
  double sa[LN + 2], sb[LN + 2]; Want a, b;
  int ka = sx_choose("kindA", 0, 2), kb = sx_choose("kindB", 0, 2), na = sx_choose("lenA", 1, LN), nb = sx_choose("lenB", 1, LN);
  TimeSeries *x = make(ka, na, sa, "a", a), *y = make(kb, nb, sb, "b", b);
  same(*x, a); same(*y, b);
  switch (sx_choose("what", 0, 6)) {
    case 0: {   // copy
      TimeSeries z(*x); same(z, a);
      if (ka == 0) { for (int i = 0; i < na; i++) (*x)[i] = 55; same(z, a); delete x; x = 0; same(z, a); z[0] = 5; }
      break; }
    case 1: {   // assign
      *x = *y; same(*x, b); same(*y, b);
      if (kb == 0) { (*y)[0] = 55; same(*x, b); (*y)[0] = b.v[0]; (*x)[0] = 66; same(*y, b); (*x)[0] = b.v[0]; delete y; y = 0; same(*x, b); }
      if (ka == 1) for (int i = 0; i < na; i++) sx_assert(sx_same_d(sa[i], a.v[i]), "what it referred to before is not written");
      break; }
    case 2: *x = *x; same(*x, a); break;
    case 3: { *x = TimeSeries(*y); same(*x, b); if (kb == 0) { (*y)[0] = 55; same(*x, b); } break; }
    case 4: {   // compare
      bool eq = *x == *y; bool want = na == nb; if (want) { for (int i = 0; i < na; i++) want = sx_and(want, a.v[i] == b.v[i]); }
      sx_assert(eq == want, "equal exactly with the same length and values"); sx_assert((*y == *x) == want, "either way round"); sx_assert(*x == *x, "equal to itself"); TimeSeries z(*x); sx_assert(z == *x, "equal to its copy");
      break; }
    case 5: {   // add
      bool no = refused([&] { *x += *y; }); sx_assert(no == (na != nb), "adding needs the same length");
      if (!no) { for (int i = 0; i < na; i++) a.v[i] = a.v[i] + b.v[i]; }
      same(*x, a); same(*y, b);
      if (ka == 2) sx_assert(sa[0] == 77 && sa[na + 1] == 88, "nothing outside is written");
      break; }
    default: {
      double s = 0; for (int i = 0; i < na; i++) s += a.v[i];
      sx_assert(sx_close(x->average(), s / na, 1e-12), "mean"); sx_observe("mean", x->average()); same(*x, a);
      TimeSeries z(3); for (int i = 0; i < 3; i++) sx_assert(z[i] == 0, "a new series is zero");
    }
  }
  delete x; delete y;
  REACH;
}
