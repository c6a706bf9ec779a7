// Every function of the Python module does what its documentation says, with the library as the reference.
#include "groups.h"
#include <boost/python.hpp>
#include <cstdlib>
extern "C" void sx_py_module();
namespace py = boost::python;
enum { LOAD, UNLOAD, SAVE, NORMALIZE, SERIES, GROUP, SAVEGROUPS, SIZES, LOADGROUPS, DISTANCE, MATCHING, SIM, KSIM, KSIMBF, KSIMPAA, DISTANCES, BAND, UNKNOWN };
typedef std::vector<double> Nums;
typedef genex::candidate_time_series_t Cand;
static std::string path(const char* n) { return sx_path(n); }
static py::object O(const char* s) { return py::object(std::string(s)); }
static py::object O(const std::string& s) { return py::object(s); }
static py::object O(int i) { return py::object(i); }
static py::object O(double d) { return py::object(d); }
// a call: arguments in order; from a chosen one on they are given by name where they have one; some may be left out
struct Call {
  py::values_ v; std::vector<std::string> names; std::string f; bool threw; py::object r;
  explicit Call(const char* f) : f(f), threw(false) {}
  template <class T> Call& operator()(const T& x, const char* name = "") { v.push_back(O(x)); names.push_back(name); return *this; }
  Call& go(int byName = 100) {               // arguments from byName on are passed by their names
    py::values_ pos; py::named_ kw;
    for (size_t i = 0; i < v.size(); i++) if ((int)i < byName || names[i].empty()) pos.push_back(v[i]); else kw.push_back(std::make_pair(names[i], v[i]));
    try { r = py::call(f, pos, kw); } catch (py::argument_error_&) { sx_fail("the module accepts these arguments"); } catch (...) { threw = true; }
    return *this;
  }
};
static int I(const py::object& o) { sx_assert(o.kind() == py::INT, "an int"); return (int)o.n->i; }
static double D(const py::object& o) { sx_assert(o.kind() == py::FLOAT, "a float"); return o.n->d; }
static std::string S(const py::object& o) { sx_assert(o.kind() == py::STR, "a string"); return o.n->s; }
static void same(double a, double b, const char* m) { sx_observe("n", a); sx_assert(sx_same_d(a, b), m); }
static void list(const py::object& o, size_t n) { sx_assert(o.kind() == py::LIST, "a list"); sx_assert(o.n->v.size() == n, "of that many"); }
static void fields(const py::object& o, size_t n) { sx_assert(o.kind() == py::DICT, "a dict"); sx_assert(o.n->keys.size() == n, "with the documented keys"); }
static py::object get(const py::object& o, const char* k) { for (size_t i = 0; i < o.n->keys.size(); i++) if (o.n->keys[i] == k) return o.n->v[i]; sx_fail("a documented key is there"); return py::object(); }
static void candidate(const py::object& o, const Cand& c) {
  fields(o, 2); same(D(get(o, "dist")), c.dist, "the library's distance"); py::object d = get(o, "data"); fields(d, 3);
  sx_assert(I(get(d, "index")) == c.data.getIndex(), "index"); sx_assert(I(get(d, "start")) == c.data.getStart(), "start"); sx_assert(I(get(d, "end")) == c.data.getEnd(), "end");
}
static void candidates(const py::object& o, const std::vector<Cand>& c) { list(o, c.size()); for (size_t i = 0; i < c.size(); i++) candidate(o.n->v[i], c[i]); }
static void nothing(const py::object& o) { sx_assert(o.is_none(), "nothing is returned"); }
static void sameSeries(GenexAPI& api, const std::string& name) {
  int n = api.getDatasetInfo(name).itemCount;
  sx_assert(Call("getTimeSeriesLength")(name)(n).go().threw, "no further series");
  for (int i = 0; i < n; i++) {
    TimeSeries t = api.getTimeSeries(name, i, -1, -1); py::object o = Call("getTimeSeries")(name)(i).go().r;
    list(o, t.getLength()); for (int j = 0; j < t.getLength(); j++) same(D(o.n->v[j]), t[j], "the same values");
    sx_assert(I(Call("getTimeSeriesLength")(name)(i).go().r) == api.getTimeSeriesLength(name, i), "the same length");
    sx_assert(S(Call("getTimeSeriesName")(name)(i).go().r) == api.getTimeSeriesName(name, i), "the same name");
  }
}
static std::vector<std::string> words(const std::string& f) { std::vector<std::string> r; std::ifstream in(f); std::string w; while (in >> w) r.push_back(w); return r; }
static bool numeric(const std::string& s) { char* e; std::strtod(s.c_str(), &e); return e != s.c_str() && !*e; }
static int named(int lo, int hi) { return sx_choose("byName", lo, hi); }
extern "C" void sx_main() {
  sx_merge_mode(1);
  sx_py_module();
  GenexAPI api;                             // what the library itself answers
  Rows a, b;
#ifdef FIXED
  { static const double x[] = {0, 1, 3}, y[] = {0.5, 2}, z[] = {2.5, 0.25}; a.v.push_back(Nums(x, x + 3)); a.v.push_back(Nums(y, y + 2)); b.add("w", 2); b.v.push_back(Nums(z, z + 2)); }
#else
  a = symbolicRows("v", 32); b = symbolicRows("w", 22);
#endif
  writeRows("a.txt", a); writeRows("b.txt", b);
  Call("loadDataset")("a")(path("a.txt")).go(); Call("loadDataset")("b")(path("b.txt")).go();
  api.loadDataset("a", path("a.txt")); api.loadDataset("b", path("b.txt"));
  if (FN == SAVEGROUPS || FN == SIZES || FN == SIM || FN == KSIM) { Call("group")("a")(0.5).go(); api.groupDataset("a", 0.5); }
  bool no = false, threw = false;
  if (FN == LOAD) {
    int extra = sx_choose("extra", 0, 4), sep = sx_choose("sep", 0, 2), rows = sx_choose("rows", 0, 2), skip = sx_choose("skip", 0, 1), nm = sx_choose("names", 0, 1), which = sx_choose("which", 0, 2);
    static const char* const s[3] = {" ", ",", " ,"}; const char* name = which == 0 ? "a" : "c"; std::string file = path(which == 1 ? "none.txt" : "c.txt");
    { std::ofstream f(path("c.txt")); f << std::setprecision(17); for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) { if (j) f << (extra && sep ? "," : " "); f << a.v[0][j] + i; } f << "\n"; } }
    genex::dataset_metadata_t m;
    no = refused([&] { m = api.loadDataset(name, file, extra > 0 ? s[sep] : " ", extra > 1 ? rows : 0, extra > 2 ? skip : 0, extra > 3 ? nm : 0); });
    Call c("loadDataset"); c(name)(file); if (extra > 0) c(s[sep], "separators"); if (extra > 1) c(rows, "maxNumRow"); if (extra > 2) c(skip, "startCol"); if (extra > 3) c(nm, "hasNameCol");
    c.go(named(2, 6)); threw = c.threw;
    if (!threw && !no) { fields(c.r, 3); sx_assert(S(get(c.r, "name")) == m.name, "name"); sx_assert(I(get(c.r, "count")) == m.itemCount, "count"); sx_assert(I(get(c.r, "length")) == m.itemLength, "length"); sameSeries(api, "c"); }
    else sx_assert(which == 2 || Call("getTimeSeriesLength")("c")(0).go().threw, "nothing is loaded");
  } else if (FN == UNLOAD) {
    int w = sx_choose("which", 0, 2); static const char* const nm[3] = {"a", "b", "c"};
    no = refused([&] { api.unloadDataset(nm[w]); }); Call c("unloadDataset"); c(nm[w]).go(); threw = c.threw; if (!threw) nothing(c.r);
    for (int k = 0; k < 3; k++) { bool gone = refused([&] { api.getDatasetInfo(nm[k]); }); sx_assert(Call("getTimeSeriesLength")(nm[k])(0).go().threw == gone, "unloaded as in the library"); if (!gone) sameSeries(api, nm[k]); }
  } else if (FN == SAVE) {
    int w = sx_choose("which", 0, 1), sep = sx_choose("sep", 0, 1); Call c("saveDataset"); c(w ? "a" : "b")(path("o.txt"))(sep ? "," : ";").go(); threw = c.threw; if (!threw) nothing(c.r);
    GenexAPI other; other.loadDataset(w ? "a" : "b", path("o.txt"), sep ? "," : ";"); sx_assert(other.getDatasetInfo(w ? "a" : "b").itemCount == 2, "saved completely");
    sameSeries(other, w ? "a" : "b");
  } else if (FN == NORMALIZE) {
    int w = sx_choose("which", 0, 2); static const char* const nm[3] = {"a", "b", "c"}; std::pair<double, double> m;
    no = refused([&] { m = api.normalizeDataset(nm[w]); }); Call c("normalize"); c(nm[w]).go(); threw = c.threw;
    if (!threw && !no) { sx_assert(c.r.kind() == py::TUPLE && c.r.n->v.size() == 2, "a pair"); same(D(c.r.n->v[0]), m.first, "minimum"); same(D(c.r.n->v[1]), m.second, "maximum"); }
    sameSeries(api, "a"); sameSeries(api, "b");
  } else if (FN == SERIES) {
    int n = sx_choose("n", 2, 4), i = sx_choose("i", -1, 2), s = sx_choose("s", -1, 3), e = sx_choose("e", -1, 3); Nums x; std::string name; int len = 0; bool no2, no3;
    no = refused([&] { TimeSeries t = api.getTimeSeries("a", i, n > 2 ? s : -1, n > 3 ? e : -1); for (int k = 0; k < t.getLength(); k++) x.push_back(t[k]); });
    no2 = refused([&] { name = api.getTimeSeriesName("a", i); }); no3 = refused([&] { len = api.getTimeSeriesLength("a", i); });
    Call c("getTimeSeries"); c("a")(i); if (n > 2) c(s, "start"); if (n > 3) c(e, "end"); c.go(named(2, 4)); threw = c.threw;
    if (!threw && !no) { list(c.r, x.size()); for (size_t k = 0; k < x.size(); k++) same(D(c.r.n->v[k]), x[k], "that part of the series"); }
    Call d("getTimeSeriesName"); d("a")(i).go(); sx_assert(d.threw == no2, "refused as in the library"); if (!no2) sx_assert(S(d.r) == name, "the same name");
    Call f("getTimeSeriesLength"); f("a")(i).go(); sx_assert(f.threw == no3, "refused as in the library"); if (!no3) sx_assert(I(f.r) == len, "the same length");
  } else if (FN == GROUP) {
    int n = sx_choose("n", 2, 5), t = sx_choose("t", 0, 3), d = sx_choose("d", 0, 3), whole = sx_choose("whole", 0, 1), count = 0; static const double th[4] = {0.25, 1, 4, 2}; static const char* const ds[4] = {"manhattan", "chebyshev", "euclidean", "nosuch"};
    no = refused([&] { count = api.groupDataset("a", th[t], n > 2 ? ds[d] : "euclidean", 1, n > 4 && whole); });
    Call c("group"); c("a"); if (t == 3) c(2); else c(th[t]); if (n > 2) c(ds[d], "distanceName"); if (n > 3) c(1, "numThreads"); if (n > 4) c(whole, "wholeSeriesOnly"); c.go(named(2, 5)); threw = c.threw;
    if (!threw && !no) {
      sx_assert(I(c.r) == count, "as many groups"); Call("saveGroups")("a")(path("g.bin")).go();
      GenexAPI other; other.loadDataset("a", path("a.txt")); sx_assert(other.loadGroups("a", path("g.bin")) == count, "as many groups"); checkSameGroups(groupsOf(api, "a", "x.txt"), groupsOf(other, "a", "y.txt"));
    }
  } else if (FN == SAVEGROUPS || FN == SIZES) {
    int w = sx_choose("which", 0, 1); no = w; Call c(FN == SIZES ? "saveGroupsSize" : "saveGroups"); c(w ? "c" : "a")(path("g.out")).go(); threw = c.threw;
    if (!threw && !no) {
      nothing(c.r);
      if (FN == SIZES) { api.saveGroupsOld("a", path("r.out"), true); std::vector<std::string> x = words(path("g.out")), y = words(path("r.out")); sx_assert(!y.empty() && x.size() == y.size(), "as many entries"); for (size_t k = 0; k < x.size(); k++) sx_assert(x[k] == y[k] || (numeric(x[k]) && numeric(y[k]) && sx_close(std::strtod(x[k].c_str(), 0), std::strtod(y[k].c_str(), 0), 1e-12)), "the library's sizes"); }
      else { GenexAPI other; other.loadDataset("a", path("a.txt")); other.loadGroups("a", path("g.out")); checkSameGroups(groupsOf(api, "a", "x.txt"), groupsOf(other, "a", "y.txt")); }
    }
  } else if (FN == LOADGROUPS) {
    int good = sx_choose("good", 0, 1), count = 0; { GenexAPI other; other.loadDataset("a", path("a.txt")); other.groupDataset("a", 0.5, "manhattan"); other.saveGroups("a", path("g.bin")); }
    no = refused([&] { count = api.loadGroups("a", path(good ? "g.bin" : "none.bin")); }); Call c("loadGroups"); c("a")(path(good ? "g.bin" : "none.bin")).go(); threw = c.threw;
    if (!threw && !no) {
      sx_assert(I(c.r) == count, "as many groups"); Cand m = api.getBestMatch("a", "b", 0); candidate(Call("sim")("a")("b")(0).go().r, m);
      Call("saveGroups")("a")(path("h.bin")).go(); GenexAPI other; other.loadDataset("a", path("a.txt")); other.loadGroups("a", path("h.bin")); checkSameGroups(groupsOf(api, "a", "x.txt"), groupsOf(other, "a", "y.txt"));
    }
  } else if (FN == DISTANCE || FN == MATCHING) {
    int v[6]; static const char* const nm[6] = {"i", "s", "e", "j", "t", "f"}; for (int i = 0; i < 6; i++) v[i] = sx_choose(nm[i], i % 3 ? -1 : 0, i % 3 == 0 ? 1 : 2);
    std::string d = sx_choose("d", 0, 1) ? "manhattan" : "chebyshev"; if (FN == MATCHING || sx_choose("warped", 0, 1)) d += "_dtw";
    if (FN == DISTANCE) {
      double x = 0; no = refused([&] { x = api.distanceBetween("a", v[0], v[1], v[2], "b", v[3], v[4], v[5], d); });
      Call c("distance"); c("a")(v[0])(v[1])(v[2])("b")(v[3])(v[4])(v[5])(d).go(); threw = c.threw; if (!threw && !no) same(D(c.r), x, "the library's distance");
    } else {
      genex::matching_t m; int given = sx_choose("given", 0, 2);      // of the second range; the rest is left out
      no = refused([&] { m = api.matchingBetween("a", v[0], v[1], v[2], "b", v[3], given > 0 ? v[4] : -1, given > 1 ? v[5] : -1, d); });
      Call c("getMatching"); c("a")(v[0])(v[1])(v[2])("b")(v[3]); if (given > 0) c(v[4], "start2"); if (given > 1) c(v[5], "end2"); c(d, "distanceName");
      int from = named(6, 9); sx_assume(given == 2 || from <= 6 + given); c.go(from); threw = c.threw;
      if (!threw && !no) { list(c.r, m.size()); for (size_t k = 0; k < m.size(); k++) { py::object p = c.r.n->v[k]; sx_assert(p.kind() == py::TUPLE && p.n->v.size() == 2, "pairs"); sx_assert(I(p.n->v[0]) == m[k].first && I(p.n->v[1]) == m[k].second, "the library's matching"); } }
    }
  } else if (FN == SIM) {
    int n = sx_choose("n", 3, 5), i = sx_choose("i", 0, 2), s = sx_choose("s", -1, 1), e = sx_choose("e", -1, 2); Cand r;
    no = refused([&] { r = api.getBestMatch("a", "b", i, n > 3 ? s : -1, n > 4 ? e : -1); });
    Call c("sim"); c("a")("b")(i); if (n > 3) c(s, "start"); if (n > 4) c(e, "end"); c.go(named(3, 5)); threw = c.threw; if (!threw && !no) candidate(c.r, r);
  } else if (FN == KSIM) {
    int n = sx_choose("n", 5, 7), k = sx_choose("k", 1, 2), ke = sx_choose("ke", 1, 3), i = sx_choose("i", 0, 1), s = sx_choose("s", 0, 1), e = sx_choose("e", 1, 2); std::vector<Cand> r;
    no = refused([&] { r = api.getKBestMatches(k, ke, "a", "b", i, n > 5 ? s : -1, n > 6 ? e : -1); });
    Call c("ksim"); c(k)(ke)("a")("b")(i); if (n > 5) c(s, "start"); if (n > 6) c(e, "end"); c.go(named(5, 7)); threw = c.threw; if (!threw && !no) candidates(c.r, r);
  } else if (FN == KSIMBF || FN == KSIMPAA) {
    int n = sx_choose("n", 4, 7), k = sx_choose("k", 1, 2), i = sx_choose("i", 0, 1), s = sx_choose("s", 0, 1), e = sx_choose("e", 1, 2), block = FN == KSIMPAA ? sx_choose("block", 1, 2) : 0, d = sx_choose("d", 0, 1); std::vector<Cand> r; static const char* const ds[2] = {"manhattan", "euclidean"};
    if (block) { nothing(Call("preparePAA")("a")(block).go().r); nothing(Call("preparePAA")("b")(block).go().r); api.preparePAA("a", block); api.preparePAA("b", block); }
    no = refused([&] { r = block ? api.getKBestMatchesPAA(k, "a", "b", i, n > 4 ? s : -1, n > 5 ? e : -1, n > 6 ? ds[d] : "euclidean") : api.getKBestMatchesBruteForce(k, "a", "b", i, n > 4 ? s : -1, n > 5 ? e : -1, n > 6 ? ds[d] : "euclidean"); });
    Call c(block ? "ksimpaa" : "ksimbf"); c(k)("a")("b")(i); if (n > 4) c(s, "start"); if (n > 5) c(e, "end"); if (n > 6) c(ds[d], "distance"); c.go(named(4, 7)); threw = c.threw; if (!threw && !no) candidates(c.r, r);
  } else if (FN == DISTANCES) {
    std::vector<genex::distance_metadata_t> d = api.getAllDistanceInfo(); Call c("getAllDistances"); c.go(); threw = c.threw; list(c.r, d.size());
    for (size_t k = 0; k < d.size(); k++) sx_assert(S(c.r.n->v[k]) == d[k].name, "the library's distances");
  } else if (FN == BAND) {
    int k = sx_choose("ratio", 0, 2), m = sx_choose("m", 0, 2); static const double ra[3] = {0, 0.5, 1}; static const char* const ds[3] = {"euclidean_dtw", "manhattan_dtw", "chebyshev_dtw"};
    Call c("setWarpingBandRatio"); c(ra[k]).go(); threw = c.threw; if (!threw) nothing(c.r);
    double w = warped(m, a.at(0, 0), 3, b.at(0, 0), 2, ra[k]), g = 0; bool out = refused([&] { g = api.distanceBetween("a", 0, -1, -1, "b", 0, -1, -1, ds[m]); });
    Call d("distance"); d("a")(0)(-1)(-1)("b")(0)(-1)(-1)(ds[m]).go(); sx_assert(!d.threw && !out, "computed"); sx_assert(sx_close(D(d.r), w, 1e-9), "distance within the new band"); same(D(d.r), g, "the library's distance");
  } else {                                  // a name that is not loaded: an error, and the module works on
    int f = sx_choose("f", 0, 13); no = true; Call c(f == 0 ? "unloadDataset" : f == 1 ? "saveDataset" : f == 2 ? "normalize" : f == 3 ? "getTimeSeriesName" : f == 4 ? "group" : f == 5 ? "preparePAA" : f == 6 ? "saveGroups" : f == 7 ? "loadGroups" : f == 8 ? "distance" : f == 9 ? "sim" : f == 10 ? "ksim" : f == 11 ? "ksimbf" : f == 12 ? "getTimeSeries" : "saveGroupsSize");
    bool first = sx_choose("first", 0, 1); const char *x = first ? "z" : "a", *y = first ? "b" : "z"; sx_assume(first || f == 8 || f == 9 || f == 10 || f == 11);
    if (f == 0 || f == 2) c(x); else if (f == 1) c(x)(path("o.txt"))(","); else if (f == 3 || f == 12) c(x)(0); else if (f == 4) c(x)(0.5); else if (f == 5) c(x)(1); else if (f == 6 || f == 7 || f == 13) c(x)(path("g.bin"));
    else if (f == 8) c(x)(0)(-1)(-1)(y)(0)(-1)(-1)("euclidean_dtw"); else if (f == 9) c(x)(y)(0); else if (f == 10) c(1)(1)(x)(y)(0); else c(1)(x)(y)(0);
    c.go(); threw = c.threw;
    sx_assert(Call("getTimeSeriesLength")("z")(0).go().threw, "still not loaded"); sameSeries(api, "a"); sameSeries(api, "b");
  }
  sx_assert(threw == no, "an error exactly when the library refuses"); if (no) sx_reach("refused"); else REACH;
}
