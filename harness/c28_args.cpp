// Every command does what its help text says with its arguments in their documented positions.
#include "cli.h"
enum { LOAD, SAVE, DISTANCE, GROUP, SAVEGROUPS, LOADGROUPS, NORMALIZE, SIM, KSIM, KSIMBF, PRINT, UNLOAD, LIST };
typedef std::vector<double> Nums;
static std::string path(const char* n) { return sx_path(n); }
static void series(GenexAPI& api, const std::string& name, Nums& v) {
  int n = api.getDatasetInfo(name).itemCount;
  for (int i = 0; i < n; i++) { TimeSeries t = api.getTimeSeries(name, i, -1, -1); for (int j = 0; j < t.getLength(); j++) v.push_back(t[j]); }
}
extern "C" void sx_main() {
  using namespace cli;
  sx_merge_mode(1);
  GenexAPI api;                             // what the library itself answers
  Rows a, b;
#ifdef FIXED                                // only one series is symbolic: the commands that group or search
  { static const double x[] = {0, 1, 3}, y[] = {0.5, 2}, z[] = {2.5, 0.25}; a.v.push_back(std::vector<double>(x, x + 3)); a.v.push_back(std::vector<double>(y, y + 2)); b.add("w", 2); b.v.push_back(std::vector<double>(z, z + 2)); }
#else
  a = symbolicRows("v", 32); b = symbolicRows("w", 22);
#endif
  writeRows("a.txt", a); writeRows("b.txt", b);
  std::vector<std::string>& l = lines();
  l.push_back("timer off"); l.push_back("load a " + path("a.txt")); l.push_back("load b " + path("b.txt"));
  api.loadDataset("a", path("a.txt"), " "); api.loadDataset("b", path("b.txt"), " ");
  bool grouped = CMD == SAVEGROUPS || CMD == SIM || CMD == KSIM || CMD == LIST;
  if (grouped) { l.push_back("group a 0.5"); api.groupDataset("a", 0.5, "euclidean"); }
  std::vector<std::string> w; Nums want; bool fits = true, no = false; const size_t probe = l.size();
  std::string look = "print a 0 0 3";
  if (CMD == LOAD) {
    int extra = sx_choose("extra", 0, 5), k = sx_choose("sep", 0, 2), rows = sx_choose("rows", 0, 2), skip = sx_choose("skip", 0, 1), nm = sx_choose("names", 0, 1);
    static const char* const tok[3] = {"\\s", ",", "\\s,"}; static const char* const real[3] = {" ", ",", " ,"};
    { std::ofstream f(path("c.txt")); f << std::setprecision(17); for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) { if (j) f << (extra && k ? "," : " "); f << a.v[0][j] + i; } f << "\n"; } }
    w.push_back("load"); w.push_back("c"); w.push_back(path("c.txt"));
    if (extra > 0) w.push_back(tok[k]); if (extra > 1) w.push_back(num(rows)); if (extra > 2) w.push_back(num(skip)); if (extra > 3) w.push_back(num(nm)); if (extra > 4) w.push_back("1");
    fits = extra <= 4;
    if (fits) {
      genex::dataset_metadata_t m = api.loadDataset("c", path("c.txt"), extra > 0 ? real[k] : " ", extra > 1 ? rows : 0, extra > 2 ? skip : 0, extra > 3 ? nm : 0);
      want.push_back(m.itemCount); want.push_back(m.itemLength); look = "print c 0 0 " + num(m.itemLength);
    }
  } else if (CMD == SAVE) {
    int n = sx_choose("n", 1, 4); w.push_back("save"); w.push_back("a"); if (n > 1) w.push_back(path("o.txt")); if (n > 2) w.push_back(sx_choose("sep", 0, 1) ? "," : "\\s"); if (n > 3) w.push_back("x");
    fits = n == 2 || n == 3;
  } else if (CMD == DISTANCE) {
    int n = sx_choose("n", 7, 10), v[6]; static const char* const nm[6] = {"i", "s", "e", "j", "t", "f"};
    for (int i = 0; i < 6; i++) v[i] = sx_choose(nm[i], 0, i % 3 == 0 ? 1 : 2);
    std::string d = sx_choose("d", 0, 1) ? "manhattan" : "chebyshev_dtw";
    std::string args[10] = {"a", num(v[0]), num(v[1]), num(v[2]), "b", num(v[3]), num(v[4]), num(v[5]), d, "x"};
    w.push_back("distance"); for (int i = 0; i < n; i++) w.push_back(args[i]);
    sx_assume(n != 8);                      // which distance is the default is not part of the statement
    fits = n == 9;
    if (fits) { double x = 0; no = refused([&] { x = api.distanceBetween("a", v[0], v[1], v[2], "b", v[3], v[4], v[5], d); }); want.push_back(x); }
  } else if (CMD == GROUP) {
    int n = sx_choose("n", 1, 4); static const char* const th[3] = {"0.25", "1", "4"}; int t = sx_choose("t", 0, 2); std::string d = sx_choose("d", 0, 1) ? "manhattan" : "chebyshev";
    w.push_back("group"); w.push_back("a"); if (n > 1) w.push_back(th[t]); if (n > 2) w.push_back(d); if (n > 3) w.push_back("x");
    fits = n == 2 || n == 3;
    if (fits) { want.push_back(api.groupDataset("a", t == 0 ? 0.25 : t == 1 ? 1 : 4, n == 3 ? d : "euclidean")); look = "list dataset"; }
  } else if (CMD == SAVEGROUPS) {
    int n = sx_choose("n", 1, 4), only = sx_choose("only", 0, 1); w.push_back("saveGroups"); w.push_back("a"); if (n > 1) w.push_back(path("g.bin")); if (n > 2) w.push_back(num(only)); if (n > 3) w.push_back("1");
    fits = n == 2 || n == 3; no = false;
    if (fits && n == 3 && only) look = "sizes"; else if (fits) look = "groups";
  } else if (CMD == LOADGROUPS) {
    int n = sx_choose("n", 1, 3), good = sx_choose("good", 0, 1); w.push_back("loadGroups"); w.push_back("a"); if (n > 1) w.push_back(path(good ? "g.bin" : "none.bin")); if (n > 2) w.push_back("x");
    { GenexAPI other; other.loadDataset("a", path("a.txt"), " "); other.groupDataset("a", 0.5, "manhattan"); other.saveGroups("a", path("g.bin")); }
    fits = n == 2; no = fits && !good;
    if (fits && good) { want.push_back(api.loadGroups("a", path("g.bin"))); look = "list dataset"; }
  } else if (CMD == NORMALIZE) {
    int n = sx_choose("n", 0, 2); bool which = sx_choose("which", 0, 1); w.push_back("normalize"); if (n > 0) w.push_back(which ? "a" : "b"); if (n > 1) w.push_back("x");
    fits = n == 1; if (fits) api.normalizeDataset(which ? "a" : "b");
  } else if (CMD == SIM) {
    int n = sx_choose("n", 2, 6), i = sx_choose("i", 0, 2), s = sx_choose("s", 0, 1), e = sx_choose("e", 1, 2);
    std::string args[6] = {"a", "b", num(i), num(s), num(e), "x"}; w.push_back("sim"); for (int k = 0; k < n; k++) w.push_back(args[k]);
    fits = n == 3 || n == 5;
    if (fits) no = refused([&] { genex::candidate_time_series_t c = n == 3 ? api.getBestMatch("a", "b", i) : api.getBestMatch("a", "b", i, s, e); add(want, c); });
  } else if (CMD == KSIM) {
    int n = sx_choose("n", 3, 8), k = sx_choose("k", 1, 2), i = sx_choose("i", 0, 1), s = sx_choose("s", 0, 1), e = 2, ke = sx_choose("ke", 1, 3);
    std::string args[8] = {num(k), "a", "b", num(i), num(s), num(e), num(ke), "x"}; w.push_back("ksim"); for (int q = 0; q < n; q++) w.push_back(n == 5 && q == 4 ? num(ke) : args[q]);
    fits = n >= 4 && n <= 7;
    if (fits) no = refused([&] {
      std::vector<genex::candidate_time_series_t> c = n < 6 ? api.getKBestMatches(k, n == 5 ? ke : k, "a", "b", i) : api.getKBestMatches(k, n == 7 ? ke : k, "a", "b", i, s, e);
      for (size_t q = 0; q < c.size(); q++) add(want, c[q]); });
  } else if (CMD == KSIMBF) {
    int n = sx_choose("n", 3, 7), k = sx_choose("k", 1, 2), i = sx_choose("i", 0, 1), s = sx_choose("s", 0, 1), e = sx_choose("e", 1, 2);
    std::string args[7] = {num(k), "a", "b", num(i), num(s), num(e), "3"}; w.push_back("ksimBF"); for (int q = 0; q < n; q++) w.push_back(args[q]);
    fits = n == 4 || n == 6;
    if (fits) no = refused([&] {
      std::vector<genex::candidate_time_series_t> c = n == 4 ? api.getKBestMatchesBruteForce(k, "a", "b", i) : api.getKBestMatchesBruteForce(k, "a", "b", i, s, e);
      for (size_t q = 0; q < c.size(); q++) add(want, c[q]); });
  } else if (CMD == PRINT) {
    int n = sx_choose("n", 3, 5), i = sx_choose("i", 0, 2), s = sx_choose("s", 0, 2), e = sx_choose("e", 1, 3);
    std::string args[5] = {"a", num(i), num(s), num(e), "x"}; w.push_back("print"); for (int q = 0; q < n; q++) w.push_back(args[q]);
    fits = n == 4;
    if (fits) no = refused([&] { TimeSeries t = api.getTimeSeries("a", i, s, e); for (int q = 0; q < t.getLength(); q++) want.push_back(t[q]); });
  } else if (CMD == UNLOAD) {
    int n = sx_choose("n", 0, 2), which = sx_choose("which", 0, 2); static const char* const nm[3] = {"a", "b", "c"}; w.push_back("unload"); if (n > 0) w.push_back(nm[which]); if (n > 1) w.push_back("b");
    fits = n == 1; if (fits) { no = refused([&] { api.unloadDataset(nm[which]); }); look = "list dataset"; }
  } else {
    int n = sx_choose("n", 0, 2), which = sx_choose("which", 0, 2); static const char* const nm[3] = {"dataset", "distance", "a"}; w.push_back("list"); if (n > 0) w.push_back(nm[which]); if (n > 1) w.push_back("a");
    fits = n == 1 && which < 2; look = "list dataset";
  }
  std::string line; for (size_t i = 0; i < w.size(); i++) line += (i ? " " : "") + w[i];
  l.push_back(line);
  l.push_back(look == "sizes" || look == "groups" ? "list dataset" : look);
  l.push_back("list dataset");
  // every series of what is loaded afterwards
  std::vector<genex::dataset_metadata_t> all = api.getAllDatasetInfo(); Nums values; const size_t first = l.size();
  static const char* const known[3] = {"a", "b", "c"};
  for (int k = 0; k < 3; k++) {
    if (refused([&] { api.getDatasetInfo(known[k]); })) continue;
    series(api, known[k], values);
    int n = api.getDatasetInfo(known[k]).itemCount; for (int i = 0; i < n; i++) l.push_back(std::string("print ") + known[k] + " " + num(i) + " 0 " + num(api.getTimeSeriesLength(known[k], i)));
  }
  run();
  const std::string& out = outs()[probe]; const std::string help = "Usage:";
  sx_assert(outs().size() >= l.size(), "every line was read");
  if (!fits) { sx_assert(has(out, "Error") || has(out, "must be"), "a wrong number of arguments is reported"); sx_assert(has(out, "Usage"), "the help text is shown"); sx_reach("arguments"); }
  else if (no) { sx_assert(has(out, "Error") && !has(out, "Usage"), "what the library refuses is reported"); sx_reach("refused"); }
  else {
    sx_assert(!has(out, "Error"), "no error is reported");
    endsWith(out, want, "the printed answer is the library's with the arguments in their places"); REACH;
  }
  // afterwards: the same datasets, values and groupings as in the library
  const std::string& ls = outs()[probe + 2];
  Nums got; for (size_t k = first; k < l.size(); k++) { Nums n = numbers(outs()[k]); sx_assert(!has(outs()[k], "Error"), "loaded as in the library"); got.insert(got.end(), n.begin(), n.end()); }
  sx_assert(got.size() == values.size(), "as many values"); for (size_t k = 0; k < got.size(); k++) sx_assert(sx_same_d(got[k], values[k]), "the same values");
  endsWith(num((int)all.size()), Nums(1, numbers(ls).empty() ? -1 : numbers(ls)[0]), "as many datasets are listed");
  for (size_t k = 0; k < all.size(); k++) {
    std::istringstream in(ls); std::string x; bool found = false;
    while (std::getline(in, x)) {
      std::istringstream y(x); std::string nm; if (!(y >> nm) || nm != all[k].name) continue;
      found = true;
      sx_assert(has(x, "Not grouped") == !all[k].isGrouped && has(x, "Not normalized") == !all[k].isNormalized, "grouped and normalized as in the library");
      if (all[k].isGrouped) { sx_assert(has(x, (all[k].distance + ",").c_str()), "with that distance"); Nums n = numbers(x); sx_assert(!n.empty() && sx_close(n.back(), all[k].threshold, 1e-3), "and that threshold"); }
    }
    sx_assert(found, "listed");
  }
  if (CMD == SAVE && fits) {
    GenexAPI other; std::string sep = w.size() > 3 && w[3] == "," ? "," : " "; other.loadDataset("a", path("o.txt"), sep);
    Nums x, y; series(api, "a", x); series(other, "a", y); sx_assert(x.size() == 5 && y.size() == 5, "saved completely"); for (size_t k = 0; k < 5; k++) sx_assert(sx_same_d(x[k], y[k]), "saved as it is");
  }
  if (look == "groups") {
    GenexAPI other; other.loadDataset("a", path("a.txt"), " "); other.loadGroups("a", path("g.bin"));
    Groups g = groupsOf(api, "a", "x.txt"), h = groupsOf(other, "a", "y.txt"); checkSameGroups(g, h);
  }
  if (look == "sizes") {
    api.saveGroupsOld("a", path("s.txt"), true);
    std::ifstream f(path("s.txt")), g(path("g.bin")); std::string x, y; bool more = true;
    while (more) { more = (bool)std::getline(f, x); bool also = (bool)std::getline(g, y); sx_assert(more == also, "as many lines"); if (more) { Nums p = numbers(x), q = numbers(y); sx_assert(p.size() == q.size(), "as many sizes"); for (size_t k = 0; k < p.size(); k++) sx_assert(sx_same_d(p[k], q[k]), "the sizes"); } }
  }
  if (CMD == LIST && w.size() == 2 && w[1] == "distance") {
    std::vector<genex::distance_metadata_t> d = api.getAllDistanceInfo(); for (size_t k = 0; k < d.size(); k++) sx_assert(has(out, d[k].name.c_str()), "every distance is listed");
  }
}
