// The prompt answers every line and ends only when asked to.
#include "cli.h"
using namespace cli;
static const char* const words[] = {"load", "save", "unload", "list", "timer", "distance", "group", "saveGroups", "loadGroups", "normalize", "sim", "ksim", "ksimBF", "print", "help", "nothing"};
static void look() { lines().push_back("list dataset"); lines().push_back("print a 0 0 3"); lines().push_back("print a 1 0 2"); }
static bool same(const std::string& x, const std::string& y) {
  std::vector<double> p = numbers(x), q = numbers(y); if (p.size() != q.size()) return false;
  for (size_t i = 0; i < p.size(); i++) if (!sx_same_d(p[i], q[i])) return false;
  return has(x, "Not grouped") == has(y, "Not grouped") && has(x, "Not normalized") == has(y, "Not normalized");
}
static bool blank(const std::string& s) { return s.find_first_not_of(" \n") == std::string::npos; }
extern "C" void sx_main() {
  sx_merge_mode(MODE);
  Rows a; { static const double y[] = {0.5, 2}; a.add("v", 3); a.v.push_back(std::vector<double>(y, y + 2)); } writeRows("a.txt", a);
  std::vector<std::string>& l = lines();
  l.push_back("timer off"); l.push_back(std::string("load a ") + sx_path("a.txt"));
#if KIND == 0                               // any short line
  look(); const size_t k = l.size();
  std::string s; int n = sx_choose("n", 0, LN); for (int i = 0; i < n; i++) s.push_back((char)sx_int("c", 32, 126));
  l.push_back(s); look(); run();
  size_t b = 0; while (b < s.size() && s[b] == ' ') b++;
  size_t e = b; while (e < s.size() && s[e] != ' ') e++;
  std::string w = s.substr(b, e - b);
  bool silent = w.empty() || (w.size() >= 2 && w[0] == '/' && w[1] == '/'), leave = w == "quit" || w == "exit";
  sx_assert((asked() == k + 1) == leave, "ends exactly on quit or exit");
  if (leave) { sx_reach("left"); return; }
  sx_assert(asked() == l.size() + 2, "every line is read, then the end of input and its confirmation");
  sx_assert(blank(outs()[k]) == silent, "answered unless empty or a comment");
  if (!silent) { bool known = false; for (size_t i = 0; i < sizeof(words) / sizeof(words[0]); i++) if (w == words[i] && i != 15) known = true; if (!known) sx_assert(has(outs()[k], "Error"), "unknown commands are reported"); }
  for (int i = 0; i < 3; i++) sx_assert(same(outs()[k - 3 + i], outs()[k + 1 + i]), "nothing has changed");
  REACH;
#elif KIND == 1                             // a command with any arguments
  static const char* const menu[] = {"a", "zz", "0", "-1", "1", "x", "99999999999"};
  if (GROUPED) l.push_back("group a 1");
  look(); const size_t k = l.size();
  std::string s = words[WORD]; int n = sx_choose("n", NLO, NHI); for (int i = 0; i < n; i++) s += std::string(" ") + (i < FREE ? menu[sx_choose("arg", 0, 6)] : i < FREE + 2 ? menu[sx_choose("arg", 4, 5)] : "1");
  l.push_back(s); look(); run();
  sx_assert(asked() == l.size() + 2, "every line is read");
  const std::string& out = outs()[k];
  sx_assert(!blank(out), "answered");
  bool error = has(out, "Error") || has(out, "Usage");
  static const bool changes[] = {true, false, true, false, false, false, true, false, true, true, false, false, false, false, false, false};
  bool unchanged = true; for (int i = 0; i < 3; i++) unchanged = same(outs()[k - 3 + i], outs()[k + 1 + i]) && unchanged;
  if (error || !changes[WORD]) sx_assert(unchanged, "nothing has changed");
  if (error) sx_reach("error"); else REACH;
#elif KIND == 2                             // end of input and its confirmation
  static const char* const ans[] = {"y", "n", "", "maybe", "\1"};
  std::vector<int> c; l.push_back("\1"); for (int i = 0; i < 4; i++) { c.push_back(sx_choose("answer", 0, 4)); l.push_back(ans[c.back()]); }
  for (int i = 0; i < 3; i++) l.push_back("print a 0 0 3");
  run();
  // reference: who gets which line
  bool prompt = false, over = false; size_t used = 3;
  for (size_t i = 0; i < 7 && !over; i++) {
    bool eof = i < 4 && c[i] == 4; std::string t = i < 4 ? ans[c[i]] : "print"; used++;
    if (prompt) { if (eof) prompt = false; else if (i < 4 && t != "") sx_assert(has(outs()[3 + i], "Error"), "taken as a command"); else if (i >= 4) sx_assert(numbers(outs()[3 + i]).size() == 3, "the session goes on"); }
    else { if (eof || t == "y" || t == "") over = true; else if (t == "n") prompt = true; }
  }
  if (!over) used += prompt ? 2 : 1;        // the real end of input, confirmed by the same
  sx_assert(asked() == used, "ends exactly when confirmed");
  if (over) sx_reach("left"); else REACH;
#else                                       // the timer
  bool on = false; std::vector<int> c; const size_t k = l.size();
  for (int i = 0; i < 4; i++) { c.push_back(sx_choose("op", 0, 4)); static const char* const op[] = {"timer on", "timer off", "timer", "timer maybe", "group a 4"}; l.push_back(op[c.back()]); }
  run();
  for (int i = 0; i < 4; i++) {
    const std::string& o = outs()[k + i];
    if (c[i] == 0) on = true; if (c[i] == 1) on = false;
    if (c[i] < 3) sx_assert(has(o, on ? "ON" : "OFF") && !has(o, on ? "OFF" : "ON"), "the state of the timer");
    if (c[i] == 3) sx_assert(has(o, "Error"), "unknown state");
    if (c[i] == 4) { sx_assert(has(o, "executed") == on, "timed exactly when the timer is on"); sx_assert(!has(o, "Error"), "grouped"); }
  }
  REACH;
#endif
}
