// Running the program's prompt on given lines and looking at what it prints.
#pragma once
#include "groups.h"
#include <cctype>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
int genex_cli_main(int, char**);            // the program's main
namespace cli {
inline std::vector<std::string>& lines() { static std::vector<std::string> v; return v; }
inline std::vector<std::string>& outs() { static std::vector<std::string> v; return v; }     // what was printed after each line
inline size_t& asked() { static size_t n = 0; return n; }
#ifdef SX_STREAMS
extern "C" unsigned sx_cores;
inline std::string& text() { static std::string s; return s; }
inline void capture() { std::cout.o_ = &text(); sx_cores = 1; }
inline std::string taken() { std::string s = text(); text().clear(); return s; }
#else
inline std::ostringstream& text() { static std::ostringstream s; return s; }
inline void capture() { std::cout.rdbuf(text().rdbuf()); }
inline std::string taken() { std::string s = text().str(); text().str(""); return s; }
#endif
inline void run() { asked() = 0; outs().clear(); capture(); genex_cli_main(0, 0); outs().push_back(taken()); outs().erase(outs().begin()); }
// numbers in a text, in order; brackets, commas and the like around them are dropped
inline std::vector<double> numbers(const std::string& s) {
  std::vector<double> r; std::istringstream in(s); std::string w;
  while (in >> w) {
    size_t b = 0, e = w.size();
    while (b < e && std::strchr("[(,;:", w[b])) b++;
    while (e > b && std::strchr("])},;:.", w[e - 1])) e--;
    if (b == e) continue;
    std::string n = w.substr(b, e - b); char* end; double d = std::strtod(n.c_str(), &end);
    if (end == n.c_str() + n.size()) r.push_back(d);
  }
  return r;
}
// the text ends with these numbers, written with at least four digits
inline void endsWith(const std::string& out, const std::vector<double>& want, const char* msg) {
  std::vector<double> n = numbers(out);
  sx_assert(n.size() >= want.size(), msg);
  for (size_t i = 0; i < want.size(); i++) { sx_observe("n", n[n.size() - want.size() + i]); sx_assert(sx_close(n[n.size() - want.size() + i], want[i], 1e-3), msg); }
}
inline void add(std::vector<double>& v, const genex::candidate_time_series_t& c) { v.push_back(c.data.getIndex()); v.push_back(c.data.getStart()); v.push_back(c.data.getEnd()); v.push_back(c.dist); }
inline bool has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
inline std::string num(int i) { return std::to_string(i); }
}
extern "C" {
char* readline(const char*) {
  using namespace cli;
  outs().push_back(taken());
  size_t k = asked()++;
  if (k >= lines().size() || lines()[k] == "\1") return 0;     // end of input
  char* p = (char*)std::malloc(lines()[k].size() + 1); std::strcpy(p, lines()[k].c_str()); return p;
}
void add_history(const char*) {}
}
