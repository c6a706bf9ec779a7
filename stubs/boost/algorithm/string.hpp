#pragma once
#include <string>
#include <vector>
namespace boost {
inline bool sx_sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline void trim_right(std::string& s) { while (!s.empty() && sx_sp(s[s.size() - 1])) s.erase(s.size() - 1); }
inline void trim_left(std::string& s) { size_t i = 0; while (i < s.size() && sx_sp(s[i])) i++; s.erase(0, i); }
inline void trim(std::string& s) { trim_right(s); trim_left(s); }
inline std::string trim_copy(std::string s) { trim(s); return s; }
inline std::string trim_right_copy(std::string s) { trim_right(s); return s; }
inline std::string trim_left_copy(std::string s) { trim_left(s); return s; }
inline bool starts_with(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
inline bool ends_with(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
inline void to_lower(std::string& s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; }
inline std::string to_lower_copy(std::string s) { to_lower(s); return s; }
inline void to_upper(std::string& s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; }
inline bool contains(const std::string& s, const std::string& p) { return s.find(p) != std::string::npos; }
inline void replace_all(std::string& s, const std::string& from, const std::string& to) { if (from.empty()) return; for (size_t p = 0; (p = s.find(from, p)) != std::string::npos; p += to.size()) s.replace(p, from.size(), to); }
inline std::string replace_all_copy(std::string s, const std::string& from, const std::string& to) { replace_all(s, from, to); return s; }
inline void erase_all(std::string& s, const std::string& what) { replace_all(s, what, ""); }
struct sx_any_of { std::string set; bool operator()(char c) const { return set.find(c) != std::string::npos; } };
inline sx_any_of is_any_of(const std::string& s) { return sx_any_of{s}; }
inline sx_any_of is_space() { return sx_any_of{" \t\n\v\f\r"}; }
enum token_compress_mode_type { token_compress_on, token_compress_off };
template <class V, class P> V& split(V& out, const std::string& s, P is, token_compress_mode_type m = token_compress_off) {
  out.clear(); std::string cur; size_t i = 0;
  for (; i < s.size(); i++) { if (is(s[i])) { out.push_back(cur); cur.clear(); if (m == token_compress_on) while (i + 1 < s.size() && is(s[i + 1])) i++; } else cur.push_back(s[i]); }
  out.push_back(cur); return out; }
template <class V> std::string join(const V& v, const std::string& sep) { std::string r; bool first = true; for (const auto& x : v) { if (!first) r += sep; r += x; first = false; } return r; }
}
