// Comparing what two datasets with the same content are grouped into.
#pragma once
#include "search.h"
inline bool sameInfo(const genex::dataset_metadata_t& a, const genex::dataset_metadata_t& b) {
  return a.itemCount == b.itemCount && a.itemLength == b.itemLength && a.isGrouped == b.isGrouped && a.isNormalized == b.isNormalized && a.distance == b.distance && sx_same_d(a.threshold, b.threshold);
}
inline void checkSameGroups(const Groups& a, const Groups& b) {
  sx_assert(a.good && b.good, "readable");
  sx_assert(a.distance == b.distance && sx_same_d(a.threshold, b.threshold), "same distance and threshold");
  sx_assert(a.lenFrom == b.lenFrom && a.lenTo == b.lenTo && a.items == b.items && a.maxLen == b.maxLen, "same lengths");
  sx_assert(a.g.size() == b.g.size(), "same number of groups");
  for (size_t i = 0; i < a.g.size(); i++) {
    const GroupInfo& g = a.g[i]; sx_assert(!g.members.empty(), "no empty group");
    int k = groupOf(b, g.length, g.members[0].idx, g.members[0].start);
    sx_assert(k >= 0, "its first member is grouped");
    const GroupInfo& h = b.g[k];
    sx_assert(g.members.size() == h.members.size(), "same size");
    for (size_t j = 0; j < g.members.size(); j++) sx_assert(groupOf(b, g.length, g.members[j].idx, g.members[j].start) == k, "same members");
    for (int j = 0; j < g.length; j++) sx_assert(sx_same_d(g.centroid[j], h.centroid[j]), "same representative");
  }
}
// answers to the same queries
struct Answers { bool no, noK; double best; std::vector<double> k; };
inline Answers answers(GenexAPI& api, const std::string& target, const std::string& q, int k, int ke) {
  Answers a; a.best = 0; a.no = refused([&] { a.best = api.getBestMatch(target, q, 0).dist; });
  a.noK = refused([&] { Results r = api.getKBestMatches(k, ke, target, q, 0); for (size_t i = 0; i < r.size(); i++) a.k.push_back(r[i].dist); });
  return a;
}
inline void checkSameAnswers(const Answers& a, const Answers& b) {
  sx_assert(a.no == b.no && a.noK == b.noK && a.k.size() == b.k.size(), "same kind of answer");
  if (!a.no) sx_assert(sx_close(a.best, b.best, 1e-12), "same best distance");
  for (size_t i = 0; i < a.k.size(); i++) sx_assert(sx_close(a.k[i], b.k[i], 1e-12), "same k-best distances");
}
