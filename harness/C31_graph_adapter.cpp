#include "system.hpp"
#include <list>
#include "libmythical/graph_library_adapter.hpp"
using namespace mythical;
PROPERTY("C31",
  "Generated site containers (1..12 sites, any ids, rates over 8 or 300 decades, also of a site to itself) and lists of sites to convert (one, several in any order, none); edges are compared as (from, to, weight) with the stored rates, for list, vector and set containers; "
  "non-trivial = at least three edges from at least two sites.")
typedef std::map<std::pair<int, int>, double> Ed;
template <class T> static void same(const T& e, const Ed& want, const char* what) {
  Ed got; for (auto& x : e) { auto w = dynamic_cast<const ugly::EdgeDirectedWeighted*>(x.get()); REQUIRE(w, what << ": an edge has no direction and weight"); REQUIRE(got.emplace(std::make_pair(w->getVertex1(), w->getVertex2()), w->getWeight()).second, what << ": edge " << w->getVertex1() << "->" << w->getVertex2() << " occurs twice"); }
  REQUIRE(got.size() == want.size(), what << ": " << got.size() << " edges, expected " << want.size());
  for (auto& x : want) { auto it = got.find(x.first); REQUIRE(it != got.end(), what << ": edge " << x.first.first << "->" << x.first.second << " is missing"); REQUIRE(near(it->second, x.second, 1e-12), what << ": edge " << x.first.first << "->" << x.first.second << " has weight " << it->second << " expected " << x.second); }
}
SUB(edges, 90000, 720000) {
  int n = (int)g.in(1, 12); auto ids = g.ids(n + 2); Rates r; Site_Container box; std::map<int, std::map<int, double>> k; bool self = g.chance(1, 4), wide = g.chance(1, 4), self_rate = false;
  for (int i = 0; i < n; ++i) { int m = (int)g.in(0, 4); for (int q = 0; q < m; ++q) { int t = g.pick(ids); if (t == ids[i] && !self) continue; self_rate = self_rate || t == ids[i]; k[ids[i]][t] = r[ids[i]][t] = wide ? g.logreal(-150, 150) : g.rate(4); } }
  for (int i = 0; i < n; ++i) { Site s; s.setId(ids[i]); if (r.count(ids[i])) s.setRatesToNeighbors(r[ids[i]]); box.addSite(s); c.d << ids[i] << "{"; for (auto& x : k[ids[i]]) c.d << x.first << ":" << x.second << " "; c.d << "} "; }
  auto p = g.perm(n); int take = (int)g.in(0, n); std::vector<int> list; for (int i = 0; i < take; ++i) list.push_back(ids[p[i]]);
  Ed all, times; for (int v : list) for (auto& x : k[v]) { all[{v, x.first}] = x.second; times[{v, x.first}] = 1 / x.second; }
  c.d << "convert"; for (int v : list) c.d << " " << v;
  typedef std::shared_ptr<ugly::Edge> SE; typedef std::unique_ptr<ugly::Edge> UE;
  same(convertSitesOutgoingRatesToSharedWeightedEdges<std::vector<SE>>(box, list), all, "rates of a list of sites, vector");
  same(convertSitesOutgoingRatesToSharedWeightedEdges<std::list<SE>>(box, list), all, "rates of a list of sites, list");
  same(convertSitesOutgoingRatesToSharedWeightedEdges<std::set<SE>>(box, list), all, "rates of a list of sites, set");
  same(convertSitesOutgoingRatesToTimeSharedWeightedEdges<std::vector<SE>>(box, list), times, "times of a list of sites, vector");
  same(convertSitesOutgoingRatesToTimeSharedWeightedEdges<std::list<SE>>(box, list), times, "times of a list of sites, list");
  int one = ids[g.below(n)]; Ed o; for (auto& x : k[one]) o[{one, x.first}] = x.second; c.d << " single " << one;
  same(convertSitesOutgoingRatesToSharedWeightedEdges<std::vector<SE>>(box, one), o, "rates of one site, vector");
  same(convertSitesOutgoingRatesToUniqueWeightedEdges<std::vector<UE>>(box, one), o, "own rates of one site, vector");
  same(convertSitesOutgoingRatesToUniqueWeightedEdges<std::list<UE>>(box, one), o, "own rates of one site, list");
  auto nodes = convertSitesToEmptySharedNodes(list); REQUIRE(nodes.size() == list.size(), nodes.size() << " nodes for " << list.size() << " sites"); std::set<const void*> pt; for (int v : list) { REQUIRE(nodes.count(v) && nodes.at(v), "no node for site " << v); pt.insert(nodes.at(v).get()); } REQUIRE(pt.size() == list.size(), "two sites share a node");
  REQUIRE(box.size() == (size_t)n, "converting changed the container");
  for (int i = 0; i < n; ++i) { auto& nr = box.getSite(ids[i]).getNeighborsAndRatesConst(); REQUIRE(nr.size() == k[ids[i]].size(), "converting changed a site"); for (auto& x : k[ids[i]]) REQUIRE(*nr.at(x.first) == x.second, "converting changed a rate"); }
  c.label_if(self_rate, "rate of a site to itself"); c.label_if(wide, "rates over 300 decades"); c.nontrivial(all.size() >= 3 && list.size() >= 2);
}
