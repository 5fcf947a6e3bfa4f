#include "cluster.hpp"
PROPERTY("C18",
  "Generated connected clusters (2..8 members, 1..5 exits reachable from several members), neighbours, exit probabilities and fastest exit recomputed from the reported occupation probabilities; "
  "non-trivial = at least two exits, one of them reachable from two members or exits of different probability.",
  {"relations between members are symmetric (the code asserts it) and at least one exit exists"})
SUB(exits_follow, 15000, 300000) {
  Net t = gen_net(g, 2, 8); Mem m = all(t); Conv v = gen_iter(g); if (g.chance(1, 4)) { v.method = 2; v.tol = g.pick(std::vector<double>{0.1, 0.01, 1e-4}); } show(c, v); t.describe(c.d);
  Cluster cl; apply(cl, v); build(cl, t, g.perm(t.n)); cl.updateProbabilitiesAndTimeConstant(); if (g.chance(1, 4)) cl.updateProbabilitiesAndTimeConstant();
  auto p = reported(t, m, cl); auto e = exits(t, m, p);
  auto nb = cl.getSiteIdsNeighboringCluster(); std::set<int> got(nb.begin(), nb.end()), want; for (auto& x : e) want.insert(t.id[x.first]);
  REQUIRE(nb.size() == got.size(), "a neighbour of the cluster is listed twice"); REQUIRE(got == want, "neighbours of the cluster: " << got.size() << " listed, " << want.size() << " reachable by one hop");
  double tot = 0, mx = 0, mn = 1; for (auto& x : e) {
    double q = cl.getProbabilityOfHoppingToNeighborOfCluster(t.id[x.first]); tot += q; mx = std::max(mx, q); mn = std::min(mn, q);
    REQUIRE(near(q, x.second, 1e-9, 1e-15), "probability of leaving to " << t.id[x.first] << " is " << q << " expected " << x.second);
  }
  REQUIRE(near(tot, 1, 1e-9), "exit probabilities sum to " << tot);
  double fast = 0; std::map<int, int> from; for (int i : m) for (auto& x : t.k[i]) if (!in(m, x.first)) { fast = std::max(fast, x.second); from[x.first]++; }
  REQUIRE(cl.getFastestRateOffCluster() == fast, "fastest rate off the cluster is " << cl.getFastestRateOffCluster() << " expected " << fast);
  bool multi = false; for (auto& x : from) multi = multi || x.second > 1; c.nontrivial(e.size() >= 2 && (multi || mx > 1.001 * mn)); c.label_if(multi, "exit shared by members");
}
// the library's view of members
SUB(members, 10000, 150000) {
  Net t = gen_net(g, 2, 8); t.describe(c.d); Cluster cl; auto o = g.perm(t.n); int k = (int)g.in(1, t.n); std::vector<int> part(o.begin(), o.begin() + k); build(cl, t, part);
  std::set<int> want; for (int i : part) want.insert(t.id[i]); auto ids = cl.getSiteIdsInCluster(); auto s = cl.getSitesInCluster();
  REQUIRE(ids.size() == want.size() && std::set<int>(ids.begin(), ids.end()) == want, "ids of members are not those added");
  REQUIRE((int)s.size() == k && cl.getNumberOfSitesInCluster() == k, "number of members is " << cl.getNumberOfSitesInCluster() << " expected " << k);
  std::set<int> sid; for (auto& x : s) { sid.insert(x.getId()); REQUIRE(x.getClusterId() == cl.getId() && x.partOfCluster(), "a member is marked as in cluster " << x.getClusterId() << " instead of " << cl.getId()); }
  REQUIRE(sid == want, "members are not those added"); for (size_t i = 0; i < t.id.size(); ++i) REQUIRE(cl.siteIsInCluster(t.id[i]) == (want.count(t.id[i]) > 0), "siteIsInCluster(" << t.id[i] << ") is wrong");
  c.nontrivial(k >= 2 && k < t.n);
}
