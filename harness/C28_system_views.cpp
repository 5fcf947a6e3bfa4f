#include "system.hpp"
PROPERTY("C28",
  "Generated systems and hop histories; after every few hops all views of the clusters are compared with each other and with the state before; "
  "non-trivial = at least one cluster and 20 hops; labelled: clusters merged, cluster grew.",
  {"rates between non-drain sites exist in both directions"})
static void run(Src& g, Ctx& c, bool grain, int maxsteps) {
  Sys s = gen_sys(g, 2, 14, 2, grain); s.describe(c.d); Rates r = s.rates(); CoarseGrainSystem cg; s.setup(cg, r); const int un = mythical::constants::unassignedId;
  std::vector<std::pair<int, WP>> ws; int next = 1; std::set<std::set<int>> before; std::map<int, int> visits; std::map<int, long> arrivals; bool merged = false, grew = false, linear = false; int hops = 0; struct Pt { long a; std::map<int, int> v; }; std::map<std::set<int>, std::vector<Pt>> grow;
  auto check = [&] {
    auto cl = cg.getClusters(); auto res = cg.getResolutionOfClusters(); auto inc = cg.getTimeIncrementOfClusters(); std::set<int> seen; std::set<std::set<int>> now;
    REQUIRE(grain || cl.empty(), "a cluster formed although coarse graining is off"); REQUIRE(res.size() == cl.size() && inc.size() == cl.size(), cl.size() << " clusters, " << res.size() << " resolutions and " << inc.size() << " time increments");
    for (auto& x : cl) {
      std::set<int> m(x.second.begin(), x.second.end()); REQUIRE(m.size() == x.second.size() && m.size() >= 2, "cluster " << x.first << " lists " << x.second.size() << " sites of which " << m.size() << " differ"); now.insert(m);
      for (int v : m) { int i = s.index(v); REQUIRE(i >= 0 && !s.drain(i), "cluster " << x.first << " contains " << v << " which is not a site with rates"); REQUIRE(seen.insert(v).second, "site " << v << " is in two clusters"); REQUIRE(cg.getClusterIdOfSite(v) == x.first, "site " << v << " is listed by cluster " << x.first << " but reports " << cg.getClusterIdOfSite(v)); }
      // connected
      std::set<int> con; std::vector<int> st{*m.begin()}; while (!st.empty()) { int v = st.back(); st.pop_back(); if (!con.insert(v).second) continue; for (auto& y : s.k[s.index(v)]) if (m.count(s.id[y.first])) st.push_back(s.id[y.first]); } REQUIRE(con.size() == m.size(), "cluster " << x.first << " is not connected");
      bool ex = false; for (int v : m) for (auto& y : s.k[s.index(v)]) ex = ex || !m.count(s.id[y.first]); REQUIRE(ex, "cluster " << x.first << " has no way out");
      REQUIRE(res.count(x.first) && res[x.first] >= 2 * (1 - 1e-12) && std::isfinite(res[x.first]), "resolution of cluster " << x.first << " is " << res[x.first]);
      REQUIRE(inc.count(x.first) && inc[x.first] > 0 && inc[x.first] <= s.tres * (1 + 1e-9), "time increment of cluster " << x.first << " of " << m.size() << " sites is " << inc[x.first] << " with a time resolution of " << s.tres);
    }
    for (int v : s.id) if (!seen.count(v)) REQUIRE(cg.getClusterIdOfSite(v) == un, "site " << v << " reports cluster " << cg.getClusterIdOfSite(v) << " which does not list it");
    for (auto& o : before) { bool kept = false; for (auto& m : now) if (std::includes(m.begin(), m.end(), o.begin(), o.end())) { kept = true; grew = grew || m.size() > o.size(); } REQUIRE(kept, "sites of a cluster were separated or lost"); }
    // visits to the members of an unchanged cluster grow in proportion to the arrivals there
    for (auto& m : now) { Pt p{0, {}}; for (int v : m) { p.a += arrivals[v]; p.v[v] = cg.getVisitFrequencyOfSite(v); } grow[m].push_back(p); }
    if (now.size() < before.size()) merged = true; before = now;
    for (int v : s.id) { int n = cg.getVisitFrequencyOfSite(v); REQUIRE(n >= visits[v], "visit count of " << v << " fell from " << visits[v] << " to " << n); visits[v] = n; if (!grain) REQUIRE(n == arrivals[v], "visit count of " << v << " is " << n << " after " << arrivals[v] << " arrivals"); else if (!seen.count(v)) REQUIRE(n == arrivals[v], "visit count of " << v << ", in no cluster, is " << n << " after " << arrivals[v] << " arrivals"); }
  };
  check(); int steps = (int)g.in(1, maxsteps), want = (int)g.in(1, std::min(4, s.n));
  for (int st = 0; st < steps; ++st) {
    while ((int)ws.size() < want) { std::set<int> occ; for (auto& w : ws) occ.insert(w.second->getIdOfSiteCurrentlyOccupying()); std::vector<int> free; for (int i = 0; i < s.n; ++i) if (!occ.count(s.id[i])) free.push_back(s.id[i]); if (free.empty()) break; std::vector<std::pair<int, WP>> v{{s.wid(next++), WP(new Electron)}}; int at = g.pick(free); v[0].second->occupySite(at); cg.initializeWalkers(v); ws.push_back(v[0]); ++arrivals[at]; }
    size_t q = g.below(ws.size()); int at = ws[q].second->getIdOfSiteCurrentlyOccupying();
    if (s.drain(s.index(at))) { cg.removeWalkerFromSystem(ws[q]); ws.erase(ws.begin() + q); continue; }
    cg.hop(ws[q]); ++hops; ++arrivals[ws[q].second->getIdOfSiteCurrentlyOccupying()];
    if (g.chance(1, 6)) check();
  }
  check();
  for (auto& x : grow) { auto& v = x.second; const Pt &a = v.front(), &b = v[v.size() / 2], &e = v.back(); double l = (double)(e.a - a.a), h = (double)(b.a - a.a); if (l < 10) continue; linear = true;
    for (int m : x.first) REQUIRE(std::fabs((double)(b.v.at(m) - a.v.at(m)) * l - (double)(e.v.at(m) - a.v.at(m)) * h) <= (l + h) * (1 + 1e-6) + 1e-6, "visit count of " << m << " in an unchanged cluster went from " << a.v.at(m) << " to " << b.v.at(m) << " with " << h << " arrivals in the cluster and to " << e.v.at(m) << " with " << l); }
  c.label_if(linear, "growth of visits in a cluster"); c.label_if(merged, "merged"); c.label_if(grew, "grew"); c.label_if(before.size() > 0, "cluster"); c.nontrivial(hops >= 20 && (!grain || !before.empty()));
}
SUB(with_clusters, 5000, 80000) { run(g, c, true, 400); }
SUB(without_clusters, 1000, 10000) { run(g, c, false, 200); }
