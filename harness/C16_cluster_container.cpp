#include "cluster.hpp"
#include "libmythical/cluster_container.hpp"
using mythical::Cluster_Container;
PROPERTY("C16",
  "Generated histories of single and bulk additions (also refused ones), erasures, changes through references handed out, and queries of present and absent clusters, compared with individually kept clusters; "
  "non-trivial = at least three clusters stored at once, one erased or absent queried, and a held reference re-checked after later changes.",
  {"after a refused bulk addition only the clusters stored before it must be intact"})
struct M { int net; double res; int occ; };
static void same(Cluster& cl, int id, const M& m, const std::deque<Net>& nets, const char* who) {
  const Net& t = nets[m.net]; Mem all_ = all(t); std::set<int> w; for (int i = 0; i < t.n; ++i) w.insert(t.id[i]);
  auto ids = cl.getSiteIdsInCluster();
  REQUIRE(cl.getId() == id, who << " has id " << cl.getId() << " expected " << id);
  REQUIRE(std::set<int>(ids.begin(), ids.end()) == w, who << " " << id << " has other members than the cluster added");
  REQUIRE(cl.getResolution() == m.res, who << " " << id << " has resolution " << cl.getResolution() << " expected " << m.res);
  REQUIRE(cl.isOccupied() == (m.occ > 0), who << " " << id << " with " << m.occ << " walkers reports occupied=" << cl.isOccupied());
}
static void full(Cluster_Container& b, const std::map<int, M>& m, const std::deque<Net>& nets, const std::vector<int>& probe) {
  REQUIRE(b.size() == m.size(), "container has " << b.size() << " clusters, expected " << m.size());
  auto l = b.getClusterIds(); std::set<int> ls(l.begin(), l.end()), ms; for (auto& x : m) ms.insert(x.first); REQUIRE(l.size() == ls.size() && ls == ms, "ids listed differ from the clusters stored");
  auto s = b.getSiteIdsOfClusters(); auto r = b.getResolutionOfClusters(); auto ti = b.getTimeIncrementOfClusters();
  REQUIRE(s.size() == m.size() && r.size() == m.size() && ti.size() == m.size(), "listing of members, resolutions or time increments has the wrong size");
  for (int i : probe) REQUIRE(b.exist(i) == (m.count(i) > 0), "exist(" << i << ") is " << b.exist(i));
  for (auto& x : m) {
    const Net& t = nets[x.second.net]; int id = x.first; Cluster& cl = b.getCluster(id); same(cl, id, x.second, nets, "stored cluster");
    Mem mm = all(t); auto p = reported(t, mm, cl); double e = escape(t, mm, p);
    REQUIRE(near(b.getTimeConstant(id), e, 1e-9), "time constant of " << id << " is " << b.getTimeConstant(id) << " expected " << e);
    REQUIRE(near(ti.at(id), e / x.second.res, 1e-9), "time increment of " << id << " is " << ti.at(id) << " expected " << e / x.second.res);
    REQUIRE(r.at(id) == x.second.res, "resolution of " << id << " is " << r.at(id) << " expected " << x.second.res);
    std::set<int> w, nb; double fast = 0; for (int i = 0; i < t.n; ++i) { w.insert(t.id[i]); for (auto& y : t.k[i]) if (y.first >= t.n) { nb.insert(t.id[y.first]); fast = std::max(fast, y.second); } }
    REQUIRE(s.at(id).size() == w.size() && std::set<int>(s.at(id).begin(), s.at(id).end()) == w, "members listed for " << id << " are wrong");
    auto n2 = b.getSiteIdsOfNeighbors(id); REQUIRE(n2.size() == nb.size() && std::set<int>(n2.begin(), n2.end()) == nb, "neighbours of cluster " << id << " are wrong");
    REQUIRE(b.getFastestRateOffCluster(id) == fast, "fastest rate off " << id << " is " << b.getFastestRateOffCluster(id) << " expected " << fast);
    REQUIRE(b.isOccupied(id) == (x.second.occ > 0), "isOccupied(" << id << ") is " << b.isOccupied(id));
  }
}
SUB(history, 12000, 96000) {
  std::deque<Net> nets; std::map<int, M> m; Cluster_Container b; std::map<int, Cluster*> held; std::vector<int> probe; std::deque<Cluster> gone; bool absent = false, hc = false, erased = false; size_t big = 0;
  bool large = g.chance(1, 20); int range = large ? (int)g.in(10, 40) : 6; int base = g.chance(1, 6) ? (int)g.in(0, 2147483000LL) : (int)g.in(0, 50);  // ids are set, so that cases do not depend on each other
  auto make = [&](int want) {
    nets.push_back(gen_net(g, 2, large ? 2 : 4, (int)g.below(3))); Cluster cl; cl.setId(want); build(cl, nets.back(), iota(nets.back().n)); cl.updateProbabilitiesAndTimeConstant(); c.d << want << "(" << nets.back().n << " sites) ";
    if (std::find(probe.begin(), probe.end(), want) == probe.end()) probe.push_back(want);
    return cl;
  };
  int steps = large ? (int)g.in(20, 80) : (int)g.in(4, 24);
  for (int t = 0; t < steps; ++t) {
    int op = (int)g.below(12), id = base + (int)g.below(range); bool has = m.count(id);
    if (op < 4) { c.d << "add "; Cluster cl = make(id); double res = 20; if (g.flip()) { res = g.flip() ? (double)g.in(2, 40) : g.real(2, 40); cl.setResolution(res); } if (has) MUST_THROW(std::invalid_argument, "adding a cluster twice", b.addCluster(cl)); else { MUST_ACCEPT("adding a new cluster", b.addCluster(cl)); m[id] = M{(int)nets.size() - 1, res, 0}; if (g.chance(1, 3)) { c.d << "held "; held[id] = &b.getCluster(id); } } }
    else if (op == 4) {
      c.d << "bulk["; std::vector<Cluster> v; std::vector<std::pair<int, M>> q; bool dup = g.chance(1, 4); int k = (int)g.in(0, 3); std::set<int> seen; bool clash = false;
      for (int i = 0; i < k; ++i) { int j = base + (int)g.below(range); bool d = m.count(j) || seen.count(j); if (d && !dup) continue; clash = clash || d; seen.insert(j); v.push_back(make(j)); q.push_back({j, M{(int)nets.size() - 1, 20, 0}}); }
      c.d << "] ";
      if (clash) { MUST_THROW(std::invalid_argument, "bulk addition with a cluster already present", b.addClusters(v)); for (auto& x : m) { REQUIRE(b.exist(x.first), "refused bulk addition lost a cluster"); same(b.getCluster(x.first), x.first, x.second, nets, "after refused bulk, stored cluster"); } for (auto& x : q) if (!m.count(x.first) && b.exist(x.first)) m[x.first] = x.second; }
      else { MUST_ACCEPT("bulk addition", b.addClusters(v)); for (auto& x : q) m[x.first] = x.second; }
    } else if (op == 5) { c.d << "erase " << id << " "; b.erase(id); erased = erased || has; absent = absent || !has; m.erase(id); held.erase(id); }
    else if (op == 6) { c.d << "occupy " << id << " "; if (has) { b.occupy(id); m[id].occ++; } else { absent = true; MUST_THROW(std::invalid_argument, "occupy of an absent cluster", b.occupy(id)); } }
    else if (op == 7) { c.d << "vacate " << id << " "; if (has) { if (m[id].occ > 0) { b.vacate(id); m[id].occ--; } } else { absent = true; MUST_THROW(std::invalid_argument, "vacate of an absent cluster", b.vacate(id)); } }
    else if (op == 8) { c.d << "hold " << id << " "; if (has) held[id] = &b.getCluster(id); }
    else if (op == 9) { if (has) { double res = g.flip() ? (double)g.in(2, 40) : g.real(2, 40); c.d << "res " << id << "=" << res << " "; (held.count(id) && g.flip() ? *held[id] : b.getCluster(id)).setResolution(res); m[id].res = res; } }
    else if (op == 10) {
      if (!has) {
        absent = true; c.d << "absent? " << id << " "; int w = (int)g.below(6);
        if (w == 0) MUST_THROW(std::invalid_argument, "getCluster of an absent cluster", b.getCluster(id));
        if (w == 1) MUST_THROW(std::invalid_argument, "isOccupied of an absent cluster", b.isOccupied(id));
        if (w == 2) MUST_THROW(std::invalid_argument, "getDwellTime of an absent cluster", b.getDwellTime(0, id));
        if (w == 3) MUST_THROW(std::invalid_argument, "getTimeConstant of an absent cluster", b.getTimeConstant(id));
        if (w == 4) MUST_THROW(std::invalid_argument, "getFastestRateOffCluster of an absent cluster", b.getFastestRateOffCluster(id));
        if (w == 5) MUST_THROW(std::invalid_argument, "getSiteIdsOfNeighbors of an absent cluster", b.getSiteIdsOfNeighbors(id));
      } else {
        unsigned long sd = g.seed32(); Cluster copy = b.getCluster(id); copy.setRandomSeed(sd); Cluster& cl = b.getCluster(id); cl.setRandomSeed(sd); int wk = (int)g.in(0, 3);
        double u = b.getDwellTime(wk, id), v = copy.getDwellTime(wk); REQUIRE(near(u, v, 1e-9), "container draws dwell time " << u << ", the cluster itself " << v);
        int x = cl.pickNewSiteId(wk), y = copy.pickNewSiteId(wk); REQUIRE(x == y, "stored cluster picks " << x << ", its copy " << y);
      }
    } else if (has) { Cluster copy = b.getCluster(id); copy.occupy(); copy.setResolution(77); c.d << "edit a copy "; }
    big = std::max(big, m.size());
    for (auto& h : held) { same(*h.second, h.first, m.at(h.first), nets, "held reference to cluster"); REQUIRE(h.second == &b.getCluster(h.first), "held reference no longer is the stored cluster"); hc = true; }
    if (g.chance(1, large ? 12 : 3) || t + 1 == steps) full(b, m, nets, probe);
  }
  c.nontrivial(big >= 3 && (erased || absent) && hc); c.label_if(erased, "erased"); c.label_if(hc, "reference held");
}
