#include "cluster.hpp"
PROPERTY("C22",
  "Generated construction histories (sites added singly or in bulk in any order, updates in between, up to three clusters merged in any order, rates changed in place) compared with a cluster built afresh from the same sites and rates; "
  "non-trivial = a merge, or an update before the last site was added, or a rate changed in place after an update.",
  {"clusters that are updated are connected, have at least two members and an exit", "fixed iteration counts or tolerance 1e-12, so that the solution is unique"})
static void compare(const Net& t, const Mem& m, Cluster& cl, const Conv& v, double res) {
  Cluster f; apply(f, v); f.setResolution(res); std::vector<int> o(m.begin(), m.end()); build(f, t, o); f.updateProbabilitiesAndTimeConstant();
  std::set<int> want; for (int i : m) want.insert(t.id[i]); auto ids = cl.getSiteIdsInCluster();
  REQUIRE(ids.size() == want.size() && std::set<int>(ids.begin(), ids.end()) == want, "member set differs: " << ids.size() << " members, expected " << want.size());
  REQUIRE(cl.getNumberOfSitesInCluster() == (int)want.size(), "number of members is " << cl.getNumberOfSitesInCluster());
  for (auto& s : cl.getSitesInCluster()) {
    REQUIRE(s.getClusterId() == cl.getId(), "member " << s.getId() << " is marked as in cluster " << s.getClusterId() << " instead of " << cl.getId()); int i = t.index(s.getId());
    REQUIRE(near(s.getTimeConstant(), t.tau(i), 1e-9), "member " << s.getId() << " has dwell constant " << s.getTimeConstant() << " expected " << t.tau(i));
  }
  double tol = v.method == 2 ? 1e-6 : 1e-8;
  for (int i : m) { double a = cl.getProbabilityOfOccupyingInternalSite(t.id[i]), b = f.getProbabilityOfOccupyingInternalSite(t.id[i]); REQUIRE(near(a, b, tol, 1e-9), "occupation probability of " << t.id[i] << " is " << a << ", in a fresh cluster " << b); }
  auto n1 = cl.getSiteIdsNeighboringCluster(), n2 = f.getSiteIdsNeighboringCluster(); REQUIRE(n1.size() == n2.size() && std::set<int>(n1.begin(), n1.end()) == std::set<int>(n2.begin(), n2.end()), "neighbours differ from those of a fresh cluster");
  for (int j : n2) { double a = cl.getProbabilityOfHoppingToNeighborOfCluster(j), b = f.getProbabilityOfHoppingToNeighborOfCluster(j); REQUIRE(near(a, b, tol, 1e-9), "exit probability to " << j << " is " << a << ", in a fresh cluster " << b); }
  REQUIRE(near(cl.getTimeConstant(), f.getTimeConstant(), 10 * tol), "time constant is " << cl.getTimeConstant() << ", of a fresh cluster " << f.getTimeConstant());
  REQUIRE(near(cl.getTimeIncrement(), f.getTimeIncrement(), 10 * tol), "time increment is " << cl.getTimeIncrement() << ", of a fresh cluster " << f.getTimeIncrement());
  REQUIRE(cl.getFastestRateOffCluster() == f.getFastestRateOffCluster(), "fastest exit rate is " << cl.getFastestRateOffCluster() << ", of a fresh cluster " << f.getFastestRateOffCluster());
}
static bool usable(const Net& t, const Mem& m) {  // connected, two or more, an exit
  if (m.size() < 2) return false;
  bool ex = false; for (int i : m) for (auto& x : t.k[i]) ex = ex || !in(m, x.first); if (!ex) return false;
  Mem seen; std::vector<int> st{*m.begin()}; while (!st.empty()) { int i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; for (auto& x : t.k[i]) if (in(m, x.first)) st.push_back(x.first); }
  return seen.size() == m.size();
}
SUB(history, 6000, 120000) {
  Net t = gen_net(g, 3, 9, (int)g.below(3)); Conv v = gen_iter(g); bool tol = g.chance(1, 5); if (tol) { std::map<int, double> r; if (reference(t, all(t), r, 500, 1e-10) < 1e-9) { v.method = 2; v.tol = 1e-12; } } show(c, v); t.describe(c.d);
  double res = (double)g.in(2, 40); int nc = (int)g.in(1, 3); std::vector<Cluster> cl(nc); std::vector<Mem> m(nc); for (auto& x : cl) { apply(x, v); x.setResolution(res); }
  std::vector<int> to(t.n); int fresh = 1; for (int i = 1; i < t.n; ++i) { int j = t.k[i].begin()->first; if (fresh < nc && g.chance(1, 3)) to[i] = fresh++; else to[i] = to[j]; }  // every cluster ends up connected
 
  std::vector<bool> upd(nc, false), dirty(nc, false); bool merged = false, mid = false, chg = false; auto order = g.chance(2, 3) ? iota(t.n) : g.perm(t.n); size_t next = 0;
  auto change = [&] { int i = (int)g.below(t.n); std::string what = alter(g, t, i, 2); c.d << what; bool every = what[0] == 'a'; for (int q = 0; q < nc; ++q) if (every ? !m[q].empty() : in(m[q], i)) { chg = chg || upd[q]; dirty[q] = true; } };
  auto update = [&](int q) { if (!usable(t, m[q])) return false; c.d << "update" << q << " "; cl[q].updateProbabilitiesAndTimeConstant(); upd[q] = true; dirty[q] = false; return true; };
  while (next < order.size()) {
    int op = (int)g.below(8);
    if (op < 3) { int i = order[next++], q = to[i]; c.d << "add" << q << " " << t.id[i] << " "; Site s = t.site(i); cl[q].addSite(s); REQUIRE(s.getClusterId() == cl[q].getId(), "added site is not marked with its cluster"); m[q].insert(i); dirty[q] = true; mid = mid || upd[q]; }
    else if (op == 3) { std::vector<Site> s; int i0 = order[next], q = to[i0]; c.d << "bulk" << q << " "; while (next < order.size() && to[order[next]] == q && (int)s.size() < 4) { s.push_back(t.site(order[next])); m[q].insert(order[next]); c.d << t.id[order[next]] << " "; ++next; } cl[q].addSites(s); for (auto& x : s) REQUIRE(x.getClusterId() == cl[q].getId(), "bulk added site is not marked with its cluster"); dirty[q] = true; mid = mid || upd[q]; }
    else if (op < 7) { int q = (int)g.below(nc); if (update(q)) compare(t, m[q], cl[q], v, res); }
    else change();
  }
  std::vector<int> live; for (int q = 0; q < nc; ++q) if (!m[q].empty()) live.push_back(q);
  for (int tries = 0; tries < 8 && live.size() > 1; ++tries) {
    int a = g.pick(live), b = g.pick(live); if (a == b) continue; Mem u = m[a]; u.insert(m[b].begin(), m[b].end()); if (!usable(t, u) || !usable(t, m[b]) || !usable(t, m[a])) continue;
    if (!upd[b] || dirty[b]) update(b); if (g.flip()) update(a); if (g.flip()) change();
    c.d << "merge " << b << " into " << a << " "; cl[a].migrateSitesFrom(cl[b]); m[a] = u; m[b].clear(); upd[a] = true; dirty[a] = false; upd[b] = false; merged = true; live.erase(std::find(live.begin(), live.end(), b));
    REQUIRE(cl[b].getNumberOfSitesInCluster() == 0 && cl[b].getSiteIdsInCluster().empty() && cl[b].getSitesInCluster().empty() && cl[b].getSiteIdsNeighboringCluster().empty(), "merged cluster still has sites or neighbours"); for (int i : u) REQUIRE(!cl[b].siteIsInCluster(t.id[i]) && cl[a].siteIsInCluster(t.id[i]), "site " << t.id[i] << " was not moved");
    compare(t, m[a], cl[a], v, res);
  }
  if (g.flip()) change();
  for (int q : live) if (usable(t, m[q])) { update(q); compare(t, m[q], cl[q], v, res); }
  c.nontrivial(merged || mid || chg); c.label_if(merged, "merged"); c.label_if(mid, "updated before last site"); c.label_if(chg, "rate changed in place");
}
// a cluster whose sites were moved to another one is filled again
SUB(reused, 2500, 50000) {
  Net t = gen_net(g, 4, 8, (int)g.below(3)), u = gen_net(g, 2, 6, (int)g.below(3)); Conv v = gen_iter(g); show(c, v); t.describe(c.d); double res = (double)g.in(2, 40); Cluster a, b; for (Cluster* x : {&a, &b}) { apply(*x, v); x->setResolution(res); }
  Mem ma, mb; int cut = (int)g.in(2, t.n - 2); for (int i = 0; i < cut; ++i) ma.insert(i);
  for (int q = cut; q < t.n; ++q) { Mem s; std::vector<int> st{q}; while (!st.empty()) { int i = st.back(); st.pop_back(); if (!s.insert(i).second) continue; for (auto& x : t.k[i]) if (x.first >= cut && x.first < t.n) st.push_back(x.first); } if (s.size() > mb.size()) mb = s; }
  if (g.flip()) std::swap(ma, mb); Mem both = ma; both.insert(mb.begin(), mb.end()); if (!usable(t, ma) || !usable(t, mb) || !usable(t, both)) throw Discard();
  build(a, t, std::vector<int>(ma.begin(), ma.end())); build(b, t, std::vector<int>(mb.begin(), mb.end())); a.updateProbabilitiesAndTimeConstant(); b.updateProbabilitiesAndTimeConstant();
  bool many = g.chance(1, 4); int visits = (int)g.in(0, many ? 60 : 12), nw = (int)(many ? g.in(4, 20) : g.in(1, 3)); c.d << "visits " << visits << " walkers " << nw << " ";
  for (int q = 0; q < visits; ++q) { int i = *std::next(mb.begin(), g.below(mb.size())), w = (int)g.below(nw); b.occupy(t.id[i]); b.getDwellTime(w); b.pickNewSiteId(w); b.vacate(t.id[i]); if (g.chance(1, 4)) b.getVisitFrequency(t.id[i]); }
  a.migrateSitesFrom(b); c.d << "moved, then "; u.describe(c.d); build(b, u, g.perm(u.n)); b.updateProbabilitiesAndTimeConstant(); compare(t, both, a, v, res); compare(u, all(u), b, v, res);
  REQUIRE(!b.isOccupied(), "a cluster filled again is occupied"); for (int i = 0; i < u.n; ++i) REQUIRE(b.getVisitFrequency(u.id[i]) == 0 && !b.isOccupied(u.id[i]), "site " << u.id[i] << " of a cluster filled again has " << b.getVisitFrequency(u.id[i]) << " visits or is occupied");
  Cluster f; apply(f, v); f.setResolution(res); build(f, u, iota(u.n)); f.updateProbabilitiesAndTimeConstant(); unsigned long sd = g.seed32(); b.setRandomSeed(sd); f.setRandomSeed(sd);
  for (int q = 0; q < 20; ++q) { int w = (int)g.below(nw + 1); double x = b.getDwellTime(w), y = f.getDwellTime(w); REQUIRE(near(x, y, 1e-6), "in a cluster filled again walker " << w << " is served " << x << ", in a fresh one with the same seed " << y); b.pickNewSiteId(w); f.pickNewSiteId(w); }
  c.nontrivial(visits > 0);
}
