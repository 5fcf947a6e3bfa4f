#include "pbt.hpp"
#include <deque>
#include <unordered_map>
#include "libmythical/site_container.hpp"
using namespace pbt;
using namespace mythical;
PROPERTY("C15",
  "Generated histories of single and bulk additions (also refused ones, and of sites without rates), updates through the container and through references handed out, and queries of present and absent sites, against a model; "
  "non-trivial = at least three sites stored, an absent site queried, and a held reference re-checked after later additions.",
  {"cluster ids assigned are not negative; after a refused bulk addition only the sites stored before it must be intact"})
struct M { std::map<int, double*> r; int cl = constants::unassignedId; int occ = 0, vis = 0; unsigned long seed = 0; };
static int cl_of(Src& g) { return g.chance(1, 6) ? (int)g.in(0, 2147483647LL) : (int)g.in(0, 9); }
static void site_same(Site& s, int id, const M& m, const char* who) {
  REQUIRE(s.getId() == id, who << " has id " << s.getId() << " expected " << id);
  REQUIRE(s.getClusterId() == m.cl, who << " " << id << " is in cluster " << s.getClusterId() << " expected " << m.cl);
  REQUIRE(s.isOccupied() == (m.occ > 0) && s.getVisitFrequency() == m.vis, who << " " << id << " has wrong occupancy or visits");
  auto nr = s.getNeighborsAndRates(); REQUIRE(nr.size() == m.r.size(), who << " " << id << " has " << nr.size() << " rates expected " << m.r.size());
  for (auto& k : m.r) REQUIRE(nr.count(k.first) && nr.at(k.first) == k.second, who << " " << id << " lost its rate to " << k.first);
}
static void full(Site_Container& b, const std::map<int, M>& m, const std::vector<int>& ids) {
  REQUIRE(b.size() == m.size(), "container has " << b.size() << " sites, expected " << m.size());
  auto l = b.getSiteIds(); std::set<int> ls(l.begin(), l.end()), ms; for (auto& k : m) ms.insert(k.first);
  REQUIRE(l.size() == ls.size() && ls == ms, "ids listed differ from the sites added");
  auto rates = b.getRates(); REQUIRE(rates.size() == m.size(), "rates listed for " << rates.size() << " sites, expected " << m.size());
  auto all = b.getSites(); REQUIRE(all.size() == m.size(), "copies of " << all.size() << " sites, expected " << m.size());
  for (int i : ids) {
    bool has = m.count(i); REQUIRE(b.exist(i) == has, "exist(" << i << ") is " << b.exist(i));
    if (!has) continue;
    const M& q = m.at(i); double sum = 0, fast = 0; for (auto& k : q.r) { sum += *k.second; fast = std::max(fast, *k.second); }
    site_same(b.getSite(i), i, q, "stored site"); REQUIRE(all.count(i), "site " << i << " missing among copies"); site_same(all[i], i, q, "copy of site");
    REQUIRE(b.isOccupied(i) == (q.occ > 0), "isOccupied(" << i << ") is wrong");
    REQUIRE(b.getClusterIdOfSite(i) == q.cl, "cluster of site " << i << " is " << b.getClusterIdOfSite(i) << " expected " << q.cl);
    REQUIRE(b.partOfCluster(i) == (q.cl != constants::unassignedId), "partOfCluster(" << i << ") is " << b.partOfCluster(i));
    REQUIRE(q.r.empty() || near(b.getTimeConstant(i), 1 / sum, 1e-9), "time constant of " << i << " is " << b.getTimeConstant(i) << " expected " << 1 / sum);
    REQUIRE(b.getFastestRateOffSite(i) == fast, "fastest rate off " << i << " is " << b.getFastestRateOffSite(i) << " expected " << fast);
    auto nb = b.getSiteIdsOfNeighbors(i); REQUIRE(nb.size() == q.r.size() && std::set<int>(nb.begin(), nb.end()).size() == nb.size(), "neighbours of " << i << " wrong");
    for (int j : nb) REQUIRE(q.r.count(j), "neighbour " << j << " of " << i << " was never given");
    REQUIRE(rates.count(i) && rates.at(i).size() == q.r.size(), "rates listed for " << i << " wrong");
    for (auto& k : q.r) { REQUIRE(b.getRateToNeighborOfSite(i, k.first) == *k.second, "rate " << i << "->" << k.first << " wrong"); REQUIRE(rates.at(i).count(k.first) && rates.at(i).at(k.first) == k.second, "rates listed for " << i << " lack " << k.first); }
  }
}
SUB(history, 50000, 400000) {
  bool large = g.chance(1, 25); int nid = large ? (int)g.in(10, 60) : (int)g.in(2, 9); auto ids = g.ids(nid + 3); std::deque<double> own; std::map<int, M> m; Site_Container b; std::map<int, Site*> held; bool absent = false, heldcheck = false; int maxsz = 0;
  std::vector<int> use(ids.begin(), ids.begin() + nid);
  auto make = [&](int id, M& q) {
    Site s; s.setId(id); bool drain = g.chance(1, 6); int k = drain ? 0 : (int)g.in(1, 3); c.d << id << "{";
    for (int i = 0; i < k; ++i) { int t = g.pick(ids); if (t == id || q.r.count(t)) continue; own.push_back(g.rate(5)); q.r[t] = &own.back(); }
    if (q.r.empty() && !drain) { own.push_back(1.0); q.r[id == ids[0] ? ids[1] : ids[0]] = &own.back(); }
    for (auto& x : q.r) { s.addNeighRate({x.first, x.second}); c.d << x.first << ":" << *x.second << " "; }
    c.d << "} "; if (g.chance(1, 4)) { s.occupy(); q.occ = 1; q.vis = 1; }
    if (g.chance(1, 5)) { q.cl = cl_of(g); s.setClusterId(q.cl); }
    return s;
  };
  int steps = large ? (int)g.in(30, 150) : (int)g.in(4, 30);
  for (int t = 0; t < steps; ++t) {
    int op = (int)g.below(11), id = g.pick(use);
    if (op < 3) {
      c.d << "add "; M q; Site s = make(id, q);
      if (m.count(id)) MUST_THROW(std::invalid_argument, "adding site " << id << " twice", b.addSite(s)); else { MUST_ACCEPT("adding a new site", b.addSite(s)); m[id] = q; if (g.flip()) s.occupy(); if (g.chance(1, 3)) { c.d << "held "; held[id] = &b.getSite(id); } }
    } else if (op == 3) {
      c.d << "bulk[ "; std::vector<Site> v; std::vector<M> q; std::vector<int> is; bool dup = g.chance(1, 4); int k = (int)g.in(0, 4);
      for (int i = 0; i < k; ++i) { int j = g.pick(use); if (!dup && (m.count(j) || std::count(is.begin(), is.end(), j))) continue; M x; v.push_back(make(j, x)); q.push_back(x); is.push_back(j); }
      c.d << "] "; bool clash = false; std::set<int> seen; for (int j : is) if (m.count(j) || !seen.insert(j).second) clash = true;
      if (clash) {
        MUST_THROW(std::invalid_argument, "bulk addition with a site already present", b.addSites(v));
        for (auto& x : m) { REQUIRE(b.exist(x.first), "refused bulk addition lost a site"); site_same(b.getSite(x.first), x.first, x.second, "after refused bulk, stored site"); }
        for (size_t i = 0; i < is.size(); ++i) if (!m.count(is[i]) && b.exist(is[i])) m[is[i]] = q[i];
      } else { MUST_ACCEPT("bulk addition", b.addSites(v)); for (size_t i = 0; i < is.size(); ++i) m[is[i]] = q[i]; }
    } else if (op == 4) { int cl = cl_of(g); c.d << "cluster " << id << "=" << cl << " "; if (m.count(id)) { b.setClusterId(id, cl); m[id].cl = cl; } else { absent = true; MUST_THROW(std::invalid_argument, "setClusterId of an absent site", b.setClusterId(id, cl)); } }
    else if (op == 5) { c.d << "occupy " << id << " "; if (m.count(id)) { if (g.flip()) b.occupy(id); else b.getSite(id).occupy(); m[id].occ++; m[id].vis++; } else { absent = true; MUST_THROW(std::invalid_argument, "occupy of an absent site", b.occupy(id)); } }
    else if (op == 6) { c.d << "vacate " << id << " "; if (m.count(id)) { if (m[id].occ) { b.vacate(id); m[id].occ--; } } else { absent = true; MUST_THROW(std::invalid_argument, "vacate of an absent site", b.vacate(id)); } }
    else if (op == 7) { c.d << "hold " << id << " "; if (m.count(id)) held[id] = &b.getSite(id); }
    else if (op == 8) {
      std::vector<int> q; int k = (int)g.in(0, 5); bool miss = false; int best = constants::unassignedId; c.d << "smallest(";
      for (int i = 0; i < k; ++i) { int j = g.chance(5, 6) && !m.empty() ? std::next(m.begin(), g.below(m.size()))->first : g.pick(use); q.push_back(j); c.d << j << " "; if (!m.count(j)) miss = true; else if (m[j].cl != constants::unassignedId && (best == constants::unassignedId || m[j].cl < best)) best = m[j].cl; }
      c.d << ") ";
      if (miss) { absent = true; MUST_THROW(std::invalid_argument, "smallest cluster id over an absent site", b.getSmallestClusterId(q)); }
      else { int r = b.getSmallestClusterId(q); REQUIRE(r == best, "smallest cluster id is " << r << " expected " << best); }
      if (miss) MUST_THROW(std::invalid_argument, "copies of a list with an absent site", b.getSites(q));
      else { auto cp = b.getSites(q); std::set<int> u(q.begin(), q.end()); REQUIRE(cp.size() == u.size(), "copies of " << u.size() << " sites gave " << cp.size()); for (int j : u) site_same(cp.at(j), j, m[j], "copy of site"); if (!q.empty()) cp.at(q[0]).occupy(); }
    } else if (op == 9) {
      c.d << "absent? " << id << " ";
      if (!m.count(id)) {
        absent = true; const int which = (int)g.below(9);
        if (which == 0) MUST_THROW(std::invalid_argument, "getSite of an absent site", b.getSite(id));
        if (which == 1) MUST_THROW(std::invalid_argument, "getClusterIdOfSite of an absent site", b.getClusterIdOfSite(id));
        if (which == 2) MUST_THROW(std::invalid_argument, "partOfCluster of an absent site", b.partOfCluster(id));
        if (which == 3) MUST_THROW(std::invalid_argument, "isOccupied of an absent site", b.isOccupied(id));
        if (which == 4) MUST_THROW(std::invalid_argument, "getDwellTime of an absent site", b.getDwellTime(id));
        if (which == 5) MUST_THROW(std::invalid_argument, "getTimeConstant of an absent site", b.getTimeConstant(id));
        if (which == 6) MUST_THROW(std::invalid_argument, "getFastestRateOffSite of an absent site", b.getFastestRateOffSite(id));
        if (which == 7) MUST_THROW(std::invalid_argument, "getRateToNeighborOfSite of an absent site", b.getRateToNeighborOfSite(id, g.pick(ids)));
        if (which == 8) MUST_THROW(std::invalid_argument, "getSiteIdsOfNeighbors of an absent site", b.getSiteIdsOfNeighbors(id));
      } else {
        unsigned long sd = g.seed32(); b.getSite(id).setRandomSeed(sd); Site s; s.setId(id); for (auto& x : m[id].r) s.addNeighRate({x.first, x.second}); s.setRandomSeed(sd);
        for (int i = 0; i < 3; ++i) { double u = b.getDwellTime(id), v = s.getDwellTime(0); REQUIRE(near(u, v, 1e-9), "container draws dwell time " << u << ", the site itself " << v); }
      }
    } else if (m.count(id)) { own.push_back(g.rate(5)); int n2 = g.pick(ids); if (n2 != id) { c.d << "rate " << id << "->" << n2 << " "; Site& s = held.count(id) && g.flip() ? *held[id] : b.getSite(id); s.resetNeighRate({n2, &own.back()}); m[id].r[n2] = &own.back(); } }
    maxsz = std::max<int>(maxsz, (int)m.size());
    for (auto& h : held) { site_same(*h.second, h.first, m[h.first], "held reference to site"); REQUIRE(h.second == &b.getSite(h.first), "held reference no longer is the stored site"); heldcheck = true; }
    if (g.chance(1, 2) || t + 1 == steps) full(b, m, ids);
  }
  c.nontrivial(maxsz >= 3 && absent && heldcheck); c.label_if(absent, "absent site queried"); c.label_if(heldcheck, "reference held");
}
// many sites: each one is found again and is the one that was added
SUB(many_sites, 60, 480) {
  int n = g.flip() ? (int)g.in(200, 1500) : (int)g.in(1500, 20000); auto ids = g.ids(8); long long base = g.sym(-1000000, 1000000), step = g.in(1, 9); double r[3] = {1.0, 2.5, 1e6}; c.d << n << " sites from id " << base << " in steps of " << step;
  Site_Container b; int done = 0; auto id = [&](int i) { return (int)(base + step * i); };
  while (done < n) {
    if (g.chance(1, 3)) { int k = std::min(n - done, (int)g.in(1, 700)); std::vector<Site> v; for (int i = 0; i < k; ++i) { Site s; s.setId(id(done + i)); s.addNeighRate({id(done + i) + 1, &r[(done + i) % 3]}); v.push_back(s); } b.addSites(v); done += k; }
    else { int k = std::min(n - done, (int)g.in(1, 700)); for (int i = 0; i < k; ++i, ++done) { Site s; s.setId(id(done)); s.addNeighRate({id(done) + 1, &r[done % 3]}); b.addSite(s); } }
    REQUIRE((int)b.size() == done, "container has " << b.size() << " sites after " << done << " were added");
  }
  auto l = b.getSiteIds(); std::set<int> ls(l.begin(), l.end()); REQUIRE((int)ls.size() == n && (int)l.size() == n, "ids listed are " << ls.size() << " for " << n << " sites"); c.nontrivial();
  for (int i = 0; i < n; ++i) { REQUIRE(b.exist(id(i)) && ls.count(id(i)), "site " << id(i) << " was lost"); REQUIRE(b.getSite(id(i)).getId() == id(i) && b.getRateToNeighborOfSite(id(i), id(i) + 1) == r[i % 3] && b.getSiteIdsOfNeighbors(id(i)).size() == 1, "site " << id(i) << " has other rates than it was added with"); }
  REQUIRE((int)b.getRates().size() == n && (int)b.getSites().size() == n, "rates or copies listed for another number of sites"); REQUIRE(!b.exist(id(n)), "a site never added exists");
  MUST_THROW(std::invalid_argument, "adding a site twice", { Site s; s.setId(id((int)g.below(n))); b.addSite(s); });
}
