#include "system.hpp"
#include "libmythical/basin_explorer.hpp"
using namespace mythical;
PROPERTY("C30",
  "Generated networks (2..14 sites, basins, ties, drains; some sites in clusters), starting sites and size limits; the sites found are compared with those reachable over rates at least as fast as the fastest one off the start (or off its cluster), by an independent search; "
  "non-trivial = the basin has at least three sites, or it is refused for its size, or the start is in a cluster.",
  {"rates between 0.99 and 1 times the reference rate are not decided", "default rate threshold", "rates between non-drain sites exist in both directions"})
SUB(basin, 80000, 700000) {
  Sys s = gen_sys(g, 2, 14, 2, true); s.describe(c.d); Rates r = s.rates(); Site_Container box; Cluster_Container cls;
  std::vector<std::set<int>> groups; std::map<int, int> member;  // index -> group
  if (g.chance(1, 2)) {  // some connected clusters with a way out
    int want = (int)g.in(1, 2);
    for (int q = 0; q < want; ++q) {
      int st = (int)g.below(s.n); if (member.count(st)) continue; std::set<int> m{st}; size_t size = (size_t)g.in(2, 4); std::vector<int> fr{st};
      while (m.size() < size && !fr.empty()) { int v = fr.back(); fr.pop_back(); for (auto& x : s.k[v]) if (!s.drain(x.first) && !member.count(x.first) && m.size() < size && m.insert(x.first).second) fr.push_back(x.first); }
      if (m.size() < 2 || leave_rate(s, m) == 0) continue; for (int v : m) member[v] = (int)groups.size(); groups.push_back(m);
    }
  }
  auto order = g.perm(s.n + s.nd); std::vector<int> cid;
  for (auto& m : groups) { std::vector<Site> v; c.d << "cluster{"; for (int i : m) { Site x; x.setId(s.id[i]); x.setRatesToNeighbors(r[s.id[i]]); v.push_back(x); c.d << s.id[i] << " "; } c.d << "} "; Cluster cl; cl.addSites(v); cl.updateProbabilitiesAndTimeConstant(); cls.addCluster(cl); cid.push_back(cl.getId()); }
  for (int i : order) { Site x; x.setId(s.id[i]); if (!s.drain(i)) x.setRatesToNeighbors(r[s.id[i]]); box.addSite(x); if (member.count(i)) box.setClusterId(s.id[i], cid[member[i]]); }
  size_t limit = 5; BasinExplorer ex; if (g.flip()) { limit = (size_t)g.in(1, 15); ex.setMaxExplorationCount((int)limit); }
  int rounds = (int)g.in(1, 3); bool nt = false;
  for (int q = 0; q < rounds; ++q) {
    int st = (int)g.below(s.n + s.nd); c.d << "from " << s.id[st] << " limit " << limit << " ";
    std::vector<int> got; MUST_ACCEPT("basin of " << s.id[st], got = ex.findBasin(box, cls, s.id[st])); std::set<int> gs(got.begin(), got.end());
    REQUIRE(gs.size() == got.size(), "a site is listed twice in a basin of " << got.size());
    REQUIRE(box.size() == (size_t)(s.n + s.nd) && cls.size() == groups.size(), "the search changed the number of sites or clusters");
    BasinOf b = basin_of(s, st, member.count(st) ? groups[member[st]] : std::set<int>(), limit); if (!b.decided) { c.label("near ties"); continue; }
    std::set<int> want; for (int i : b.sites) want.insert(s.id[i]);
    std::ostringstream o; for (int v : gs) o << v << " "; o << "expected"; for (int v : want) o << " " << v;
    REQUIRE(gs == want, "basin of " << s.id[st] << " is " << o.str());
    nt = nt || want.empty() || want.size() >= 3 || member.count(st); c.label_if(want.empty(), "too large"); c.label_if(want.size() >= 3, "three or more sites"); c.label_if(member.count(st) > 0, "start in a cluster");
  }
  c.nontrivial(nt);
}
