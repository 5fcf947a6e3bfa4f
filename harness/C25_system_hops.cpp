#include "system.hpp"
PROPERTY("C25",
  "Generated systems (2..14 sites in basins, drains, rates with ties) and histories of hops by several walkers in generated or time order, removals and later placements (walker ids reused or not), with coarse graining off or at thresholds 0..40, against a model of who is where; "
  "non-trivial = at least two walkers, at least 20 hops, at least one blocked hop and one move; the share of cases in which a walker was in a cluster is labelled.",
  {"walkers are placed on free sites with walker ids that are not in use", "rates between non-drain sites exist in both directions", "a walker on a drain has nowhere to go and is removed before it would hop"})
struct W { int wid; WP w; int at, next; };
static std::set<int> reach(const Sys& s, CoarseGrainSystem& cg, int at) {
  std::set<int> r; int i = s.index(at); if (s.drain(i)) { r.insert(-1); return r; }
  int cl = cg.getClusterIdOfSite(at); if (cl == mythical::constants::unassignedId) { for (auto& x : s.k[i]) r.insert(s.id[x.first]); return r; }
  auto all = cg.getClusters(); auto it = all.find(cl); REQUIRE(it != all.end(), "site " << at << " is in cluster " << cl << " that does not exist");
  for (int m : it->second) { r.insert(m); for (auto& x : s.k[s.index(m)]) r.insert(s.id[x.first]); }
  return r;
}
// called before the hop or placement: what may be announced at each site
static void announced(const Sys& s, CoarseGrainSystem& cg, W& w, const std::set<int>& may, const char* when) {
  int at = w.w->getIdOfSiteCurrentlyOccupying(); REQUIRE(at == w.at, "walker " << w.wid << " is on " << at << " after " << when << ", expected " << w.at);
  w.next = w.w->getPotentialSite(); double d = w.w->getDwellTime();
  if (s.drain(s.index(at))) return;
  REQUIRE(may.count(w.next), "walker " << w.wid << " on " << at << " announces site " << w.next << " after " << when << ", which cannot be reached");
  REQUIRE(d > 0 && std::isfinite(d), "walker " << w.wid << " on " << at << " has dwell time " << d << " after " << when);
}
static void history(Src& g, Ctx& c, bool grain, int maxsteps) {
  Sys s = gen_sys(g, 2, 14, 2, grain); s.describe(c.d); Rates r = s.rates(); CoarseGrainSystem cg; s.setup(cg, r);
  std::vector<W> ws; std::map<int, int> occ; int nextid = 1; std::vector<int> freed; int blocked = 0, moved = 0, hops = 0, most = 0; bool incl = false, merged = false; size_t ncl = 0;
  auto place = [&](int count) {
    std::vector<int> free; for (int x : s.id) if (!occ.count(x) && !s.drain(s.index(x))) free.push_back(x);
    std::vector<std::pair<int, WP>> v; std::vector<W> nw;
    for (int q = 0; q < count && !free.empty(); ++q) { size_t p = g.below(free.size()); int at = free[p]; free.erase(free.begin() + p); int wid; if (!freed.empty() && g.flip()) { wid = freed.back(); freed.pop_back(); } else wid = s.wid(nextid++); W w{wid, WP(new Electron), at, 0}; w.w->occupySite(at); c.d << "place " << wid << "@" << at << " "; v.push_back({wid, w.w}); nw.push_back(w); occ[at] = wid; }
    std::vector<std::set<int>> may; for (auto& w : nw) may.push_back(reach(s, cg, w.at));
    cg.initializeWalkers(v); for (size_t q = 0; q < nw.size(); ++q) { announced(s, cg, nw[q], may[q], "placement"); ws.push_back(nw[q]); }
  };
  place((int)g.in(1, std::min(s.n, 6))); bool timed = g.flip(); std::map<int, double> clock; c.d << (timed ? "timed " : "free order ");
  int steps = (int)g.in(1, maxsteps);
  for (int st = 0; st < steps; ++st) {
    most = std::max(most, (int)ws.size()); if (ws.empty()) { place(1); if (ws.empty()) break; }
    size_t q = 0; if (timed) { for (size_t j = 1; j < ws.size(); ++j) if (clock[ws[j].wid] + ws[j].w->getDwellTime() < clock[ws[q].wid] + ws[q].w->getDwellTime()) q = j; } else q = g.below(ws.size());
    W& w = ws[q]; int ev = g.chance(1, 40) ? 1 + (int)g.below(2) : 0; bool dr = s.drain(s.index(w.at));
    if (dr || ev == 1) { c.d << "remove " << w.wid << " "; if (g.flip()) { std::pair<int, WP> pr(w.wid, w.w); cg.removeWalkerFromSystem(pr); } else cg.removeWalkerFromSystem(w.wid, w.w); occ.erase(w.at); clock.erase(w.wid); freed.push_back(w.wid); ws.erase(ws.begin() + q); continue; }
    if (ev == 2) { place(1 + (int)g.below(2)); continue; }
    int from = w.at, to = w.next; bool free = !occ.count(to); auto mayTo = reach(s, cg, free ? to : from); clock[w.wid] += w.w->getDwellTime(); incl = incl || cg.getClusterIdOfSite(from) != mythical::constants::unassignedId;
    if (st < 40) c.d << w.wid << (free ? ":" : ":blocked ") << from << "->" << to << " ";
    if (g.flip()) { std::pair<int, WP> pr(w.wid, w.w); cg.hop(pr); } else cg.hop(w.wid, w.w);
    ++hops; if (free) { ++moved; w.at = to; occ.erase(from); occ[to] = w.wid; } else ++blocked;
    announced(s, cg, w, mayTo, free ? "a hop" : "a blocked hop");
    for (auto& x : ws) REQUIRE(x.w->getIdOfSiteCurrentlyOccupying() == x.at, "walker " << x.wid << " moved without hopping");
    size_t now = cg.getClusters().size(); if (now < ncl) merged = true; ncl = now;
  }
  c.label_if(incl, "walker in a cluster"); c.label_if(merged, "clusters merged"); c.label_if(timed, "time order"); c.label_if(blocked > 0, "blocked");
  c.nontrivial(most >= 2 && hops >= 20 && blocked > 0 && moved > 0);
}
SUB(without_clusters, 1500, 30000) { history(g, c, false, 300); }
SUB(with_clusters, 4000, 80000) { history(g, c, true, 400); }
