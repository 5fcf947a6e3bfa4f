#include "system.hpp"
PROPERTY("C26",
  "Generated seeded systems are simulated twice in one process by the same generated script (placements, hops in a generated order, removals), with unrelated allocations and an unrelated simulation in between; the traces of sites, announced sites, dwell times, visit counts and clusters (by members) must be equal; "
  "non-trivial = at least 50 hops and at least one cluster at the end.",
  {"the rates are handed over in a map built by the same insertions", "clusters are compared by members because their ids are unique within a process"})
struct Ev { int what; u64 a; };  // 0 hop walker a, 1 remove walker a, 2 place at free site a
static std::string run(const Sys& s, const std::vector<Ev>& script, std::vector<double>& trace, int* hops, size_t* clusters) {
  Rates r = s.rates(); CoarseGrainSystem cg; s.setup(cg, r); std::vector<std::pair<int, WP>> ws; int next = 1; *hops = 0; trace.clear();
  auto note = [&](std::pair<int, WP>& w) { trace.push_back(w.first); trace.push_back(w.second->getIdOfSiteCurrentlyOccupying()); trace.push_back(w.second->getPotentialSite()); trace.push_back(w.second->getDwellTime()); };
  for (auto& e : script) {
    if (e.what == 2 || ws.empty()) {
      std::set<int> occ; for (auto& w : ws) occ.insert(w.second->getIdOfSiteCurrentlyOccupying()); std::vector<int> free; for (int i = 0; i < s.n; ++i) if (!occ.count(s.id[i])) free.push_back(s.id[i]); if (free.empty()) continue;
      std::vector<std::pair<int, WP>> v{{s.wid(next++), WP(new Electron)}}; v[0].second->occupySite(free[e.a % free.size()]); cg.initializeWalkers(v); note(v[0]); ws.push_back(v[0]);
    } else {
      size_t q = e.a % ws.size(); bool dr = s.drain(s.index(ws[q].second->getIdOfSiteCurrentlyOccupying()));
      if (e.what == 1 || dr) { cg.removeWalkerFromSystem(ws[q]); ws.erase(ws.begin() + q); }
      else { cg.hop(ws[q]); ++*hops; note(ws[q]); }
    }
    if ((e.a & 63) == 0) for (auto& p : partition(cg)) for (int x : p) trace.push_back(x);
  }
  std::ostringstream o; for (auto& p : partition(cg)) { o << "{"; for (int x : p) o << x << " "; o << "}"; } for (int x : s.id) o << " " << x << ":" << cg.getVisitFrequencyOfSite(x);
  *clusters = cg.getClusters().size(); return o.str();
}
SUB(twice, 4000, 60000) {
  Sys s = gen_sys(g, 2, 12, 2, !g.chance(1, 8)); s.describe(c.d); int steps = (int)g.in(1, 300); std::vector<Ev> script; int first = (int)g.in(1, 4); for (int i = 0; i < first; ++i) script.push_back({2, g.below(1 << 16)});
  for (int i = 0; i < steps; ++i) { u64 w = g.below(60); script.push_back({w >= 59 ? 1 : w >= 57 ? 2 : 0, g.below(1 << 16)}); }
  std::vector<double> a, b; int h; size_t nc; std::string x = run(s, script, a, &h, &nc);
  // disturb the heap and the process: keep holes of generated sizes alive, and simulate something else
  std::vector<std::unique_ptr<char[]>> junk; int nj = (int)g.in(0, 60); for (int i = 0; i < nj; ++i) { size_t n = (size_t)g.pick(std::vector<int>{16, 24, 32, 48, 64, 80, 96, 112, 256, 2600}); std::unique_ptr<char[]> m(new char[n]); if (g.flip()) junk.push_back(std::move(m)); }
  if (g.flip()) { Sys o = gen_sys(g, 2, 6, 1, true); std::vector<Ev> sc{{2, 0}}; for (int i = 0; i < 60; ++i) sc.push_back({0, 1}); std::vector<double> t; int hh; size_t cc; run(o, sc, t, &hh, &cc); c.label("other simulation in between"); }
  size_t nc2; std::string y = run(s, script, b, &h, &nc2);
  size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) REQUIRE(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]), "repeated run differs at trace position " << i << ": " << a[i] << " then " << b[i]);
  REQUIRE(a.size() == b.size(), "repeated run is " << b.size() << " long instead of " << a.size()); REQUIRE(x == y, "clusters or visit counts of the repeated run differ: " << x << " then " << y);
  c.label_if(nc > 0, "clusters"); c.label_if(nc > 1, "several clusters"); c.nontrivial(h >= 50 && nc > 0);
}
