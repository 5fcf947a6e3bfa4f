#include "system.hpp"
PROPERTY("C33",
  "Generated seeded systems are simulated by the same script twice, the second time with all rates multiplied and the time resolution divided by a power of two (2^-60..2^60); sites visited, clusters, resolutions and visit counts must be identical and all times exactly divided by the factor; "
  "non-trivial = at least 30 hops, a factor other than one, and at least one cluster at the end.",
  {"factors are powers of two so that scaling is exact in floating point"})
struct Out { std::vector<double> same, times; size_t clusters = 0; int hops = 0; };
static Out run(const Sys& s, const std::vector<u64>& script, double f) {
  Out o; Rates r = s.rates(); for (auto& x : r) for (auto& y : x.second) y.second *= f; Sys t = s; t.tres /= f; CoarseGrainSystem cg; t.setup(cg, r); std::vector<std::pair<int, WP>> ws; int next = 1;
  auto note = [&](std::pair<int, WP>& w) { o.same.push_back(w.first); o.same.push_back(w.second->getIdOfSiteCurrentlyOccupying()); if (s.drain(s.index(w.second->getIdOfSiteCurrentlyOccupying()))) return; o.same.push_back(w.second->getPotentialSite()); o.times.push_back(w.second->getDwellTime()); };
  auto views = [&] { std::map<std::set<int>, int> m; for (auto& x : cg.getClusters()) m[std::set<int>(x.second.begin(), x.second.end())] = x.first; auto re = cg.getResolutionOfClusters(), in = cg.getTimeIncrementOfClusters(); for (auto& x : m) { o.same.push_back((double)x.first.size()); for (int v : x.first) o.same.push_back(v); o.same.push_back(re[x.second]); o.times.push_back(in[x.second]); } for (int v : s.id) o.same.push_back(cg.getVisitFrequencyOfSite(v)); o.clusters = m.size(); };
  for (u64 e : script) {
    if (ws.empty() || e % 50 == 0) { std::set<int> occ; for (auto& w : ws) occ.insert(w.second->getIdOfSiteCurrentlyOccupying()); std::vector<int> free; for (int i = 0; i < s.n; ++i) if (!occ.count(s.id[i])) free.push_back(s.id[i]); if (free.empty()) continue; std::vector<std::pair<int, WP>> v{{s.wid(next++), WP(new Electron)}}; v[0].second->occupySite(free[e % free.size()]); cg.initializeWalkers(v); note(v[0]); ws.push_back(v[0]); }
    else { size_t q = e % ws.size(); if (e % 50 == 1 || s.drain(s.index(ws[q].second->getIdOfSiteCurrentlyOccupying()))) { cg.removeWalkerFromSystem(ws[q]); ws.erase(ws.begin() + q); } else { cg.hop(ws[q]); ++o.hops; note(ws[q]); } }
    if (e % 37 == 0) views();
  }
  views(); return o;
}
SUB(scaled, 4000, 60000) {
  Sys s = gen_sys(g, 2, 12, 2, !g.chance(1, 8)); s.describe(c.d); int steps = (int)g.in(1, 300), e = (int)g.sym(-60, 60); double f = std::ldexp(1.0, e); c.d << "factor 2^" << e << " "; std::vector<u64> script; for (int i = 0; i < steps; ++i) script.push_back(g.below(1 << 20));
  Out a = run(s, script, 1), b = run(s, script, f);
  for (size_t i = 0; i < std::min(a.same.size(), b.same.size()); ++i) REQUIRE(a.same[i] == b.same[i], "with rates times 2^" << e << " the history differs at entry " << i << ": " << a.same[i] << " became " << b.same[i]);
  REQUIRE(a.same.size() == b.same.size() && a.times.size() == b.times.size(), "histories of different length");
  for (size_t i = 0; i < a.times.size(); ++i) REQUIRE(near(a.times[i], b.times[i] * f, 1e-12), "with rates times 2^" << e << " time " << i << " changes from " << a.times[i] << " to " << b.times[i]);
  c.label_if(a.clusters > 0, "clusters"); c.nontrivial(a.hops >= 30 && e != 0 && a.clusters > 0);
}
