#include "system.hpp"
PROPERTY("C29",
  "Generated orders of set-up calls with valid and invalid arguments, interleaved with a correct set-up; misuse must be refused with the documented error, and the walk afterwards must equal that of a twin with the same seed that only received the correct calls; "
  "non-trivial = at least two kinds of misuse refused and at least 10 hops compared.",
  {"when a list of walkers is refused, the ones in it before the refused one count as placed"})
typedef std::vector<std::pair<int, WP>> WV;
static WV one(int id, int at, bool placed = true) { WV v{{id, WP(new Electron)}}; if (placed) v[0].second->occupySite(at); return v; }
SUB(order_of_setup, 15000, 120000) {
  Sys s = gen_sys(g, 2, 8, 1, g.flip()); s.describe(c.d); Rates r = s.rates(), r2 = s.rates(); CoarseGrainSystem a, b; std::set<int> kinds; bool tset = false, init = false;
  auto unknown = [&] { int x; do x = (int)g.in(-3, 70); while (s.index(x) >= 0); return x; };
  auto misuse = [&](bool walkers_ok) {
    int m = (int)g.below(9); int u = unknown();
    switch (m) {
      case 0: { double t = g.pick(std::vector<double>{0.0, -1.0, -1e-300, -1e300, -0.0, -std::numeric_limits<double>::infinity()}); c.d << "setTimeResolution(" << t << ") "; MUST_THROW(std::invalid_argument, "setTimeResolution(" << t << ")", a.setTimeResolution(t)); if (tset) REQUIRE(a.getTimeResolution() == s.tres, "refused setTimeResolution changed it to " << a.getTimeResolution()); break; }
      case 1: if (tset) return; c.d << "getTimeResolution "; MUST_THROW(std::runtime_error, "getTimeResolution before it was set", a.getTimeResolution()); break;
      case 2: if (tset) return; c.d << "early init "; MUST_THROW(std::runtime_error, "initializeSystem without time resolution", a.initializeSystem(r)); break;
      case 3: if (init) return; { c.d << "early walkers "; WV v = one(1, s.id[g.below(s.n)]); MUST_THROW(std::runtime_error, "initializeWalkers before initializeSystem", a.initializeWalkers(v)); break; }
      case 4: if (!init) return; c.d << "late seed "; MUST_THROW(std::runtime_error, "setRandomSeed after initializeSystem", a.setRandomSeed(g.seed32())); break;
      case 5: if (!init) return; { c.d << "unplaced walker "; WV v = one(77, 0, false); MUST_THROW(std::runtime_error, "initializeWalkers with a walker that is on no site", a.initializeWalkers(v)); break; }
      case 6: if (!init) return; { c.d << "walker on unknown " << u << " "; WV v = one(78, u); MUST_THROW(std::runtime_error, "initializeWalkers on unknown site " << u, a.initializeWalkers(v)); break; }
      case 7: c.d << "cluster of unknown " << u << " "; MUST_THROW(std::invalid_argument, "getClusterIdOfSite of unknown site " << u, a.getClusterIdOfSite(u)); break;
      case 8: c.d << "visits of unknown " << u << " "; MUST_THROW(std::invalid_argument, "getVisitFrequencyOfSite of unknown site " << u, a.getVisitFrequencyOfSite(u)); break;
    }
    kinds.insert(m); (void)walkers_ok;
  };
  auto some = [&] { int n = (int)g.below(4); for (int i = 0; i < n; ++i) misuse(true); };
  some(); a.setRandomSeed(s.seed); some(); bool tr_first = g.flip();
  if (tr_first) { a.setTimeResolution(s.tres); tset = true; some(); a.setMinCoarseGrainIterationThreshold(s.threshold); a.setPerformanceRatio(s.perf); } else { a.setPerformanceRatio(s.perf); some(); a.setMinCoarseGrainIterationThreshold(s.threshold); a.setTimeResolution(s.tres); tset = true; }
  some(); REQUIRE(a.getTimeResolution() == s.tres, "time resolution is " << a.getTimeResolution() << " instead of " << s.tres); a.initializeSystem(r); init = true; some(); s.setup(b, r2);
  for (int x : s.id) { MUST_ACCEPT("visit count of site " << x, REQUIRE(a.getVisitFrequencyOfSite(x) == 0, "a new system has visits")); REQUIRE(a.getClusterIdOfSite(x) == mythical::constants::unassignedId, "a new system has clusters"); }
  // walkers: the same list in both
  int n = (int)g.in(1, std::min(3, s.n)); auto p = g.perm(s.n); WV wa, wb; for (int i = 0; i < n; ++i) { wa.push_back(one(s.wid(i), s.id[p[i]])[0]); wb.push_back(one(s.wid(i), s.id[p[i]])[0]); }
  a.initializeWalkers(wa); b.initializeWalkers(wb); int steps = (int)g.in(1, 60), hops = 0;
  for (int st = 0; st < steps && !wa.empty(); ++st) {
    some(); size_t q = g.below(wa.size());
    REQUIRE(wa[q].second->getIdOfSiteCurrentlyOccupying() == wb[q].second->getIdOfSiteCurrentlyOccupying() && wa[q].second->getPotentialSite() == wb[q].second->getPotentialSite() && wa[q].second->getDwellTime() == wb[q].second->getDwellTime(), "walker " << wa[q].first << " differs from its twin in a system without refused calls");
    if (s.drain(s.index(wa[q].second->getIdOfSiteCurrentlyOccupying()))) { a.removeWalkerFromSystem(wa[q]); b.removeWalkerFromSystem(wb[q]); wa.erase(wa.begin() + q); wb.erase(wb.begin() + q); continue; }
    a.hop(wa[q]); b.hop(wb[q]); ++hops;
  }
  for (int x : s.id) REQUIRE(a.getVisitFrequencyOfSite(x) == b.getVisitFrequencyOfSite(x), "visits of " << x << " differ from those of a system without refused calls");
  REQUIRE(partition(a) == partition(b), "clusters differ from those of a system without refused calls");
  c.nontrivial(kinds.size() >= 2 && hops >= 10);
}
