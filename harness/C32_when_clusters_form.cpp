#include "system.hpp"
PROPERTY("C32",
  "Generated systems, thresholds, performance ratios, time resolutions and hop histories of 1..4 walkers; after every hop the clusters are compared with those a reference model predicts from the rates and the settings (in a third of the cases changed on the way) alone (which hop triggers an attempt, which sites the basin has, whether it is worth it, what is joined), and resolutions and increments with the prescribed ones; "
  "non-trivial = at least one cluster formed and at least one attempt that had to change nothing.",
  {"attempts whose outcome hangs on rates or times equal within 1e-9 (rates within 1%) are accepted either way", "rates between non-drain sites exist in both directions", "at most 500 hops (long_waits: 60000)"})
typedef std::set<std::set<int>> Part;
static Part current(const Sys& s, CoarseGrainSystem& cg) { Part p; for (auto& x : cg.getClusters()) { std::set<int> m; for (int v : x.second) m.insert(s.index(v)); p.insert(m); } return p; }
static std::string show(const Sys& s, const Part& p) { std::ostringstream o; for (auto& m : p) { o << "{"; for (int v : m) o << s.id[v] << " "; o << "}"; } return o.str(); }
// exact: all rates, the time resolution and the ratio are powers of two, so that
// times to cross and (if the sum of the exit rates is one as well) to leave have
// no rounding errors and equality is decided
static bool power2(double x) { int e; return std::frexp(x, &e) == 0.5; }
static void run(Src& g, Ctx& c, Sys s, int maxsteps, bool exact = false, int rare = 0) {
  s.describe(c.d); Rates r = s.rates(); CoarseGrainSystem cg; s.setup(cg, r);
  REQUIRE(cg.getTimeResolution() == s.tres, "time resolution is " << cg.getTimeResolution());
  long it = 0, thr = s.threshold; Part part; int formed = 0, nothing = 0, joined = 0, unsure = 0; std::vector<std::pair<int, WP>> ws; int next = 1, want = (int)g.in(1, std::min(4, s.n)), steps = (int)g.in(1, maxsteps);
  std::map<std::set<int>, double> cross, tres_then; bool change = rare || (!exact && g.below(3) == 0); int changed = 0, tied = 0;
  for (int st = 0; st < steps; ++st) {
    while ((int)ws.size() < want) { std::set<int> occ; for (auto& w : ws) occ.insert(w.second->getIdOfSiteCurrentlyOccupying()); std::vector<int> free; for (int i = 0; i < s.n; ++i) if (!occ.count(s.id[i])) free.push_back(s.id[i]); if (free.empty()) break; std::vector<std::pair<int, WP>> v{{s.wid(next++), WP(new Electron)}}; v[0].second->occupySite(g.pick(free)); cg.initializeWalkers(v); ws.push_back(v[0]); }
    size_t q = g.below(ws.size()); if (s.drain(s.index(ws[q].second->getIdOfSiteCurrentlyOccupying()))) { cg.removeWalkerFromSystem(ws[q]); ws.erase(ws.begin() + q); continue; }
    if (change && g.below(rare ? rare : 20) == 0) switch (++changed, g.below(3)) { // settings apply from the next hop on, a threshold restarts the interval
      case 0: s.threshold = rare ? g.pick(std::vector<int>{40, 700, 2000, 5000, 33000}) : g.pick(std::vector<int>{0, 1, 3, 10, 40}); thr = s.threshold; cg.setMinCoarseGrainIterationThreshold(s.threshold); break;
      case 1: s.perf = g.pick(std::vector<double>{1, 0.2, 0.01, 2, 50}); cg.setPerformanceRatio(s.perf); break;
      default: s.tres = g.pick(std::vector<double>{1, 0.1, 10, 1e-3, 1000}); cg.setTimeResolution(s.tres); REQUIRE(cg.getTimeResolution() == s.tres, "time resolution is " << cg.getTimeResolution() << " after setting " << s.tres); }
    int to = s.index(ws[q].second->getPotentialSite()); cg.hop(ws[q]); Part now = current(s, cg);
    if (!(++it > thr)) { REQUIRE(now == part, "clusters changed from " << show(s, part) << " to " << show(s, now) << " " << it << " hops after the last attempt, next attempt due after " << thr); continue; }
    it = 0; std::set<int> own; for (auto& m : part) if (m.count(to)) own = m;
    BasinOf b = basin_of(s, to, own, 5); bool decided = b.decided, yes = false; Part expect = part; std::set<int> all = b.sites; double T = 0;
    if (decided && !all.empty()) {
      std::set<int> had; for (auto& m : part) for (int v : b.sites) if (m.count(v)) { all.insert(m.begin(), m.end()); }
      bool same = part.count(all) > 0; double out = leave_rate(s, all), tl = out > 0 ? 1 / out : 0; T = cross_time(s, all); double lhs = tl, rhs = 2 * T * s.perf;
      if (all.size() < 2 || same) yes = false;
      else { yes = lhs > rhs && 2 * T < s.tres; bool t1 = near(lhs, rhs, 1e-9), t2 = near(2 * T, s.tres, 1e-9); if ((t1 && !(exact && power2(out) && power2(s.perf))) || (t2 && !exact)) decided = false; else if (t1 || t2) ++tied; }
      if (yes) { for (auto& m : part) if (std::includes(all.begin(), all.end(), m.begin(), m.end())) { expect.erase(m); } expect.insert(all); }
    }
    if (decided) REQUIRE(now == expect, "attempt around " << s.id[to] << " made " << show(s, part) << " into " << show(s, now) << " expected " << show(s, expect)); else ++unsure;
    if (now != part) { ++formed; if (now.size() <= part.size()) ++joined; thr = s.threshold; for (auto& m : now) if (!part.count(m)) { cross[m] = cross_time(s, m); tres_then[m] = s.tres; } } else { ++nothing; thr *= 2; }
    part = now;
    auto cl = cg.getClusters(); auto res = cg.getResolutionOfClusters(); auto inc = cg.getTimeIncrementOfClusters();
    for (auto& x : cl) { std::set<int> m; for (int v : x.second) m.insert(s.index(v)); double R = res[x.first], tau = R * inc[x.first], w = std::max(2.0, std::min(tau / (2 * cross[m]), tau / tres_then[m])); REQUIRE(near(R, w, 1e-9), "cluster of " << m.size() << " sites with time constant " << tau << " has resolution " << R << " expected " << w); }
  }
  c.label_if(joined > 0, "joined or grown"); c.label_if(unsure > 0, "undecided attempt"); c.label_if(formed > 0, "formed"); c.label_if(tied > 0, "exactly at a limit"); c.label_if(changed > 0 && formed > 0, "settings changed on the way"); c.nontrivial(formed > 0 && nothing > 0);
}
SUB(reference, 3000, 60000) { Sys s = gen_sys(g, 2, 14, 2, true); run(g, c, s, 300); }
// slow networks where conditions sit near their limits
SUB(limits, 3000, 60000) {
  Sys s = gen_sys(g, 2, 8, 1, true); s.threshold = g.pick(std::vector<int>{0, 1, 2, 5}); std::set<int> st; int a = (int)g.below(s.n);
  double f = 0; for (auto& x : s.k[a]) f = std::max(f, x.second); auto m = over_rates(s, a, f); double T = cross_time(s, m), out = leave_rate(s, m);
  if (std::isfinite(T) && T > 0 && out > 0) { double e = g.pick(std::vector<double>{0.5, 0.9, 1.1, 2, 1.01, 0.99}); if (g.flip()) s.tres = 2 * T * e; else { s.perf = 1 / out / (2 * T) * e; if (g.flip()) s.tres = 100 * T; } }
  run(g, c, s, 200);
}
// exactly at the limits
SUB(exact_limits, 3000, 60000) {
  Sys s = gen_sys(g, 2, 6, 1, true); s.threshold = g.pick(std::vector<int>{0, 1, 2, 5});
  for (auto& k : s.k) for (auto& x : k) x.second = std::exp2(std::round(std::log2(x.second)));
  std::set<int> st; int a = (int)g.below(s.n); double f = 0; for (auto& x : s.k[a]) f = std::max(f, x.second); auto m = over_rates(s, a, f); double T = cross_time(s, m), out = leave_rate(s, m);
  s.perf = std::exp2((double)g.in(-6, 1)); s.tres = std::exp2((double)g.in(-10, 10));
  if (std::isfinite(T) && T > 0 && out > 0) { if (g.flip()) s.tres = 2 * T; else { s.tres = 1024 * T; double p = 1 / out / (2 * T); if (power2(p)) s.perf = p; } }
  run(g, c, s, 200, true);
}
// thousands of hops between attempts
SUB(long_waits, 80, 1600) {
  Sys s = gen_sys(g, 2, 5, 0, true); s.threshold = g.pick(std::vector<int>{1, 100, 700, 5000}); s.perf = 1e6; s.tres = 1000; run(g, c, s, 60000, false, 5000);
}
// more hops than an int counts: basins nothing leaves are never coarse grained
SUB(very_many_hops, 0, 4) {
  arm(7200); bool off = g.below(2) == 1; Sys s; s.n = 3; s.id = {1, 2, 3}; s.k = {{{1, 1.0}}, {{0, 1.0}, {2, 1.0}}, {{1, 1.0}}}; s.threshold = off ? mythical::constants::inf_iterations : 1 << 30; s.describe(c.d);
  Rates r = s.rates(); CoarseGrainSystem cg; s.setup(cg, r); std::vector<std::pair<int, WP>> w{{1, WP(new Electron)}}; w[0].second->occupySite(1); cg.initializeWalkers(w);
  long hops = (1L << (off ? 31 : 30)) + 1000; for (long i = 0; i < hops; ++i) cg.hop(w[0]);
  REQUIRE(current(s, cg).empty(), "a cluster formed"); c.label(off ? "off" : "threshold 2^30"); c.nontrivial(true);
}
