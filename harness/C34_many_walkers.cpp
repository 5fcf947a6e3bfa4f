#include "system.hpp"
#include "lattice.hpp"
#include "mythical/charge_transport/marcus.hpp"
#include "mythical/queue.hpp"
PROPERTY("C34",
  "Generated systems of 2..6 sites (and drains, where walkers are removed) with 1..3 walkers that exclude each other, run thousands of times from the same start to a fixed time with the library's own queue; the distribution of all walkers' sites is compared with the exact transient solution of the joint master equation (uniformisation); rates are generated directly or built from a lattice and Marcus rates as in the time-of-flight example; frequencies are judged by Chernoff bounds (false alarm < 1e-11 per comparison); "
  "non-trivial = at least two walkers, with a state expected to be reached by a blocked-and-retried path (some walker adjacent to another at the start), or two sites with different rates.",
  {"coarse graining is off: with it the dynamics are approximate (C27)", "sampling bound: differences of about 2% in a probability of one half are seen in a case of 20000 runs"})
typedef std::vector<int> State;  // index of each walker's site, -1 when it has left through a drain
static std::map<State, double> exact(const Sys& s, const State& start, double t) {
  std::map<State, std::map<State, double>> q; std::vector<State> todo{start}; q[start];
  while (!todo.empty()) {
    State x = todo.back(); todo.pop_back();
    for (size_t w = 0; w < x.size(); ++w) if (x[w] >= 0) for (auto& k : s.k[x[w]]) {
      State y = x; if (s.drain(k.first)) y[w] = -1; else { if (std::find(x.begin(), x.end(), k.first) != x.end()) continue; y[w] = k.first; }
      q[x][y] += k.second; if (!q.count(y)) { q[y]; todo.push_back(y); }
    }
  }
  double L = 0; for (auto& x : q) { double o = 0; for (auto& y : x.second) o += y.second; L = std::max(L, o); }
  std::map<State, double> p, r; p[start] = 1; double lt = L * t, wgt = std::exp(-lt), acc = 0;
  for (int k = 0; k < 4000 && acc < 1 - 1e-13; ++k) {
    for (auto& x : p) r[x.first] += wgt * x.second; acc += wgt; wgt *= lt / (k + 1);
    std::map<State, double> n; for (auto& x : p) { double o = 0; for (auto& y : q[x.first]) { n[y.first] += x.second * y.second / L; o += y.second; } n[x.first] += x.second * (1 - o / L); } p.swap(n);
  }
  return r;
}
static void measure(Src& g, Ctx& c, const Sys& s, const State& start, double t, int runs) {
  Rates r = s.rates(); CoarseGrainSystem cg; if (!g.chance(1, 6)) cg.setRandomSeed(s.seed); else c.label("no seed"); cg.setTimeResolution(1); cg.setMinCoarseGrainIterationThreshold(mythical::constants::inf_iterations); cg.initializeSystem(r);
  std::map<State, u64> cnt; int m = (int)start.size();
  for (int n = 0; n < runs; ++n) {
    std::vector<std::pair<int, WP>> ws; for (int w = 0; w < m; ++w) { ws.push_back({w, WP(new Electron)}); ws[w].second->occupySite(s.id[start[w]]); } cg.initializeWalkers(ws);
    mythical::Queue que; for (auto& w : ws) que.add({w.first, w.second->getDwellTime()}); que.sort(); State end = start;
    while (que.size() && que.at(0).second <= t) {
      auto e = que.pop_current(); auto& w = ws[e.first]; cg.hop(w); int at = s.index(w.second->getIdOfSiteCurrentlyOccupying()); end[e.first] = at;
      if (s.drain(at)) { cg.removeWalkerFromSystem(w); end[e.first] = -1; continue; }
      que.sortedAdd({e.first, e.second + w.second->getDwellTime()});
    }
    for (int w = 0; w < m; ++w) if (end[w] >= 0) cg.removeWalkerFromSystem(ws[w]);
    cnt[end]++;
  }
  auto p = exact(s, start, t); auto text = [&](const State& x) { std::ostringstream o; for (int v : x) { if (v < 0) o << "left "; else o << s.id[v] << " "; } return o.str(); };
  for (auto& x : cnt) REQUIRE(p.count(x.first), "walkers reached " << text(x.first) << "which is impossible");
  for (auto& x : p) REQUIRE(binomial_exponent(cnt[x.first], runs, std::min(1.0, x.second)) < STAT, "walkers were on " << text(x.first) << "in " << cnt[x.first] << " of " << runs << " runs, exact probability " << x.second);
  std::map<std::pair<int, int>, std::pair<u64, double>> mg; for (auto& x : cnt) for (int w = 0; w < m; ++w) mg[{w, x.first[w]}].first += x.second; for (auto& x : p) for (int w = 0; w < m; ++w) mg[{w, x.first[w]}].second += x.second;
  for (auto& x : mg) REQUIRE(binomial_exponent(x.second.first, runs, std::min(1.0, x.second.second)) < STAT, "walker " << x.first.first << " was " << (x.first.second < 0 ? std::string("gone") : "on " + std::to_string(s.id[x.first.second])) << " in " << x.second.first << " of " << runs << " runs, exact probability " << x.second.second);
}
static int placed(Src& g, Ctx& c, const Sys& s, State& start) {
  int m = (int)g.in(1, std::min(3, s.n)); auto p = g.perm(s.n); start.clear(); for (int i = 0; i < m; ++i) start.push_back(p[i]); c.d << "start"; for (int v : start) c.d << " " << s.id[v]; c.d << " ";
  int adj = 0; for (int i : start) for (int j : start) if (i != j && s.k[i].count(j)) ++adj; c.label_if(adj > 0, "walkers next to each other"); return adj;
}
SUB(rates, 720, 5760) {
  Sys s = gen_sys(g, 2, 6, 2, false); for (auto& x : s.k) for (auto& y : x) y.second = g.chance(1, 3) ? 1.0 : std::pow(10.0, g.real(-0.7, 0.7)); s.describe(c.d); State start; int adj = placed(g, c, s, start);
  double t = std::pow(10.0, g.real(-0.7, 0.7)); int runs = g.chance(1, 4) ? 20000 : 6000; c.d << "until " << t << " runs " << runs; measure(g, c, s, start, t, runs); c.nontrivial(adj > 0 || s.n > 2);
}
SUB(lattice_marcus, 480, 3840) {
  Spec l = gen_spec(g, 6, 6); if (l.total() < 2) throw Discard(); l.describe(c.d); Cuboid box = l.make(); double lam = g.real(0.1, 1), T = g.real(200, 500), J0 = 0.01, alpha = g.real(0.5, 2) / l.a; mythical::charge_transport::Marcus mar(lam, T);
  int n = (int)l.total(); std::vector<double> E; for (int i = 0; i < n; ++i) E.push_back(g.real(-0.05, 0.05)); double cut = 1.5 * l.a; auto table = box.getNeighborDistances(cut);
  const double kB = 8.617333262e-5, hbar = 6.582119569e-16, pi = 3.14159265358979323846; Sys s; s.n = n; s.k.resize(n); for (int i = 0; i < n; ++i) s.id.push_back(i); s.seed = g.seed32(); double fast = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && l.dist(i, j) < cut) {
    double H = J0 * std::exp(-alpha * l.dist(i, j)), e = lam + E[j] - E[i], k = 2 * pi / hbar * H * H / std::sqrt(4 * pi * lam * kB * T) * std::exp(-e * e / (4 * lam * kB * T)); REQUIRE(table[i].count(j), "lattice lists no neighbour " << j << " of " << i);
    double lib = mar.getRate(E[i], E[j], J0 * std::exp(-alpha * table[i][j])); REQUIRE(near(lib, k, 1e-6), "rate " << i << "->" << j << " is " << lib << " expected " << k); s.k[i][j] = lib; fast = std::max(fast, k);
  }
  State start; int adj = placed(g, c, s, start); double t = std::pow(10.0, g.real(-0.5, 0.7)) / fast; int runs = g.chance(1, 4) ? 20000 : 6000; c.d << " until " << t << " runs " << runs; measure(g, c, s, start, t, runs); c.nontrivial(adj > 0 || n > 2);
}
