#include "cluster.hpp"
#include "system.hpp"
PROPERTY("C27",
  "Generated basins of 2..5 sites with exits to drains; thousands of walkers are simulated one after the other and the exits taken, times to leave, shares of time and visit counts are compared with the exact solution of the master equation (linear solve).  A third generator simulates one walker in each of a thousand systems with different seeds. With clusters the expected value is the range spanned by the exact solutions from every starting site and the quasi-stationary solutions, so the bias allowed shrinks with the separation of time scales. Deviations are judged by Chernoff bounds, those of times without clusters from the exact moment generating function; "
  "non-trivial = without clusters: at least two exits or two sites with different time constants; with clusters: the whole basin became one cluster before the measurement.",
  {"time on the site of arrival during the first increment of a stay in a cluster is not counted in the shares: it is a sampling artefact the time resolution allows", "one walker at a time"})
typedef std::vector<std::vector<double>> Mat;
// expected visits N[s][j] from start s
static Mat fundamental(const Net& t) {
  int n = t.n; Mat a(n, std::vector<double>(2 * n, 0.0));
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) a[i][j] = (i == j) - t.hop(i, j); a[i][n + i] = 1; }
  for (int p = 0; p < n; ++p) { int b = p; for (int i = p; i < n; ++i) if (std::fabs(a[i][p]) > std::fabs(a[b][p])) b = i; std::swap(a[p], a[b]); double d = a[p][p]; for (auto& x : a[p]) x /= d; for (int i = 0; i < n; ++i) if (i != p && a[i][p] != 0) { double f = a[i][p]; for (int j = 0; j < 2 * n; ++j) a[i][j] -= f * a[p][j]; } }
  Mat r(n, std::vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] = a[i][n + j]; return r;
}
struct Range { double lo = 1e300, hi = -1e300; void add(double x) { lo = std::min(lo, x); hi = std::max(hi, x); } double clamp(double x) const { return std::min(hi, std::max(lo, x)); } };
struct Expect { std::map<int, Range> exit, share, visits; Range time; };
static void add(Expect& e, const Net& t, const std::vector<double>& v) {  // v: expected visits per stay
  double T = 0; for (int i = 0; i < t.n; ++i) T += v[i] * t.tau(i); e.time.add(T);
  std::map<int, double> ex; for (int i = 0; i < t.n; ++i) for (auto& x : t.k[i]) if (x.first >= t.n) ex[x.first] += v[i] * t.hop(i, x.first);
  for (auto& x : ex) e.exit[x.first].add(x.second);
  for (int i = 0; i < t.n; ++i) { e.share[i].add(v[i] * t.tau(i) / T); e.visits[i].add(v[i]); }
}
struct Meas { u64 n = 0; std::map<int, u64> exit; std::vector<double> times; std::vector<int> out; std::map<int, std::vector<double>> on; };
static void walk(const Net& t, CoarseGrainSystem& cg, int start, int wid, Meas* m, bool skip_first) {
  std::vector<std::pair<int, WP>> v{{wid, WP(new Electron)}}; v[0].second->occupySite(t.id[start]); cg.initializeWalkers(v); double T = 0; std::map<int, double> on; long hops = 0; bool first = true;
  for (;;) {
    int at = t.index(v[0].second->getIdOfSiteCurrentlyOccupying()); REQUIRE(at >= 0, "walker is on an unknown site");
    if (at >= t.n) { cg.removeWalkerFromSystem(v[0]); if (m) { ++m->n; ++m->exit[at]; m->times.push_back(T); m->out.push_back(at); for (int i = 0; i < t.n; ++i) m->on[i].push_back(on[i]); } return; }
    double d = v[0].second->getDwellTime(); T += d; if (!(first && skip_first)) on[at] += d; first = false; cg.hop(v[0]); REQUIRE(++hops < 3000000, "walker does not leave");
  }
}
// exponent of the Chernoff bound on the sum over n walkers from `start` of the time on the sites with weight 1
static double mgf_exponent(const Net& t, int start, const std::vector<double>& w, double sum, u64 n) {
  Mat N = fundamental(t); double mu = 0, scale = 0; for (int i = 0; i < t.n; ++i) { mu += N[start][i] * t.tau(i) * w[i]; double o = 0; for (int j = 0; j < t.n; ++j) o += N[i][j] * t.tau(j) * w[j]; scale = std::max(scale, o); }
  double best = 0; bool up = sum > mu * n;
  for (int k = -60; k <= 40; ++k) {
    double th = (up ? 1 : -1) * std::pow(2.0, k / 4.0) / scale; if (up && th * scale >= 0.999) break;  // th*scale < 1: the generating function is finite
    int n_ = t.n; std::vector<std::vector<long double>> A(n_, std::vector<long double>(n_ + 1, 0));
    for (int i = 0; i < n_; ++i) { A[i][i] = 1 - th * w[i] * t.tau(i); for (auto& x : t.k[i]) if (x.first < n_) A[i][x.first] -= t.hop(i, x.first); else A[i][n_] += t.hop(i, x.first); }
    for (int i = 0; i < n_; ++i) { int p = i; for (int j = i; j < n_; ++j) if (fabsl(A[j][i]) > fabsl(A[p][i])) p = j; std::swap(A[i], A[p]); for (int j = 0; j < n_; ++j) if (j != i) { long double f = A[j][i] / A[i][i]; for (int q = i; q <= n_; ++q) A[j][q] -= f * A[i][q]; } }
    long double phi = A[start][n_] / A[start][start]; if (!(phi > 0)) continue;
    best = std::max(best, th * sum - (double)n * (double)logl(phi));
  }
  return best;
}
static void compare(const Net& t, const Expect& e, const Meas& m, bool skip_first, int start, double increment) {
  for (auto& x : m.exit) REQUIRE(e.exit.count(x.first), "walker left through " << t.id[x.first] << " which no site leads to");
  for (auto& x : e.exit) { auto it = m.exit.find(x.first); u64 k = it == m.exit.end() ? 0 : it->second; double p = x.second.clamp((double)k / m.n); REQUIRE(binomial_exponent(k, m.n, p) < STAT, "exit " << t.id[x.first] << " was taken by " << k << " of " << m.n << " walkers, expected share " << x.second.lo << ".." << x.second.hi); }
  double mean = 0; for (double x : m.times) mean += x / m.n;
  if (!skip_first) {  // the law of the times is known: Chernoff bounds from its moment generating function
    std::vector<double> w(t.n, 1.0); double x = mgf_exponent(t, start, w, mean * m.n, m.n); REQUIRE(x < STAT, "mean time to leave is " << mean << " for " << m.n << " walkers, expected " << e.time.lo << " (exponent " << x << ")");
    for (int i = 0; i < t.n; ++i) { double si = 0; for (double y : m.on.at(i)) si += y; std::fill(w.begin(), w.end(), 0.0); w[i] = 1; x = mgf_exponent(t, start, w, si, m.n); REQUIRE(x < STAT, "mean time on " << t.id[i] << " is " << si / m.n << " for " << m.n << " walkers, expected " << e.share.at(i).lo * e.time.lo << " (exponent " << x << ")"); }
    return;
  }
  double want = e.time.clamp(mean); REQUIRE(gamma_exponent(mean * m.n, m.n, want) < STAT, "mean time to leave is " << mean << ", expected " << e.time.lo << ".." << e.time.hi);
  // share of time: pieces of at most the increment, each on a site drawn anew; bounded pieces deviate no more than whole ones would
  double tot = 0; for (int i = 0; i < t.n; ++i) for (double x : m.on.at(i)) tot += x; double pieces = tot / increment; if (!(pieces > 1)) return;
  for (int i = 0; i < t.n; ++i) {
    double si = 0; for (double x : m.on.at(i)) si += x; double R = si / tot, q = e.share.at(i).clamp(R), kl = 0; if (R > 0) kl += R * std::log(R / q); if (R < 1) kl += (1 - R) * std::log((1 - R) / (1 - q));
    REQUIRE(!(q > 0 && q < 1) || pieces * kl < STAT, "share of time on " << t.id[i] << " is " << R << " in " << pieces << " pieces, expected " << e.share.at(i).lo << ".." << e.share.at(i).hi);
  }
}
static Rates rates_of(const Net& t) { Rates r; for (int i = 0; i < t.n; ++i) for (auto& x : t.k[i]) r[t.id[i]][t.id[x.first]] = x.second; return r; }
// probability of having left through each exit by time T (uniformisation)
static std::map<int, double> left_by(const Net& t, int start, double T) {
  double L = 0; for (int i = 0; i < t.n; ++i) L = std::max(L, t.sum(i)); std::vector<double> p(t.n, 0.0); p[start] = 1; std::map<int, double> gone, r; double lt = L * T, acc = 0;
  for (int k = 0; k < lt + 12 * std::sqrt(lt) + 60 && acc < 1 - 1e-12; ++k) {
    double w = std::exp(-lt + k * std::log(lt) - std::lgamma(k + 1.0)); acc += w; for (auto& x : gone) r[x.first] += w * x.second;
    std::vector<double> q(t.n, 0.0); for (int i = 0; i < t.n; ++i) { q[i] += p[i] * (1 - t.sum(i) / L); for (auto& x : t.k[i]) if (x.first < t.n) q[x.first] += p[i] * x.second / L; else gone[x.first] += p[i] * x.second / L; } p.swap(q);
  }
  return r;
}
SUB(without_clusters, 3000, 24000) {
  Net t = gen_net(g, 1, 5, g.flip() ? Mild : Equal, false); t.describe(c.d); Mat N = fundamental(t); int start = (int)g.below(t.n); double len = 0; for (double x : N[start]) len += x; if (len > 300) throw Discard();
  Rates r = rates_of(t); CoarseGrainSystem cg; bool seeded = !g.chance(1, 6); unsigned long sd = g.seed32(); if (seeded) cg.setRandomSeed(sd); else c.label("no seed"); cg.setTimeResolution(1); cg.setMinCoarseGrainIterationThreshold(mythical::constants::inf_iterations); cg.initializeSystem(r); Meas m; int n = g.chance(1, 6) ? 8000 : 2000; for (int w = 0; w < n; ++w) walk(t, cg, start, w % 2 ? w % 3 : -w % 5, &m, false);
  Expect e; add(e, t, N[start]); c.d << "start " << t.id[start]; compare(t, e, m, false, start, 0);
  // when and where together, so the times spent on different sites must be independent
  for (double f : {0.1, 0.3, 0.7, 1.0, 1.5, 2.5, 4.0}) {
    double T = f * e.time.lo; if (T <= 0) continue; auto p = left_by(t, start, T); double all = 0; u64 na = 0;
    for (auto& x : e.exit) { u64 k = 0; for (size_t i = 0; i < m.times.size(); ++i) k += m.times[i] <= T && m.out[i] == x.first; double q = std::min(1.0, p[x.first]); all += q; na += k; REQUIRE(binomial_exponent(k, m.n, q) < STAT, k << " of " << m.n << " walkers left through " << t.id[x.first] << " within " << T << ", exact probability " << q); }
    REQUIRE(binomial_exponent(na, m.n, std::min(1.0, all)) < STAT, na << " of " << m.n << " walkers left within " << T << ", exact probability " << all);
  }
  bool diff = false; for (int i = 1; i < t.n; ++i) diff = diff || t.tau(i) != t.tau(0); c.nontrivial(e.exit.size() >= 2 || diff);
}
SUB(with_clusters, 2000, 16000) {
  Net t = gen_net(g, 2, 5, Basin, false); bool equal = g.chance(2, 3); double K = std::pow(10.0, g.real(2, 4)), spread = g.real(0, 0.5);
  for (int i = 0; i < t.n; ++i) for (auto& x : t.k[i]) { if (x.first < t.n) x.second = equal ? K : K * std::pow(10.0, g.real(-spread, spread)); else x.second = std::pow(10.0, g.real(-1, 0)); } t.own_rates(); t.describe(c.d);
  Mem all_; for (int i = 0; i < t.n; ++i) all_.insert(i); std::map<int, double> p; if (reference(t, all_, p, 20000, 1e-13) > 1e-9) throw Discard(); double tau = escape(t, all_, p); double tres = tau * std::pow(10.0, g.real(-1.3, 0.5)); double perf = equal ? 1 : 0.01; int thr = (int)g.in(1, 20); c.d << "tres " << tres << " perf " << perf << " thr " << thr << " ";
  Rates r = rates_of(t); CoarseGrainSystem cg; cg.setRandomSeed(g.seed32()); cg.setTimeResolution(tres); cg.setMinCoarseGrainIterationThreshold(thr); cg.setPerformanceRatio(perf); cg.initializeSystem(r);
  auto full = [&] { auto cl = cg.getClusters(); return cl.size() == 1 && (int)cl.begin()->second.size() == t.n; };
  for (int w = 0; w < 40 && !full(); ++w) walk(t, cg, (int)g.below(t.n), 1, nullptr, false);
  if (!full()) { c.label("basin was not coarse grained"); return; }
  double res = cg.getResolutionOfClusters().begin()->second; c.d << "res " << res << " ";
  std::map<int, int> v0; for (int i = 0; i < t.n; ++i) v0[i] = cg.getVisitFrequencyOfSite(t.id[i]);
  Meas m; int n = g.chance(1, 6) ? 6000 : 1500; for (int w = 0; w < n; ++w) walk(t, cg, w % t.n, w % 2 ? w % 3 : -w % 5, &m, true);
  Expect e; Mat N = fundamental(t); for (int s = 0; s < t.n; ++s) add(e, t, N[s]); std::vector<double> qs(t.n), q3(t.n); double lp = leave_prob(t, all_, p); for (int i = 0; i < t.n; ++i) qs[i] = p[i] / lp; add(e, t, qs);
  std::map<int, double> a; for (int i : all_) a[i] = 1.0 / t.n; for (double er = 1; er > 1e-3;) { auto q = one_hop(t, all_, a); er = 0; for (int i : all_) { double y = 0.5 * (a[i] + q[i]); er += (y - a[i]) * (y - a[i]); a[i] = y; } er = std::sqrt(er); }
  double la = leave_prob(t, all_, a); for (int i = 0; i < t.n; ++i) q3[i] = a[i] / la; add(e, t, q3);
  compare(t, e, m, true, 0, cg.getTimeIncrementOfClusters().begin()->second);
  for (int i = 0; i < t.n; ++i) { double got = ((double)cg.getVisitFrequencyOfSite(t.id[i]) - v0[i]) / n, ex = e.visits[i].clamp(got); REQUIRE(std::fabs(got - ex) <= 8 * ex / std::sqrt((double)n) + 2.0 / n, "visits to " << t.id[i] << " per walker are counted as " << got << ", expected " << e.visits[i].lo << ".." << e.visits[i].hi); }
  c.label("whole basin in a cluster"); c.nontrivial();
}
// One walker in each of many systems: runs with different seeds are independent of each other
SUB(seeds, 160, 1600) {
  bool grain = g.chance(2, 3); Net t = gen_net(g, 2, 4, grain ? Basin : g.flip() ? Mild : Equal, false); double tres = 1, perf = 1; int thr = mythical::constants::inf_iterations, start = (int)g.below(t.n); Mem all_; for (int i = 0; i < t.n; ++i) all_.insert(i); std::map<int, double> p;
  if (grain) {
    double K = std::pow(10.0, g.real(2, 3)); for (int i = 0; i < t.n; ++i) for (auto& x : t.k[i]) x.second = x.first < t.n ? K : std::pow(10.0, g.real(-1, 0)); t.own_rates();
    if (reference(t, all_, p, 20000, 1e-13) > 1e-9) throw Discard(); tres = escape(t, all_, p) * std::pow(10.0, g.real(-1.3, 0.5)); thr = (int)g.in(1, 20);
  }
  Mat N = fundamental(t); if (!grain) { double len = 0; for (double x : N[start]) len += x; if (len > 300) throw Discard(); }
  t.describe(c.d); c.d << "tres " << tres << " thr " << thr << " start " << t.id[start]; std::mt19937_64 seeds(g.seed32()); Rates r = rates_of(t); Meas m; double inc = 0; int n = g.chance(1, 6) ? 3000 : 1000, failed = 0;
  for (int w = 0; w < n; ++w) {
    CoarseGrainSystem cg; cg.setRandomSeed((unsigned long)(seeds() >> 32)); cg.setTimeResolution(tres); cg.setMinCoarseGrainIterationThreshold(thr); cg.setPerformanceRatio(perf); cg.initializeSystem(r);
    if (grain) {
      auto full = [&] { auto cl = cg.getClusters(); return cl.size() == 1 && (int)cl.begin()->second.size() == t.n; };
      for (int q = 0; q < 10 && !full(); ++q) walk(t, cg, (int)(seeds() % t.n), 1, nullptr, false);
      if (!full()) { if (++failed > 20) { c.label("basin was not coarse grained"); return; } continue; }
      inc = std::max(inc, cg.getTimeIncrementOfClusters().begin()->second);
    }
    walk(t, cg, start, 2, &m, grain);
  }
  Expect e; if (!grain) add(e, t, N[start]);
  else {
    for (int s = 0; s < t.n; ++s) add(e, t, N[s]); std::vector<double> qs(t.n); double lp = leave_prob(t, all_, p); for (int i = 0; i < t.n; ++i) qs[i] = p[i] / lp; add(e, t, qs); c.label("whole basin in a cluster");
    std::map<int, double> a; for (int i : all_) a[i] = 1.0 / t.n; for (double er = 1; er > 1e-3;) { auto q = one_hop(t, all_, a); er = 0; for (int i : all_) { double y = 0.5 * (a[i] + q[i]); er += (y - a[i]) * (y - a[i]); a[i] = y; } er = std::sqrt(er); }
    double la = leave_prob(t, all_, a); for (int i = 0; i < t.n; ++i) qs[i] = a[i] / la; add(e, t, qs);
  }
  compare(t, e, m, grain, start, inc); c.nontrivial(e.exit.size() >= 2 || grain);
}
