// Generator and reference model for clusters (C16..C24).
#pragma once
#include "pbt.hpp"
#include <deque>
#include <memory>
#include <unordered_map>
#include "libmythical/topologyfeatures/site.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
using namespace pbt;
using mythical::Cluster;
using mythical::Site;

// A network: `n` member candidates (indices 0..n-1) and outside sites, with
// rates owned here.  Internal relations are symmetric, the member graph is
// connected and at least one member has a rate to an outside site.
struct Net {
  int n = 0;
  std::vector<int> id;                 // ids of members, then of outside sites
  std::vector<std::map<int, double>> k;  // k[i][j] rate from member i to node j (index)
  std::shared_ptr<std::deque<std::unordered_map<int, double>>> own;  // rates as handed to the library
  std::vector<std::unordered_map<int, double>*> rates;

  void own_rates() {
    own = std::make_shared<std::deque<std::unordered_map<int, double>>>(); rates.clear();
    for (int i = 0; i < n; ++i) { own->emplace_back(); for (auto& x : k[i]) own->back()[id[x.first]] = x.second; rates.push_back(&own->back()); }
  }
  Site site(int i) const { Site s; s.setId(id[i]); s.setRatesToNeighbors(*rates[i]); return s; }
  // change a rate in place (the library holds a pointer to it)
  void set_rate(int i, int j, double v) { k[i][j] = v; (*rates[i])[id[j]] = v; }
  int index(int sid) const { for (size_t i = 0; i < id.size(); ++i) if (id[i] == sid) return (int)i; return -1; }
  double sum(int i) const { double s = 0; for (auto& x : k[i]) s += x.second; return s; }
  double tau(int i) const { return 1 / sum(i); }
  double hop(int i, int j) const { auto it = k[i].find(j); return it == k[i].end() ? 0 : it->second / sum(i); }
  void describe(std::ostream& os) const {
    for (int i = 0; i < n; ++i) { os << id[i] << "{"; for (auto& x : k[i]) os << (x.first < n ? "" : "out ") << id[x.first] << ":" << x.second << " "; os << "} "; }
  }
};
// changes rates of member i in place: one of them, two exchanged (their sum
// stays), all of them by one factor (their ratios stay), two moved against each
// other, or all rates of all members by one factor
inline std::string alter(Src& g, Net& t, int i, double decades) {
  std::ostringstream o; int op = (int)g.below(8); auto pick = [&](int a) { auto it = t.k[a].begin(); std::advance(it, g.below(t.k[a].size())); return it->first; };
  auto set = [&](int a, int j, double r) { o << "rate " << t.id[a] << "->" << t.id[j] << "=" << r << " "; t.set_rate(a, j, r); };
  if (op == 5) { int x = pick(i), y = pick(i); double rx = t.k[i][x], ry = t.k[i][y]; set(i, x, ry); set(i, y, rx); return o.str(); }
  double f = g.logreal(-decades, decades);
  if (op == 6) { std::vector<int> js; for (auto& x : t.k[i]) js.push_back(x.first); for (int j : js) set(i, j, t.k[i][j] * f); }
  else if (op == 7) { o << "all rates times " << f << " "; for (int a = 0; a < t.n; ++a) { std::vector<int> js; for (auto& x : t.k[a]) js.push_back(x.first); for (int j : js) t.set_rate(a, j, t.k[a][j] * f); } }
  else { int j = pick(i); set(i, j, t.k[i][j] * f); }
  return o.str();
}
// member subset view used by the oracle
typedef std::set<int> Mem;
inline bool in(const Mem& m, int j) { return m.count(j) > 0; }
// one hop conditioned on staying in: normalised p P
inline std::map<int, double> one_hop(const Net& t, const Mem& m, const std::map<int, double>& p) {
  std::map<int, double> q; double tot = 0; for (int i : m) q[i] = 0;
  for (int i : m) for (auto& x : t.k[i]) if (in(m, x.first)) { double v = p.at(i) * t.hop(i, x.first); q[x.first] += v; tot += v; }
  for (auto& x : q) x.second /= tot;
  return q;
}
inline double residual(const Net& t, const Mem& m, const std::map<int, double>& p) {
  auto q = one_hop(t, m, p); double r = 0; for (int i : m) r = std::max(r, std::fabs(q[i] - p.at(i))); return r;
}
// reference solution by the damped map; returns achieved residual
inline double reference(const Net& t, const Mem& m, std::map<int, double>& p, int iters = 4000, double stop = 1e-15, int* used = nullptr) {
  p.clear(); for (int i : m) p[i] = 1.0 / m.size();
  double r = 1;
  for (int it = 0; it < iters; ++it) { auto q = one_hop(t, m, p); r = 0; for (int i : m) { r = std::max(r, std::fabs(q[i] - p[i])); p[i] = 0.5 * (p[i] + q[i]); } if (used) *used = it + 1; if (r < stop) break; }
  return r;
}
inline std::map<int, double> reported(const Net& t, const Mem& m, Cluster& c) {
  std::map<int, double> p; for (int i : m) p[i] = c.getProbabilityOfOccupyingInternalSite(t.id[i]); return p;
}
inline std::map<int, double> exits(const Net& t, const Mem& m, const std::map<int, double>& p) {
  std::map<int, double> e; double tot = 0;
  for (int i : m) for (auto& x : t.k[i]) if (!in(m, x.first)) { double v = p.at(i) * t.hop(i, x.first); e[x.first] += v; tot += v; }
  for (auto& x : e) x.second /= tot;
  return e;
}
inline double visit_time(const Net& t, const Mem& m, const std::map<int, double>& p) { double s = 0; for (int i : m) s += p.at(i) * t.tau(i); return s; }
inline double leave_prob(const Net& t, const Mem& m, const std::map<int, double>& p) {
  double s = 0; for (int i : m) for (auto& x : t.k[i]) if (!in(m, x.first)) s += p.at(i) * t.hop(i, x.first); return s;
}
inline double escape(const Net& t, const Mem& m, const std::map<int, double>& p) { return visit_time(t, m, p) / leave_prob(t, m, p); }

enum RateStyle { Equal, Mild, Wide, Basin };
inline Net gen_net(Src& g, int lo, int hi, int style = -1, bool big = true) {
  const bool leafy = false;
  Net t; t.n = (int)g.in(lo, hi); int m = (int)g.in(1, 5); if (hi >= 7 && g.chance(1, 12)) { t.n = (int)g.in(hi, 18); m = (int)g.in(1, 10); } else if (big && hi >= 4 && g.chance(1, 30)) { t.n = (int)g.in(hi, 24); m = (int)g.in(1, 40); } t.id = g.ids(t.n + m); t.k.resize(t.n);
  if (style < 0) style = (int)g.below(4);
  const bool close = g.chance(1, 12); const double tie = close ? g.logreal(-2, 2) : 1;  // rates that differ by very little
  auto rate = [&](bool internal) -> double {
    if (close && g.flip()) return tie * (1 + (double)g.sym(-3, 3) * std::pow(10.0, -(double)g.in(4, 12)));
    switch (style) {
      case Equal: return 1.0;
      case Mild: return g.flip() ? (double)g.in(1, 9) : std::pow(10.0, g.real(-0.7, 0.7));
      case Wide: return g.rate(4);
      default: return internal ? std::pow(10.0, g.real(2, 4)) : std::pow(10.0, g.real(-2, 0));
    }
  };
  for (int i = 1; i < t.n; ++i) { int j = (leafy && g.flip()) ? i - 1 : (int)g.below(i); t.k[i][j] = rate(true); t.k[j][i] = rate(true); }
  int extra = (int)g.in(0, t.n);
  for (int e = 0; e < extra; ++e) { int i = (int)g.below(t.n), j = (int)g.below(t.n); if (i != j && !t.k[i].count(j)) { t.k[i][j] = rate(true); t.k[j][i] = rate(true); } }
  for (int e = 0; e < m; ++e) { int i = (int)g.below(t.n); t.k[i][t.n + e] = rate(false); }
  int more = (int)g.in(0, 3);
  for (int e = 0; e < more; ++e) { int i = (int)g.below(t.n), j = t.n + (int)g.below(m); if (!t.k[i].count(j)) t.k[i][j] = rate(false); }
  t.own_rates();
  return t;
}
inline Mem all(const Net& t) { Mem m; for (int i = 0; i < t.n; ++i) m.insert(i); return m; }
// settings: fixed number of iterations (exactly comparable between clusters)
struct Conv { int method = 0; long it = 1; double tol = 0.01; };
inline void apply(Cluster& c, const Conv& v) {
  if (v.method == 0) { c.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); c.setConvergenceIterations(v.it); }
  else if (v.method == 1) { c.setConvergenceMethod(Cluster::converge_by_iterations_per_site); c.setConvergenceIterations(v.it); }
  else { c.setConvergenceMethod(Cluster::converge_by_tolerance); c.setConvergenceTolerance(v.tol); }
}
inline Conv gen_iter(Src& g) { Conv v; v.method = (int)g.below(2); v.it = v.method ? g.pick(std::vector<long>{1, 3, 10, 40}) : g.pick(std::vector<long>{1, 7, 30, 150}); return v; }
inline void show(Ctx& c, const Conv& v) { if (v.method == 0) c.d << "iter/cluster " << v.it << " "; else if (v.method == 1) c.d << "iter/site " << v.it << " "; else c.d << "tol " << v.tol << " "; }
inline void build(Cluster& c, const Net& t, const std::vector<int>& order) { for (int i : order) { Site s = t.site(i); c.addSite(s); } }
inline std::vector<int> iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
