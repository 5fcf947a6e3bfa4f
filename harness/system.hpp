// Generator and helpers for whole-system checks (C25..C29).
#pragma once
#include "pbt.hpp"
#include <memory>
#include <unordered_map>
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/walker.hpp"
using namespace pbt;
using mythical::CoarseGrainSystem;
using mythical::Walker;
typedef std::unordered_map<int, std::unordered_map<int, double>> Rates;
struct Electron : public Walker {};
typedef std::shared_ptr<Walker> WP;

// A system of n sites (relations between them symmetric, connected) and drains
// (sites without rates of their own).
struct Sys {
  int n = 0, nd = 0; std::vector<int> id;  // sites then drains
  std::vector<std::map<int, double>> k;    // by index
  double tres = 1; int threshold = 10; double perf = 1; unsigned long seed = 1; int w0 = 0, ws = 1;
  int wid(int k) const { return w0 + ws * k; }  // id of the k-th walker
  Rates rates() const {  // always built by the same sequence of insertions
    Rates r; for (int i = 0; i < n; ++i) for (auto& x : k[i]) r[id[i]][id[x.first]] = x.second; return r;
  }
  int index(int s) const { for (size_t i = 0; i < id.size(); ++i) if (id[i] == s) return (int)i; return -1; }
  bool drain(int i) const { return i >= n; }
  void describe(std::ostream& os) const {
    os << "tres " << tres << " thr " << threshold << " perf " << perf << " seed " << seed << " walker ids " << w0 << "+" << ws << "k ";
    for (int i = 0; i < n; ++i) { os << id[i] << "{"; for (auto& x : k[i]) os << (x.first < n ? "" : "drain ") << id[x.first] << ":" << x.second << " "; os << "} "; }
  }
  void setup(CoarseGrainSystem& s, Rates& r) const {
    s.setRandomSeed(seed); s.setTimeResolution(tres); s.setMinCoarseGrainIterationThreshold(threshold); s.setPerformanceRatio(perf); s.initializeSystem(r);
  }
};
// Basins: groups of sites with fast, often equal rates inside and slow ones
// between, so that clusters form, grow and merge.
inline Sys gen_sys(Src& g, int lo, int hi, int maxdrain, bool grain) {
  Sys s; s.n = (int)g.in(lo, hi); if (hi >= 12 && g.chance(1, 20)) s.n = (int)g.in(hi, 30); s.nd = (int)g.in(0, maxdrain); s.id = g.ids(s.n + s.nd, true); s.k.resize(s.n);
  int groups = (int)g.in(1, std::max(1, s.n / 2)); std::vector<int> grp(s.n); for (int i = 0; i < s.n; ++i) grp[i] = i % groups;
  int style = (int)g.below(4); double fast = std::pow(10.0, (double)g.in(1, 4)); bool tiny = g.chance(1, 6);
  auto rate = [&](bool same) {
    double b = same ? fast : 1.0;
    if (style == 0) return b;                                   // all equal
    if (style == 1) return b * (double)g.in(1, 3);              // many ties
    if (tiny) return b * (1 - 0.00007 * (double)g.below(4));    // nearly equal
    return b * std::pow(10.0, g.real(-0.5, 0.5));
  };
  auto link = [&](int i, int j) { if (i == j || s.k[i].count(j)) return; bool same = grp[i] == grp[j]; s.k[i][j] = rate(same); s.k[j][i] = rate(same); };
  for (int i = 1; i < s.n; ++i) { if (i >= groups) { std::vector<int> c; for (int j = 0; j < i; ++j) if (grp[j] == grp[i]) c.push_back(j); link(i, g.pick(c)); } else link(i, (int)g.below(i)); }
  int extra = (int)g.in(0, s.n); for (int e = 0; e < extra; ++e) link((int)g.below(s.n), (int)g.below(s.n));
  for (int e = 0; e < s.nd; ++e) { int m = (int)g.in(1, 2); for (int q = 0; q < m; ++q) s.k[g.below(s.n)][s.n + e] = rate(false) * 0.1; }
  s.tres = g.pick(std::vector<double>{1, 0.1, 10, 1e-3, 1000}); s.perf = g.pick(std::vector<double>{1, 0.2, 0.01, 2});
  s.threshold = grain ? g.pick(std::vector<int>{1, 0, 3, 10, 40}) : mythical::constants::inf_iterations; s.seed = g.seed32();
  if (g.flip()) { s.w0 = (int)g.sym(-1000000000, 1000000000); s.ws = g.pick(std::vector<int>{1, -1, 1024, -7}); }
  return s;
}
// clusters by their members
inline std::set<std::set<int>> partition(CoarseGrainSystem& s) {
  std::set<std::set<int>> r; for (auto& x : s.getClusters()) r.insert(std::set<int>(x.second.begin(), x.second.end())); return r;
}
// What coarse graining has to do (C30, C32): the basin of a site, the time to
// cross a set of sites and the time to leave it, worked out from the rates.
struct BasinOf { bool decided = true; std::set<int> sites; };  // indices; empty: too large
inline std::set<int> over_rates(const Sys& s, int start, double floor_rate) {
  std::set<int> r; std::vector<int> st{start};
  while (!st.empty()) { int v = st.back(); st.pop_back(); if (!r.insert(v).second || s.drain(v)) continue; for (auto& x : s.k[v]) if (x.second >= floor_rate) st.push_back(x.first); }
  return r;
}
// cluster: members of the cluster the start belongs to (empty: none)
inline BasinOf basin_of(const Sys& s, int start, const std::set<int>& cluster, size_t limit) {
  BasinOf b; double f = 0;
  if (s.drain(start)) { b.sites.insert(start); return b; }
  if (cluster.empty()) { for (auto& x : s.k[start]) f = std::max(f, x.second); }
  else for (int m : cluster) for (auto& x : s.k[m]) if (!cluster.count(x.first)) f = std::max(f, x.second);
  std::set<int> least = over_rates(s, start, f), most = over_rates(s, start, f * 0.99);
  if (least.size() > limit) return b;
  if (least != most) { b.decided = false; return b; }
  b.sites = least; return b;
}
// longest of the shortest times between two of the sites, staying among them
inline double cross_time(const Sys& s, const std::set<int>& m) {
  std::map<std::pair<int, int>, double> d; const double inf = std::numeric_limits<double>::infinity();
  for (int i : m) for (int j : m) { double v = i == j ? 0 : inf; if (!s.drain(i)) { auto it = s.k[i].find(j); if (i != j && it != s.k[i].end()) v = 1 / it->second; } d[{i, j}] = v; }
  for (int q : m) for (int i : m) for (int j : m) d[{i, j}] = std::min(d[{i, j}], d[{i, q}] + d[{q, j}]);
  double r = 0; for (auto& x : d) r = std::max(r, x.second); return r;
}
inline double leave_rate(const Sys& s, const std::set<int>& m) {
  double r = 0; for (int i : m) if (!s.drain(i)) for (auto& x : s.k[i]) if (!m.count(x.first)) r += x.second; return r;
}
