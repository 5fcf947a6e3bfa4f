#include "cluster.hpp"
PROPERTY("C19",
  "Generated connected clusters with generated orders of setting resolution, updating and changing rates; escape time constant recomputed from the reported occupation probabilities, and the mean exit time of the network simulated hop by hop by the harness; "
  "non-trivial = a member without exits or members with different dwell times.",
  {"relations between members are symmetric (the code asserts it), at least one exit exists, resolution at least 2"})
static bool interesting(const Net& t) { bool inner = false; double a = 1e300, b = 0; for (int i = 0; i < t.n; ++i) { bool ex = false; for (auto& x : t.k[i]) ex = ex || x.first >= t.n; inner = inner || !ex; a = std::min(a, t.tau(i)); b = std::max(b, t.tau(i)); } return inner || b > 1.01 * a; }
static void times(const Net& t, Cluster& cl, double res) {
  Mem m = all(t); auto p = reported(t, m, cl); double e = escape(t, m, p);
  REQUIRE(near(cl.getTimeConstant(), e, 1e-9), "escape time constant is " << cl.getTimeConstant() << " expected " << e);
  REQUIRE(cl.getResolution() == res, "resolution is " << cl.getResolution() << " expected " << res);
  REQUIRE(near(cl.getTimeIncrement(), cl.getTimeConstant() / res, 1e-9), "time increment is " << cl.getTimeIncrement() << " expected " << cl.getTimeConstant() / res);
}
SUB(formula, 8000, 150000) {
  Net t = gen_net(g, 2, 7); Conv v = gen_iter(g); if (g.chance(1, 4)) { v.method = 2; v.tol = g.pick(std::vector<double>{0.1, 0.01, 1e-4}); } show(c, v); t.describe(c.d);
  Cluster cl; apply(cl, v); build(cl, t, g.perm(t.n)); double res = 20; c.nontrivial(interesting(t));
  auto setres = [&] { res = g.flip() ? (double)g.in(2, 60) : g.logreal(0.31, 6); cl.setResolution(res); c.d << "res " << res << " "; };
  if (g.flip()) setres();
  cl.updateProbabilitiesAndTimeConstant(); times(t, cl, res);
  int k = (int)g.in(0, 4);
  for (int i = 0; i < k; ++i) {
    if (g.chance(1, 3)) { int w = 100 * (int)g.sym(-3, 3) + i; c.d << "stay " << w << " "; cl.getDwellTime(w); }
    if (g.flip()) setres();
    else { int s = (int)g.below(t.n); c.d << alter(g, t, s, 2); cl.updateProbabilitiesAndTimeConstant(); }
    times(t, cl, res);
  }
}
SUB(unit_of_time, 5000, 100000) {
  Net t = gen_net(g, 2, 7); Net u = t; double f = g.flip() ? std::pow(10.0, (double)g.sym(-12, 12)) : g.logreal(-6, 6); for (auto& x : u.k) for (auto& y : x) y.second *= f; u.own_rates();
  Conv v = gen_iter(g); show(c, v); t.describe(c.d); c.d << "factor " << f; double res = (double)g.in(2, 50); Cluster a, b; apply(a, v); apply(b, v); a.setResolution(res);
  build(a, t, iota(t.n)); build(b, u, g.perm(t.n)); a.updateProbabilitiesAndTimeConstant(); b.updateProbabilitiesAndTimeConstant(); b.setResolution(res); c.nontrivial(interesting(t));
  REQUIRE(near(a.getTimeConstant(), f * b.getTimeConstant(), 1e-7), "rates times " << f << " change the escape time constant from " << a.getTimeConstant() << " to " << b.getTimeConstant());
  REQUIRE(near(a.getTimeIncrement(), f * b.getTimeIncrement(), 1e-7), "rates times " << f << " change the time increment from " << a.getTimeIncrement() << " to " << b.getTimeIncrement());
}
// independent of any formula: solve the mean exit time linear system exactly
// (expected time to leave starting from the stationary distribution)
SUB(mean_exit_time, 5000, 100000) {
  Net t = gen_net(g, 2, 6, (int)g.pick(std::vector<int>{Equal, Mild, Basin})); Mem m = all(t); t.describe(c.d); std::map<int, double> r; int used = 0; if (reference(t, m, r, 2000, 1e-10, &used) > 1e-9) { c.label("slow"); return; }
  Cluster cl; Conv v; v.it = used; apply(cl, v); build(cl, t, g.perm(t.n)); cl.updateProbabilitiesAndTimeConstant();
  int n = t.n; std::vector<std::vector<long double>> A(n, std::vector<long double>(n + 1, 0));  // (I-P) T = tau
  for (int i = 0; i < n; ++i) { A[i][i] = 1; for (auto& x : t.k[i]) if (x.first < n) A[i][x.first] -= t.hop(i, x.first); A[i][n] = t.tau(i); }
  for (int i = 0; i < n; ++i) { int p = i; for (int j = i; j < n; ++j) if (fabsl(A[j][i]) > fabsl(A[p][i])) p = j; std::swap(A[i], A[p]); for (int j = 0; j < n; ++j) if (j != i) { long double f = A[j][i] / A[i][i]; for (int q = i; q <= n; ++q) A[j][q] -= f * A[i][q]; } }
  double T = 0; for (int i = 0; i < n; ++i) T += r[i] * (double)(A[i][n] / A[i][i]);
  REQUIRE(near(cl.getTimeConstant(), T, 1e-4), "mean exit time of the network is " << T << ", the cluster's escape time constant " << cl.getTimeConstant()); c.nontrivial(interesting(t)); c.label("compared");
}
