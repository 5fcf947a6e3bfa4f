#include "cluster.hpp"
PROPERTY("C17",
  "Generated connected clusters (2..7 members, 1..5 exits, rates equal to 8 decades apart) under all three convergence methods, compared with the fixed point of one more hop conditioned on staying; "
  "non-trivial = at least three members and members not equally likely.",
  {"relations between members are symmetric (the code asserts it) and at least one exit exists", "the order-of-tolerance bound is 50 times the tolerance and is required when every member stays inside with probability at least 0.3"})
static void valid(const std::map<int, double>& p) {
  double s = 0; for (auto& x : p) { REQUIRE(x.second >= 0 && x.second <= 1 + 1e-9, "probability on a member is " << x.second); s += x.second; }
  REQUIRE(near(s, 1, 1e-9), "probabilities on members sum to " << s);
}
static bool skew(const std::map<int, double>& p) { double a = 1, b = 0; for (auto& x : p) { a = std::min(a, x.second); b = std::max(b, x.second); } return p.size() >= 3 && b > 1.001 * a; }
SUB(converges, 6000, 100000) {
  Net t = gen_net(g, 2, 7); Mem m = all(t); Conv v; v.method = (int)g.below(3); t.describe(c.d);
  std::map<int, double> r; int used = 0; double rr = reference(t, m, r, 3000, 1e-11, &used);
  v.it = v.method == 1 ? used / t.n + 1 : used; v.tol = 1e-11; show(c, v); Cluster cl; apply(cl, v); build(cl, t, g.perm(t.n));
  if (rr > 1e-9) { c.label("slow"); return; }
  cl.updateProbabilitiesAndTimeConstant(); auto p = reported(t, m, cl); valid(p);
  c.nontrivial(skew(p)); c.label("converged"); double res = residual(t, m, p); REQUIRE(res < 1e-7, "distribution changes by " << res << " after one more hop inside although converged");
  std::map<int, double> ref; if (reference(t, m, ref, 3000, 1e-14) < 1e-13) for (int i : m) REQUIRE(near(p[i], ref[i], 1e-4, 1e-5), "probability on " << t.id[i] << " is " << p[i] << ", the stationary one is " << ref[i]);
}
SUB(tolerance, 8000, 150000) {
  Net t = gen_net(g, 2, 7, (int)g.below(3)); Mem m = all(t); Conv v; v.method = 2; v.tol = std::pow(10.0, -(double)g.in(1, 6)) * g.real(0.2, 1); show(c, v); t.describe(c.d);
  double stay = 1; for (int i : m) { double s = 0; for (auto& x : t.k[i]) if (in(m, x.first)) s += t.hop(i, x.first); stay = std::min(stay, s); }
  Cluster cl; apply(cl, v); REQUIRE(cl.getConvergenceTolerance() == v.tol, "tolerance not stored"); build(cl, t, g.perm(t.n)); cl.updateProbabilitiesAndTimeConstant(); auto p = reported(t, m, cl); valid(p);
  if (stay >= 0.3) { double res = residual(t, m, p); REQUIRE(res <= 50 * v.tol, "tolerance " << v.tol << " left an imbalance of " << res); c.nontrivial(skew(p)); c.label("tolerance checked"); }
}
SUB(equivalence, 6000, 150000) {
  Net t = gen_net(g, 2, 7); Mem m = all(t); long n = g.in(1, 12); t.describe(c.d); c.d << "n " << n << " ";
  Cluster a, b; Conv v; v.method = 1; v.it = n; apply(a, v); REQUIRE(a.getConvergenceIterations() == n, "iterations not stored"); v.method = 0; v.it = n * t.n; apply(b, v);
  build(a, t, g.perm(t.n)); build(b, t, g.perm(t.n)); a.updateProbabilitiesAndTimeConstant(); b.updateProbabilitiesAndTimeConstant();
  auto p = reported(t, m, a), q = reported(t, m, b); valid(p); c.nontrivial(skew(p));
  for (int i : m) REQUIRE(near(p[i], q[i], 1e-9, 1e-12), n << " iterations per site give " << p[i] << " on " << t.id[i] << ", " << n * t.n << " per cluster give " << q[i]);
  // without an explicit choice: three iterations per site
  if (n == 3) { Cluster d; build(d, t, iota(t.n)); d.updateProbabilitiesAndTimeConstant(); auto o = reported(t, m, d); for (int i : m) REQUIRE(near(p[i], o[i], 1e-9, 1e-12), "default is not three iterations per site"); }
}
SUB(invariance, 6000, 150000) {
  Net t = gen_net(g, 2, 7); Mem m = all(t); Conv v = gen_iter(g); show(c, v); t.describe(c.d);
  Net u = t; auto ids = g.ids((int)t.id.size()); u.id = ids; double f = g.flip() ? std::pow(10.0, (double)g.sym(-12, 12)) : g.logreal(-6, 6); c.d << "factor " << f << " new ids";
  for (auto& x : u.k) for (auto& y : x) y.second *= f;
  u.own_rates(); Cluster a, b; apply(a, v); apply(b, v); build(a, t, iota(t.n));
  if (g.flip()) build(b, u, g.perm(t.n)); else { std::vector<Site> s; for (int i : g.perm(t.n)) s.push_back(u.site(i)); b.addSites(s); }
  a.updateProbabilitiesAndTimeConstant(); b.updateProbabilitiesAndTimeConstant();
  auto p = reported(t, m, a), q = reported(u, m, b); valid(p); valid(q); c.nontrivial(skew(p));
  for (int i : m) REQUIRE(near(p[i], q[i], 1e-7, 1e-12), "probability on member " << i << " is " << p[i] << " but " << q[i] << " with other ids, order and unit of time");
}
// Perron vector of the hops inside, by repeated squaring of 1 + P
static std::map<int, double> perron(const Net& t) {
  int n = t.n; std::vector<std::vector<double>> b(n, std::vector<double>(n)), q = b; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i][j] = (i == j) + t.hop(i, j);
  for (int s = 0; s < 60; ++s) { double big = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double v = 0; for (int k = 0; k < n; ++k) v += b[i][k] * b[k][j]; q[i][j] = v; big = std::max(big, v); } for (auto& r : q) for (auto& x : r) x /= big; b.swap(q); }
  std::map<int, double> p; double tot = 0; for (int j = 0; j < n; ++j) { double v = 0; for (int i = 0; i < n; ++i) v += b[i][j]; p[j] = v; tot += v; } for (auto& x : p) x.second /= tot; return p;
}
// members that are almost never visited have the right, small probability
SUB(small_probabilities, 1500, 30000) {
  Net t = gen_net(g, 2, 6, (int)g.pick(std::vector<int>{Mild, Wide}), false); for (auto& x : t.k) for (auto& y : x) if (g.chance(1, 3)) y.second *= g.logreal(-14, 0); t.own_rates(); t.describe(c.d); Mem m = all(t);
  std::map<int, double> p, q; for (int i : m) p[i] = 1.0 / t.n; double rel = 1; int used = 0; while (used < 1500 && rel > 1e-10) { q = one_hop(t, m, p); rel = 0; for (int i : m) { rel = std::max(rel, std::fabs(q[i] - p[i]) / std::max(p[i], 1e-290)); p[i] = 0.5 * (p[i] + q[i]); } ++used; } if (rel > 1e-10 || 1 - leave_prob(t, m, p) < 1e-3) throw Discard();
  Conv v; v.method = (int)g.below(2); v.it = v.method ? 2 * used / t.n + 1 : 2 * used; show(c, v); Cluster cl; apply(cl, v); build(cl, t, g.perm(t.n)); cl.updateProbabilitiesAndTimeConstant(); auto o = reported(t, m, cl); valid(o); auto s = perron(t); double least = 1;
  for (int i : m) { least = std::min(least, o[i]); if (s[i] > 1e-12 && near(p[i], s[i], 1e-7)) REQUIRE(near(o[i], s[i], 1e-6), "probability on " << t.id[i] << " is " << o[i] << " after " << 2 * used << " iterations, the stationary one is " << s[i]); else REQUIRE(near(o[i], p[i], 1e-6), "probability on " << t.id[i] << " is " << o[i] << " after " << 2 * used << " iterations, the stationary one is " << p[i]); }
  c.nontrivial(t.n >= 3 && least < 1e-6); c.label_if(least < 1e-12, "probability below 1e-12");
}
// clusters that hardly mix: thousands of iterations are done, and bring it as near as they should
SUB(many_iterations, 48, 800) {
  Net t = gen_net(g, 4, 6, Mild, false); double weak = g.logreal(-6, -3); int cut = (int)g.in(1, t.n - 1); bool few = g.flip(); for (int i = 0; i < t.n; ++i) for (auto& y : t.k[i]) if (y.first >= t.n) y.second *= few ? 0.1 * weak : 1; else if ((i < cut) != (y.first < cut)) y.second *= weak; t.own_rates(); t.describe(c.d); Mem m = all(t); auto s = perron(t);
  long n = g.in(200, 2500); c.d << "n " << n; Cluster a, b; Conv v; v.method = 1; v.it = n; apply(a, v); v.method = 0; v.it = n * t.n; apply(b, v); build(a, t, g.perm(t.n)); build(b, t, g.perm(t.n)); a.updateProbabilitiesAndTimeConstant(); b.updateProbabilitiesAndTimeConstant(); auto p = reported(t, m, a), q = reported(t, m, b); valid(p); valid(q);
  std::map<int, double> r; reference(t, m, r, (int)(n * t.n), 0); double dr = 0, da = 0, db = 0; for (int i : m) { dr = std::max(dr, std::fabs(r[i] - s[i])); da = std::max(da, std::fabs(p[i] - s[i])); db = std::max(db, std::fabs(q[i] - s[i])); }
  REQUIRE(da <= 2 * dr + 1e-7 && db <= 2 * dr + 1e-7, n << " iterations per site of " << t.n << " leave the probabilities " << da << " off the stationary ones, as many per cluster " << db << ", plain damped hopping " << dr);
  for (int i : m) REQUIRE(near(p[i], q[i], 1e-6, 1e-9), n << " iterations per site give " << p[i] << " on " << t.id[i] << ", " << n * t.n << " per cluster give " << q[i]);
  c.nontrivial(true); c.label_if(dr > 1e-4, "not yet converged");
}
// the same by tolerance: however many iterations it takes
SUB(slow_tolerance, 16, 240) { arm(300);
  Net t = gen_net(g, 4, 5, Mild, false); double weak = g.logreal(-3.1, -2.3); for (auto& x : t.k) x.clear();
  auto link = [&](int i, int j, double f) { t.k[i][j] = f * g.logreal(-0.5, 0.5); t.k[j][i] = f * g.logreal(-0.5, 0.5); };
  link(0, 1, 1); link(2, 3, 1); if (t.n > 4) { link(3, 4, 1); if (g.flip()) link(2, 4, 1); } link(1, 2, weak); t.k[g.below(t.n)][t.n] = 0.1 * weak; if (g.flip()) t.k[g.below(t.n)][(int)t.id.size() - 1] = 0.05 * weak; t.own_rates(); Mem m = all(t); auto s = perron(t);
  Conv v; v.method = 2; v.tol = g.logreal(-10, -8.5); t.describe(c.d); show(c, v); Cluster a; apply(a, v); build(a, t, g.perm(t.n)); a.updateProbabilitiesAndTimeConstant(); auto p = reported(t, m, a); valid(p);
  std::map<int, double> r; int used = 0; reference(t, m, r, 1000000, v.tol, &used); double dr = 0, da = 0; for (int i : m) { dr = std::max(dr, std::fabs(r[i] - s[i])); da = std::max(da, std::fabs(p[i] - s[i])); }
  REQUIRE(da <= 10 * dr + 1e-7, "tolerance " << v.tol << " leaves the probabilities " << da << " off the stationary ones, plain damped hopping " << dr << " in " << used << " hops");
  c.nontrivial(used > 2000); c.label_if(used > 20000, "more than 20000 hops to the tolerance");
}
