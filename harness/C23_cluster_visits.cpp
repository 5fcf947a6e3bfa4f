#include "cluster.hpp"
PROPERTY("C23",
  "Generated histories of visits, count queries, settings, updates (also with changed rates) and merges on 1..2 clusters, against a model that accumulates the expected site visits per visit to the cluster; plus twins that differ only in how often they are asked, and in the unit of time; "
  "non-trivial = at least 20 visits and a query, and an update, merge or setting.",
  {"expected visits to a site per visit to the cluster: escape time constant * (1-exp(-1/resolution)) * p / (mean time per site visit), that is an increment except for the last part of a stay", "the resolution is not changed while visits are uncounted", "each update or merge may round each count once", "counts stay within what an int can hold (below 1e9)"})
struct A { double lo = 0, hi = 0; };
struct K { Net* t; Mem m; Cluster* cl; std::map<int, A> acc; std::map<int, A> per; double slack = 0; double res; };
static void refresh(K& k) {
  auto p = reported(*k.t, k.m, *k.cl); double vt = visit_time(*k.t, k.m, p), spent = k.cl->getTimeConstant() * -std::expm1(-1 / k.cl->getResolution()); k.per.clear();
  for (int i : k.m) { double v = spent * p[i] / vt; k.per[i] = A{v, v}; }
}
static void ask(K& k, int i) {
  int got = k.cl->getVisitFrequency(k.t->id[i]); A a = k.acc[i]; double s = 1 + k.slack;
  REQUIRE(got >= a.lo * (1 - 1e-9) - s && got <= a.hi * (1 + 1e-9) + s, "visits to " << k.t->id[i] << " are " << got << ", expected between " << a.lo << " and " << a.hi << " (rounding " << s << ")");
}
static bool fits(const K& k, int n) { for (auto& x : k.per) { auto a = k.acc.find(x.first); if ((a == k.acc.end() ? 0 : a->second.hi) + n * x.second.hi > 1e9) return false; } return true; }  // counts are ints
static double pick_res(Src& g, Net& t, const Mem& m) {  // keeps counts within int range and above rounding
  std::map<int, double> r; reference(t, m, r, 50); double n = 1 / leave_prob(t, m, r);  // visits per stay
  double want = g.logreal(-1, 4); return std::max(2.0, n / want);
}
SUB(history, 6000, 120000) {
  Net t = gen_net(g, 4, 8); Conv v = gen_iter(g); show(c, v); t.describe(c.d); int nc = (int)g.in(1, 2), cut = nc == 2 ? (int)g.in(2, t.n - 2) : t.n; std::vector<Cluster> cl(2); std::vector<K> ks; std::deque<Net> dummy;
  for (int q = 0; q < nc; ++q) {
    Mem m; for (int i = q ? cut : 0; i < (q ? t.n : cut); ++i) m.insert(i);
    Mem seen; std::vector<int> st{*m.begin()}; while (!st.empty()) { int i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; for (auto& x : t.k[i]) if (in(m, x.first)) st.push_back(x.first); }
    if (seen.size() != m.size()) m = seen; if (m.size() < 2) continue;
    bool ex = false; for (int i : m) for (auto& x : t.k[i]) ex = ex || !in(m, x.first); if (!ex) continue;
    K k; k.t = &t; k.m = m; k.cl = &cl[q]; k.res = pick_res(g, t, m); apply(cl[q], v); build(cl[q], t, std::vector<int>(m.begin(), m.end())); cl[q].setResolution(k.res); cl[q].updateProbabilitiesAndTimeConstant(); refresh(k); c.d << "cluster " << q << " of " << m.size() << " res " << k.res << " "; ks.push_back(k);
  }
  if (ks.empty()) throw Discard();
  int steps = (int)g.in(1, 120), visits = 0, queries = 0; bool ev = false;
  for (int s = 0; s < steps; ++s) {
    K& k = ks[g.below(ks.size())]; auto it = k.m.begin(); std::advance(it, g.below(k.m.size())); int i = *it, op = (int)g.below(24);
    if (op < 16) { int n = g.chance(1, 6) ? (int)g.in(1, 200) : 1; if (!fits(k, n)) continue; c.d << "visit " << t.id[i] << "x" << n << " "; for (int q = 0; q < n; ++q) { k.cl->occupy(t.id[i]); k.cl->vacate(t.id[i]); } visits += n; for (int j : k.m) { k.acc[j].lo += n * k.per[j].lo; k.acc[j].hi += n * k.per[j].hi; } }
    else if (op < 20) { c.d << "ask "; ask(k, i); ++queries; }
    else if (op == 20) { int f = (int)g.in(0, 100000); c.d << "set " << t.id[i] << "=" << f << " "; k.cl->setVisitFrequency(f, t.id[i]); int got = k.cl->getVisitFrequency(t.id[i]); REQUIRE(got == f, "count of " << t.id[i] << " set to " << f << " reads " << got); k.acc[i] = A{(double)f, (double)f}; ev = true; }
    else if (op == 21) { c.d << "update "; k.cl->updateProbabilitiesAndTimeConstant(); k.slack += 1; refresh(k); ev = true; }
    else if (op == 22) { c.d << alter(g, t, i, 1); k.cl->updateProbabilitiesAndTimeConstant(); k.slack += 1; refresh(k); ev = true; }
    else if (ks.size() == 2) {
      Mem u = ks[0].m; u.insert(ks[1].m.begin(), ks[1].m.end()); bool link = false, ex = false; for (int a : ks[0].m) for (auto& x : t.k[a]) link = link || in(ks[1].m, x.first); for (int a : u) for (auto& x : t.k[a]) ex = ex || !in(u, x.first); if (!link || !ex) continue;
      c.d << "merge "; ks[0].cl->migrateSitesFrom(*ks[1].cl); ks[0].m = u; for (auto& x : ks[1].acc) ks[0].acc[x.first] = x.second; ks[0].slack += ks[1].slack + 2; ks.pop_back(); refresh(ks[0]); ev = true;
    }
    if (g.chance(1, 10)) for (auto& q : ks) for (int j : q.m) ask(q, j);
  }
  for (auto& q : ks) for (int j : q.m) ask(q, j);
  c.nontrivial(visits >= 20 && queries > 0 && ev);
}
SUB(asking_changes_nothing, 3000, 60000) {
  Net t = gen_net(g, 2, 6); Net u = t; double f = std::pow(2.0, (double)g.sym(-30, 30)); for (auto& x : u.k) for (auto& y : x) y.second *= f; u.own_rates(); Conv v = gen_iter(g); t.describe(c.d); Mem m = all(t); double res = pick_res(g, t, m); c.d << "res " << res << " factor " << f << " ";
  Cluster a, b; for (Cluster* x : {&a, &b}) { apply(*x, v); x->setResolution(res); } build(a, t, iota(t.n)); build(b, u, iota(t.n)); a.updateProbabilitiesAndTimeConstant(); b.updateProbabilitiesAndTimeConstant();
  int n = (int)g.in(1, 200), asked = 0; std::map<int, int> last; K k; k.t = &t; k.m = m; k.cl = &a; refresh(k); if (!fits(k, n)) throw Discard();
  for (int s = 0; s < n; ++s) {
    int i = (int)g.below(t.n); a.occupy(t.id[i]); a.vacate(t.id[i]); b.occupy(t.id[i]); b.vacate(t.id[i]);
    if (g.chance(1, 3)) { int j = (int)g.below(t.n); int x = a.getVisitFrequency(t.id[j]); REQUIRE(x >= last[j], "visit count of " << t.id[j] << " fell from " << last[j] << " to " << x); last[j] = x; ++asked; }
  }
  for (int i : m) { int x = a.getVisitFrequency(t.id[i]), y = b.getVisitFrequency(t.id[i]); REQUIRE(std::abs((double)x - y) <= 1 + 1e-9 * std::max(std::abs(x), std::abs(y)), "visits to " << t.id[i] << " are " << x << " when asked often and " << y << " when asked once (unit of time " << f << ")"); }
  c.nontrivial(n >= 20 && asked >= 5);
}
