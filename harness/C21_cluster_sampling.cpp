#include "cluster.hpp"
PROPERTY("C21",
  "Generated clusters taken through histories of updates, rate changes in place, added sites and merges, sampled after each; frequencies of member and exit picks bounded by Chernoff inequalities against the reported probabilities (false alarm < 1e-11 per comparison); "
  "non-trivial = sampled after at least one change, with at least 500 member picks or 500 exits.",
  {"only differences larger than the sampling bound are seen"})
struct H { Net t; Mem m; std::unique_ptr<Cluster> cl; };
static void sample(Src& g, Ctx& c, H& h, int picks, u64& nin, u64& nout) {
  Net& t = h.t; auto p = reported(t, h.m, *h.cl); auto e = exits(t, h.m, p); double vt = visit_time(t, h.m, p); std::map<int, u64> ci, co, ck; std::map<int, std::map<int, u64>> wi, wo; std::map<int, u64> na, nb; u64 a = 0, b = 0; int w0 = (int)(g.flip() ? g.in(0, 9) : g.sym(-2000000000LL, 2000000000LL)), nw = (int)g.in(1, 4); std::map<int, bool> mid; u64 sched = g.below(1u << 30), first = 0;
  double res = g.flip() ? 2 : (double)g.in(3, 50); h.cl->setResolution(res); c.d << "sample(res " << res << ", " << nw << " walkers) ";
  for (int s = 0; s < picks; ++s) {
    sched = mix(sched + s); int w = w0 + (int)(sched % nw); h.cl->getDwellTime(w); int id = h.cl->pickNewSiteId(w); int i = t.index(id); REQUIRE(i >= 0, "picked site " << id << " is unknown");
    if (in(h.m, i)) { ci[i]++; ++a; wi[w][i]++; na[w]++; if (!mid[w]) { ck[i]++; ++first; } mid[w] = true; } else { REQUIRE(e.count(i), "picked site " << id << " is neither a member nor a neighbour of the cluster"); co[i]++; ++b; wo[w][i]++; nb[w]++; mid[w] = false; }
  }
  for (int w = w0; w < w0 + nw; ++w) for (int guard = 0; guard < 1000000; ++guard) { h.cl->getDwellTime(w); if (!in(h.m, t.index(h.cl->pickNewSiteId(w)))) break; }
  for (int i : h.m) { double q = p[i] * t.tau(i) / vt; REQUIRE(binomial_exponent(ci[i], a, q) < STAT, "member " << t.id[i] << " of weight " << q << " was picked " << ci[i] << " of " << a << " times"); REQUIRE(binomial_exponent(ck[i], first, q) < STAT, "member " << t.id[i] << " of weight " << q << " was the first pick of " << ck[i] << " of " << first << " stays"); for (auto& x : na) REQUIRE(binomial_exponent(wi[x.first][i], x.second, q) < STAT, "member " << t.id[i] << " of weight " << q << " was picked " << wi[x.first][i] << " of " << x.second << " times by walker " << x.first); }
  for (auto& x : e) { double q = h.cl->getProbabilityOfHoppingToNeighborOfCluster(t.id[x.first]); REQUIRE(binomial_exponent(co[x.first], b, q) < STAT, "neighbour " << t.id[x.first] << " of exit probability " << q << " was picked " << co[x.first] << " of " << b << " times"); for (auto& y : nb) REQUIRE(binomial_exponent(wo[y.first][x.first], y.second, q) < STAT, "neighbour " << t.id[x.first] << " of exit probability " << q << " was picked " << wo[y.first][x.first] << " of " << y.second << " times by walker " << y.first); REQUIRE(binomial_exponent(co[x.first], b, x.second) < STAT, "neighbour " << t.id[x.first] << " of expected exit probability " << x.second << " was picked " << co[x.first] << " of " << b << " times"); }
  nin = std::max(nin, a); nout = std::max(nout, b);
}
// connected prefix orders: members are numbered so that every prefix is connected
static void change(Src& g, Ctx& c, H& h) {
  Net& t = h.t; int have = (int)h.m.size(), op = (int)g.below(4);
  if (op == 0 && have < t.n) { int k = (int)g.in(1, t.n - have); c.d << "add " << k << " "; std::vector<Site> s; for (int i = 0; i < k; ++i) { s.push_back(t.site(have + i)); h.m.insert(have + i); } if (k == 1) h.cl->addSite(s[0]); else h.cl->addSites(s); h.cl->updateProbabilitiesAndTimeConstant(); }
  else if (op == 1 && have + 2 <= t.n) {
    // merge in a connected pair of further members, if there is one
    for (int i = have; i < t.n; ++i) for (int j = have; j < t.n; ++j) if (i != j && t.k[i].count(j)) {
      bool link = false; for (int q : h.m) link = link || t.k[i].count(q) || t.k[j].count(q);
      if (!link) continue;
      c.d << "merge " << t.id[i] << "," << t.id[j] << " "; Cluster o; Conv v; v.it = 30; apply(o, v); build(o, t, {i, j}); o.updateProbabilitiesAndTimeConstant(); h.cl->migrateSitesFrom(o); h.m.insert(i); h.m.insert(j); return;
    }
  } else if (op == 2) { h.cl->updateProbabilitiesAndTimeConstant(); c.d << "update "; }
  else { auto it = h.m.begin(); std::advance(it, g.below(h.m.size())); int i = *it; c.d << alter(g, t, i, 1.5); h.cl->updateProbabilitiesAndTimeConstant(); }
}
// relabel members so that every prefix of at least two is connected: gen_net
// attaches node i to an earlier node, so the natural order already is
static H start(Src& g, Ctx& c) { H h; h.t = gen_net(g, 2, 7, (int)g.pick(std::vector<int>{Equal, Mild, Mild, Wide})); h.t.describe(c.d); int k = (int)g.in(2, h.t.n); h.cl.reset(new Cluster); Conv v; v.it = 30; apply(*h.cl, v); build(*h.cl, h.t, iota(k)); for (int i = 0; i < k; ++i) h.m.insert(i); h.cl->updateProbabilitiesAndTimeConstant(); return h; }
static bool prefix(const Mem& m) { int k = 0; for (int i : m) if (i != k++) return false; return true; }
SUB(after_changes, 1800, 14400) {
  H h = start(g, c); unsigned long sd = g.seed32(); h.cl->setRandomSeed(sd); c.d << "seed " << sd << " "; u64 a = 0, b = 0, x = 0, y = 0; int picks = g.pick(std::vector<int>{300, 2000, 8000}); sample(g, c, h, g.flip() ? 50 : picks, x, y);
  int k = (int)g.in(0, 4); for (int i = 0; i < k; ++i) { if (!prefix(h.m)) break; change(g, c, h); if (leave_prob(h.t, h.m, reported(h.t, h.m, *h.cl)) <= 0) return; if (g.flip()) h.cl->setRandomSeed(sd + i); sample(g, c, h, picks, a, b); }
  c.nontrivial(k > 0 && (a >= 500 || b >= 500)); c.label_if(b >= 500, "500+ exits"); c.label_if(a >= 500, "500+ member picks");
}
SUB(many_draws, 120, 960) {
  H h = start(g, c); h.cl->setRandomSeed(g.seed32()); u64 a = 0, b = 0; sample(g, c, h, 60000, a, b); if (g.flip() && prefix(h.m)) { change(g, c, h); sample(g, c, h, 60000, a, b); c.nontrivial(true); }
}
SUB(reproducible, 4500, 36000) {
  H a = start(g, c); H b; b.t = a.t; b.t.own_rates(); b.m = a.m; b.cl.reset(new Cluster); Conv v; v.it = 30; apply(*b.cl, v); build(*b.cl, b.t, iota((int)b.m.size())); b.cl->updateProbabilitiesAndTimeConstant();
  auto wv = g.ids(4); unsigned long sd = g.seed32(); int pre = (int)g.in(0, 5); for (int i = 0; i < pre; ++i) { b.cl->getDwellTime(wv[3]); b.cl->pickNewSiteId(wv[3]); }
  a.cl->setRandomSeed(sd); b.cl->setRandomSeed(sd); int n = (int)g.in(4, 80); std::set<int> seen;
  for (int i = 0; i < n; ++i) {
    int w = wv[g.below(3)]; double u = a.cl->getDwellTime(w), x = b.cl->getDwellTime(w); REQUIRE(near(u, x, 1e-7), "same seed and history drew pieces " << u << " and " << x << " at step " << i);
    int p = a.cl->pickNewSiteId(w), q = b.cl->pickNewSiteId(w); REQUIRE(p == q, "same seed and history picked " << p << " and " << q << " at step " << i); seen.insert(p);
    if (g.chance(1, 20)) { int s = (int)g.below(a.m.size()); auto kt = a.t.k[s].begin(); double r = kt->second * g.logreal(-1, 1); int to = kt->first; a.t.set_rate(s, to, r); b.t.set_rate(s, to, r); a.cl->updateProbabilitiesAndTimeConstant(); b.cl->updateProbabilitiesAndTimeConstant(); }
  }
  c.nontrivial(seen.size() >= 3);
}
// rare members and rare exits are still picked as often as they should be
SUB(rare, 16, 128) {
  Net t = gen_net(g, 2, 6, (int)g.pick(std::vector<int>{Equal, Mild}), false); for (auto& x : t.k) for (auto& y : x) if (g.chance(1, 3)) y.second *= g.logreal(-4, 0); t.own_rates(); t.describe(c.d); Conv v; v.it = 200; Cluster cl; apply(cl, v); build(cl, t, iota(t.n)); cl.updateProbabilitiesAndTimeConstant(); cl.setResolution(2); unsigned long sd = g.seed32(); cl.setRandomSeed(sd); c.d << "seed " << sd; int w = (int)g.sym(-50, 50);
  Mem m = all(t); auto p = reported(t, m, cl); auto e = exits(t, m, p); double vt = visit_time(t, m, p); std::unordered_map<int, u64> cnt; for (int i : t.id) cnt[i] = 0; u64 other = 0; const int n = 1500000;
  for (int s = 0; s < n; ++s) { cl.getDwellTime(w); auto it = cnt.find(cl.pickNewSiteId(w)); if (it == cnt.end()) ++other; else it->second++; }
  REQUIRE(other == 0, other << " of " << n << " picks are neither members nor neighbours"); u64 a = 0, b = 0; for (int i : m) a += cnt[t.id[i]]; for (auto& x : e) b += cnt[t.id[x.first]]; REQUIRE(a + b == (u64)n, "sites picked which are neither members nor neighbours"); double least = 1;
  for (int i : m) { double q = p[i] * t.tau(i) / vt; least = std::min(least, q); REQUIRE(binomial_exponent(cnt[t.id[i]], a, q) < STAT, "member " << t.id[i] << " of weight " << q << " was picked " << cnt[t.id[i]] << " of " << a << " times"); }
  for (auto& x : e) { least = std::min(least, x.second); REQUIRE(binomial_exponent(cnt[t.id[x.first]], b, x.second) < STAT, "neighbour " << t.id[x.first] << " of exit probability " << x.second << " was picked " << cnt[t.id[x.first]] << " of " << b << " times"); }
  c.nontrivial(least < 0.01); c.label_if(least < 0.001, "probability below 0.001");
}
