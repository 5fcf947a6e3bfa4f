#include "cluster.hpp"
PROPERTY("C20",
  "Generated clusters, resolutions and interleavings of the steps of 1..40 walkers, with removals, changes of the resolution and updates at any point and rate changes between stays; every piece checked against the increment, totals of stays against the exponential distribution (Chernoff/DKW, false alarm < 1e-11 per comparison); "
  "non-trivial = at least two walkers interleaved and at least 300 complete stays, or a removal in mid-stay.",
  {"a dwell time request is followed by a pick for the same walker (or its removal) before the next request, as the simulation does"})
struct W { int phase = 0; double total = 0, piece = 0, inc = 0; int pieces = 0, doom = -1; };
static void run(Src& g, Ctx& c, int steps, bool changes) {
  Net t = gen_net(g, 2, 5, (int)g.pick(std::vector<int>{Equal, Mild, Basin})); Mem m = all(t); Cluster cl; Conv v; v.it = 20; apply(cl, v); build(cl, t, iota(t.n)); double res = g.pick(std::vector<double>{2, 2, 3, 5.5, 12});
  cl.setResolution(res); cl.updateProbabilitiesAndTimeConstant(); unsigned long sd = g.seed32(); cl.setRandomSeed(sd); t.describe(c.d); c.d << "res " << res << " seed " << sd << " ";
  int nw = g.chance(1, 8) ? (int)g.in(6, 40) : (int)g.in(1, 5); std::vector<int> wid = g.ids(nw); std::vector<W> w(nw); std::vector<double> stays, fresh; bool removed = false, changed = false; u64 sched = g.seed32(); double tau = cl.getTimeConstant(), inc = cl.getTimeIncrement(); std::map<int, double> last;
  int style = (int)g.below(3), prem = g.pick(std::vector<int>{0, 50, 300}), pchg = changes ? 2 : 0, ptouch = g.pick(std::vector<int>{0, 0, 5, 40}); c.d << "walkers " << nw << " style " << style << " removal " << prem << "/1000 touch " << ptouch << "/1000"; bool touched = false;
  std::vector<double> prev(nw, -1); u64 same = 0, pairs = 0; std::vector<std::vector<double>> seq(nw); std::vector<bool> justrem(nw, false);
  bool drain = false;
  for (int s = 0; s < steps; ++s) {
    sched = mix(sched + s); int k = style == 0 ? s / 2 % nw : style == 1 ? (int)(sched % nw) : (int)((sched >> 8) % nw ? (s / 7) % nw : sched % nw); W& x = w[k];
    if (pchg && ((sched >> 40) % 1000) < (u64)pchg) drain = true;
    if (drain) {  // rates change only while no walker is inside, so that no stay is selected by its length
      bool idle = true; for (auto& y : w) idle = idle && y.pieces == 0;
      if (idle) { int i = (int)(sched % t.n); auto it = t.k[i].begin(); std::advance(it, (sched >> 4) % t.k[i].size()); t.set_rate(i, it->first, it->second * ((sched >> 50) & 1 ? 10 : 0.1)); cl.updateProbabilitiesAndTimeConstant(); tau = cl.getTimeConstant(); inc = cl.getTimeIncrement(); changed = true; drain = false; }
      else if (x.pieces == 0) continue;
    }
    // resolution changes and updates without a change of rates leave every stay as it is
    if ((int)((sched >> 30) % 1000) < ptouch) { touched = true; if ((sched >> 60) & 1) cl.updateProbabilitiesAndTimeConstant(); else { res = 2 + (double)((sched >> 52) % 20); cl.setResolution(res); } inc = cl.getTimeIncrement(); REQUIRE(near(cl.getTimeConstant(), tau, 1e-9), "the time constant changed without a change of rates"); }
    if (x.doom >= 0 && x.pieces > x.doom / 2 && (x.doom % 2 == x.phase)) { cl.occupy(t.id[0]); cl.removeWalker(wid[k], t.id[0]); x = W(); removed = true; justrem[k] = true; continue; }
    if (x.phase == 0) {
      // a stay to be cut short is chosen before it begins and never counted
      if (x.pieces == 0 && (int)((sched >> 20) % 1000) < prem) x.doom = (int)((sched >> 32) % 9);
      double d = cl.getDwellTime(wid[k]); REQUIRE(std::isfinite(d) && d > 0, "walker " << k << " gets a piece of " << d); REQUIRE(d <= inc * (1 + 1e-9), "walker " << k << " gets a piece of " << d << ", more than the increment " << inc);
      x.piece = d; x.inc = inc; x.total += d; x.pieces++; x.phase = 1; if (x.pieces > 20000) FAIL("a stay of more than 20000 pieces at resolution " << res);
    } else {
      int id = cl.pickNewSiteId(wid[k]); int idx = t.index(id); REQUIRE(idx >= 0, "picked site " << id << " is unknown");
      if (idx < t.n) { REQUIRE(x.piece >= x.inc * (1 - 1e-9), "walker " << k << " is kept inside (site " << id << ") after a piece of " << x.piece << ", shorter than the increment " << x.inc); x.phase = 0; }
      else {
        if (x.piece == x.inc) same++; pairs++;
        if (x.doom < 0) { double z = x.total / tau; stays.push_back(z); seq[k].push_back(z); if (justrem[k]) fresh.push_back(z); }
        justrem[k] = false; x = W();
      }
    }
  }
  // leaving after a full piece happens only if the stay is an exact multiple of the increment
  REQUIRE(same <= 2, same << " of " << pairs << " stays ended after a full increment");
  if (stays.size() >= 2000) { auto z = stays; std::sort(z.begin(), z.end()); u64 equal = 0; for (size_t i = 1; i < z.size(); ++i) equal += z[i] == z[i - 1]; double n = (double)z.size(); REQUIRE(equal <= 8 + 6 * n * n / 8589934592.0, equal << " of " << z.size() << " stays are equal to others, they are not spread continuously"); }
  if (stays.size() >= 20) {
    double s = 0; for (double z : stays) s += z; REQUIRE(gamma_exponent(s, stays.size(), 1) < STAT, "mean stay is " << s / stays.size() << " escape time constants (" << stays.size() << " stays)");
    REQUIRE(exp_ks_exponent(stays, 1) < STAT, "stays are not exponential with the escape time constant (" << stays.size() << " stays)");
  }
  if (fresh.size() >= 20) { double s = 0; for (double z : fresh) s += z; REQUIRE(gamma_exponent(s, fresh.size(), 1) < STAT, "mean stay after a removal is " << s / fresh.size() << " escape time constants (" << fresh.size() << " stays)"); }
  u64 eq = 0, np = 0; for (auto& q : seq) for (size_t i = 1; i < q.size(); i += 2) { eq += (q[i] > std::log(2.0)) == (q[i - 1] > std::log(2.0)); ++np; }
  REQUIRE(binomial_exponent(eq, np, 0.5) < STAT, "consecutive stays of a walker are dependent (" << eq << " of " << np << " on the same side of the median)");
  c.nontrivial((nw >= 2 && stays.size() >= 300) || removed); c.label_if(removed, "removal"); c.label_if(touched, "resolution changed or updated in mid-stay"); c.label_if(changed, "rates changed"); c.label_if(stays.size() >= 2000, "2000+ stays");
}
SUB(short_runs, 6000, 100000) { run(g, c, (int)g.in(2, 300), g.flip()); }
SUB(long_runs, 160, 3000) { run(g, c, (int)g.pick(std::vector<int>{6000, 30000, 90000}), g.chance(1, 3)); }
// a removed walker starts afresh under the new time constant
SUB(removed_then_changed, 1500, 25000) {
  Net t = gen_net(g, 2, 5, (int)g.pick(std::vector<int>{Equal, Mild, Basin})); Cluster cl; Conv v; v.it = 20; apply(cl, v); build(cl, t, iota(t.n)); cl.setResolution((double)g.in(2, 6)); cl.updateProbabilitiesAndTimeConstant(); unsigned long sd = g.seed32(); cl.setRandomSeed(sd); t.describe(c.d);
  double f = g.logreal(2, 4); c.d << "factor " << f << " seed " << sd; int n = 40; int before = (int)g.in(1, 3); std::set<int> left;
  for (int w = 0; w < n; ++w) { for (int i = 0; i < before; ++i) { cl.getDwellTime(w); if (i + 1 < before || g.flip()) { if (t.index(cl.pickNewSiteId(w)) >= t.n) { left.insert(w); break; } } else break; } cl.occupy(t.id[0]); cl.removeWalker(w, t.id[0]); }
  for (int i = 0; i < t.n; ++i) for (auto x : t.k[i]) t.set_rate(i, x.first, x.second * f);
  cl.updateProbabilitiesAndTimeConstant(); double s = 0, tau = cl.getTimeConstant(); u64 cnt = 0;
  for (int w = 0; w < n; ++w) for (int guard = 0;; ++guard) { double d = cl.getDwellTime(w); REQUIRE(d > 0, "removed walker comes back with a piece of " << d); s += d; REQUIRE(s < 400 * n * tau, "walker removed before the rates grew " << f << " fold still stays by the old time constant"); if (t.index(cl.pickNewSiteId(w)) >= t.n) { ++cnt; break; } }
  REQUIRE(gamma_exponent(s, cnt, tau) < STAT, "mean stay after removal and update is " << s / cnt << " expected " << tau << " (" << cnt << " stays)"); c.nontrivial(left.size() < (size_t)n);
}
// the length of a stay, learned from a cluster built and seeded alike, is cut into pieces that leave next to nothing, or just too little
SUB(next_to_nothing, 6000, 48000) {
  Net t = gen_net(g, 2, 5, (int)g.pick(std::vector<int>{Equal, Mild, Basin})); Conv v; v.it = 20; Cluster a, b; unsigned long sd = g.seed32(); int wid = (int)g.sym(-1000, 1000); for (Cluster* q : {&a, &b}) { apply(*q, v); build(*q, t, iota(t.n)); q->setResolution(2); q->updateProbabilitiesAndTimeConstant(); q->setRandomSeed(sd); }
  double T = 0; for (int guard = 0; guard < 1000; ++guard) { T += a.getDwellTime(wid); if (t.index(a.pickNewSiteId(wid)) >= t.n) break; } double tau = a.getTimeConstant(); t.describe(c.d);
  // the stay of b is drawn under a resolution of 2 as well, then the increment is changed
  double d = b.getDwellTime(wid); int first = t.index(b.pickNewSiteId(wid)); double left = T - d; if (first >= t.n) { REQUIRE(near(d, T, 1e-9), "clusters built and seeded alike give stays of " << d << " and " << T); c.label("left at once"); return; }
  double delta = g.logreal(-11, -3); int kmin = (int)std::ceil(2.2 * left / tau); int k = (int)g.in(std::max(1, kmin), std::max(1, kmin) + 20); bool more = g.flip(); double inc = left / k * (more ? 1 - delta : 1 + delta); if (tau / inc < 2) throw Discard(); b.setResolution(tau / inc); inc = b.getTimeIncrement(); c.d << "stay " << T << " of " << tau << ", then " << k << " pieces of " << inc;
  int n = more ? k + 1 : k; double sum = d;
  for (int i = 1; i <= n; ++i) {
    double p = b.getDwellTime(wid); REQUIRE(p > 0 && p <= inc * (1 + 1e-9), "piece " << i << " is " << p << " with an increment of " << inc); sum += p; bool out = t.index(b.pickNewSiteId(wid)) >= t.n;
    if (i < n) REQUIRE(!out, "walker left after " << i << " pieces although " << T - sum << " of its stay of " << T << " was left"); else REQUIRE(out, "walker is kept inside after its whole stay of " << T << " (" << i << " pieces)");
    if (i == n && more) REQUIRE(std::fabs(p - left * delta) <= 1e-4 * left * delta + 1e-13 * T * (k + 2), "the last piece is " << p << " expected " << left * delta);
  }
  REQUIRE(near(sum, T, 1e-9), "the pieces add up to " << sum << ", the stay is " << T); c.nontrivial(true); c.label(more ? "next to nothing left" : "just too little left");
}
// tails: very long and very short stays
SUB(tails, 12, 96) {
  Net t = gen_net(g, 2, 4, (int)g.pick(std::vector<int>{Equal, Mild, Basin}), false); Conv v; v.it = 20; Cluster cl; apply(cl, v); build(cl, t, iota(t.n)); cl.setResolution(2); cl.updateProbabilitiesAndTimeConstant(); unsigned long sd = g.seed32(); cl.setRandomSeed(sd); double tau = cl.getTimeConstant(); t.describe(c.d); c.d << "seed " << sd; const u64 n = 600000; std::set<int> mem; for (int i = 0; i < t.n; ++i) mem.insert(t.id[i]);
  std::vector<double> hi{1, 2, 4, 6, 8, 9, 10}, lo{0.5, 0.1, 1e-2, 1e-3, 1e-4}; std::vector<u64> ch(hi.size() + 1), clo(lo.size() + 1); int w = (int)g.sym(-50, 50); std::vector<double> first;
  for (u64 i = 0; i < n; ++i) { double d = 0; do d += cl.getDwellTime(w); while (mem.count(cl.pickNewSiteId(w))); d /= tau; if (first.size() < 200000) first.push_back(d); size_t h = 0; while (h < hi.size() && d > hi[h]) ++h; ch[h]++; size_t l = 0; while (l < lo.size() && d < lo[l]) ++l; clo[l]++; }
  std::sort(first.begin(), first.end()); u64 equal = 0; for (size_t i = 1; i < first.size(); ++i) equal += first[i] == first[i - 1];
  REQUIRE(equal <= 60, equal << " of " << first.size() << " stays are equal to others, they are not spread continuously");
  u64 k = 0; for (size_t i = hi.size(); i-- > 0;) { k += ch[i + 1]; REQUIRE(binomial_exponent(k, n, std::exp(-hi[i])) < STAT, k << " of " << n << " stays are longer than " << hi[i] << " times the mean, expected share " << std::exp(-hi[i])); }
  k = 0; for (size_t i = lo.size(); i-- > 0;) { k += clo[i + 1]; REQUIRE(binomial_exponent(k, n, -std::expm1(-lo[i])) < STAT, k << " of " << n << " stays are shorter than " << lo[i] << " times the mean, expected share " << -std::expm1(-lo[i])); }
  c.nontrivial(true);
}
