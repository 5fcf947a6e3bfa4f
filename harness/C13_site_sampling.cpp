#include "pbt.hpp"
#include <deque>
#include <unordered_map>
#include "libmythical/topologyfeatures/site.hpp"
using namespace pbt;
using namespace mythical;
PROPERTY("C13",
  "Generated sites (1..40 neighbours, rates from equal to 12 decades apart, changed between batches) with generated seeds, sampled thousands of times; frequencies and dwell times bounded by Chernoff and DKW inequalities (false alarm < 1e-11 per comparison); "
  "non-trivial = at least two neighbours and at least 2000 draws.",
  {"only differences larger than the sampling bound are seen: about 3% of a probability of one half in one case of 20000 draws"})
struct Gen { Site s; std::deque<double> own; std::map<int, double*> m; };
static void mutate(Src& g, Gen& x, const std::vector<int>& ids, double dec, Ctx& c) {
  int k = x.m.empty() ? (int)ids.size() : (int)g.in(1, (long long)ids.size());
  for (int i = 0; i < k; ++i) {
    int id = x.m.empty() || (int)x.m.size() < (int)ids.size() ? ids[i] : g.pick(ids);
    double r = dec == 0 ? 1.0 : g.flip() ? (double)g.in(1, 4) : std::pow(10.0, g.real(-dec, dec));
    x.own.push_back(r); x.s.resetNeighRate({id, &x.own.back()}); x.m[id] = &x.own.back(); c.d << id << ":" << r << " ";
  }
  c.d << "; ";
}
static void sample(Src& g, Gen& x, u64 n, Ctx& c) {
  double sum = 0; for (auto& k : x.m) sum += *k.second;
  double mean = 1 / sum; std::map<int, u64> cnt; std::map<int, double> cs; std::vector<double> dw; dw.reserve(n); std::vector<int> ps; std::map<int, u64> pw[3]; u64 nw[3] = {0, 0, 0};
  int mode = (int)g.below(4); c.d << "mode" << mode << " n" << n << " ";
  for (u64 i = 0; i < n; ++i) {
    double d = 0; int id = 0; int walker = (int)(i % 3);
    if (mode == 0) { d = x.s.getDwellTime(walker); id = x.s.pickNewSiteId(walker); }
    else if (mode == 1) { id = x.s.pickNewSiteId(); d = x.s.getDwellTime(walker); }
    else if (mode == 2) id = x.s.pickNewSiteId(walker);
    else d = x.s.getDwellTime(walker);
    if (mode != 2) { REQUIRE(d >= 0 && std::isfinite(d), "dwell time drawn is " << d); dw.push_back(d); }
    if (mode != 3) { REQUIRE(x.m.count(id), "site picked is " << id << ", not a neighbour"); cnt[id]++; cs[id] += d; ps.push_back(id); pw[walker][id]++; nw[walker]++; }
  }
  if (mode != 3) for (auto& k : x.m) {
    double p = *k.second / sum;
    REQUIRE(binomial_exponent(cnt[k.first], n, p) < STAT, "neighbour " << k.first << " of probability " << p << " was picked " << cnt[k.first] << " times of " << n);
    for (int w = 0; w < 3; ++w) REQUIRE(binomial_exponent(pw[w][k.first], nw[w], p) < STAT, "neighbour " << k.first << " of probability " << p << " was picked " << pw[w][k.first] << " times of " << nw[w] << " by walker " << w);
  }
  if (mode != 3) {  // independence of consecutive picks: the chance that a pick repeats the last one
    double rep = 0; for (auto& k : x.m) rep += (*k.second / sum) * (*k.second / sum);
    u64 eq = 0, np = 0; for (size_t i = 1; i < ps.size(); i += 2) { eq += ps[i] == ps[i - 1]; ++np; }
    REQUIRE(binomial_exponent(eq, np, std::min(rep, 1.0)) < STAT, "consecutive picks are dependent: the same neighbour " << eq << " times of " << np << ", expected fraction " << rep);
  }
  if (mode != 2) {
    double tot = 0; for (double d : dw) tot += d;
    REQUIRE(gamma_exponent(tot, n, mean) < STAT, "mean dwell time " << tot / n << " expected " << mean << " (" << n << " draws)");
    REQUIRE(exp_ks_exponent(dw, mean) < STAT, "dwell times are not exponential with mean " << mean << " (" << n << " draws)");
    double lag = 0;  // independence of consecutive draws: successive pairs exchangeable
    u64 up = 0, pairs = 0; for (size_t i = 1; i < dw.size(); i += 2) { up += dw[i] > dw[i - 1]; ++pairs; } (void)lag;
    REQUIRE(binomial_exponent(up, pairs, 0.5) < STAT, "consecutive dwell times are not exchangeable: second larger " << up << " of " << pairs);
    u64 both = 0, trip = 0; for (size_t i = 1; i < dw.size(); i += 2) { bool a = dw[i - 1] > mean * std::log(2.0), b = dw[i] > mean * std::log(2.0); both += a == b; ++trip; }
    REQUIRE(binomial_exponent(both, trip, 0.5) < STAT, "consecutive dwell times are dependent: same side of the median " << both << " of " << trip);
  }
  if (mode < 2) for (auto& k : x.m) if (cnt[k.first])
    REQUIRE(gamma_exponent(cs[k.first], cnt[k.first], mean) < STAT, "dwell times depend on the neighbour picked: mean " << cs[k.first] / cnt[k.first] << " before picking " << k.first << ", expected " << mean);
}
static double decades(Src& g) { return g.pick(std::vector<double>{0.0, 0.5, 1.5, 6.0}); }
SUB(distribution, 12500, 100000) {
  int nid = g.chance(1, 10) ? (int)g.in(9, 40) : (int)g.in(1, 8); auto ids = g.ids(nid); double dec = decades(g); Gen x; u64 n = g.pick(std::vector<u64>{2000, 6000, 20000});
  mutate(g, x, ids, dec, c); unsigned long sd = g.seed32(); x.s.setRandomSeed(sd); sample(g, x, n, c);
  if (g.chance(1, 3)) { mutate(g, x, ids, dec, c); if (g.flip()) x.s.setRandomSeed(sd); sample(g, x, n, c); c.label("rates changed between batches"); }
  c.nontrivial(nid >= 2);
}
// seeds near each other must give the right distribution over seeds as well
SUB(over_seeds, 2000, 16000) {
  int nid = (int)g.in(2, 5); auto ids = g.ids(nid); Gen x; mutate(g, x, ids, decades(g), c); u64 n = 1500; unsigned long s0 = g.seed32();
  double sum = 0; for (auto& k : x.m) sum += *k.second; std::map<int, u64> cnt; double tot = 0; c.d << "seed " << s0;
  for (u64 i = 0; i < n; ++i) { x.s.setRandomSeed((s0 + i * 7919) & 0xffffffffUL); tot += x.s.getDwellTime(0); cnt[x.s.pickNewSiteId(0)]++; }
  for (auto& k : x.m) REQUIRE(binomial_exponent(cnt[k.first], n, *k.second / sum) < STAT, "over seeds neighbour " << k.first << " of probability " << *k.second / sum << " was picked " << cnt[k.first] << " of " << n);
  REQUIRE(gamma_exponent(tot, n, 1 / sum) < STAT, "over seeds the mean dwell time is " << tot / n << " expected " << 1 / sum);
  c.nontrivial(true);
}
SUB(reproducible, 20000, 160000) {
  int nid = (int)g.in(1, 6); auto ids = g.ids(nid); double dec = decades(g); unsigned long sd = g.seed32(); Gen a, b;
  mutate(g, a, ids, dec, c); for (auto& k : ids) { b.own.push_back(*a.m[k]); b.s.resetNeighRate({k, &b.own.back()}); }
  int pre = (int)g.in(0, 20); for (int i = 0; i < pre; ++i) b.s.getDwellTime(0);
  c.d << "seed " << sd << " pre " << pre; a.s.setRandomSeed(sd); b.s.setRandomSeed(sd);
  int n = (int)g.in(1, 60), diff = 0;
  for (int i = 0; i < n; ++i) {
    if (g.flip()) { double u = a.s.getDwellTime(0), v = b.s.getDwellTime(0); REQUIRE(near(u, v, 1e-9), "same seed and rates drew dwell times " << u << " and " << v << " at draw " << i); }
    else { int u = a.s.pickNewSiteId(0), v = b.s.pickNewSiteId(0); REQUIRE(u == v, "same seed and rates picked " << u << " and " << v << " at draw " << i); }
  }
  Gen y; for (auto& k : ids) { y.own.push_back(*a.m[k]); y.s.resetNeighRate({k, &y.own.back()}); }
  a.s.setRandomSeed(sd); y.s.setRandomSeed(sd ^ (1UL << g.below(32))); for (int i = 0; i < 4; ++i) diff += a.s.getDwellTime(0) != y.s.getDwellTime(0);
  REQUIRE(diff > 0, "different seeds gave the same dwell times"); c.nontrivial(nid >= 2 && n >= 5);
}
// tails: rare neighbours, very long and very short dwell times
SUB(tails, 16, 128) {
  int nid = (int)g.in(2, 6); auto ids = g.ids(nid); Gen x; for (int i = 0; i < nid; ++i) { double r = i < 2 && g.flip() ? 1.0 : g.logreal(-5, 0); x.own.push_back(r); x.m[ids[i]] = &x.own.back(); x.s.resetNeighRate({ids[i], &x.own.back()}); c.d << ids[i] << ":" << r << " "; }
  double sum = 0; for (auto& k : x.m) sum += *k.second; double mean = 1 / sum; unsigned long sd = g.seed32(); x.s.setRandomSeed(sd); c.d << "seed " << sd; const u64 n = 4000000; const int walker = (int)g.sym(-5, 5);
  std::vector<double> hi{1, 2, 4, 6, 8, 10, 11, 12}, lo{0.5, 0.1, 1e-2, 1e-3, 1e-4, 1e-5}; std::vector<u64> ch(hi.size() + 1), clo(lo.size() + 1); std::map<int, u64> cnt; for (int i : ids) cnt[i] = 0; u64 other = 0, zero = 0; std::vector<double> first;
  for (u64 i = 0; i < n; ++i) { double d = x.s.getDwellTime(walker) / mean; if (!(d > 0)) ++zero; if (first.size() < 200000) first.push_back(d); size_t h = 0; while (h < hi.size() && d > hi[h]) ++h; ch[h]++; size_t l = 0; while (l < lo.size() && d < lo[l]) ++l; clo[l]++; auto it = cnt.find(x.s.pickNewSiteId(walker)); if (it == cnt.end()) ++other; else it->second++; }
  // a continuous distribution: equal draws are rarer than with 32 random bits
  std::sort(first.begin(), first.end()); u64 equal = 0; for (size_t i = 1; i < first.size(); ++i) equal += first[i] == first[i - 1];
  REQUIRE(equal <= 60, equal << " of " << first.size() << " dwell times were drawn before, they are not spread continuously"); REQUIRE(zero == 0, zero << " of " << n << " dwell times are not positive");
  REQUIRE(other == 0, other << " of " << n << " picks are no neighbours");
  for (auto& k : x.m) REQUIRE(binomial_exponent(cnt[k.first], n, *k.second / sum) < STAT, "neighbour " << k.first << " of probability " << *k.second / sum << " was picked " << cnt[k.first] << " times of " << n);
  u64 t = 0; for (size_t i = hi.size(); i-- > 0;) { t += ch[i + 1]; REQUIRE(binomial_exponent(t, n, std::exp(-hi[i])) < STAT, t << " of " << n << " dwell times are longer than " << hi[i] << " times the mean, expected share " << std::exp(-hi[i])); }
  t = 0; for (size_t i = lo.size(); i-- > 0;) { t += clo[i + 1]; REQUIRE(binomial_exponent(t, n, -std::expm1(-lo[i])) < STAT, t << " of " << n << " dwell times are shorter than " << lo[i] << " times the mean, expected share " << -std::expm1(-lo[i])); }
  c.nontrivial(true);
}
