#include "lattice.hpp"
PROPERTY("C07",
  "Generated lattices, planes and plane indices; membership is checked for every draw, frequencies against the uniform law with a Chernoff bound (false alarm below 1e-11 per comparison); "
  "non-trivial = the two in-plane edges differ and at least one is longer than one site.")
static Cuboid::Plane P[3] = {Cuboid::Plane::YZ, Cuboid::Plane::XZ, Cuboid::Plane::XY};
SUB(in_plane, 360000, 2880000) {
  Spec s = g.chance(3, 4) ? gen_spec(g, 500, 12) : gen_spec(g, 1000000000LL, 1000000);
  s.describe(c.d); Cuboid l = s.make();
  int n = (int)g.in(1, 30);
  for (int t = 0; t < n; ++t) {
    int ax = (int)g.below(3); long long x = g.in(0, s.n[ax] - 1);
    c.d << " | normal " << ax << " at " << x;
    int i = -1; MUST_ACCEPT("plane " << x, i = l.getRandomSite(P[ax], (int)x));
    REQUIRE(i >= 0 && i < s.total(), "drawn site " << i << " does not exist");
    long long p[3]; s.pos(i, p);
    REQUIRE(p[ax] == x, "drawn site lies at " << p[ax] << " along axis " << ax << " instead of " << x);
    c.nontrivial(s.n[(ax + 1) % 3] != s.n[(ax + 2) % 3]);
  }
}
// long edges: each in-plane coordinate falls into eight equal parts of the edge equally often
SUB(long_edges, 7200, 57600) {
  Spec s = gen_spec(g, 1000000000LL, 1000000000); s.describe(c.d); Cuboid l = s.make(); int ax = (int)g.below(3); long long x = g.in(0, s.n[ax] - 1); c.d << " normal " << ax << " at " << x; u64 n = 3000; std::map<std::pair<int, int>, u64> bin;
  for (u64 t = 0; t < n; ++t) { int i = l.getRandomSite(P[ax], (int)x); REQUIRE(i >= 0 && i < s.total(), "drawn site " << i << " does not exist"); long long p[3]; s.pos(i, p); REQUIRE(p[ax] == x, "drawn site is not in the plane"); for (int k = 0; k < 3; ++k) if (k != ax) bin[{k, (int)(8 * p[k] / s.n[k])}]++; }
  for (int k = 0; k < 3; ++k) if (k != ax) for (int b = 0; b < 8; ++b) { long long lo = (b * (long long)s.n[k] + 7) / 8, hi = ((b + 1) * (long long)s.n[k] + 7) / 8; double q = (double)(hi - lo) / s.n[k]; u64 hit = bin[{k, b}]; REQUIRE(binomial_exponent(hit, n, q) < STAT, "coordinate on axis " << k << " fell " << hit << " of " << n << " times into part " << b << " of the edge, expected share " << q); }
  c.nontrivial(s.n[(ax + 1) % 3] != s.n[(ax + 2) % 3]);
}
SUB(uniform, 14400, 115200) {
  Spec s = gen_spec(g, 200, 12); s.describe(c.d); Cuboid l = s.make();
  int ax = (int)g.below(3), b1 = (ax + 1) % 3, b2 = (ax + 2) % 3; long long x = g.in(0, s.n[ax] - 1);
  c.d << " normal " << ax << " at " << x;
  c.nontrivial(s.n[b1] != s.n[b2]);
  u64 n = 3000; std::map<int, u64> cnt; std::vector<u64> m1(s.n[b1], 0), m2(s.n[b2], 0);
  for (u64 t = 0; t < n; ++t) {
    if (g.chance(1, 300)) { int ay = (ax + 1) % 3; l.getRandomSite(P[ay], 0); }
    int i = l.getRandomSite(P[ax], (int)x); long long p[3]; s.pos(i, p); cnt[i]++;
    REQUIRE(i >= 0 && i < s.total() && p[ax] == x, "drawn site is not in the plane");
    m1[p[b1]]++; m2[p[b2]]++;
  }
  double k = (double)s.n[b1] * s.n[b2];
  for (int y = 0; y < s.n[b1]; ++y) for (int z = 0; z < s.n[b2]; ++z) {
    long long p[3]; p[ax] = x; p[b1] = y; p[b2] = z; int i = (int)s.index(p[0], p[1], p[2]);
    REQUIRE(binomial_exponent(cnt[i], n, 1 / k) < STAT, "site " << i << " drawn " << cnt[i] << " of " << n << " times, " << k << " sites in the plane");
    if (n / k > 40) REQUIRE(cnt[i] > 0, "site " << i << " of the plane never drawn");
  }
  for (int y = 0; y < s.n[b1]; ++y) REQUIRE(binomial_exponent(m1[y], n, 1.0 / s.n[b1]) < STAT, "coordinate " << y << " on axis " << b1 << " drawn " << m1[y] << " of " << n);
  for (int z = 0; z < s.n[b2]; ++z) REQUIRE(binomial_exponent(m2[z], n, 1.0 / s.n[b2]) < STAT, "coordinate " << z << " on axis " << b2 << " drawn " << m2[z] << " of " << n);
}
// edges of up to 20000 sites: each coordinate is drawn as often as the others, the first and the last included
SUB(each_coordinate, 1200, 9600) {
  int top = g.chance(1, 20) ? 20000 : 400; Spec s = gen_spec(g, (u64)top * 8, 2); int ax = (int)g.below(3), b1 = (ax + 1 + (int)g.below(2)) % 3; if (b1 == ax) b1 = (ax + 1) % 3;
  s.n[b1] = (int)g.in(13, top); s.describe(c.d); Cuboid l = s.make(); long long x = g.in(0, s.n[ax] - 1); c.d << " normal " << ax << " at " << x << ", axis " << b1;
  u64 n = 50 * (u64)s.n[b1]; std::vector<u64> m(s.n[b1], 0);
  for (u64 t = 0; t < n; ++t) { int i = l.getRandomSite(P[ax], (int)x); REQUIRE(i >= 0 && i < s.total(), "drawn site " << i << " does not exist"); long long p[3]; s.pos(i, p); REQUIRE(p[ax] == x, "drawn site is not in the plane"); m[p[b1]]++; }
  for (int y = 0; y < s.n[b1]; ++y) REQUIRE(binomial_exponent(m[y], n, 1.0 / s.n[b1]) < STAT, "coordinate " << y << " on axis " << b1 << " drawn " << m[y] << " of " << n << " times, the edge has " << s.n[b1]);
  c.nontrivial(s.n[b1] > 50);
}
