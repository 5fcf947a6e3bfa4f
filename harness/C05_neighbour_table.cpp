#include "lattice.hpp"
PROPERTY("C05",
  "Generated lattices, spacings, boundary settings and cutoffs up to 2.5 edges; the whole table is compared with brute-force minimum-image distances of all pairs; "
  "non-trivial = at least one pair is within the cutoff and one is not, on a lattice with two or more long edges.",
  {"cutoffs within 1e-9 relative of a lattice distance are not decided for that distance, unless equal to it and the distance is exactly representable", "cutoff >= 0"})
SUB(table, 18000, 144000) {
  Spec s = g.chance(1, 8) ? gen_spec(g, 180, 180) : gen_spec(g, 90, 10); s.describe(c.d); Cuboid l = s.make();
  int me = std::max(s.n[0], std::max(s.n[1], s.n[2]));
  double u;
  switch (g.below(5)) {
    case 4: u = (double)g.in(1, std::min(me, 5)); if (g.flip()) { s.a = g.pick(std::vector<double>{1, 0.5, 2, 1.5, 0.25, 10, 8}); if (s.ctor == 0) s.ctor = 1; l = s.make(); c.d << " spacing now " << s.a; } c.label("whole cutoff"); break;
    case 0: u = std::sqrt((double)g.in(0, 9)) + (g.flip() ? 1e-6 : -1e-6); break;
    case 1: u = (double)g.in(0, std::min(me, 7)) + 0.5; break;
    default: u = g.real(0, std::min(2.5 * me, 8.0));
  }
  if (u < 0) u = 0;
  double cut = u * s.a; c.d << " cutoff " << cut;
  auto t = l.getNeighborDistances(cut);
  long long n = s.total(); bool some = false, none = false;
  for (auto& r : t) {
    REQUIRE(r.first >= 0 && r.first < n, "row for " << r.first << " which is not a site");
    for (auto& q : r.second) {
      REQUIRE(q.first >= 0 && q.first < n && q.first != r.first, "row of " << r.first << " lists " << q.first);
    }
  }
  for (long long i = 0; i < n; ++i) for (long long j = 0; j < n; ++j) if (i != j) {
    double d = s.dist(i, j);
    int side = s.side(i, j, cut); bool in = side < 0, out = side > 0;
    auto r = t.find((int)i); bool has = false; double got = 0;
    if (r != t.end()) { auto q = r->second.find((int)j); if (q != r->second.end()) { has = true; got = q->second; } }
    if (in) { some = true; REQUIRE(has, "pair " << i << "," << j << " at distance " << d << " within cutoff missing"); }
    if (out) { none = true; REQUIRE(!has, "pair " << i << "," << j << " at distance " << d << " beyond cutoff listed"); }
    if (has) {
      REQUIRE(near(got, d, 1e-9), "pair " << i << "," << j << " listed with distance " << got << " expected " << d);
      auto r2 = t.find((int)j);
      REQUIRE(r2 != t.end() && r2->second.count((int)i) && r2->second.at((int)i) == got, "table not symmetric for " << i << "," << j);
    }
  }
  c.nontrivial(some && none && (s.n[0] > 1) + (s.n[1] > 1) + (s.n[2] > 1) >= 2);
  c.label_if(some, "has neighbours");
}
