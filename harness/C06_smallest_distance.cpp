#include "lattice.hpp"
PROPERTY("C06",
  "Generated lattices (edges and numbers of sites up to 2^31-1), spacings, boundary settings and pairs of sites; "
  "non-trivial = the pair differs along at least two axes and neither site is the origin.")
SUB(metric, 3000000, 24000000) {
  Spec s = g.flip() ? gen_spec(g, 3000, 20) : gen_huge(g);
  s.describe(c.d); Cuboid l = s.make();
  long long i = g.in(0, s.total() - 1), j = g.chance(1, 12) ? i : g.in(0, s.total() - 1);
  long long p[3], q[3]; s.pos(i, p); s.pos(j, q);
  c.d << " sites (" << p[0] << "," << p[1] << "," << p[2] << ") (" << q[0] << "," << q[1] << "," << q[2] << ")";
  c.nontrivial((p[0] != q[0]) + (p[1] != q[1]) + (p[2] != q[2]) >= 2 && i && j);
  c.label_if(std::max(s.n[0], std::max(s.n[1], s.n[2])) > 50000, "edge above 50000");
  double d = l.getSmallestDistance((int)i, (int)j), e = l.getSmallestDistance((int)j, (int)i), w = s.dist(i, j);
  REQUIRE(near(d, w, 1e-9), "smallest distance " << d << " expected " << w);
  REQUIRE(near(d, e, 1e-12), "distance is not symmetric: " << d << " / " << e);
  REQUIRE((d == 0) == (i == j), "distance " << d << " for sites " << i << " and " << j);
  // common shift along periodic axes
  long long a[3], b[3];
  for (int k = 0; k < 3; ++k) {
    long long m = s.per[k] ? g.in(0, s.n[k] - 1) : 0;
    a[k] = (p[k] + m) % s.n[k]; b[k] = (q[k] + m) % s.n[k];
  }
  double f = l.getSmallestDistance((int)s.index(a[0], a[1], a[2]), (int)s.index(b[0], b[1], b[2]));
  REQUIRE(near(f, d, 1e-9), "distance changes from " << d << " to " << f << " under a common shift");
}
SUB(agrees_with_search, 180000, 1440000) {
  Spec s = gen_spec(g, 120, 8); s.describe(c.d); Cuboid l = s.make();
  long long i = g.in(0, s.total() - 1); double cut = g.real(0.3, 4.0) * s.a; c.d << " site " << i << " cutoff " << cut;
  std::map<int, double> best;
  for (auto& q : l.getNeighborDistances((int)i, cut)) { auto it = best.find(q.first); if (it == best.end() || q.second < it->second) best[q.first] = q.second; }
  c.nontrivial(best.size() >= 2);
  for (auto& q : best) {
    double d = l.getSmallestDistance((int)i, q.first);
    REQUIRE(near(d, q.second, 1e-9), "neighbour search gives " << q.second << " for site " << q.first << ", smallest distance is " << d);
  }
}
