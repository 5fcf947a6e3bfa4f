#include "lattice.hpp"
PROPERTY("C01",
  "Generated lattices (edges 1..40 exhaustively walked; edges and site counts up to 1e9 with probed sites) with all boundary settings and constructors; "
  "non-trivial = at least two edges longer than one site and not all edges equal.")

static void probe(const Spec& s, const Cuboid& l, long long i) {
  long long p[3]; s.pos(i, p);
  std::vector<int> v{(int)p[0], (int)p[1], (int)p[2]};
  REQUIRE(l.getIndex(v[0], v[1], v[2]) == i, "index of (" << v[0] << "," << v[1] << "," << v[2] << ") is " << l.getIndex(v[0], v[1], v[2]) << " expected " << i);
  REQUIRE(l.getIndex(v) == i, "index of position vector differs from index of its coordinates");
  std::vector<int> q = l.getPosition((int)i);
  REQUIRE(q == v, "position of index " << i << " is wrong");
  REQUIRE(l.getX((int)i) == v[0] && l.getY((int)i) == v[1] && l.getZ((int)i) == v[2], "single coordinates of index " << i << " are "
    << l.getX((int)i) << "," << l.getY((int)i) << "," << l.getZ((int)i) << " expected " << v[0] << "," << v[1] << "," << v[2]);
  REQUIRE(l.getIndex(q) == i, "round trip index->position->index of " << i);
}
static void common(const Spec& s, const Cuboid& l) {
  REQUIRE(l.getLength() == s.n[0] && l.getWidth() == s.n[1] && l.getHeight() == s.n[2], "edges are not the ones given");
  REQUIRE(l.getLatticeSpacing() == s.a, "spacing is not the one given");
  REQUIRE(l.isXPeriodic() == s.per[0] && l.isYPeriodic() == s.per[1] && l.isZPeriodic() == s.per[2], "boundary settings are not the ones given");
}
SUB(every_site, 36000, 288000) {
  Spec s = gen_spec(g, 4000, 40); s.describe(c.d);
  c.nontrivial((s.n[0] > 1) + (s.n[1] > 1) + (s.n[2] > 1) >= 2 && !(s.n[0] == s.n[1] && s.n[1] == s.n[2]));
  Cuboid l = s.make(); common(s, l);
  std::vector<char> seen(s.total(), 0);
  for (int z = 0; z < s.n[2]; ++z) for (int y = 0; y < s.n[1]; ++y) for (int x = 0; x < s.n[0]; ++x) {
    int i = l.getIndex(x, y, z);
    REQUIRE(i >= 0 && i < s.total(), "index " << i << " of (" << x << "," << y << "," << z << ") outside 0.." << s.total() - 1);
    REQUIRE(!seen[i], "index " << i << " given to two positions");
    seen[i] = 1;
  }
  for (long long i = 0; i < s.total(); ++i) probe(s, l, i);
}
SUB(large_lattices, 240000, 1920000) {
  Spec s = gen_huge(g); s.describe(c.d);
  c.nontrivial((s.n[0] > 1) + (s.n[1] > 1) + (s.n[2] > 1) >= 2 && !(s.n[0] == s.n[1] && s.n[1] == s.n[2]));
  c.label_if(s.total() > 100000000LL, "more than 1e8 sites");
  Cuboid l = s.make(); common(s, l);
  probe(s, l, 0); probe(s, l, s.total() - 1);
  for (int k = 0; k < 12; ++k) {
    long long i = g.in(0, s.total() - 1);
    c.d << " site " << i;
    probe(s, l, i);
  }
  // corners and row ends
  for (int m = 0; m < 8; ++m)
    probe(s, l, s.index((m & 1) ? s.n[0] - 1 : 0, (m & 2) ? s.n[1] - 1 : 0, (m & 4) ? s.n[2] - 1 : 0));
}
