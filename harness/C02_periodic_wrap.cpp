#include "lattice.hpp"
PROPERTY("C02",
  "Generated lattices with every boundary combination, base positions, and shifts by whole periods to anywhere in the int range; "
  "non-trivial = a periodic axis is shifted by at least one period, or a fixed axis is given an outside coordinate.")
SUB(wrap, 1200000, 9600000) {
  Spec s = gen_spec(g, g.flip() ? 1000LL : 1000000000LL, g.flip() ? 12 : 1000000000); s.ctor = 2;
  for (int k = 0; k < 3; ++k) s.per[k] = g.flip();
  s.describe(c.d);
  Cuboid l = s.make();
  long long base[3], q[3]; bool shifted = false, refuse = false;
  for (int k = 0; k < 3; ++k) {
    base[k] = g.in(0, s.n[k] - 1); q[k] = base[k];
    if (s.per[k]) {
      long long up = (2147483647LL - base[k]) / s.n[k], down = (2147483648LL + base[k]) / s.n[k];
      long long m;
      if (g.chance(3, 4)) { m = g.sym(-6, 6); m = std::max(-down, std::min(up, m)); }
      else if (g.flip()) m = g.sym(-down, up); else m = g.flip() ? up - g.in(0, std::min(up, 2LL)) : -(down - g.in(0, std::min(down, 2LL)));
      q[k] = base[k] + m * s.n[k];
      if (m) shifted = true;
      c.label_if(m < -1, "shifted down by more than one period");
      c.label_if(m > 1, "shifted up by more than one period");
    } else if (g.chance(1, 10)) {
      refuse = true;
      long long lim = 2147483647LL;
      if (s.n[k] <= lim - 1 && g.flip()) q[k] = g.chance(1, 2) ? s.n[k] : g.in(s.n[k], lim);
      else q[k] = g.chance(1, 2) ? -1 : -g.in(1, lim);
    }
  }
  c.d << " base " << base[0] << "," << base[1] << "," << base[2] << " asked " << q[0] << "," << q[1] << "," << q[2];
  c.nontrivial(shifted || refuse);
  std::vector<int> v{(int)q[0], (int)q[1], (int)q[2]};
  if (refuse) {
    c.label("outside on a fixed axis");
    MUST_THROW(std::invalid_argument, "position outside a fixed axis", l.getIndex(v[0], v[1], v[2]));
    MUST_THROW(std::invalid_argument, "position vector outside a fixed axis", l.getIndex(v));
  } else {
    int i = -1, j = -1;
    MUST_ACCEPT("position on the lattice", i = l.getIndex(v[0], v[1], v[2]); j = l.getIndex(v));
    long long want = s.index(base[0], base[1], base[2]);
    REQUIRE(i == want && j == want, "shifted position names site " << i << "/" << j << " instead of " << want);
    std::vector<int> p = l.getPosition(i);
    REQUIRE(p.size() == 3 && p[0] == base[0] && p[1] == base[1] && p[2] == base[2], "shifted position does not map back to the base cell");
  }
}
// neighbouring cells across the boundary, walking a path one step at a time
SUB(walk, 96000, 768000) {
  Spec s = gen_spec(g, 200, 9); s.ctor = 2;
  for (int k = 0; k < 3; ++k) s.per[k] = g.chance(2, 3);
  s.describe(c.d); Cuboid l = s.make();
  int pos[3] = {0, 0, 0}; long long cell[3] = {0, 0, 0};
  int steps = (int)g.in(1, 60); bool crossed = false;
  c.d << " walk";
  for (int t = 0; t < steps; ++t) {
    int ax = (int)g.below(3), dir = g.flip() ? 1 : -1;
    if (!s.per[ax] && (cell[ax] + dir < 0 || cell[ax] + dir >= s.n[ax])) {
      int q[3] = {pos[0], pos[1], pos[2]}; q[ax] += dir;
      MUST_THROW(std::invalid_argument, "step off a fixed axis", l.getIndex(q[0], q[1], q[2]));
      continue;
    }
    pos[ax] += dir; cell[ax] = ((cell[ax] + dir) % s.n[ax] + s.n[ax]) % s.n[ax];
    c.d << " " << (dir > 0 ? "+" : "-") << "xyz"[ax];
    if (pos[ax] < 0 || pos[ax] >= s.n[ax]) crossed = true;
    int i = l.getIndex(pos[0], pos[1], pos[2]);
    REQUIRE(i == s.index(cell[0], cell[1], cell[2]), "after the walk, position " << pos[0] << "," << pos[1] << "," << pos[2] << " is site " << i
      << " expected " << s.index(cell[0], cell[1], cell[2]));
  }
  c.nontrivial(crossed);
}
