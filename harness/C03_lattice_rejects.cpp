#include "lattice.hpp"
PROPERTY("C03",
  "Generated lattices and queries with arguments in range, just outside and far outside (each query kind x each argument kind); "
  "non-trivial = at least one argument of the query is out of range.")
static long long bad_index(Src& g, long long total) {
  switch (g.below(5)) {
    case 0: return -1;
    case 1: return total <= 2147483647LL ? std::min(total, 2147483647LL) : -2;
    case 2: return -g.in(1, 2147483648LL);
    case 3: return -g.in(1, std::min<long long>(2 * total, 2147483647LL));
    default: return total < 2147483647LL ? g.in(total, 2147483647LL) : -1;
  }
}
SUB(index_queries, 360000, 2880000) {
  Spec s = gen_spec(g, g.chance(3, 4) ? 300LL : 1000000LL, g.flip() ? 8 : 1000);
  s.describe(c.d);
  Cuboid l = s.make();
  bool bad = g.chance(3, 4);
  long long i = bad ? bad_index(g, s.total()) : g.in(0, s.total() - 1);
  if (bad && i >= 0 && i < s.total()) bad = false;
  c.nontrivial(bad);
  int kind = (int)g.below(8);
  double cut = 1.5 * s.a;
  long long j = g.in(0, s.total() - 1);
  c.d << " query " << kind << " index " << i << " other " << j;
  c.label((bad ? "refused query " : "valid query ") + std::to_string(kind));
  int I = (int)i;
  auto call = [&] {
    switch (kind) {
      case 0: l.getPosition(I); break;
      case 1: l.getX(I); break;
      case 2: l.getY(I); break;
      case 3: l.getZ(I); break;
      case 4: l.getNeighbors(I, cut); break;
      case 5: l.getNeighborDistances(I, cut); break;
      case 6: l.getSmallestDistance(I, (int)j); break;
      case 7: l.getSmallestDistance((int)j, I); break;
    }
  };
  if (bad) MUST_THROW(std::invalid_argument, "index " << i << " outside 0.." << s.total() - 1 << " in query " << kind, call());
  else MUST_ACCEPT("index " << i << " in query " << kind, call());
  // the lattice still answers
  REQUIRE(l.getIndex(l.getPosition((int)j)) == j, "lattice unusable after the query");
}
SUB(position_queries, 240000, 1920000) {
  Spec s = gen_spec(g, 400, 9); s.describe(c.d); Cuboid l = s.make();
  int kind = (int)g.below(3);  // 0: index from vector 1: index from coordinates 2: neighbour distances
  std::vector<int> v; bool bad = false;
  int len = 3;
  if (kind != 1 && g.chance(1, 4)) { len = (int)g.below(7); }
  if (len != 3) bad = true;
  for (int k = 0; k < len; ++k) {
    int ax = k % 3; long long x = g.in(0, s.n[ax] - 1);
    if (g.chance(1, 4)) {
      x = g.flip() ? g.in(s.n[ax], s.n[ax] + 3) : -g.in(1, 4);
      if (g.chance(1, 5)) x = g.flip() ? 2147483647LL : -2147483647LL - 1;
      if (!s.per[ax] || kind == 2) bad = true;
    }
    v.push_back((int)x);
  }
  c.d << " kind " << kind << " position"; for (int x : v) c.d << " " << x;
  c.nontrivial(bad);
  c.label_if(len != 3, "wrong number of entries");
  auto call = [&] {
    if (kind == 0) l.getIndex(v);
    else if (kind == 1) l.getIndex(v[0], v[1], v[2]);
    else l.getNeighborDistances(v, 1.2 * s.a);
  };
  if (bad) MUST_THROW(std::invalid_argument, "position off the lattice (query kind " << kind << ")", call());
  else MUST_ACCEPT("position on the lattice (query kind " << kind << ")", call());
}
SUB(planes, 180000, 1440000) {
  Spec s = gen_spec(g, 400, 9); s.describe(c.d); Cuboid l = s.make();
  int pl = (int)g.below(3); Cuboid::Plane P[3] = {Cuboid::Plane::YZ, Cuboid::Plane::XZ, Cuboid::Plane::XY};
  long long x = g.in(0, s.n[pl] - 1); bool bad = g.chance(2, 3);
  if (bad) { x = g.flip() ? g.in(s.n[pl], s.n[pl] + 3) : -g.in(1, 4); if (g.chance(1, 5)) x = g.flip() ? 2147483647LL : -2147483648LL; }
  c.d << " plane normal to axis " << pl << " at " << x; c.nontrivial(bad);
  if (bad) MUST_THROW(std::invalid_argument, "plane index " << x << " outside 0.." << s.n[pl] - 1, l.getRandomSite(P[pl], (int)x));
  else MUST_ACCEPT("plane index " << x, l.getRandomSite(P[pl], (int)x));
}
SUB(construction, 120000, 960000) {
  Spec s = gen_spec(g, 400, 9);
  int which = (int)g.below(8); bool bad = false;
  for (int k = 0; k < 3; ++k) if (which >> k & 1) { s.n[k] = -(int)(g.chance(1, 4) ? (g.flip() ? g.in(1, 1000) : g.in(1, 2147483647LL)) : g.in(1, 3)); bad = true; }
  s.describe(c.d); c.nontrivial(bad);
  if (bad) MUST_THROW(std::invalid_argument, "negative edge", s.make());
  else MUST_ACCEPT("positive edges", s.make());
}
// sites are numbered with ints
SUB(too_many_sites, 120000, 960000) {
  Spec s = gen_spec(g, 8, 8); const long long most = 2147483647LL; int o = (int)g.below(3); long long left = most;
  for (int k = 0; k < 2; ++k) { long long e = g.flip() ? g.in(1, 2000) : (long long)g.logreal(0, 9.3); e = std::max(1LL, std::min(e, g.chance(1, 8) ? most : left)); s.n[(k + o) % 3] = (int)e; left = std::max(1LL, left / e); }
  int z = (2 + o) % 3; long long e = left + (g.chance(1, 2) ? g.sym(-2, 2) : g.chance(1, 2) ? (long long)g.logreal(0, 9.3) : -(long long)(left * g.unit())); s.n[z] = (int)std::max(1LL, std::min(e, most));
  bool bad = (long double)s.n[0] * s.n[1] * s.n[2] > (long double)most; s.describe(c.d); c.nontrivial(bad || s.total() > most / 2); c.label_if(!bad && s.total() > most / 2, "nearly too many");
  if (bad) { MUST_THROW(std::invalid_argument, "a lattice with more sites than an int can number", s.make()); return; }
  Cuboid l = s.make(); long long t = s.total(), i = g.chance(1, 3) ? t - 1 : g.in(0, t - 1); auto p = l.getPosition((int)i); long long q[3]; s.pos(i, q);
  REQUIRE(p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && l.getIndex(p) == i, "site " << i << " of a lattice of " << t << " sites is misplaced");
  if (t <= most) MUST_THROW(std::invalid_argument, "index " << t, l.getPosition((int)std::min(t, most)));
}
// a lattice without sites refuses every question about one
SUB(no_sites, 60000, 480000) {
  Spec s = gen_spec(g, 100, 6); int z = (int)g.in(1, 7); for (int k = 0; k < 3; ++k) if (z >> k & 1) s.n[k] = 0;
  s.describe(c.d); Cuboid l(1, 1, 1); MUST_ACCEPT("a lattice with an edge of no sites", l = s.make()); auto any = [&](int k) { return (int)(g.flip() ? 0 : g.chance(1, 3) ? g.sym(-2147483647LL, 2147483647LL) : g.sym(-2, s.n[k] + 2)); };
  int kind = (int)g.below(8), x = any(0), y = any(1), w = any(2); c.d << " query " << kind << " with " << x << "," << y << "," << w; c.nontrivial(true); c.label("query " + std::to_string(kind));
  MUST_THROW(std::invalid_argument, "query " << kind << " of a lattice without sites", switch (kind) { case 0: l.getIndex(x, y, w); break; case 1: l.getIndex(std::vector<int>{x, y, w}); break; case 2: l.getPosition(x); break; case 3: l.getX(x); break;
    case 4: l.getNeighbors(x, s.a); break; case 5: l.getNeighborDistances(x, s.a); break; case 6: l.getNeighborDistances(std::vector<int>{x, y, w}, s.a); break; default: l.getSmallestDistance(x, y); });
  int pl = (int)g.below(3); Cuboid::Plane P[3] = {Cuboid::Plane::YZ, Cuboid::Plane::XZ, Cuboid::Plane::XY}; MUST_THROW(std::invalid_argument, "a random site of a lattice without sites", l.getRandomSite(P[pl], any(pl)));
}
