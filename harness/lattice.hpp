// Generator and reference model for the cuboid lattice (C01..C07).
#pragma once
#include "pbt.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
using namespace pbt;
using mythical::charge_transport::BoundarySetting;
using mythical::charge_transport::Cuboid;

struct Spec {
  int n[3]; double a; bool per[3]; int ctor;
  long long total() const { return 1LL * n[0] * n[1] * n[2]; }
  Cuboid make() const {
    if (ctor == 0) return Cuboid(n[0], n[1], n[2]);
    if (ctor == 1) return Cuboid(n[0], n[1], n[2], a);
    auto b = [](bool p) { return p ? BoundarySetting::Periodic : BoundarySetting::Fixed; };
    return Cuboid(n[0], n[1], n[2], a, b(per[0]), b(per[1]), b(per[2]));
  }
  long long index(long long x, long long y, long long z) const { return x + n[0] * (y + n[1] * z); }
  void pos(long long i, long long p[3]) const { p[0] = i % n[0]; p[1] = (i / n[0]) % n[1]; p[2] = i / n[0] / n[1]; }
  // squared minimum-image distance in lattice units
  double d2(long long i, long long j) const {
    long long p[3], q[3]; pos(i, p); pos(j, q);
    double s = 0;
    for (int k = 0; k < 3; ++k) {
      long long d = std::llabs(p[k] - q[k]);
      if (per[k]) d = std::min<long long>(d, n[k] - d);
      s += (double)d * (double)d;
    }
    return s;
  }
  double dist(long long i, long long j) const { return std::sqrt(d2(i, j)) * a; }
  // -1: within the cutoff, +1: beyond it, 0: too close to call.  A cutoff equal
  // to the distance is within it; that is decided where the distance is exact
  // (whole lattice units and a spacing with few binary digits).
  int side(long long i, long long j, double cut) const {
    double q = d2(i, j), d = std::sqrt(q) * a;
    if (d < cut * (1 - 1e-9)) return -1;
    if (d > cut * (1 + 1e-9)) return 1;
    double m = std::floor(std::sqrt(q) + 0.5);
    if (m * m == q && a * 64 == std::floor(a * 64) && a <= 64 && cut == m * a) return -1;
    return 0;
  }
  void describe(std::ostream& os) const {
    os << "lattice " << n[0] << "x" << n[1] << "x" << n[2] << " spacing " << a << " periodic " << per[0] << per[1] << per[2];
  }
};
// edges small enough for maxTotal sites
inline Spec gen_spec(Src& g, long long maxTotal, int maxEdge) {
  Spec s;
  { int k = (int)g.below(8); s.ctor = k < 6 ? 2 : k == 6 ? 1 : 0; }  // mostly (and when shrinking) the full constructor
  int order = (int)g.below(3);
  long long left = maxTotal;
  for (int k = 0; k < 3; ++k) {
    int ax = (k + order) % 3;
    long long hi = std::min<long long>(maxEdge, std::max<long long>(1, left));
    if (k < 2 && hi > 1 && g.chance(1, 2)) hi = std::max<long long>(1, (long long)std::pow((double)hi, 0.5));
    int e = (int)g.in(1, hi);
    if (g.chance(1, 8)) e = 1;
    s.n[ax] = e; left /= e;
  }
  s.a = 1.0;
  if (s.ctor != 0 && g.chance(2, 3)) s.a = g.flip() ? g.logreal(-3, 3) : (double)g.in(1, 20) / 10.0;
  for (int k = 0; k < 3; ++k) s.per[k] = s.ctor == 2 ? g.flip() : false;
  return s;
}
// lattices with up to as many sites as an int can number
inline Spec gen_huge(Src& g) {
  const long long top = 2147483647LL; Spec s = gen_spec(g, top, (int)top); if (!g.chance(1, 4)) return s;
  int k = (int)g.below(3); long long rest = g.pick(std::vector<long long>{1, 1, 2, 3, 46340}); for (int q = 0; q < 3; ++q) s.n[q] = 1; s.n[(k + 1) % 3] = (int)rest; s.n[k] = (int)(top / rest - g.in(0, 3)); return s;
}
