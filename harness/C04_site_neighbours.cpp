#include "lattice.hpp"
PROPERTY("C04",
  "Generated lattices, spacings, boundary settings, sites and cutoffs up to 2.5 edges; all sites are compared with a brute-force minimum-image search; "
  "non-trivial = the cutoff reaches some site through a periodic boundary or is cut off by a fixed one.",
  {"cutoffs within 1e-9 relative of a lattice distance are not decided for that distance, unless equal to it and the distance is exactly representable", "cutoff >= 0"})
SUB(neighbours, 50000, 400000) {
  Spec s = gen_spec(g, 240, 12); s.describe(c.d); Cuboid l = s.make();
  long long i = g.in(0, s.total() - 1);
  int me = std::max(s.n[0], std::max(s.n[1], s.n[2]));
  double u;
  switch (g.below(5)) {
    case 4: u = (double)g.in(1, std::min(me, 6)); if (g.flip()) { s.a = g.pick(std::vector<double>{1, 0.5, 2, 1.5, 0.25, 10, 8}); if (s.ctor == 0) s.ctor = 1; l = s.make(); c.d << " spacing now " << s.a; } c.label("whole cutoff"); break;
    case 0: u = std::sqrt((double)g.in(0, 12)) + (g.flip() ? 1e-6 : -1e-6); break;
    case 1: u = (double)g.in(0, me) + 0.5; break;
    case 2: u = g.real(0, 3); break;
    default: u = g.real(0, std::min(2.5 * me, 14.0));
  }
  if (u < 0) u = 0;
  double cut = u * s.a;
  long long p[3]; s.pos(i, p);
  c.d << " site " << i << " (" << p[0] << "," << p[1] << "," << p[2] << ") cutoff " << cut;
  bool wrap = false, fixedcut = false, unique = true;
  for (int k = 0; k < 3; ++k) {
    double r = std::floor(u);
    if (r >= 1 && (p[k] - r < 0 || p[k] + r >= s.n[k])) (s.per[k] ? wrap : fixedcut) = true;
    if (s.per[k] && u >= 0.5 * s.n[k] * (1 - 1e-9)) unique = false;
  }
  c.nontrivial(wrap || fixedcut); c.label_if(wrap, "wraps"); c.label_if(!unique, "cutoff beyond half an edge");
  std::vector<int> nb; std::vector<std::pair<int, double>> nd, np;
  MUST_ACCEPT("neighbour search", nb = l.getNeighbors((int)i, cut); nd = l.getNeighborDistances((int)i, cut);
              np = l.getNeighborDistances(std::vector<int>{(int)p[0], (int)p[1], (int)p[2]}, cut));
  std::map<int, int> cb, cp; std::map<int, std::vector<double>> dd, dp;
  for (int j : nb) cb[j]++;
  for (auto& q : nd) { dd[q.first].push_back(q.second); }
  for (auto& q : np) { cp[q.first]++; dp[q.first].push_back(q.second); }
  auto check_id = [&](int j) {
    REQUIRE(j >= 0 && j < s.total(), "neighbour " << j << " is not a site");
    REQUIRE(j != i, "site is its own neighbour");
  };
  for (auto& q : cb) check_id(q.first);
  for (auto& q : dd) check_id(q.first);
  for (auto& q : cp) check_id(q.first);
  for (long long j = 0; j < s.total(); ++j) {
    if (j == i) continue;
    double d = s.dist(i, j);
    int side = s.side(i, j, cut); bool in = side < 0, out = side > 0;
    bool a = cb.count((int)j), b = dd.count((int)j), e = cp.count((int)j);
    if (in) REQUIRE(a && b && e, "site " << j << " at shortest distance " << d << " within cutoff " << cut << " missing (ids " << a << " distances " << b << " by position " << e << ")");
    if (out) REQUIRE(!a && !b && !e, "site " << j << " at shortest distance " << d << " beyond cutoff " << cut << " reported");
    REQUIRE(a == b && b == e, "the three forms of the search disagree on site " << j);
    if (b) {
      auto v = dd[(int)j], w = dp[(int)j]; std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end());
      REQUIRE((int)v.size() == cb[(int)j] && v.size() == w.size(), "site " << j << " is listed " << cb[(int)j] << " times without distances, " << v.size() << " times with, " << w.size() << " times by position");
      for (size_t q = 0; q < v.size(); ++q) REQUIRE(near(v[q], w[q], 1e-9), "distance to " << j << " by index is " << v[q] << ", by position " << w[q]);
      REQUIRE(near(v[0], d, 1e-9), "smallest reported distance to " << j << " is " << v[0] << " expected " << d);
      for (double x : v) {
        REQUIRE(x <= cut * (1 + 1e-9), "reported distance " << x << " beyond cutoff");
        // must be the distance to some periodic image
        double q2 = (x / s.a) * (x / s.a); bool ok = false; long long pj[3]; s.pos(j, pj);
        long long m[3]; for (int k = 0; k < 3; ++k) m[k] = s.per[k] ? (long long)(std::floor(u) / s.n[k]) + 2 : 0;
        for (long long ix = -m[0]; ix <= m[0] && !ok; ++ix) for (long long iy = -m[1]; iy <= m[1] && !ok; ++iy) for (long long iz = -m[2]; iz <= m[2] && !ok; ++iz) {
          double X = (double)(pj[0] - p[0] + ix * s.n[0]), Y = (double)(pj[1] - p[1] + iy * s.n[1]), Z = (double)(pj[2] - p[2] + iz * s.n[2]);
          if (std::fabs(X * X + Y * Y + Z * Z - q2) < 1e-6) ok = true;
        }
        REQUIRE(ok, "reported distance " << x << " to " << j << " belongs to no image");
      }
      if (unique) REQUIRE(v.size() == 1 && cb[(int)j] == 1 && cp[(int)j] == 1, "site " << j << " reported more than once");
    }
  }
}
// long edges and up to 1e9 sites with short cutoffs: only the surroundings are searched by the oracle
SUB(large_lattices, 30000, 250000) {
  Spec s = g.flip() ? gen_huge(g) : gen_spec(g, 1000000LL, 2000); s.describe(c.d); Cuboid l = s.make(); long long p[3]; bool edge = false;
  for (int k = 0; k < 3; ++k) { p[k] = g.chance(1, 3) ? g.in(0, std::min(s.n[k] - 1, 2)) : g.flip() ? s.n[k] - 1 - g.in(0, std::min(s.n[k] - 1, 2)) : g.in(0, s.n[k] - 1); }
  double u = g.flip() ? std::sqrt((double)g.in(1, 9)) + 1e-6 : g.real(0, 3.9), cut = u * s.a; int w = (int)std::floor(u); long long i = s.index(p[0], p[1], p[2]);
  c.d << " site (" << p[0] << "," << p[1] << "," << p[2] << ") cutoff " << cut; std::map<long long, std::vector<double>> want; bool undecided = false;
  for (int dx = -w; dx <= w; ++dx) for (int dy = -w; dy <= w; ++dy) for (int dz = -w; dz <= w; ++dz) {
    long long q[3] = {p[0] + dx, p[1] + dy, p[2] + dz}; bool ok = true; for (int k = 0; k < 3; ++k) { if (q[k] < 0 || q[k] >= s.n[k]) { edge = true; if (s.per[k]) q[k] = ((q[k] % s.n[k]) + s.n[k]) % s.n[k]; else ok = false; } }
    long long j = ok ? s.index(q[0], q[1], q[2]) : -1; if (!ok || j == i) continue; double d = std::sqrt((double)(dx * dx + dy * dy + dz * dz)) * s.a;
    if (d > cut * (1 + 1e-9)) continue; if (d > cut * (1 - 1e-9)) undecided = true; want[j].push_back(d);
  }
  std::vector<int> nb; std::vector<std::pair<int, double>> nd; MUST_ACCEPT("neighbour search", nb = l.getNeighbors((int)i, cut); nd = l.getNeighborDistances((int)i, cut)); std::map<long long, std::vector<double>> got; std::map<long long, size_t> cnt;
  for (auto& q : nd) got[q.first].push_back(q.second); for (int j : nb) cnt[j]++; if (undecided) { c.label("undecided"); return; }
  REQUIRE(got.size() == want.size() && cnt.size() == want.size(), "found " << cnt.size() << " neighbours (" << got.size() << " with distances), expected " << want.size());
  for (auto& q : want) { auto it = got.find(q.first); REQUIRE(it != got.end() && cnt.count(q.first), "neighbour " << q.first << " is missing"); auto a = q.second, b = it->second; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE(near(a[0], b[0], 1e-9), "distance to " << q.first << " is " << b[0] << " expected " << a[0]); REQUIRE(b.size() == cnt[q.first], "neighbour " << q.first << " is listed " << cnt[q.first] << " times without and " << b.size() << " times with distances"); if (a.size() == 1) REQUIRE(b.size() == 1, "neighbour " << q.first << " is listed " << b.size() << " times"); }
  c.nontrivial(edge && want.size() >= 3); c.label_if(s.total() > 100000000LL, "more than 1e8 sites");
}
// cutoffs much longer than the lattice: everything in reach is listed, whatever the cutoff
SUB(long_cutoffs, 800, 8000) {
  Spec s = gen_spec(g, 60, 8); int np = 0; for (int k = 0; k < 3; ++k) { if (np) s.per[k] = false; np += s.per[k]; } if (s.ctor != 2) np = 0;
  s.describe(c.d); Cuboid l = s.make(); long long i = g.in(0, s.total() - 1); double u = np ? (double)g.in(15, 2500) + 0.5 : g.flip() ? (double)g.in(15, 10000) + 0.5 : (double)g.in(500, 1500); double cut = u * s.a; c.d << " site " << i << " cutoff " << u << " edges of a cell";
  std::vector<int> nb; std::vector<std::pair<int, double>> nd; MUST_ACCEPT("neighbour search with a long cutoff", nb = l.getNeighbors((int)i, cut); nd = l.getNeighborDistances((int)i, cut));
  std::set<int> a(nb.begin(), nb.end()); std::map<int, double> b; for (auto& q : nd) { auto it = b.emplace(q).first; it->second = std::min(it->second, q.second); }
  REQUIRE(nb.size() == nd.size(), nb.size() << " neighbours without and " << nd.size() << " with distances");
  REQUIRE((long long)a.size() == s.total() - 1 && a.size() == b.size() && !a.count((int)i), a.size() << " different neighbours (" << b.size() << " with distances) of " << s.total() - 1 << " other sites");
  for (auto& q : b) REQUIRE(a.count(q.first) && near(q.second, s.dist(i, q.first), 1e-9), "distance to " << q.first << " is " << q.second << " expected " << s.dist(i, q.first));
  if (!np) REQUIRE((long long)nb.size() == s.total() - 1, "a neighbour is listed twice on a lattice without periodic axes");
  c.nontrivial(s.total() > 2); c.label_if(np > 0, "one periodic axis");
}
// along fixed axes a cutoff may be as long as it likes, "everything" included
SUB(boundless_cutoffs, 40000, 320000) {
  Spec s = gen_spec(g, 200, 14); for (int k = 0; k < 3; ++k) s.per[k] = false; s.describe(c.d); Cuboid l = s.make(); long long i = g.in(0, s.total() - 1), p[3]; s.pos(i, p);
  double cut = g.chance(1, 6) ? std::numeric_limits<double>::infinity() : g.chance(1, 6) ? std::numeric_limits<double>::max() : s.a * g.logreal(3, g.flip() ? 15 : 280); c.d << " site " << i << " cutoff " << cut;
  std::vector<int> nb; std::vector<std::pair<int, double>> nd, np; MUST_ACCEPT("neighbour search with a boundless cutoff", nb = l.getNeighbors((int)i, cut); nd = l.getNeighborDistances((int)i, cut); np = l.getNeighborDistances(std::vector<int>{(int)p[0], (int)p[1], (int)p[2]}, cut));
  REQUIRE((long long)nb.size() == s.total() - 1 && nd.size() == nb.size() && np.size() == nb.size(), "found " << nb.size() << " neighbours (" << nd.size() << " with distances, " << np.size() << " by position) of " << s.total() - 1 << " other sites");
  std::set<int> a(nb.begin(), nb.end()), b; REQUIRE(a.size() == nb.size() && !a.count((int)i), "a neighbour is listed twice, or the site itself");
  for (auto& q : nd) { b.insert(q.first); REQUIRE(a.count(q.first) && near(q.second, s.dist(i, q.first), 1e-9), "distance to " << q.first << " is " << q.second << " expected " << s.dist(i, q.first)); }
  REQUIRE(b.size() == a.size(), "a neighbour is listed twice with its distance");
  c.nontrivial(s.total() > 2); c.label_if(cut / s.a >= 2147483648.0, "more cells than an int can count");
}
