#include "cluster.hpp"
#include <functional>
PROPERTY("C36",
  "Generated sites and clusters taken through a history, then copied (constructed, assigned over a used object, through a vector that grows, or moved); the copy answers every query like the original and, given the same further history, continues identically; a history of one of them alone leaves all answers of the other unchanged; "
  "non-trivial = at least three operations before copying and three after.",
  {"rates are held by pointer, so a rate changed by its owner counts for both after each is updated", "walkers leave only sites they are on"})
// ---- clusters
struct Obs { std::vector<double> v; bool operator==(const Obs& o) const { if (v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (!near(v[i], o.v[i], 1e-9)) return false; return true; } };
static Obs look(const Net& t, Cluster& cl) {  // no query here draws a random number
  Obs o; auto& v = o.v; v.push_back(cl.getId()); v.push_back(cl.getResolution()); v.push_back(cl.getTimeConstant()); v.push_back(cl.getTimeIncrement()); v.push_back(cl.getFastestRateOffCluster()); v.push_back(cl.isOccupied()); v.push_back((double)cl.getConvergenceIterations()); v.push_back(cl.getConvergenceTolerance()); v.push_back(cl.getNumberOfSitesInCluster());
  auto nb = cl.getSiteIdsNeighboringCluster(); std::set<int> ns(nb.begin(), nb.end());
  for (size_t i = 0; i < t.id.size(); ++i) { bool in = cl.siteIsInCluster(t.id[i]); v.push_back(in); if (in) { v.push_back(cl.isOccupied(t.id[i])); v.push_back(cl.getProbabilityOfOccupyingInternalSite(t.id[i])); v.push_back(cl.getVisitFrequency(t.id[i])); } v.push_back(ns.count(t.id[i])); if (ns.count(t.id[i])) v.push_back(cl.getProbabilityOfHoppingToNeighborOfCluster(t.id[i])); }
  return o;
}
struct Op { int kind, i, w; double x; };
static Op gen_op(Src& g, const Net& t) { Op o; o.kind = (int)g.below(9); o.i = (int)g.below(t.n); o.w = (int)g.in(0, 4); o.x = (double)g.in(2, 30); return o; }
struct Twin { Cluster* cl; std::set<int> occ; };
static double apply_op(const Net& t, Twin& z, const Op& o) {
  Cluster& cl = *z.cl;
  switch (o.kind) {
    case 0: case 1: if (!z.occ.count(o.i)) { cl.occupy(t.id[o.i]); z.occ.insert(o.i); } return 0;
    case 2: if (z.occ.count(o.i)) { cl.vacate(t.id[o.i]); z.occ.erase(o.i); } return 0;
    case 3: if (z.occ.count(o.i)) { cl.removeWalker(o.w, t.id[o.i]); z.occ.erase(o.i); } return 0;
    case 4: case 5: { double d = cl.getDwellTime(o.w); return d + cl.pickNewSiteId(o.w) * 1e-3; }
    case 6: cl.setResolution(o.x); return 0;
    case 7: cl.updateProbabilitiesAndTimeConstant(); return 0;
    default: cl.setVisitFrequency((int)o.x * 100, t.id[o.i]); return cl.getVisitFrequency(t.id[o.i]);
  }
}
SUB(clusters, 6000, 120000) {
  Net t = gen_net(g, 2, 6, (int)g.below(3)), u = gen_net(g, 2, 5, (int)g.below(3)); t.describe(c.d); Conv v = gen_iter(g); if (g.chance(1, 4)) { v.method = 2; v.tol = 0.001; }
  std::vector<Cluster> box(1); Cluster& a0 = box[0]; apply(a0, v); build(a0, t, g.perm(t.n)); a0.updateProbabilitiesAndTimeConstant(); a0.setRandomSeed(g.seed32()); Twin a{&a0, {}}; int before = (int)g.in(0, 12), after = (int)g.in(1, 25);
  for (int i = 0; i < before; ++i) apply_op(t, a, gen_op(g, t));
  std::unique_ptr<Cluster> hold; Twin b; int how = (int)g.below(7); c.d << "before " << before << " how " << how << " after " << after << " ";
  if (how == 0) hold.reset(new Cluster(a0));
  else if (how == 1) { hold.reset(new Cluster); *hold = a0; }
  else if (how == 2) { hold.reset(new Cluster); build(*hold, u, iota(u.n)); hold->updateProbabilitiesAndTimeConstant(); Twin h{hold.get(), {}}; for (int i = 0; i < 4; ++i) apply_op(u, h, gen_op(g, u)); *hold = a0; }
  else if (how == 3) { Cluster tmp(a0); hold.reset(new Cluster(std::move(tmp))); }
  else if (how == 4) hold.reset(new Cluster(a0));
  else if (how == 5) { hold.reset(new Cluster(a0)); Cluster& same = a0; a0 = same; }  // assigned to itself
  else { hold.reset(new Cluster); build(*hold, u, iota(u.n)); hold->updateProbabilitiesAndTimeConstant(); Cluster copy(a0); std::swap(*hold, copy); }
  b.cl = hold.get(); b.occ = a.occ; if (how == 4) { for (int i = 0; i < 5; ++i) box.emplace_back(); a.cl = &box[0]; }  // the vector grew: the original moved
  Obs oa = look(t, *a.cl), ob = look(t, *b.cl); REQUIRE(oa == ob, "the copy answers differently from the original");
  int mode = (int)g.below(2);
  if (mode == 0) for (int i = 0; i < after; ++i) { Op o = gen_op(g, t); if (g.chance(1, 15)) { int s = (int)g.below(t.n); c.d << alter(g, t, s, 1); o.kind = 7; } double x = apply_op(t, a, o), y = apply_op(t, b, o); REQUIRE(near(x, y, 1e-9), "after the same history the original gives " << x << " and the copy " << y << " (operation " << o.kind << ")"); if (g.chance(1, 4)) REQUIRE(look(t, *a.cl) == look(t, *b.cl), "after the same history the copy answers differently from the original"); }
  else { Twin& run = g.flip() ? a : b; Twin& rest = &run == &a ? b : a; Obs was = look(t, *rest.cl); for (int i = 0; i < after; ++i) apply_op(t, run, gen_op(g, t)); if (g.chance(1, 3)) run.cl->setRandomSeed(5); if (&run == &b && g.chance(1, 3)) { hold.reset(); } REQUIRE(look(t, *rest.cl) == was, "using one of them changed the answers of the other"); for (int i = 0; i < 3; ++i) { int w = (int)g.in(0, 4); double d = rest.cl->getDwellTime(w); REQUIRE(d > 0 && d <= rest.cl->getTimeIncrement() * (1 + 1e-9), "piece of " << d); rest.cl->pickNewSiteId(w); } }
  c.nontrivial(before >= 3 && after >= 3);
}
// ---- sites
static Obs look(Site& s, const std::vector<int>& ids) {
  Obs o; auto& v = o.v; v.push_back(s.getId()); v.push_back(s.getClusterId()); v.push_back(s.partOfCluster()); v.push_back(s.isOccupied()); v.push_back(s.getVisitFrequency()); v.push_back(s.getTimeConstant()); v.push_back(s.getFastestRate());
  auto nr = s.getNeighborsAndRates(); for (int i : ids) { v.push_back(s.isNeighbor(i)); if (nr.count(i)) { v.push_back(*nr[i]); v.push_back(s.getProbabilityOfHoppingToNeighboringSite(i)); } }
  v.push_back((double)nr.size()); return o;
}
static double apply_op(Src&, Site& s, int& occ, int kind, int id, double* r) {
  switch (kind) {
    case 0: s.occupy(); ++occ; return 0;
    case 1: if (occ) { s.vacate(); --occ; } return 0;
    case 2: return s.getDwellTime(0);
    case 3: return s.pickNewSiteId(0);
    case 4: s.resetNeighRate({id, r}); return 0;
    case 5: s.setClusterId(id < 0 ? 3 : id); return 0;
    default: s.setVisitFrequency((int)*r); return s.getVisitFrequency();
  }
}
SUB(sites, 60000, 900000) {
  int n = (int)g.in(1, 6); auto ids = g.ids(n + 2); std::deque<double> own; auto rate = [&] { own.push_back(g.rate(4)); return &own.back(); };
  std::vector<Site> box(1); box[0].setId(ids[n]); for (int i = 0; i < n; ++i) box[0].addNeighRate({ids[i], rate()}); box[0].setRandomSeed(g.seed32()); int oa = 0, before = (int)g.in(0, 8), after = (int)g.in(1, 15);
  auto step = [&](Site& s, int& occ) { int k = (int)g.below(7), id = ids[g.below(n)]; apply_op(g, s, occ, k, id, rate()); c.d << k << " "; };
  for (int i = 0; i < before; ++i) step(box[0], oa);
  int how = (int)g.below(4), ob = oa; Site b; c.d << "how " << how << " ";
  if (how == 0) b = box[0]; else if (how == 1) { b.setId(7); b.addNeighRate({ids[n + 1], rate()}); int o = 0; step(b, o); b = box[0]; } else if (how == 2) { Site tmp(box[0]); b = std::move(tmp); } else { Site tmp(box[0]); b = tmp; for (int i = 0; i < 5; ++i) box.emplace_back(); }
  Site& a = box[0]; REQUIRE(look(a, ids) == look(b, ids), "the copy answers differently from the original");
  if (g.flip()) for (int i = 0; i < after; ++i) { int k = (int)g.below(7), id = ids[g.below(n)]; double* r = rate(); double x = apply_op(g, a, oa, k, id, r), y = apply_op(g, b, ob, k, id, r); REQUIRE(near(x, y, 1e-9), "after the same history the original gives " << x << " and the copy " << y); REQUIRE(look(a, ids) == look(b, ids), "after the same history the copy answers differently from the original"); }
  else { bool first = g.flip(); Site& run = first ? a : b; int& occ = first ? oa : ob; Site& rest = first ? b : a; Obs was = look(rest, ids); for (int i = 0; i < after; ++i) step(run, occ); REQUIRE(look(rest, ids) == was, "using one of them changed the answers of the other"); }
  c.nontrivial(before >= 3 && after >= 3);
}
