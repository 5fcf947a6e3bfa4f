#include "cluster.hpp"
PROPERTY("C24",
  "Generated histories of arrivals, departures, removals (by member site), arrivals and departures of the cluster as a whole, updates and merges, on clusters whose members may be occupied when added, against a set model; "
  "non-trivial = two members occupied at once and one of them left or removed, or a merge with occupied members.",
  {"at most one walker per member site and departures only from occupied sites, as the simulation guarantees"})
struct K { Mem m; Cluster* cl; std::set<int> occ; int whole = 0; };
static void check(const Net& t, K& k) {
  for (int i : k.m) REQUIRE(k.cl->isOccupied(t.id[i]) == (k.occ.count(i) > 0), "member " << t.id[i] << (k.occ.count(i) ? " has a walker" : " has no walker") << " but reports occupied=" << k.cl->isOccupied(t.id[i]));
  bool want = !k.occ.empty() || k.whole > 0; REQUIRE(k.cl->isOccupied() == want, "cluster with " << k.occ.size() << " occupied members and " << k.whole << " arrivals as a whole reports occupied=" << k.cl->isOccupied());
}
SUB(history, 24000, 250000) {
  Net t = gen_net(g, 4, 7, (int)g.below(2)); t.describe(c.d); std::vector<Cluster> cl(2); std::vector<K> ks; int nc = (int)g.in(1, 2), cut = nc == 2 ? (int)g.in(2, t.n - 2) : t.n; bool two = false, rem = false, mrg = false;
  for (int q = 0; q < nc; ++q) {
    Mem m; for (int i = q ? cut : 0; i < (q ? t.n : cut); ++i) m.insert(i);
    Mem seen; std::vector<int> st{*m.begin()}; while (!st.empty()) { int i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; for (auto& x : t.k[i]) if (in(m, x.first)) st.push_back(x.first); }
    m = seen; if (m.size() < 2) continue; bool ex = false; for (int i : m) for (auto& x : t.k[i]) ex = ex || !in(m, x.first); if (!ex) continue;
    K k; k.m = m; k.cl = &cl[q]; for (int i : m) { Site s = t.site(i); if (g.chance(1, 4)) { s.occupy(); k.occ.insert(i); c.d << "pre " << t.id[i] << " "; } cl[q].addSite(s); } cl[q].updateProbabilitiesAndTimeConstant(); check(t, k); ks.push_back(k);
  }
  if (ks.empty()) throw Discard();
  int steps = (int)g.in(1, 60);
  for (int s = 0; s < steps; ++s) {
    K& k = ks[g.below(ks.size())]; auto it = k.m.begin(); std::advance(it, g.below(k.m.size())); int i = *it, op = (int)g.below(20), w = (int)g.in(0, 6);
    if (op < 7) { if (!k.occ.count(i)) { c.d << "arrive " << t.id[i] << " "; k.cl->occupy(t.id[i]); k.occ.insert(i); } }
    else if (op < 11) { if (!k.occ.empty()) { auto o = k.occ.begin(); std::advance(o, g.below(k.occ.size())); i = *o; c.d << "leave " << t.id[i] << " "; rem = rem || k.occ.size() >= 2; k.cl->vacate(t.id[i]); k.occ.erase(i); } }
    else if (op < 14) { if (!k.occ.empty()) { auto o = k.occ.begin(); std::advance(o, g.below(k.occ.size())); i = *o; c.d << "remove " << t.id[i] << " "; rem = rem || k.occ.size() >= 2; k.cl->removeWalker(w, t.id[i]); k.occ.erase(i); } }
    else if (op == 14) { c.d << "whole+ "; k.cl->occupy(); ++k.whole; }
    else if (op == 15) { if (k.whole) { c.d << "whole- "; k.cl->vacate(); --k.whole; } }
    else if (op == 16) { c.d << "update "; k.cl->updateProbabilitiesAndTimeConstant(); }
    else if (op == 17) { c.d << "walk "; k.cl->getDwellTime(w); k.cl->pickNewSiteId(w); }
    else if (op == 18) { c.d << "visits? "; k.cl->getVisitFrequency(t.id[i]); }
    else if (ks.size() == 2 && ks[1].whole == 0) {
      Mem u = ks[0].m; u.insert(ks[1].m.begin(), ks[1].m.end()); bool link = false, ex = false; for (int a : ks[0].m) for (auto& x : t.k[a]) link = link || in(ks[1].m, x.first); for (int a : u) for (auto& x : t.k[a]) ex = ex || !in(u, x.first); if (!link || !ex) continue;
      c.d << "merge "; mrg = mrg || !ks[1].occ.empty(); ks[0].cl->migrateSitesFrom(*ks[1].cl); ks[0].m = u; ks[0].occ.insert(ks[1].occ.begin(), ks[1].occ.end()); REQUIRE(!ks[1].cl->isOccupied(), "an emptied cluster reports occupied"); ks.pop_back();
    }
    for (auto& q : ks) { two = two || q.occ.size() >= 2; check(t, q); }
  }
  for (auto& k : ks) { while (!k.occ.empty()) { int i = *k.occ.begin(); k.cl->vacate(t.id[i]); k.occ.erase(i); } while (k.whole) { k.cl->vacate(); --k.whole; } check(t, k); }
  c.nontrivial((two && rem) || mrg); c.label_if(mrg, "merged with walkers"); c.label_if(rem, "left or removed");
}
