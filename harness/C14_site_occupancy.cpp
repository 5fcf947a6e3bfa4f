#include "pbt.hpp"
#include <deque>
#include "libmythical/site_container.hpp"
using namespace pbt;
using namespace mythical;
PROPERTY("C14",
  "Generated histories of arrivals, departures, removals, status marks, visit settings, copies and queries on up to 4 sites, directly and through a site container, against a counter model; "
  "non-trivial = an arrival, a departure or removal, and two walkers on one site at once or a status mark.",
  {"a walker leaves only a site it is on; status marks are used only on sites with at most one walker"})
struct M { int occ = 0, vis = 0; };
SUB(history, 400000, 6000000) {
  int n = (int)g.in(1, 4); auto ids = g.ids(n); std::deque<Site> s(n); std::vector<M> m(n); Site_Container box; std::vector<bool> inbox(n, false);
  std::deque<double> own;
  for (int i = 0; i < n; ++i) {
    s[i].setId(ids[i]); if (g.flip()) { own.push_back(1.0); s[i].addNeighRate({ids[i] + (ids[i] > 0 ? -1 : 1), &own.back()}); }
    if (g.chance(1, 3)) { box.addSite(s[i]); inbox[i] = true; c.d << "box" << i << " "; }
  }
  auto ref = [&](int i) -> Site& { return inbox[i] ? box.getSite(ids[i]) : s[i]; };
  int steps = (int)g.in(1, 40), arr = 0, dep = 0; bool dbl = false, mark = false;
  for (int t = 0; t < steps; ++t) {
    int k = (int)g.below(n), w = (int)g.in(0, 5); Site& x = ref(k); M& q = m[k];
    switch (g.below(9)) {
      case 0: c.d << "arrive" << k << " "; x.occupy(); ++q.occ; ++q.vis; ++arr; break;
      case 1: { int r = g.chance(1, 40) ? (int)g.in(2, 700) : 1; c.d << "arrive" << k << "(id) x" << r << " "; for (int i = 0; i < r; ++i) { x.occupy(ids[k]); ++q.occ; ++q.vis; } ++arr; break; }
      case 2: if (inbox[k]) { c.d << "box.occupy" << k << " "; box.occupy(ids[k]); ++q.occ; ++q.vis; ++arr; } break;
      case 3: if (q.occ > 0) { c.d << "leave" << k << " "; if (inbox[k] && g.flip()) box.vacate(ids[k]); else x.vacate(); --q.occ; ++dep; } break;
      case 4: if (q.occ > 0) { int r = g.chance(1, 5) ? (int)g.in(1, q.occ) : 1; c.d << "leave" << k << "(id) x" << r << " "; for (int i = 0; i < r; ++i) { x.vacate(ids[k]); --q.occ; } ++dep; } break;
      case 5: if (q.occ > 0) { c.d << "remove" << k << " "; x.removeWalker(w, ids[k]); --q.occ; ++dep; } break;
      case 6: if (q.occ <= 1) { mark = true; if (g.flip()) { c.d << "mark" << k << " "; x.setToOccupiedStatus(); q.occ = 1; } else { c.d << "unmark" << k << " "; x.setToUnoccupiedStatus(); q.occ = 0; } } break;
      case 7: { int f = g.chance(1, 8) ? 2147480000 : (int)g.in(0, 1000000); c.d << "visits" << k << "=" << f << " "; if (g.flip()) x.setVisitFrequency(f); else x.setVisitFrequency(f, ids[k]); q.vis = f; break; }
      default: { int j = (int)g.below(n); if (j != k && !inbox[j] && !inbox[k]) { c.d << "s" << k << "=s" << j << " "; s[k] = s[j]; s[k].setId(ids[k]); q = m[j]; } }
    }
    dbl = dbl || q.occ >= 2;
    for (int i = 0; i < n; ++i) {
      Site& y = ref(i);
      REQUIRE(y.isOccupied() == (m[i].occ > 0), "site " << i << " with " << m[i].occ << " walkers reports occupied=" << y.isOccupied());
      REQUIRE(y.isOccupied(ids[i]) == (m[i].occ > 0), "site " << i << " with " << m[i].occ << " walkers reports occupied(id)=" << y.isOccupied(ids[i]));
      if (inbox[i]) REQUIRE(box.isOccupied(ids[i]) == (m[i].occ > 0), "container reports occupied=" << box.isOccupied(ids[i]) << " for a site with " << m[i].occ << " walkers");
      REQUIRE(y.getVisitFrequency() == m[i].vis && y.getVisitFrequency(ids[i]) == m[i].vis, "site " << i << " reports " << y.getVisitFrequency() << " visits, expected " << m[i].vis);
    }
  }
  c.nontrivial(arr > 0 && dep > 0 && (dbl || mark)); c.label_if(dbl, "two walkers on one site"); c.label_if(mark, "status marked");
}
