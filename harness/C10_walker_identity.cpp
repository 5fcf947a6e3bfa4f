#include "pbt.hpp"
#include <memory>
#include "libmythical/identity.hpp"
#include "libmythical/topologyfeatures/site.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "mythical/walker.hpp"
using namespace pbt;
using namespace mythical;
PROPERTY("C10",
  "Generated histories over up to 5 walkers and 5 identified objects (assign, copy, query, including the int extremes) against a model; "
  "non-trivial = at least two objects got values and one was reassigned or copied.")
static int id_of(Src& g) {
  switch (g.below(4)) { case 0: return (int)g.in(0, 5); case 1: return (int)g.sym(-5, 5); case 2: return g.flip() ? 2147483647 : -2147483647; default: return (int)g.sym(-2147483647LL, 2147483647LL); }
}
struct M { bool cur = false, pot = false; int c = 0, p = 0; double d = -1.0; bool dset = false; };
class MyWalker : public Walker { public: int extra = 0; };
SUB(walkers, 80000, 1500000) {
  int n = (int)g.in(1, 5); std::vector<MyWalker> w(n); std::vector<M> m(n); int sets = 0, re = 0;
  int steps = (int)g.in(1, 40);
  for (int t = 0; t < steps; ++t) {
    int k = (int)g.below(n);
    switch (g.below(5)) {
      case 0: { int v = id_of(g); c.d << "w" << k << ".occupy(" << v << ") "; w[k].occupySite(v); re += m[k].cur; m[k].cur = true; m[k].c = v; ++sets; break; }
      case 1: { int v = id_of(g); c.d << "w" << k << ".next(" << v << ") "; w[k].setPotentialSite(v); re += m[k].pot; m[k].pot = true; m[k].p = v; ++sets; break; }
      case 2: { double v = g.flip() ? g.logreal(-20, 20) : (double)g.in(0, 9); c.d << "w" << k << ".dwell(" << v << ") "; w[k].setDwellTime(v); re += m[k].dset; m[k].d = v; m[k].dset = true; ++sets; break; }
      case 3: { int j = (int)g.below(n); c.d << "w" << k << "=w" << j << " "; if (j != k) { w[k] = w[j]; m[k] = m[j]; ++re; } break; }
      default: break;
    }
    for (int i = 0; i < n; ++i) {
      if (m[i].cur) { int v = 0; MUST_ACCEPT("site of a placed walker", v = w[i].getIdOfSiteCurrentlyOccupying()); REQUIRE(v == m[i].c, "walker " << i << " is on " << v << " expected " << m[i].c); }
      else MUST_THROW(std::runtime_error, "site of a walker never placed", w[i].getIdOfSiteCurrentlyOccupying());
      if (m[i].pot) { int v = 0; MUST_ACCEPT("next site of a walker", v = w[i].getPotentialSite()); REQUIRE(v == m[i].p, "walker " << i << " goes to " << v << " expected " << m[i].p); }
      else MUST_THROW(std::runtime_error, "next site never set", w[i].getPotentialSite());
      if (m[i].dset) REQUIRE(w[i].getDwellTime() == m[i].d, "dwell time of walker " << i << " is " << w[i].getDwellTime() << " expected " << m[i].d);
    }
  }
  c.nontrivial(n >= 2 && sets >= 2 && re >= 1);
}
SUB(identities, 40000, 600000) {
  int n = (int)g.in(1, 5); std::vector<std::unique_ptr<Identity>> o; std::vector<std::pair<bool, int>> m(n, {false, 0}); std::set<int> cl;
  for (int i = 0; i < n; ++i) {
    int kind = (int)g.below(3);
    if (kind == 0) o.emplace_back(new Identity);
    else if (kind == 1) o.emplace_back(new Site);
    else { o.emplace_back(new Cluster); int id = o.back()->getId(); m[i] = {true, id}; REQUIRE(cl.insert(id).second, "two clusters got the same id " << id); if (cl.size() > 1) REQUIRE(id == *cl.rbegin(), "cluster id not greater than those of older clusters"); }
    c.d << "kind" << kind << " ";
  }
  int steps = (int)g.in(1, 20), sets = 0;
  for (int t = 0; t < steps; ++t) {
    int k = (int)g.below(n);
    if (g.chance(2, 3)) { int v = g.chance(1, 6) ? -2147483647 - 1 : id_of(g); c.d << "o" << k << ".set(" << v << ") "; o[k]->setId(v); m[k] = {true, v}; ++sets; }
    for (int i = 0; i < n; ++i) {
      if (m[i].first) { int v = 0; MUST_ACCEPT("id that was set", v = o[i]->getId()); REQUIRE(v == m[i].second, "id is " << v << " expected " << m[i].second); }
      else MUST_THROW(std::runtime_error, "id never set", o[i]->getId());
    }
  }
  c.nontrivial(n >= 2 && sets >= 2);
}
