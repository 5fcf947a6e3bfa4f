#include "pbt.hpp"
#include <deque>
#include <unordered_map>
#include "libmythical/topologyfeatures/site.hpp"
using namespace pbt;
using namespace mythical;
PROPERTY("C12",
  "Generated histories of setting maps of rates, adding, resetting and changing rates in place (up to 10 neighbours, up to 16 decades, any ids), against a map model; "
  "non-trivial = at least two neighbours, a rate replaced or changed in place, and probabilities compared after it.",
  {"rates are positive; a neighbour is added only once (the code asserts both)"})
static void same(Site& s, const std::map<int, double*>& m, bool probs, const std::vector<int>& ids) {
  double sum = 0, fast = 0; std::multiset<double> vals; std::set<int> nb;
  for (auto& k : m) { sum += *k.second; fast = std::max(fast, *k.second); vals.insert(*k.second); nb.insert(k.first); }
  auto n = s.getNeighborSiteIds();
  REQUIRE(n.size() == nb.size() && std::set<int>(n.begin(), n.end()) == nb, "neighbours listed are not those given (" << n.size() << " vs " << nb.size() << ")");
  auto r = s.getRateToNeighbors();
  REQUIRE(std::multiset<double>(r.begin(), r.end()) == vals, "list of rates is not the current rates");
  REQUIRE(s.getFastestRate() == fast, "fastest rate is " << s.getFastestRate() << " expected " << fast);
  auto nr = s.getNeighborsAndRates(); const auto& nc = s.getNeighborsAndRatesConst();
  REQUIRE(nr.size() == m.size() && nc.size() == m.size(), "neighbour-rate table has the wrong size");
  for (auto& k : m) {
    REQUIRE(s.getRateToNeighbor(k.first) == *k.second, "rate to " << k.first << " is " << s.getRateToNeighbor(k.first) << " expected " << *k.second);
    REQUIRE(nr.count(k.first) && *nr.at(k.first) == *k.second && nc.count(k.first) && *nc.at(k.first) == *k.second, "neighbour-rate table is wrong for " << k.first);
    REQUIRE(nr.at(k.first) == k.second, "the rate to " << k.first << " is not the one its owner holds");
  }
  for (int i : ids) REQUIRE(s.isNeighbor(i) == (m.count(i) > 0), "isNeighbor(" << i << ") is " << s.isNeighbor(i));
  if (!probs) return;
  REQUIRE(near(s.getTimeConstant(), 1 / sum, 1e-9), "time constant " << s.getTimeConstant() << " expected " << 1 / sum);
  double tot = 0; auto pv = s.getProbabilitiesAndIdsOfNeighbors(); std::map<int, double> pm;
  for (auto& q : pv) { REQUIRE(pm.emplace(q.first, q.second).second, "probability of " << q.first << " listed twice"); tot += q.second; }
  REQUIRE(pm.size() == m.size(), "probabilities listed for " << pm.size() << " neighbours, expected " << m.size());
  REQUIRE(near(tot, 1, 1e-9), "probabilities sum to " << tot);
  for (auto& k : m) {
    double e = *k.second / sum, p = s.getProbabilityOfHoppingToNeighboringSite(k.first);
    REQUIRE(near(p, e, 1e-9), "probability of hopping to " << k.first << " is " << p << " expected " << e);
    REQUIRE(pm.count(k.first) && near(pm[k.first], e, 1e-9), "listed probability of " << k.first << " is " << (pm.count(k.first) ? pm[k.first] : -1) << " expected " << e);
  }
}
SUB(history, 300000, 2400000) {
  int nid = g.chance(1, 20) ? (int)g.in(11, 60) : (int)g.in(1, 10); std::vector<int> ids = g.ids(nid); double dec = (double)g.pick(std::vector<int>{1, 4, 8});
  Site s; std::map<int, double*> m; std::deque<double> own; std::deque<std::unordered_map<int, double>> maps;
  int steps = (int)g.in(1, 15); bool fresh = true, changed = false, after = false;
  for (int t = 0; t < steps; ++t) {
    int op = m.empty() ? (int)g.below(3) : (int)g.below(6);
    if (op == 0) {
      maps.emplace_back(); auto& mp = maps.back(); int k = (int)g.in(1, nid); c.d << "set{";
      for (int i = 0; i < k; ++i) { int id = g.pick(ids); mp[id] = g.rate(dec); }
      for (auto& q : mp) { c.d << q.first << ":" << q.second << " "; if (m.count(q.first)) changed = true; }
      c.d << "} "; s.setRatesToNeighbors(mp); for (auto& q : mp) m[q.first] = &q.second; fresh = true;
    } else if (op == 1 || op == 2) {
      int id = g.pick(ids); own.push_back(g.rate(dec));
      if (m.count(id) || op == 2) { changed = changed || m.count(id); c.d << "reset " << id << ":" << own.back() << " "; s.resetNeighRate({id, &own.back()}); }
      else { c.d << "add " << id << ":" << own.back() << " "; s.addNeighRate({id, &own.back()}); }
      m[id] = &own.back(); fresh = true;
    } else if (op == 3) {
      auto it = m.begin(); std::advance(it, g.below(m.size())); auto jt = m.begin(); std::advance(jt, g.below(m.size())); if (g.chance(1, 4)) { std::swap(*it->second, *jt->second); c.d << "exchange with " << jt->first << " "; } else *it->second = g.rate(dec); c.d << "change " << it->first << "=" << *it->second << " "; fresh = false; changed = true;
    } else if (op == 4) {
      auto it = m.begin(); std::advance(it, g.below(m.size())); c.d << "touch " << it->first << " "; s.resetNeighRate({it->first, it->second}); fresh = true;
    } else { Site q = s; if (g.flip()) { c.d << "copy "; s = q; } else { c.d << "edit a copy "; own.push_back(g.rate(dec)); q.resetNeighRate({g.pick(ids), &own.back()}); } }
    after = after || (changed && fresh && m.size() >= 2);
    if (!m.empty()) same(s, m, fresh, ids);
  }
  c.nontrivial(after); c.label_if(m.size() >= 4, "4+ neighbours");
}
