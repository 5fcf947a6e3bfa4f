#include "pbt.hpp"
#include <deque>
#include "libmythical/rate_container.hpp"
using namespace pbt;
using namespace mythical;
PROPERTY("C11",
  "Generated histories of single and bulk additions (also refused ones) interleaved with queries for present and absent ids, against a map model that re-checks every answer after every query; "
  "non-trivial = at least three rates stored, an absent id queried and a refused addition or lookup.",
  {"after a refused bulk addition only the rates stored before it are required to be intact"})
typedef std::map<int, std::map<int, double*>> Mod;
template <class T> static std::multiset<int> ms(const T& v) { return std::multiset<int>(v.begin(), v.end()); }
static void full(Rate_Container& r, const Mod& m, const std::vector<int>& ids) {
  std::map<int, size_t> in, out; std::set<int> hasOut, hasIn;
  for (auto& s : m) for (auto& n : s.second) { out[s.first]++; in[n.first]++; hasOut.insert(s.first); hasIn.insert(n.first); }
  std::multiset<int> src, snk;
  for (int i : hasOut) if (!hasIn.count(i)) src.insert(i);
  for (int i : hasIn) if (!hasOut.count(i)) snk.insert(i);
  REQUIRE(ms(r.getSourceSiteIds()) == src, "list of source sites is wrong (" << r.getSourceSiteIds().size() << " expected " << src.size() << ")");
  REQUIRE(ms(r.getSinkSiteIds()) == snk, "list of sink sites is wrong (" << r.getSinkSiteIds().size() << " expected " << snk.size() << ")");
  for (int i : ids) {
    REQUIRE(r.outgoingRateCount(i) == out[i], "outgoing count of " << i << " is " << r.outgoingRateCount(i) << " expected " << out[i]);
    REQUIRE(r.incomingRateCount(i) == in[i], "incoming count of " << i << " is " << r.incomingRateCount(i) << " expected " << in[i]);
    Rate_Map o = r.getOutgoingRates(i), n = r.getIncomingRates(i); size_t co = 0, cn = 0;
    for (auto& s : o) for (auto& q : s.second) { ++co; REQUIRE(s.first == i && m.count(i) && m.at(i).count(q.first) && m.at(i).at(q.first) == q.second, "outgoing listing of " << i << " invents a rate"); }
    for (auto& s : n) for (auto& q : s.second) { ++cn; REQUIRE(q.first == i && m.count(s.first) && m.at(s.first).count(i) && m.at(s.first).at(i) == q.second, "incoming listing of " << i << " invents a rate"); }
    REQUIRE(co == out[i], "outgoing listing of " << i << " has " << co << " rates, expected " << out[i]);
    REQUIRE(cn == in[i], "incoming listing of " << i << " has " << cn << " rates, expected " << in[i]);
    for (int j : ids) {
      bool has = m.count(i) && m.at(i).count(j);
      if (has) { double* p = nullptr; MUST_ACCEPT("lookup of a stored rate", p = r.getRate(i, j)); REQUIRE(p == m.at(i).at(j), "lookup " << i << "->" << j << " returns another rate"); }
    }
  }
}
SUB(history, 50000, 400000) {
  bool large = g.chance(1, 60); int nid = large ? (int)g.in(8, 40) : (int)g.in(2, 7); std::vector<int> ids = g.ids(nid); std::deque<double> store;
  auto rate = [&] { store.push_back(g.rate(6)); return &store.back(); };
  Mod m; Rate_Container r; bool refused = false, absent = false;
  auto bulk = [&](bool allowDup) {
    Rate_Map b; int k = (int)g.in(0, large ? 60 : 5);
    for (int i = 0; i < k; ++i) { int s = g.pick(ids), n = g.pick(ids); bool dup = m.count(s) && m[s].count(n); if (dup && !allowDup) continue; b[s][n] = rate(); c.d << s << "->" << n << " "; }
    return b;
  };
  if (g.chance(1, 3)) { c.d << "construct{"; Rate_Map b = bulk(true); c.d << "} "; r = Rate_Container(b); for (auto& s : b) for (auto& n : s.second) m[s.first][n.first] = n.second; }
  int steps = large ? (int)g.in(20, 120) : (int)g.in(1, 25);
  for (int t = 0; t < steps; ++t) {
    int op = (int)g.below(8); int s = g.pick(ids), n = g.pick(ids); bool has = m.count(s) && m[s].count(n);
    if (op < 3) {
      double* p = rate(); c.d << "add " << s << "->" << n << " ";
      if (has) { refused = true; MUST_THROW(std::invalid_argument, "adding a rate twice", r.addRate(s, n, p)); }
      else { MUST_ACCEPT("adding a new rate", r.addRate(s, n, p)); m[s][n] = p; }
    } else if (op < 4) {
      c.d << "bulk{"; bool dup = g.chance(1, 4) && !m.empty(); Rate_Map b = bulk(dup); c.d << "} ";
      bool clash = false; for (auto& x : b) for (auto& y : x.second) if (m.count(x.first) && m[x.first].count(y.first)) clash = true;
      if (clash) {
        refused = true; MUST_THROW(std::invalid_argument, "bulk addition with a rate already present", r.addRates(b));
        for (auto& x : m) for (auto& y : x.second) { double* p = nullptr; MUST_ACCEPT("lookup after a refused bulk addition", p = r.getRate(x.first, y.first)); REQUIRE(p == y.second, "refused bulk addition changed a stored rate"); }
        // the rest of the bulk may or may not have been stored; resynchronise
        for (auto& x : b) for (auto& y : x.second) if (!(m.count(x.first) && m[x.first].count(y.first))) {
          double* p = nullptr; try { p = r.getRate(x.first, y.first); } catch (const std::invalid_argument&) { continue; }
          REQUIRE(p == y.second, "bulk addition stored another rate"); m[x.first][y.first] = p;
        }
      } else { MUST_ACCEPT("bulk addition of new rates", r.addRates(b)); for (auto& x : b) for (auto& y : x.second) m[x.first][y.first] = y.second; }
    } else if (op < 6) {
      if (!has) { absent = refused = true; c.d << "get? " << s << "->" << n << " "; MUST_THROW(std::invalid_argument, "lookup " << s << "->" << n << " of a rate never added", r.getRate(s, n)); }
      else { REQUIRE(r.getRate(s, n) == m[s][n], "lookup returns another rate"); }
    } else if (op < 7) { c.d << "counts? " << s << " "; r.outgoingRateCount(s); r.incomingRateCount(n); absent = true; }
    else { c.d << "lists? " << s << " "; r.getOutgoingRates(s); r.getIncomingRates(s); r.getSourceSiteIds(); r.getSinkSiteIds(); }
    if (g.chance(1, large ? 30 : 2) || t + 1 == steps) full(r, m, ids);
  }
  size_t cnt = 0; for (auto& x : m) cnt += x.second.size();
  c.nontrivial(cnt >= 3 && absent && refused); c.label_if(refused, "has refused call");
}
