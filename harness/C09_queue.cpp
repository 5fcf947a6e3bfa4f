#include "pbt.hpp"
#include "mythical/queue.hpp"
using namespace pbt;
typedef std::pair<int, double> W;
PROPERTY("C09",
  "Generated histories (1..120 steps) of add, sortedAdd, sort, pop, at, size with repeated ids and times (ties, negative, infinite, denormal) against a multiset model; "
  "non-trivial = a sort or sortedAdd happened on a queue of at least three entries with different times and something was popped.",
  {"no NaN times; no pop from an empty queue; order among equal times is not specified"})
static double time_of(Src& g) {
  switch (g.below(7)) {
    case 0: return (double)g.in(0, 5);
    case 1: return g.real(-1, 1);
    case 2: return g.logreal(-300, 300);
    case 3: return -g.logreal(-5, 5);
    case 4: { static const double sp[] = {0.0, -0.0, 1e308, -1e308, 4.9e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}; return sp[g.below(7)]; }
    case 5: { double x = 1.0; int n = (int)g.below(4); for (int i = 0; i < n; ++i) x = std::nextafter(x, 2); return x; }
    default: return (double)g.in(0, 1000) / 16;
  }
}
static int id_of(Src& g) { return g.chance(1, 6) ? (int)g.sym(-2147483648LL, 2147483647LL) : (int)g.sym(-5, 1000); }
static std::vector<W> contents(const mythical::Queue& q) {
  std::vector<W> v; for (size_t i = 0; i < q.size(); ++i) v.push_back(q.at((int)i)); return v;
}
static void check(const mythical::Queue& q, std::multiset<W> model, bool mustSorted) {
  REQUIRE(q.size() == model.size(), "queue holds " << q.size() << " walkers, expected " << model.size());
  std::vector<W> v = contents(q);
  REQUIRE(std::multiset<W>(v.begin(), v.end()) == model, "queue content differs from the walkers added and not popped");
  bool s = true; for (size_t i = 1; i < v.size(); ++i) if (v[i].second < v[i - 1].second) s = false;
  if (q.isSorted()) REQUIRE(s, "queue reports sorted but is not in time order");
  if (mustSorted) REQUIRE(s, "queue is not in time order");
}
SUB(history, 60000, 1200000) {
  mythical::Queue q; std::multiset<W> model; bool sorted = true, inter = false, popped = false;
  int n = (int)g.in(1, g.chance(1, 3) ? 120 : 25); int bias = (int)g.below(4);
  for (int t = 0; t < n; ++t) {
    int op = (int)g.below(10);
    if (bias == 1 && op < 4) op = 4;  // mostly sorted adds
    if (bias == 2 && op >= 4 && op < 7) op = 0;
    if (op < 3) { W w(id_of(g), time_of(g)); c.d << "add(" << w.first << "," << w.second << ") "; q.add(w); model.insert(w); sorted = model.size() <= 1 && false; }
    else if (op < 6) { W w(id_of(g), time_of(g)); c.d << "sortedAdd(" << w.first << "," << w.second << ") "; q.sortedAdd(w); model.insert(w); if (sorted && model.size() >= 3) inter = true; }
    else if (op < 7) { c.d << "sort "; q.sort(); sorted = true; if (model.size() >= 3) inter = true; REQUIRE(q.isSorted(), "not reported sorted right after sorting"); }
    else if (op < 9) {
      if (model.empty()) continue;
      W front = q.at(0), w = q.pop_current(); popped = true; c.d << "pop=(" << w.first << "," << w.second << ") ";
      REQUIRE(w == front, "popped walker is not the first entry");
      auto it = model.find(w); REQUIRE(it != model.end(), "popped walker " << w.first << "," << w.second << " was not in the queue");
      if (sorted) for (auto& o : model) REQUIRE(!(o.second < w.second), "popped time " << w.second << " although " << o.second << " was waiting");
      model.erase(it);
    } else {
      int k = (int)model.size() + (int)g.in(0, 3); if (g.chance(1, 3)) k = -(int)g.in(1, 3); if (g.chance(1, 6)) k = g.flip() ? 2147483647 : -2147483647 - 1;
      MUST_THROW(std::out_of_range, "entry " << k << " of " << model.size(), q.at(k));
    }
    check(q, model, sorted);
  }
  q.sort(); check(q, model, true);
  double last = -std::numeric_limits<double>::infinity();
  while (q.size()) { W w = q.pop_current(); REQUIRE(!(w.second < last), "drained out of order"); last = w.second; auto it = model.find(w); REQUIRE(it != model.end(), "drained unknown walker"); model.erase(it); }
  REQUIRE(model.empty(), "walkers lost");
  c.nontrivial(inter && popped); c.label_if(inter, "ordered insert or sort of 3+");
}
// long queues: grown by sorted or unsorted adds to hundreds of entries, then drained in part and refilled
SUB(long_queues, 1500, 25000) {
  mythical::Queue q; std::multiset<W> model; int rounds = (int)g.in(1, 3), id = 0; bool big = false;
  for (int r = 0; r < rounds; ++r) {
    int k = (int)g.in(5, 700); bool sorted = g.flip(); int span = (int)g.pick(std::vector<int>{3, 50, 100000}); if (sorted && !q.isSorted()) q.sort(); c.d << (sorted ? "sortedAdd x" : "add x") << k << " span " << span << " ";
    u64 x = g.below(1u << 30); for (int i = 0; i < k; ++i) { x = mix(x); W w(id++, (double)(x % span)); if (sorted) q.sortedAdd(w); else q.add(w); model.insert(w); }
    if (!sorted) q.sort(); big = big || model.size() >= 100; check(q, model, true); REQUIRE(q.isSorted(), "queue does not report sorted"); int pops = (int)g.in(0, (long long)model.size()); c.d << "pop x" << pops << " "; double last = -1;
    for (int i = 0; i < pops; ++i) { W w = q.pop_current(); REQUIRE(!(w.second < last), "popped " << w.second << " after " << last); last = w.second; auto it = model.find(w); REQUIRE(it != model.end(), "popped an unknown walker"); model.erase(it); }
    REQUIRE(model.empty() || model.size() == q.size(), "queue lost walkers"); for (auto& m : model) REQUIRE(!(m.second < last), "an earlier walker was left waiting");
    check(q, model, true);
  }
  c.nontrivial(big);
}
// typical use: a simulation loop popping the earliest walker and re-inserting it later
SUB(event_loop, 20000, 300000) {
  mythical::Queue q; std::map<int, double> model; int n = (int)g.in(1, 15);
  for (int i = 0; i < n; ++i) { double t = g.real(0, 3); q.add(W(i, t)); model[i] = t; c.d << t << " "; }
  q.sort(); double clock = -1; int steps = (int)g.in(1, 60);
  for (int t = 0; t < steps; ++t) {
    W w = q.pop_current();
    REQUIRE(model.count(w.first) && model[w.first] == w.second, "walker comes back with another time");
    for (auto& m : model) REQUIRE(m.second >= w.second, "walker " << m.first << " was due earlier");
    REQUIRE(w.second >= clock, "time runs backwards"); clock = w.second;
    double nt = clock + (g.chance(1, 8) ? 0.0 : g.real(0, 2)); model[w.first] = nt; q.sortedAdd(W(w.first, nt));
    REQUIRE(q.size() == (size_t)n && q.isSorted(), "queue lost order or size");
  }
  c.nontrivial(n >= 3 && steps >= 5);
}
