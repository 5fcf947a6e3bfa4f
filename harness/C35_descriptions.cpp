#include "cluster.hpp"
#include <sstream>
PROPERTY("C35",
  "Generated sites and clusters with generated rates, visits, memberships and histories, printed and the text read back: every number is compared with the object's own queries, and all queries with those before printing; "
  "non-trivial = a site with at least two rates, or a cluster with at least two members one of which was visited.",
  {"numbers are printed with six digits; a site is printed only once its rates are set; the order of rates, probabilities and members is free"})
struct Shown { int id = 0, cluster = 0, visits = 0; double tau = 0; std::map<int, double> rates, probs; };
static bool key(const std::string& line, const std::string& k, std::string& v) { if (line.compare(0, k.size(), k)) return false; v = line.substr(k.size()); return true; }
// reads one site; leaves the stream after its last line
static Shown parse(std::istream& is) {
  Shown s; std::string l, v; int got = 0, part = 0;
  while (true) {
    std::streampos at = is.tellg(); if (!std::getline(is, l)) break;
    if (key(l, "Site Id: ", v)) { if (got & 1) { is.seekg(at); break; } got |= 1; s.id = std::stoi(v); }
    else if (key(l, "Cluster Id: ", v)) { got |= 2; s.cluster = std::stoi(v); }
    else if (key(l, "Total Visit Frequency: ", v)) { got |= 4; s.visits = std::stoi(v); }
    else if (key(l, "Escape Time Constant: ", v)) { got |= 8; s.tau = std::stod(v); }
    else if (l == "Neighbors:Rates") { got |= 16; part = 1; }
    else if (l == "Neighbors:Probability hop to them") { got |= 32; part = 2; }
    else if (!l.empty() && l[0] == '\t') {
      size_t c = l.find(':'); REQUIRE(c != std::string::npos && part, "cannot read the line '" << l << "'"); int id = std::stoi(l.substr(1, c - 1)); double x = std::strtod(l.c_str() + c + 1, nullptr);
      REQUIRE((part == 1 ? s.rates : s.probs).emplace(id, x).second, "neighbour " << id << " is shown twice");
    } else REQUIRE(l.empty(), "cannot read the line '" << l << "'");
  }
  REQUIRE(got == 63, "the description of a site is incomplete"); return s;
}
static void compare(const Shown& s, Site& site, int id, int cluster, int visits) {
  REQUIRE(s.id == id, "shown id " << s.id << " expected " << id); REQUIRE(s.cluster == cluster, "shown cluster " << s.cluster << " expected " << cluster); REQUIRE(s.visits == visits, "shown visits " << s.visits << " expected " << visits);
  REQUIRE(near(s.tau, site.getTimeConstant(), 1e-5), "shown time constant " << s.tau << " expected " << site.getTimeConstant()); auto r = site.getNeighborsAndRates();
  REQUIRE(s.rates.size() == r.size() && s.probs.size() == r.size(), "rates to " << s.rates.size() << " and probabilities of " << s.probs.size() << " neighbours are shown, there are " << r.size());
  for (auto& x : r) { REQUIRE(s.rates.count(x.first) && near(s.rates.at(x.first), *x.second, 1e-5), "shown rate to " << x.first << " is wrong"); REQUIRE(s.probs.count(x.first) && near(s.probs.at(x.first), site.getProbabilityOfHoppingToNeighboringSite(x.first), 1e-5), "shown probability of " << x.first << " is wrong"); }
}
SUB(sites, 60000, 900000) {
  int n = g.chance(1, 10) ? (int)g.in(9, 40) : (int)g.in(1, 8); auto ids = g.ids(n + 1); std::deque<double> own; Site s; s.setId(ids[n]); std::map<int, double*> m;
  for (int i = 0; i < n; ++i) { own.push_back(g.rate(g.flip() ? 2 : 12)); s.addNeighRate({ids[i], &own.back()}); m[ids[i]] = &own.back(); c.d << ids[i] << ":" << own.back() << " "; }
  int visits = 0, k = (int)g.in(0, 9), cl = mythical::constants::unassignedId; for (int i = 0; i < k; ++i) { switch (g.below(4)) { case 0: s.occupy(); ++visits; break; case 1: if (s.isOccupied()) s.vacate(); break; case 2: visits = (int)g.in(0, 2000000000); s.setVisitFrequency(visits); break; default: cl = (int)g.in(0, 2000000000); s.setClusterId(cl); } }
  bool occ = s.isOccupied(); std::ostringstream o, o2; o << s; std::istringstream is(o.str()); Shown sh = parse(is); compare(sh, s, ids[n], cl, visits); o2 << s; REQUIRE(o.str() == o2.str(), "the second description differs from the first");
  REQUIRE(s.isOccupied() == occ && s.getVisitFrequency() == visits && s.getId() == ids[n] && s.getClusterId() == cl, "printing changed the site"); for (auto& x : m) REQUIRE(s.getNeighborsAndRates().at(x.first) == x.second, "printing changed a rate"); c.nontrivial(n >= 2);
}
SUB(clusters, 12000, 200000) {
  Net t = gen_net(g, 2, 7); t.describe(c.d); Cluster cl; cl.setId((int)g.in(0, 1000000)); build(cl, t, g.perm(t.n)); cl.updateProbabilitiesAndTimeConstant(); cl.setRandomSeed(1); int k = (int)g.in(0, 12); std::set<int> occ; int arrivals = 0;
  for (int i = 0; i < k; ++i) { int s = (int)g.below(t.n); if (occ.count(s)) { cl.vacate(t.id[s]); occ.erase(s); } else { cl.occupy(t.id[s]); occ.insert(s); ++arrivals; } }
  c.d << "arrivals " << arrivals; std::ostringstream o, o2; o << cl; std::istringstream is(o.str()); std::string l, v; int id = -1, members = -1; double visits = -1; bool list = false;
  while (!list && std::getline(is, l)) { if (key(l, "Cluster Id: ", v)) id = std::stoi(v); else if (key(l, "Cluster visitFreq: ", v)) visits = std::stod(v); else if (key(l, "Number of sites in Cluster: ", v)) members = std::stoi(v); else if (key(l, "Sites in cluster: ", v)) list = true; else REQUIRE(l.empty(), "cannot read the line '" << l << "'"); }
  REQUIRE(list && id == cl.getId() && members == t.n && visits == arrivals, "shown id " << id << ", members " << members << ", visits " << visits << "; expected " << cl.getId() << ", " << t.n << ", " << arrivals);
  std::map<int, Site> mem; for (auto& s : cl.getSitesInCluster()) mem[s.getId()] = s; std::set<int> seen;
  for (int i = 0; i < t.n; ++i) { Shown s = parse(is); REQUIRE(mem.count(s.id) && seen.insert(s.id).second, "member " << s.id << " is shown twice or is not one"); compare(s, mem[s.id], s.id, cl.getId(), mem[s.id].getVisitFrequency()); }
  while (std::getline(is, l)) REQUIRE(l.empty(), "more is shown than the members"); o2 << cl; REQUIRE(o.str() == o2.str(), "the second description differs from the first");
  for (int i = 0; i < t.n; ++i) REQUIRE(cl.isOccupied(t.id[i]) == (occ.count(i) > 0), "printing changed the occupancy"); c.nontrivial(arrivals > 0);
}
