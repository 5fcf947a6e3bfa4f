#pragma once
// Stand-in for the part of the UGLY graph library that MythiCaL uses (the
// submodule is not available offline).  Written for the checks from the way
// MythiCaL calls it; every container here is ordered or keeps insertion order,
// so the stand-in itself is deterministic.
#pragma once
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ugly {

class Edge {
 public:
  Edge(int v1, int v2) : v1_(v1), v2_(v2) {}
  virtual ~Edge() {}
  int getVertex1() const { return v1_; }
  int getVertex2() const { return v2_; }
  int getOtherVertex(int v) const {
    if (v == v1_) return v2_;
    if (v == v2_) return v1_;
    throw std::invalid_argument("vertex is not part of the edge");
  }
  virtual double getWeight() const { return 1.0; }
 private:
  int v1_, v2_;
};

class EdgeDirectedWeighted : public Edge {
 public:
  EdgeDirectedWeighted(int v1, int v2, double w) : Edge(v1, v2), w_(w) {}
  double getWeight() const override { return w_; }
 private:
  double w_;
};

template <typename... Ts>
class GraphNode {
 public:
  explicit GraphNode(const Ts&...) {}
};

template <typename... Ts>
class Graph {
 public:
  Graph(std::list<std::weak_ptr<Edge>> edges, std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes) {
    for (auto& n : nodes) vertices_.insert(n.first);
    for (auto& e : edges) if (auto s = e.lock()) {
      auto& out = out_[s->getVertex1()];
      auto it = out.find(s->getVertex2());
      if (it == out.end() || s->getWeight() < it->second) out[s->getVertex2()] = s->getWeight();
    }
  }
  const std::set<int>& vertices() const { return vertices_; }
  const std::map<int, std::map<int, double>>& out() const { return out_; }
 private:
  std::set<int> vertices_;
  std::map<int, std::map<int, double>> out_;
};

namespace hash_functions {
struct hash {
  std::size_t operator()(const std::pair<int, int>& p) const {
    return std::hash<int>()(p.first) * 1000003u ^ std::hash<int>()(p.second);
  }
};
}

namespace graphalgorithms {
// shortest distance from every vertex to every other one, infinite without path
template <typename... Ts>
std::unordered_map<std::pair<int, int>, double, hash_functions::hash> maxMinimumDistanceBetweenEveryVertex(Graph<Ts...>& g) {
  std::unordered_map<std::pair<int, int>, double, hash_functions::hash> r;
  for (int s : g.vertices()) {
    std::map<int, double> d; d[s] = 0;
    std::set<std::pair<double, int>> open{{0.0, s}};
    while (!open.empty()) {
      auto c = *open.begin(); open.erase(open.begin());
      auto o = g.out().find(c.second);
      if (o == g.out().end()) continue;
      for (auto& e : o->second) {
        double n = c.first + e.second; auto it = d.find(e.first);
        if (it == d.end() || n < it->second) { if (it != d.end()) open.erase({it->second, e.first}); d[e.first] = n; open.insert({n, e.first}); }
      }
    }
    for (int t : g.vertices()) if (t != s) r[{s, t}] = d.count(t) ? d[t] : std::numeric_limits<double>::infinity();
  }
  return r;
}
}

// Explores edges in the order of largest weight among those known (ties: first
// added), starting from one vertex.
class GraphVisitorLargestKnownValue {
 public:
  void setStartingVertex(int v) { order_.assign(1, v); explored_.clear(); explored_.insert(v); }
  bool edgeCanBeAdded(std::weak_ptr<Edge> e) const {
    auto s = e.lock(); if (!s) return false;
    return explored_.count(s->getVertex1()) && !explored_.count(s->getVertex2());
  }
  void addEdge(std::weak_ptr<Edge> e) {
    if (!edgeCanBeAdded(e)) throw std::invalid_argument("edge cannot be added");
    open_.push_back(e);
  }
  bool allEdgesExplored() const { return open_.empty(); }
  template <class E>
  std::weak_ptr<E> getNextEdge() {
    if (open_.empty()) throw std::runtime_error("no edge left");
    auto best = open_.begin();
    for (auto i = open_.begin(); i != open_.end(); ++i) if (i->lock()->getWeight() > best->lock()->getWeight()) best = i;
    return *best;
  }
  int chooseTerminalVertex(std::weak_ptr<Edge> e) const { return e.lock()->getVertex2(); }
  void exploreEdge(std::weak_ptr<Edge> e) {
    int v = e.lock()->getVertex2();
    if (explored_.insert(v).second) order_.push_back(v);
    for (auto i = open_.begin(); i != open_.end();) { auto s = i->lock(); if (!s || explored_.count(s->getVertex2())) i = open_.erase(i); else ++i; }
  }
  std::size_t countExploredVertices() const { return order_.size(); }
  std::vector<int> getExploredVertices() const { return order_; }
 private:
  std::vector<int> order_;
  std::set<int> explored_;
  std::list<std::weak_ptr<Edge>> open_;
};

}
