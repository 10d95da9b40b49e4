// Conformance harness for the graph family: argv[1] selects edits | comp | walk | dij | astar | implicit
#include "trace.hpp"
#include <arc_utilities/dijkstras.hpp>
#include <arc_utilities/simple_astar_planner.hpp>
#include <set>
using namespace arc_dijkstras;
typedef Graph<int64_t> G;
typedef GraphNode<int64_t> GN;
using vt::Ev; using vt::Raw;

static double SC = 1024.0;  // weights are dyadic; the log holds weight * SC
struct E { int f, t; double w; int val; };

static std::string ej(const GraphEdge& e, double sc = 1) {
  return "[" + vt::js(e.getFromIndex()) + "," + vt::js(e.getToIndex()) + "," + vt::js(vt::enc(e.getWeight(), sc)) + "," + vt::js((int)e.getValidity()) + "]";
}
static std::string nodes_json(const std::vector<GN>& ns) {
  std::string o = "[";
  for (size_t k = 0; k < ns.size(); k++) {
    if (k) o += ",";
    o += "{\"v\":" + vt::js(ns[k].getValue()) + ",\"ins\":[";
    for (size_t j = 0; j < ns[k].getInEdges().size(); j++) o += (j ? "," : "") + ej(ns[k].getInEdges()[j]);
    o += "],\"outs\":[";
    for (size_t j = 0; j < ns[k].getOutEdges().size(); j++) o += (j ? "," : "") + ej(ns[k].getOutEdges()[j]);
    o += "]}";
  }
  return o + "]";
}
static Raw gj(const G& g) { return Raw{nodes_json(g.getNodes())}; }
static bool same_graph(const G& a, const G& b, bool dist = true) {
  if (a.getNodes().size() != b.getNodes().size()) return false;
  for (size_t k = 0; k < a.getNodes().size(); k++) {
    const GN &x = a.getNodes()[k], &y = b.getNodes()[k];
    if (x.getValue() != y.getValue() || !(x.getInEdges() == y.getInEdges()) || !(x.getOutEdges() == y.getOutEdges())) return false;
    if (dist && x.getDistance() != y.getDistance()) return false;
  }
  return true;
}
static G make(int n, const std::vector<E>& es) {
  G g((size_t)n);
  for (int k = 0; k < n; k++) g.addNode((int64_t)k);
  for (const E& e : es) {
    g.addEdgeBetweenNodes(e.f, e.t, e.w);
    g.getNode(e.f).getOutEdges().back().setValidity((EDGE_VALIDITY)e.val);
    g.getNode(e.t).getInEdges().back().setValidity((EDGE_VALIDITY)e.val);
  }
  return g;
}
static Raw edges3(const std::vector<E>& es, bool plain = false) {
  std::string o = "["; bool first = true;
  for (const E& e : es) {
    if (plain && e.val == INVALID) continue;
    if (!first) o += ","; first = false;
    o += "[" + vt::js(e.f) + "," + vt::js(e.t) + "," + vt::js(vt::enc(e.w, SC)) + "]";
  }
  return Raw{o + "]"};
}
// distances to the goal, the witness checked (not trusted) by the specification
static std::vector<double> potential(int n, const std::vector<E>& es, int goal, bool plain = false) {
  std::vector<double> d((size_t)n, std::numeric_limits<double>::infinity());
  d[(size_t)goal] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (const E& e : es) {
      if (plain && e.val == INVALID) continue;
      if (e.w + d[(size_t)e.t] < d[(size_t)e.f]) { d[(size_t)e.f] = e.w + d[(size_t)e.t]; ch = true; }
    }
  }
  return d;
}
static std::vector<long> encv(const std::vector<double>& d) { std::vector<long> r; for (double x : d) r.push_back(vt::enc(x, SC)); return r; }

static double rnd_weight(vt::Rng& r, int style) {
  switch (style) {
    case 0: return (double)r.in(0, 3);
    case 1: return (double)r.in(1, 9);
    case 2: return (double)r.in(0, 4096) / 1024.0;
    case 3: return (double)r.in(1, 100000) / 4.0;
    case 4: return r.chance(0.5) ? 0.0 : 1.0 / 1024.0 * (double)r.in(1, 3);
    default: return 1.0;
  }
}
static std::vector<E> rnd_edges(vt::Rng& r, int n, double density, int style, bool inf = false, bool val = false, bool par = false) {
  std::vector<E> es;
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++) {
      if (a == b) continue;
      for (int rep = 0; rep < (par ? 2 : 1); rep++)
        if (r.chance(density)) {
          E e{a, b, rnd_weight(r, style), val ? (int)r.below(3) : 2};
          if (inf && r.chance(0.15)) e.w = std::numeric_limits<double>::infinity();
          es.push_back(e);
        }
    }
  for (size_t k = es.size(); k > 1; k--) std::swap(es[k - 1], es[(size_t)r.below((long)k)]);
  return es;
}
// the same problem with weights so close together, or so large, that only full double precision tells them apart
static void precise(vt::Rng& r, std::vector<E>& es, int style, bool tight = false) {
  SC = 1024.0;
  if (tight) { for (E& e : es) e.w = 16384.0 + (double)r.below(5) / 1024.0; return; }
  const long k = r.below(6);
  if (k == 0) { const double f = std::ldexp(1.0, r.chance(.5) ? 24 : 40); SC *= f; for (E& e : es) e.w /= f; }
  else if (k == 1 && style != 3) { const bool close = r.chance(.6); for (E& e : es) if (!std::isinf(e.w)) e.w = 16384.0 + (close ? (double)r.below(5) / 1024.0 : e.w); }
}
// a long chain / grid, so that answers need many steps
static std::vector<E> shaped_edges(vt::Rng& r, int n, int shape, int style) {
  std::vector<E> es;
  auto add = [&](int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) es.push_back(E{a, b, rnd_weight(r, style), 2}); };
  std::vector<int> p; for (int k = 0; k < n; k++) p.push_back(k);
  for (int k = n; k > 1; k--) std::swap(p[(size_t)(k - 1)], p[(size_t)r.below(k)]);
  if (shape == 0) for (int k = 0; k + 1 < n; k++) { add(p[(size_t)k], p[(size_t)k + 1]); if (r.chance(0.5)) add(p[(size_t)k + 1], p[(size_t)k]); if (r.chance(0.3)) add(p[(size_t)k], p[(size_t)r.below(n)]); }
  else if (shape == 1) { int w = 5; for (int k = 0; k < n; k++) for (int d : {1, w}) if (k + d < n && !(d == 1 && (k + 1) % w == 0)) { add(k, k + d); add(k + d, k); } }
  else for (int k = 1; k < n; k++) { int q = (int)r.below(k); add(p[(size_t)k], p[(size_t)q]); add(p[(size_t)q], p[(size_t)k]); }
  return es;
}

// ---------------------------------------------------------------------------------------------- edits
static void one_edit(G& g, long op, long a, long b, long w) {
  if (op == 0) {
    vt::cur() = "addNode";
    int64_t res = -5;
    int exc = vt::guarded([&] { res = (a & 1) ? g.addNode(GN((int64_t)a)) : g.addNode((int64_t)a); });
    Ev("node").f("v", a).f("res", res).f("exc", exc).f("g", gj(g)).emit();
  } else if (op == 1) {
    vt::cur() = "addEdgeBetweenNodes";
    std::vector<long> ret = {-9, -9};
    int exc = vt::guarded([&] { GraphEdge& e = g.addEdgeBetweenNodes(a, b, (double)w); ret = {(long)e.getFromIndex(), (long)e.getToIndex()}; });
    Ev("edge").f("a", a).f("b", b).f("w", w).f("exc", exc).f("ret", ret).f("g", gj(g)).emit();
  } else {
    vt::cur() = "addEdgesBetweenNodes";
    std::vector<std::vector<long>> ret;
    int exc = vt::guarded([&] { auto p = g.addEdgesBetweenNodes(a, b, (double)w);
      ret = {{(long)p.first.getFromIndex(), (long)p.first.getToIndex()}, {(long)p.second.getFromIndex(), (long)p.second.getToIndex()}}; });
    Ev("both").f("a", a).f("b", b).f("w", w).f("exc", exc).f("ret", ret).f("g", gj(g)).emit();
  }
}
static void queries(G& g, vt::Rng& r) {
  const long n = (long)g.getNodes().size();
  for (int k = 0; k < 3; k++) {
    long a = r.in(-2, n + 1), b = r.in(-1, n);
    Ev("range").f("a", a).f("res", g.indexInRange(a)).emit();
    std::vector<long> ret;
    const G& cg = g; const bool useconst = r.chance(0.5);
    int exc = vt::guarded([&] { const GraphEdge& e = useconst ? cg.getEdge(a, b) : g.getEdge(a, b); ret = {(long)e.getFromIndex(), (long)e.getToIndex(), (long)e.getWeight(), (long)e.getValidity()}; });
    Ev("edgeto").f("a", a).f("b", b).f("exc", exc).f("ret", ret).emit();
    exc = vt::guarded([&] { const GraphEdge& e = g.getReverseEdge(GraphEdge(b, a, 1.0)); ret = {(long)e.getFromIndex(), (long)e.getToIndex(), (long)e.getWeight(), (long)e.getValidity()}; });
    Ev("edgeto").f("a", a).f("b", b).f("exc", exc).f("ret", ret).emit();
  }
  bool res = false;
  if (r.chance(0.5)) res = g.checkGraphLinkage(); else res = G::CheckGraphLinkage(g);
  Ev("self").f("res", res).emit();
}
static void link_event(const std::vector<GN>& ns) {
  vt::cur() = "CheckGraphLinkage " + nodes_json(ns).substr(0, 300);
  bool res = G::CheckGraphLinkage(ns);
  std::string kept = "[]";
  int exc = vt::guarded([&] { G g(ns); kept = nodes_json(g.getNodes()); });
  Ev("link").f("g", Raw{nodes_json(ns)}).f("res", res).f("exc", exc).f("kept", Raw{kept}).emit();
}
static void edits() {
  vt::Rng r(vt::seed() + 11);
  for (const auto& l : vt::gen_lines()) {
    auto v = vt::ints(l);
    vt::begin("edits");
    G g;
    for (size_t k = 0; k + 3 < v.size(); k += 4) one_edit(g, v[k], v[k + 1], v[k + 2], v[k + 3]);
    queries(g, r);
  }
  for (long s = 0; s < vt::scale(60, 600); s++) {
    vt::begin("edits");
    G g = r.chance(0.5) ? G() : G((size_t)r.below(6));
    long len = r.in(5, 40);
    for (long k = 0; k < len; k++) {
      long n = (long)g.getNodes().size();
      long op = r.chance(n < 2 ? 0.7 : n < 9 ? 0.3 : 0.05) ? 0 : r.in(1, 2);
      long a = r.chance(0.12) ? r.in(-3, n + 2) : r.below(std::max(n, 1L)), b = r.chance(0.12) ? r.in(-3, n + 2) : r.below(std::max(n, 1L));
      one_edit(g, op, op == 0 ? r.in(-50, 50) : a, b, r.in(0, 6));
      if (r.chance(0.05)) g.shrinkToFit();
      if (r.chance(0.1)) queries(g, r);
    }
  }
  // node lists: the empty one, all tiny one-edge mutations of good lists, random garbage
  vt::begin("link");
  link_event({});
  for (long s = 0; s < vt::scale(900, 8000); s++) {
    int n = (int)r.in(1, s % 5 == 0 ? 6 : 3);
    std::vector<GN> ns;
    if (r.chance(0.7)) {
      auto es = rnd_edges(r, n, r.chance(0.5) ? 0.4 : 0.8, 1, false, true, r.chance(0.3));
      ns = make(n, es).getNodes();
      for (long m = r.below(3); m > 0; m--) {
        GN& x = ns[(size_t)r.below(n)];
        auto& lst = r.chance(0.5) ? x.getInEdges() : x.getOutEdges();
        int what = (int)r.below(5);
        if (what == 0 && !lst.empty()) lst.erase(lst.begin() + r.below((long)lst.size()));
        else if (what == 1 && !lst.empty()) lst[(size_t)r.below((long)lst.size())].setFromIndex(r.in(-1, n));
        else if (what == 2 && !lst.empty()) lst[(size_t)r.below((long)lst.size())].setToIndex(r.in(-1, n));
        else if (what == 3) lst.push_back(GraphEdge(r.in(-1, n), r.in(-1, n), 1.0));
        else if (!lst.empty()) lst.push_back(lst[(size_t)r.below((long)lst.size())]);
      }
    } else {
      for (int k = 0; k < n; k++) {
        std::vector<GraphEdge> in, out;
        for (long m = r.below(3); m > 0; m--) in.push_back(GraphEdge(r.in(0, n - 1), r.chance(0.8) ? k : r.in(0, n - 1), 1.0));
        for (long m = r.below(3); m > 0; m--) out.push_back(GraphEdge(r.chance(0.8) ? k : r.in(0, n - 1), r.in(0, n - 1), 1.0));
        ns.push_back(GN((int64_t)k, 0.0, in, out));
      }
    }
    link_event(ns);
  }
}
// ---------------------------------------------------------------------------------------------- components
static void comp_case(int n, const std::vector<std::pair<int, int>>& und, vt::Rng& r) {
  G g;
  for (int k = 0; k < n; k++) g.addNode((int64_t)k);
  std::vector<std::pair<int, int>> both;
  for (auto p : und) {
    if (r.chance(0.5)) std::swap(p.first, p.second);
    g.addEdgesBetweenNodes(p.first, p.second, r.chance(0.2) ? std::numeric_limits<double>::infinity() : (double)r.in(0, 3));
    both.push_back(p); both.push_back({p.second, p.first});
  }
  const G before = g;
  vt::cur() = "components n=" + std::to_string(n) + " " + vt::js(both).substr(0, 500);
  auto res = g.getConnectedComponentsUndirected();
  std::vector<long> lab(res.first.begin(), res.first.end());
  Ev("comp").f("n", n).f("edges", both).f("labels", lab).f("cnt", (long)res.second).f("same", same_graph(g, before)).emit();
}
static void comp() {
  vt::Rng r(vt::seed() + 21);
  vt::begin("comp");
  for (int n = 0; n <= 5; n++) {
    std::vector<std::pair<int, int>> all;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) all.push_back({a, b});
    for (long m = 0; m < (1L << all.size()); m++) {
      if (n == 5 && !vt::thorough() && r.chance(0.5)) continue;
      std::vector<std::pair<int, int>> u;
      for (size_t k = 0; k < all.size(); k++) if (m >> k & 1) u.push_back(all[k]);
      comp_case(n, u, r);
    }
  }
  for (long s = 0; s < vt::scale(150, 1500); s++) {
    int n = (int)r.in(6, s % 10 == 0 ? 120 : 25);
    std::vector<std::pair<int, int>> u;
    long m = r.below(n + n / 2 + 1);
    for (long k = 0; k < m; k++) { int a = (int)r.below(n), b = (int)r.below(n); if (a != b) u.push_back({a, b}); }
    if (s % 7 == 0) { u.clear(); for (int k = 0; k + 1 < n; k++) if (!r.chance(0.05)) u.push_back({n - 1 - k, n - 2 - k}); }
    comp_case(n, u, r);
  }
}
// ---------------------------------------------------------------------------------------------- random walk
struct Draws {  // generator whose raw output is under our control
  typedef uint64_t result_type;
  vt::Rng r; int mode; uint64_t k = 0; std::vector<uint64_t> script;
  Draws(uint64_t s, int m) : r(s), mode(m) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ULL; }
  uint64_t operator()() {
    uint64_t x = k++;
    if (x < script.size()) return script[x];
    if (mode == 1 && x < 40) return x & 1 ? ~0ULL - 3 : 7;     // extremes first
    if (mode == 2 && x < 40) return ~0ULL / 5 * (x % 5) + 11;
    return r.next();
  }
};
static void walk_case(int n, const std::vector<E>& es, int s, int goal, vt::Rng& r, uint64_t seed, int mode, const std::vector<uint64_t>& script = {}) {
  const G g = make(n, es);
  const G before = g;
  vt::cur() = "random walk n=" + std::to_string(n) + " s=" + std::to_string(s) + " g=" + std::to_string(goal) + " " + edges3(es).s.substr(0, 600);
  std::vector<int64_t> path;
  int exc = 0;
  if (mode == 3) { std::mt19937 m((uint32_t)seed); exc = vt::guarded([&] { path = GraphRandomWalk<int64_t>::PerformRandomWalk(g, s, goal, m); }); }
  else { Draws d(seed, mode); d.script = script; exc = vt::guarded([&] { path = GraphRandomWalk<int64_t>::PerformRandomWalk(g, s, goal, d); }); }
  std::vector<std::pair<int, int>> pe; std::set<std::pair<int, int>> seen;
  for (const E& e : es) if (seen.insert({e.f, e.t}).second) pe.push_back({e.f, e.t});
  Ev("rwalk").f("n", n).f("edges", pe).f("s", s).f("g", goal).f("path", path).f("exc", exc).f("same", same_graph(g, before)).emit();
}
static bool walkable(int n, const std::vector<E>& es, int s, int goal) {
  std::vector<char> in((size_t)n, 0), out((size_t)n, 0);
  in[(size_t)s] = 1; out[(size_t)goal] = 1;
  for (int k = 0; k < n; k++) for (const E& e : es) { if (e.f != goal && in[(size_t)e.f]) in[(size_t)e.t] = 1; if (out[(size_t)e.t]) out[(size_t)e.f] = 1; }
  for (int k = 0; k < n; k++) if (in[(size_t)k] && !out[(size_t)k]) return false;
  return true;
}
static void walk() {
  vt::Rng r(vt::seed() + 31);
  vt::begin("walk");
  for (long c = 0; c < vt::scale(1500, 12000);) {
    int n = (int)r.in(2, c % 4 == 0 ? 12 : 5);
    auto es = c % 6 == 5 ? shaped_edges(r, n, 2, 5) : rnd_edges(r, n, r.chance(0.5) ? 0.35 : 0.7, 1, false, false, r.chance(0.3));
    int s = (int)r.below(n), g = r.chance(0.05) ? s : (int)r.below(n);
    if (!walkable(n, es, s, g)) continue;
    int mode = (int)r.below(4);
    walk_case(n, es, s, g, r, r.next(), mode);
    c++;
  }
  // all raw draw prefixes on a small cyclic graph: 0-1-2-3 in a line plus a triangle 1-2-4
  std::vector<E> es = {{0, 1, 1, 2}, {1, 0, 1, 2}, {1, 2, 1, 2}, {2, 1, 1, 2}, {2, 4, 1, 2}, {4, 1, 1, 2}, {1, 4, 1, 2}, {2, 3, 1, 2}, {4, 2, 1, 2}};
  const int L = vt::thorough() ? 7 : 5;
  long tot = 1; for (int k = 0; k < L; k++) tot *= 3;
  for (long m = 0; m < tot; m++) {
    std::vector<uint64_t> sc; long x = m;
    for (int k = 0; k < L; k++) { sc.push_back(~0ULL / 3 * (uint64_t)(x % 3) + ~0ULL / 6); x /= 3; }
    walk_case(5, es, 0, 3, r, (uint64_t)m + 1, 0, sc);
  }
}
// ---------------------------------------------------------------------------------------------- Dijkstra
static void dij_case(int n, const std::vector<E>& es, long goal, bool dirty, vt::Rng& r) {
  G g = make(n, es);
  if (dirty) for (auto& nd : g.getNodes()) nd.setDistance((double)r.in(0, 5));   // distances left over from an earlier search
  const G before = g;
  vt::cur() = "dijkstra n=" + std::to_string(n) + " goal=" + std::to_string(goal) + " " + edges3(es).s.substr(0, 600);
  std::vector<long> dist, gdist; std::vector<int64_t> nxt; bool kept = true;
  int exc = vt::guarded([&] {
    auto res = SimpleDijkstrasAlgorithm<int64_t>::PerformDijkstrasAlgorithm(g, goal);
    dist = encv(res.second.second); nxt = res.second.first;
    for (auto& nd : res.first.getNodes()) gdist.push_back(vt::enc(nd.getDistance(), SC));
    kept = same_graph(res.first, before, false);
  });
  Ev("dij").f("n", n).f("edges", edges3(es)).f("goal", goal).f("exc", exc).f("dist", dist).f("gdist", gdist).f("nxt", nxt).f("kept", kept).f("same", same_graph(g, before)).emit();
}
static void dij() {
  vt::Rng r(vt::seed() + 41);
  vt::begin("dij");
  long c = 0;
  for (const auto& l : vt::gen_lines()) {
    auto v = vt::ints(l);
    std::vector<E> es;
    for (size_t k = 2; k + 2 < v.size(); k += 3) es.push_back(E{(int)v[k], (int)v[k + 1], (double)v[k + 2], 2});
    if (c++ % 2) std::reverse(es.begin(), es.end());
    dij_case((int)v[0], es, v[1], c % 5 == 0, r);
    if (c % 100 == 0) vt::begin("dij");
  }
  for (long s = 0; s < vt::scale(500, 6000); s++) {
    int n = (int)r.in(1, s % 9 == 0 ? 60 : s % 3 == 0 ? 14 : 7);
    int style = (int)r.below(6);
    auto es = s % 4 == 3 ? shaped_edges(r, n, (int)r.below(3), style) : rnd_edges(r, n, n > 20 ? 0.1 : r.chance(0.5) ? 0.3 : 0.6, style, r.chance(0.3), r.chance(0.3), r.chance(0.2));
    precise(r, es, style);
    dij_case(n, es, r.chance(0.04) ? r.in(-2, n + 1) : r.below(n), r.chance(0.3), r);
    if (s % 50 == 0) vt::begin("dij");
  }
  SC = 1024.0;
  for (long s = 0; s < vt::scale(2, 8); s++) {   // more nodes than a byte can count
    vt::begin("dij"); const int n = (int)r.in(260, 300); auto es = shaped_edges(r, n, (int)r.below(3), 1); dij_case(n, es, r.below(n), false, r);
  }
  vt::begin("dij"); dij_case(0, {}, 0, false, r); dij_case(1, {}, 0, false, r); dij_case(3, {}, -1, false, r); dij_case(3, {}, 3, false, r);
}
// ---------------------------------------------------------------------------------------------- A* on graphs
static std::vector<double> heuristic(vt::Rng& r, const std::vector<double>& pot, int kind) {
  std::vector<double> h(pot.size());
  for (size_t k = 0; k < pot.size(); k++) {
    double cap = std::isinf(pot[k]) ? 8192.0 / SC : pot[k];
    if (kind == 0) h[k] = 0;
    else if (kind == 1) h[k] = cap;
    else if (kind == 2) h[k] = r.chance(0.5) ? 0 : cap;                       // admissible, inconsistent
    else if (kind == 3) h[k] = (double)r.below((long)(cap * SC) + 1) / SC;
    else h[k] = std::floor(cap * SC / 2) / SC;
  }
  return h;
}
// edges with val == INVALID are the ones the validity check refuses
static void astar_case(int n, const std::vector<E>& es, int s, int g, const std::vector<double>& hv, const std::vector<double>& pot, int variant, bool lim) {
  const G gr = make(n, es);
  typedef SimpleGraphAstar<int64_t> A;
  std::function<double(const int64_t&, const int64_t&)> h = [&](const int64_t& a, const int64_t& b) { return b == g ? hv[(size_t)a] : 1e6; };
  vt::cur() = "astar variant " + std::to_string(variant) + " lim " + std::to_string(lim) + " n=" + std::to_string(n) + " s=" + std::to_string(s) + " g=" + std::to_string(g) + " " + edges3(es).s.substr(0, 600);
  arc_helpers::AstarResult res; res.second = -1;
  int exc = vt::guarded([&] {
    if (variant == 0) res = A::PerformAstar(gr, s, g, h, lim);
    else if (variant == 1) {
      std::function<bool(const G&, const GraphEdge&)> ok = [](const G&, const GraphEdge& e) { return !e.isInvalid(); };
      std::function<double(const G&, const GraphEdge&)> d = [](const G&, const GraphEdge& e) { return e.getWeight(); };
      res = A::PerformLazyAstar(gr, s, g, ok, d, h, lim);
    } else {  // by node values: no parallel edges in these graphs
      std::function<bool(const int64_t&, const int64_t&)> ok = [&](const int64_t& a, const int64_t& b) { return !gr.getEdge(a, b).isInvalid(); };
      std::function<double(const int64_t&, const int64_t&)> d = [&](const int64_t& a, const int64_t& b) { return gr.getEdge(a, b).getWeight(); };
      res = A::PerformLazyAstar(gr, s, g, ok, d, h, lim);
    }
  });
  Ev("astar").f("variant", variant).f("lim", lim).f("n", n).f("edges", edges3(es, true)).f("s", s).f("g", g).f("pot", encv(pot)).f("h", encv(hv)).f("exc", exc)
      .f("path", res.first).f("cost", vt::enc(res.second, SC)).emit();
}
static void gen_astar(void (*run)(int, const std::vector<E>&, int, int, const std::vector<double>&, const std::vector<double>&, int, bool), int variants) {
  long c = 0;
  for (const auto& l : vt::gen_lines()) {   // <<NN, edges, h>>, start 0, goal NN-1
    auto v = vt::ints(l);
    int n = (int)v[0]; std::vector<E> es; std::vector<double> h;
    for (size_t k = 1; k + (size_t)n < v.size(); k += 3) es.push_back(E{(int)v[k], (int)v[k + 1], (double)v[k + 2], 2});
    for (size_t k = v.size() - (size_t)n; k < v.size(); k++) h.push_back((double)v[k]);
    if (c % 2) std::reverse(es.begin(), es.end());
    SC = 1024.0;
    if (c % 4 < 2) { const double f = std::ldexp(1.0, 40); SC *= f; for (E& e : es) e.w /= f; for (double& x : h) x /= f; }
    run(n, es, 0, n - 1, h, potential(n, es, n - 1, true), (int)(c % variants), (c / 3) % 2);
    if (++c % 100 == 0) vt::begin("astar");
  }
}
// a costly last step leaves room for estimates that make the search reach states by dearer ways first, and come back
static std::vector<E> comeback(vt::Rng& r, int n, int style) {
  std::vector<E> es;
  for (int a = 0; a + 2 < n; a++) for (int b = a + 1; b + 1 < n; b++) if (r.chance(.7)) es.push_back(E{a, b, rnd_weight(r, style), 2});
  es.push_back(E{n - 2, n - 1, style == 3 ? 100000.0 : 64.0, 2});
  for (size_t k = es.size(); k > 1; k--) std::swap(es[k - 1], es[(size_t)r.below((long)k)]);
  return es;
}
static void astar() {
  vt::Rng r(vt::seed() + 51);
  vt::begin("astar");
  gen_astar(astar_case, 3);
  for (long s = 0, base = vt::scale(900, 9000); s < base + 80 + base / 3; s++) {
    const bool back = s >= base + 80, tight = s >= base;   // grids of nearly equal edges
    int n = back ? (int)r.in(5, 9) : tight ? (int)r.in(12, 25) : (int)r.in(2, s % 9 == 0 ? 50 : s % 3 == 0 ? 14 : 7);
    int variant = (int)r.below(3), style = (int)r.below(6);
    auto es = back ? comeback(r, n, style) : tight ? shaped_edges(r, n, 1, 1) : s % 4 == 3 ? shaped_edges(r, n, (int)r.below(3), style) : rnd_edges(r, n, n > 20 ? 0.1 : r.chance(0.5) ? 0.3 : 0.6, style, variant == 0 && r.chance(0.4), r.chance(0.5), variant != 2 && r.chance(0.2));
    if (variant == 2) { std::set<std::pair<int, int>> sn; std::vector<E> q; for (auto& e : es) if (sn.insert({e.f, e.t}).second) q.push_back(e); es = q; }
    precise(r, es, style, tight && !back);
    int a = tight ? 0 : (int)r.below(n), g = tight ? n - 1 : (int)r.below(n);
    if (r.chance(0.04)) a = (int)r.in(-2, n + 1);
    if (r.chance(0.04)) g = (int)r.in(-2, n + 1);
    std::vector<double> pot((size_t)n, 0.0);
    if (g >= 0 && g < n) pot = potential(n, es, g, true);
    auto h = heuristic(r, pot, back ? 2 + (int)r.below(2) : (int)r.below(5));
    if (a < 0 || g < 0) h.resize((size_t)n + 4);
    astar_case(n, es, a, g, h, pot, variant, r.chance(0.5));
    if (s % 50 == 0) vt::begin("astar");
  }
}
// ---------------------------------------------------------------------------------------------- implicit spaces
struct OddHash { size_t operator()(const std::string& s) const { return s.size() % 3; } };
static void generic_case(int n, const std::vector<E>& es, int s, int g, const std::vector<double>& hv, const std::vector<double>& pot, int variant, bool lim) {
  // ids handed to the search: small, sparse, or beyond 32 bits
  const int64_t mul = variant == 0 ? 1 : variant == 1 ? 1000003 : 5000000011LL, off = variant == 0 ? 0 : 17;
  auto id = [&](int k) { return (int64_t)k * mul + off; };
  auto un = [&](int64_t x) { return (int)((x - off) / mul); };
  vt::cur() = "generic astar lim " + std::to_string(lim) + " n=" + std::to_string(n) + " s=" + std::to_string(s) + " g=" + std::to_string(g) + " " + edges3(es).s.substr(0, 600);
  arc_helpers::AstarResult res; res.second = -1;
  auto least = [&](int a, int b, bool& ok) { double d = std::numeric_limits<double>::infinity(); ok = false; for (const E& e : es) if (e.f == a && e.t == b && e.val != INVALID) { ok = true; d = std::min(d, e.w); } return d; };
  bool foreign = false;
  int exc = vt::guarded([&] {
    res = arc_helpers::GenericAstarSearch(id(s), id(g),
        [&](const int64_t x) { std::vector<int64_t> c; for (const E& e : es) if (e.f == un(x)) { c.push_back(id(e.t)); if (lim && e.val == VALID) c.push_back(id(e.t)); } return c; },
        [&](const int64_t a, const int64_t b) { bool ok; least(un(a), un(b), ok); return ok; },
        [&](const int64_t a, const int64_t b) { bool ok; return least(un(a), un(b), ok); },
        [&](const int64_t a, const int64_t b) { if (b != id(g)) foreign = true; return hv[(size_t)un(a)]; }, lim);
  });
  std::vector<int64_t> path; for (auto x : res.first) path.push_back(un(x));
  Ev("astar").f("variant", 10 + variant).f("lim", lim).f("n", n).f("edges", edges3(es, true)).f("s", s).f("g", g).f("pot", encv(pot)).f("h", encv(hv)).f("exc", exc)
      .f("path", path).f("cost", foreign ? vt::BAD : vt::enc(res.second, SC)).emit();
}
template <typename C, typename H> static std::vector<long> plan(int n, const std::vector<E>& es, int s, const std::set<int>& goals, const std::vector<double>& hv, std::function<C(int)> mk, std::function<int(const C&)> un, int& exc, long& explored) {
  std::vector<long> path;
  auto least = [&](int a, int b) { double d = std::numeric_limits<double>::infinity(); for (const E& e : es) if (e.f == a && e.t == b && e.val != INVALID) d = std::min(d, e.w); return d; };
  exc = vt::guarded([&] {
    typedef simple_astar_planner::SimpleAStarPlanner<C> P;
    std::pair<std::vector<C>, std::map<std::string, double>> res = P::template Plan<H>(mk(s),
        [&](const C& x) { std::vector<C> c; for (const E& e : es) if (e.f == un(x) && e.val != INVALID) c.push_back(mk(e.t)); return c; },
        [&](const C& a, const C& b) { return least(un(a), un(b)); }, [&](const C& x) { return hv[(size_t)un(x)]; }, [&](const C& x) { return goals.count(un(x)) > 0; });
    for (auto& c : res.first) path.push_back(un(c));
    explored = (long)res.second.at("nodes explored");
  });
  return path;
}
static void implicit() {
  vt::Rng r(vt::seed() + 61);
  vt::begin("implicit");
  gen_astar(generic_case, 3);
  for (long s = 0, base = vt::scale(900, 9000); s < base + 80 + base / 3; s++) {
    const bool back = s >= base + 80 && s % 2, tight = s >= base;
    int n = back ? (int)r.in(5, 9) : tight ? (int)r.in(12, 25) : (int)r.in(2, s % 9 == 0 ? 50 : s % 3 == 0 ? 14 : 7), style = (int)r.below(6);
    auto es = back ? comeback(r, n, style) : tight ? shaped_edges(r, n, 1, 1) : s % 4 == 3 ? shaped_edges(r, n, (int)r.below(3), style) : rnd_edges(r, n, n > 20 ? 0.1 : r.chance(0.5) ? 0.3 : 0.6, style, false, r.chance(0.5), r.chance(0.2));
    precise(r, es, style, tight && !back);
    int a = tight ? 0 : (int)r.below(n), g = tight ? n - 1 : (int)r.below(n);
    if (s % 2) {
      auto pot = potential(n, es, g, true);
      generic_case(n, es, a, g, heuristic(r, pot, back ? 2 + (int)r.below(2) : (int)r.below(5)), pot, (int)r.below(3), r.chance(0.5));
    } else {
      // several goals: an extra node n reached from every goal at no cost gives the potential
      std::set<int> goals; for (long k = tight ? 0 : r.below(4); k > 0; k--) goals.insert((int)r.below(n)); if (tight) goals.insert(g);
      auto e2 = es; for (int x : goals) e2.push_back(E{x, n, 0.0, 2});
      auto pot = potential(n + 1, e2, n, true);
      // consistent heuristics: 0, the exact distance, capped distance, half of it
      std::vector<double> h = pot; int kind = (int)r.below(4); double cap = rnd_weight(r, 2) * 1024.0 / SC;
      for (double& x : h) x = kind == 0 ? 0 : kind == 1 ? x : kind == 2 ? std::min(x, cap) : x / 2;
      if (kind == 1 || kind == 3) for (double& x : h) if (std::isinf(x)) x = 1.024e9 / SC;
      for (const E& e : e2) if (e.val != INVALID && kind != 0 && h[(size_t)e.f] > e.w + h[(size_t)e.t]) { printf("inconsistent\n"); _exit(97); }
      int exc = 0; long ex = -1; std::vector<long> path;
      vt::cur() = "SimpleAStarPlanner n=" + std::to_string(n) + " s=" + std::to_string(a) + " " + edges3(es).s.substr(0, 600);
      if (s % 4 == 0) path = plan<int64_t, std::hash<int64_t>>(n, es, a, goals, h, [](int k) { return (int64_t)k * 7000000001LL; }, [](const int64_t& x) { return (int)(x / 7000000001LL); }, exc, ex);
      else path = plan<std::string, OddHash>(n, es, a, goals, h, [](int k) { return std::string((size_t)k, 'x'); }, [](const std::string& x) { return (int)x.size(); }, exc, ex);
      Ev("plan").f("n", n).f("edges", edges3(es, true)).f("s", a).f("goals", std::vector<long>(goals.begin(), goals.end())).f("pot", encv(pot)).f("h", encv(h)).f("exc", exc).f("path", path).f("explored", ex).emit();
    }
    if (s % 50 == 0) vt::begin("implicit");
  }
}
int main(int argc, char** argv) {
  vt::open();
  std::string m = argc > 1 ? argv[1] : "";
  if (m == "edits") edits();
  else if (m == "comp") comp();
  else if (m == "walk") walk();
  else if (m == "dij") dij();
  else if (m == "astar") astar();
  else if (m == "implicit") implicit();
  else return 97;
  vt::done();
}
