// Conformance harness for roadmap planning and nearest neighbours: argv[1] selects road | knn
#include "trace.hpp"
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/simple_prm_planner.hpp>
#include <random>
using vt::Ev; using vt::Raw;
using simple_prm_planner::SimpleGeometricPrmPlanner;
const double INFD = std::numeric_limits<double>::infinity();
struct St { int uid, lab; };
typedef arc_dijkstras::Graph<St> G;
static double UNIT = 1.0;   // the length of one unit of distance in the scenario (a power of two)
static long unit(double x) { return vt::enc(x / UNIT); }

static std::string ej(const arc_dijkstras::GraphEdge& e) {
  return "[" + vt::js(e.getFromIndex()) + "," + vt::js(e.getToIndex()) + "," + vt::js(unit(e.getWeight())) + "," + vt::js((int)e.getValidity()) + "]";
}
static Raw gj(const G& g) {
  std::string o = "[";
  for (size_t k = 0; k < g.getNodes().size(); k++) {
    const auto& n = g.getNodes()[k];
    o += std::string(k ? "," : "") + "{\"v\":" + vt::js(n.getValue().uid) + ",\"ins\":[";
    for (size_t j = 0; j < n.getInEdges().size(); j++) o += (j ? "," : "") + ej(n.getInEdges()[j]);
    o += "],\"outs\":[";
    for (size_t j = 0; j < n.getOutEdges().size(); j++) o += (j ? "," : "") + ej(n.getOutEdges()[j]);
    o += "]}";
  }
  return Raw{o + "]"};
}
static bool same(const G& a, const G& b) { return gj(a).s == gj(b).s; }
typedef std::vector<std::vector<int>> Tab;
static Tab metric(vt::Rng& r, int S, bool sym, bool ties, bool line) {
  Tab d((size_t)S, std::vector<int>((size_t)S, 0));
  for (int a = 0; a < S; a++)
    for (int b = 0; b < S; b++) if (a != b) {
      if (line) d[a][b] = std::abs(a - b) * (sym || a > b ? 2 : 3);
      else d[a][b] = ties ? (int)r.in(1, 4) : (int)r.in(1, 5000);
      if (sym && b < a) d[a][b] = d[b][a];
    }
  for (int k = 0; k < S; k++) for (int a = 0; a < S; a++) for (int b = 0; b < S; b++) d[a][b] = std::min(d[a][b], d[a][k] + d[k][b]);
  return d;
}
static Tab validity(vt::Rng& r, int S, double p, bool sym) {
  Tab v((size_t)S, std::vector<int>((size_t)S, 1));
  for (int a = 0; a < S; a++) for (int b = 0; b < S; b++) if (a != b) v[a][b] = (sym && b < a) ? v[b][a] : r.chance(p);
  return v;
}
struct World {
  Tab D, V;
  std::function<double(const St&, const St&)> dist; std::function<bool(const St&, const St&)> valid;
  World() {
    dist = [this](const St& a, const St& b) { return UNIT * (double)D[a.lab][b.lab]; };
    valid = [this](const St& a, const St& b) { return V[a.lab][b.lab] != 0; };
  }
};
// claimed distances to the goal node over the edges of g (checked by the specification)
static std::vector<long> pot(const G& g, int goal, const World* lazy) {
  const size_t n = g.getNodes().size();
  std::vector<double> d(n, INFD); d[(size_t)goal] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (const auto& nd : g.getNodes()) for (const auto& e : nd.getOutEdges()) {
      const St &a = g.getNode(e.getFromIndex()).getValue(), &b = g.getNode(e.getToIndex()).getValue();
      const double w = lazy ? (lazy->V[a.lab][b.lab] ? UNIT * (double)lazy->D[a.lab][b.lab] : INFD) : e.getWeight();
      if (w + d[(size_t)e.getToIndex()] < d[(size_t)e.getFromIndex()]) { d[(size_t)e.getFromIndex()] = w + d[(size_t)e.getToIndex()]; ch = true; }
    }
  }
  std::vector<long> o; for (double x : d) o.push_back(unit(x)); return o;
}
static std::vector<int> uids(const std::vector<St>& p) { std::vector<int> o; for (const St& s : p) o.push_back(s.uid); return o; }
// index the planner will use for a state: the equal-label node if states are not duplicated, else the node with its uid
static int idx_of(const G& g, const St& s, bool reuse) {
  for (size_t k = 0; k < g.getNodes().size(); k++) if (g.getNodes()[k].getValue().uid == s.uid) return (int)k;
  if (reuse) for (size_t k = 0; k < g.getNodes().size(); k++) if (g.getNodes()[k].getValue().lab == s.lab) return (int)k;
  return -1;
}

static void road(vt::Rng& r, bool big) {
  const int S = (int)r.in(2, big ? 12 : 6);
  const bool sym = r.chance(0.5), dup = r.chance(0.3);
  UNIT = std::ldexp(1.0, (int)r.pick(std::vector<int>{0, 0, 0, -30, -60, 25}));   // distances of any magnitude
  World w; w.D = metric(r, S, sym, r.chance(0.5), r.chance(0.3)); w.V = validity(r, S, r.chance(0.3) ? 1.0 : 0.6, true);
  const int K = (int)r.in(r.chance(0.1) ? 0 : 1, big ? 6 : 3);
  std::vector<int> acc; for (int a = 0; a < S; a++) acc.push_back(r.chance(0.85));
  Ev("begin").f("kind", "road").f("K", K).f("sym", sym).f("dup", dup).f("D", w.D).f("V", w.V).f("acc", acc).emit();
  G g; std::vector<St> all; 
  auto fresh = [&](int lab) { St s{(int)all.size(), lab}; all.push_back(s); return s; };
  auto labs = [&]() { std::vector<int> o; for (const St& s : all) o.push_back(s.lab); return o; };
  bool reval = false;  // from then on random walks (whose length is that of the distances) are not compared with the edges
  if (r.chance(0.35)) {  // a roadmap made by hand: one-way, two-way and parallel edges, detours heavier than the distance
    const int n = (int)r.in(2, S);  // different states, so that it is clear which node an equal state refers to
    std::vector<int> perm; for (int k = 0; k < S; k++) perm.insert(perm.begin() + r.below((long)perm.size() + 1), k);
    for (int k = 0; k < n; k++) g.addNode(fresh(perm[(size_t)k]));
    for (int k = 0, m = (int)r.in(1, 3 * n); k < m; k++) {
      const int a = (int)r.below(n), b = (int)r.below(n); if (a == b) continue;
      for (int c = r.chance(0.3) ? 2 : 1; c > 0; c--) {
        const auto wt = [&](int x, int y) { return UNIT * ((double)w.D[g.getNode(x).getValue().lab][g.getNode(y).getValue().lab] + (r.chance(0.3) ? (double)r.in(0, 9) : 0.0)); };
        g.addEdgeBetweenNodes(a, b, wt(a, b)); if (r.chance(0.6)) g.addEdgeBetweenNodes(b, a, wt(b, a));
      }
    }
    reval = true;
    Ev("given").f("lab", labs()).f("g", gj(g)).emit();
  }
  const int steps = (int)r.in(3, big ? 14 : 8);
  for (int st = 0; st < steps; st++) {
    const int what = st == 0 ? 0 : (int)r.in(0, 9);
    if (what <= 2) {  // extend by a few samples, the roadmap seen before every sample and at the end
      const int cnt = (int)r.in(1, big ? 6 : 4); int done = 0;
      std::vector<int> drawn; std::string seen = "["; std::vector<int> asked;
      const int e = vt::guarded([&] {
        SimpleGeometricPrmPlanner::ExtendRoadMap<St>(g,
          [&]() { seen += (seen == "[" ? "" : ",") + gj(g).s; St s = fresh((int)r.below(S)); drawn.push_back(s.uid); done++; return s; },
          w.dist, [&](const St& s) { asked.push_back(s.uid); return acc[(size_t)s.lab] != 0; }, w.valid, [&]() { return done >= cnt; }, (size_t)K, sym, dup);
      });
      seen += (seen == "[" ? "" : ",") + gj(g).s + "]";
      Ev("extend").f("exc", e).f("lab", labs()).f("drawn", drawn).f("asked", asked).f("seen", Raw{seen}).f("n", cnt).emit();
    } else if (what == 3) {  // a roadmap built from scratch with the same samples as an extension of an empty one
      std::vector<int> ls; const int cnt = (int)r.in(0, 6); for (int k = 0; k < cnt; k++) ls.push_back((int)r.below(S));
      int d1 = 0, d2 = 0; G ext, blt;
      const std::function<bool(const St&)> okf = [&](const St& s) { return acc[(size_t)s.lab] != 0; };
      const int e = vt::guarded([&] {
        SimpleGeometricPrmPlanner::ExtendRoadMap<St>(ext, [&]() { St s{d1, ls[(size_t)d1]}; d1++; return s; }, w.dist, okf, w.valid, [&]() { return d1 >= cnt; }, (size_t)K, sym, dup);
        blt = SimpleGeometricPrmPlanner::BuildRoadMap<St>([&]() { St s{d2, ls[(size_t)d2]}; d2++; return s; }, w.dist, okf, w.valid, [&]() { return d2 >= cnt; }, (size_t)K, sym, dup);
      });
      Ev("build").f("exc", e).f("same", same(ext, blt)).f("drawn", d2).f("cnt", cnt).emit();
    } else if (what == 4) {  // re-validation against changed tables
      World n; n.D = r.chance(0.5) ? w.D : metric(r, S, sym, r.chance(0.5), false); n.V = validity(r, S, 0.7, r.chance(0.5));
      if (r.chance(0.15) && g.getNodes().size() > 1) {  // a damaged roadmap is refused
        G bad = g; size_t k = 0; while (k < bad.getNodes().size() && bad.getNodes()[k].getOutEdges().empty()) k++;
        if (k < bad.getNodes().size()) {
          bad.getNode((int64_t)k).getOutEdges()[0].setToIndex((int64_t)bad.getNodes().size() + 3);
          Ev("badmap").f("exc", vt::guarded([&] { SimpleGeometricPrmPlanner::UpdateRoadMapEdges<St>(bad, n.valid, n.dist); })).emit();
        }
      }
      const int e = vt::guarded([&] { SimpleGeometricPrmPlanner::UpdateRoadMapEdges<St>(g, n.valid, n.dist); });
      w.D = n.D; for (int a = 0; a < S; a++) for (int b = 0; b < S; b++) w.V[a][b] = n.V[a][b] && n.V[b][a];
      Ev("update").f("exc", e).f("lab", labs()).f("D", n.D).f("U", n.V).f("V", w.V).f("g", gj(g)).emit();
      reval = true;
    } else {
      const int how = (int)r.in(0, 4);  // 0 single A*, 1 lazy, 2 several starts, 3 several goals, 4 random walk
      const bool lim = r.chance(0.5);
      if (how <= 1) {
        St s = fresh((int)r.below(S)), t = fresh((int)r.below(S));
        if (s.lab == t.lab && !(dup || K == 0)) { all.pop_back(); all.pop_back(); continue; }
        std::pair<std::vector<St>, double> a1, a2; G keep = g, h = g;
        auto kept = [&](G& into) { return how == 0 ? SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoal<St>(s, t, into, w.valid, w.dist, (size_t)K, sym, dup, lim)
                                                   : SimpleGeometricPrmPlanner::LazyQueryPathAndAddNodesSingleStartSingleGoal<St>(s, t, into, w.valid, w.dist, (size_t)K, sym, dup, lim); };
        const int e = vt::guarded([&] {
          a1 = how == 0 ? SimpleGeometricPrmPlanner::QueryPathSingleStartSingleGoal<St>(s, t, g, w.valid, w.dist, (size_t)K, sym, dup, lim)
                        : SimpleGeometricPrmPlanner::LazyQueryPathSingleStartSingleGoal<St>(s, t, g, w.valid, w.dist, (size_t)K, sym, dup, lim);
          a2 = kept(h);
        });
        const int gi = idx_of(h, t, !(dup || K == 0));
        const bool add = r.chance(0.4);
        Ev("query").f("exc", e).f("same", same(keep, g)).f("lab", labs()).f("us", std::vector<std::pair<int, int>>{{s.uid, 1}, {t.uid, 0}}).f("h", gj(h)).f("lazy", how == 1)
          .f("path", uids(a1.first)).f("cost", unit(a1.second)).f("path2", uids(a2.first)).f("cost2", unit(a2.second))
          .f("pot", gi < 0 ? std::vector<long>() : pot(h, gi, how == 1 ? &w : nullptr)).f("add", add).emit();
        if (add) g = h;
      } else if (how <= 3) {
        const int ns = (int)r.in(r.chance(0.1) ? 0 : 1, 3), ng = how == 2 ? 1 : (int)r.in(0, big ? 6 : 4);
        std::vector<St> ss, ts; std::vector<std::pair<int, int>> us;
        std::vector<int> used;
        bool clash = false;
        for (int k = 0; k < ns; k++) { ss.push_back(fresh((int)r.below(S))); us.push_back({ss.back().uid, 1}); }
        for (int k = 0; k < ng; k++) { ts.push_back(fresh((int)r.below(S))); for (const St& s : ss) clash = clash || s.lab == ts.back().lab; }
        if (clash && !(dup || K == 0)) { for (int k = 0; k < ns + ng; k++) all.pop_back(); continue; }
        std::vector<std::vector<int>> paths; std::vector<long> costs; G keep = g;
        for (const St& t : ts) {
          std::pair<std::vector<St>, double> a1, a2; G h = g;
          const int e = vt::guarded([&] {
            a1 = SimpleGeometricPrmPlanner::QueryPathMultiStartSingleGoal<St>(ss, t, g, w.valid, w.dist, (size_t)K, sym, dup);
            a2 = SimpleGeometricPrmPlanner::QueryPathAndAddNodesMultiStartSingleGoal<St>(ss, t, h, w.valid, w.dist, (size_t)K, sym, dup);
          });
          auto u2 = us; u2.push_back({t.uid, 0});
          const int gi = idx_of(h, t, !(dup || K == 0));
          const bool add = how == 2 && r.chance(0.3);
          Ev("query").f("exc", e).f("same", same(keep, g)).f("lab", labs()).f("us", u2).f("h", gj(h)).f("lazy", false)
            .f("path", uids(a1.first)).f("cost", unit(a1.second)).f("path2", uids(a2.first)).f("cost2", unit(a2.second))
            .f("pot", gi < 0 ? std::vector<long>() : pot(h, gi, nullptr)).f("add", add).emit();
          paths.push_back(uids(a1.first)); costs.push_back(unit(a1.second));
          if (add) g = h;
        }
        if (how == 3) {
          std::pair<std::vector<St>, double> a;
          const int e = vt::guarded([&] { a = SimpleGeometricPrmPlanner::QueryPathMultiStartMultiGoal<St>(ss, ts, g, w.valid, w.dist, (size_t)K, sym, dup); });
          Ev("multi").f("exc", e).f("same", same(keep, g)).f("paths", paths).f("costs", costs).f("path", uids(a.first)).f("cost", unit(a.second)).emit();
        }
      } else if (!reval && !dup && K > 0) {
        St s = fresh((int)r.below(S)), t = fresh((int)r.below(S));
        G h = g;   // is the goal reachable from everywhere the walk can get to?
        bool ok = s.lab != t.lab;
        if (ok) {
          vt::guarded([&] { std::function<double(const St&, const St&)> d0 = w.dist; SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoal<St>(s, t, h, w.valid, w.dist, (size_t)K, sym, dup); });
          const int si = idx_of(h, s, true), gi = idx_of(h, t, true);
          ok = si >= 0 && gi >= 0 && pot(h, gi, nullptr)[(size_t)si] < vt::INF;
        }
        if (!ok) { all.pop_back(); all.pop_back(); continue; }
        std::mt19937_64 gen((uint64_t)r.next());
        std::pair<std::vector<St>, double> a; G h2 = g;
        const int e = vt::guarded([&] { a = SimpleGeometricPrmPlanner::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<St>(s, t, gen, h2, w.valid, w.dist, (size_t)K, sym); });
        Ev("walk").f("exc", e).f("lab", labs()).f("us", std::vector<std::pair<int, int>>{{s.uid, 1}, {t.uid, 0}}).f("h", gj(h2)).f("path", uids(a.first)).f("cost", unit(a.second)).emit();
        g = h2;
      }
    }
  }
}

static void knn(vt::Rng& r) {
  for (int sc = 0; sc < 8; sc++) {
    vt::begin("knn");
    for (int q = 0; q < vt::scale(60, 600); q++) {
      const int n = r.chance(0.1) ? 0 : (int)r.in(1, r.chance(0.2) ? 300 : 12);
      const int K = r.chance(0.15) ? (int)r.pick(std::vector<int>{0, n, n + 1, n > 0 ? n - 1 : 0, 2 * n + 3}) : (int)r.in(0, r.chance(0.2) ? n : 4);
      std::vector<int> items; std::vector<long> d(static_cast<size_t>(n));
      const int style = (int)r.in(0, 3);
      for (int k = 0; k < n; k++) { items.push_back(k); d[(size_t)k] = style == 0 ? r.in(0, 2) : style == 1 ? r.in(0, 1000000) : style == 2 ? n - k : k; }
      const double big = r.chance(0.1) ? std::ldexp(1.0, 980) : 1.0;   // very large but finite distances are distances too
      const std::function<double(const int&, const int&)> fn = [&](const int& it, const int& cur) { return cur == 42 ? (double)d[(size_t)it] * big : -1.0; };
      for (int how = 0; how < 2; how++) {
        std::vector<std::pair<int64_t, double>> res;
        const int e = vt::guarded([&] { res = how == 0 ? arc_helpers::GetKNearestNeighborsSerial<int, int>(items, 42, fn, (size_t)K) : arc_helpers::GetKNearestNeighborsParallel<int, int>(items, 42, fn, (size_t)K); });
        std::vector<std::pair<int64_t, long>> o; for (auto& x : res) o.push_back({x.first, vt::enc(x.second / big)});
        Ev("knn").f("how", how).f("exc", e).f("d", d).f("K", K).f("res", o).emit();
      }
    }
    for (int q = 0; q < vt::scale(25, 250); q++) {
      const int a = (int)r.in(0, 7), b = (int)r.in(0, 7), S = 8;
      Tab f((size_t)S, std::vector<int>((size_t)S)), fs = f;
      for (int x = 0; x < S; x++) for (int y = 0; y < S; y++) { f[x][y] = (int)r.in(0, 1000); fs[x][y] = x == y ? 0 : y < x ? fs[y][x] : f[x][y]; }
      std::vector<int> rows, cols; std::vector<char> rc;
      for (int k = 0; k < a; k++) rows.push_back((int)r.below(S));
      for (int k = 0; k < b; k++) cols.push_back((int)r.below(S));
      std::vector<short> colss(cols.begin(), cols.end());
      for (int how = 0; how < 4; how++) {
        Eigen::MatrixXd m;
        const bool two = how >= 2;
        const std::function<double(const int&, const int&)> f1 = [&](const int& x, const int& y) { return (double)fs[x][y]; };
        const std::function<double(const int&, const short&)> f2 = [&](const int& x, const short& y) { return (double)f[x][y]; };
        const int e = vt::guarded([&] {
          if (how == 0) m = arc_helpers::BuildDistanceMatrixSerial<int>(rows, f1);
          else if (how == 1) m = arc_helpers::BuildDistanceMatrixParallel<int>(rows, f1);
          else if (how == 2) m = arc_helpers::BuildDistanceMatrixSerial<int, short>(rows, colss, f2);
          else m = arc_helpers::BuildDistanceMatrixParallel<int, short>(rows, colss, f2);
        });
        std::vector<std::vector<long>> o;
        for (long x = 0; x < m.rows(); x++) { o.push_back({}); for (long y = 0; y < m.cols(); y++) o.back().push_back(vt::enc(m(x, y))); }
        Ev("table").f("how", how).f("exc", e).f("f", two ? f : fs).f("rows", rows).f("cols", two ? cols : rows).f("m", o).f("nc", (long)m.cols()).emit();
      }
    }
  }
}

int main(int, char** argv) {
  vt::open();
  const std::string mode = argv[1];
  vt::Rng r(vt::seed() * 77 + mode.size());
  if (mode == "knn") knn(r);
  else for (int k = 0; k < vt::scale(400, 4000); k++) road(r, k % 3 == 2);
  vt::done();
}
