// Conformance harness for the sampling planners: argv[1] selects uni | bi | link
#include "trace.hpp"
#include <arc_utilities/simple_rrt_planner.hpp>
#include <random>
using vt::Ev; using vt::Raw;
using namespace simple_rrt_planner;
struct St { int v; };
typedef SimpleRRTPlannerState<St> N;
typedef std::vector<N> Tree;
typedef std::vector<St> Path;
typedef std::map<std::string, double> Stats;
typedef std::pair<std::vector<Path>, Stats> Multi;
typedef std::pair<Path, Stats> Single;
typedef std::vector<std::pair<St, int64_t>> Batch;

static Raw tj(const Tree& t) {
  std::string o = "[";
  for (size_t k = 0; k < t.size(); k++)
    o += std::string(k ? "," : "") + "[" + vt::js(t[k].GetValueImmutable().v) + "," + vt::js(t[k].GetParentIndex()) + "," + vt::js(t[k].GetChildIndices()) + "," + vt::js(t[k].IsInitialized()) + "]";
  return Raw{o + "]"};
}
static std::vector<int> vs(const Path& p) { std::vector<int> o; for (const St& s : p) o.push_back(s.v); return o; }
static std::vector<std::vector<int>> vss(const std::vector<Path>& p) { std::vector<std::vector<int>> o; for (const auto& s : p) o.push_back(vs(s)); return o; }
static long stat(const Stats& s, const char* k) { const auto it = s.find(k); return it == s.end() ? -1 : vt::enc(it->second); }
static std::vector<long> stats(const Stats& s) {
  const auto it = s.find("planning_time");
  return {stat(s, "total_samples"), stat(s, "successful_samples"), stat(s, "failed_samples"), stat(s, "total_states"), stat(s, "solutions"), it != s.end() && it->second >= 0.0 && it->second < 100.0};
}
static int fresh_id = 0;
// a properly linked tree of n nodes (parents may come after their children when shuffled), possibly with further roots
static Tree grown(vt::Rng& r, int n) {
  std::vector<int> perm{0};  // perm[k] = index of the k-th inserted node; the first root keeps index 0
  for (int k = 1; k < n; k++) perm.push_back(k);
  if (r.chance(0.4)) for (int k = n - 1; k > 1; k--) std::swap(perm[(size_t)k], perm[(size_t)r.in(1, k)]);
  std::vector<int64_t> par((size_t)n, -1); std::vector<std::vector<int64_t>> ch((size_t)n);
  for (int k = 1; k < n; k++) if (!r.chance(0.1)) { par[(size_t)perm[(size_t)k]] = perm[(size_t)r.below(k)]; }
  for (int k = 0; k < n; k++) if (par[(size_t)k] >= 0) { auto& c = ch[(size_t)par[(size_t)k]]; c.insert(c.begin() + r.below((long)c.size() + 1), k); }
  Tree t; for (int k = 0; k < n; k++) t.push_back(N(St{fresh_id++}, par[(size_t)k], ch[(size_t)k]));
  return t;
}
// damages the links; may by chance leave them proper: the specification decides
static Tree hurt(vt::Rng& r, Tree t) {
  const int n = (int)t.size();
  std::vector<int64_t> par; std::vector<std::vector<int64_t>> ch; std::vector<bool> un;
  if (n > 1 && r.chance(.15)) {   // a ring: every link answered, yet the first state hangs from a later one
    t[0].SetParentIndex(r.in(1, n - 1)); t[(size_t)t[0].GetParentIndex()].AddChildIndex(0); return t;
  }
  for (const N& x : t) { par.push_back(x.GetParentIndex()); ch.push_back(x.GetChildIndices()); un.push_back(!x.IsInitialized()); }
  for (int c = (int)r.in(1, 2); c > 0; c--) {
    const size_t k = (size_t)r.below(n);
    switch (r.below(7)) {
      case 0: par[k] = r.in(-3, n + 1); break;
      case 1: if (!ch[k].empty()) ch[k].erase(ch[k].begin() + r.below((long)ch[k].size())); break;
      case 2: ch[k].push_back(r.in(-1, n + 1)); break;
      case 3: un[k] = true; break;
      case 4: par[k] = n + r.in(0, 2); break;
      case 5: if (!ch[k].empty()) ch[k].push_back(ch[k][0]); break;
      case 6: if (par[k] >= 0) { auto& c2 = ch[(size_t)std::min<int64_t>(par[k], n - 1)]; c2.clear(); } par[k] = -1; break;
    }
  }
  Tree o; for (int k = 0; k < n; k++) o.push_back(un[(size_t)k] ? N() : N(t[(size_t)k].GetValueImmutable(), par[(size_t)k], ch[(size_t)k]));
  return o;
}
// no walk over parents that never ends (trees whose links agree but form a ring are not planned on)
static bool ringless(const Tree& t) {
  for (size_t k = 0; k < t.size(); k++) { int64_t j = (int64_t)k; for (size_t c = 0; j >= 0 && j < (int64_t)t.size(); c++) { if (c > t.size()) return false; j = t[(size_t)j].GetParentIndex(); } }
  return true;
}
struct Engine {  // an unbiased source of bits of our own
  typedef uint64_t result_type; vt::Rng r; explicit Engine(uint64_t s) : r(s) {}
  static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ULL; }
  uint64_t operator()() { return r.next(); }
};
struct World {  // scripted callbacks
  vt::Rng& r; int rounds, asked = 0, batch; double pgoal, pempty, pbadrel; bool neg, quiet = false;
  std::vector<int> goals;
  explicit World(vt::Rng& g, bool big) : r(g) {
    rounds = (int)r.in(0, big ? 25 : 7); batch = (int)r.in(1, 4); pgoal = r.pick(std::vector<double>{0.0, 0.1, 0.3, 1.0}); pempty = r.chance(0.5) ? 0.2 : 0.0;
    pbadrel = r.chance(0.12) ? 0.2 : 0.0; neg = r.chance(0.2);
  }
  bool term() { const bool ret = asked++ >= rounds; if (!quiet) Ev("term").f("ret", ret).emit(); return ret; }
  St sample() { St s{fresh_id++}; if (!quiet) Ev("sample").f("v", s.v).emit(); return s; }
  int64_t nn(const Tree& t, const St& s, bool force_end) {
    int64_t k = r.below((long)t.size()); if (force_end) k = -1; else if (neg && r.chance(0.1)) k = -r.in(1, 3);
    if (!quiet) Ev("nn").f("t", tj(t)).f("v", s.v).f("ret", k).emit();
    return k;
  }
  Batch fwd(const St& a, const St& b) {
    Batch o; const int n = r.chance(pempty) ? 0 : (int)r.in(1, batch);
    for (int k = 0; k < n; k++) o.push_back({St{fresh_id++}, r.chance(pbadrel) ? k + r.in(0, 2) : r.chance(0.5) ? k - 1 : r.in(-2, k - 1)});
    std::vector<std::vector<long>> l; for (auto& p : o) l.push_back({p.first.v, (long)p.second});
    if (!quiet) Ev("fwd").f("a", a.v).f("b", b.v).f("out", l).emit();
    return o;
  }
};
static void uni(vt::Rng& r, bool big) {
  World w(r, big); Engine g(r.next());
  const int entry = (int)r.below(9); const bool given = entry == 0, hurtit = given && r.chance(0.3), none = given && r.chance(0.05);
  Tree tree; if (given) tree = grown(r, (int)r.in(1, big ? 8 : 5)); if (hurtit) tree = hurt(r, tree); if (none) tree.clear();
  if (!ringless(tree)) return;
  const St start{fresh_id++}, goal{fresh_id++};
  const double bias = r.pick(std::vector<double>{0.0, 0.5, 1.0, 0.25}); const bool timed = entry == 5 || entry == 6 || entry == 7; const bool late = timed && r.chance(0.2);
  const bool stale = entry == 1 || entry == 3; if (stale && r.chance(0.7)) tree = grown(r, (int)r.in(1, 4));
  Ev("begin").f("kind", "uni").f("entry", entry).f("tree", tj(given ? tree : Tree{N(start)})).f("single", entry >= 3 && entry != 8).f("timed", timed).f("late", late)
      .f("goal", entry == 6 ? goal.v : -1).f("bias", vt::fix(bias, 100)).f("w", w.rounds).emit();
  std::vector<int> gsampled; int nnc = 0;
  const std::function<int64_t(const Tree&, const St&)> nn = [&](const Tree& t, const St& s) { return w.nn(t, s, timed && nnc++ >= w.rounds); };
  const std::function<bool(const St&)> isgoal = [&](const St& s) { const bool ret = r.chance(w.pgoal); Ev("goal").f("v", s.v).f("ret", ret).emit(); return ret; };
  const std::function<void(Tree&, const int64_t)> reached = [&](Tree& t, const int64_t k) { Ev("reached").f("k", k).f("t", tj(t)).emit(); };
  const std::function<void(Tree&, const int64_t)> added = [&](Tree& t, const int64_t k) { Ev("added").f("k", k).f("t", tj(t)).emit(); };
  const std::function<St(void)> sample = [&] { return w.sample(); };
  const std::function<St(void)> gsample = [&] { St s{fresh_id++}; Ev("gsample").f("v", s.v).emit(); return s; };
  const std::function<Batch(const St&, const St&)> fwd = [&](const St& a, const St& b) { return w.fwd(a, b); };
  const std::function<bool(void)> term = [&] { return w.term(); };
  const std::chrono::duration<double> limit(late ? -1.0 : 3600.0);
  typedef SimpleHybridRRTPlanner P;
  std::vector<Path> paths; Stats st; bool seen = true;
  const auto one = [&](const Single& s) { paths = {s.first}; st = s.second; };
  const auto many = [&](const Multi& m) { paths = m.first; st = m.second; };
  const int exc = vt::guarded([&] {
    switch (entry) {
      case 0: many(P::PlanMultiPath(tree, nn, added, isgoal, reached, sample, fwd, term)); break;
      case 1: many(P::PlanMultiPath(tree, start, nn, isgoal, reached, sample, fwd, term)); break;
      case 2: seen = false; many(P::PlanMultiPath(start, nn, isgoal, reached, sample, fwd, term)); break;
      case 3: one(P::Plan(tree, start, nn, isgoal, sample, fwd, term)); break;
      case 4: seen = false; one(P::Plan(start, nn, isgoal, sample, fwd, term)); break;
      case 5: seen = false; one(P::Plan(start, nn, isgoal, sample, fwd, limit)); break;
      case 6: seen = false; one(P::Plan(start, goal, nn, isgoal, sample, fwd, bias, limit, g)); break;
      case 7: seen = false; one(P::Plan(start, nn, isgoal, sample, gsample, fwd, bias, limit, g)); break;
      case 8: tree = {N(start)}; many(P::PlanMultiPath(tree, nn, isgoal, reached, sample, fwd, term)); break;
    }
  });
  Ev("res").f("exc", exc).f("paths", vss(paths)).f("stats", exc ? std::vector<long>{} : stats(st)).f("seen", seen).f("t", tj(seen ? tree : Tree{})).emit();
}
static void bi(vt::Rng& r, bool big) {
  World w(r, big); Engine g(r.next());
  const int entry = (int)r.below(4); const bool hurts = entry == 3 && r.chance(0.15), hurtg = entry == 3 && r.chance(0.15), none = entry == 3 && r.chance(0.06);
  const St start{fresh_id++}, goal{fresh_id++};
  Tree a{N(start)}, b{N(goal)};
  if (entry == 3) { a = grown(r, (int)r.in(1, big ? 6 : 3)); b = grown(r, (int)r.in(1, big ? 6 : 3)); }
  if (hurts) a = hurt(r, a); if (hurtg) b = hurt(r, b); if (none) (r.chance(0.5) ? a : b).clear();
  if (!ringless(a) || !ringless(b)) return;
  const double bias = r.pick(std::vector<double>{0.0, 0.5, 1.0, 1.0}), swp = r.pick(std::vector<double>{0.0, 0.5, 0.5, 1.0});
  const bool late = entry == 0 && r.chance(0.2); int nnc = 0;
  Ev("begin").f("kind", "bi").f("entry", entry).f("a", tj(a)).f("b", tj(b)).f("bias", vt::fix(bias, 100)).f("swp", vt::fix(swp, 100)).f("late", late).emit();
  const std::function<int64_t(const Tree&, const St&)> nn = [&](const Tree& t, const St& s) { return w.nn(t, s, entry == 0 && nnc++ >= w.rounds); };
  const std::function<bool(const St&, const St&)> conn = [&](const St& x, const St& y) { const bool ret = r.chance(w.pgoal); Ev("conn").f("x", x.v).f("y", y.v).f("ret", ret).emit(); return ret; };
  const std::function<void(Tree&, const int64_t)> added = [&](Tree& t, const int64_t k) { Ev("added").f("k", k).f("t", tj(t)).emit(); };
  const std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> bridge = [&](Tree& x, const int64_t k, Tree& y, const int64_t m, const bool act) {
    Ev("bridge").f("k", k).f("m", m).f("act", act).f("x", tj(x)).f("y", tj(y)).emit(); };
  const std::function<St(void)> sample = [&] { return w.sample(); };
  const std::function<Batch(const St&, const St&)> fwd = [&](const St& x, const St& y) { return w.fwd(x, y); };
  const std::function<bool(void)> term = [&] { return w.term(); };
  const std::chrono::duration<double> limit(late ? -1.0 : 3600.0);
  typedef SimpleHybridBiRRTPlanner P;
  std::vector<Path> paths; Stats st;
  const int exc = vt::guarded([&] {
    Multi m;
    switch (entry) {
      case 0: { const Single s = P::Plan(start, goal, nn, conn, sample, fwd, bias, swp, limit, g); m = Multi({s.first}, s.second); break; }
      case 1: m = P::PlanMultiPath(start, goal, nn, conn, sample, fwd, bias, swp, term, g); break;
      case 2: m = P::PlanMultiPath(start, goal, nn, added, conn, bridge, sample, fwd, bias, swp, term, g); break;
      case 3: m = P::PlanMultiPath(a, b, nn, added, conn, bridge, sample, fwd, bias, swp, term, g); break;
    }
    paths = m.first; st = m.second;
  });
  Ev("res").f("exc", exc).f("paths", vss(paths)).f("stats", exc ? std::vector<long>{} : stats(st)).f("swaps", exc ? 0 : stat(st, "active_tree_swaps")).f("seen", entry == 3).f("a", tj(entry == 3 ? a : Tree{})).f("b", tj(entry == 3 ? b : Tree{})).emit();
}
// long runs: how often what was drawn, and that every node of the other tree can be a target
static void often(vt::Rng& r) {
  vt::Rng q(r.next()); Engine g(r.next()); World w(q, false); w.quiet = true; w.pempty = 0; w.pbadrel = 0; w.batch = 1; w.neg = false; w.rounds = 4000;
  const int pc = (int)r.in(5, 95), ps = (int)r.in(5, 95); int samples = 0, goals = 0, rounds = 0;
  const std::function<bool(const St&)> isgoal = [&](const St&) { return false; };
  const std::function<St(void)> sample = [&] { samples++; return St{-1}; }, gsample = [&] { goals++; return St{-2}; };
  const std::function<Batch(const St&, const St&)> fwd = [&](const St&, const St&) { return Batch(); };
  const std::function<bool(void)> term = [&] { return rounds >= w.rounds; };
  const std::function<int64_t(const Tree&, const St&)> nn = [&](const Tree&, const St&) { return rounds++ < w.rounds ? 0 : -1; };
  SimpleHybridRRTPlanner::Plan(St{0}, nn, isgoal, sample, gsample, fwd, pc / 100.0, std::chrono::duration<double>(3600.0), g);
  Ev("begin").f("kind", "often").emit();
  Ev("often").f("what", "goal").f("n", samples + goals).f("c", goals).f("p", pc).emit();
  Tree a = grown(r, (int)r.in(1, 5)), b = grown(r, (int)r.in(1, 5)); std::vector<std::vector<int>> hits(2); std::vector<int> va, vb;
  for (auto& x : a) va.push_back(x.GetValueImmutable().v); for (auto& x : b) vb.push_back(x.GetValueImmutable().v);
  samples = 0; rounds = 0; int fromtree = 0, strange = 0; int last = -1, swaps = 0; std::vector<int> ca(va.size(), 0), cb(vb.size(), 0), act(2, 0);
  const std::function<int64_t(const Tree&, const St&)> nn2 = [&](const Tree& t, const St& s) {
    rounds++; const int side = t[0].GetValueImmutable().v == va[0] ? 0 : 1; act[(size_t)side]++; if (last >= 0 && side != last) swaps++; last = side;
    if (s.v == -1) return (int64_t)0;
    fromtree++; auto& vv = side ? va : vb; auto& cc = side ? ca : cb; const auto it = std::find(vv.begin(), vv.end(), s.v);
    if (it == vv.end()) strange++; else cc[(size_t)(it - vv.begin())]++;
    return (int64_t)0; };
  const std::function<bool(const St&, const St&)> conn = [&](const St&, const St&) { return false; };
  const Multi m = SimpleHybridBiRRTPlanner::PlanMultiPath(a, b, nn2, std::function<void(Tree&, const int64_t)>([](Tree&, const int64_t) {}), conn,
      std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)>([](Tree&, const int64_t, Tree&, const int64_t, const bool) {}), sample, fwd, pc / 100.0, ps / 100.0, term, g);
  Ev("often").f("what", "tree").f("n", rounds).f("c", fromtree).f("p", pc).emit();
  Ev("often").f("what", "swap").f("n", rounds - 1).f("c", swaps).f("p", ps).emit();
  Ev("spread").f("a", ca).f("b", cb).f("act", act).f("strange", strange).emit();
}
static void link(vt::Rng& r, bool big) {
  Tree t = grown(r, (int)r.in(1, big ? 8 : 4)); if (r.chance(0.75)) t = hurt(r, t);
  Ev("begin").f("kind", "link").emit();
  Ev("link").f("t", tj(t)).f("ok", SimpleHybridRRTPlanner::CheckTreeLinkage<St>(t)).emit();
  if (SimpleHybridRRTPlanner::CheckTreeLinkage<St>(t) && ringless(t)) {
    std::vector<int64_t> q; for (int k = (int)r.in(0, 3); k > 0; k--) q.push_back(r.below((long)t.size()));
    std::vector<Path> one; for (auto k : q) one.push_back(SimpleHybridRRTPlanner::ExtractSolutionPath<St>(t, k));
    Ev("paths").f("t", tj(t)).f("q", q).f("paths", vss(SimpleHybridRRTPlanner::ExtractSolutionPaths<St>(t, q))).f("one", vss(one)).emit();
  }
  // a node edited, written and read back
  N n = r.chance(0.2) ? N() : r.chance(0.5) ? N(St{(int)r.below(1000)}) : N(St{(int)r.below(1000)}, r.in(-1, 5));
  Ev("node").f("n", tj(Tree{n})).emit();
  for (int k = (int)r.in(0, big ? 12 : 6); k > 0; k--) {
    const int64_t c = r.in(0, 4); const char* what = r.pick(std::vector<const char*>{"add", "add", "add", "rem", "rem", "par", "value", "clear"});
    switch (what[0]) { case 'a': n.AddChildIndex(c); break; case 'r': n.RemoveChildIndex(c); break; case 'p': n.SetParentIndex(c); break; case 'v': n.GetValueMutable().v = (int)c; break; default: n.ClearChildIndicies(); }
    Ev("edit").f("what", what).f("c", c).f("n", tj(Tree{n})).emit();
  }
  std::vector<uint8_t> buf((size_t)r.below(5), 7); const size_t off = buf.size();
  const uint64_t wrote = N::Serialize(n, buf, [](const St& s, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(s.v, b); });
  const size_t sz = buf.size(); for (int k = (int)r.below(4); k > 0; k--) buf.push_back(9);
  const auto back = N::Deserialize(buf, off, [](const std::vector<uint8_t>& b, const uint64_t at) { const auto p = arc_utilities::DeserializeFixedSizePOD<int>(b, at); return std::make_pair(St{p.first}, p.second); });
  Ev("ser").f("n", tj(Tree{n})).f("back", tj(Tree{back.first})).f("wrote", wrote).f("grew", sz - off).f("read", back.second).emit();
}
int main(int argc, char** argv) {
  const std::string m = argc > 1 ? argv[1] : "";
  freopen("/dev/null", "w", stderr);
  vt::open();
  vt::Rng r(vt::seed() * 7919 + (m == "uni" ? 1 : m == "bi" ? 2 : 3));
  const long n = vt::scale(m == "link" ? 1500 : 1200, m == "link" ? 15000 : 9000);
  for (long k = 0; k < n; k++) { if (fresh_id > 1000000) fresh_id = 0; const bool big = k % 6 == 5; if (m == "uni") uni(r, big); else if (m == "bi") bi(r, big); else link(r, big); }
  if (m == "bi") for (long k = 0, c = vt::scale(4, 30); k < c; k++) often(r);
  vt::done();
}
