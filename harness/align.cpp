// Conformance harness: alignment, set distance, path and grid helpers (T01 T02 U01 U02 F01 N01).
#include "trace.hpp"
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/path_utils.hpp>
#include <arc_utilities/simple_dtw.hpp>
#include <arc_utilities/simple_hausdorff_distance.hpp>
#include <arc_utilities/get_neighbours.hpp>
#include <arc_utilities/first_order_deformation.h>
#include <Eigen/Core>
using namespace vt;
typedef std::vector<long> VL;
typedef std::vector<VL> VV;

// ------------------------------------------------------------------ T01
typedef std::function<double(const int&, const int&)> DF;
static VV table(Rng& g, int m, int n, long top) { VV c; for (int a = 0; a < m; a++) { VL r; for (int b = 0; b < n; b++) r.push_back(g.in(0, top)); c.push_back(r); } return c; }
static VV dtwtab(const VV& c) {
  VV p = c;
  for (size_t a = 0; a < c.size(); a++) for (size_t b = 0; b < c[a].size(); b++) {
    long best = a == 0 && b == 0 ? 0 : INF;
    if (a) best = std::min(best, p[a - 1][b]);
    if (b) best = std::min(best, p[a][b - 1]);
    if (a && b) best = std::min(best, p[a - 1][b - 1]);
    p[a][b] = c[a][b] + best;
  }
  return p;
}
static std::vector<int> iota(int n) { std::vector<int> v; for (int a = 0; a < n; a++) v.push_back(a); return v; }
static void dtw() {
  Rng g(seed() + 11);
  typedef simple_dtw::SimpleDTW<int, int, DF> D;
  auto one = [&](D* d, int m, int n, long top, int mode) {
    VV c = table(g, m, n, top);
    double sc = std::ldexp(1.0, g.chance(0.7) ? (int)g.in(-2, 2) : (int)g.pick(VL{-45, -30, 30, 200, -200}));
    DF f = [&](const int& a, const int& b) { return (double)c[(size_t)a][(size_t)b] * sc; };
    auto fa = iota(m), fb = iota(n);
    auto a0 = fa, b0 = fb;
    double v = 0;
    int res = guarded([&] { v = mode == 0 ? simple_dtw::ComputeDTWDistance(fa, fb, f) : d->EvaluateWarpingCost(fa, fb, f); });
    Ev("dtw").f("m", m).f("n", n).f("c", c).f("p", dtwtab(c)).f("cost", enc(v, 1 / sc)).f("res", res).f("intact", fa == a0 && fb == b0).emit();
  };
  // every 0..2 table of 2x2 and 1xk
  begin("small");
  for (long k = 0; k < 81; k++) {
    VV c{{k % 3, k / 3 % 3}, {k / 9 % 3, k / 27}};
    DF f = [&](const int& a, const int& b) { return (double)c[(size_t)a][(size_t)b]; };
    double v = simple_dtw::ComputeDTWDistance(iota(2), iota(2), f);
    Ev("dtw").f("m", 2).f("n", 2).f("c", c).f("p", dtwtab(c)).f("cost", enc(v)).f("res", 0).f("intact", true).emit();
  }
  for (long k = 0, K = scale(150, 2000); k < K; k++) {
    begin("dtw");
    D fresh, sized((size_t)g.in(0, 6), (size_t)g.in(0, 6));
    D* d = g.chance(0.5) ? &fresh : &sized;
    D copy;
    for (int e = 0, E = (int)g.in(2, 7); e < E; e++) {
      int m = (int)g.in(1, g.chance(0.2) ? 14 : 6), n = (int)g.in(1, g.chance(0.2) ? 14 : 6);
      one(d, m, n, g.pick(std::vector<long>{1, 2, 9, 1000, 30000000}), (int)g.below(4));
      if (g.chance(0.1)) { copy = *d; d = &copy; }
    }
  }
}
// ------------------------------------------------------------------ T02
static void hausdorff() {
  Rng g(seed() + 12);
  std::function<double(const int&, const short&)> f;
  std::function<double(const short&, const int&)> fb;
  for (long k = 0, K = scale(400, 4000); k < K; k++) {
    if (k % 16 == 0) begin("hd");
    int m = (int)g.in(1, g.chance(0.1) ? 40 : 7), n = (int)g.in(1, g.chance(0.1) ? 40 : 7);
    VV c = table(g, m, n, g.pick(std::vector<long>{0, 1, 3, 50, 100000, 800000000}));
    // distances of every size, some differing only in their last digits
    double sc = std::ldexp(1.0, g.chance(0.6) ? (int)g.in(-4, 4) : (int)g.pick(VL{-45, -30, 30, 200, -200}));
    if (g.chance(0.2)) { const long base = 500000000; for (auto& q : c) for (auto& z : q) z = base + z % 7; }
    f = [&](const int& a, const short& b) { return (double)c[(size_t)a][(size_t)b] * sc; };
    fb = [&](const short& b, const int& a) { return (double)c[(size_t)a][(size_t)b] * sc; };
    std::vector<int> A = iota(m);
    std::vector<short> B;
    for (int b = 0; b < n; b++) B.push_back((short)b);
    double d = 0, e = 0;
    int res = guarded([&] { d = simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(A, B, f);
                            e = simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(B, A, fb); });
    Ev("hd").f("m", m).f("n", n).f("c", c).f("res", res).f("d", enc(d, 1 / sc)).f("back", enc(e, 1 / sc)).emit();
  }
}
// ------------------------------------------------------------------ U01
struct Script {  // a scripted uniform bit generator
  typedef uint64_t result_type;
  Rng g; int kind; uint64_t n = 0;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ULL; }
  uint64_t operator()() {
    n++;
    switch (kind) { case 1: return n % 2 ? 0 : ~0ULL; case 2: return n % 2 ? ~0ULL : 0; case 3: return g.next() & (g.chance(0.5) ? 0xFFFULL : ~0ULL) ; default: return g.next(); }
  }
};
static void shortcut() {
  Rng g(seed() + 13);
  for (long k = 0, K = scale(800, 8000); k < K; k++) {
    if (k % 8 == 0) begin("short");
    int n = (int)(g.chance(0.15) ? g.in(0, 2) : g.in(3, g.chance(0.1) ? 60 : 12));
    std::vector<int> path;
    for (int a = 1; a <= n; a++) path.push_back(a);
    uint32_t maxit = (uint32_t)(g.chance(0.1) ? 0 : g.in(1, 40)), maxfail = (uint32_t)(g.chance(0.1) ? 0 : g.in(1, 12));
    long f256 = g.pick(std::vector<long>{256, 128, 64, 200, 32, 512, 1024});
    // so many iterations that an unlucky run of fair draws is out of the question: smoothing only ends at a limit
    const bool sure = k % 16 == 5;
    if (sure) { maxit = 40000; maxfail = (uint32_t)g.in(1, 90); f256 = g.pick(std::vector<long>{256, 300, 512}); if (n < 3) n = 9; path.clear(); for (int a = 1; a <= n; a++) path.push_back(a); }
    double pv = g.pick(std::vector<double>{0.0, 0.2, 0.5, 0.9, 1.0});
    uint64_t salt = g.next();
    VV calls;
    long over = 0;
    auto valid = [&](const int& a, const int& b) {
      Rng h(salt ^ (uint64_t)(a * 1000 + b));
      bool ok = h.chance(pv);
      if (calls.size() < 200) calls.push_back({a, b, ok ? 1 : 0}); else over++;
      return ok;
    };
    std::vector<int> before = path, out;
    cur() = "short n=" + std::to_string(n);
    Script s{Rng(g.next()), (int)g.below(6), 0};
    std::mt19937_64 mt(g.next());
    int res = guarded([&] {
      out = !sure && g.chance(0.5) ? path_utils::ShortcutSmoothPath(path, maxit, maxfail, (double)f256 / 256.0, valid, s)
                          : path_utils::ShortcutSmoothPath(path, maxit, maxfail, (double)f256 / 256.0, valid, mt);
    });
    Ev("short").f("n", n).f("maxit", (long)maxit).f("maxfail", (long)maxfail).f("f256", f256).f("calls", calls).f("out", out).f("res", res).f("sure", sure).f("intact", path == before && over == 0).emit();
  }
}
// ------------------------------------------------------------------ U02
struct P2 { double x, y; };
inline bool operator==(const P2& a, const P2& b) { return a.x == b.x && a.y == b.y; }
static double linf(const P2& a, const P2& b) { return std::max(std::abs(a.x - b.x), std::abs(a.y - b.y)); }
static P2 mix(const P2& a, const P2& b, const double t) { return t == 1.0 ? b : P2{a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t}; }
static std::vector<P2> walk(Rng& g, int n, VV& log) {
  std::vector<P2> p;
  long top = g.pick(std::vector<long>{1, 3, 12, 40});
  for (int a = 0; a < n; a++) {
    if (a && g.chance(0.15)) p.push_back(p.back()); else p.push_back(P2{(double)g.in(-top, top), (double)g.in(-top, top)});
    log.push_back({(long)p.back().x, (long)p.back().y});
  }
  return p;
}
static VV pts(const std::vector<P2>& v) { VV o; for (auto& q : v) o.push_back({fix(q.x, 4096), fix(q.y, 4096)}); return o; }
static void sampling() {
  Rng g(seed() + 14);
  for (long k = 0, K = scale(500, 5000); k < K; k++) {
    if (k % 8 == 0) begin("path");
    VV log;
    int n = (int)g.in(0, 9);
    auto path = walk(g, n, log);
    auto before = path;
    size_t lo = 0, hi = (size_t)n;
    bool whole = g.chance(0.3);
    if (!whole) {
      if (g.chance(0.1)) { lo = (size_t)g.in(0, n + 1); hi = (size_t)g.in(0, n + 2); }
      else if (n > 0) { lo = (size_t)g.below(n); hi = lo + (size_t)g.in(1, n - (long)lo); }
    }
    long r4 = g.in(1, 40);
    std::vector<P2> out;
    cur() = "resample " + js(log) + " " + std::to_string(lo) + " " + std::to_string(hi) + " r4=" + std::to_string(r4);
    int res = guarded([&] { out = whole ? path_utils::ResamplePath(path, (double)r4 / 4.0, linf, mix) : path_utils::ResamplePathPartial(path, lo, hi, (double)r4 / 4.0, linf, mix); });
    Ev("resample").f("path", log).f("lo", lo).f("hi", hi).f("r4", r4).f("res", res).f("out", pts(out)).f("intact", path == before).emit();
    // upsampling: sections of at least two points, or nothing to add
    if (n < 1) continue;
    if (whole) { lo = 0; hi = (size_t)n; } else { lo = (size_t)g.below(n); hi = lo + (size_t)g.in(1, n - (long)lo); }
    long m = (long)(hi - lo);
    long num = g.chance(0.25) ? g.in(1, m) : m + (m > 1 ? g.in(0, g.chance(0.2) ? 60 : 12) : 0);
    cur() = "upsample " + js(log) + " " + std::to_string(lo) + " " + std::to_string(hi) + " num=" + std::to_string(num);
    out.clear();
    res = guarded([&] { out = whole ? path_utils::UpsamplePath(path, (ssize_t)num, linf, mix) : path_utils::UpsamplePathPartial(path, (ssize_t)lo, (ssize_t)hi, (ssize_t)num, linf, mix); });
    VL cnt;
    if (num > m && (long)out.size() == num) {
      bool flat = true;
      for (size_t s = lo; s + 1 < hi; s++) flat = flat && path[s] == path[s + 1];
      size_t at = 0;
      for (size_t s = lo; s + 1 < hi; s++) {
        if (flat) { cnt.push_back(1); continue; }
        size_t q = at + 1;
        while (q < out.size() && !(out[q] == path[s + 1])) q++;
        cnt.push_back((long)(q - at));
        at = q;
      }
      if (flat) for (long e = 0, s = 0; e < num - m; e++, s = (s + 1) % (m - 1)) cnt[(size_t)s]++;
    }
    Ev("upsample").f("path", log).f("lo", lo).f("hi", hi).f("num", num).f("res", res).f("out", pts(out)).f("cnt", cnt).f("intact", path == before).emit();
  }
}
// One long or finely measured segment, states and distances in one dimension: distance k spacings plus or minus a trace
static double lin(const double& a, const double& b) { return std::abs(a - b); }
static double lmix(const double& a, const double& b, const double t) { return t == 1.0 ? b : a + (b - a) * t; }
static void fine() {
  Rng g(seed() + 114);
  for (long c = 0, C = scale(120, 1200); c < C; c++) {
    if (c % 8 == 0) begin("fine");
    const long k = c % 12 == 0 ? g.pick(VL{65534, 65535, 65536, 65537, 70000, 131072, 150000}) : c % 12 == 1 ? g.in(256, 5000) : g.in(0, 40);
    const long e = k == 0 ? g.in(0, 1) : g.in(-1, 1);
    const double r = std::ldexp((double)g.pick(VL{1, 3, 5}), (int)g.in(-6, 6));
    double d = r * (double)k;                                     // exact
    if (e) d = k == 0 ? r * std::ldexp(1.0, -50) : std::nextafter(d, e > 0 ? INFINITY : 0.0);
    // dividing must not round the trace away: keep it only when it does not
    if ((d / r > (double)k) - (d / r < (double)k) != (int)e) continue;
    const std::vector<double> path{0.0, d, d + r};
    std::vector<double> out;
    cur() = "fine k=" + std::to_string(k) + " e=" + std::to_string(e);
    int res = guarded([&] { out = path_utils::ResamplePathPartial(path, (size_t)0, (size_t)2, r, lin, lmix); });
    const long n = (long)out.size() - 1;
    VV at;  // some of the points, as thousandths of the spacing d/n from where evenly spaced points lie
    for (int z = 0; z < 8 && n > 0; z++) { long j = z == 0 ? 0 : z == 1 ? n : g.in(0, n); at.push_back({j, fix((out[(size_t)j] / d * (double)n - (double)j), 1000)}); }
    bool rising = true;
    for (size_t z = 1; z < out.size(); z++) rising = rising && out[z] > out[z - 1];
    Ev("fine").f("k", k).f("e", e).f("res", res).f("n", n).f("at", at).f("rising", rising).f("ends", !out.empty() && out.front() == 0.0 && out.back() == (k == 0 && e == 0 ? 0.0 : d)).emit();
    // segments of one length but for one that is longer by a trace: one more point goes to that one, every other first
    const int m = (int)g.in(2, 7), big = (int)g.below(m);
    std::vector<double> dist((size_t)m, std::ldexp(1.0, (int)g.in(-3, 3)));
    dist[(size_t)big] = std::nextafter(dist[(size_t)big], INFINITY);
    std::vector<double> way;
    for (int z = 0; z <= m; z++) way.push_back((double)z);
    auto df = [&](const double& a, const double&) { return dist[(size_t)a]; };
    const long extra = g.in(1, 3 * m);
    const bool whole = g.chance(0.5);
    if (!whole) way.push_back((double)(m + 1));
    out.clear();
    res = guarded([&] { out = whole ? path_utils::UpsamplePath(way, (ssize_t)(m + 1 + extra), df, lmix) : path_utils::UpsamplePathPartial(way, (ssize_t)0, (ssize_t)(m + 1), (ssize_t)(m + 1 + extra), df, lmix); });
    VL cnt((size_t)m, 0);
    for (double q : out) if (q >= 0 && q < (double)m) cnt[(size_t)q]++;
    Ev("most").f("m", m).f("big", big + 1).f("extra", extra).f("res", res).f("cnt", cnt).f("n", out.size()).emit();
  }
}
// ------------------------------------------------------------------ F01
static void fo_one(long rows, long cols, const std::vector<char>& ok) {
  VV free;
  for (long r = 0; r < rows; r++) for (long c = 0; c < cols; c++) if (ok[(size_t)(r * cols + c)]) free.push_back({r, c});
  cur() = "fo " + std::to_string(rows) + "x" + std::to_string(cols) + " free " + js(free);
  bool inside = true;
  std::vector<std::pair<ssize_t, ssize_t>> w;
  int res = guarded([&] {
    w = arc_utilities::FirstOrderDeformation::GetFirstOrderDeformation(rows, cols, [&](const ssize_t r, const ssize_t c) {
      if (r < 0 || c < 0 || r >= rows || c >= cols) { inside = false; return false; }
      return ok[(size_t)(r * cols + c)] != 0;
    });
  });
  VV out;
  for (auto& p : w) out.push_back({p.first, p.second});
  Ev("fo").f("rows", rows).f("cols", cols).f("free", free).f("res", res).f("inside", inside).f("out", out).emit();
}
// tables too large to flood in the model: a walk is its own proof, and a table without one comes with the set of pairs
// reachable from the first, closed under steps and without the last
static void fo_big(long rows, long cols, const std::vector<char>& ok) {
  VV t((size_t)rows, VL((size_t)cols, 0)), seen = t;
  for (long r = 0; r < rows; r++) for (long c = 0; c < cols; c++) t[(size_t)r][(size_t)c] = ok[(size_t)(r * cols + c)];
  std::vector<std::pair<long, long>> st{{0, 0}};
  seen[0][0] = 1;
  while (!st.empty()) {
    auto q = st.back(); st.pop_back();
    for (long r = q.first - 1; r <= q.first + 1; r++) for (long c = q.second - 1; c <= q.second + 1; c++)
      if (r >= 0 && c >= 0 && r < rows && c < cols && t[(size_t)r][(size_t)c] && !seen[(size_t)r][(size_t)c]) { seen[(size_t)r][(size_t)c] = 1; st.push_back({r, c}); }
  }
  cur() = "fobig " + std::to_string(rows) + "x" + std::to_string(cols);
  bool inside = true;
  std::vector<std::pair<ssize_t, ssize_t>> w;
  int res = guarded([&] {
    w = arc_utilities::FirstOrderDeformation::GetFirstOrderDeformation(rows, cols, [&](const ssize_t r, const ssize_t c) {
      if (r < 0 || c < 0 || r >= rows || c >= cols) { inside = false; return false; }
      return ok[(size_t)(r * cols + c)] != 0;
    });
  });
  VV out;
  for (auto& p : w) out.push_back({p.first, p.second});
  Ev("fobig").f("rows", rows).f("cols", cols).f("t", t).f("seen", w.empty() ? seen : VV()).f("res", res).f("inside", inside).f("out", out).emit();
}
static std::vector<char> maze(Rng& g, long rows, long cols) {  // odd sizes; corridors on even coordinates, borders included
  std::vector<char> ok((size_t)(rows * cols), 0);
  auto at = [&](long r, long c) -> char& { return ok[(size_t)(r * cols + c)]; };
  std::vector<std::pair<long, long>> st;
  const bool back = g.chance(0.5);  // carved from the far end: the way from the start tends to turn away from the goal
  st.push_back(back ? std::make_pair(rows - 1, cols - 1) : std::make_pair(0L, 0L));
  at(st[0].first, st[0].second) = 1;
  while (!st.empty()) {
    auto q = st.back();
    std::vector<std::pair<long, long>> can;
    for (auto d : std::vector<std::pair<long, long>>{{2, 0}, {-2, 0}, {0, 2}, {0, -2}}) {
      long r = q.first + d.first, c = q.second + d.second;
      if (r >= 0 && c >= 0 && r < rows && c < cols && !at(r, c)) can.push_back(d);
    }
    if (can.empty()) { st.pop_back(); continue; }
    auto d = g.pick(can);
    at(q.first + d.first / 2, q.second + d.second / 2) = 1;
    at(q.first + d.first, q.second + d.second) = 1;
    st.push_back({q.first + d.first, q.second + d.second});
  }
  return ok;
}
static void deform_big() {
  Rng g(seed() + 115);
  for (long k = 0, K = scale(60, 400); k < K; k++) {
    begin("maze");
    long rows = 2 * g.in(1, 8) + 1, cols = 2 * g.in(1, 8) + 1;
    auto ok = maze(g, rows, cols);
    if (g.chance(0.2)) { ok[(size_t)g.in(1, rows * cols - 1)] = 0; }
    fo_big(rows, cols, ok);
  }
  for (long k = 0, K = scale(12, 48); k < K; k++) {
    begin("big");
    long lowest = k % 4 == 2 ? 36 : 20, rows = 2 * g.in(lowest, 45) + 1, cols = 2 * g.in(lowest, 45) + 1;
    std::vector<char> ok;
    if (k % 4 == 0) { ok = maze(g, rows, cols); if (g.chance(0.3)) ok[(size_t)g.in(1, rows * cols - 1)] = 0; }
    else if (k % 8 == 1) { ok.assign((size_t)(rows * cols), 1); }
    else if (k % 8 == 5) {  // one way only, over the whole table
      rows = 4 * g.in(20, 25) + 1; cols = 2 * g.in(50, 60) + 1;
      const bool turn = g.chance(0.5);
      if (turn) std::swap(rows, cols);
      ok.assign((size_t)(rows * cols), 0);
      for (long a = 0; a < (turn ? cols : rows); a++) for (long b = 0; b < (turn ? rows : cols); b++)
        ok[(size_t)(turn ? b * cols + a : a * cols + b)] = a % 2 == 0 || b == (a % 4 == 1 ? (turn ? rows : cols) - 1 : 0);
    }
    else if (k % 4 == 2) {  // open, but walled off near the goal (everything is visited)
      ok.assign((size_t)(rows * cols), 1);
      long d = g.in(2, 9);
      for (long z = 0; z <= d; z++) { ok[(size_t)((rows - 1 - d) * cols + cols - 1 - z)] = 0; ok[(size_t)((rows - 1 - z) * cols + cols - 1 - d)] = 0; }
      if (k % 8 == 2) ok[(size_t)((rows - 1 - g.in(0, d)) * cols + cols - 1 - d)] = 1;
    } else { ok.assign((size_t)(rows * cols), 0); for (auto& c : ok) c = g.chance(0.55); ok[0] = 1; ok.back() = 1; }
    fo_big(rows, cols, ok);
  }
  begin("thin");
  for (long n : VL{1, 2, 300, 2000}) { fo_big(1, n, std::vector<char>((size_t)n, 1)); fo_big(n, 1, std::vector<char>((size_t)n, 1)); }
}
static void deform() {
  Rng g(seed() + 15);
  begin("gen");
  long cnt = 0;
  for (auto& l : gen_lines()) {
    auto v = ints(l);
    if (v.size() < 2) continue;
    if (cnt++ % 32 == 31) begin("gen");
    std::vector<char> ok((size_t)(v[0] * v[1]), 0);
    for (size_t k = 2; k + 1 < v.size(); k += 2) ok[(size_t)(v[k] * v[1] + v[k + 1])] = 1;
    fo_one(v[0], v[1], ok);
  }
  for (long k = 0, K = scale(300, 2500); k < K; k++) {
    begin("rand");
    long rows = g.in(1, 9), cols = g.in(1, 9);
    std::vector<char> ok((size_t)(rows * cols), 0);
    double p = g.pick(std::vector<double>{0.35, 0.45, 0.6, 0.9});
    for (auto& c : ok) c = g.chance(p);
    ok[0] = 1;
    if (g.chance(0.7)) ok.back() = 1;
    if (g.chance(0.3)) {  // a winding corridor: odd rows blocked but for one end
      for (long r = 0; r < rows; r++) for (long c = 0; c < cols; c++) ok[(size_t)(r * cols + c)] = r % 2 == 0 ? 1 : (r % 4 == 1 ? c == cols - 1 : c == 0);
      if (g.chance(0.3)) ok[(size_t)g.in(rows * cols > 1 ? 1 : 0, rows * cols - 1)] ^= 1;
      ok[0] = 1;
    }
    fo_one(rows, cols, ok);
  }
  deform_big();
}
// ------------------------------------------------------------------ N01
template <typename V, typename T> static void nb_one(Rng& g, int dim, double unit) {
  // positions, bounds and steps are multiples of unit; a quarter of the runs uses a rounding function to multiples of the step
  long s = g.in(1, 3);
  bool rounding = g.chance(0.4);
  long m = rounding ? s : 1;
  VL at, lo, hi;
  for (int a = 0; a < dim; a++) {
    at.push_back(m * g.in(-4, 4)); lo.push_back(m * g.in(-5, 3));
    hi.push_back(lo.back() + m * g.in(g.chance(0.1) ? -2 : 0, 8));
  }
  if (g.chance(0.5)) for (int a = 0; a < dim; a++) { lo[(size_t)a] = std::min(lo[(size_t)a], at[(size_t)a]); hi[(size_t)a] = std::max(hi[(size_t)a], at[(size_t)a]); }
  VV bad;
  double pb = g.pick(std::vector<double>{0.0, 0.2, 0.7});
  uint64_t salt = g.next();
  auto conv = [&](const V& q) { VL v; for (int a = 0; a < dim; a++) v.push_back(enc((double)q[a], 1 / unit)); return v; };
  std::function<bool(const V&)> valid = [&](const V& q) {
    VL v = conv(q);
    uint64_t h = salt;
    for (long z : v) h = h * 31 + (uint64_t)z;
    bool ok = !Rng(h).chance(pb);
    if (!ok) bad.push_back(v);
    return ok;
  };
  std::function<V(const V&)> round = [&](const V& q) { if (!rounding) return q; V r = q; for (int a = 0; a < dim; a++) r[a] = (T)(std::floor((double)q[a] / (unit * (double)s) + 0.5) * unit * (double)s); return r; };
  std::vector<V> out;
  auto t = [&](long v) { return (T)((double)v * unit); };
  cur() = "nb at " + js(at) + " lo " + js(lo) + " hi " + js(hi) + " s " + std::to_string(s);
  V c; for (int a = 0; a < dim; a++) c[a] = t(at[(size_t)a]);
  int res = guarded([&] { out =
      arc_utilities::GetNeighbours::TwoDimensional8Connected<V, T>(c, t(lo[0]), t(hi[0]), t(lo[1]), t(hi[1]), t(s), round, valid); });
  VV o; for (auto& q : out) o.push_back(conv(q));
  Ev("nb").f("dim", dim).f("at", at).f("lo", lo).f("hi", hi).f("s", s).f("bad", bad).f("res", res).f("out", o).emit();
}
template <typename V, typename T> static void nb3(Rng& g, double unit) {
  long s = g.in(1, 3);
  VL at, lo, hi;
  for (int a = 0; a < 3; a++) { at.push_back(g.in(-4, 4)); lo.push_back(g.in(-5, 3)); hi.push_back(lo.back() + g.in(g.chance(0.1) ? -2 : 0, 8)); }
  if (g.chance(0.5)) for (size_t a = 0; a < 3; a++) { lo[a] = std::min(lo[a], at[a]); hi[a] = std::max(hi[a], at[a]); }
  VV bad;
  double pb = g.pick(std::vector<double>{0.0, 0.2, 0.7});
  uint64_t salt = g.next();
  auto conv = [&](const V& q) { VL v; for (int a = 0; a < 3; a++) v.push_back(enc((double)q[a], 1 / unit)); return v; };
  std::function<bool(const V&)> valid = [&](const V& q) { VL v = conv(q); uint64_t h = salt; for (long z : v) h = h * 31 + (uint64_t)z; bool ok = !Rng(h).chance(pb); if (!ok) bad.push_back(v); return ok; };
  std::function<V(const V&)> round = [&](const V& q) { return q; };
  auto t = [&](long v) { return (T)((double)v * unit); };
  V c; for (int a = 0; a < 3; a++) c[a] = t(at[(size_t)a]);
  std::vector<V> out;
  cur() = "nb3 at " + js(at);
  int res = guarded([&] { out = arc_utilities::GetNeighbours::ThreeDimensional8Connected<V, T>(c, t(lo[0]), t(hi[0]), t(lo[1]), t(hi[1]), t(lo[2]), t(hi[2]), t(s), round, valid); });
  VV o; for (auto& q : out) o.push_back(conv(q));
  Ev("nb").f("dim", 3).f("at", at).f("lo", lo).f("hi", hi).f("s", s).f("bad", bad).f("res", res).f("out", o).emit();
}
// Steps such as 0.1: positions and bounds are what the rounding function makes of multiples of the step, and the raw
// bounds may differ from them in the last digits
static void nb_round(Rng& g) {
  const double step = g.pick(std::vector<double>{0.1, 0.3, 0.7, 0.05, 1.0 / 3.0, 1e-3, 2.2});
  const int dim = g.chance(0.5) ? 2 : 3;
  VL at, lo, hi;
  for (int a = 0; a < dim; a++) { at.push_back(g.in(-6, 6)); lo.push_back(at.back() - g.in(0, 2)); hi.push_back(at.back() + g.in(0, 2)); }
  auto snap = [&](double v) { return std::floor(v / step + 0.5) * step; };
  auto label = [&](double v) { return (long)std::lround(v / step); };
  auto raw = [&](long v) { double r = (double)v * step; for (long z = g.in(-3, 3); z != 0; z += z > 0 ? -1 : 1) r = std::nextafter(r, z > 0 ? INFINITY : -INFINITY); return r; };
  VV out, bad;
  const double pb = g.pick(std::vector<double>{0.0, 0.0, 0.4});
  const uint64_t salt = g.next();
  auto ok = [&](const VL& v) { uint64_t h = salt; for (long z : v) h = h * 31 + (uint64_t)z; bool r = !Rng(h).chance(pb); if (!r) bad.push_back(v); return r; };
  cur() = "nb rounded at " + js(at);
  int res;
  if (dim == 2) {
    typedef Eigen::Vector2d V;
    auto conv = [&](const V& q) { return VL{label(q[0]), label(q[1])}; };
    std::function<V(const V&)> round = [&](const V& q) { return V(snap(q[0]), snap(q[1])); };
    std::function<bool(const V&)> valid = [&](const V& q) { return ok(conv(q)); };
    const V c(snap((double)at[0] * step), snap((double)at[1] * step));
    res = guarded([&] { for (auto& q : arc_utilities::GetNeighbours::TwoDimensional8Connected<V, double>(c, raw(lo[0]), raw(hi[0]), raw(lo[1]), raw(hi[1]), step, round, valid)) out.push_back(conv(q)); });
  } else {
    typedef Eigen::Vector3d V;
    auto conv = [&](const V& q) { return VL{label(q[0]), label(q[1]), label(q[2])}; };
    std::function<V(const V&)> round = [&](const V& q) { return V(snap(q[0]), snap(q[1]), snap(q[2])); };
    std::function<bool(const V&)> valid = [&](const V& q) { return ok(conv(q)); };
    const V c(snap((double)at[0] * step), snap((double)at[1] * step), snap((double)at[2] * step));
    res = guarded([&] { for (auto& q : arc_utilities::GetNeighbours::ThreeDimensional8Connected<V, double>(c, raw(lo[0]), raw(hi[0]), raw(lo[1]), raw(hi[1]), raw(lo[2]), raw(hi[2]), step, round, valid)) out.push_back(conv(q)); });
  }
  Ev("nb").f("dim", dim).f("at", at).f("lo", lo).f("hi", hi).f("s", 1).f("bad", bad).f("res", res).f("out", out).emit();
}
// the grid is coarser than the step: a step either reaches the next cell or rounds back to where it started
static void nb_coarse(Rng& g) {
  const long m = g.in(2, 9), s = g.in(1, m - 1);
  if (2 * s == m) return;
  const double u = std::ldexp(1.0, (int)g.in(-3, 2));
  const int dim = g.chance(0.5) ? 2 : 3;
  VL at, lo, hi;
  for (int a = 0; a < dim; a++) { at.push_back(m * g.in(-4, 4)); lo.push_back(at.back() - m * g.in(0, 2)); hi.push_back(at.back() + m * g.in(0, 2)); }
  auto snap = [&](double v) { return std::floor(v / (u * (double)m) + 0.5) * u * (double)m; };
  auto t = [&](long v) { return (double)v * u; };
  VV out;
  cur() = "nb coarse";
  int res;
  if (dim == 2) {
    typedef Eigen::Vector2d V;
    std::function<V(const V&)> round = [&](const V& q) { return V(snap(q[0]), snap(q[1])); };
    std::function<bool(const V&)> valid = [](const V&) { return true; };
    res = guarded([&] { for (auto& q : arc_utilities::GetNeighbours::TwoDimensional8Connected<V, double>(V(t(at[0]), t(at[1])), t(lo[0]), t(hi[0]), t(lo[1]), t(hi[1]), t(s), round, valid)) out.push_back({enc(q[0], 1 / u), enc(q[1], 1 / u)}); });
  } else {
    typedef Eigen::Vector3d V;
    std::function<V(const V&)> round = [&](const V& q) { return V(snap(q[0]), snap(q[1]), snap(q[2])); };
    std::function<bool(const V&)> valid = [](const V&) { return true; };
    res = guarded([&] { for (auto& q : arc_utilities::GetNeighbours::ThreeDimensional8Connected<V, double>(V(t(at[0]), t(at[1]), t(at[2])), t(lo[0]), t(hi[0]), t(lo[1]), t(hi[1]), t(lo[2]), t(hi[2]), t(s), round, valid)) out.push_back({enc(q[0], 1 / u), enc(q[1], 1 / u), enc(q[2], 1 / u)}); });
  }
  Ev("nbc").f("at", at).f("lo", lo).f("hi", hi).f("s", s).f("m", m).f("res", res).f("out", out).emit();
}
static void neighbours() {
  Rng g(seed() + 16);
  for (long k = 0, K = scale(500, 5000); k < K; k++) {
    if (k % 16 == 0) begin("nb");
    double u = std::ldexp(1.0, (int)g.in(-3, 2));
    // units that are not binary fractions: the rounding function decides which cells are meant
    if (k % 2) nb_round(g);
    if (k % 4 == 0) nb_coarse(g);
    nb_one<Eigen::Vector2d, double>(g, 2, u);
    nb3<Eigen::Vector3d, double>(g, u);
    if (k % 4 == 0) { nb_one<Eigen::Vector2i, int>(g, 2, 1.0); nb3<Eigen::Vector3i, int>(g, 1.0); }
  }
}
int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "";
  freopen("/dev/null", "w", stderr);
  open();
  if (m == "dtw") dtw();
  else if (m == "hd") hausdorff();
  else if (m == "short") shortcut();
  else if (m == "sampling") { sampling(); fine(); }
  else if (m == "fo") deform();
  else neighbours();
  done();
}
