// Conformance harness: agglomerative and k-means clustering (C01, C02).
#include "trace.hpp"
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/simple_hierarchical_clustering.hpp>
#include <arc_utilities/simple_kmeans_clustering.hpp>
using namespace vt;
typedef simple_hierarchical_clustering::SimpleHierarchicalClustering HC;
using simple_hierarchical_clustering::CLUSTER_STRATEGY;
typedef std::vector<int> VI;

static void hc(int n, const std::vector<long>& d, long t, bool complete, bool byfn, double scale) {
  cur() = "hc n=" + std::to_string(n) + " t=" + std::to_string(t) + " d=" + js(d);
  VI data;
  for (int k = 0; k < n; k++) data.push_back(k + 1);
  const CLUSTER_STRATEGY st = complete ? simple_hierarchical_clustering::COMPLETE_LINK : simple_hierarchical_clustering::SINGLE_LINK;
  const double thr = t >= INF ? INFINITY : (double)t * scale;
  Eigen::MatrixXd m(n, n);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) m(a, b) = (double)d[a * n + b] * scale;
  std::pair<std::vector<VI>, double> r;
  int res = guarded([&] {
    if (byfn) {
      std::function<double(const int&, const int&)> f = [&](const int& a, const int& b) { return m(a - 1, b - 1); };
      r = HC::Cluster(data, f, thr, st);
    } else r = HC::Cluster(data, m, thr, st);
  });
  std::vector<long> dd = d;
  Ev("hc").f("n", n).f("d", dd).f("t", t).f("complete", complete).f("res", res).f("clusters", r.first).f("dist", enc(r.second, 1.0 / scale)).emit();
}
static void hclust() {
  Rng g(seed());
  begin("gen");
  long cnt = 0;
  for (auto& l : gen_lines()) {
    auto v = ints(l);  // n, complete, t, matrix
    if (v.size() < 4) continue;
    if (cnt++ % 64 == 63) begin("gen");
    int n = (int)v[0];
    hc(n, std::vector<long>(v.begin() + 3, v.begin() + 3 + n * n), v[2], v[1] != 0, cnt % 2, 1.0);
  }
  // small counts and every threshold
  begin("small");
  for (int n = 0; n <= 2; n++) for (int c = 0; c < 2; c++) for (int f = 0; f < 2; f++) for (long t : {0L, 2L, 3L, 4L, INF}) {
    std::vector<long> d((size_t)(n * n), 3);
    for (int k = 0; k < n; k++) d[k * n + k] = 0;
    hc(n, d, t, c, f, 0.25);
  }
  for (long k = 0, K = scale(250, 2500); k < K; k++) {
    begin("rand");
    bool ties = g.chance(0.5);
    int n = (int)(ties ? g.in(3, 6) : g.in(3, 14));
    std::vector<long> d((size_t)(n * n), 0), pool;
    for (int a = 0; a < n * n; a++) pool.push_back(a + 1);
    for (size_t a = pool.size(); a > 1; a--) std::swap(pool[a - 1], pool[(size_t)g.below((long)a)]);
    size_t q = 0;
    long top = ties ? g.in(1, 6) : n * n;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) d[a * n + b] = d[b * n + a] = ties ? g.in(g.chance(0.3) ? 0 : 1, top) : pool[q++];
    long t = g.chance(0.15) ? INF : g.chance(0.1) ? 0 : g.in(0, top + 1);
    hc(n, d, t, g.chance(0.5), g.chance(0.5), std::ldexp(1.0, (int)g.in(-3, 3)));
  }
  // items on a line or in the plane: several clusters grow side by side and meet at any of their members
  for (long k = 0, K = scale(500, 5000); k < K; k++) {
    if (k % 2 == 0) begin("geo");
    const int n = (int)g.in(5, 12);
    const bool line = g.chance(0.6);
    std::vector<long> x, y, d((size_t)(n * n), 0);
    for (int a = 0; a < n; a++) { x.push_back(g.in(0, 40000)); y.push_back(line ? 0 : g.in(0, 20000)); }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) d[a * n + b] = std::labs(x[a] - x[b]) + std::labs(y[a] - y[b]);
    hc(n, d, g.in(1500, 9000), g.chance(0.4), g.chance(0.5), std::ldexp(1.0, (int)g.in(-3, 3)));
  }
  // clusters of more than ten members; distances that differ in the last bits only
  for (long k = 0, K = scale(10, 60); k < K; k++) {
    begin("big");
    const int n = (int)g.in(18, 26), cut = (int)g.in(8, n - 8); const long far = k % 2 ? 16777216 : 3000;
    std::vector<long> d((size_t)(n * n), 0), pool;
    for (int a = 0; a < n * n; a++) pool.push_back(a + 1);
    for (size_t a = pool.size(); a > 1; a--) std::swap(pool[a - 1], pool[(size_t)g.below((long)a)]);
    size_t q = 0;
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) d[a * n + b] = d[b * n + a] = pool[q++] + ((a < cut) != (b < cut) ? far : k % 2 ? far / 2 : 0);
    hc(n, d, k % 3 == 0 ? INF : k % 2 ? far + g.in(0, n * n) : g.chance(.5) ? 1000 : far + g.in(0, n * n), g.chance(0.6), g.chance(0.5), 1.0);
  }
}

struct Pt { long id, x, y, den; };
typedef std::vector<Pt> VP;
static double dist(const Pt& a, const Pt& b) {
  double dx = (double)(a.x * b.den - b.x * a.den), dy = (double)(a.y * b.den - b.y * a.den), q = (double)(a.den * b.den);
  return (dx * dx + dy * dy) / (q * q);
}
static void kmeans() {
  typedef simple_kmeans_clustering::SimpleKMeansClustering KM;
  Rng g(seed() + 5);
  for (long k = 0, K = scale(300, 3000); k < K; k++) {
    begin("km");
    int n, kc;
    const int mode = (int)g.below(6);  // 0,1: given centres (plain, weighted); 2,3: seeded; 4,5: seeded with preliminary clustering
    const bool weighted = mode & 1;
    if (mode >= 4) { n = (int)g.in(101, 140); kc = 2; }
    else { n = (int)g.in(1, 18); kc = (int)g.in(1, std::min(5, n)); }
    const bool slow = mode < 2 && k % 5 == 0;   // many rounds before the labels settle
    if (slow) { n = (int)g.in(40, 70); kc = (int)g.in(3, 5); }
    const long span = mode >= 4 ? 3 : slow ? g.in(100, 300) : g.in(0, 15);
    VP data;
    std::vector<double> w;
    std::vector<long> wi;
    std::vector<std::vector<long>> pts;
    const bool line = g.chance(0.3);
    for (int a = 0; a < n; a++) {
      data.push_back(slow ? Pt{a + 1, span * a / n, 0, 1} : Pt{a + 1, g.in(0, span), line ? 0 : g.in(0, span), 1});
      long ww = weighted && mode < 4 ? g.in(1, 2) : weighted ? (a % 3 == 0 ? 2 : 1) : 1;
      w.push_back((double)ww); wi.push_back(ww);
      pts.push_back({data.back().x, data.back().y});
    }
    std::vector<std::vector<std::vector<long>>> avg;
    long bad = 0;
    auto combine = [](const VP& v, const std::vector<double>& u) {
      Pt c{0, 0, 0, 0};
      for (size_t a = 0; a < v.size(); a++) { long q = (long)u[a]; c.x += q * v[a].x; c.y += q * v[a].y; c.den += q; }
      if (v.empty()) c = Pt{0, 20000, 0, 1};
      else { auto gcd = [](long p, long q) { while (q) { long r = p % q; p = q; q = r; } return p; };
        long z = gcd(gcd(c.x, c.y), c.den); if (z > 1) { c.x /= z; c.y /= z; c.den /= z; } }
      return c;
    };
    auto note = [&](const VP& v, const std::vector<double>& u) {
      std::vector<std::vector<long>> one;
      if (u.size() != v.size()) bad++;
      for (size_t a = 0; a < v.size() && a < u.size(); a++) {
        one.push_back({v[a].id, (long)u[a]});
        if (v[a].id < 1 || v[a].id > n || wi[(size_t)v[a].id - 1] != (long)u[a]) bad++;
      }
      if (avg.size() < 12 || (bad && avg.size() < 40)) avg.push_back(one);
    };
    std::function<double(const Pt&, const Pt&)> df = dist;
    std::function<Pt(const VP&)> af = [&](const VP& v) { std::vector<double> u(v.size(), 1.0); note(v, u); return combine(v, u); };
    std::function<Pt(const VP&, const std::vector<double>&)> wf = [&](const VP& v, const std::vector<double>& u) { note(v, u); return combine(v, u); };
    cur() = "km mode " + std::to_string(mode) + " n " + std::to_string(n) + " k " + std::to_string(kc) + " pts " + js(pts);
    std::vector<uint32_t> lab, again;
    VP cs;
    VP before = data;
    int res = guarded([&] {
      if (mode < 2) {
        VP init;
        std::vector<int> id;
        for (int a = 0; a < n; a++) id.push_back(a);
        for (int a = 0; a < kc; a++) { if (!slow) std::swap(id[(size_t)a], id[(size_t)g.in(a, n - 1)]); init.push_back(data[(size_t)id[(size_t)a]]); }
        if (g.chance(0.2)) init[0] = Pt{0, g.in(0, 15), g.in(0, 15), 1};
        auto r = weighted ? KM::ClusterWeighted(data, w, df, wf, init) : KM::Cluster(data, df, af, init);
        lab = r.first; cs = r.second;
        again = weighted ? KM::ClusterWeighted(data, w, df, wf, cs).first : KM::Cluster(data, df, af, cs).first;
      } else {
        bool pre = mode >= 4;
        bool dflt = !pre && g.chance(0.3);
        lab = weighted ? (dflt ? KM::ClusterWeighted(data, w, df, wf, (uint32_t)kc) : KM::ClusterWeighted(data, w, df, wf, (uint32_t)kc, pre))
                       : (dflt ? KM::Cluster(data, df, af, (uint32_t)kc) : KM::Cluster(data, df, af, (uint32_t)kc, pre));
        again = lab;
        if (kc > 1) {
          VP c2;
          for (int c = 0; c < kc; c++) { VP v; std::vector<double> u; for (int a = 0; a < n; a++) if (lab[(size_t)a] == (uint32_t)c) { v.push_back(data[(size_t)a]); u.push_back(w[(size_t)a]); } c2.push_back(combine(v, u)); }
          again = weighted ? KM::ClusterWeighted(data, w, df, wf, c2).first : KM::Cluster(data, df, af, c2).first;
        }
      }
    });
    bool intact = data.size() == before.size() && bad == 0;
    for (size_t a = 0; intact && a < data.size(); a++) intact = data[a].id == before[a].id && data[a].x == before[a].x && data[a].y == before[a].y;
    std::vector<long> l1, l2;
    for (auto v : lab) l1.push_back((long)v + 1);
    for (auto v : again) l2.push_back((long)v + 1);
    std::vector<std::vector<long>> cc;
    for (auto& c : cs) cc.push_back({c.x, c.y, c.den});
    Ev("km").f("k", kc).f("pts", pts).f("w", wi).f("res", res).f("lab", l1).f("again", l2).f("havec", mode < 2).f("centres", cc).f("avg", avg).f("intact", intact).f("mode", mode).emit();
    if (k % 10 == 0) {
      VP few(data.begin(), data.begin() + std::min(n, 3));
      std::vector<double> fw(few.size(), 1.0);
      uint32_t kk = (uint32_t)few.size() + 1 + (uint32_t)g.below(3);
      cur() = "km with more clusters than items";
      int r2 = guarded([&] { if (weighted) KM::ClusterWeighted(few, fw, df, wf, kk, g.chance(0.5)); else KM::Cluster(few, df, af, kk, g.chance(0.5)); });
      Ev("toomany").f("res", r2).emit();
    }
  }
}
int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "";
  freopen("/dev/null", "w", stderr);
  open();
  if (m == "hc") hclust(); else kmeans();
  done();
}
