// O01 paths through way points and their fastest traversal
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/time_optimal_trajectory_parametrization.hpp"
#include <memory>
#include "trace.hpp"
using namespace vt;
using namespace time_optimal_trajectory_parametrization;
using VL = std::vector<long>;
using VV = std::vector<VL>;
using Eigen::VectorXd;
static VL vec(const VectorXd& v, double s) { VL o; for (long k = 0; k < v.size(); k++) o.push_back(fix(v(k), s)); return o; }
static VectorXd quarter(const VL& v) { VectorXd o((long)v.size()); for (size_t k = 0; k < v.size(); k++) o((long)k) = (double)v[k] / 4; return o; }
struct Job { VV wp; std::list<VectorXd> way; VL V, A; VectorXd v, a; long dev; };
// way points on a lattice of quarters; no repeats, no reversals
static Job make(Rng& g, size_t d, size_t n, long lo) {
  Job j; j.dev = g.in(1, 6);
  bool thick = g.chance(.5);
  while (j.wp.size() < n) {
    VL q; for (size_t k = 0; k < d; k++) q.push_back(g.in(-8, 8)); if (thick) for (auto& e : q) e = e / 4 * 4;
    VectorXd c = quarter(q);
    if (!j.way.empty() && (c - j.way.back()).norm() < .6) continue;
    if (j.way.size() >= 2) { auto it = j.way.rbegin(); VectorXd b = *it; ++it; double cs = (b - *it).normalized().dot((c - b).normalized()); if (cs < -.9) { if (d == 1) j.wp.clear(), j.way.clear(); continue; } }
    j.wp.push_back(q); j.way.push_back(c);
  }
  for (size_t k = 0; k < d; k++) { j.V.push_back(g.in(lo, 8)); j.A.push_back(g.in(lo, 8)); }
  j.v = quarter(j.V); j.a = quarter(j.A);
  return j;
}
static void path_event(const Job& j, const Path& p, const char* op) {
  double L = p.Length(); VV c, t, k; VL s; const long M = 120; double kmax = 0;
  VectorXd last = p.GetConfig(0); double run = 0;
  for (long q = 0; q <= M; q++) { double at = L * (double)q / M; VectorXd x = p.GetConfig(at); run += (x - last).norm(); last = x; s.push_back(fix(at, 1e4)); c.push_back(vec(x, 1e4)); t.push_back(vec(p.GetTangent(at), 1e4)); VectorXd u = p.GetCurvature(at); kmax = std::max(kmax, u.norm()); k.push_back(vec(u, 100)); }
  VL sw; bool inc = true, rep = true; double at = 0; 
  auto pts = p.SwitchingPoints(); double prev = 0; for (auto& e : pts) { kmax = std::max(kmax, p.GetCurvature((prev + e.first) / 2).norm()); sw.push_back(fix(e.first, 1e4)); inc &= e.first >= prev && e.first <= L; prev = e.first; }
  for (auto& e : pts) { if (e.first <= at) continue; bool dis = false; double nx = p.GetNextSwitchingPoint(at, dis); rep &= nx > at && nx <= e.first; at = e.first; }
  kmax = std::max(kmax, p.GetCurvature((prev + L) / 2).norm());
  bool dis = false; rep &= p.GetNextSwitchingPoint(L, dis) == L && dis;
  Ev(op).f("wp", j.wp).f("dev", j.dev).f("L", fix(L, 1e4)).f("run", fix(run, 1e4)).f("s", s).f("c", c).f("t", t).f("k", k).f("kmax", fix(kmax, 100)).f("sw", sw).f("inc", inc).f("rep", rep).emit();
}
// pieces between corners of the curvature, with tangent and curvature in the middle
static void opt_event(const Job& j, const Path& p, double T) {
  std::vector<double> b{0}; for (auto& e : p.SwitchingPoints()) if (e.second) b.push_back(e.first); b.push_back(p.Length());
  VL ds; VV q, c; double kmax = 0;
  for (size_t k = 0; k + 1 < b.size(); k++) { double l = b[k + 1] - b[k]; if (l < 1e-4) continue; long m = 24; for (long z = 0; z < m; z++) { double s = b[k] + l * ((double)z + .5) / (double)m; ds.push_back(fix(l / (double)m, 1e5)); q.push_back(vec(p.GetTangent(s), 1000)); VectorXd u = p.GetCurvature(s); kmax = std::max(kmax, u.norm()); c.push_back(vec(u, 100)); } }
  if (kmax > 40) return;
  Ev("opt").f("ds", ds).f("q", q).f("c", c).f("V", j.V).f("A", j.A).f("T", fix(T, 1e3)).emit();
}
static void run_traj() {
  Rng g(seed() * 83 + 4);
  for (long n = 0; n < scale(60, 500); n++) {
    begin("traj");
    size_t d = (size_t)g.in(2, 4), w = (size_t)g.in(2, 6); if (g.chance(.1)) { d = 1; w = (size_t)g.in(2, 3); } Job j = make(g, d, w, 2);
    cur() = "trajectory through " + js(j.wp) + " V " + js(j.V) + " A " + js(j.A) + " deviation " + std::to_string(j.dev) + "/16";
    const double dev = (double)j.dev / 16;
    std::unique_ptr<Path> p(new Path(j.way, dev)); path_event(j, *p, "path");
    if (g.chance(.4)) { Path c(*p); Path o(std::list<VectorXd>{VectorXd::Zero((long)d), VectorXd::Ones((long)d)}, dev); if (g.chance(.5)) { o = *p; p.reset(); path_event(j, o, "path"); p.reset(new Path(o)); } else { p.reset(); path_event(j, c, "path"); p.reset(new Path(c)); } }
    std::vector<std::unique_ptr<Trajectory>> tr; const bool given = g.chance(.5); const double step = g.chance(.5) ? 1. / 1024 : .001;
    if (vt::guarded([&] { if (given) tr.emplace_back(new Trajectory(*p, j.v, j.a, step)); else tr.emplace_back(new Trajectory(j.way, j.v, j.a, dev, step)); }) != 0) { Ev("refused").f("wp", j.wp).emit(); continue; }
    double T = tr[0]->Duration(); if (!(T > 0 && T < 1e3)) { Ev("nonsense").f("wp", j.wp).emit(); continue; }
    const long M = std::max(40L, std::min(400L, (long)std::ceil(T / .04))); VL t; VV x, v;
    for (long k = 0; k <= M; k++) { double at = T * (double)k / (double)M; auto r = tr[0]->GetPositionVelocity(at); t.push_back(fix(at, 1e4)); x.push_back(vec(r.first, 1e4)); v.push_back(vec(r.second, 1e4)); }
    Ev("traj").f("wp", j.wp).f("dev", j.dev).f("V", j.V).f("A", j.A).f("T", fix(T, 1e4)).f("t", t).f("x", x).f("v", v).f("rest", fix(tr[0]->GetPositionVelocity(T).second.norm(), 1e4)).emit();
    if (w <= 4) opt_event(j, *p, T);
    // any order of questions to the trajectory and to copies made at any time
    for (int z = 0; z < 24; z++) {
      size_t id = (size_t)g.below(tr.size());
      if (g.chance(.15) && tr.size() < 4) { tr.emplace_back(new Trajectory(*tr[id])); Ev("tcopy").f("id", (long)id).f("to", (long)tr.size() - 1).f("T", fix(tr.back()->Duration(), 1e4)).emit(); if (g.chance(.4)) { size_t gone = (size_t)g.below(tr.size() - 1); if (tr.size() > 2) { tr.erase(tr.begin() + (long)gone); Ev("tdrop").f("id", (long)gone).emit(); } } continue; }
      long k = g.chance(.15) ? 0 : g.chance(.15) ? M : g.in(0, M); double at = T * (double)k / (double)M; long out = 0; if (k == 0 && g.chance(.5)) { at = -(double)g.in(1, 40) / 8; out = -1; } if (k == M && g.chance(.5)) { at = T + (double)g.in(1, 40) / 8; out = 1; }
      cur() = "ask at " + std::to_string(at) + " of " + std::to_string(T);
      auto r = tr[id]->GetPositionVelocity(at); Ev("ask").f("id", (long)id).f("k", k).f("out", out).f("x", vec(r.first, 1e4)).f("v", vec(r.second, 1e4)).emit();
    }
  }
}
// straight lines of whole length, where the fastest motion is known exactly
static void run_line() {
  Rng g(seed() * 89 + 5); static const VV dirs{{3, 4}, {4, -3}, {0, 5}, {5}, {-3}, {6, 8}, {2, 1, 2}, {-2, 4, 4}, {1, 1, 1, 1}, {2, -2, 2, 2}, {5, 12}, {8}};
  static const VL len{5, 5, 5, 5, 3, 10, 3, 6, 2, 4, 13, 8};
  for (long n = 0; n < scale(80, 800); n++) {
    begin("line");
    size_t w = (size_t)g.below(dirs.size()); VL D = dirs[w]; VectorXd a((long)D.size()), b((long)D.size()); for (size_t k = 0; k < D.size(); k++) { a((long)k) = (double)g.in(-4, 4); b((long)k) = a((long)k) + (double)D[k] / 2; }
    VL V, A; for (size_t k = 0; k < D.size(); k++) { V.push_back(g.in(1, 8)); A.push_back(g.in(1, 8)); }
    cur() = "straight " + js(D) + " V " + js(V) + " A " + js(A);
    std::list<VectorXd> way{a, b}; if (g.chance(.3)) { way = {a, .5 * (a + b), b}; }
    std::unique_ptr<Trajectory> tr; if (vt::guarded([&] { tr.reset(new Trajectory(way, quarter(V), quarter(A), g.chance(.5) && way.size() == 2 ? 0. : .125, .001)); }) != 0) { Ev("refused").f("wp", D).emit(); continue; }
    double T = tr->Duration(); VL s, u; double L = (b - a).norm(); for (int k = 0; k <= 16; k++) { auto r = tr->GetPositionVelocity(T * k / 16); s.push_back(fix((r.first - a).dot(b - a) / L, 1e3)); u.push_back(fix(r.second.dot(b - a) / L, 1e3)); }
    Ev("line").f("D", D).f("len", len[w]).f("V", V).f("A", A).f("T", fix(T, 1e3)).f("s", s).f("u", u).emit();
  }
}
int main(int, char** a) {
  vt::open();
  std::string m = a[1];
  if (m == "traj") run_traj(); else if (m == "line") run_line(); else return 97;
  vt::done();
}
