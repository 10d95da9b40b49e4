// E01 linked robots; E02 joints and configurations
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/simple_linked_robot_model.hpp"
#include "trace.hpp"
using namespace vt;
using namespace simple_linked_robot_model;
typedef SimpleJointModel J;
using VL = std::vector<long>;
using VV = std::vector<VL>;
using Eigen::Isometry3d; using Eigen::Vector3d; using Eigen::Matrix3d;
// angles with exact cosines and sines in fifths, ascending
static const VV FIFTHS{{-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}, {5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}};
static double ang(long k) { return k == 12 ? M_PI : std::atan2((double)FIFTHS[(size_t)k - 1][1], (double)FIFTHS[(size_t)k - 1][0]); }
static long code(double a) { long best = BAD; for (long k = 1; k <= 12; k++) if (std::abs(a - ang(k)) < 1e-9 || (k == 12 && std::abs(a + M_PI) < 1e-9)) best = k; return best; }
static VL ivec(Rng& g, size_t n, long m) { VL v; for (size_t k = 0; k < n; k++) v.push_back(g.in(-m, m)); return v; }
static VV pmat(const Isometry3d& p) { VV o; for (int r = 0; r < 3; r++) { VL w; for (int c = 0; c < 4; c++) w.push_back(fix(p.matrix()(r, c), 1e4)); o.push_back(w); } return o; }
struct P { VV R; VL t; Isometry3d p; };   // a quarter-turn pose
static P quarter(Rng& g, long m) {
  static const VV units{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
  P o; VL x = g.pick(units), y; do y = g.pick(units); while (std::abs(x[0] * y[0] + x[1] * y[1] + x[2] * y[2]) == 1);
  VL z{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; o.t = ivec(g, 3, m); o.p = Isometry3d::Identity();
  for (size_t r = 0; r < 3; r++) { o.R.push_back(VL{x[r], y[r], z[r]}); for (size_t c = 0; c < 3; c++) o.p.matrix()((long)r, (long)c) = (double)o.R[r][c]; o.p.matrix()((long)r, 3) = (double)o.t[r]; }
  return o;
}
static const J::JOINT_TYPE T[4] = {J::FIXED, J::REVOLUTE, J::CONTINUOUS, J::PRISMATIC};
static double real_of(long type, long v) { return type == 1 || type == 2 ? ang(v) : (double)v; }
static long code_of(long type, double v) { return type == 1 || type == 2 ? code(v) : enc(v); }

static VV poses(const SimpleLinkedRobot& r) { VV o; for (auto& p : r.GetLinkTransforms()) { VL f; for (auto& row : pmat(p)) f.insert(f.end(), row.begin(), row.end()); o.push_back(f); } return o; }
static void run_fk() {
  Rng g(seed() * 61 + 8);
  for (long n = 0; n < scale(60, 700); n++) {
    begin("robot");
    bool bushy = g.chance(.3); size_t hub = (size_t)g.in(0, 1), L = (size_t)(bushy ? g.in(5, 9) : g.in(1, 7)); std::vector<long> par(L, -1), rev(L, 0), type(L), lo(L), hi(L), ax(L);
    std::vector<size_t> order; for (size_t k = 1; k < L; k++) order.push_back(k);
    bool chain = g.chance(.3);
    for (size_t k = 1; k < L; k++) { par[k] = bushy ? (long)(k > hub && g.chance(.85) ? hub : g.below(k)) : chain ? (long)k - 1 : (long)g.below(k); type[k] = g.in(0, 3); if ((type[k] == 1 || type[k] == 2) && rev[(size_t)par[k]] >= 3) type[k] = 3; rev[k] = rev[(size_t)par[k]] + (type[k] == 1 || type[k] == 2); ax[k] = g.in(0, 5);
      if (type[k] == 1) { lo[k] = g.in(1, 8); hi[k] = g.in(lo[k], 12); } else if (type[k] == 3) { lo[k] = g.in(-9, 3); hi[k] = g.in(lo[k], 9); } else lo[k] = hi[k] = 0; }
    // relabel the links other than the root and shuffle the joints
    std::vector<size_t> lab(L); for (size_t k = 0; k < L; k++) lab[k] = k; if (!g.chance(.3)) for (size_t k = L - 1; k > 1; k--) std::swap(lab[k], lab[(size_t)g.in(1, (long)k)]);
    if (!g.chance(.25)) for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[(size_t)g.below(k)]);
    std::vector<RobotLink> links(L); for (size_t k = 0; k < L; k++) links[lab[k]] = RobotLink("l" + std::to_string(lab[k]));
    std::vector<RobotJoint> joints; std::vector<std::string> js_; std::vector<P> off; VV jrec; SimpleLinkedConfiguration start; VL startc; std::vector<size_t> active; std::vector<std::pair<double, double>> limit;
    for (size_t q = 0; q < order.size(); q++) { size_t k = order[q]; P o = quarter(g, 3); off.push_back(o); Vector3d axis = Vector3d::Zero(); VL al{0, 0, 0}; axis(ax[k] % 3) = ax[k] < 3 ? 1 : -1; al[(size_t)ax[k] % 3] = ax[k] < 3 ? 1 : -1;
      long v0 = type[k] == 1 || type[k] == 2 ? g.in(1, 12) : type[k] == 3 ? g.in(-12, 12) : 0;
      J jm = type[k] == 1 || type[k] == 2 ? J({ang(lo[k] ? lo[k] : 6), ang(hi[k] ? hi[k] : 6)}, ang(v0), T[type[k]]) : J({(double)lo[k], (double)hi[k]}, (double)v0, T[type[k]]);
      joints.emplace_back(o.p, axis, (long)lab[(size_t)par[k]], (long)lab[k], jm, "j" + std::to_string(q));
      std::ostringstream s; s << "{\"p\":" << lab[(size_t)par[k]] << ",\"c\":" << lab[k] << ",\"ty\":" << type[k] << ",\"lo\":" << lo[k] << ",\"hi\":" << hi[k] << ",\"ax\":" << js(al) << ",\"R\":" << js(o.R) << ",\"t\":" << js(o.t) << "}"; js_.push_back(s.str());
      if (type[k] != 0) { limit.push_back(jm.GetLimits()); active.push_back(k); start.push_back(jm); startc.push_back(v0); } }
    P base = quarter(g, 5); std::vector<double> w; for (size_t a = 0; a < active.size(); a++) w.push_back((double)g.in(-3, 3));
    std::string jl = "["; for (size_t q = 0; q < js_.size(); q++) jl += (q ? "," : "") + js_[q]; jl += "]";
    cur() = "robot " + jl;
    auto vals = [&](VL& c) { SimpleLinkedConfiguration o; c.clear(); for (size_t k : active) { long v = type[k] == 3 ? g.in(-12, 12) : g.in(1, 12); c.push_back(v); double x = real_of(type[k], v); if (type[k] == 2 && g.chance(.4)) x += 2 * M_PI * (double)g.in(-2, 2);
        o.push_back(type[k] == 3 ? J({-20, 20}, x, J::PRISMATIC) : type[k] == 2 ? J({0, 0}, x, J::CONTINUOUS) : J({-4, 4}, x, J::REVOLUTE)); } return o; };
    VL first; SimpleLinkedConfiguration fc = vals(first);
    std::vector<std::unique_ptr<SimpleLinkedRobot>> rob;
    if (vt::guarded([&] { rob.emplace_back(new SimpleLinkedRobot(base.p, links, joints, fc, w)); }) != 0) { Ev("refused").f("joints", Raw{jl}).emit(); continue; }
    auto conf = [&](const SimpleLinkedConfiguration& c) { VL o; for (size_t a = 0; a < c.size(); a++) o.push_back(a < active.size() && c[a].GetType() == T[type[active[a]]] && c[a].GetLimits() == limit[a] ? code_of(type[active[a]], c[a].GetValue()) : (long)BAD); return o; };
    auto state = [&](Ev&& e, const SimpleLinkedRobot& r) { e.f("cfg", conf(r.GetPosition())).f("ps", poses(r)).emit(); };
    { std::vector<std::string> an = rob[0]->GetActiveJointNames(); VL ai; for (auto& s : an) ai.push_back(std::stol(s.substr(1))); 
      state(std::move(Ev("mk").f("links", (long)L).f("joints", Raw{jl}).f("bR", base.R).f("bt", base.t).f("v", first).f("active", ai)), *rob[0]); }
    for (int step = 0; step < 14; step++) {
      size_t id = (size_t)g.below(rob.size()); SimpleLinkedRobot& r = *rob[id]; long what = g.below(10);
      if (what <= 2) { VL c; auto q = vals(c); cur() = "set " + js(c); r.SetPosition(q); state(std::move(Ev("set").f("id", (long)id).f("v", c)), r); }
      else if (what == 3) { base = quarter(g, 5); cur() = "base"; r.UpdateBaseTransform(base.p); state(std::move(Ev("base").f("id", (long)id).f("bR", base.R).f("bt", base.t)), r); }
      else if (what == 4) { cur() = "same position"; bool thrown = vt::guarded([&] { r.SetPosition(r.GetPosition()); }) == 1; state(std::move(Ev("again").f("id", (long)id).f("thrown", thrown)), r); }
      else if (what == 5 && rob.size() < 3) { rob.emplace_back(static_cast<SimpleLinkedRobot*>(r.Clone())); state(std::move(Ev("clone").f("id", (long)id).f("to", (long)rob.size() - 1)), *rob.back()); }
      else if (what == 6) { VL c; auto q = vals(c); if (g.chance(.5) && !q.empty()) q.pop_back(); else q.push_back(J({0, 1}, .5, J::PRISMATIC)); bool thrown = vt::guarded([&] { r.SetPosition(q); }) == 1; state(std::move(Ev("wrong").f("id", (long)id).f("thrown", thrown)), r); }
      else { size_t l = (size_t)g.below(L); std::string nm = "l" + std::to_string(l); VL pt = ivec(g, 3, 4); cur() = "query " + nm; auto mp = r.GetLinkTransformsMap(); bool nolink = vt::guarded([&] { r.GetLinkTransform("nobody"); }) == 1; auto nj = r.GetLinkNames(); bool names = nj.size() == L; for (size_t k = 0; names && k < L; k++) names = nj[k] == "l" + std::to_string(k);
        auto jac = r.ComputeLinkPointJacobian(nm, Eigen::Vector4d((double)pt[0], (double)pt[1], (double)pt[2], 1)); auto tj = r.ComputeLinkPointTranslationJacobian(nm, Eigen::Vector4d((double)pt[0], (double)pt[1], (double)pt[2], 1));
        VV jc, tc; for (long c = 0; c < jac.cols(); c++) { VL col; for (int k = 0; k < 6; k++) col.push_back(fix(jac(k, c), 100)); jc.push_back(col); } for (long c = 0; c < tj.cols(); c++) tc.push_back(VL{fix(tj(0, c), 100), fix(tj(1, c), 100), fix(tj(2, c), 100)});
        VL pl; for (auto& row : pmat(r.GetLinkTransform(nm))) pl.insert(pl.end(), row.begin(), row.end()); VV mpl; for (size_t k = 0; k < L; k++) { VL f; auto it = mp.find("l" + std::to_string(k)); if (it != mp.end()) for (auto& row : pmat(it->second)) f.insert(f.end(), row.begin(), row.end()); mpl.push_back(f); }
        Ev("query").f("id", (long)id).f("l", (long)l).f("pt", pt).f("p", pl).f("map", mpl).f("base", pmat(r.GetBaseTransform())).f("inv", pmat(r.GetInverseBaseTransform())).f("jac", jc).f("tj", tc).f("nolink", nolink).f("names", names).f("mapn", (long)mp.size()).emit(); }
    }
  }
}
// arbitrary lists of links and joints: accepted exactly when they form a tree rooted at the first link
static void run_models() {
  Rng g(seed() * 67 + 9);
  for (long n = 0; n < scale(40, 400); n++) {
    begin("models");
    for (int m = 0; m < 12; m++) {
      long L = g.in(1, 5), Jn = g.chance(.85) ? L - 1 : g.in(0, 5); VL lname, jname; VV e; VL unit;
      for (long k = 0; k < L; k++) lname.push_back(g.chance(.05) ? g.in(0, L - 1) : k);
      std::vector<long> perm; for (long k = 1; k < L; k++) perm.push_back(k); for (size_t k = perm.size(); k > 1; k--) std::swap(perm[k - 1], perm[(size_t)g.below(k)]);
      for (long k = 0; k < Jn; k++) { jname.push_back(g.chance(.06) ? g.in(0, Jn - 1) : k); long c = k < (long)perm.size() ? perm[(size_t)k] : g.in(0, L - 1), p = k < (long)perm.size() ? (k == 0 ? 0 : g.chance(.5) ? perm[(size_t)g.in(0, k - 1)] : 0) : g.in(0, L - 1);
        if (g.chance(.1)) p = g.in(-1, L); if (g.chance(.08)) c = g.in(-1, L); if (g.chance(.02)) { p = c; } e.push_back(VL{p, c}); unit.push_back(g.chance(.04) ? g.in(0, 1) : 1); }
      for (size_t k = e.size(); k > 1; k--) std::swap(e[k - 1], e[(size_t)g.below(k)]);
      std::vector<RobotLink> links; bool blank = g.chance(.5); auto nm = [&](const char* p, long x) { return blank && x == 0 ? std::string() : p + std::to_string(x); }; for (long x : lname) links.emplace_back(nm("l", x));
      std::vector<RobotJoint> joints; long act = 0; for (size_t k = 0; k < e.size(); k++) { bool fx = g.chance(.3); act += !fx; joints.emplace_back(Isometry3d::Identity(), unit[k] ? Vector3d(0, 0, 1) : Vector3d(0, 0, 1.001), e[k][0], e[k][1], J({-1, 1}, 0, fx ? J::FIXED : J::REVOLUTE), nm("j", jname[k])); }
      long wn = act, cn = act; if (g.chance(.06)) wn = act + 1; else if (g.chance(.06)) cn = act + 1; SimpleLinkedConfiguration cfg((size_t)cn, J({-1, 1}, 0.5, J::REVOLUTE)); std::vector<double> w((size_t)wn, 1.);
      cur() = "model " + js(e);
      int res = vt::guarded([&] { SimpleLinkedRobot r(Isometry3d::Identity(), links, joints, cfg, w); });
      Ev("model").f("links", lname).f("jn", jname).f("e", e).f("unit", unit).f("act", act).f("wn", wn).f("cn", cn).f("res", res).f("sane", SimpleLinkedRobot::SanityCheckRobotModel(links, joints).second).emit();
    }
  }
}

// ------------------------------------------------------------------ E02: units are eighths of pi for continuous joints, numbers for the others
static const double U = M_PI / 8;
static double r2(long type, long v) { return type == 2 ? (double)v * U : (double)v; }
static long c24(long type, double v) { double x = v / (type == 2 ? U : 1.) * 24; double y = std::nearbyint(x); return std::isfinite(x) && std::abs(x - y) < 1e-6 && std::abs(y) < 1e8 ? (long)y : (long)BAD; }
static long c1(long type, double v) { long x = c24(type, v); return x % 24 == 0 ? x / 24 : (long)BAD; }
static double special(long s) { return s == 1 ? INFINITY : s == 2 ? -INFINITY : NAN; }
static long uval(Rng& g, long type) { static const VL big{16, -16, 18, 20, -20, 24, -24, 32, -32, 12, -12, 14}; if (type == 2) return g.chance(.3) ? g.pick(big) : g.in(-9, 9); return g.in(-12, 12); }
static void run_joint() {
  Rng g(seed() * 71 + 10);
  for (long n = 0; n < scale(120, 1200); n++) {
    begin("joint");
    std::vector<J> js_(3); std::vector<long> ty(3, 0); long spec;
    for (int step = 0; step < 16; step++) {
      size_t id = (size_t)g.below(3); J& j = js_[id]; long what = g.below(9);
      auto st = [&](Ev&& e) { auto l = js_[id].GetLimits(); e.f("got", c1(ty[id], js_[id].GetValue())).f("lim", VL{ty[id] == 2 ? (l.first == -INFINITY ? 0L : 1L) : enc(l.first), ty[id] == 2 ? (l.second == INFINITY ? 0L : 1L) : enc(l.second)}).f("is", VL{js_[id].IsContinuous(), js_[id].IsRevolute(), js_[id].IsPrismatic(), js_[id].IsFixed()}).f("name", js_[id].GetTypeString()).emit(); };
      if (what == 0 || step < 3) { if (step < 3) id = (size_t)step; long t = g.in(0, 3), lo = g.in(-8, 8), hi = g.in(-3, 10), v = uval(g, t); spec = g.chance(.1) ? g.in(1, 3) : 0; cur() = "make joint";
        int res = vt::guarded([&] { J k({(double)lo, (double)hi}, spec ? special(spec) : r2(t, v), T[t]); js_[id] = k; ty[id] = t; }); st(std::move(Ev("jmk").f("id", (long)id).f("ty", t).f("lo", lo).f("hi", hi).f("v", v).f("spec", spec).f("res", res))); }
      else if (what <= 2) { long v = uval(g, ty[id]); spec = g.chance(.15) ? g.in(1, 3) : 0; cur() = "assign joint value"; int res = vt::guarded([&] { j.SetValue(spec ? special(spec) : r2(ty[id], v)); }); st(std::move(Ev("jset").f("id", (long)id).f("v", v).f("spec", spec).f("res", res))); }
      else if (what == 3) { size_t to = (size_t)g.below(3); long v = uval(g, ty[id]); spec = g.chance(.1) ? g.in(1, 3) : 0; int res = vt::guarded([&] { js_[to] = j.CopyWithNewValue(spec ? special(spec) : r2(ty[id], v)); ty[to] = ty[id]; }); size_t from = id; if (res == 0) id = to; st(std::move(Ev("jcopy").f("id", (long)from).f("to", (long)(res == 0 ? to : from)).f("v", v).f("spec", spec).f("res", res))); }
      else if (what == 4) { size_t to = (size_t)g.below(3); js_[to] = J(j); ty[to] = ty[id]; size_t from = id; id = to; st(std::move(Ev("jdup").f("id", (long)from).f("to", (long)to))); }
      else if (what == 5) { long v = uval(g, ty[id]); Ev("jin").f("id", (long)id).f("v", v).f("in", j.InLimits(r2(ty[id], v))).f("to", c1(ty[id], j.EnforceLimits(r2(ty[id], v)))).emit(); }
      else { size_t o = (size_t)g.below(3); long a = uval(g, ty[id]), b = uval(g, ty[id]); double s3 = 0, d3 = 0; int res = vt::guarded([&] { s3 = j.SignedDistance(js_[o]); d3 = j.Distance(js_[o]); }); double ra = r2(ty[id], a), rb = r2(ty[id], b);
        Ev("jdist").f("id", (long)id).f("o", (long)o).f("a", a).f("b", b).f("s", c1(ty[id], j.SignedDistance(ra, rb))).f("d", c1(ty[id], j.Distance(ra, rb))).f("s1", c1(ty[id], j.SignedDistance(ra))).f("d1", c1(ty[id], j.Distance(ra))).f("res", res).f("s2", res ? 0L : c1(ty[id], s3)).f("d2", res ? 0L : c1(ty[id], d3)).f("same", j.IsSameType(js_[o])).emit(); }
    }
    // configurations
    begin("config");
    size_t m = (size_t)g.in(1, 4); VL t, lo, hi; std::vector<double> w; VL wl; std::vector<RobotLink> links{RobotLink("l0")}; std::vector<RobotJoint> joints;
    for (size_t k = 0; k < m; k++) { t.push_back(g.in(1, 3)); lo.push_back(g.in(-10, 2)); hi.push_back(g.in(lo[k], 10)); wl.push_back(g.in(-3, 3)); w.push_back((double)wl[k]); }
    auto conf = [&](VL& v) { SimpleLinkedConfiguration c; v.clear(); for (size_t k = 0; k < m; k++) { v.push_back(t[k] == 2 ? (g.chance(.2) ? 8 : g.in(-8, 8)) : g.in(lo[k], hi[k])); c.push_back(J({(double)lo[k], (double)hi[k]}, r2(t[k], v[k]), T[t[k]])); } return c; };
    VL av, bv; auto A = conf(av), B = conf(bv); SimpleLinkedConfiguration zero = A;
    for (size_t k = 0; k < m; k++) { links.emplace_back("l" + std::to_string(k + 1)); joints.emplace_back(Isometry3d::Identity(), Vector3d::UnitX(), (long)k, (long)k + 1, A[k], "j" + std::to_string(k)); }
    SimpleLinkedRobot rob(Isometry3d::Identity(), links, joints, A, w);
    auto l1 = [&](const Eigen::VectorXd& d) { VL o; for (size_t k = 0; k < m; k++) o.push_back(c1(t[k], d((long)k))); return o; };
    auto vals = [&](const SimpleLinkedConfiguration& c) { VL o; for (size_t k = 0; k < c.size(); k++) o.push_back(c[k].GetType() == T[t[k]] ? c24(t[k], c[k].GetValue()) : (long)BAD); return o; };
    for (int q = 0; q < 6; q++) {
      A = conf(av); B = conf(bv); if (g.chance(.15)) { B = A; bv = av; } rob.SetPosition(A); cur() = "configurations " + js(av) + js(bv);
      double nm = rob.ComputeConfigurationDistance(A, B); bool mixed = false; for (size_t k = 0; k < m; k++) mixed |= t[k] == 2;
      VL r{0, 3, 6, 8, 12, 18, 24, -5, 30}; long rr = g.pick(r);
      auto I = rob.InterpolateBetweenConfigurations(A, B, (double)rr / 24); VL il; bool lim = true; for (size_t k = 0; k < m; k++) { il.push_back(c24(t[k], I[k].GetValue())); lim &= I[k].InLimits(I[k].GetValue()) && I[k].GetType() == A[k].GetType() && I[k].GetLimits() == A[k].GetLimits(); }
      SimpleLinkedConfiguration C = B; if (g.chance(.5)) C.pop_back(); else C[0] = J({-9, 9}, 1, C[0].IsPrismatic() ? J::REVOLUTE : J::PRISMATIC); 
      VL thrown{vt::guarded([&] { rob.InterpolateBetweenConfigurations(A, C, .5); }), vt::guarded([&] { rob.ComputeConfigurationDistance(A, C); }), vt::guarded([&] { SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(A, C); }), vt::guarded([&] { rob.AverageConfigurations(std::vector<SimpleLinkedConfiguration>{A, C}); })};
      Ev("conf").f("t", t).f("lo", lo).f("hi", hi).f("w", wl).f("a", av).f("b", bv).f("sd", l1(rob.ComputePerDimensionConfigurationSignedDistance(A, B))).f("ad", l1(rob.ComputePerDimensionConfigurationDistance(A, B))).f("un", l1(SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(A, B)))
          .f("to", l1(rob.ComputePerDimensionConfigurationSignedDistanceTo(B))).f("ato", l1(rob.ComputePerDimensionConfigurationDistanceTo(B))).f("n", mixed ? 0L : fix(nm, 100)).f("nt", mixed ? 0L : fix(rob.ComputeConfigurationDistanceTo(B), 100)).f("mixed", mixed).f("nz", fix(nm - rob.ComputePerDimensionConfigurationSignedDistance(A, B).norm(), 1e6)).f("same", fix(rob.ComputeConfigurationDistance(A, A), 1e6)).f("sym", fix(nm - rob.ComputeConfigurationDistance(B, A), 1e6))
          .f("r", rr).f("i", il).f("lim", lim).f("i0", vals(rob.InterpolateBetweenConfigurations(A, B, 0))).f("i1", vals(rob.InterpolateBetweenConfigurations(A, B, 1))).f("thrown", thrown).emit();
      std::vector<SimpleLinkedConfiguration> many; VV mv; // continuous joints: the first value, then pairs on both sides of it at the same distance, none beyond half a turn (the library averages them as plain numbers)
      VL dd(m, 0); for (long k = 0, c = g.chance(.3) ? g.in(0, 2) : g.in(3, 9); k < c; k++) { VL v; auto Q = conf(v); for (size_t z = 0; z < m; z++) if (t[z] == 2) { if (k % 2 == 1) { long fit = std::max(0L, std::min(3L, 7 - std::labs(av[z]))); dd[z] = k + 1 < c ? g.in(-fit, fit) : 0; } long u = k == 0 ? av[z] : k % 2 == 1 ? av[z] + dd[z] : av[z] - dd[z]; v[z] = u; Q[z] = J({(double)lo[z], (double)hi[z]}, r2(2, u), T[2]); } many.push_back(Q); mv.push_back(v); }
      auto avg = rob.AverageConfigurations(many); VL al; for (size_t k = 0; k < avg.size(); k++) al.push_back(avg[k].GetType() == T[t[k]] ? fix(avg[k].GetValue() / (t[k] == 2 ? U : 1.), 1e4) : (long)BAD);
      Ev("cavg").f("t", t).f("v", mv).f("r", al).emit();
    }
  }
}
int main(int, char** a) {
  vt::open();
  std::string m = a[1];
  if (m == "fk") run_fk(); else if (m == "models") run_models(); else if (m == "joint") run_joint(); else return 97;
  vt::done();
}
