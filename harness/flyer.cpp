// E03 planar and spatial robots; E04 collision geometry of robots; E05 arms with fixed kinematics
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/simple_robot_models.hpp"
#include "arc_utilities/abb_irb1600_145_fk_fast.hpp"
#include "arc_utilities/iiwa_14_fk_fast.hpp"
#include "arc_utilities/iiwa_7_fk_fast.hpp"
#include "arc_utilities/ur_10_fk_fast.hpp"
#include "trace.hpp"
#include <memory>
using namespace vt;
using VL = std::vector<long>;
using VV = std::vector<VL>;
using Eigen::Isometry3d; using Eigen::Vector3d; using Eigen::Vector4d;
static const VV FIFTHS{{-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}, {5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}};
static double ang(long k) { return k == 12 ? M_PI : std::atan2((double)FIFTHS[(size_t)k - 1][1], (double)FIFTHS[(size_t)k - 1][0]); }
static long code(double a) { for (long k = 1; k <= 12; k++) if (std::abs(a - ang(k)) < 1e-9 || (k == 12 && std::abs(a + M_PI) < 1e-9)) return k; return BAD; }
static const double U = M_PI / 8;
static VL ivec(Rng& g, size_t n, long m) { VL v; for (size_t k = 0; k < n; k++) v.push_back(g.in(-m, m)); return v; }
static VL flat(const Isometry3d& p, double rs = 1e4, double ts = 1e4) { VL o; for (int r = 0; r < 3; r++) { for (int c = 0; c < 3; c++) o.push_back(fix(p.matrix()(r, c), rs)); o.push_back(fix(p.matrix()(r, 3), ts)); } return o; }
struct P { VV R; VL t; Isometry3d p; };
static P quarter(Rng& g, long m, double unit = 1) {
  static const VV units{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
  P o; VL x = g.pick(units), y; do y = g.pick(units); while (std::abs(x[0] * y[0] + x[1] * y[1] + x[2] * y[2]) == 1);
  VL z{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; o.t = ivec(g, 3, m); o.p = Isometry3d::Identity();
  for (size_t r = 0; r < 3; r++) { o.R.push_back(VL{x[r], y[r], z[r]}); for (size_t c = 0; c < 3; c++) o.p.matrix()((long)r, (long)c) = (double)o.R[r][c]; o.p.matrix()((long)r, 3) = (double)o.t[r] * unit; }
  return o;
}
static P turned(Rng& g, const P& a, long axis, long quarters) {  // same place plus a quarter turn about one of its own axes
  P o; o.t = ivec(g, 3, 9); o.p = a.p; Vector3d ax = Vector3d::Zero(); ax(axis) = 1;
  Eigen::Matrix3d R = a.p.linear() * Eigen::AngleAxisd((double)quarters * M_PI_2, ax).toRotationMatrix();
  for (int r = 0; r < 3; r++) { VL w; for (int c = 0; c < 3; c++) { w.push_back(std::lround(R(r, c))); o.p.matrix()(r, c) = (double)w.back(); } o.R.push_back(w); o.p.matrix()(r, 3) = (double)o.t[(size_t)r]; }
  return o;
}
static std::string js(const P& p) { return "{\"R\":" + vt::js(p.R) + ",\"t\":" + vt::js(p.t) + "}"; }
static std::string js(const std::vector<P>& v) { std::string o = "["; for (size_t k = 0; k < v.size(); k++) o += (k ? "," : "") + js(v[k]); return o + "]"; }
static VV cols(const Eigen::Matrix<double, 3, Eigen::Dynamic>& m, double s) { VV o; for (long c = 0; c < m.cols(); c++) o.push_back(VL{fix(m(0, c), s), fix(m(1, c), s), fix(m(2, c), s)}); return o; }
template <typename R> static Ev& look(Ev& e, const R& r, const std::string& name) {
  VV ps; for (auto& p : r.GetLinkTransforms()) ps.push_back(flat(p));
  VV mp; bool ok = true; for (auto& kv : r.GetLinkTransformsMap()) { mp.push_back(flat(kv.second)); ok = ok && kv.first == name; }
  return e.f("ps", ps).f("map", mp).f("one", flat(r.GetLinkTransform(name))).f("names", ok && r.GetLinkNames() == std::vector<std::string>{name})
      .f("nolink", vt::guarded([&] { r.GetLinkTransform(name + "x"); }) == 1 && vt::guarded([&] { r.ComputeLinkPointTranslationJacobian(name + "x", Vector4d(1, 2, 3, 1)); }) == 1);
}
// bytes put before, reported, added, read back, equal
template <typename S, typename C> static VL trip(Rng& g, const C& c) {
  std::vector<uint8_t> b((size_t)g.below(9), 7); size_t at = b.size(); uint64_t w = S::Serialize(c, b); size_t add = b.size() - at; for (long k = g.below(4); k > 0; k--) b.push_back(9);
  auto r = S::Deserialize(b, at); return VL{(long)at, (long)w, (long)add, (long)r.second, r.first.matrix() == c.matrix() ? 1L : 0L};
}
static const VV LEN2{{0, 0}, {3, 4}, {-4, 3}, {5, -12}, {-8, -6}, {0, 7}, {-2, 0}, {12, 5}};
static const VV LEN3{{0, 0, 0}, {1, 2, 2}, {-2, 3, 6}, {0, -3, 4}, {4, -4, 7}, {-9, 0, 0}, {2, -1, -2}, {0, 0, 5}};

static void run_plane() {
  using namespace simple_se2_robot_model; typedef SimpleSE2Configuration C; typedef simple_robot_models::PointSphereBasicSE2Robot G;
  Rng g(seed() * 73 + 5);
  for (long n = 0; n < scale(120, 1500); n++) {
    begin("plane");
    std::string name = g.chance(.5) ? "body" : "b" + std::to_string(g.below(9));
    struct H { std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<SimpleSE2Configuration, SimpleSE2ConfigAlloc>> r; };
    std::vector<H> rob; VL wt = ivec(g, 2, 4);
    auto conf = [&](VL& v) { v = ivec(g, 2, 20); long k = g.in(1, 12); v.push_back(k); C c(0, 0, 0); c(0) = (double)v[0]; c(1) = (double)v[1]; c(2) = ang(k); if (k != 12 && g.chance(.4)) c(2) += 2 * M_PI * (double)g.in(-3, 3); return c; };
    auto c3 = [&](const C& c) { return VL{enc(c(0)), enc(c(1)), code(c(2))}; };
    VL v; C c0 = conf(v); bool geo = g.chance(.4); cur() = "plane";
    if (geo) rob.push_back(H{std::unique_ptr<SimpleSE2Robot>(new G(c0, (double)wt[0], (double)wt[1] / U, name, simple_robot_models::PointSphereGeometry()))}); else rob.push_back(H{std::unique_ptr<SimpleSE2Robot>(new SimpleSE2Robot(c0, (double)wt[0], (double)wt[1] / U, name))});
    { Ev e("pmk"); look(e, *rob[0].r, name).f("w", wt).f("v", v).f("cfg", c3(rob[0].r->GetPosition())).emit(); }
    for (long k = 0, m = g.in(3, 16); k < m; k++) {
      size_t id = (size_t)g.below((long)rob.size()); auto& r = *rob[id].r; long what = g.below(100);
      if (what < 25) { C c = conf(v); auto got = c3(r.SetPosition(c)); Ev e("pset"); look(e, r, name).f("id", id).f("v", v).f("ret", got).f("cfg", c3(r.GetPosition())).emit(); }
      else if (what < 35) { if (rob.size() >= 4) continue; rob.push_back(H{decltype(H::r)(r.Clone())}); if (g.chance(.3)) { for (auto& q : rob) (void)q; } auto& q = *rob.back().r; Ev e("pclone"); look(e, q, name).f("id", id).f("kind", (dynamic_cast<G*>(&q) != nullptr) == geo).f("cfg", c3(q.GetPosition())).emit(); }
      else if (what < 60) { VL pt = ivec(g, 3, 9); Ev e("pquery"); look(e, r, name).f("id", id).f("pt", pt).f("jac", cols(r.ComputeLinkPointTranslationJacobian(name, Vector4d((double)pt[0], (double)pt[1], (double)pt[2], 1)), 1e4)).f("cfg", c3(r.GetPosition())).emit(); }
      else if (what < 75) {
        VL a = ivec(g, 2, 9), b, d = g.pick(LEN2); a.push_back(g.in(-20, 20)); b = VL{a[0] + d[0], a[1] + d[1], g.chance(.15) ? a[2] : g.in(-20, 20)};
        C ca((double)a[0], (double)a[1], (double)a[2] * U), cb((double)b[0], (double)b[1], (double)b[2] * U); auto s = r.ComputePerDimensionConfigurationSignedDistance(ca, cb); VL sl; for (long q = 0; q < s.size(); q++) sl.push_back(fix(q == 2 ? s(q) / U : s(q), 1e4));
        Ev("pdist").f("id", id).f("a", a).f("b", b).f("s", sl).f("d", fix(r.ComputeConfigurationDistance(ca, cb), 1e4)).emit(); }
      else if (what < 90) {
        VL a = ivec(g, 3, 9), b = ivec(g, 3, 9); a[2] = g.in(-7, 8); b[2] = g.in(-7, 8); if (g.chance(.15)) b[2] = a[2]; long rr = g.chance(.2) ? g.in(-9, 33) : g.in(0, 24);
        C ca((double)a[0], (double)a[1], (double)a[2] * U), cb((double)b[0], (double)b[1], (double)b[2] * U), o = r.InterpolateBetweenConfigurations(ca, cb, (double)rr / 24), p = r.InterpolateBetweenConfigurations(ca, cb, 0), q = r.InterpolateBetweenConfigurations(ca, cb, 1);
        auto l = [&](const C& z) { return VL{fix(z(0) * 24, 1e3), fix(z(1) * 24, 1e3), fix(z(2) * 24 / U, 1e3)}; };
        Ev("pmix").f("id", id).f("a", a).f("b", b).f("r", rr).f("o", l(o)).f("o0", l(p)).f("o1", l(q)).emit(); }
      else if (what < 96) {
        VV vs; long mid = g.in(-7, 8), pairs = g.in(0, 3); auto add = [&](long t) { VL z = ivec(g, 2, 30); z.push_back(t); vs.push_back(z); };
        for (long q = 0; q < pairs; q++) { long dd = g.in(0, 3); add(mid + dd); add(mid - dd); } if (g.chance(.4)) add(mid);
        for (size_t q = vs.size(); q > 1; q--) std::swap(vs[q - 1], vs[(size_t)g.below((long)q)]);
        std::vector<C> cs; for (auto& z : vs) cs.emplace_back((double)z[0], (double)z[1], (double)z[2] * U); C o = r.AverageConfigurations(cs);
        Ev("pavg").f("id", id).f("v", vs).f("o", VL{fix(o(0), 1e4), fix(o(1), 1e4), fix(o(2) / U, 1e4)}).emit(); }
      else { C c((double)g.in(-99, 99) / 7, (double)g.in(-99, 99) / 3, (double)g.in(-99, 99) / 9); Ev("bytes").f("size", 24).f("b", trip<SimpleSE2ConfigSerializer>(g, c)).emit(); }
      if (g.chance(.08) && rob.size() > 1) { rob.pop_back(); Ev("drop").emit(); }
    }
  }
}
static void run_space() {
  using namespace simple_se3_robot_model; typedef SimpleSE3Configuration C; typedef simple_robot_models::PointSphereBasicSE3Robot G;
  Rng g(seed() * 79 + 6);
  for (long n = 0; n < scale(120, 1500); n++) {
    begin("space");
    std::string name = g.chance(.5) ? "body" : "b" + std::to_string(g.below(9)); cur() = "space";
    std::vector<std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<SimpleSE3Configuration, SimpleSE3ConfigAlloc>>> rob; VL wt = ivec(g, 2, 4);
    P p0 = quarter(g, 20); bool geo = g.chance(.4); const double T30 = M_PI / 6;
    if (geo) rob.emplace_back(new G(p0.p, (double)wt[0], (double)wt[1] / T30, name, simple_robot_models::PointSphereGeometry())); else rob.emplace_back(new SimpleSE3Robot(p0.p, (double)wt[0], (double)wt[1] / T30, name));
    { Ev e("smk"); look(e, *rob[0], name).f("w", wt).f("v", Raw{js(p0)}).f("cfg", flat(rob[0]->GetPosition())).emit(); }
    for (long k = 0, m = g.in(3, 16); k < m; k++) {
      size_t id = (size_t)g.below((long)rob.size()); auto& r = *rob[id]; long what = g.below(100);
      if (what < 25) { P p = quarter(g, 20); auto got = flat(r.SetPosition(p.p)); Ev e("sset"); look(e, r, name).f("id", id).f("v", Raw{js(p)}).f("ret", got).f("cfg", flat(r.GetPosition())).emit(); }
      else if (what < 35) { if (rob.size() >= 4) continue; rob.emplace_back(r.Clone()); auto& q = *rob.back(); Ev e("sclone"); look(e, q, name).f("id", id).f("kind", (dynamic_cast<G*>(&q) != nullptr) == geo).f("cfg", flat(q.GetPosition())).emit(); }
      else if (what < 60) { VL pt = ivec(g, 3, 9); Ev e("squery"); look(e, r, name).f("id", id).f("pt", pt).f("jac", cols(r.ComputeLinkPointTranslationJacobian(name, Vector4d((double)pt[0], (double)pt[1], (double)pt[2], 1)), 1e4)).f("cfg", flat(r.GetPosition())).emit(); }
      else if (what < 75) {
        P a = quarter(g, 9), b = quarter(g, 9); VL d = g.pick(LEN3); if (g.chance(.2)) { b.R = a.R; b.p = a.p; } for (size_t q = 0; q < 3; q++) { b.t[q] = a.t[q] + d[q]; b.p.matrix()((long)q, 3) = (double)b.t[q]; }
        auto s = r.ComputePerDimensionConfigurationSignedDistance(a.p, b.p); VL sl; for (long q = 0; q < s.size(); q++) sl.push_back(fix(q == 3 ? s(q) / T30 : s(q), 1e4));
        Ev("sdist").f("id", id).f("a", Raw{js(a)}).f("b", Raw{js(b)}).f("s", sl).f("d", fix(r.ComputeConfigurationDistance(a.p, b.p), 1e4)).emit(); }
      else if (what < 90) {
        static const VV ratios{{0, 1}, {1, 1}, {1, 2}, {1, 3}, {2, 3}, {-1, 2}, {3, 2}, {1, 4}, {3, 4}};
        P a = quarter(g, 9), b = quarter(g, 9); VL rr = g.pick(ratios); C o = r.InterpolateBetweenConfigurations(a.p, b.p, (double)rr[0] / (double)rr[1]);
        Ev("smix").f("id", id).f("a", Raw{js(a)}).f("b", Raw{js(b)}).f("r", rr).f("o", flat(o, 1e3, 1e3)).emit(); }
      else if (what < 96) {
        std::vector<P> vs; P mid = quarter(g, 9); long c = g.in(0, 3), pairs = c ? g.in(0, 3) : 0;
        for (long q = 0; q < c; q++) vs.push_back(turned(g, mid, 0, 0)); for (long q = 0; q < pairs; q++) { long ax = g.below(3); vs.push_back(turned(g, mid, ax, 1)); vs.push_back(turned(g, mid, ax, -1)); }
        for (size_t q = vs.size(); q > 1; q--) std::swap(vs[q - 1], vs[(size_t)g.below((long)q)]);
        EigenHelpers::VectorIsometry3d cs; for (auto& z : vs) cs.push_back(z.p);
        Ev("savg").f("id", id).f("v", Raw{js(vs)}).f("o", flat(r.AverageConfigurations(cs))).emit(); }
      else { C c = quarter(g, 99, .3).p * Eigen::AngleAxisd((double)g.in(-9, 9), Vector3d(2, 3, 6) / 7); Ev("bytes").f("size", 128).f("b", trip<SimpleSE3ConfigSerializer>(g, c)).emit(); }
      if (g.chance(.08) && rob.size() > 1) { rob.pop_back(); Ev("drop").emit(); }
    }
  }
}
static void run_geom() {
  using namespace simple_linked_robot_model; using namespace simple_robot_models; typedef PointSphereGeometry PS; typedef LinkedRobotWithGeometry<PS> R;
  Rng g(seed() * 83 + 7);
  for (long n = 0; n < scale(300, 3000); n++) {
    begin("geom"); cur() = "geom";
    size_t L = (size_t)g.in(1, 6); std::vector<RobotLink> links; std::vector<RobotJoint> joints; SimpleLinkedConfiguration start; std::vector<double> w;
    std::vector<std::string> ln, gn; for (size_t k = 0; k < L; k++) { ln.push_back("l" + std::to_string(k)); links.emplace_back(ln[k]); }
    for (size_t k = 1; k < L; k++) { SimpleJointModel j({-3, 3}, 0, SimpleJointModel::PRISMATIC); joints.emplace_back(Isometry3d::Identity(), Vector3d::UnitX(), g.below((long)k), (long)k, j, "j" + std::to_string(k)); start.push_back(j); w.push_back(1); }
    gn = ln; long bad = g.below(10); if (bad == 0) gn.pop_back(); else if (bad == 1) gn.push_back("l9"); else if (bad == 2 && L > 1) std::swap(gn[0], gn[(size_t)g.in(1, (long)L - 1)]); else if (bad == 3) gn[(size_t)g.below((long)L)] += "x";
    std::vector<std::pair<std::string, PS>> geos; VL tags; for (size_t k = 0; k < gn.size(); k++) { auto v = std::make_shared<EigenHelpers::VectorVector4d>(1, Vector4d((double)(100 + 7 * k), 0, 0, 1)); tags.push_back(100 + 7 * (long)k); geos.emplace_back(gn[k], PS(k % 2 ? PS::SPHERES : PS::POINTS, v)); }
    std::vector<std::pair<size_t, size_t>> allowed; VV al; bool wide = g.chance(.2); for (long k = g.chance(.2) ? 0 : g.in(0, 8); k > 0; k--) { size_t a = (size_t)g.below((long)L + (wide ? 2 : 0)), b = (size_t)g.below((long)L + (wide ? 1 : 0)); allowed.emplace_back(a, b); al.push_back(VL{(long)a, (long)b}); }
    std::unique_ptr<R> r; int res = vt::guarded([&] { r.reset(new R(Isometry3d::Identity(), links, joints, start, w, geos, allowed)); });
    auto table = [&](const R& q) { VV t; for (size_t a = 0; a < L; a++) { VL row; for (size_t b = 0; b < L; b++) row.push_back(q.CheckIfSelfCollisionAllowed(a, b)); t.push_back(row); } return t; };
    auto beyond = [&](const R& q) { VL o; for (auto& ab : {std::make_pair(L, (size_t)0), std::make_pair((size_t)0, L), std::make_pair(L, L), std::make_pair(L + 5, L + 5), std::make_pair((size_t)-1, (size_t)0)}) o.push_back(vt::guarded([&] { q.CheckIfSelfCollisionAllowed(ab.first, ab.second); })); return o; };
    auto shapes = [&](const R& q) { VL o; std::vector<std::string> nm; for (auto& x : q.GetLinkGeometries()) { nm.push_back(x.first); o.push_back(x.second.Geometry()->size() == 1 && (x.second.GeometryType() == PS::SPHERES) == (o.size() % 2 == 1) ? std::lround((*x.second.Geometry())[0](0)) : (long)BAD); } if (nm != ln) o.push_back(BAD); return o; };
    Ev("gmk").f("links", ln).f("geos", gn).f("al", al).f("res", res).f("map", r ? table(*r) : VV{}).f("past", r ? beyond(*r) : VL{}).f("tags", tags).f("got", r ? shapes(*r) : VL{}).emit();
    if (!r) continue;
    for (long k = g.in(0, 4); k > 0; k--) {
      long what = g.below(3);
      if (what == 0) { std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<SimpleLinkedConfiguration, SimpleLinkedConfigAlloc>> c(r->Clone()); R* q = dynamic_cast<R*>(c.get()); bool same = q != nullptr; if (same) { c.release(); r.reset(q); } Ev("gdo").f("same", same).f("map", table(*r)).f("past", beyond(*r)).f("got", shapes(*r)).emit(); }
      else { auto c = start; for (auto& j : c) j.SetValue((double)g.in(-3, 3)); if (what == 1) r->SetPosition(c); else r->UpdateBaseTransform(quarter(g, 3).p); Ev("gdo").f("same", true).f("map", table(*r)).f("past", beyond(*r)).f("got", shapes(*r)).emit(); }
    }
    // one body: nothing is forbidden
    PointSphereBasicSE2Robot a(Vector3d(0, 0, 0), 1, 1, "one", geos.empty() ? PS() : geos[0].second); MeshFilenameBasicSE3Robot b(Isometry3d::Identity(), 1, 1, "two", MeshGeometry<std::string>(Isometry3d::Identity(), Vector3d(1, 2, 3), "mesh"));
    VL yes; for (size_t p = 0; p < 3; p++) for (size_t q = 0; q < 3; q++) { yes.push_back(a.CheckIfSelfCollisionAllowed(p, q)); yes.push_back(b.CheckIfSelfCollisionAllowed(p, q)); }
    Ev("gone").f("yes", yes).f("na", (long)a.GetLinkGeometries().size()).f("nb", (long)b.GetLinkGeometries().size()).f("a", a.GetLinkGeometries().at(0).first).f("b", b.GetLinkGeometries().at(0).first).f("mesh", b.GetLinkGeometries().at(0).second.Mesh()).f("sc", VL{enc(b.GetLinkGeometries().at(0).second.Scale()(0)), enc(b.GetLinkGeometries().at(0).second.Scale()(1)), enc(b.GetLinkGeometries().at(0).second.Scale()(2))}).f("same", geos.empty() || a.GetLinkGeometries().at(0).second.Geometry() == geos[0].second.Geometry()).emit();
  }
}
// ---- arms
struct Arm { std::string name; std::vector<std::string> joints, links; std::function<EigenHelpers::VectorIsometry3d(const std::vector<double>&, const Isometry3d*)> v; std::function<EigenHelpers::VectorIsometry3d(const std::map<std::string, double>&, const Isometry3d*)> m;
  std::function<EigenHelpers::MapStringIsometry3d(const std::vector<double>&, const Isometry3d*)> mv; std::function<EigenHelpers::MapStringIsometry3d(const std::map<std::string, double>&, const Isometry3d*)> mm; };
#define FOUR(NS) a.v = [](const std::vector<double>& q, const Isometry3d* b) { return b ? NS::GetLinkTransforms(q, *b) : NS::GetLinkTransforms(q); }; a.m = [](const std::map<std::string, double>& q, const Isometry3d* b) { return b ? NS::GetLinkTransforms(q, *b) : NS::GetLinkTransforms(q); }; \
  a.mv = [](const std::vector<double>& q, const Isometry3d* b) { return b ? NS::GetLinkTransformsMap(q, *b) : NS::GetLinkTransformsMap(q); }; a.mm = [](const std::map<std::string, double>& q, const Isometry3d* b) { return b ? NS::GetLinkTransformsMap(q, *b) : NS::GetLinkTransformsMap(q); };
static std::vector<Arm> arms() {
  std::vector<Arm> o; Arm a;
  a.name = "iiwa_7"; a.joints.clear(); a.links.clear(); for (int k = 1; k <= 7; k++) a.joints.push_back("iiwa_joint_" + std::to_string(k)); for (int k = 0; k <= 7; k++) a.links.push_back("iiwa_link_" + std::to_string(k)); FOUR(IIWA_7_FK_FAST) o.push_back(a);
  a.name = "iiwa_14"; FOUR(IIWA_14_FK_FAST) o.push_back(a);
  a.name = "irb1600"; a.joints.clear(); a.links.clear(); for (int k = 1; k <= 6; k++) a.joints.push_back("joint_" + std::to_string(k)); for (int k = 0; k <= 7; k++) a.links.push_back("link_" + std::to_string(k)); FOUR(ABB_IRB1600_145_FK_FAST) o.push_back(a);
  a.name = "ur_10"; a.joints = {"shoulder_pan_joint", "shoulder_lift_joint", "elbow_joint", "wrist_1_joint", "wrist_2_joint", "wrist_3_joint"}; a.links = {"base_link", "shoulder_link", "upper_arm_link", "forearm_link", "wrist_1_link", "wrist_2_link", "wrist_3_link"}; FOUR(UR_10_FK_FAST) o.push_back(a);
  return o;
}
static void run_arms() {
  Rng g(seed() * 89 + 8); auto all = arms(); auto gen = gen_lines();
  auto one = [&](const Arm& a, const VL& cs, const VL& turns, bool based, const P& base, const VL& given) {
    std::vector<double> q; std::map<std::string, double> m; for (size_t k = 0; k < cs.size(); k++) { q.push_back(ang(cs[k]) + 2 * M_PI * (double)turns[k]); if (given[k]) m[a.joints[k]] = q[k]; } if (g.chance(.2)) m["other"] = 1;
    const Isometry3d* b = based ? &base.p : nullptr;
    auto list = [](const EigenHelpers::VectorIsometry3d& v) { VV o; for (auto& p : v) o.push_back(flat(p, 1e4, 1e6)); return o; };
    auto named = [&](const EigenHelpers::MapStringIsometry3d& v) { VV o; for (auto& l : a.links) { auto it = v.find(l); if (it != v.end()) o.push_back(flat(it->second, 1e4, 1e6)); } if (v.size() != a.links.size()) o.push_back(VL{BAD}); return o; };
    cur() = a.name;
    Ev("arm").f("arm", a.name).f("v", cs).f("in", given).f("R", based ? base.R : VV{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}).f("t", based ? base.t : VL{0, 0, 0}).f("vec", list(a.v(q, b))).f("map", list(a.m(m, b))).f("nvec", named(a.mv(q, b))).f("nmap", named(a.mm(m, b))).emit();
  };
  begin("arms");
  for (auto& l : gen) { VL z = ints(l); if (z.size() < 7) continue; const Arm& a = all[(size_t)z[0] - 1]; VL cs; for (size_t k = 0; k < a.joints.size(); k++) cs.push_back(6 + 3 * (z[k + 1] % 4 == 3 ? -1 : z[k + 1] % 4)); one(a, cs, VL(cs.size(), 0), false, P{{}, {}, Isometry3d::Identity()}, VL(cs.size(), 1)); }
  for (long n = 0; n < scale(400, 6000); n++) {
    const Arm& a = g.pick(all); VL cs, tn, gv; bool part = g.chance(.4); long rest = 3;
    for (size_t k = 0; k < a.joints.size(); k++) { cs.push_back(g.chance(.4) ? g.in(1, 12) : 3 * g.in(1, 4)); if (cs.back() % 3 && --rest < 0) cs.back() = 3 * g.in(1, 4); tn.push_back(g.chance(.15) ? g.in(-2, 2) : 0); gv.push_back(part && g.chance(.4) ? 0 : 1); }
    one(a, cs, tn, g.chance(.6), quarter(g, 9, .1), gv);
  }
}
int main(int, char** a) {
  vt::open();
  std::string m = a[1];
  if (m == "plane") run_plane(); else if (m == "space") run_space(); else if (m == "geom") run_geom(); else if (m == "arms") run_arms(); else return 97;
  vt::done();
}
