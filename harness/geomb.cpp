// H01 rotations, twists and poses; H02 projections, planes, least squares; W01 thin plate splines
#include <fstream>
#include "arc_utilities/eigen_helpers.hpp"
#include <unsupported/Eigen/MatrixFunctions>
#include "arc_utilities/thin_plate_spline.hpp"
#include "trace.hpp"
using namespace vt;
namespace EH = EigenHelpers;
using VL = std::vector<long>;
using VV = std::vector<VL>;
using Eigen::Vector3d; using Eigen::Matrix3d; using Eigen::Isometry3d; using Eigen::Quaterniond; using Eigen::VectorXd; using Eigen::MatrixXd;
static const VV CS5{{5, 0}, {0, 5}, {-5, 0}, {0, -5}, {4, 3}, {3, 4}, {4, -3}, {3, -4}, {-4, 3}, {-3, 4}, {-4, -3}, {-3, -4}};
static double ang(const VL& c) { return std::atan2((double)c[1], (double)c[0]); }
template <typename V> static VL fv(const V& v, double s) { VL o; for (long k = 0; k < (long)v.size(); k++) o.push_back(fix((double)v(k), s)); return o; }
template <typename M> static VV fm(const M& m, double s) { VV o; for (long i = 0; i < m.rows(); i++) { VL r; for (long j = 0; j < m.cols(); j++) r.push_back(fix((double)m(i, j), s)); o.push_back(r); } return o; }
static VL ivec(Rng& g, size_t n, long m) { VL v; for (size_t k = 0; k < n; k++) v.push_back(g.in(-m, m)); return v; }
static Vector3d v3(const VL& v) { return Vector3d(v[0], v[1], v[2]); }
static VectorXd vx(const VL& v) { VectorXd o(v.size()); for (size_t k = 0; k < v.size(); k++) o((long)k) = (double)v[k]; return o; }
static Matrix3d rot3(const VV& c) { return (Eigen::AngleAxisd(ang(c[0]), Vector3d::UnitX()) * Eigen::AngleAxisd(ang(c[1]), Vector3d::UnitY()) * Eigen::AngleAxisd(ang(c[2]), Vector3d::UnitZ())).toRotationMatrix(); }
static Isometry3d pose(const VV& c, const VL& t) { Isometry3d p = Isometry3d::Identity(); p.linear() = rot3(c); p.translation() = v3(t); return p; }
static VV cs3(Rng& g) { return VV{g.pick(CS5), g.pick(CS5), g.pick(CS5)}; }
static VV pmat(const Isometry3d& p, double s) { return fm(MatrixXd(p.matrix().topRows(3)), s); }
static const std::vector<VL> AX{{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}, {-1, 0, 0, 1}, {0, 0, -1, 1}, {1, 2, 2, 3}, {2, -1, 2, 3}, {-2, 2, 1, 3}};

// the laws are homogeneous: sometimes everything is scaled by a power of two, and the results are scaled back
static double unit(Rng& g) { static const VL e{-30, -16, -8, 9, 20, 34}; return g.chance(.55) ? 1. : std::ldexp(1., (int)g.pick(e)); }
static void run_pose() {
  Rng g(seed() * 47 + 5);
  for (long n = 0; n < scale(150, 2000); n++) {
    begin("pose");
    { VV c = cs3(g); double R = ang(c[0]), P = ang(c[1]), Y = ang(c[2]); VL t = ivec(g, 3, 20);
      cur() = "rpy " + js(c);
      if (g.chance(.3)) { R += 2 * M_PI * (double)g.in(-2, 2); Y -= 2 * M_PI * (double)g.in(-2, 2); }
      Quaterniond q = EH::QuaternionFromRPY(R, P, Y), u = EH::QuaternionFromUrdfRPY(R, P, Y);
      VectorXd six(6); six << v3(t), R, P, Y;
      Isometry3d a = EH::TransformFromRPY((double)t[0], (double)t[1], (double)t[2], R, P, Y), b = EH::TransformFromRPY(v3(t), Vector3d(R, P, Y)), d = EH::TransformFromRPY(six);
      Vector3d e1 = EH::EulerAnglesFromRotationMatrix(q.toRotationMatrix()), e2 = EH::EulerAnglesFromQuaternion(q), e3 = EH::EulerAnglesFromIsometry3d(a); VectorXd e4 = EH::TransformToRPY(a);
      Isometry3d back = EH::TransformFromRPY(e4);
      Ev("rpy").f("c", c).f("t", t).f("q", fm(q.toRotationMatrix(), 1e5)).f("u", fm(u.toRotationMatrix(), 1e5)).f("p", std::vector<VV>{pmat(a, 1e5), pmat(b, 1e5), pmat(d, 1e5), pmat(back, 1e5)})
          .f("e", std::vector<VV>{fm(EH::QuaternionFromRPY(e1(0), e1(1), e1(2)).toRotationMatrix(), 1e5), fm(EH::QuaternionFromRPY(e2(0), e2(1), e2(2)).toRotationMatrix(), 1e5), fm(EH::QuaternionFromRPY(e3(0), e3(1), e3(2)).toRotationMatrix(), 1e5)}).emit();
      VL v = ivec(g, 3, 6); double s = g.chance(.5) ? 1 : g.chance(.5) ? 2 : -0.5; Quaterniond qs(q.w() * s, q.x() * s, q.y() * s, q.z() * s);
      Ev("rotv").f("c", c).f("v", v).f("f", fv(EH::RotateVector(qs, v3(v)), 1e5)).f("r", fv(EH::RotateVectorReverse(qs, v3(v)), 1e5)).emit(); }
    { VL v = ivec(g, 3, 9), u = ivec(g, 3, 9), tw = ivec(g, 6, 9); Matrix3d m; VV ml; for (int a = 0; a < 3; a++) { ml.push_back(ivec(g, 3, 9)); for (int b = 0; b < 3; b++) m(a, b) = (double)ml.back()[(size_t)b]; }
      Eigen::Matrix<double, 6, 1> t6 = vx(tw); Eigen::Matrix4d h = EH::TwistHat(t6);
      Ev("skew").f("v", v).f("m", ml).f("tw", tw).f("s", fm(EH::Skew(v3(v)), 1)).f("un", fv(EH::Unskew(EH::Skew(v3(v))), 1)).f("um", fv(EH::Unskew(m), 2)).f("hat", fm(h, 1)).f("unhat", fv(EH::TwistUnhat(h), 1)).emit(); }
    { VV c = cs3(g); VL t = ivec(g, 3, 3), tw = ivec(g, 6, 3); const double S = unit(g); Isometry3d p = pose(c, t); p.translation() *= S; Eigen::Affine3d pa(p.matrix()); Eigen::Matrix<double, 6, 1> t6 = vx(tw); t6.head<3>() *= S;
      auto ub = [&](Eigen::Matrix<double, 6, 6> m) { m.block<3, 3>(0, 3) /= S; return MatrixXd(m); }; auto ut = [&](Eigen::Matrix<double, 6, 1> v) { v.head<3>() /= S; return v; };
      cur() = "adjoint " + js(c) + js(t) + " times " + std::to_string(S);
      Ev("adj").f("c", c).f("t", t).f("tw", tw).f("m", fm(ub(EH::AdjointFromTransform(p)), 1e5)).f("ma", fm(ub(EH::AdjointFromTransform(pa)), 1e5)).f("r", fv(ut(EH::TransformTwist(p, t6)), 1e5)).f("ra", fv(ut(EH::TransformTwist(pa, t6)), 1e5)).emit(); }
    { VL a = g.pick(AX), c = g.pick(CS5); long s = g.pick(VL{1, 2, 4}); VL v = ivec(g, 3, 4); for (auto& x : v) x *= s;
      double th = ang(c) + (g.chance(.2) ? 2 * M_PI : 0), dt = th / (double)s; if (g.chance(.2)) { th = 0; c = CS5[0]; dt = 0; }
      Eigen::Matrix<double, 6, 1> tw; tw << v3(v), Vector3d(a[0], a[1], a[2]) * ((double)s / (double)a[3]);
      const double K = unit(g);   // slow and long, or fast and short
      cur() = "exp " + js(v) + js(a) + " dt " + std::to_string(dt);
      Ev("exp").f("a", VL{a[0], a[1], a[2]}).f("n", a[3]).f("c", c).f("s", s).f("v", v).f("th", fix(th, 1e4)).f("p", pmat(EH::ExpTwist(tw / K, dt * K), 1e5)).emit();
      Eigen::Matrix<double, 6, 1> still; still << v3(v), Vector3d::Zero(); long d4 = g.in(-8, 8);
      Ev("shift").f("v", v).f("d", d4).f("p", pmat(EH::ExpTwist(still, (double)d4 / 4), 4)).emit(); }
    { VV c = cs3(g), d = cs3(g); VL t = ivec(g, 3, 5), u = ivec(g, 3, 5); Isometry3d p = pose(c, t), q = pose(d, u);
      if (g.chance(.15)) { q = p; q.translation() = v3(u); d = c; }
      double tr = (p.linear().transpose() * q.linear()).trace();
      if (tr > -0.9) { cur() = "twist between " + js(c) + js(d);
        Eigen::Matrix<double, 6, 1> tw = EH::TwistBetweenTransforms(p, q); Isometry3d r = p * EH::ExpTwist(tw, 1.0), h = EH::ExpTwist(tw, 0.5);
        Ev("between").f("d", d).f("u", u).f("p", pmat(r, 1e5)).f("h", pmat(p * h * h, 1e5)).f("w", fix(tw.segment<3>(3).norm(), 1e5)).emit(); } }
    { // interpolation between R0 and R0 turned by m small angles about axis k
      static const VV Q4{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; VV c{g.pick(Q4), g.pick(Q4), g.pick(Q4)}; long k = g.in(1, 3), m = g.in(1, 4), sg = g.chance(.5) ? 1 : -1; VL t = ivec(g, 3, 20), u = ivec(g, 3, 20);
      Matrix3d R0 = rot3(c), R1 = R0 * Eigen::AngleAxisd((double)(sg * m) * std::atan2(3., 4.), Vector3d::Unit(k - 1)).toRotationMatrix();
      Isometry3d p = Isometry3d::Identity(), q = p; p.linear() = R0; p.translation() = v3(t); q.linear() = R1; q.translation() = v3(u);
      long j = g.in(-1, m + 1); double r = (double)j / (double)m; Quaterniond q0(R0), q1(R1); if (g.chance(.4)) q1.coeffs() = -q1.coeffs();
      cur() = "interpolate " + js(c) + " " + std::to_string(r);
      VL a = ivec(g, 4, 50), b = ivec(g, 4, 50); VectorXd av = vx(a), bv = vx(b), sh = vx(ivec(g, 3, 5)); bool thrown = vt::guarded([&] { EH::Interpolate(av, sh, .5); }) == 1;
      std::vector<double> sa, sb; for (long x : a) sa.push_back((double)x); for (long x : b) sb.push_back((double)x);
      VectorXd iv = EH::Interpolate(av, bv, r); auto isv = EH::Interpolate(sa, sb, r); VL isl; for (double x : isv) isl.push_back(fix(x, 1e5)); sb.pop_back(); bool refused = EH::Interpolate(sa, sb, .5).empty();
      Ev("interp").f("c", c).f("k", k).f("sg", sg).f("m", m).f("j", j).f("t", t).f("u", u).f("p", pmat(EH::Interpolate(p, q, r), 1e4)).f("q", fm(EH::Interpolate(q0, q1, r).toRotationMatrix(), 1e4))
          .f("a", a).f("b", b).f("v", std::vector<VL>{fv(iv, 1e5), isl}).f("s", VL{fix(EH::Interpolate((double)a[0], (double)b[0], r), 1e5)}).f("thrown", thrown).f("refused", refused).emit();
      { // a small turn, one way or the other round: the turn left over from the start, in millionths
        long d = g.in(-30, 30), r4 = g.in(-1, 5); double dd = (double)d / 1000., rr = (double)r4 / 4; Matrix3d R2 = R0 * Eigen::AngleAxisd(dd, Vector3d::Unit(k - 1)).toRotationMatrix(); Quaterniond q2(R2); if (g.chance(.5)) q2.coeffs() = -q2.coeffs();
        Isometry3d p2 = p; p2.linear() = R2; cur() = "interpolate a small turn";
        auto left = [&](const Matrix3d& M) { Matrix3d D = R0.transpose() * M; return VL{fix((D(2, 1) - D(1, 2)) / 2, 1e6), fix((D(0, 2) - D(2, 0)) / 2, 1e6), fix((D(1, 0) - D(0, 1)) / 2, 1e6)}; };
        Ev("inear").f("k", k).f("d", d).f("r", r4).f("l", VV{left(EH::Interpolate(q0, q2, rr).toRotationMatrix()), left(EH::Interpolate(p, p2, rr).linear())}).emit();
        VL s{g.in(-20, 20), g.in(-20, 20), g.in(-20, 20)}; double a0 = (double)s[0] / 1e5, a1 = (double)s[1] / 1e5, a2 = (double)s[2] / 1e5; cur() = "small angles " + js(s);
        auto skew = [&](const Matrix3d& D) { return VL{fix((D(2, 1) - D(1, 2)) / 2, 1e7), fix((D(0, 2) - D(2, 0)) / 2, 1e7), fix((D(1, 0) - D(0, 1)) / 2, 1e7)}; };
        Quaterniond qs = EH::QuaternionFromRPY(a0, a1, a2); Vector3d es = EH::EulerAnglesFromRotationMatrix(qs.toRotationMatrix()); for (int z = 0; z < 3; z++) es(z) = std::remainder(es(z), 2 * M_PI);
        Ev("rtiny").f("s", s).f("m", VV{skew(qs.toRotationMatrix()), skew(EH::QuaternionFromUrdfRPY(a0, a1, a2).toRotationMatrix()), skew(EH::TransformFromRPY(0., 0., 0., a0, a1, a2).linear()), skew(EH::QuaternionFromRPY(es(0), es(1), es(2)).toRotationMatrix())}).emit(); }
      // distances
      static const VV steps{{3, 4, 0, 5}, {1, 2, 2, 3}, {2, 3, 6, 7}, {0, 0, 0, 0}, {-8, 1, 4, 9}}; VL st = g.pick(steps); Isometry3d w = q; w.translation() = p.translation() + Vector3d(st[0], st[1], st[2]); long al = g.in(0, 4);
      double al4 = (double)al / 4;
      Ev("rdist").f("m", m).f("st", st[3]).f("al", al).f("q", VL{fix(EH::Distance(q0, q1), 1e5), fix(EH::Distance(q1, q0), 1e5)}).f("r", VL{fix(EH::Distance(R0, R1), 1e5), fix(EH::Distance(R1, R0), 1e5)})
          .f("i", VL{fix(EH::Distance(p, w, al4), 1e5), fix(EH::Distance(w, p, al4), 1e5)}).f("half", fix(EH::Distance(p, w), 1e5)).emit();
      Quaterniond x((double)g.in(-50, 50), (double)g.in(-50, 50), (double)g.in(-50, 50), (double)g.in(1, 50)); x.normalize(); Quaterniond y = x; y.coeffs() = -y.coeffs(); Matrix3d X = x.toRotationMatrix(), Z = Eigen::AngleAxisd(M_PI, Vector3d::Unit(k - 1)).toRotationMatrix(), XZ = X * Z; Quaterniond xz(XZ);
      cur() = "distance of equal and opposite rotations " + js(fm(X, 1e6));
      Ev("same").f("z", VL{fix(EH::Distance(x, y), 1e5), fix(EH::Distance(x, x), 1e5), fix(EH::Distance(X, X), 1e5)}).f("pi", VL{fix(EH::Distance(X, XZ), 1e5), fix(EH::Distance(x, xz), 1e5)}).emit(); }
  }
}

// ------------------------------------------------------------------ H02
static void run_lin() {
  Rng g(seed() * 53 + 6);
  static const VV quad{{1, 2, 2, 3}, {2, 3, 6, 7}, {3, 4, 0, 5}, {0, 1, 0, 1}, {-2, 1, 2, 3}, {0, 0, -1, 1}, {6, -3, 2, 7}, {4, 4, 7, 9}, {0, -3, 4, 5}};
  for (long n = 0; n < scale(150, 1500); n++) {
    begin("lin");
    { size_t d = (size_t)g.in(2, 5); VL b = ivec(g, d, 6), v = ivec(g, d, 9), o = ivec(g, d, 5); if (g.chance(.1)) b.assign(d, 0); VectorXd B = vx(b), V = vx(v);
      const double S = unit(g), S2 = unit(g); cur() = "project " + js(b) + js(v) + " times " + std::to_string(S) + ", " + std::to_string(S2);
      Ev("proj").f("b", b).f("v", v).f("p", fv(VectorXd(EH::VectorProjection(VectorXd(B * S2), VectorXd(V * S)) / S), 1e4)).f("r", fv(VectorXd(EH::VectorRejection(VectorXd(B * S2), VectorXd(V * S)) / S), 1e4)).emit();
      bool any = false; for (long z : b) any |= z != 0;
      if (any) { EH::Hyperplane h(VectorXd(vx(o) * S), B); V *= S;
        Ev("plane").f("o", o).f("n", b).f("x", v).f("dim", (long)h.GetDimensionality()).f("ho", fv(VectorXd(h.GetOrigin() / S), 1)).f("hn", fv(h.GetNormal(), 1)).f("raw", enc(h.GetRawDotProduct(V) / S)).f("d2", fix(h.GetSquaredDistanceToPlane(V) / S / S, 100)).f("d", fix(h.GetDistanceToPlane(V) / S, 100))
            .f("pv", fv(VectorXd(h.ProjectVectorOntoPlane(V) / S), 1e4)).f("rv", fv(VectorXd(h.RejectVectorOntoPlane(V) / S), 1e4)).f("pp", fv(VectorXd(h.ProjectPointOntoPlane(V) / S), 1e4)).f("nd", fix(h.GetNormedDotProduct(V), 1e4)).f("cd", fix((V / S - vx(o)).norm() > 0 ? (V / S - vx(o)).dot(B) / (V / S - vx(o)).norm() : 0., 1e4)).emit(); } }
    { VL a = ivec(g, 3, 4), b = ivec(g, 3, 4), v = ivec(g, 3, 8); Vector3d A = v3(a), B = v3(b), V = v3(v); if (g.chance(.15)) { long k = g.pick(VL{-2, -1, 1, 2}); b = a; for (auto& x : b) x *= k; B = v3(b); }
      else if (g.chance(.15)) { long k = g.pick(VL{-500, -100, 60, 300}), e = g.below(3); b = a; for (auto& x : b) x *= k; b[(size_t)e] += 1; B = v3(b); }   // nearly along the same line
      if (A.norm() > 0 && B.norm() > 0) { const double S = unit(g); Vector3d r(0, 0, 0); int res = vt::guarded([&] { r = EH::VectorProjectionToPlane(Vector3d(A * S), Vector3d(B * S), Vector3d(V * S)) / S; });
        cur() = "project to plane"; Ev("toplane").f("a", a).f("b", b).f("v", v).f("res", res).f("r", fv(r, 1e4)).emit(); } }
    { VL o = ivec(g, 3, 9), u = g.pick(quad), x = ivec(g, 3, 9); if (g.chance(.15)) { long k = g.in(-2, 2); for (size_t c = 0; c < 3; c++) x[c] = o[c] + k * u[c]; } Vector3d U = Vector3d(u[0], u[1], u[2]) / (double)u[3];
      cur() = "line " + js(o) + js(u) + js(x);
      const double S = unit(g); auto r = EH::DistanceToLine(Vector3d(v3(o) * S), U, Vector3d(v3(x) * S)); r.first /= S; r.second /= S;
      Ev("line").f("o", o).f("u", u).f("x", x).f("d", fix(r.first, 100)).f("along", fix(r.second, 1e4)).emit(); }
    { VL a = g.pick(quad), c = g.pick(quad), b = ivec(g, 3, 9); if (g.chance(.2)) { c = a; if (g.chance(.5)) for (size_t k = 0; k < 3; k++) c[k] = -c[k]; } long ka = g.in(1, 3), kc = g.in(1, 3);
      const double S = unit(g); double th = EH::AngleDefinedByPoints(Vector3d(S * (v3(b) + ka * Vector3d(a[0], a[1], a[2]))), Vector3d(S * v3(b)), Vector3d(S * (v3(b) + kc * Vector3d(c[0], c[1], c[2]))));
      Ev("angle").f("a", a).f("c", c).f("th", fix(th, 1e4)).f("cos", fix(std::cos(th), 1e4)).emit(); }
    { Vector3d dir(g.in(-9, 9), g.in(-9, 9), g.in(-9, 9)), o3 = v3(ivec(g, 3, 9)); if (dir.norm() > 0) { dir /= 7.; long ka = g.in(1, 9), kc = g.in(1, 9) * (g.chance(.5) ? 1 : -1);   // along one line
        Ev("aline").f("same", kc > 0).f("th", fix(EH::AngleDefinedByPoints(Vector3d(o3 + (double)ka * dir), o3, Vector3d(o3 + (double)kc * dir)), 1e4)).emit(); } }
    { size_t d = (size_t)g.in(1, 5); VL a = ivec(g, d, 6), b = ivec(g, d, 6), w; for (size_t k = 0; k < d; k++) w.push_back(g.in(1, 4)); if (g.chance(.2)) b = a; VectorXd A = vx(a), B = vx(b), W = vx(w);
      bool ok = A.norm() > 0 && B.norm() > 0; double cw = ok ? EH::WeightedCosineAngleBetweenVectors(A, B, W) : 0, aw = ok ? EH::WeightedAngleBetweenVectors(A, B, W) : 0;
      Ev("wdot").f("a", a).f("b", b).f("w", w).f("dot", enc(EH::WeightedDotProduct(A, B, W))).f("sq", enc(EH::WeightedSquaredNorm(A, W))).f("n", fix(EH::WeightedNorm(A, W), 100)).f("ok", ok).f("c", fix(cw, 100)).f("ac", fix(std::cos(aw), 100)).f("th", fix(aw, 1e4)).emit();
      const double S = unit(g); VL q = g.pick(quad); long k = g.in(0, 3), mx = g.in(1, 12); VectorXd v(3); v << (double)(k * q[0]), (double)(k * q[1]), (double)(k * q[2]);
      Ev("clamp").f("q", q).f("k", k).f("mx", mx).f("r", fv(VectorXd(EH::ClampNorm(VectorXd(v * S), (double)mx * S) / S), 1e4)).f("sn", fv(EH::SafeNormal(VectorXd(v * S)), 1e4)).emit(); }
    { // plane through points that lie in it, and of scattered points
      VL q = g.pick(quad), o = ivec(g, 3, 9); size_t m = (size_t)g.in(4, 8); Vector3d N(q[0], q[1], q[2]); Vector3d e1 = N.cross(std::abs(q[0]) > std::abs(q[2]) ? Vector3d::UnitZ() : Vector3d::UnitX()), e2 = N.cross(e1);
      std::vector<VectorXd> pts; VV pl; bool flat = g.chance(.5);
      for (size_t k = 0; k < m; k++) { Vector3d p = v3(o) + (k < 3 ? (double)(k == 1) : (double)g.in(-2, 2)) * e1 + (k < 3 ? (double)(k == 2) : (double)g.in(-2, 2)) * e2; if (!flat) p = Vector3d(g.in(-9, 9), g.in(-9, 9), g.in(-3, 3)); pts.push_back(p); pl.push_back(VL{enc(p(0)), enc(p(1)), enc(p(2))}); }
      cur() = "fit plane " + js(pl);
      const double S = unit(g); for (auto& p : pts) p *= S; EH::Hyperplane h = EH::FitPlaneToPoints(pts);
      Ev("fit").f("flat", flat).f("q", q).f("p", pl).f("o", fv(VectorXd(h.GetOrigin() / S), 1e4)).f("n", fv(h.GetNormal(), 1e3)).emit(); }
    { // pseudo inverse and least squares
      size_t r = (size_t)g.in(1, 4), c = (size_t)g.in(1, 4); VV a; for (size_t k = 0; k < r; k++) a.push_back(ivec(g, c, 3)); if (r > 1 && g.chance(.4)) { a[r - 1] = a[0]; if (r > 2) for (size_t k = 0; k < c; k++) a[r - 1][k] = a[0][k] - a[1][k]; }
      MatrixXd A(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) A((long)i, (long)j) = (double)a[i][j];
      VectorXd sv = Eigen::JacobiSVD<MatrixXd>(A).singularValues(); bool fine = true, full = true; for (long k = 0; k < sv.size(); k++) { if (sv(k) > 1e-9 && sv(k) < .3) fine = false; if (sv(k) < 1e-9) full = false; }
      cur() = "pseudo inverse of " + js(a);
      if (fine) { MatrixXd X = EH::Pinv(A, EH::SuggestedRcond()), Y = EH::Pinv(A, 1e-6, false);
        if (X.cwiseAbs().maxCoeff() < 4) Ev("pinv").f("a", a).f("x", fm(X, 1e4)).f("y", fm(Y, 1e4)).emit(); }
      VL b = ivec(g, r, 5), w; for (size_t k = 0; k < r; k++) w.push_back(g.chance(.15) ? 0 : g.in(1, 3));
      auto limit = [&](double s) { return s < .3 || g.chance(.4) ? .1 : s * (g.chance(.5) ? .9995 : 1.0005); };   // damping starts below the limit
      long dv = g.in(1, 4); MatrixXd W = vx(w).asDiagonal(); double smin = Eigen::JacobiSVD<MatrixXd>(MatrixXd(A.transpose() * W * A)).singularValues().minCoeff();
      if (r >= c && (smin < 1e-9 || smin > .3)) { cur() = "weighted least squares"; const double lim = limit(smin); VectorXd x = EH::WeightedLeastSquaresSolver(A, vx(b), vx(w), lim, (double)dv);
        if (x.cwiseAbs().maxCoeff() < 20) Ev("wls").f("a", a).f("b", b).f("w", w).f("damp", smin < lim ? dv : 0L).f("x", fv(x, 1e4)).emit(); }
      double um = Eigen::JacobiSVD<MatrixXd>(MatrixXd(A * A.transpose())).singularValues().minCoeff();
      if (c > r && (um < 1e-9 || um > .3)) { cur() = "underdetermined"; const double lim = limit(um); VectorXd x = EH::UnderdeterminedSolver(A, vx(b), lim, (double)dv);
        VectorXd y = Eigen::MatrixXd(A * A.transpose() + (um < lim ? (double)dv : 0.) * MatrixXd::Identity((long)r, (long)r)).fullPivLu().solve(vx(b));
        if (x.cwiseAbs().maxCoeff() < 20 && y.cwiseAbs().maxCoeff() < 20) Ev("under").f("a", a).f("b", b).f("damp", um < lim ? dv : 0L).f("x", fv(x, 1e4)).f("y", fv(y, 1e4)).emit(); } }
    { // pyramid inside a cone
      VL q = g.pick(quad); Vector3d C = Vector3d(q[0], q[1], q[2]) / (double)q[3]; if (g.chance(.15)) C = Vector3d(1, 1, 1).normalized(); if (g.chance(.1)) C = -Vector3d(1, 1, 1).normalized(); long cs = g.pick(VL{4, 3}); 
      cur() = "pyramid in the cone around " + js(fv(C, 1e4));
      auto N = EH::ConvertConeToPyramid(C, (double)cs / 5); VV nl; for (auto& v : N) nl.push_back(fv(v, 1e4));
      VV edge; for (size_t k = 0; k < N.size(); k++) { Vector3d e = N[k].cross(N[(k + 1) % N.size()]).normalized(); if (e.dot(C) < 0) e = -e; edge.push_back(fv(e, 1e4)); }
      Ev("cone").f("c", fv(C, 1e4)).f("cos", cs).f("n", nl).f("e", edge).emit(); }
  }
}

// ------------------------------------------------------------------ W01
// the spline written down directly: kernel weights plus an affine map, fitted to the control points
template <int D> static VV reference(const VV& t, const VV& q, const VV& at) {
  size_t n = t.size(); auto ker = [](const VL& a, const VL& b) { long r2 = 0; for (size_t c = 0; c < a.size(); c++) r2 += (a[c] - b[c]) * (a[c] - b[c]); if (r2 == 0) return 0.; return D == 2 ? .5 * (double)r2 * std::log((double)r2) : -std::sqrt((double)r2); };
  MatrixXd A = MatrixXd::Zero((long)n + D + 1, (long)n + D + 1), B = MatrixXd::Zero((long)n + D + 1, D);
  for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) A((long)i, (long)j) = ker(t[i], t[j]); for (int c = 0; c <= D; c++) A((long)i, (long)n + c) = A((long)n + c, (long)i) = c < D ? (double)t[i][(size_t)c] : 1.; for (int c = 0; c < D; c++) B((long)i, c) = (double)q[i][(size_t)c]; }
  MatrixXd P = A.fullPivLu().solve(B); VV o;
  for (auto& p : at) { VectorXd r = VectorXd::Zero(D); for (size_t j = 0; j < n; j++) r += ker(p, t[j]) * P.row((long)j).transpose(); for (int c = 0; c <= D; c++) r += (c < D ? (double)p[(size_t)c] : 1.) * P.row((long)n + c).transpose(); o.push_back(fv(r, 1e3)); }
  return o;
}
template <int D> static void spline(Rng& g) {
  typedef arc_utilities::ThinPlateSpline<D> S;
  typedef Eigen::Matrix<double, D, Eigen::Dynamic> M;
  begin("tps");
  S s; long have_t = 0, have_q = 0; M T, Q; VV tl, ql;
  auto points = [&](long m, VV& l, bool distinct) { l.clear(); M p(D, m); for (long k = 0; k < m; k++) { VL v; bool ok; int tries = 0; do { v = ivec(g, D, 6); if (D == 3 && k < 4) { VV b{{0, 0, 0}, {5, 0, 0}, {0, 5, 0}, {0, 0, 5}}; v = b[(size_t)k]; } if (D == 2 && k < 3) { VV b{{0, 0}, {5, 0}, {0, 5}}; v = b[(size_t)k]; } ok = true; if (distinct) for (auto& o : l) if (o == v) ok = false; } while (!ok && ++tries < 100); l.push_back(v); for (int c = 0; c < D; c++) p(c, k) = (double)v[(size_t)c]; } return p; };
  for (int step = 0; step < 14; step++) {
    int what = (int)g.below(10);
    if (step == 0 && g.chance(.5)) what = 0;
    if (what <= 1) { tl.clear(); T = points(g.in(D + 1, D + 6), tl, true); s.setTemplatePoints(T); have_t = (long)tl.size(); cur() = "template " + js(tl); Ev("tset").f("what", 0L).f("p", tl).emit(); }
    else if (what <= 3) { long m = have_t && g.chance(.85) ? have_t : g.in(D + 1, D + 6); long mode = g.below(3);
      if (mode == 0 || m != have_t) Q = points(m, ql, false);
      else { VL A = ivec(g, D * D, 2), b = ivec(g, D, 6); ql.clear(); Q = M(D, m); for (long k = 0; k < m; k++) { VL v; for (int r = 0; r < D; r++) { long z = b[(size_t)r]; for (int c = 0; c < D; c++) z += A[(size_t)(r * D + c)] * tl[(size_t)k][(size_t)c]; v.push_back(z); Q(r, k) = (double)z; } ql.push_back(v); } 
        s.setTargetPoints(Q); have_q = m; Ev("tset").f("what", 2L).f("p", ql).f("A", A).f("b", b).emit(); continue; }
      s.setTargetPoints(Q); have_q = m; Ev("tset").f("what", 1L).f("p", ql).emit(); }
    else if (what == 4) { int res = vt::guarded([&] { s.solveForCoeffs(); }); Ev("tsolve").f("res", res).emit(); }
    else if (what == 5 && have_t && have_t == have_q) { s = S(T, Q); Ev("tnew").emit(); }
    else { VV at = g.chance(.5) && have_t ? tl : VV{}; if (at.empty()) { for (long k = 0, m = g.in(1, 4); k < m; k++) at.push_back(ivec(g, D, 8)); } M X(D, (long)at.size()); for (size_t k = 0; k < at.size(); k++) for (int c = 0; c < D; c++) X(c, (long)k) = (double)at[k][(size_t)c];
      M R; cur() = "interpolate at " + js(at); int res = vt::guarded([&] { R = s.interpolate(X); }); VV rl; if (res == 0) for (long k = 0; k < R.cols(); k++) rl.push_back(fv(VectorXd(R.col(k)), 1e3)); Ev("tat").f("x", at).f("res", res).f("r", rl).f("ref", res == 0 ? reference<D>(tl, ql, at) : VV{}).emit(); }
  }
}
static void run_tps() { Rng g(seed() * 59 + 7); for (long n = 0; n < scale(200, 2500); n++) { if (g.chance(.5)) spline<2>(g); else spline<3>(g); } }

int main(int, char** a) {
  vt::open();
  std::string m = a[1];
  if (m == "pose") run_pose(); else if (m == "lin") run_lin(); else if (m == "tps") run_tps(); else return 97;
  vt::done();
}
