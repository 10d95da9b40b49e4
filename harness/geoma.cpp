// Q01 revolute angles, A01 averages and path lengths, A02 rotation and pose averages, H03 containers and distance tables
#include <complex>
#include <cstring>
#include <fstream>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/math_helpers.hpp"
#include "arc_utilities/vector_math.hpp"
#include "arc_utilities/stl_wrappers.hpp"
#include "arc_utilities/enumerate.h"
#include "arc_utilities/hash.hpp"
#include "arc_utilities/eigen_std_conversions.hpp"
#include "trace.hpp"
using namespace vt;
namespace EH = EigenHelpers;
using VL = std::vector<long>;
using VV = std::vector<VL>;
using VD = std::vector<double>;
static Rng* G;

// ------------------------------------------------------------------ Q01
static const double U = M_PI / 8;   // exact multiples: odd part up to 9
static long pick_unit(Rng& g) { long k = g.in(0, 9) | 1; if (k > 9) k = 9; if (g.chance(0.1)) return 0; while (g.chance(0.6) && k < 36) k *= 2; return g.chance(0.5) ? k : -k; }
static long un(double v) { double q = v / U, r = std::floor(q + 0.5); return std::abs(q - r) < 1e-7 && std::abs(r) < 1e6 ? (long)r : BAD; }
static long un4(double v) { double q = v / U * 24, r = std::floor(q + 0.5); return std::abs(q - r) < 1e-6 && std::abs(r) < 1e7 ? (long)r : BAD; }
// an angle a little off a multiple of pi/192: 100000 per multiple, plus the offset in billionths
static long un9(double v) { double q = U / 24, m = std::floor(v / q + 0.5), e = std::floor((v - m * q) * 1e9 + 0.5); return std::abs(m) < 2e4 && std::abs(e) < 4e4 ? (long)m * 100000 + (long)e : BAD; }
static long un_near(double v) { double q = v / U, r = std::floor(q + 0.5); return std::abs(q - r) < 1e-3 && std::abs(r) < 100 ? (long)r : BAD; }
static void run_rev() {
  Rng g(seed() * 31 + 1);
  for (long n = 0; n < scale(40, 400); n++) {
    begin("rev");
    for (int k = 0; k < 25; k++) {
      long a = pick_unit(g), b = pick_unit(g); double A = a * U, B = b * U;
      cur() = "units " + std::to_string(a) + " " + std::to_string(b);
      Ev("uwrap").f("a", a).f("w", un(EH::EnforceContinuousRevoluteBounds(A))).emit();
      Ev("udist").f("a", a).f("b", b).f("sd", un(EH::ContinuousRevoluteSignedDistance(A, B))).f("d", un(EH::ContinuousRevoluteDistance(A, B))).f("back", un(EH::ContinuousRevoluteDistance(B, A)))
          .f("add", un(EH::AddContinuousRevoluteValues(A, B))).f("range", un(EH::GetContinuousRevoluteRange(A, B))).emit();
      long r = g.pick(VL{0, 0, 1, 2, 3, 4, 6, 12, 12, 18, 20, 24, 24, -3, 30});
      Ev("uinterp").f("a", a).f("b", b).f("r", r).f("v", un4(EH::InterpolateContinuousRevolute(A, B, r / 24.0))).emit();
      long c = pick_unit(g), rg = g.in(0, 16);
      if (g.chance(0.3)) c = a + rg + 16 * g.in(-1, 1);
      Ev("urange").f("a", a).f("r", rg).f("v", c).f("in", EH::CheckInContinuousRevoluteRange(A, rg * U, c * U)).emit();
      Ev("ubounds").f("a", a).f("b", b).f("v", c).f("in", EH::CheckInContinuousRevoluteBounds(A, B, c * U)).emit();
    }
    for (int k = 0; k < 25; k++) {   // a hair away from round angles
      long a = g.in(-36, 36), b = g.chance(0.5) ? a + 8 * g.in(-4, 4) : g.in(-36, 36), c = g.chance(0.5) ? a + 8 * g.in(-2, 2) : g.in(-36, 36);
      if (g.chance(0.3)) a = 8 * g.in(-4, 4);
      auto off = [&]() { return g.chance(0.2) ? 0 : g.chance(0.5) ? 24 * g.in(-20, 20) : 24 * g.in(-2, 2); };
      long ea = off(), eb = off(), ec = off(), r = g.in(0, 24), rg = 24 * g.in(0, 16), er = off();
      double A = (double)a * U + (double)ea * 1e-9, B = (double)b * U + (double)eb * 1e-9, C = (double)c * U + (double)ec * 1e-9, R = (double)rg * (U / 24) + (double)er * 1e-9;
      cur() = "near units " + js(VL{a, ea, b, eb, c, ec});
      Ev("ueps").f("a", a * 2400000 + ea).f("b", b * 2400000 + eb).f("c", c * 2400000 + ec).f("w", un9(EH::EnforceContinuousRevoluteBounds(A))).f("sd", un9(EH::ContinuousRevoluteSignedDistance(A, B)))
          .f("d", un9(EH::ContinuousRevoluteDistance(A, B))).f("add", un9(EH::AddContinuousRevoluteValues(A, B))).f("range", un9(EH::GetContinuousRevoluteRange(A, B)))
          .f("r", r).f("ip", un9(EH::InterpolateContinuousRevolute(A, B, (double)r / 24.0))).f("rg", rg * 100000 + er).f("in", EH::CheckInContinuousRevoluteRange(A, R, C)).f("inb", EH::CheckInContinuousRevoluteBounds(A, B, C)).emit();
      auto turns = [&]() { return (double)g.in(-9, 9) * std::ldexp(1.0, (int)g.in(10, 35)); };
      double TA = (double)a * U + turns() * (2.0 * M_PI), TB = (double)b * U + turns() * (2.0 * M_PI);
      Ev("ufar").f("a", a).f("b", b).f("w", un_near(EH::EnforceContinuousRevoluteBounds(TA))).f("sd", un_near(EH::ContinuousRevoluteSignedDistance(TA, TB))).f("add", un_near(EH::AddContinuousRevoluteValues(TA, (double)b * U)))
          .f("half", un_near(EH::InterpolateContinuousRevolute(TA, TB, 0.0))).emit();
    }
    for (int k = 0; k < 25; k++) {   // arbitrary angles, many turns away
      double a0 = (g.in(-3140000, 3140000)) * 1e-6, b0 = (g.in(-3140000, 3140000)) * 1e-6, c0 = g.in(-3140000, 3140000) * 1e-6;
      if (g.chance(0.2)) b0 = a0;
      long ka = g.chance(0.5) ? 0 : g.chance(0.5) ? g.in(-3, 3) : g.in(-10000, 10000), kb = g.chance(0.5) ? 0 : g.in(-4, 4), kc = g.chance(0.5) ? 0 : g.in(-4, 4);
      double A = a0 + 2 * M_PI * ka, B = b0 + 2 * M_PI * kb, C = c0 + 2 * M_PI * kc;
      cur() = "angles " + std::to_string(A) + " " + std::to_string(B) + " " + std::to_string(C);
      long r = g.in(-2, 10);
      double rg = g.in(0, 6283185) * 1e-6;
      Ev("rang").f("a", fix(a0, 1e6)).f("b", fix(b0, 1e6)).f("c", fix(c0, 1e6)).f("w", fix(EH::EnforceContinuousRevoluteBounds(A), 1e6)).f("sd", fix(EH::ContinuousRevoluteSignedDistance(A, B), 1e6))
          .f("d", fix(EH::ContinuousRevoluteDistance(A, B), 1e6)).f("back", fix(EH::ContinuousRevoluteDistance(B, A), 1e6)).f("add", fix(EH::AddContinuousRevoluteValues(A, b0), 1e6))
          .f("range", fix(EH::GetContinuousRevoluteRange(A, B), 1e6)).f("r", r).f("ip", fix(EH::InterpolateContinuousRevolute(A, B, r / 8.0), 1e6))
          .f("rg", fix(rg, 1e6)).f("in", EH::CheckInContinuousRevoluteRange(A, rg, C)).f("inb", EH::CheckInContinuousRevoluteBounds(A, B, C)).emit();
    }
  }
}

// ------------------------------------------------------------------ A01
template <int D> static VL avg_fixed(const VV& v, const VD& w) {
  std::vector<Eigen::Matrix<double, D, 1>, Eigen::aligned_allocator<Eigen::Matrix<double, D, 1>>> in;
  for (auto& x : v) { Eigen::Matrix<double, D, 1> e; for (int k = 0; k < D; k++) e(k) = (double)x[k]; in.push_back(e); }
  Eigen::Matrix<double, D, 1> r = EH::AverageEigenVector(in, w);
  VL o; for (int k = 0; k < D; k++) o.push_back(fix(r(k), 1e4));
  return o;
}
static void run_avg() {
  Rng g(seed() * 37 + 2);
  for (long n = 0; n < scale(150, 2000); n++) {
    begin("avg");
    for (int rep = 0; rep < 4; rep++) {
      size_t m = (size_t)(g.chance(0.15) ? 1 : g.in(1, 9)), dim = (size_t)g.in(1, 5);
      VV v(m); VL s; for (auto& x : v) { for (size_t k = 0; k < dim; k++) x.push_back(g.in(-40, 40)); }
      if (g.chance(0.2)) for (auto& x : v) x = v[0];
      VL w; VD wd;
      if (!g.chance(0.3)) { for (size_t k = 0; k < m; k++) w.push_back(g.chance(0.35) ? 0 : g.in(1, 6)); bool any = false; for (long x : w) any |= x > 0; if (!any) w[(size_t)g.below((long)m)] = 2; }
      const double unit = g.chance(.6) ? 1. : std::ldexp(1., (int)g.pick(VL{-60, -34, -12, 10, 40}));   // only the proportions matter
      for (long x : w) wd.push_back((double)x * 0.25 * unit);
      VD sd; for (auto& x : v) { s.push_back(x[0]); sd.push_back((double)x[0]); }
      cur() = "average of " + js(v) + " weights " + js(w);
      VV res;   // one row per variant: results per component
      res.push_back({fix(EH::AverageStdVectorDouble(sd, wd), 1e4)});
      res.push_back({fix(EH::AverageContinuousRevolute(sd, wd), 1e4)});
      { std::vector<Eigen::VectorXd> in; for (auto& x : v) { Eigen::VectorXd e(dim); for (size_t k = 0; k < dim; k++) e((long)k) = (double)x[k]; in.push_back(e); }
        Eigen::VectorXd r = EH::AverageEigenVectorXd(in, wd); VL o; for (long k = 0; k < r.size(); k++) o.push_back(fix(r(k), 1e4)); res.push_back(o); }
      if (dim >= 3) {
        res.push_back(avg_fixed<3>(v, wd));
        EH::VectorVector3d in; for (auto& x : v) in.push_back(Eigen::Vector3d(x[0], x[1], x[2]));
        Eigen::Vector3d r = EH::AverageEigenVector3d(in, wd); res.push_back({fix(r(0), 1e4), fix(r(1), 1e4), fix(r(2), 1e4)});
      }
      if (dim >= 2) res.push_back(avg_fixed<2>(v, wd));
      Ev("avg").f("v", v).f("w", w).f("res", res).emit();
      // spread
      const bool far = n % 25 == 7 && rep == 0;   // some long lists, too
      VL q; VD qd; size_t l = (size_t)(far ? g.in(250, 270) : g.in(1, 8)); for (size_t k = 0; k < l; k++) { q.push_back(far ? g.in(-1, 1) : g.in(-20, 20)); qd.push_back((double)q.back()); }
      long mean = far ? 0 : g.in(-10, 10);
      Ev("spread").f("v", q).f("mean", mean).f("s", fix(EH::ComputeStdDevStdVectorDouble(qd), 100)).f("sm", fix(EH::ComputeStdDevStdVectorDouble(qd, (double)mean), 100)).emit();
      // path lengths over steps of integer length
      static const VV steps{{3, 4, 0, 5}, {0, 0, 0, 0}, {1, 2, 2, 3}, {2, 3, 6, 7}, {6, -2, 3, 7}, {-4, 0, 3, 5}, {0, -5, 0, 5}, {0, 0, 1, 1}, {-8, 1, 4, 9}, {2, -1, -2, 3}};
      EH::VectorVector3d pts; VL len; size_t np = (size_t)(far ? g.in(255, 300) : g.in(0, 9));
      Eigen::Vector3d p(g.in(-5, 5), g.in(-5, 5), g.in(-5, 5));
      for (size_t k = 0; k < np; k++) { if (k) { auto st = g.pick(steps); p += Eigen::Vector3d(st[0], st[1], st[2]); len.push_back(st[3]); } pts.push_back(p); }
      std::vector<Eigen::Vector3d> plain(pts.begin(), pts.end());
      VL ind, cum;
      long calls = 0;
      const double S = g.chance(.5) ? 1. : 7654321.;   // long steps as well; every number stays exact
      auto units = [&](double x) { return enc(x / S); }; for (auto& z : pts) z *= S; for (auto& z : plain) z *= S;
      ind.clear(); cum.clear(); for (double d : EH::CalculateIndividualDistances(pts)) ind.push_back(units(d)); for (double d : EH::CalculateCumulativeDistances(pts)) cum.push_back(units(d));
      double tf = EH::CalculateTotalDistance(plain, [&](const Eigen::Vector3d& a, const Eigen::Vector3d& b) { calls++; return (b - a).norm(); });
      Ev("path").f("n", (long)np).f("len", len).f("total", units(EH::CalculateTotalDistance(pts))).f("totalf", units(tf)).f("ind", ind).f("cum", cum).emit();
    }
  }
}

// ------------------------------------------------------------------ A02
static VL qfix(const Eigen::Quaterniond& q) { return VL{fix(q.w(), 1e4), fix(q.x(), 1e4), fix(q.y(), 1e4), fix(q.z(), 1e4)}; }
static Eigen::Quaterniond rnd_q(Rng& g) {
  if (g.chance(0.3)) { static const std::vector<std::array<double, 4>> h{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {.5, .5, .5, .5}, {.5, -.5, .5, .5}, {.5, .5, -.5, .5}, {.5, .5, .5, -.5}}; auto a = g.pick(h); return Eigen::Quaterniond(a[0], a[1], a[2], a[3]); }
  Eigen::Quaterniond q(g.in(-100, 100) * .01, g.in(-100, 100) * .01, g.in(-100, 100) * .01, g.in(1, 100) * .01);
  q.normalize(); return q;
}
static void run_rot() {
  Rng g(seed() * 41 + 3);
  for (long n = 0; n < scale(150, 2000); n++) {
    begin("rotavg");
    for (int rep = 0; rep < 4; rep++) {
      size_t m = (size_t)g.in(1, 6);
      EH::VectorQuaterniond q; VV ql; VL w; VD wd;
      Eigen::Quaterniond base = rnd_q(g);
      int mode = (int)g.below(4);   // spread out; clustered; copies; pairs
      for (size_t k = 0; k < m; k++) {
        Eigen::Quaterniond x = mode == 0 ? rnd_q(g) : mode == 1 ? base * Eigen::Quaterniond(Eigen::AngleAxisd(g.in(-50, 50) * .01, Eigen::Vector3d(g.in(-3, 3), g.in(-3, 3), 4).normalized())) : mode == 2 ? base : (k % 2 ? rnd_q(g) : base);
        if (g.chance(0.4)) x.coeffs() = -x.coeffs();
        q.push_back(x); ql.push_back(qfix(x));
      }
      if (!g.chance(0.4)) { for (size_t k = 0; k < m; k++) w.push_back(g.chance(0.25) ? 0 : g.in(1, 3)); bool any = false; for (long x : w) any |= x > 0; if (!any || m == 1) w[0] = 1; }
      const double unit = g.chance(.6) ? 1. : std::ldexp(1., (int)g.pick(VL{-14, -6, 5, 12}));
      for (long x : w) wd.push_back((double)x * unit);
      cur() = "rotations " + js(ql) + " weights " + js(w);
      Eigen::Quaterniond a = EH::AverageEigenQuaterniond(q, wd);
      Ev("rotavg").f("q", ql).f("w", w).f("r", qfix(a)).emit();
      EH::VectorIsometry3d ts; VV tl;
      for (size_t k = 0; k < m; k++) { VL t{g.in(-20, 20), g.in(-20, 20), g.in(-20, 20)}; tl.push_back(t); ts.push_back(Eigen::Translation3d(t[0], t[1], t[2]) * q[k]); }
      Eigen::Isometry3d p = EH::AverageEigenIsometry3d(ts, wd);
      Ev("poseavg").f("q", ql).f("t", tl).f("w", w).f("r", qfix(Eigen::Quaterniond(p.rotation()))).f("rt", VL{fix(p.translation()(0), 1e4), fix(p.translation()(1), 1e4), fix(p.translation()(2), 1e4)}).emit();
    }
  }
}

// ------------------------------------------------------------------ H03
template <typename V> static VL vl(const V& v) { VL o; for (long k = 0; k < (long)v.size(); k++) o.push_back(enc((double)v[k])); return o; }
template <typename M> static VV ml(const M& m) { VV o; for (long i = 0; i < m.rows(); i++) { VL r; for (long j = 0; j < m.cols(); j++) r.push_back(enc((double)m(i, j))); o.push_back(r); } return o; }
template <typename M> static VV ml2(const M& m) { VV o; for (long i = 0; i < m.rows(); i++) { VL r; for (long j = 0; j < m.cols(); j++) r.push_back(enc(std::floor(m(i, j) * m(i, j) * 1e4 + .5) / 1e4)); o.push_back(r); } return o; }
template <typename V> static VV cols(const V& v) { VV o; for (auto& x : v) o.push_back(vl(x)); return o; }
static void run_conv() {
  Rng g(seed() * 43 + 4);
  for (long n = 0; n < scale(150, 1500); n++) {
    begin("conv");
    size_t m = (size_t)(n % 60 == 31 ? g.in(257, 280) : g.in(0, 6)); VD v; VL vi; for (size_t k = 0; k < 3 * m; k++) { vi.push_back(g.in(-90, 90)); v.push_back((double)vi.back()); }
    cur() = "convert " + js(vi);
    Eigen::VectorXd e = EH::StdVectorDoubleToEigenVectorXd(v);
    VV same; same.push_back(vl(e)); same.push_back(vl(EH::EigenVectorXdToStdVectorDouble(e)));
    Eigen::Matrix<double, Eigen::Dynamic, 1> e2 = EH::StdVectorToEigenVectorX(v); same.push_back(vl(e2)); same.push_back(vl(EH::EigenVectorXToStdVector(e2)));
    { VD c = ConvertTo<VD>(e); same.push_back(vl(c)); }
    if (m) {
      auto parts = EH::EigenVectorXToVectorEigenVector<double, 3>(e); auto parts2 = EH::StdVectorXToVectorEigenVector<double, 3>(v);
      Eigen::VectorXd j = EH::VectorEigenVectorToEigenVectorX(parts); same.push_back(vl(j));
      Ev("split").f("v", vi).f("a", cols(parts)).f("b", cols(parts2)).emit();
      VD v3(v.begin(), v.begin() + 3); Eigen::Vector3d x3 = EH::StdVectorDoubleToEigenVector3d(v3);
      Ev("same").f("v", VL(vi.begin(), vi.begin() + 3)).f("c", VV{vl(x3), vl(EH::EigenVector3dToStdVectorDouble(x3))}).emit();
    }
    Ev("same").f("v", vi).f("c", same).emit();
    { Eigen::Quaterniond q((double)g.in(-9, 9), (double)g.in(-9, 9), (double)g.in(-9, 9), (double)g.in(-9, 9)); VD s = EH::EigenQuaterniondToStdVectorDouble(q); Eigen::Quaterniond b = EH::StdVectorDoubleToEigenQuaterniond(s);
      Ev("quat").f("q", VL{enc(q.x()), enc(q.y()), enc(q.z()), enc(q.w())}).f("s", vl(s)).f("b", VL{enc(b.x()), enc(b.y()), enc(b.z()), enc(b.w())}).emit(); }
    // distance tables
    size_t d = (size_t)g.in(1, 4), np = (size_t)g.in(1, 7), nq = (size_t)g.in(1, 4);
    VV P(np), Q(nq); Eigen::MatrixXd S(d, np), T(d, nq);
    for (size_t k = 0; k < np; k++) for (size_t c = 0; c < d; c++) { P[k].push_back(g.in(-9, 9)); S((long)c, (long)k) = (double)P[k][c]; }
    for (size_t k = 0; k < nq; k++) for (size_t c = 0; c < d; c++) { Q[k].push_back(g.in(-9, 9)); T((long)c, (long)k) = (double)Q[k][c]; }
    if (g.chance(.3)) { const double off = g.pick(std::vector<double>{1073741824., -1099511627776., 16777217.}); S.array() += off; T.array() += off; }   // the same points far from the origin
    Eigen::VectorXd q0 = T.col(0);
    Ev("table").f("p", P).f("q", Q).f("sq", ml(EH::CalculateSquaredDistanceMatrix(S))).f("dd", ml2(EH::CalculateDistanceMatrix(S))).f("sset", ml(EH::CalculateSquaredDistanceToSet(S, q0)))
        .f("dset", ml2(EH::CalculateDistanceToSet(S, q0))).f("near", (long)EH::ClosestPointInSet(S, q0)).f("two", ml(EH::SquaredDistancesBetweenPointSets(S, T))).emit();
    { const Eigen::VectorXd p0 = S.col(0); VL r{enc(EH::SquaredDistance(p0, q0)), fix(std::pow(EH::Distance(p0, q0), 2), 1)};
      if (d == 2) { const Eigen::Vector2d x = p0, y = q0; r.push_back(enc(EH::SquaredDistance(x, y))); r.push_back(fix(std::pow(EH::Distance(x, y), 2), 1)); }
      if (d == 3) { const Eigen::Vector3d x = p0, y = q0; r.push_back(enc(EH::SquaredDistance(x, y))); r.push_back(fix(std::pow(EH::Distance(x, y), 2), 1)); }
      Ev("dist").f("p", P[0]).f("q", Q[0]).f("r", r).emit(); }
    if (d >= 2) { Eigen::Matrix<double, 2, Eigen::Dynamic> A = S.topRows(2); Eigen::Matrix<double, 2, 1> b = T.col(0).head(2); VV P2, Q2{{Q[0][0], Q[0][1]}}; for (auto& r : P) P2.push_back({r[0], r[1]});
      Ev("table").f("p", P2).f("q", Q2).f("sq", ml(EH::CalculateSquaredDistanceMatrix(A))).f("dd", ml2(EH::CalculateDistanceMatrix(A))).f("sset", ml(EH::CalculateSquaredDistanceToSet(A, b)))
          .f("dset", ml2(EH::CalculateDistanceToSet(A, b))).f("near", (long)EH::ClosestPointInSet(A, b)).f("two", ml(EH::SquaredDistancesBetweenPointSets(A, b))).emit(); }
    // element-wise arithmetic, closeness, search
    size_t l = (size_t)g.in(0, 6), l2 = g.chance(0.8) ? l : (size_t)g.in(0, 6); VD a, b; VL ai, bi;
    for (size_t k = 0; k < l; k++) { ai.push_back(g.in(-30, 30)); a.push_back((double)ai.back()); }
    for (size_t k = 0; k < l2; k++) { long x = g.in(-8, 8); if (!x) x = 4; static const VL pw{1, 2, 4, -1, -2, -4, 8}; x = g.pick(pw); bi.push_back(x); b.push_back((double)x); }
    long s = g.pick(VL{-4, -1, 1, 2, 8}); double sd = (double)s;
    auto sc = [](const VD& r) { VL o; for (double x : r) o.push_back(enc(x, 8)); return o; };
    Ev("vec").f("a", ai).f("b", bi).f("s", s).f("abs", vl(EH::Abs(a))).f("muls", vl(EH::Multiply(a, sd))).f("mul", vl(EH::Multiply(a, b))).f("divs", sc(EH::Divide(a, sd))).f("div", sc(EH::Divide(a, b)))
        .f("adds", vl(EH::Add(a, sd))).f("add", vl(EH::Add(a, b))).f("subs", vl(EH::Sub(a, sd))).f("sub", vl(EH::Sub(a, b))).f("sum", enc(EH::Sum(a))).f("sqn", enc(EH::SquaredNorm(a))).f("sqd", enc(EH::SquaredDistance(a, b)))
        .f("n2", fix(EH::Norm(a) * EH::Norm(a), 1)).f("d2", fix(EH::Distance(a, b) * EH::Distance(a, b), 1)).emit();
    { std::pair<double, double> pa{(double)g.in(-20, 20), (double)g.in(-20, 20)}, pb{g.chance(.5) ? 4. : -2., g.chance(.5) ? 1. : 8.};
      auto pl = [](std::pair<double, double> p) { return VL{enc(p.first, 8), enc(p.second, 8)}; };
      Ev("pair").f("a", VL{(long)pa.first, (long)pa.second}).f("b", VL{(long)pb.first, (long)pb.second}).f("s", s)
          .f("r", VV{pl(EH::Abs(pa)), pl(EH::Multiply(pa, sd)), pl(EH::Multiply(pa, pb)), pl(EH::Divide(pa, sd)), pl(EH::Divide(pa, pb)), pl(EH::Add(pa, pb)), pl(EH::Sub(pa, pb))}).emit(); }
    { long th = g.in(-4, 4); VL c; VD cd; for (long x : ai) { c.push_back(x + g.in(-4, 4)); cd.push_back((double)c.back()); } if (g.chance(.1)) { c.push_back(1); cd.push_back(1); }
      long x = g.in(-9, 9), y = x + g.in(-5, 5), pr = g.in(0, 8);
      Eigen::Vector3d u3(g.in(-2, 2), g.in(-2, 2), g.in(-2, 2)), w3 = g.chance(.4) ? u3 : Eigen::Vector3d(u3 + Eigen::Vector3d(g.in(-2, 2), g.in(-2, 2), g.in(-2, 2))); Eigen::Vector4d u4(u3(0), u3(1), u3(2), 1), w4(w3(0), w3(1), w3(2), g.in(0, 1));
      EH::VectorVector3d la{u3, w3}, lb{w3, u3};
      Ev("close").f("a", ai).f("c", c).f("th", th).f("v", EH::CloseEnough(a, cd, (double)th)).f("x", x).f("y", y).f("xy", EH::CloseEnough((double)x, (double)y, (double)th)).f("pr", pr).f("app", EH::IsApprox((double)x, (double)y, pr / 4.0))
          .f("u", vl(u4)).f("w", vl(w4)).f("e3", EH::Equal3d(u3, w3)).f("e4", EH::Equal4d(u4, w4)).f("c3", EH::CloseEnough(u3, w3, (double)th)).f("c2", EH::CloseEnough(Eigen::Vector2d(u3(0), u3(1)), Eigen::Vector2d(w3(0), w3(1)), (double)th)).f("cl", EH::CloseEnough(la, lb, (double)th)).emit(); }
    { long v = g.in(-9, 9); // in quarters
      Ev("sign").f("v", v).f("d", (long)EH::Sign((double)v / 4)).f("f", (long)EH::Sign((float)v / 4)).f("i", (long)EH::Sign((int)v)).f("u", (long)EH::Sign((unsigned)std::labs(v))).emit(); }
    { VL f; for (size_t k = 0; k < (size_t)g.in(0, 6); k++) f.push_back(g.in(0, 4)); long want = g.in(0, 4); std::vector<int> fi(f.begin(), f.end());
      VV en; for (auto& pr : enumerate<std::vector<int>>(fi)) en.push_back({(long)pr.first, (long)pr.second});
      Eigen::Vector3d h1(g.in(-1, 1), 0., g.in(0, 2)), h2 = h1; if (h2(1) == 0.) h2(1) = -0.0; Eigen::VectorXd d1(2), d2(2); d1 << h1(0), 0.; d2 << h1(0), -0.;
      std::complex<double> c1(h1(0), 0.), c2(h1(0), -0.); std::pair<long, double> p1(want, 0.), p2(want, -0.);
      bool hash = std::hash<Eigen::Vector3d>()(h1) == std::hash<Eigen::Vector3d>()(h2) && std::hash<Eigen::VectorXd>()(d1) == std::hash<Eigen::VectorXd>()(d2) && std::hash<std::complex<double>>()(c1) == std::hash<std::complex<double>>()(c2) && std::hash<std::pair<long, double>>()(p1) == std::hash<std::pair<long, double>>()(p2);
      Ev("find").f("v", f).f("x", want).f("at", (long)arc_std::find(fi, (int)want)).f("en", en).f("hash", hash).emit(); }
    // transforming a list of points
    { EH::VectorVector3d in; VV il; for (size_t k = 0; k < (size_t)g.in(0, 4); k++) { il.push_back({g.in(-5, 5), g.in(-5, 5), g.in(-5, 5)}); in.push_back(Eigen::Vector3d(il.back()[0], il.back()[1], il.back()[2])); }
      Eigen::Matrix3d R; long perm = g.below(3), s1 = g.chance(.5) ? 1 : -1, s2 = g.chance(.5) ? 1 : -1; R.setZero(); R(0, perm) = (double)s1; R(1, (perm + 1) % 3) = (double)s2; R(2, (perm + 2) % 3) = (double)(s1 * s2);
      Eigen::Isometry3d T3 = Eigen::Isometry3d::Identity(); T3.linear() = R; T3.translation() = Eigen::Vector3d(g.in(-5, 5), g.in(-5, 5), g.in(-5, 5));
      Ev("move").f("R", ml(R)).f("t", vl(Eigen::Vector3d(T3.translation()))).f("p", il).f("q", cols(EH::TransformData(T3, in))).emit(); }
  }
}

int main(int, char** a) {
  vt::open();
  std::string m = a[1];
  if (m == "rev") run_rev(); else if (m == "avg") run_avg(); else if (m == "rot") run_rot(); else if (m == "conv") run_conv(); else return 97;
  vt::done();
}
