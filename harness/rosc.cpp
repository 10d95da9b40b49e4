// W02 Eigen/ROS conversions, W03 trajectory appending, W04 parameters, W05 aligned vectors, W06 listener
#include <ros/ros.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/Wrench.h>
#include <Eigen/Geometry>
#include <arc_utilities/aligned_eigen_types.hpp>
#include <arc_utilities/arc_exceptions.hpp>
#include <arc_utilities/eigen_helpers_conversions.hpp>
#include <arc_utilities/eigen_ros_conversions.hpp>
#include <arc_utilities/eigen_transforms.hpp>
#include <arc_utilities/geometry_msgs_builders.hpp>
#include <arc_utilities/listener.hpp>
#include <arc_utilities/ros_helpers.hpp>
#include <arc_utilities/shape_msgs_builders.hpp>
#include <arc_utilities/trajectory_utils.h>
#include "trace.hpp"
using vt::Ev; using vt::Rng;
using VL = std::vector<long>;
using VV = std::vector<VL>;
namespace C = EigenHelpersConversions;
namespace B = arc_utilities::rmb;

// ---------------------------------------------------------------- conversions
static long e(double v) { return vt::enc(v, 128); }
template <typename T> static VL m3(const T& v) { return {e(v.x), e(v.y), e(v.z)}; }
template <typename V> static VL ev(const V& v) { VL o; for (long k = 0; k < v.size(); k++) o.push_back(e((double)v(k))); return o; }
static VL mq(const geometry_msgs::Quaternion& q) { return {e(q.x), e(q.y), e(q.z), e(q.w)}; }
template <typename Q> static VL eq(const Q& q) { return {e(q.x()), e(q.y()), e(q.z()), e(q.w())}; }
// translation in ten-thousandths, quaternion in thousandths
static VL tq(double x, double y, double z, const geometry_msgs::Quaternion& q) { VL o; for (double d : {x, y, z}) o.push_back(vt::fix(d, 1e4)); for (double d : {q.x, q.y, q.z, q.w}) o.push_back(vt::fix(d, 1e3)); return o; }
static VL tq(const geometry_msgs::Pose& p) { return tq(p.position.x, p.position.y, p.position.z, p.orientation); }
static VL tq(const geometry_msgs::Transform& p) { return tq(p.translation.x, p.translation.y, p.translation.z, p.rotation); }
// the upper rows in ten-thousandths and whether the last row differs from 0 0 0 1
template <typename T> static VL mat(const T& t) { VL o; for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) o.push_back(vt::fix((double)t.matrix()(r, c), 1e4)); const auto& m = t.matrix(); o.push_back(m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && m(3, 3) == 1 ? 0 : 1); return o; }
template <typename V> static V E3(const VL& v) { return V((typename V::Scalar)(v[0] / 128.0), (typename V::Scalar)(v[1] / 128.0), (typename V::Scalar)(v[2] / 128.0)); }
static VL rv(Rng& g, long m = 5000) { return {g.in(-m, m), g.in(-m, m), g.in(-m, m)}; }
static VL rq(Rng& g) { VL q; do q = {g.in(-3, 3), g.in(-3, 3), g.in(-3, 3), g.in(-3, 3)}; while (!q[0] && !q[1] && !q[2] && !q[3]); if (g.chance(.1)) { q = {0, 0, 0, 0}; q[(size_t)g.below(4)] = g.chance(.5) ? 1 : -1; } return q; }
static Eigen::Quaterniond Qn(const VL& q) { Eigen::Quaterniond x((double)q[3], (double)q[0], (double)q[1], (double)q[2]); x.normalize(); return x; }
static std::string frame(Rng& g) { return g.chance(.2) ? "" : "f" + std::to_string(g.below(100)); }
static geometry_msgs::Pose pose_of(const VL& t, const VL& q) { const auto n = Qn(q); geometry_msgs::Pose p; p.position.x = (double)t[0]; p.position.y = (double)t[1]; p.position.z = (double)t[2]; p.orientation.x = n.x(); p.orientation.y = n.y(); p.orientation.z = n.z(); p.orientation.w = n.w(); return p; }
static geometry_msgs::Transform tf_of(const VL& t, const VL& q) { const auto p = pose_of(t, q); geometry_msgs::Transform x; x.translation.x = p.position.x; x.translation.y = p.position.y; x.translation.z = p.position.z; x.rotation = p.orientation; return x; }
static Eigen::Isometry3d iso_of(const VL& t, const VL& q) { Eigen::Isometry3d m = Eigen::Isometry3d::Identity(); m.linear() = Qn(q).toRotationMatrix(); m.translation() << (double)t[0], (double)t[1], (double)t[2]; return m; }

static void conversions() {
  Rng g(vt::seed() + 50);
  for (long k = 0, K = vt::scale(150, 1500); k < K; k++) {
    vt::begin("conv");
    { // points and vectors: exact
      const VL v = rv(g), w = rv(g); const long w4 = g.in(-300, 300);
      geometry_msgs::Point p; p.x = v[0] / 128.0; p.y = v[1] / 128.0; p.z = v[2] / 128.0;
      geometry_msgs::Vector3 u; u.x = p.x; u.y = p.y; u.z = p.z;
      const Eigen::Vector3d d = E3<Eigen::Vector3d>(v); const Eigen::Vector3f f = E3<Eigen::Vector3f>(v); const Eigen::Vector4d d4(d.x(), d.y(), d.z(), w4 / 128.0);
      const std::string fr = frame(g); const auto ps = C::EigenVector3dToGeometryPointStamped(d, fr);
      geometry_msgs::Wrench wr; wr.force = u; wr.torque = B::MakeVector3(w[0] / 128.0, w[1] / 128.0, w[2] / 128.0); const auto pw = C::GeometryWrenchToEigenPairVector(wr);
      const VV out = {ev(C::GeometryPointToEigenVector3d(p)), m3(C::EigenVector3dToGeometryPoint(d)), m3(C::EigenVector4dToGeometryPoint(d4)), m3(ps.point), ev(C::GeometryVector3ToEigenVector3d(u)), m3(C::EigenVector3dToGeometryVector3(d)),
                      m3(C::EigenVector4dToGeometryVector3(d4)), ev(ConvertTo<Eigen::Vector3f>(p)), ev(ConvertTo<Eigen::Vector3f>(u)), m3(ConvertTo<geometry_msgs::Point>(f)), m3(ConvertTo<geometry_msgs::Vector3>(f)), ev(ConvertTo<Eigen::Vector3d>(p)),
                      ev(ConvertTo<Eigen::Vector3d>(u)), m3(ConvertTo<geometry_msgs::Point>(d)), m3(ConvertTo<geometry_msgs::Vector3>(d)), m3(B::MakePoint(p.x, p.y, p.z)), m3(B::MakeVector3(p.x, p.y, p.z)), ev(pw.first)};
      Ev("pts").f("v", v).f("w", w).f("out", out).f("tor", ev(pw.second)).f("p4", ev(C::GeometryPointToEigenVector4d(p))).f("v4", ev(C::GeometryVector3ToEigenVector4d(u))).f("fr", fr).f("got", ps.header.frame_id).emit();
    }
    { // sequences
      VV v((size_t)g.in(0, 4)); for (auto& x : v) x = rv(g);
      std::vector<geometry_msgs::Point> p; std::vector<geometry_msgs::Vector3> u; EigenHelpers::VectorVector3d d; Eigen::Matrix3Xd M(3, (long)v.size());
      for (auto& x : v) { p.push_back(B::MakePoint(x[0] / 128.0, x[1] / 128.0, x[2] / 128.0)); u.push_back(B::MakeVector3(x[0] / 128.0, x[1] / 128.0, x[2] / 128.0)); d.push_back(E3<Eigen::Vector3d>(x)); M.col((long)d.size() - 1) = d.back(); }
      auto le = [](const auto& l) { VV o; for (size_t j = 0; j < l.size(); j++) { const Eigen::Vector3d x = l[j].template cast<double>(); o.push_back(ev(x)); } return o; };
      auto lm = [](const auto& l) { VV o; for (auto& x : l) o.push_back(m3(x)); return o; };
      auto lx = [](const Eigen::Matrix3Xd& m) { VV o; for (long j = 0; j < m.cols(); j++) o.push_back(ev(Eigen::Vector3d(m.col(j)))); return o; };
      const std::vector<VV> out = {lx(C::VectorGeometryPointToEigenMatrix3Xd(p)), lm(C::EigenMatrix3XdToVectorGeometryPoint(M)), lx(C::VectorEigenVector3dToEigenMatrix3Xd(d)), le(C::EigenMatrix3XdToVectorEigenVector3d(M)),
        lm(C::VectorEigenVector3dToVectorGeometryPoint(d)), le(C::VectorGeometryPointToVectorEigenVector3d(p)), le(C::VectorGeometryVector3ToEigenVector3d(u)), lx(C::VectorGeometryVector3ToEigenMatrix3Xd(u)),
        le(ConvertTo<geometry_msgs::Point, Eigen::Vector3d>(p)), le(ConvertTo<geometry_msgs::Vector3, Eigen::Vector3f>(u))};
      Ev("lists").f("v", v).f("out", out).emit();
    }
    { // quaternions: components, not rotations
      VL q = rq(g); for (auto& x : q) x *= g.in(1, 100);
      const auto m = B::MakeQuaternion(q[0] / 128.0, q[1] / 128.0, q[2] / 128.0, q[3] / 128.0); const Eigen::Quaterniond d(q[3] / 128.0, q[0] / 128.0, q[1] / 128.0, q[2] / 128.0); const Eigen::Quaternionf f = d.cast<float>();
      const VV out = {mq(m), eq(C::GeometryQuaternionToEigenQuaterniond(m)), mq(C::EigenQuaterniondToGeometryQuaternion(d)), eq(ConvertTo<Eigen::Quaternionf>(m)), mq(ConvertTo<geometry_msgs::Quaternion>(f)), eq(ConvertTo<Eigen::Quaterniond>(m)), mq(ConvertTo<geometry_msgs::Quaternion>(d))};
      Ev("comps").f("q", q).f("out", out).emit();
    }
    { // to matrices
      const VL t = rv(g, 20), q = rq(g); const auto p = pose_of(t, q); const auto x = tf_of(t, q);
      const VV out = {mat(C::GeometryPoseToEigenIsometry3d(p)), mat(C::GeometryPoseToEigenAffine3d(p)), mat(C::GeometryTransformToEigenIsometry3d(x)), mat(C::GeometryTransformToEigenAffine3d(x)),
        mat(ConvertTo<Eigen::Isometry3d>(p)), mat(ConvertTo<Eigen::Affine3d>(p)), mat(ConvertTo<Eigen::Isometry3d>(x)), mat(ConvertTo<Eigen::Affine3d>(x))};
      Ev("mats").f("t", t).f("q", q).f("out", out).emit();
    }
    { // from matrices, also with scaling
      const VL t = rv(g, 20), q = rq(g), s = {g.in(1, 4), g.in(1, 4), g.in(1, 4)}; const auto m = iso_of(t, q); const Eigen::Affine3d a(m.matrix()); Eigen::Affine3d c = a; if (g.chance(.5)) c.linear() = c.linear() * Eigen::Vector3d((double)s[0], (double)s[1], (double)s[2]).asDiagonal();
      const Eigen::Affine3f cf = c.cast<float>(); const std::string fr = frame(g);
      const auto s1 = C::EigenIsometry3dToGeometryPoseStamped(m, fr), s2 = C::EigenAffine3dToGeometryPoseStamped(m, fr); const auto s3 = C::EigenIsometry3dToGeometryTransformStamped(m, fr);
      const auto n = m.rotation(); const Eigen::Matrix3d r = n; const Eigen::Matrix3f rf = r.cast<float>(); const auto bp = pose_of(t, q); const auto bt = tf_of(t, q);
      const auto z = m3(bp.position); (void)z;
      const VV out = {tq(C::EigenIsometry3dToGeometryPose(m)), tq(C::EigenAffine3fToGeometryPose(cf)), tq(C::EigenAffine3dToGeometryPose(c)), tq(s1.pose), tq(s2.pose), tq(C::EigenIsometry3dToGeometryTransform(m)), tq(C::EigenAffine3dToGeometryTransform(c)), tq(s3.transform),
        tq(ConvertTo<geometry_msgs::Transform>(c)), tq(ConvertTo<geometry_msgs::Transform>(m)), tq((double)t[0], (double)t[1], (double)t[2], ConvertTo<geometry_msgs::Quaternion>(r)), tq((double)t[0], (double)t[1], (double)t[2], ConvertTo<geometry_msgs::Quaternion>(rf)),
        tq(B::MakePose(bp.position, bp.orientation)), tq(B::MakePose(bt.translation, bp.orientation)), tq(B::MakeTransform(bp.position, bp.orientation)), tq(B::MakeTransform(bt.translation, bt.rotation))};
      Ev("poses").f("t", t).f("q", q).f("out", out).f("tr", tq(ConvertTo<geometry_msgs::Transform>(Eigen::Translation3d((double)t[0], (double)t[1], (double)t[2])))).f("fr", fr).f("got", std::vector<std::string>{s1.header.frame_id, s2.header.frame_id, s3.header.frame_id}).emit();
    }
    { // sequences of poses
      std::vector<VV> v((size_t)g.in(0, 4)); std::vector<geometry_msgs::Pose> p; std::vector<geometry_msgs::Transform> x; EigenHelpers::VectorIsometry3d m; EigenHelpers::VectorAffine3d a;
      for (auto& w : v) { w = {rv(g, 20), rq(g)}; p.push_back(pose_of(w[0], w[1])); x.push_back(tf_of(w[0], w[1])); m.push_back(iso_of(w[0], w[1])); a.push_back(Eigen::Affine3d(m.back().matrix())); }
      auto lm = [](const auto& l) { VV o; for (auto& y : l) o.push_back(mat(y)); return o; }; auto lp = [](const auto& l) { VV o; for (auto& y : l) o.push_back(tq(y)); return o; };
      const std::vector<VV> mats = {lm(C::VectorGeometryPoseToVectorIsometry3d(p)), lm(C::VectorGeometryTransformToVectorIsometry3d(x)), lm(C::VectorGeometryTransformToVectorAffine3d(x)), lm(ConvertTo<geometry_msgs::Pose, Eigen::Isometry3d>(p)), lm(ConvertTo<geometry_msgs::Transform, Eigen::Affine3d>(x))};
      const std::vector<VV> poses = {lp(C::VectorIsometry3dToVectorGeometryPose(m)), lp(C::VectorAffine3dToVectorGeometryPose(a)), lp(C::VectorIsometry3dToVectorGeometryTransform(m)), lp(C::VectorAffine3dToVectorGeometryTransform(a))};
      Ev("posel").f("v", v).f("mats", mats).f("poses", poses).emit();
    }
    { // moving things by a pose
      const VL t = rv(g, 9), q = rq(g), a = rv(g, 9), b = rv(g, 9), c = rv(g, 9), qa = rq(g), qb = rq(g); const Pose m = Pose(iso_of(t, q).matrix());
      auto v3 = [](const VL& x) { return Eigen::Vector3d((double)x[0], (double)x[1], (double)x[2]); }; auto o3 = [](const Eigen::Vector3d& x) { return VL{vt::fix(x(0), 1e4), vt::fix(x(1), 1e4), vt::fix(x(2), 1e4)}; };
      const auto pv = Transform(m, std::pair<Eigen::Vector3d, Eigen::Vector3d>(v3(a), v3(b))); const auto pt = Transform(m, std::pair<Eigen::Translation3d, Eigen::Translation3d>(Eigen::Translation3d(v3(a)), Eigen::Translation3d(v3(b))));
      const auto pp = Transform(m, std::pair<Pose, Eigen::Vector3d>(Pose(iso_of(a, qa).matrix()), v3(b)));
      PointSequence s = {v3(a), v3(b), v3(c)}; s.resize((size_t)g.in(0, 3)); const auto sv = Transform(m, s); VV so; for (auto& x : sv) so.push_back(o3(x));
      PoseSequence ms = {Pose(iso_of(a, qa).matrix()), Pose(iso_of(b, qb).matrix())}; ms.resize((size_t)g.in(0, 2)); const auto mv = Transform(m, ms); VV mo; for (auto& x : mv) mo.push_back(mat(x));
      const auto tri = B::MakeMeshTriangle((uint32_t)(a[0] + 9), (uint32_t)(a[1] + 9), (uint32_t)(a[2] + 9));
      Ev("move").f("t", t).f("q", q).f("in", VV{a, b, c}).f("qs", VV{qa, qb}).f("pv", VV{o3(pv.first), o3(pv.second)}).f("pt", VV{mat(pt.first), mat(pt.second)}).f("pp", mat(pp.first)).f("pq", o3(pp.second)).f("sn", s.size()).f("so", so).f("mn", ms.size()).f("mo", mo)
        .f("tri", VL{(long)tri.vertex_indices[0] - 9, (long)tri.vertex_indices[1] - 9, (long)tri.vertex_indices[2] - 9}).emit();
    }
  }
}
// ---------------------------------------------------------------- trajectories
typedef trajectory_msgs::JointTrajectory JT;
static VV pts(const JT& t) {   // time, then four counted lists
  VV o; for (auto& p : t.points) { VL x{vt::clampi((long long)p.time_from_start.sec * 1000 + p.time_from_start.nsec / 1000000), (long)(p.time_from_start.nsec % 1000000)};
    for (auto* l : {&p.positions, &p.velocities, &p.accelerations, &p.effort}) { x.push_back((long)l->size()); for (double d : *l) x.push_back(e(d)); } o.push_back(x); }
  return o;
}
static Ev& traj(Ev& ev_, const std::string& k, const JT& t) { return ev_.f((k + "n").c_str(), t.joint_names).f((k + "f").c_str(), t.header.frame_id).f((k + "h").c_str(), VL{(long)t.header.seq, (long)t.header.stamp.sec, (long)t.header.stamp.nsec}).f((k + "p").c_str(), pts(t)); }
static JT rtraj(Rng& g, long fam) {
  static const std::vector<std::vector<std::string>> N = {{}, {"a"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"a", "c"}};
  JT t; t.joint_names = N[(size_t)(g.chance(.7) ? fam : g.below((long)N.size()))]; t.header.frame_id = frame(g); t.header.seq = (uint32_t)g.below(100); t.header.stamp = ros::Time((uint32_t)g.below(100), (uint32_t)g.below(1000));
  long at = g.in(0, 900);
  for (long n = g.in(0, 4); n > 0; n--) { trajectory_msgs::JointTrajectoryPoint p; p.time_from_start = ros::Duration((int32_t)(at / 1000), (int32_t)(at % 1000) * 1000000); at += g.in(0, 1700); for (auto* l : {&p.positions, &p.velocities, &p.accelerations, &p.effort}) for (long k = g.chance(.3) ? 0 : (long)t.joint_names.size(); k > 0; k--) l->push_back((double)g.in(-500, 500) / 128.0); t.points.push_back(p); }
  return t;
}
static void append() {
  Rng g(vt::seed() + 51);
  for (long k = 0, K = vt::scale(250, 3000); k < K; k++) {
    const long fam = g.below(6); JT a; if (g.chance(.7)) a = rtraj(g, fam);
    { Ev b("begin"); b.f("kind", "traj"); traj(b, "a", a).emit(); }
    for (long n = g.in(1, 5); n > 0; n--) {
      const JT b = rtraj(g, fam); const JT b0 = b; vt::cur() = "append"; const int st = vt::guarded([&] { trajectory_utils::append(a, b); });
      Ev x("append"); x.f("st", st); traj(x, "b", b0); traj(x, "c", b); traj(x, "a", a).emit();
    }
  }
}
// ---------------------------------------------------------------- parameters
static ros::Value val(char kind, long n) {
  ros::Value v{kind, (n & 1) != 0, (int)n, n / 128.0, "s" + std::to_string(n), {}, {}, {}};
  for (long k = 0; k < n % 4; k++) { v.v.push_back((n + k) / 128.0); v.vi.push_back((int)(n + k)); v.vs.push_back("s" + std::to_string(n + k)); } return v;
}
static VL co(bool b) { return {b ? 1 : 0}; } static VL co(int i) { return {i}; } static VL co(double d) { return {e(d)}; } static VL co(const std::string& s) { return {s.size() > 1 && s[0] == 's' ? std::stol(s.substr(1)) : -1}; }
template <typename T> static VL co(const std::vector<T>& v) { VL o; for (T x : v) o.push_back(co(x)[0]); return o; }
template <typename T> static void fromv(const ros::Value& v, T& o); template <> void fromv(const ros::Value& v, bool& o) { o = v.b; } template <> void fromv(const ros::Value& v, int& o) { o = v.i; } template <> void fromv(const ros::Value& v, double& o) { o = v.d; } template <> void fromv(const ros::Value& v, std::string& o) { o = v.s; }
template <> void fromv(const ros::Value& v, std::vector<double>& o) { o = v.v; } template <> void fromv(const ros::Value& v, std::vector<int>& o) { o = v.vi; } template <> void fromv(const ros::Value& v, std::vector<std::string>& o) { o = v.vs; }
template <typename F> static std::string outcome(F f) { try { return f(); } catch (const std::invalid_argument&) { return "invalid_argument"; } catch (const std::exception&) { return "exception"; } catch (...) { return "other"; } }
template <typename T> static std::string of_maybe(const Maybe::Maybe<T>& m, VL& o) { if (!m.Valid()) return "none"; o = co(m.GetImmutable()); return "ok"; }
template <typename T> static std::string one(long how, const ros::NodeHandle& nh, const std::string& name, char kind, long def, VL& o) {
  T d; fromv(val(kind, def), d); const T d2 = d;
  return outcome([&]() -> std::string {
    switch (how) {
      case 0: o = co(ROSHelpers::GetParam<T>(nh, name, d2)); return "ok";
      case 1: o = co(ROSHelpers::GetParam<T>(nh, name, std::move(d))); return "ok";
      case 2: o = co(ROSHelpers::GetParamDebugLog<T>(nh, name, d2)); return "ok";
      case 3: o = co(ROSHelpers::GetParamDebugLog<T>(nh, name, std::move(d))); return "ok";
      case 4: return of_maybe(ROSHelpers::GetParamOptional<T>(nh, name, "fn"), o);
      case 5: o = co(ROSHelpers::GetParamRequired<T>(nh, name, "fn")); return "ok";
      default: o = co(ROSHelpers::GetParamRequiredDebugLog<T>(nh, name, "fn")); return "ok";
    }
  });
}
template <typename T> static std::string many(long how, const ros::NodeHandle& nh, const std::string& name, long def, VL& o) {
  std::vector<T> d; fromv(val('v', def), d);
  return outcome([&]() -> std::string {
    switch (how) {
      case 0: case 1: case 2: case 3: o = co(ROSHelpers::GetVector<T>(nh, name, d)); return "ok";
      case 4: return of_maybe(ROSHelpers::GetVectorOptional<T>(nh, name, "fn"), o);
      case 5: o = co(ROSHelpers::GetVectorRequired<T>(nh, name, "fn")); return "ok";
      default: o = co(ROSHelpers::GetVectorRequiredDebugLog<T>(nh, name, "fn")); return "ok";
    }
  });
}
static void parameters() {
  Rng g(vt::seed() + 52);
  static const std::string KN = "bidsv"; static const std::vector<std::string> NS = {"/n1", "/n2"}; static const std::vector<std::string> P = {"p", "q", "a/r"};
  for (long k = 0, K = vt::scale(60, 700); k < K; k++) {
    vt::begin("param"); ros::params().clear();
    for (long n = 0; n < 40; n++) {
      const std::string ns = g.pick(NS), p = g.pick(P); const char kind = KN[(size_t)g.below(5)]; const long v = g.below(60);
      if (g.chance(.25)) { ros::params()[ns + "/" + p] = val(kind, 128 * (v / 20) + 1 + v); Ev("set").f("key", ns + "/" + p).f("k", std::string(1, kind)).f("n", 128 * (v / 20) + 1 + v).emit(); continue; }
      if (g.chance(.06)) { ros::params().erase(ns + "/" + p); Ev("del").f("key", ns + "/" + p).emit(); continue; }
      const ros::NodeHandle nh(ns); const long how = g.below(7), elem = g.below(3); VL o; std::string st;
      switch (kind) {
        case 'b': st = one<bool>(how, nh, p, kind, v, o); break; case 'i': st = one<int>(how, nh, p, kind, v, o); break; case 'd': st = one<double>(how, nh, p, kind, v, o); break; case 's': st = one<std::string>(how, nh, p, kind, v, o); break;
        default: st = elem == 0 ? many<double>(how, nh, p, v, o) : elem == 1 ? many<int>(how, nh, p, v, o) : many<std::string>(how, nh, p, v, o);
      }
      VV now; (void)now;
      Ev("get").f("key", ns + "/" + p).f("k", std::string(1, kind)).f("how", how).f("def", v).f("st", st).f("o", o).f("size", ros::params().size()).emit();
    }
  }
}
// ---------------------------------------------------------------- aligned vectors
template <typename S> static void aligned_run(const VL& h) {   // triples: operation, register, argument
  typedef Eigen::Aligned4Vector3<S> A; typedef Eigen::Matrix<S, 3, 1> V3; typedef Eigen::Matrix<S, 4, 1> V4;
  A r[3]; auto c = [](double d) { return vt::enc(d, 1); };
  auto dump = [&] { VV o; for (auto& x : r) o.push_back({c(x.coeff(0)), c(x.coeff(1)), c(x.coeff(2)), c(x.coeffs()(3))}); return o; };
  vt::begin("aligned");
  for (size_t k = 0; k + 2 < h.size(); k += 3) {
    const long op = h[k]; A& a = r[h[k + 1] % 3]; const long x = h[k + 2]; A& b = r[((x % 3) + 3) % 3]; const S s = (S)(x % 4); const V3 d3((S)x, (S)(x + 1), (S)(2 * x)); VL res;
    auto out = [&](const A& v) { res = {c(v(0)), c(v(1)), c(v(2)), c(v.coeffs()(3))}; };
    vt::cur() = "aligned " + std::to_string(op);
    switch (op) {
      case 0: a = A((S)x, (S)(x + 1), (S)(2 * x)); break;
      case 1: a = A(); break;
      case 2: a = b; break;
      case 3: a = d3; break;
      case 4: { const V4 d4(d3(0), d3(1), d3(2), (S)(x + 5)); a = d4; break; }
      case 5: { const A t(b); out(t); break; }
      case 6: out(a + b); break;
      case 7: { A& q = (a += b); res = {&q == &a}; break; }
      case 8: out(a - b); break;
      case 9: out(a -= b); break;
      case 10: out(a * s); break;
      case 11: out(s * a); break;
      case 12: { A& q = (a *= s); res = {&q == &a}; break; }
      case 13: out((a * (S)4) / (S)4); break;
      case 14: { a *= (S)2; A& q = (a /= (S)2); res = {&q == &a}; break; }
      case 15: out(a.cross(b)); break;
      case 16: res = {c(a.dot(b)), c(a.squaredNorm()), c(a.sum()), (long)std::llround((double)a.norm() * (double)a.norm()), a.isApprox(b) ? 1 : 0, a.isApprox(V3(d3)) ? 1 : 0}; break;
      case 17: { if (a.coeff(0) == 0 && a.coeff(1) == 0 && a.coeff(2) == 0) break; const A n = a.normalized(); A m = a; m.normalize(); for (auto* y : {&n, (const A*)&m}) { for (int j = 0; j < 3; j++) res.push_back(vt::fix((*y)(j), 1000)); res.push_back(c(y->coeffs()(3))); res.push_back(vt::fix(y->norm(), 1000)); } break; }
      case 18: { Eigen::Transform<S, 3, Eigen::Isometry> t = Eigen::Transform<S, 3, Eigen::Isometry>::Identity(); t.linear() << 0, -1, 0, 1, 0, 0, 0, 0, 1; t.translation() << (S)1, (S)2, (S)x; const A v(V4(t * a.coeffs())); out(v); break; }
      case 19: a.coeffRef(1) = (S)x; break;
      case 20: { a(0) = b(2); break; }
      case 21: { const V3 sum = V3(a(0), a(1), a(2)) + V3(b(0), b(1), b(2)); a = sum; break; }
      default: { const A z((V3(d3) * (S)2).eval()); out(z); }
    }
    Ev("al").f("code", op).f("a", h[k + 1] % 3 + 1).f("x", x).f("res", res).f("dump", dump()).emit();
  }
}
static void aligned() {
  Rng g(vt::seed() + 53); long n = 0;
  for (auto& l : vt::gen_lines()) { const VL h = vt::ints(l); if (n++ % 2) aligned_run<float>(h); else aligned_run<double>(h); }
  for (long k = 0, K = vt::scale(150, 1500); k < K; k++) {
    VL h; VV r(3, VL{0, 0, 0}); auto big = [](const VL& v) { for (long x : v) if (std::labs(x) > 400) return true; return false; };
    for (long s = 0; s < 40; s++) {
      long op = g.in(0, 22), a = g.below(3), x = g.in(-6, 6); size_t b = (size_t)(((x % 3) + 3) % 3);
      const VL d{x, x + 1, 2 * x}; VL na = r[(size_t)a];
      auto lin = [&](long i, long j) { for (size_t q = 0; q < 3; q++) na[q] = i * r[(size_t)a][q] + j * r[b][q]; };
      if (op == 0 || op == 3 || op == 4) na = d; else if (op == 1) na = {0, 0, 0}; else if (op == 2) na = r[b]; else if (op == 7 || op == 21) lin(1, 1); else if (op == 9) lin(1, -1); else if (op == 12) lin(x % 4, 0); else if (op == 19) na[1] = x; else if (op == 20) na[0] = r[b][2];
      else if (op == 17 && r[(size_t)a] == VL{0, 0, 0}) continue;
      if (big(na)) continue;
      r[(size_t)a] = na; h.push_back(op); h.push_back(a); h.push_back(x);
    }
    if (n++ % 2) aligned_run<float>(h); else aligned_run<double>(h);
  }
}
// ---------------------------------------------------------------- listener
// a message handle that notices being read or written while it is being written
static std::atomic<long> clashes{0};
struct Handle {
  long v = 0; mutable std::atomic<int> writing{0}, reading{0};
  static void pause() { for (volatile int k = 0; k < 300; k = k + 1) {} }
  Handle() {} Handle(std::nullptr_t) {} explicit Handle(long n) : v(n) {}
  long read() const { if (writing) clashes++; reading++; const long a = v; pause(); if (writing || v != a) clashes++; reading--; return v; }
  Handle(const Handle& o) : v(o.read()) {}
  Handle& operator=(const Handle& o) { const long n = o.read(); if (writing++ || reading) clashes++; v = n; pause(); if (reading) clashes++; writing--; return *this; }
  explicit operator bool() const { return read() != 0; }
  bool operator==(std::nullptr_t) const { return read() == 0; } bool operator!=(std::nullptr_t) const { return read() != 0; } void reset() { *this = Handle(); } void swap(Handle& o) { const Handle t(o); o = *this; *this = t; } const long* get() const { return read() ? &v : nullptr; }
};
struct Msg { typedef Handle ConstPtr; };
static void scripted(const VL& h, bool autostart) {   // operations: 1 publish, 2 publish elsewhere, 3 get, 4 start, 5 stop, 6 n s1..sn wait with the script
  ros::alive() = true; ros::NodeHandle nh("/"); long next = 0;
  Ev("begin").f("kind", "listen").f("auto", autostart).emit();
  Listener<Msg> l(nh, "topic", autostart);
  auto act = [&](long x) { switch (x) { case 1: ros::publish("topic", Handle(++next)); break; case 2: ros::publish("other", Handle(1000 + next)); break; case 4: l.start(); break; case 5: l.stop(); break; case 9: ros::alive() = false; break; default: break; } };
  for (size_t k = 0; k < h.size(); k++) {
    if (h[k] == 3) { Ev("lget").f("v", l.get().v).emit(); continue; }
    if (h[k] == 6) {
      VL s(h.begin() + (long)k + 2, h.begin() + (long)k + 2 + h[k + 1]); k += 1 + s.size(); size_t at = 0; long v = 0;
      ros::on_sleep() = [&] { if (at < s.size()) act(s[at]); else ros::alive() = false; at++; };
      vt::cur() = "waitForNew"; const int st = vt::guarded([&] { v = l.waitForNew(10.0).v; }); ros::on_sleep() = nullptr;
      Ev("lwait").f("s", s).f("st", st).f("v", v).f("used", at).emit(); continue;
    }
    act(h[k]); Ev("lact").f("x", h[k]).emit();
  }
  ros::alive() = true;
}
static void listener() {
  Rng g(vt::seed() + 54); static const VL A{1, 1, 1, 2, 3, 3, 4, 5}, S{0, 0, 1, 1, 2, 4, 5, 9};
  for (long k = 0, K = vt::scale(250, 2500); k < K; k++) {
    VL h; for (long n = g.in(2, 25); n > 0; n--) { if (g.chance(.15)) { h.push_back(6); const long m = g.in(0, 5); h.push_back(m); for (long j = 0; j < m; j++) h.push_back(g.pick(S)); } else h.push_back(g.pick(A)); }
    scripted(h, g.chance(.7));
  }
  for (long k = 0, K = vt::scale(6, 40); k < K; k++) {
    Ev("begin").f("kind", "listen").f("auto", true).emit();
    ros::alive() = true; ros::NodeHandle nh("/"); Listener<Msg> l(nh, "topic"); clashes = 0; std::atomic<long> from{0}, to{0}; std::atomic<bool> stop{false};
    ros::on_sleep() = [] { std::this_thread::yield(); };
    std::thread pub([&] { for (long n = 1; !stop; n++) { from = n; ros::publish("topic", Handle(n)); to = n; if (n % 97 == 0) std::this_thread::yield(); } });
    VV seen; const auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(400);
    for (long n = 0; std::chrono::steady_clock::now() < until; n++) { const bool w = n % 5 == 4; const long a = to; const long v = w ? l.waitForNew(1e6).v : l.get().v; const long b = from; if (seen.size() < 300 || n % 16 == 0) seen.push_back({w ? 1 : 0, a, v, b}); if (seen.size() > 500) break; }
    stop = true; pub.join(); ros::on_sleep() = nullptr;
    Ev("lrace").f("clash", clashes > 0).f("seen", seen).emit();
  }
}
int main(int argc, char** argv) {
  const std::string m = argc > 1 ? argv[1] : "";
  if (!freopen("/dev/null", "w", stderr)) return 1;
  vt::open();
  if (m == "conv") conversions(); else if (m == "append") append(); else if (m == "param") parameters(); else if (m == "aligned") aligned(); else listener();
  vt::done();
}
