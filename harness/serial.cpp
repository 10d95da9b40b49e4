// Conformance harness for serialization: argv[1] selects prim | comp
#include "trace.hpp"
#include <endian.h>
#include <map>
#include <memory>
#include <arc_utilities/serialization.hpp>
#include <arc_utilities/serialization_eigen.hpp>
#include <arc_utilities/dijkstras.hpp>
#include <arc_utilities/voxel_grid.hpp>
#include <arc_utilities/simple_linked_robot_model.hpp>
#ifdef WITH_ROS
#include <ros/ros.h>
#include <arc_utilities/serialization_ros.hpp>
#endif
using namespace arc_utilities;
using vt::Ev; using vt::Raw;
typedef std::vector<uint8_t> Buf;
#ifdef WITH_ROS
static std::string canon(const std_msgs::Header&);
static std::string canon(const geometry_msgs::Point&);
static std::string canon(const geometry_msgs::Vector3&);
static std::string canon(const geometry_msgs::Quaternion&);
static std::string canon(const geometry_msgs::Pose&);
static std::string canon(const geometry_msgs::Transform&);
static std::string canon(const geometry_msgs::PoseStamped&);
static std::string canon(const geometry_msgs::TransformStamped&);
#endif
// ---- canonical text of a value, independent of the serializers
template <typename T> static std::string hexof(const T& v) { std::string o; const uint8_t* p = (const uint8_t*)&v; char b[4]; for (size_t k = 0; k < sizeof v; k++) { snprintf(b, sizeof b, "%02x", p[sizeof v - 1 - k]); o += b; } return o; }
template <typename T, typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, int>::type = 0> static std::string canon(const T& v) { return hexof(v); }
template <typename C> static std::string canon(const std::basic_string<C>& s) { std::string o = "s" + std::to_string(s.size()) + ":"; for (C c : s) o += hexof(c); return o; }
template <typename S, int R, int C> static std::string canon(const Eigen::Matrix<S, R, C>& m) { std::string o = "m" + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ":"; for (long a = 0; a < m.rows(); a++) for (long b = 0; b < m.cols(); b++) o += hexof((S)m(a, b)) + ","; return o; }
static std::string canon(const Eigen::Isometry3d& t) { std::string o = "t"; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) o += hexof((double)t.matrix()(a, b)) + ","; return o; }
static std::string canon(const arc_dijkstras::GraphEdge& e) { return "e" + std::to_string(e.getFromIndex()) + ">" + std::to_string(e.getToIndex()) + "w" + hexof(e.getWeight()) + "v" + std::to_string((int)e.getValidity()); }
static std::string canon(const simple_linked_robot_model::SimpleJointModel& j) {
  return "j" + std::to_string((unsigned)j.GetType()) + "," + hexof(j.GetValue()) + "," + hexof(j.GetLimits().first) + "," + hexof(j.GetLimits().second) + (j.IsContinuous() ? "c" : "") + (j.IsRevolute() ? "r" : "") + (j.IsPrismatic() ? "p" : "") + (j.IsFixed() ? "f" : "") + (j.InLimits(0.3) ? "i" : "o");
}
template <typename T> static std::string canon(const arc_dijkstras::GraphNode<T>& n);
template <typename T> static std::string canon(const arc_dijkstras::Graph<T>& g);
template <typename T> static std::string canon(const VoxelGrid::VoxelGrid<T>& g);
template <typename A, typename B> static std::string canon(const std::pair<A, B>& p);
template <typename T, typename Al> static std::string canon(const std::vector<T, Al>& v) { std::string o = "v" + std::to_string(v.size()) + "["; for (size_t k = 0; k < v.size(); k++) { T x = v[k]; o += canon(x) + ";"; } return o + "]"; }
template <typename K, typename V> static std::string canon(const std::map<K, V>& m) { std::string o = "d" + std::to_string(m.size()) + "{"; for (auto& kv : m) o += canon(kv.first) + "=" + canon(kv.second) + ";"; return o + "}"; }
template <typename A, typename B> static std::string canon(const std::pair<A, B>& p) { return "(" + canon(p.first) + "|" + canon(p.second) + ")"; }
template <typename T> static std::string canon(const arc_dijkstras::GraphNode<T>& n) { return "n" + canon(n.getValue()) + "d" + hexof(n.getDistance()) + "i" + canon(n.getInEdges()) + "o" + canon(n.getOutEdges()); }
template <typename T> static std::string canon(const arc_dijkstras::Graph<T>& g) { std::string o = "g" + std::to_string(g.getNodes().size()); for (auto& n : g.getNodes()) o += canon(n); return o + (g.checkGraphLinkage() ? "L" : "l"); }
template <typename T> static std::string canon(const VoxelGrid::VoxelGrid<T>& g) {
  std::string o = std::string("x") + (g.IsInitialized() ? "I" : "U") + canon(g.GetOriginTransform()) + canon(g.GetInverseOriginTransform());
  for (double d : {g.GetXSize(), g.GetYSize(), g.GetZSize(), g.GetCellSizes()(0), g.GetCellSizes()(1), g.GetCellSizes()(2)}) o += hexof(d);
  o += "n" + std::to_string(g.GetNumXCells()) + "," + std::to_string(g.GetNumYCells()) + "," + std::to_string(g.GetNumZCells()) + "d" + canon(g.GetDefaultValue()) + "o" + canon(g.GetOOBValue()) + ":";
  for (int64_t x = -1; x <= g.GetNumXCells(); x++) for (int64_t y = -1; y <= g.GetNumYCells(); y++) for (int64_t z = -1; z <= g.GetNumZCells(); z++) {
    const auto r = g.GetImmutable(x, y, z); T v = r.first; o += canon(v) + (r.second ? "+" : "-");
    if (g.IndexInBounds(x, y, z)) {   // by point: the centre of the cell, in the world
      const Eigen::Vector4d c = g.GridIndexToLocation(x, y, z); o += canon(c);
      const auto p = g.GetImmutable(c(0), c(1), c(2)); T w = p.first; o += canon(w);
    }
  }
  return o;
}
static std::string brief(const std::string& s) { if (s.size() <= 120) return s; uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return s.substr(0, 60) + "#" + std::to_string(s.size()) + "#" + hexof(h); }
struct Codec { std::function<uint64_t(Buf&)> w; std::function<std::pair<std::string, uint64_t>(const Buf&, uint64_t, Buf&)> r; std::string val; long size; };
template <typename T> static Codec codec(const T& v, const std::function<uint64_t(const T&, Buf&)>& s, const std::function<std::pair<T, uint64_t>(const Buf&, uint64_t)>& d, long size = -1) {
  Codec c; auto p = std::make_shared<T>(v);
  c.w = [p, s](Buf& b) { return s(*p, b); };
  c.r = [s, d](const Buf& b, uint64_t at, Buf& again) { auto x = d(b, at); s(x.first, again); return std::make_pair(brief(canon(x.first)), x.second); };
  c.val = brief(canon(v)); c.size = size; return c;
}
template <typename T> using Ser = std::function<uint64_t(const T&, Buf&)>;
template <typename T> using Des = std::function<std::pair<T, uint64_t>(const Buf&, const uint64_t)>;
template <typename T> static Ser<T> ps(bool net) { return net ? Ser<T>(SerializeNetworkFixedSizePOD<T>) : Ser<T>(SerializeFixedSizePOD<T>); }
template <typename T> static Des<T> pd(bool net) { return net ? Des<T>(DeserializeNetworkFixedSizePOD<T>) : Des<T>(DeserializeFixedSizePOD<T>); }
static Ser<std::string> cs_() { return SerializeString<char>; }
static Des<std::string> cd_() { return DeserializeString<char>; }
template <typename C> static Ser<std::basic_string<C>> ss(bool net) { return net ? Ser<std::basic_string<C>>(SerializeNetworkString<C>) : Ser<std::basic_string<C>>(SerializeString<C>); }
template <typename C> static Des<std::basic_string<C>> sd(bool net) { return net ? Des<std::basic_string<C>>(DeserializeNetworkString<C>) : Des<std::basic_string<C>>(DeserializeString<C>); }
template <typename T> static Ser<std::vector<T>> vs(bool net, Ser<T> s) { return [=](const std::vector<T>& v, Buf& b) { return net ? SerializeNetworkVector<T>(v, b, s) : SerializeVector<T>(v, b, s); }; }
template <typename T> static Des<std::vector<T>> vd(bool net, Des<T> d) { return [=](const Buf& b, uint64_t at) { return net ? DeserializeNetworkVector<T>(b, at, d) : DeserializeVector<T>(b, at, d); }; }
template <typename K, typename V> static Ser<std::map<K, V>> ms(bool net, Ser<K> a, Ser<V> s) { return [=](const std::map<K, V>& v, Buf& b) { return net ? SerializeNetworkMap<K, V>(v, b, a, s) : SerializeMap<K, V>(v, b, a, s); }; }
template <typename K, typename V> static Des<std::map<K, V>> md(bool net, Des<K> a, Des<V> d) { return [=](const Buf& b, uint64_t at) { return net ? DeserializeNetworkMap<K, V>(b, at, a, d) : DeserializeMap<K, V>(b, at, a, d); }; }
template <typename K, typename V> static Ser<std::pair<K, V>> prs(bool net, Ser<K> a, Ser<V> s) { return [=](const std::pair<K, V>& v, Buf& b) { return net ? SerializeNetworkPair<K, V>(v, b, a, s) : SerializePair<K, V>(v, b, a, s); }; }
template <typename K, typename V> static Des<std::pair<K, V>> prd(bool net, Des<K> a, Des<V> d) { return [=](const Buf& b, uint64_t at) { return net ? std::pair<std::pair<K, V>, uint64_t>(DeserializeNetworkPair<K, V>(b, at, a, d)) : std::pair<std::pair<K, V>, uint64_t>(DeserializePair<K, V>(b, at, a, d)); }; }
template <typename T> static Des<T> eid() { return [](const Buf& b, uint64_t at) { return DeserializeEigen<T>(b, at); }; }
template <typename T> static Codec eig(const T& v) { return codec<T>(v, [](const T& x, Buf& b) { return SerializeEigen(x, b); }, eid<T>(), (long)SerializedSizeEigen(v)); }

static double rd(vt::Rng& r) {
  switch (r.in(0, 9)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity(); case 3: return -std::numeric_limits<double>::infinity();
    case 4: return std::numeric_limits<double>::quiet_NaN(); case 5: return std::numeric_limits<double>::denorm_min(); case 6: return (double)r.in(-5, 5);
    default: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 1.5 : d; }
  }
}
static double rfin(vt::Rng& r) { return (double)r.in(-100000, 100000) / 128.0; }
static std::string rs(vt::Rng& r) { std::string s; const long n = r.chance(0.2) ? 0 : r.in(1, r.chance(0.05) ? 400 : 9); for (long k = 0; k < n; k++) s += (char)r.below(256); return s; }
static long rlen(vt::Rng& r) { return r.chance(0.25) ? 0 : r.chance(0.05) ? r.in(250, 300) : r.in(1, 5); }
template <typename T> static T rint(vt::Rng& r) { return r.chance(0.3) ? (T)r.in(-2, 2) : r.chance(0.2) ? std::numeric_limits<T>::max() : r.chance(0.1) ? std::numeric_limits<T>::min() : (T)r.next(); }
template <typename T> static Codec podc(vt::Rng& r, bool net) { return codec<T>(rint<T>(r), ps<T>(net), pd<T>(net)); }

static Codec prim(vt::Rng& r) {
  const bool net = r.chance(0.5);
  if (r.chance(0.005)) {   // counts and lengths past 16 bits
    const long n = r.in(65530, 66000);
    switch (r.in(0, 5)) {
      case 0: return codec<std::string>(std::string((size_t)n, (char)r.in(1, 255)), cs_(), cd_());
      case 1: { std::vector<uint8_t> v((size_t)n, (uint8_t)r.in(1, 255)); return codec<std::vector<uint8_t>>(v, vs<uint8_t>(net, ps<uint8_t>(net)), vd<uint8_t>(net, pd<uint8_t>(net))); }
      case 2: { std::vector<std::string> v{rs(r), std::string(40000, 'x'), rs(r), std::string(30000, 'y'), rs(r)}; return codec<std::vector<std::string>>(v, vs<std::string>(net, cs_()), vd<std::string>(net, cd_())); }
      case 3: { std::map<int32_t, uint8_t> m; for (long k = 0; k < n; k++) m[(int32_t)(k * 7 - 1000)] = (uint8_t)(k & 255); return codec<std::map<int32_t, uint8_t>>(m, ms<int32_t, uint8_t>(net, ps<int32_t>(net), ps<uint8_t>(net)), md<int32_t, uint8_t>(net, pd<int32_t>(net), pd<uint8_t>(net))); }
      case 4: { std::pair<std::string, std::string> p(std::string((size_t)n, 'p'), rs(r) + "q"); return codec<std::pair<std::string, std::string>>(p, prs<std::string, std::string>(net, cs_(), cs_()), prd<std::string, std::string>(net, cd_(), cd_())); }
      default: { Eigen::VectorXd v(r.chance(.5) ? 8300 : n); for (long k = 0; k < v.size(); k++) v(k) = (double)k; return eig<Eigen::VectorXd>(v); }
    }
  }
  switch (r.in(0, 27)) {
    case 0: return podc<uint8_t>(r, net); case 1: return podc<int8_t>(r, net); case 2: return podc<uint16_t>(r, net); case 3: return podc<int16_t>(r, net);
    case 4: return podc<uint32_t>(r, net); case 5: return podc<int32_t>(r, net); case 6: return podc<uint64_t>(r, net); case 7: return podc<int64_t>(r, net);
    case 8: return codec<double>(rd(r), ps<double>(net), pd<double>(net));
    case 9: return codec<float>((float)rd(r), ps<float>(net), pd<float>(net));
    case 10: return net ? codec<bool>(r.chance(0.5), SerializeFixedSizePOD<bool>, DeserializeFixedSizePOD<bool>) : codec<char>((char)r.below(256), SerializeFixedSizePOD<char>, DeserializeFixedSizePOD<char>);
    case 11: return codec<std::string>(rs(r), cs_(), cd_());
    case 12: { std::basic_string<uint16_t> w; for (long k = rlen(r); k > 0; k--) w.push_back((uint16_t)r.next()); return codec<std::basic_string<uint16_t>>(w, ss<uint16_t>(net), sd<uint16_t>(net)); }
    case 13: { std::basic_string<int8_t> w; for (long k = rlen(r); k > 0; k--) w.push_back((int8_t)r.next()); return codec<std::basic_string<int8_t>>(w, ss<int8_t>(net), sd<int8_t>(net)); }
    case 14: { std::vector<double> v; for (long k = rlen(r); k > 0; k--) v.push_back(rd(r)); return codec<std::vector<double>>(v, vs<double>(net, ps<double>(net)), vd<double>(net, pd<double>(net))); }
    case 15: { std::vector<std::string> v; for (long k = rlen(r); k > 0; k--) v.push_back(rs(r)); return codec<std::vector<std::string>>(v, vs<std::string>(net, cs_()), vd<std::string>(net, cd_())); }
    case 16: { std::vector<std::vector<int32_t>> v; for (long k = r.in(0, 4); k > 0; k--) { v.push_back({}); for (long j = rlen(r); j > 0; j--) v.back().push_back(rint<int32_t>(r)); }
      return codec<std::vector<std::vector<int32_t>>>(v, vs<std::vector<int32_t>>(net, vs<int32_t>(net, ps<int32_t>(net))), vd<std::vector<int32_t>>(net, vd<int32_t>(net, pd<int32_t>(net)))); }
    case 17: { std::map<std::string, int64_t> m; for (long k = rlen(r); k > 0; k--) m[rs(r)] = rint<int64_t>(r); return codec<std::map<std::string, int64_t>>(m, ms<std::string, int64_t>(net, cs_(), ps<int64_t>(net)), md<std::string, int64_t>(net, cd_(), pd<int64_t>(net))); }
    case 18: { std::map<int16_t, std::vector<std::string>> m; for (long k = r.in(0, 5); k > 0; k--) { auto& v = m[rint<int16_t>(r)]; for (long j = r.in(0, 3); j > 0; j--) v.push_back(rs(r)); }
      return codec<std::map<int16_t, std::vector<std::string>>>(m, ms<int16_t, std::vector<std::string>>(net, ps<int16_t>(net), vs<std::string>(net, cs_())), md<int16_t, std::vector<std::string>>(net, pd<int16_t>(net), vd<std::string>(net, cd_()))); }
    case 19: { std::pair<int32_t, std::string> p(rint<int32_t>(r), rs(r)); return codec<std::pair<int32_t, std::string>>(p, prs<int32_t, std::string>(net, ps<int32_t>(net), cs_()), prd<int32_t, std::string>(net, pd<int32_t>(net), cd_())); }
    case 20: { typedef std::pair<uint8_t, double> P; typedef std::pair<P, std::vector<uint16_t>> Q; std::vector<uint16_t> v; for (long k = rlen(r); k > 0; k--) v.push_back(rint<uint16_t>(r));
      Q q(P(rint<uint8_t>(r), rd(r)), v);
      return codec<Q>(q, prs<P, std::vector<uint16_t>>(net, prs<uint8_t, double>(net, ps<uint8_t>(net), ps<double>(net)), vs<uint16_t>(net, ps<uint16_t>(net))), prd<P, std::vector<uint16_t>>(net, prd<uint8_t, double>(net, pd<uint8_t>(net), pd<double>(net)), vd<uint16_t>(net, pd<uint16_t>(net)))); }
    case 21: { std::basic_string<char> s = rs(r);  // a vector-like container
      return codec<std::string>(s, [](const std::string& x, Buf& b) { return SerializeVectorLike<char, std::string>(x, b, SerializeFixedSizePOD<char>); }, [](const Buf& b, uint64_t at) { return DeserializeVectorLike<char, std::string>(b, at, DeserializeFixedSizePOD<char>); }); }
    case 22: { Eigen::Vector3d v(rd(r), rd(r), rd(r)); return eig<Eigen::Vector3d>(v); }
    case 23: { if (net) { Eigen::Matrix<double, 6, 1> v; for (int k = 0; k < 6; k++) v(k) = rd(r); return eig<Eigen::Matrix<double, 6, 1>>(v); } Eigen::Matrix<double, 7, 1> v; for (int k = 0; k < 7; k++) v(k) = rd(r); return eig<Eigen::Matrix<double, 7, 1>>(v); }
    case 24: { Eigen::VectorXd v(rlen(r)); for (long k = 0; k < v.size(); k++) v(k) = rd(r); return eig<Eigen::VectorXd>(v); }
    case 25: { const long a = r.in(0, 4), b = r.in(0, 5);
      if (net) { Eigen::MatrixXd m(a, b); for (long x = 0; x < a; x++) for (long y = 0; y < b; y++) m(x, y) = rd(r); return eig<Eigen::MatrixXd>(m); }
      Eigen::MatrixXf m(a, b); for (long x = 0; x < a; x++) for (long y = 0; y < b; y++) m(x, y) = (float)rfin(r); return eig<Eigen::MatrixXf>(m); }
    case 26: { const long b = rlen(r); if (net) { Eigen::Matrix3Xd m(3, b); for (long x = 0; x < 3; x++) for (long y = 0; y < b; y++) m(x, y) = rd(r); return eig<Eigen::Matrix3Xd>(m); }
      Eigen::Matrix3Xf m(3, b); for (long x = 0; x < 3; x++) for (long y = 0; y < b; y++) m(x, y) = (float)rfin(r); return eig<Eigen::Matrix3Xf>(m); }
    default: { Eigen::Isometry3d t = Eigen::Translation3d(rfin(r), rfin(r), rfin(r)) * Eigen::Quaterniond(rfin(r), rfin(r) + 0.1, rfin(r), rfin(r)).normalized();
      return codec<Eigen::Isometry3d>(t, [](const Eigen::Isometry3d& x, Buf& b) { return SerializeEigen<Eigen::Isometry3d>(x, b); }, eid<Eigen::Isometry3d>(), (long)SerializedSizeEigen(t)); }
  }
}
static arc_dijkstras::Graph<std::string> rgraph(vt::Rng& r) {
  arc_dijkstras::Graph<std::string> g; const long n = r.chance(0.1) ? 0 : r.in(1, 6);
  for (long k = 0; k < n; k++) { g.addNode(rs(r)); g.getNode(k).setDistance(rd(r)); }
  for (long k = n > 1 ? r.in(0, 9) : 0; k > 0; k--) { const long a = r.below(n), b = r.below(n); if (a == b) continue; g.addEdgeBetweenNodes(a, b, std::abs(rfin(r)));
    const auto v = (arc_dijkstras::EDGE_VALIDITY)r.in(0, 2); g.getNode(a).getOutEdges().back().setValidity(v); g.getNode(b).getInEdges().back().setValidity(v);
    if (r.chance(0.2)) g.getNode(a).getOutEdges().back().setWeight(std::numeric_limits<double>::infinity()); }
  return g;
}
template <typename T> static VoxelGrid::VoxelGrid<T> rgrid(vt::Rng& r, const std::function<T()>& val) {
  Eigen::Isometry3d t = Eigen::Translation3d(rfin(r), rfin(r), rfin(r)) * Eigen::Quaterniond(rfin(r) + 0.1, rfin(r), rfin(r), rfin(r)).normalized();
  int64_t dim[3]; for (int64_t& d : dim) d = r.in(1, 3);
  if (r.chance(0.04)) { dim[r.below(3)] = r.in(250, 300); }   // more cells along an axis than a byte counts
  VoxelGrid::VoxelGrid<T> g(t, r.in(1, 8) / 4.0, r.in(1, 8) / 4.0, r.in(1, 8) / 4.0, dim[0], dim[1], dim[2], val(), val());
  for (long k = r.in(0, 8); k > 0; k--) g.SetValue((int64_t)r.below(g.GetNumXCells()), (int64_t)r.below(g.GetNumYCells()), (int64_t)r.below(g.GetNumZCells()), val());
  if (r.chance(0.3)) g.SetDefaultValue(val());
  if (r.chance(0.3)) g.SetOOBValue(val());
  if (r.chance(0.3)) g.UpdateOriginTransform(Eigen::Isometry3d(Eigen::Translation3d(rfin(r), rfin(r), rfin(r))));
  return g;
}
static simple_linked_robot_model::SimpleJointModel rjoint(vt::Rng& r) {
  typedef simple_linked_robot_model::SimpleJointModel J;
  const J::JOINT_TYPE ts[] = {J::PRISMATIC, J::REVOLUTE, J::CONTINUOUS, J::FIXED};
  const double a = rfin(r), b = rfin(r); J::JOINT_TYPE t = ts[r.below(4)];
  J j(std::make_pair(std::min(a, b), std::max(a, b)), rfin(r), t); return r.chance(0.1) ? J() : j;
}
static Codec comp(vt::Rng& r) {
  typedef arc_dijkstras::Graph<std::string> G; typedef simple_linked_robot_model::SimpleJointModel J;
  switch (r.in(0, 6)) {
    case 0: return codec<G>(rgraph(r), [](const G& g, Buf& b) { return G::Serialize(g, b, SerializeString<char>); }, [](const Buf& b, uint64_t at) { return G::Deserialize(b, at, DeserializeString<char>); });
    case 1: { G g = rgraph(r); while (g.getNodes().empty()) g = rgraph(r); typedef arc_dijkstras::SimpleDijkstrasAlgorithm<std::string> A; typedef A::DijkstrasResult R;
      R d = A::PerformDijkstrasAlgorithm(g, r.below((long)g.getNodes().size()));
      return codec<R>(d, [](const R& x, Buf& b) { return A::SerializeDijstrasResult(x, b, SerializeString<char>); }, [](const Buf& b, uint64_t at) { return A::DijstrasResult(b, at, DeserializeString<char>); }); }
    case 2: { typedef VoxelGrid::VoxelGrid<double> V; return codec<V>(rgrid<double>(r, [&] { return rd(r); }), [](const V& g, Buf& b) { return V::Serialize(g, b, SerializeFixedSizePOD<double>); }, [](const Buf& b, uint64_t at) { return V::Deserialize(b, at, DeserializeFixedSizePOD<double>); }); }
    case 3: { typedef VoxelGrid::VoxelGrid<std::string> V; return codec<V>(rgrid<std::string>(r, [&] { return rs(r); }), [](const V& g, Buf& b) { return V::Serialize(g, b, SerializeString<char>); }, [](const Buf& b, uint64_t at) { return V::Deserialize(b, at, DeserializeString<char>); }); }
    case 4: return codec<J>(rjoint(r), J::Serialize, J::Deserialize);
    case 5: { std::vector<J> v; for (long k = r.in(0, 5); k > 0; k--) v.push_back(rjoint(r)); typedef simple_linked_robot_model::SimpleLinkedConfigSerializer L; return codec<std::vector<J>>(v, L::Serialize, L::Deserialize); }
    default: { G g = rgraph(r); while (g.getNodes().empty()) g = rgraph(r); typedef arc_dijkstras::GraphNode<std::string> N; N n = g.getNode(r.below((long)g.getNodes().size()));
      if (r.chance(0.5) && !n.getInEdges().empty()) { typedef arc_dijkstras::GraphEdge E; return codec<E>(n.getInEdges()[0], E::Serialize, E::Deserialize); }
      return codec<N>(n, [](const N& g2, Buf& b) { return N::Serialize(g2, b, SerializeString<char>); }, [](const Buf& b, uint64_t at) { return N::Deserialize(b, at, DeserializeString<char>); }); }
  }
}
#ifdef WITH_ROS
static std::string canon(const std_msgs::Header& h) { return "H" + std::to_string(h.seq) + "," + std::to_string(h.stamp.sec) + "," + std::to_string(h.stamp.nsec) + canon(h.frame_id); }
static std::string canon(const geometry_msgs::Point& p) { return "P" + hexof(p.x) + hexof(p.y) + hexof(p.z); }
static std::string canon(const geometry_msgs::Vector3& p) { return "V" + hexof(p.x) + hexof(p.y) + hexof(p.z); }
static std::string canon(const geometry_msgs::Quaternion& p) { return "Q" + hexof(p.x) + hexof(p.y) + hexof(p.z) + hexof(p.w); }
static std::string canon(const geometry_msgs::Pose& p) { return canon(p.position) + canon(p.orientation); }
static std::string canon(const geometry_msgs::Transform& p) { return canon(p.translation) + canon(p.rotation); }
static std::string canon(const geometry_msgs::PoseStamped& p) { return canon(p.header) + canon(p.pose); }
static std::string canon(const geometry_msgs::TransformStamped& p) { return canon(p.header) + canon(p.child_frame_id) + canon(p.transform); }
static void fill(vt::Rng& r, std_msgs::Header& h) { h.seq = (uint32_t)r.next(); h.stamp.sec = r.chance(.3) ? 0xfffffff0u + (uint32_t)r.below(16) : (uint32_t)r.next(); h.stamp.nsec = (uint32_t)r.below(1000000000); h.frame_id = rs(r); }
static void fill(vt::Rng& r, geometry_msgs::Point& p) { p.x = rd(r); p.y = rd(r); p.z = rd(r); }
static void fill(vt::Rng& r, geometry_msgs::Vector3& p) { p.x = rd(r); p.y = rd(r); p.z = rd(r); }
static void fill(vt::Rng& r, geometry_msgs::Quaternion& p) { p.x = rd(r); p.y = rd(r); p.z = rd(r); p.w = rd(r); }
static void fill(vt::Rng& r, geometry_msgs::Pose& p) { fill(r, p.position); fill(r, p.orientation); }
static void fill(vt::Rng& r, geometry_msgs::Transform& p) { fill(r, p.translation); fill(r, p.rotation); }
static void fill(vt::Rng& r, geometry_msgs::PoseStamped& p) { fill(r, p.header); fill(r, p.pose); }
static void fill(vt::Rng& r, geometry_msgs::TransformStamped& p) { fill(r, p.header); p.child_frame_id = rs(r); fill(r, p.transform); }
template <typename T> static Codec msg1(vt::Rng& r, Ser<T> s, Des<T> d) {
  if (r.chance(.2)) { std::vector<T> v((size_t)r.in(0, 4)); for (auto& x : v) fill(r, x); return codec<std::vector<T>>(v, vs<T>(false, s), vd<T>(false, d)); }
  T x; fill(r, x); return r.chance(.3) ? codec<T>(x, RosMessageSerializationWrapper<T>, RosMessageDeserializationWrapper<T>) : codec<T>(x, s, d);
}
static Codec msgs(vt::Rng& r) {
  if (r.chance(.004)) {   // inner lengths past 16 bits
    const std::string big((size_t)r.in(65520, 66000), (char)r.in(1, 255));
    if (r.chance(.3)) { std_msgs::Header h; fill(r, h); h.frame_id = big; return codec<std_msgs::Header>(h, SerializeHeader, DeserializeHeader); }
    if (r.chance(.5)) { geometry_msgs::PoseStamped p; fill(r, p); p.header.frame_id = big; return codec<geometry_msgs::PoseStamped>(p, SerializePoseStamped, DeserializePoseStamped); }
    geometry_msgs::TransformStamped t; fill(r, t); (r.chance(.5) ? t.header.frame_id : t.child_frame_id) = big; return codec<geometry_msgs::TransformStamped>(t, SerializeTransformStamped, DeserializeTransformStamped);
  }
  switch (r.in(0, 7)) {
    case 0: return msg1<std_msgs::Header>(r, SerializeHeader, DeserializeHeader);
    case 1: return msg1<geometry_msgs::Point>(r, SerializePoint, DeserializePoint);
    case 2: return msg1<geometry_msgs::Vector3>(r, SerializeVector3, DeserializeVector3);
    case 3: return msg1<geometry_msgs::Quaternion>(r, SerializeQuaternion, DeserializeQuaternion);
    case 4: return msg1<geometry_msgs::Pose>(r, SerializePose, DeserializePose);
    case 5: return msg1<geometry_msgs::Transform>(r, SerializeTransform, DeserializeTransform);
    case 6: return msg1<geometry_msgs::PoseStamped>(r, SerializePoseStamped, DeserializePoseStamped);
    default: return msg1<geometry_msgs::TransformStamped>(r, SerializeTransformStamped, DeserializeTransformStamped);
  }
}
#else
static Codec msgs(vt::Rng& r) { return prim(r); }
#endif
// a behaviour of Wire.tla: sequence of <<type, units>>
static Codec from_units(long t, const std::vector<long>& u, bool net) {
  typedef int64_t I; typedef std::vector<I> L;
  size_t p = 0; auto I1 = [&] { return (I)u[p++]; }; auto LI = [&] { L v; for (I n = I1(); n > 0; n--) v.push_back(I1()); return v; };
  const auto si = ps<I>(net); const auto di = pd<I>(net); const auto sl = vs<I>(net, si); const auto dl = vd<I>(net, di);
  switch (t) {
    case 1: return codec<I>(I1(), si, di);
    case 2: return codec<L>(LI(), sl, dl);
    case 3: { I a = I1(); L l = LI(); return codec<std::pair<I, L>>({a, l}, prs<I, L>(net, si, sl), prd<I, L>(net, di, dl)); }
    case 4: { std::vector<L> v; for (I n = I1(); n > 0; n--) v.push_back(LI()); return codec<std::vector<L>>(v, vs<L>(net, sl), vd<L>(net, dl)); }
    default: { typedef std::pair<I, I> P; std::vector<P> v; for (I n = I1(); n > 0; n--) { I a = I1(); I b = I1(); v.push_back({a, b}); } return codec<std::vector<P>>(v, vs<P>(net, prs<I, I>(net, si, si)), vd<P>(net, prd<I, I>(net, di, di))); }
  }
}
static void play(vt::Rng& r, std::vector<Codec>& cs) {
  Buf b; for (long k = r.chance(0.5) ? 0 : r.chance(0.02) ? r.in(65530, 70000) : r.in(1, 20); k > 0; k--) b.push_back((uint8_t)r.next());   // offsets past 16 bits too
  Ev("begin").f("kind", "wire").f("n", (long)b.size()).emit();
  std::vector<uint64_t> at, len;
  auto rd1 = [&](size_t k) {
    const Buf keep = b; Buf again; vt::cur() = "read " + cs[k].val.substr(0, 100);
    const auto x = cs[k].r(b, at[k], again);
    Ev("read").f("at", at[k]).f("val", x.first).f("ret", x.second).f("untouched", keep == b)
      .f("same2", again.size() == len[k] && std::equal(again.begin(), again.end(), b.begin() + (long)at[k])).emit();
  };
  for (size_t k = 0; k < cs.size(); k++) {
    const Buf keep = b; vt::cur() = "write " + cs[k].val.substr(0, 100);
    const uint64_t ret = cs[k].w(b);
    Ev("write").f("before", keep.size()).f("after", b.size()).f("ret", ret).f("val", cs[k].val).f("size", cs[k].size)
      .f("prefix", b.size() >= keep.size() && std::equal(keep.begin(), keep.end(), b.begin())).emit();
    at.push_back(keep.size()); len.push_back(ret);
    if (r.chance(0.3)) rd1((size_t)r.below((long)k + 1));
  }
  for (size_t k = 0; k < cs.size(); k++) rd1(k);
}
template <typename T> static void net1(vt::Rng& r) {
  T v = rint<T>(r); Buf b; SerializeNetworkFixedSizePOD<T>(v, b);
  std::vector<long> got(b.begin(), b.end()), want; for (size_t k = 0; k < sizeof(T); k++) want.push_back((long)(((uint64_t)v >> (8 * (sizeof(T) - 1 - k))) & 255));
  Ev("net").f("bytes", got).f("want", want).emit();
}
int main(int, char** argv) {
  vt::open();
  const std::string mode = argv[1]; vt::Rng r(vt::seed() + (mode == "comp" ? 1000 : mode == "msgs" ? 2000 : 0));
  for (const std::string& l : vt::gen_lines()) {
    const std::vector<long> u = vt::ints(l); std::vector<Codec> cs; const bool net = r.chance(0.5);
    // <<k, <<units>>>>: unit counts follow from the type, so the flat list can be split again
    size_t p = 0;
    while (p < u.size()) {
      const long t = u[p++]; std::vector<long> w(u.begin() + (long)p, u.end());
      size_t n = 1;
      auto list = [&](size_t q) { return (size_t)w[q] + 1; };
      if (t == 2) n = list(0); else if (t == 3) n = 1 + list(1);
      else if (t == 4) { n = 1; for (long k = w[0]; k > 0; k--) n += list(n); }
      else if (t == 5) n = 1 + 2 * (size_t)w[0];
      w.resize(n); cs.push_back(from_units(t, w, net)); p += n;
    }
    play(r, cs);
  }
  for (int k = 0; k < vt::scale(mode == "comp" ? 220 : mode == "msgs" ? 350 : 700, mode == "comp" ? 3000 : 9000); k++) {
    std::vector<Codec> cs; for (long j = r.in(1, 7); j > 0; j--) cs.push_back(mode == "comp" ? comp(r) : mode == "msgs" ? msgs(r) : prim(r));
    play(r, cs);
  }
  if (mode == "prim") {
    Ev("begin").f("kind", "net").f("n", 0).emit();
    for (int k = 0; k < 100; k++) { net1<uint8_t>(r); net1<int16_t>(r); net1<uint16_t>(r); net1<uint32_t>(r); net1<int32_t>(r); net1<uint64_t>(r); net1<int64_t>(r); }
  }
  vt::done();
}
