// The parts of roscpp and of the message packages that the headers under test use, enough to run them in one process.
#pragma once
#include <array>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_array.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace ros {
struct Duration { int32_t sec = 0, nsec = 0; Duration() {} Duration(int32_t s, int32_t n) : sec(s), nsec(n) { norm(); } explicit Duration(double t) { long long n = (long long)std::floor(t * 1e9 + .5); sec = 0; *this = from(n); }
  static Duration from(long long n) { Duration d; long long s = n / 1000000000LL, r = n % 1000000000LL; if (r < 0) { r += 1000000000LL; s--; } d.sec = (int32_t)s; d.nsec = (int32_t)r; return d; }
  long long ns() const { return sec * 1000000000LL + nsec; } void norm() { *this = from(ns()); } double toSec() const { return (double)sec + 1e-9 * nsec; }
  Duration operator+(const Duration& o) const { return from(ns() + o.ns()); } Duration operator-(const Duration& o) const { return from(ns() - o.ns()); } Duration operator*(double k) const { return Duration(toSec() * k); } Duration operator-() const { return from(-ns()); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; } Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return ns() == o.ns(); } bool operator!=(const Duration& o) const { return ns() != o.ns(); } bool operator<(const Duration& o) const { return ns() < o.ns(); } bool operator>(const Duration& o) const { return ns() > o.ns(); } bool operator<=(const Duration& o) const { return ns() <= o.ns(); } bool operator>=(const Duration& o) const { return ns() >= o.ns(); } };
using WallDuration = Duration;
struct Time { uint32_t sec = 0, nsec = 0; Time() {} Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {} static Time now(); bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; } };
// message serialization as in roscpp: the buffer holds a four byte length and then the message
struct SerializedMessage { boost::shared_array<uint8_t> buf; size_t num_bytes = 0; uint8_t* message_start = nullptr; SerializedMessage() {} SerializedMessage(boost::shared_array<uint8_t> b, size_t n) : buf(b), num_bytes(n), message_start(b ? b.get() : nullptr) {} };
struct Out { std::vector<uint8_t> b; template <typename T> void io(const T& v) { const uint8_t* p = (const uint8_t*)&v; b.insert(b.end(), p, p + sizeof v); } void io(const std::string& s) { io((uint32_t)s.size()); b.insert(b.end(), s.begin(), s.end()); } };
struct In { const uint8_t* p; const uint8_t* e; template <typename T> void io(T& v) { if (e - p < (long)sizeof v) throw std::runtime_error("Buffer Overrun"); std::memcpy(&v, p, sizeof v); p += sizeof v; } void io(std::string& s) { uint32_t n; io(n); if (e - p < (long)n) throw std::runtime_error("Buffer Overrun"); s.assign((const char*)p, n); p += n; } };
namespace serialization {
template <typename M> uint32_t serializationLength(const M& m) { Out o; const_cast<M&>(m).fields(o); return (uint32_t)o.b.size(); }
template <typename M> SerializedMessage serializeMessage(const M& m) { Out o; const_cast<M&>(m).fields(o); SerializedMessage s; uint32_t len = (uint32_t)o.b.size(); s.num_bytes = len + 4; s.buf.reset(new uint8_t[s.num_bytes]); std::memcpy(s.buf.get(), &len, 4); s.message_start = s.buf.get() + 4; if (len) std::memcpy(s.message_start, o.b.data(), len); return s; }
template <typename M> void deserializeMessage(const SerializedMessage& s, M& m) { In i{s.message_start, s.buf.get() + s.num_bytes}; m.fields(i); }
}
}
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; template <typename S> void fields(S& s) { s.io(seq); s.io(stamp.sec); s.io(stamp.nsec); s.io(frame_id); } }; }
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; template <typename S> void fields(S& s) { s.io(x); s.io(y); s.io(z); } };
struct Vector3 { double x = 0, y = 0, z = 0; template <typename S> void fields(S& s) { s.io(x); s.io(y); s.io(z); } };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; template <typename S> void fields(S& s) { s.io(x); s.io(y); s.io(z); s.io(w); } };
struct Pose { Point position; Quaternion orientation; template <typename S> void fields(S& s) { position.fields(s); orientation.fields(s); } };
struct Transform { Vector3 translation; Quaternion rotation; template <typename S> void fields(S& s) { translation.fields(s); rotation.fields(s); } };
struct Wrench { Vector3 force, torque; };
struct PointStamped { std_msgs::Header header; Point point; };
struct PoseStamped { std_msgs::Header header; Pose pose; template <typename S> void fields(S& s) { header.fields(s); pose.fields(s); } };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; template <typename S> void fields(S& s) { header.fields(s); s.io(child_frame_id); transform.fields(s); } };
}
namespace shape_msgs { struct MeshTriangle { std::array<uint32_t, 3> vertex_indices{{0, 0, 0}}; }; }
namespace trajectory_msgs {
struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; ros::Duration time_from_start; };
struct JointTrajectory { std_msgs::Header header; std::vector<std::string> joint_names; std::vector<JointTrajectoryPoint> points; };
}
#define ROS_STUB_LOG(x) do { std::ostringstream ros_stub_s; ros_stub_s << x; } while (0)
#define ROS_INFO_STREAM(x) ROS_STUB_LOG(x)
#define ROS_WARN_STREAM(x) ROS_STUB_LOG(x)
#define ROS_ERROR_STREAM(x) ROS_STUB_LOG(x)
#define ROS_FATAL_STREAM(x) ROS_STUB_LOG(x)
#define ROS_DEBUG_STREAM(x) ROS_STUB_LOG(x)
#define ROS_INFO_STREAM_NAMED(n, x) ROS_STUB_LOG(x)
#define ROS_WARN_STREAM_NAMED(n, x) ROS_STUB_LOG(x)
#define ROS_ERROR_STREAM_NAMED(n, x) ROS_STUB_LOG(x)
#define ROS_FATAL_STREAM_NAMED(n, x) ROS_STUB_LOG(x)
#define ROS_DEBUG_STREAM_NAMED(n, x) ROS_STUB_LOG(x)
// a parameter server, a topic and its callback queue, all driven by the harness
namespace ros {
struct Value { char kind; bool b; int i; double d; std::string s; std::vector<double> v; std::vector<int> vi; std::vector<std::string> vs; };   // b i d s v
inline std::map<std::string, Value>& params() { static std::map<std::string, Value> p; return p; }
inline bool& alive() { static bool a = true; return a; }
inline bool ok() { return alive(); }
inline std::function<void()>& on_sleep() { static std::function<void()> f; return f; }
struct Rate { double hz; explicit Rate(double h) : hz(h) {} bool sleep() { if (on_sleep()) on_sleep()(); return true; } };
using VoidPtr = boost::shared_ptr<void>;
struct CallbackQueue { bool running = false; std::vector<std::function<void()>> pending; void callAvailable(WallDuration = WallDuration()) { if (on_sleep()) on_sleep()(); auto p = pending; pending.clear(); for (auto& f : p) f(); } };
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; }
struct AsyncSpinner { CallbackQueue* q; AsyncSpinner(uint32_t, CallbackQueue* q_) : q(q_) {} void start() { q->running = true; auto p = q->pending; q->pending.clear(); for (auto& f : p) f(); } void stop() { q->running = false; } ~AsyncSpinner() { stop(); } };
struct SubBase { std::string topic; uint32_t depth; CallbackQueue* queue; std::function<void(const void*)> call; };
inline std::vector<boost::shared_ptr<SubBase>>& subs() { static std::vector<boost::shared_ptr<SubBase>> s; return s; }
struct Subscriber { boost::shared_ptr<SubBase> s; void shutdown() { auto& v = subs(); for (size_t k = 0; k < v.size(); k++) if (v[k] == s) { v.erase(v.begin() + (long)k); break; } s.reset(); } Subscriber() {} Subscriber(const Subscriber&) = default; Subscriber& operator=(const Subscriber&) = default; ~Subscriber() { if (s && s.use_count() == 2) shutdown(); } };
struct SubscribeOptions { boost::shared_ptr<SubBase> s; template <class T> static SubscribeOptions create(const std::string& topic, uint32_t depth, const boost::function<void(const typename T::ConstPtr&)>& cb, const VoidPtr&, CallbackQueue* q) { SubscribeOptions o; o.s.reset(new SubBase{topic, depth, q, [cb](const void* m) { cb(*static_cast<const typename T::ConstPtr*>(m)); }}); return o; } };
template <typename P> inline void publish(const std::string& topic, const P& m) { auto v = subs(); for (auto& s : v) if (s->topic == topic) { if (s->queue->running) s->call(&m); else { if (s->queue->pending.size() >= s->depth) s->queue->pending.erase(s->queue->pending.begin()); auto c = s->call; s->queue->pending.push_back([c, m]() { c(&m); }); } } }
struct NodeHandle { std::string ns; explicit NodeHandle(const std::string& n = "/") : ns(n) {}
  const std::string& getNamespace() const { return ns; }
  const Value* find(const std::string& k) const { auto it = params().find(ns + "/" + k); return it == params().end() ? nullptr : &it->second; }
  bool getParam(const std::string& k, bool& o) const { auto p = find(k); if (!p || p->kind != 'b') return false; o = p->b; return true; }
  bool getParam(const std::string& k, int& o) const { auto p = find(k); if (!p || (p->kind != 'i' && p->kind != 'd')) return false; if (p->kind == 'd') { if (p->d != std::floor(p->d)) return false; o = (int)p->d; } else o = p->i; return true; }
  bool getParam(const std::string& k, double& o) const { auto p = find(k); if (!p || (p->kind != 'i' && p->kind != 'd')) return false; o = p->kind == 'd' ? p->d : p->i; return true; }
  bool getParam(const std::string& k, std::string& o) const { auto p = find(k); if (!p || p->kind != 's') return false; o = p->s; return true; }
  bool getParam(const std::string& k, std::vector<double>& o) const { auto p = find(k); if (!p || p->kind != 'v') return false; o = p->v; return true; }
  bool getParam(const std::string& k, std::vector<int>& o) const { auto p = find(k); if (!p || p->kind != 'v') return false; o = p->vi; return true; }
  bool getParam(const std::string& k, std::vector<std::string>& o) const { auto p = find(k); if (!p || p->kind != 'v') return false; o = p->vs; return true; }
  Subscriber subscribe(SubscribeOptions& o) { subs().push_back(o.s); Subscriber s; s.s = o.s; o.s.reset(); return s; }
};
}
