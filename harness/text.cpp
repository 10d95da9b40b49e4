// W07 pretty printing, W08 small containers and helpers
#include <arc_utilities/pretty_print.hpp>
#include <arc_utilities/arc_exceptions.hpp>
#include <arc_utilities/enumerate.h>
#include <arc_utilities/filesystem.hpp>
#include <arc_utilities/hash.hpp>
#include <arc_utilities/ostream_operators.hpp>
#include <arc_utilities/stl_wrappers.hpp>
#include <boost/filesystem.hpp>
#include "trace.hpp"
using vt::Ev; using vt::Rng; using vt::Raw; using vt::js;
using VL = std::vector<long>;
using S = std::string;
// ---------------------------------------------------------------- values and their structure
static Rng* G;
static S leaf(const char* k, long n) { return S("{\"k\":\"") + k + "\",\"n\":" + std::to_string(n) + "}"; }
static S node(const char* k, const std::vector<S>& c) { S o = S("{\"k\":\"") + k + "\",\"c\":["; for (size_t i = 0; i < c.size(); i++) o += (i ? "," : "") + c[i]; return o + "]}"; }
static S nums(const char* k, const VL& c) { return S("{\"k\":\"") + k + "\",\"c\":" + js(c) + "}"; }
static long e8(double d) { return std::lround(d * 8); }
static S tree(const int& x) { return leaf("i", x); }
static S tree(const bool& x) { return leaf("b", x ? 1 : 0); }
static S tree(const double& x) { return leaf("d", e8(x)); }
static S tree(const S& x) { return "{\"k\":\"s\",\"s\":" + js(x) + "}"; }
static S tree(const Eigen::Vector2d& v) { return nums("v2", {e8(v(0)), e8(v(1))}); }
static S tree(const Eigen::Vector3d& v) { return nums("v3", {e8(v(0)), e8(v(1)), e8(v(2))}); }
static S tree(const Eigen::Vector4d& v) { return nums("v4", {e8(v(0)), e8(v(1)), e8(v(2)), e8(v(3))}); }
static S tree(const Eigen::Quaterniond& v) { return nums("q", {e8(v.x()), e8(v.y()), e8(v.z()), e8(v.w())}); }
template <typename A, typename B> static S tree(const std::pair<A, B>& p);
template <typename T, size_t N> static S tree(const std::array<T, N>& p);
#define SEQ1(C) template <typename T, typename... R> static S tree(const std::C<T, R...>& p);
#define SEQ2(C) template <typename A, typename B, typename... R> static S tree(const std::C<A, B, R...>& p);
SEQ1(vector) SEQ1(list) SEQ1(forward_list) SEQ1(deque) SEQ1(set) SEQ1(multiset) SEQ1(unordered_set) SEQ1(unordered_multiset) SEQ2(map) SEQ2(multimap) SEQ2(unordered_map) SEQ2(unordered_multimap)
template <typename C> static S kids(const char* k, const C& c) { std::vector<S> o; for (auto it = c.begin(); it != c.end(); ++it) { const typename C::value_type x = *it; o.push_back(tree(x)); } return node(k, o); }
template <typename A, typename B> static S tree(const std::pair<A, B>& p) { typename std::remove_const<A>::type a = p.first; return node("P", {tree(a), tree(p.second)}); }
template <typename T, size_t N> static S tree(const std::array<T, N>& p) { return kids("[", p); }
#undef SEQ1
#undef SEQ2
#define SEQ1(C, B) template <typename T, typename... R> static S tree(const std::C<T, R...>& p) { return kids(B, p); }
#define SEQ2(C) template <typename A, typename B, typename... R> static S tree(const std::C<A, B, R...>& p) { return kids("{", p); }
SEQ1(vector, "[") SEQ1(list, "[") SEQ1(forward_list, "[") SEQ1(deque, "[") SEQ1(set, "(") SEQ1(multiset, "(") SEQ1(unordered_set, "(") SEQ1(unordered_multiset, "(") SEQ2(map) SEQ2(multimap) SEQ2(unordered_map) SEQ2(unordered_multimap)
// ---------------------------------------------------------------- random values
static double rd() { return (double)G->in(-900, 900) / 8; }
static void fill(int& x) { x = (int)(G->chance(.1) ? G->in(-2000000, 2000000) : G->in(-20, 20)); }
static void fill(bool& x) { x = G->chance(.5); }
static void fill(double& x) { x = rd(); }
static void fill(S& x) { static const std::vector<S> W{"", "a", "bc", "x y", ", ", "[]", "q:r", "long word"}; x = G->pick(W); }
static void fill(Eigen::Vector2d& v) { v << rd(), rd(); }
static void fill(Eigen::Vector3d& v) { v << rd(), rd(), rd(); }
static void fill(Eigen::Vector4d& v) { v << rd(), rd(), rd(), rd(); }
static void fill(Eigen::Quaterniond& v) { v = Eigen::Quaterniond(rd(), rd(), rd(), rd()); }
template <typename A, typename B> static void fill(std::pair<A, B>& p);
template <typename T, size_t N> static void fill(std::array<T, N>& p) { for (auto& x : p) fill(x); }
#define F1(C) template <typename T, typename... R> static void fill(std::C<T, R...>& c);
#define F2(C) template <typename A, typename B, typename... R> static void fill(std::C<A, B, R...>& c);
F1(vector) F1(list) F1(deque) F1(set) F1(multiset) F1(forward_list) F1(unordered_set) F1(unordered_multiset) F2(map) F2(multimap) F2(unordered_map) F2(unordered_multimap)
template <typename A, typename B, typename C> static void fill2(C& c) { for (long n = G->in(0, 4); n > 0; n--) { A a; B b; fill(a); fill(b); c.insert({a, b}); } }
#undef F1
#undef F2
#define F1(C) template <typename T, typename... R> static void fill(std::C<T, R...>& c) { for (long n = G->in(0, 4); n > 0; n--) { T x; fill(x); c.insert(c.end(), x); } }
#define F2(C) template <typename A, typename B, typename... R> static void fill(std::C<A, B, R...>& c) { fill2<A, B>(c); }
F1(vector) F1(list) F1(deque) F1(set) F1(multiset) F1(unordered_set) F1(unordered_multiset) F2(map) F2(multimap) F2(unordered_map) F2(unordered_multimap)
template <typename T, typename... R> static void fill(std::forward_list<T, R...>& c) { for (long n = G->in(0, 4); n > 0; n--) { T x; fill(x); c.push_front(x); } }
template <typename A, typename B> static void fill(std::pair<A, B>& p) { fill(p.first); fill(p.second); }
template <typename T> static void show() {
  static const std::vector<S> seps{", ", ";", " | ", "", "\n"};
  T x; fill(x); const bool d = G->chance(.5); const bool own = G->chance(.4); const S sep = own ? ", " : G->pick(seps);
  const S out = own ? (d ? PrettyPrint::PrettyPrint(x, true) : PrettyPrint::PrettyPrint(x)) : PrettyPrint::PrettyPrint(x, d, sep);
  Ev("print").f("t", Raw{tree(x)}).f("d", d).f("sep", sep).f("out", out).emit();
}
static S bare(const S& s) { S o; for (char c : s) if (c != ' ') o += c; return o; }
static void pretty() {
  Rng g(vt::seed() + 60); G = &g;
  typedef Eigen::aligned_allocator<Eigen::Vector3d> A3;
  for (long k = 0, K = vt::scale(60, 900); k < K; k++) {
    vt::begin("text");
    show<int>(); show<bool>(); show<double>(); show<S>();
    show<Eigen::Vector2d>(); show<Eigen::Vector3d>(); show<Eigen::Vector4d>(); show<Eigen::Quaterniond>();
    show<std::pair<int, S>>(); show<std::array<int, 3>>(); show<std::array<std::pair<int, bool>, 2>>(); show<std::array<int, 0>>();
    show<std::vector<int>>(); show<std::vector<bool>>(); show<std::vector<std::vector<int>>>(); show<std::vector<Eigen::Vector3d, A3>>();
    show<std::list<S>>(); show<std::forward_list<int>>(); show<std::deque<double>>(); show<std::list<std::vector<bool>>>(); show<std::deque<std::set<int>>>(); show<std::forward_list<S>>();
    show<std::map<int, S>>(); show<std::multimap<int, int>>(); show<std::set<int>>(); show<std::multiset<S>>(); show<std::set<std::pair<int, bool>>>();
    show<std::unordered_map<int, std::vector<int>>>(); show<std::unordered_multimap<int, bool>>(); show<std::unordered_set<int>>(); show<std::unordered_multiset<int>>(); show<std::unordered_set<S>>();
    show<std::map<S, std::vector<double>>>(); show<std::vector<std::map<S, std::vector<double>>>>(); show<std::pair<int, std::pair<bool, std::vector<int>>>>(); show<std::multimap<S, std::pair<int, Eigen::Vector2d>>>();
    show<std::vector<Eigen::Quaterniond, Eigen::aligned_allocator<Eigen::Quaterniond>>>(); show<std::multiset<bool>>();
    { // dynamic vectors and matrices, without the spaces that align them
      Eigen::VectorXd v(g.in(1, 4)); VL e; for (long j = 0; j < v.size(); j++) { v(j) = rd(); e.push_back(e8(v(j))); }
      Eigen::MatrixXd m(g.in(1, 3), g.in(1, 3)); std::vector<VL> me; for (long r = 0; r < m.rows(); r++) { me.push_back({}); for (long c = 0; c < m.cols(); c++) { m(r, c) = rd(); me.back().push_back(e8(m(r, c))); } }
      const bool d = g.chance(.5);
      Ev("dyn").f("d", d).f("v", e).f("m", me).f("vo", bare(PrettyPrint::PrettyPrint(v, d))).f("mo", bare(PrettyPrint::PrettyPrint(m, d))).emit();
    }
    { // transforms whose quaternion has few digits
      static const long P[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1, 0, 0, 0, -1, 0, 0, 0, -1}, {-1, 0, 0, 0, 1, 0, 0, 0, -1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}}; static const long Q[4][4] = {{0, 0, 0, 8}, {8, 0, 0, 0}, {0, 8, 0, 0}, {4, 4, 4, 4}};
      const long w = g.below(4); Eigen::Isometry3d t = Eigen::Isometry3d::Identity(); for (int j = 0; j < 9; j++) t.linear()(j / 3, j % 3) = (double)P[w][j]; t.translation() << rd(), rd(), rd(); const bool d = g.chance(.5);
      Ev("iso").f("d", d).f("t", VL{e8(t(0, 3)), e8(t(1, 3)), e8(t(2, 3))}).f("q", VL(Q[w], Q[w] + 4)).f("out", PrettyPrint::PrettyPrint(t, d)).emit();
    }
    { // streams
      std::vector<int> v; fill(v); std::vector<S> w; fill(w); std::ostringstream a, b; a << v; b << w;
      Ev("stream").f("v", Raw{tree(v)}).f("w", Raw{tree(w)}).f("a", a.str()).f("b", b.str()).emit();
    }
  }
}
// ---------------------------------------------------------------- hashed containers
static double z(long n) { return n == 0 ? (G->chance(.5) ? 0.0 : -0.0) : (double)n / 4; }   // both zeros are equal
template <typename K> struct Mk;
template <> struct Mk<std::complex<double>> { static std::complex<double> of(long n) { return {z(n % 3), z(n / 3 - 1)}; } };
template <> struct Mk<Eigen::Vector3d> { static Eigen::Vector3d of(long n) { return {z(n % 2), z(n / 2 % 2 - 1), z(n / 4 - 1)}; } };
template <> struct Mk<Eigen::Vector4i> { static Eigen::Vector4i of(long n) { return {(int)(n % 2), (int)(n / 2 % 2), (int)(n / 4), 7}; } };
template <> struct Mk<Eigen::VectorXd> { static Eigen::VectorXd of(long n) { Eigen::VectorXd v(3); v << z(n % 3), z(n / 3), 1.0; return v; } };
template <> struct Mk<std::pair<int, S>> { static std::pair<int, S> of(long n) { return {(int)(n % 3), S((size_t)(n / 3), 'k')}; } };
template <> struct Mk<std::pair<Eigen::Vector3d, std::complex<double>>> { static std::pair<Eigen::Vector3d, std::complex<double>> of(long n) { return {Mk<Eigen::Vector3d>::of(n), Mk<std::complex<double>>::of(n % 4)}; } };
template <typename K> static void hashed() {
  vt::begin("hashed"); std::unordered_map<K, long> m;
  for (long s = 0; s < 60; s++) {
    const long n = G->below(9); const K k = Mk<K>::of(n); const long op = G->below(4); long r;
    if (op == 0) { r = m.insert({k, s}).second ? 1 : 0; } else if (op == 1) { m[k] = s; r = 1; } else if (op == 2) r = (long)m.erase(k); else { auto it = m.find(k); r = it == m.end() ? -1 : it->second; }
    const bool h = std::hash<K>()(k) == std::hash<K>()(Mk<K>::of(n));
    Ev("hash").f("code", op).f("key", n + 1).f("v", s).f("r", r).f("size", m.size()).f("same", h).emit();
  }
}
static void small() {
  Rng g(vt::seed() + 61); G = &g;
  for (long k = 0, K = vt::scale(12, 150); k < K; k++) {
    hashed<std::complex<double>>(); hashed<Eigen::Vector3d>(); hashed<Eigen::Vector4i>(); hashed<Eigen::VectorXd>(); hashed<std::pair<int, S>>(); hashed<std::pair<Eigen::Vector3d, std::complex<double>>>();
    vt::begin("plain");
    for (long s = 0; s < 15; s++) {
      std::vector<int> v; fill(v); for (auto& x : v) x = ((x % 5) + 5) % 5; std::vector<S> w; for (int x : v) w.push_back("s" + std::to_string(x)); const int x = (int)g.below(6);
      Ev("find").f("v", v).f("x", x).f("r", arc_std::find(v, x)).f("rs", arc_std::find(w, "s" + std::to_string(x))).emit();
      VL e; const enumerate<std::vector<int>> en(v); for (const auto& p : en) { e.push_back((long)p.first); e.push_back(p.second); } VL es; const enumerate<std::vector<S>> sn(w); for (auto it = sn.begin(); it != sn.end(); ++it) { es.push_back((long)it->first); es.push_back(it->second == w[(size_t)(it - sn.begin())] ? 1 : 0); }
      Ev("enum").f("v", v).f("e", e).f("es", es).emit();
      S msg, kind, what; fill(msg); const int line = (int)__LINE__ + 1;
      try { if (x % 2) throw_arc_exception(std::invalid_argument, msg); else throw_arc_exception(std::runtime_error, msg); } catch (const std::invalid_argument& ex) { kind = "invalid_argument"; what = ex.what(); } catch (const std::runtime_error& ex) { kind = "runtime_error"; what = ex.what(); } catch (...) { kind = "other"; }
      Ev("raise").f("x", x).f("msg", msg).f("kind", kind).f("what", what).f("file", __FILE__).f("line", line).emit();
    }
    // directories, below a scratch directory
    namespace fs = boost::filesystem; const fs::path root = fs::path(vt::workdir()) / ("mk" + std::to_string(::getpid())); fs::remove_all(root); fs::create_directories(root);
    vt::begin("dirs"); std::streambuf* out = std::cout.rdbuf(nullptr);
    auto spell = [](const VL& p) { fs::path q; for (long c : p) q /= S(1, (char)('a' + c)); return q; };
    auto dump = [&](bool files) { std::vector<VL> o; for (fs::recursive_directory_iterator it(root), end; it != end; ++it) if (fs::is_directory(it->path()) != files) { VL p; for (auto& c : fs::relative(it->path(), root)) p.push_back(c.string()[0] - 'a'); o.push_back(p); } std::sort(o.begin(), o.end()); return o; };
    for (long s = 0; s < 12; s++) {
      VL p; for (long n = g.in(1, 3); n > 0; n--) p.push_back(g.below(3)); const fs::path q = root / spell(p); const bool slash = g.chance(.2);
      if (g.chance(.25)) { if (fs::is_directory(q.parent_path()) && !fs::exists(q)) { std::ofstream f(q.string()); f << "x"; } Ev("file").f("p", p).f("files", dump(true)).f("dirs", dump(false)).emit(); continue; }
      const int st = vt::guarded([&] { arc_utilities::CreateDirectory(slash ? fs::path(q.string() + "/") : q); });
      Ev("mkdir").f("p", p).f("slash", slash).f("st", st).f("files", dump(true)).f("dirs", dump(false)).emit();
    }
    std::cout.rdbuf(out); fs::remove_all(root);
  }
}
int main(int argc, char** argv) {
  const S m = argc > 1 ? argv[1] : "";
  vt::open();
  if (m == "pretty") pretty(); else small();
  vt::done();
}
