// X01 engines, X02 bits/clamping/bounded samples, X03 distributions, X04 colours, X05 maps
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <unordered_map>
#include "arc_utilities/arc_helpers.hpp"
#include "trace.hpp"
using namespace vt;
using namespace arc_helpers;
using VL = std::vector<long>;
using VV = std::vector<VL>;
static VL bytes(uint64_t v, int n = 8) { VL r; for (int k = 0; k < n; k++) { r.push_back((long)(v & 255)); v >>= 8; } return r; }

// ------------------------------------------------------------------ X01
struct Eng { virtual ~Eng() {} virtual uint64_t draw() = 0; virtual void discard(unsigned long long) = 0; virtual void seed(uint64_t) = 0; virtual Eng* clone() = 0; virtual void assign(Eng*) = 0; };
template <typename E> struct EngOf : Eng {
  E e;
  explicit EngOf(uint64_t s) : e(s) {}
  explicit EngOf(const E& o) : e(o) {}
  uint64_t draw() override { return e(); }
  void discard(unsigned long long n) override { e.discard(n); }
  void seed(uint64_t s) override { e.seed(s); }
  Eng* clone() override { return new EngOf<E>(e); }
  void assign(Eng* o) override { e = static_cast<EngOf<E>*>(o)->e; }
};
static Eng* make(const std::string& k, uint64_t s) {
  if (k == "split") return new EngOf<SplitMix64PRNG>(s);
  if (k == "x128") return new EngOf<XorShift128PlusPRNG>(s);
  return new EngOf<XorShift1024StarPRNG>(s);
}
static uint64_t some_seed(Rng& g) {
  switch (g.in(0, 6)) { case 0: return (uint64_t)g.in(0, 5); case 1: return ~0ull - (uint64_t)g.in(0, 3); case 2: return 1ull << g.in(0, 63); case 3: return (1ull << g.in(1, 63)) - 1; default: return g.next(); }
}
static void engines() {
  Rng g(seed() + 40);
  for (long s = 0, S = scale(60, 600); s < S; s++) {
    begin("eng");
    std::vector<std::string> kinds{"split", "x128", "x1024"};
    std::vector<std::string> kd; std::vector<std::unique_ptr<Eng>> e;
    bool one = g.chance(0.5); std::string k0 = g.pick(kinds);
    for (long k = 0; k < 3; k++) {
      kd.push_back(one ? k0 : g.pick(kinds));
      uint64_t sd = some_seed(g);
      e.emplace_back(make(kd.back(), sd));
      Ev("enew").f("k", k + 1).f("kind", kd.back()).f("seed", bytes(sd)).emit();
    }
    for (long t = g.in(15, 40); t--;) {
      long k = g.below(3), op = g.in(0, 9);
      Eng* q = e[(size_t)k].get();
      if (op <= 4) { long n = g.in(1, 6); VV out; cur() = "draw"; for (long z = 0; z < n; z++) out.push_back(bytes(q->draw())); Ev("edraw").f("k", k + 1).f("out", out).emit(); }
      else if (op <= 6) { long n = g.pick(VL{0, 1, 2, 3, 15, 16, 17, 33}); cur() = "discard"; q->discard((unsigned long long)n); Ev("eskip").f("k", k + 1).f("n", n).emit(); }
      else if (op == 7) { uint64_t sd = some_seed(g); q->seed(sd); Ev("eseed").f("k", k + 1).f("seed", bytes(sd)).emit(); }
      else {
        long j = g.below(3);
        if (kd[(size_t)j] != kd[(size_t)k]) continue;
        if (op == 8) q->assign(e[(size_t)j].get());
        else { Eng* c = e[(size_t)j]->clone(); e[(size_t)k].reset(c); }
        Ev("ecopy").f("k", k + 1).f("j", j + 1).emit();
      }
    }
  }
  // the sequence range of the engines is that of 64-bit words
  begin("eng");
  Ev("erange").f("lo", VV{bytes(SplitMix64PRNG::min()), bytes(XorShift128PlusPRNG::min()), bytes(XorShift1024StarPRNG::min())})
      .f("hi", VV{bytes(SplitMix64PRNG::max()), bytes(XorShift128PlusPRNG::max()), bytes(XorShift1024StarPRNG::max())}).emit();
}
// ------------------------------------------------------------------ X02
template <typename T> static void bits_of(Rng& g, long n) {
  const int nb = sizeof(T);
  for (long k = 0; k < n; k++) {
    T w = (T)some_seed(g);
    uint32_t p = (uint32_t)g.below(nb * 8);
    Ev("bit").f("nb", nb).f("w", bytes((uint64_t)w, nb)).f("p", (long)p).f("get", GetBit<T>(w, p))
        .f("one", bytes((uint64_t)SetBit<T>(w, p, true), nb)).f("zero", bytes((uint64_t)SetBit<T>(w, p, false), nb)).emit();
  }
}
template <typename T> static void clamp_of(Rng& g, double unit) {
  long lo = g.in(-20, 20), hi = lo + g.pick(VL{0, 1, 5, 20}), v = g.chance(0.3) ? g.pick(VL{lo, hi}) : g.in(-40, 40);
  auto t = [&](long z) { return (T)((double)z * unit); };
  auto back = [&](T z) { return enc((double)z, 1 / unit); };
  long mid = g.in(lo, hi); if (g.chance(0.3)) v = mid;
  Ev("clamp").f("v", v).f("lo", lo).f("hi", hi).f("mid", mid)
      .f("c", VL{back(ClampValue<T>(t(v), t(lo), t(hi))), back(ClampValueAndWarn<T>(t(v), t(lo), t(hi)))})
      .f("s", VL{back(SpreadValue<T>(t(v), t(lo), t(mid), t(hi))), back(SpreadValueAndWarn<T>(t(v), t(lo), t(mid), t(hi)))}).emit();
}
struct Tn { double mean, sd, lo, hi; };
static double tail_mass(double a, double b) {  // P(a < Z < b) of a standard normal, stable in both tails
  auto q = [](double z) { return std::isinf(z) ? (z > 0 ? 0.0 : 1.0) : 0.5 * std::erfc(z / std::sqrt(2.0)); };
  if (a > 0) return q(a) - q(b);
  return q(-b) - q(-a);
}
static Tn some_tn(Rng& g) {
  Tn t;
  const double I = std::numeric_limits<double>::infinity();
  t.mean = (double)g.in(-40, 40) / 8; t.sd = g.pick(std::vector<double>{0.125, 0.5, 1, 2, 8});
  switch (g.in(0, 7)) {
    case 0: t.lo = -I; t.hi = I; break;
    case 1: t.lo = t.mean + t.sd * (double)g.in(-24, 32) / 8; t.hi = I; break;
    case 2: t.hi = t.mean + t.sd * (double)g.in(-32, 24) / 8; t.lo = -I; break;
    default: {
      double a = (double)g.in(-48, 40) / 8, w = g.pick(std::vector<double>{0.0625, 0.25, 1, 3, 8});
      if (a <= 0 && a + w >= 0) w = std::max(w, 0.25);
      t.lo = t.mean + t.sd * a; t.hi = t.mean + t.sd * (a + w);
    }
  }
  if ((t.lo - t.mean) / t.sd > 5) { t.lo = t.mean + 5 * t.sd; t.hi = std::max(t.hi, t.lo + t.sd); }
  return t;
}
template <typename G> static std::vector<double> tn_draws(const Tn& t, uint64_t s, long n) {
  G prng(s); TruncatedNormalDistribution d(t.mean, t.sd, t.lo, t.hi);
  std::vector<double> r; for (long k = 0; k < n; k++) r.push_back(d(prng));
  return r;
}
static std::vector<double> tn_any(Rng& g, const Tn& t, long n) {
  cur() = "truncated normal " + std::to_string(t.mean) + " " + std::to_string(t.sd) + " [" + std::to_string(t.lo) + "," + std::to_string(t.hi) + "]";
  uint64_t s = g.next();
  switch (g.in(0, 2)) { case 0: return tn_draws<std::mt19937_64>(t, s, n); case 1: return tn_draws<XorShift1024StarPRNG>(t, s, n); default: return tn_draws<SplitMix64PRNG>(t, s, n); }
}
static void bounded() {
  Rng g(seed() + 41);
  for (long k = 0, K = scale(40, 400); k < K; k++) {
    begin("bits");
    bits_of<uint8_t>(g, 8); bits_of<uint16_t>(g, 8); bits_of<uint32_t>(g, 8); bits_of<uint64_t>(g, 8);
    for (int q = 0; q < 10; q++) { clamp_of<int>(g, 1); clamp_of<double>(g, 0.125); clamp_of<float>(g, 0.5f); clamp_of<long>(g, 1); }
    for (int q = 0; q < 4; q++) {
      Tn t = some_tn(g);
      VL out; for (double v : tn_any(g, t, 50)) out.push_back(fix(v, 1e6));
      Ev("tbound").f("lo", fix(t.lo, 1e6)).f("hi", fix(t.hi, 1e6)).f("out", out).emit();
    }
    Tn z = some_tn(g); z.sd = 0; z.lo = z.mean - 1; z.hi = z.mean + 1;
    VL out; for (double v : tn_any(g, z, 5)) out.push_back(fix(v, 1e6));
    Ev("tbound").f("lo", fix(z.mean, 1e6)).f("hi", fix(z.mean, 1e6)).f("out", out).emit();
  }
}
// ------------------------------------------------------------------ X03
static void dists() {
  Rng g(seed() + 42);
  for (long k = 0, K = scale(60, 600); k < K; k++) {
    begin("dist");
    {
      Tn t = some_tn(g);
      double a = std::isinf(t.lo) ? t.mean - 6 * t.sd : t.lo, b = std::isinf(t.hi) ? std::max(t.mean, a) + 6 * t.sd : t.hi;
      if (std::isinf(t.lo) && !std::isinf(t.hi)) a = std::min(t.mean, b) - 6 * t.sd;
      // the bulk lies near the mode
      double mode = std::min(std::max(t.mean, a), b);
      double la = std::max(a, mode - 3 * t.sd), lb = std::min(b, mode + 3 * t.sd);
      double total = tail_mass((t.lo - t.mean) / t.sd, (t.hi - t.mean) / t.sd);
      const long N = 400;
      std::vector<double> d = tn_any(g, t, N);
      VL cuts, cnt, want;
      double prev = t.lo;
      for (int q = 1; q <= 5; q++) {
        double c = q == 5 ? t.hi : la + (lb - la) * q / 5.0;
        long n = 0; for (double v : d) if (v >= prev && (v < c || q == 5)) n++;
        cnt.push_back(n); want.push_back(fix(tail_mass((prev - t.mean) / t.sd, (c - t.mean) / t.sd) / total, 1000));
        prev = c;
      }
      Ev("tshare").f("n", N).f("cnt", cnt).f("want", want).emit();
      // the stated distribution functions (bounds within a few deviations)
      if ((t.lo - t.mean) / t.sd < 3.0 && (t.hi - t.mean) / t.sd > -3.0) {
        VL cdf, ref, itg, pdfsum; VL xs;
        auto prob = [&](double p, double q) { p = std::max(p, t.lo); q = std::min(q, t.hi); return p >= q ? 0.0 : tail_mass((p - t.mean) / t.sd, (q - t.mean) / t.sd) / total; };
        double w = (b - a);
        for (int q = -1; q <= 9; q++) {
          double x = a + w * q / 8.0;
          cdf.push_back(fix(EvaluateTruncatedGaussianCDF(t.mean, t.lo, t.hi, t.sd, x), 1e6));
          ref.push_back(fix(prob(-std::numeric_limits<double>::infinity(), x), 1e6));
          if (q >= 0) { double y = a + w * (q - 1) / 8.0; itg.push_back(fix(IntegrateTruncatedGaussian(t.mean, t.lo, t.hi, t.sd, y, x), 1e6)); }
        }
        double s = 0; const int M = 400;
        for (int q = 0; q < M; q++) s += EvaluateTruncatedGaussianPDF(t.mean, t.lo, t.hi, t.sd, a + w * (q + 0.5) / M) * w / M;
        double outside = (std::isinf(t.lo) ? 0.0 : EvaluateTruncatedGaussianPDF(t.mean, t.lo, t.hi, t.sd, t.lo - 0.01)) + (std::isinf(t.hi) ? 0.0 : EvaluateTruncatedGaussianPDF(t.mean, t.lo, t.hi, t.sd, t.hi + 0.01));
        Ev("tcdf").f("cdf", cdf).f("ref", ref).f("itg", itg).f("sum", fix(s, 1e4)).f("outside", fix(outside, 1e6)).f("covered", fix(prob(a, b), 1e4)).emit();
      }
    }
    {
      double m = (double)g.in(-40, 40) / 8, sd = (double)g.in(1, 40) / 8;
      VL cdf, ref, itg, pdf, pref;
      for (int q = -4; q <= 4; q++) {
        double x = m + sd * q * 0.75;
        cdf.push_back(fix(EvaluateGaussianCDF(m, sd, x), 1e6)); ref.push_back(fix(tail_mass(-std::numeric_limits<double>::infinity(), 0.75 * q), 1e6));
        pdf.push_back(fix(EvaluateGaussianPDF(m, sd, x) * sd, 1e6)); pref.push_back(fix(std::exp(-0.5 * 0.5625 * q * q) / std::sqrt(2 * M_PI), 1e6));
        if (q > -4) itg.push_back(fix(IntegrateGaussian(m, sd, m + sd * (q - 1) * 0.75, x), 1e6));
      }
      Ev("gcdf").f("cdf", cdf).f("ref", ref).f("itg", itg).f("pdf", pdf).f("pref", pref).emit();
    }
    {  // several Gaussians: covariance A A^T of a small integer A, possibly singular
      long n = g.in(1, 3), r = g.in(0, n);
      Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n);
      VV sig((size_t)n, VL((size_t)n, 0)); VL mu;
      for (long c = 0; c < r; c++) for (long q = 0; q < n; q++) A(q, c) = (double)g.in(-3, 3);
      Eigen::MatrixXd C = A * A.transpose();
      Eigen::VectorXd m(n);
      for (long q = 0; q < n; q++) { m(q) = (double)g.in(-9, 9); mu.push_back((long)m(q)); for (long p = 0; p < n; p++) sig[(size_t)q][(size_t)p] = (long)C(q, p); }
      // directions the distribution cannot move in
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(C);
      cur() = "multivariate " + js(sig);
      MultivariteGaussianDistribution d(m, C);
      SplitMix64PRNG prng(g.next());
      const long N = 500;
      Eigen::VectorXd s = Eigen::VectorXd::Zero(n); Eigen::MatrixXd S = Eigen::MatrixXd::Zero(n, n);
      bool dim = true; double flat = 0;
      for (long q = 0; q < N; q++) {
        Eigen::VectorXd x = d(prng);
        if (x.rows() != n) { dim = false; break; }
        Eigen::VectorXd y = x - m; s += y; S += y * y.transpose();
        for (long p = 0; p < n; p++) if (es.eigenvalues()(p) < 1e-9) flat = std::max(flat, std::abs(es.eigenvectors().col(p).dot(y)));
      }
      VL mean; VV cov((size_t)n, VL((size_t)n, 0));
      for (long q = 0; q < n; q++) { mean.push_back(fix(s(q) / (double)N, 100)); for (long p = 0; p < n; p++) cov[(size_t)q][(size_t)p] = fix(S(q, p) / (double)N, 10); }
      Ev("mvg").f("n", n).f("N", N).f("dim", dim).f("sig", sig).f("mean", mean).f("cov", cov).f("flat", fix(flat, 1e5)).emit();
    }
    {  // rotations
      RandomRotationGenerator r1, r2; uint64_t sd = g.next();
      XorShift128PlusPRNG p1(sd), p2(sd);
      const long N = 400; VL sq(4, 0); VL worst{0, 0}; double nn = 0, diff = 0; long same = 1; std::vector<double> m2(4, 0.0); VL pos(4, 0);
      for (long q = 0; q < N; q++) {
        Eigen::Quaterniond a = r1.GetQuaternion(p1); std::vector<double> b = r2.GetRawQuaternion(p2);
        nn = std::max(nn, std::abs(a.norm() - 1));
        diff = std::max(diff, std::max(std::max(std::abs(a.x() - b[0]), std::abs(a.y() - b[1])), std::max(std::abs(a.z() - b[2]), std::abs(a.w() - b[3]))));
        double v[4] = {a.x(), a.y(), a.z(), a.w()};
        for (int z = 0; z < 4; z++) { m2[(size_t)z] += v[z] * v[z]; if (v[z] > 0) pos[(size_t)z]++; }
      }
      for (int z = 0; z < 4; z++) sq[(size_t)z] = fix(m2[(size_t)z] / (double)N, 1000);
      (void)same; (void)worst;
      VV eul; bool esame = true;
      for (long q = 0; q < 50; q++) {
        Eigen::Vector3d a = r1.GetEulerAngles(p1); std::vector<double> b = r2.GetRawEulerAngles(p2);
        for (int z = 0; z < 3; z++) if (a(z) != b[(size_t)z]) esame = false;
        eul.push_back({fix(a(0), 1e6), fix(a(1), 1e6), fix(a(2), 1e6)});
      }
      // scripted extreme draws
      for (int mask = 0; mask < 81; mask++) {
        int mm = mask; const double pick[3] = {0.0, 0.5, std::nextafter(1.0, 0.0)};
        std::vector<double> dr; for (int z = 0; z < 4; z++) { dr.push_back(pick[mm % 3]); mm /= 3; }
        size_t at = 0; std::function<double()> fn = [&] { return dr[at++ % 4]; };
        Eigen::Quaterniond a = RandomRotationGenerator::GenerateUniformRandomQuaternion(fn);
        nn = std::max(nn, std::isnan(a.norm()) ? 1e3 : std::abs(a.norm() - 1));
        at = 0; Eigen::Vector3d e = RandomRotationGenerator::GenerateUniformRandomEulerAngles(fn);
        eul.push_back({fix(e(0), 1e6), fix(e(1), 1e6), fix(e(2), 1e6)});
      }
      Ev("rot").f("n", N).f("norm", fix(nn, 1e6)).f("diff", fix(diff, 1e6)).f("sq", sq).f("pos", pos).f("esame", esame).f("eul", eul).emit();
    }
  }
}
// ------------------------------------------------------------------ X04
struct Msg { float r, g, b, a; };
static long mu(double v) { return fix(v, 1e6); }
template <typename C> static VL ch(const C& c) { return VL{mu(c.r), mu(c.g), mu(c.b), mu(c.a)}; }
static void colours() {
  Rng g(seed() + 43);
  auto f = [&] { return (float)((double)g.in(-512, 1536) / 1024.0); };
  auto h = [&] { return (uint8_t)g.in(0, 255); };
  begin("col");
  for (int v = 0; v < 256; v++) {
    RGBAColor c; c.SetRHex((uint8_t)v); c.SetGHex((uint8_t)(255 - v)); c.SetBHex((uint8_t)v); c.SetAHex((uint8_t)(v ^ 85));
    Ev("hexrt").f("in", VL{v, 255 - v, v, v ^ 85}).f("out", VL{c.GetRHex(), c.GetGHex(), c.GetBHex(), c.GetAHex()}).f("ch", VL{mu(c.GetR()), mu(c.GetG()), mu(c.GetB()), mu(c.GetA())}).emit();
  }
  begin("col");
  for (uint32_t k = 0; k < 30; k++) Ev("uniq").f("k", (long)k).f("c", ch(GenerateUniqueColor<RGBAColor>(k, 0.5f))).emit();
  { UniqueColorGenerator<Msg> u(0.25f); VV l; for (int k = 0; k < 300; k++) l.push_back(ch(u.next())); VV r; for (uint32_t k = 1; k <= 300; k++) r.push_back(ch(GenerateUniqueColor<Msg>(k, 0.25f))); Ev("useq").f("l", l).f("r", r).emit(); }
  for (long k = 0, K = scale(60, 600); k < K; k++) {
    begin("col");
    for (int q = 0; q < 8; q++) {
      float a = f(), b = f(), c = f(), d = f(); uint8_t x = h(), y = h(), z = h(), w = h();
      VL fl{mu(a), mu(b), mu(c), mu(d)}, hx{x, y, z, w};
      VV out{ch(RGBAColor(a, b, c, d)), ch(RGBAColorBuilder<Msg>::MakeFromFloatColors(a, b, c, d)), ch(ConvertColor<Msg, RGBAColor>(Msg{a, b, c, d})), ch(ConvertColor<Msg, Msg>(Msg{a, b, c, d}))};
      RGBAColor s; s.SetR(a); s.SetG(b); s.SetB(c); s.SetA(d);
      out.push_back(ch(s));
      VV out3{ch(RGBAColor(a, b, c)), ch(RGBAColorBuilder<RGBAColor>::MakeFromFloatColors(a, b, c))};
      VV outh{ch(RGBAColor(x, y, z, w)), ch(RGBAColorBuilder<Msg>::MakeFromHexColors(x, y, z, w))};
      VV outh3{ch(RGBAColor(x, y, z)), ch(RGBAColorBuilder<RGBAColor>::MakeFromHexColors(x, y, z)), ch(RGBAColorBuilder<RGBAColor>::MakeFromMixedColors(x, y, z))};
      VV outm{ch(RGBAColor(x, y, z, d)), ch(RGBAColorBuilder<Msg>::MakeFromMixedColors(x, y, z, d))};
      Ev("colours").f("fl", fl).f("hx", hx).f("out", out).f("out3", out3).f("outh", outh).f("outh3", outh3).f("outm", outm).f("hex", VL{s.GetRHex(), s.GetGHex(), s.GetBHex(), s.GetAHex()}).emit();
      RGBAColor c1(a, b, c, d), c2(x, y, z, w); double t = (double)g.in(-256, 1280) / 1024.0; double m = (double)g.in(-64, 256) / 64.0;
      Ev("cmix").f("c1", ch(c1)).f("c2", ch(c2)).f("t", mu(t)).f("mix", ch(InterpolateColor(c1, c2, (float)t))).f("m", (long)(m * 64)).f("mul", ch(Multiply(c1, (float)m))).emit();
    }
    double lo = (double)g.in(-64, 64) / 8, rg = std::ldexp(1.0, (int)g.in(-3, 6));
    VV hot; VL at;
    for (int q = 0; q < 24; q++) {
      long p = q < 5 ? 256 * q : g.in(-200, 1224);
      at.push_back(p);
      hot.push_back(ch(RGBAColorBuilder<RGBAColor>::InterpolateHotToCold(lo + rg * (double)p / 1024.0, lo, lo + rg)));
    }
    Ev("hot").f("at", at).f("c", hot).emit();
  }
}
// ------------------------------------------------------------------ X05
static void maps() {
  Rng g(seed() + 44);
  using P = std::pair<long, long>;
  auto dump = [](const std::map<long, long>& m) { VV r; for (auto& e : m) r.push_back({e.first, e.second}); return r; };
  for (long k = 0, K = scale(300, 3000); k < K; k++) {
    if (k % 10 == 0) begin("map");
    long n = g.in(0, 12), span = g.pick(VL{3, 8, 1000});
    VL keys, vals; VV ps; std::vector<std::pair<const long, long>> cp;
    std::map<long, long> m; std::unordered_map<long, long> um; std::map<long, long, std::greater<long>> gm;
    for (long q = 0; q < n; q++) { long a = g.in(-span, span), b = g.in(0, 99); keys.push_back(a); vals.push_back(b); ps.push_back({a, b}); cp.emplace_back(a, b); m[a] = b; um[a] = b; gm[a] = b; }
    VV look;
    for (int q = 0; q < 6; q++) { long key = n && g.chance(0.5) ? g.pick(keys) : g.in(-span, span), d = g.in(-9, -1); look.push_back({key, d, RetrieveOrDefault(m, key, d), RetrieveOrDefault(um, key, d)}); }
    VV listed; for (auto& e : GetKeysAndValues(m)) listed.push_back({e.first, e.second});
    VL down = GetKeys(gm); std::reverse(down.begin(), down.end());
    cur() = "map of " + js(ps);
    Ev("map").f("ps", ps).f("keys", GetKeys(m)).f("down", down).f("listed", listed).f("m1", dump(MakeFromKeysAndValues<long, long>(cp))).f("m2", dump(MakeFromKeysAndValues<long, long>(keys, vals))).f("look", look).emit();
    // substrings over a two-letter alphabet, as lists of letters
    auto word = [&](long len) { VL w; for (long q = 0; q < len; q++) w.push_back(g.in(0, 1)); return w; };
    auto str = [](const VL& w) { std::string s; for (long c : w) s += (char)('a' + c); return s; };
    VV ws; std::vector<std::string> ss; VL sub = word(g.in(0, g.chance(.1) ? 9 : 3));
    for (long q = g.in(0, 4); q--;) { VL w = g.chance(.08) ? VL((size_t)g.in(60, 150), 0) : word(g.in(0, 6)); if (g.chance(0.6)) w.insert(w.begin() + g.in(0, (long)w.size()), sub.begin(), sub.end()); ws.push_back(w); ss.push_back(str(w)); }
    Ev("substr").f("ws", ws).f("sub", sub).f("all", CheckAllStringsForSubstring(ss, str(sub))).emit();
  }
}
int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "";
  freopen("/dev/null", "w", stderr);
  vt::open();
  if (m == "eng") engines();
  else if (m == "bounded") bounded();
  else if (m == "dist") dists();
  else if (m == "colour") colours();
  else maps();
  done();
}
