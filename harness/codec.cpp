// Conformance harness for base64 and zlib: argv[1] selects b64 | zlib
#include "trace.hpp"
#include <arc_utilities/base64_helpers.hpp>
#include <arc_utilities/zlib_helpers.hpp>
#include <boost/filesystem.hpp>
using vt::Ev; using vt::Raw;
typedef std::vector<uint8_t> Buf;
static std::string digest(const Buf& b) { uint64_t h = 1469598103934665603ULL; for (uint8_t c : b) h = (h ^ c) * 1099511628211ULL; char o[40]; snprintf(o, sizeof o, "%016llx", (unsigned long long)h); return o; }
static std::vector<long> codes(const std::string& s) { std::vector<long> v; for (char c : s) v.push_back((uint8_t)c); return v; }
static std::vector<long> nums(const Buf& s) { return std::vector<long>(s.begin(), s.end()); }

static void b64(vt::Rng& r) {
  auto batch = [&](const std::vector<Buf>& ins) {
    std::vector<std::vector<long>> i, t, b;
    for (const Buf& x : ins) { const std::string e = Base64Helpers::Encode(x); i.push_back(nums(x)); t.push_back(codes(e)); b.push_back(nums(Base64Helpers::Decode(e))); }
    Ev("enc").f("ins", i).f("texts", t).f("backs", b).emit();
  };
  vt::begin("one"); { std::vector<Buf> v{Buf{}}; for (int a = 0; a < 256; a++) v.push_back(Buf{(uint8_t)a}); batch(v); }
  for (int a = 0; a < 256; a++) { if (a % 32 == 0) vt::begin("two"); std::vector<Buf> v; for (int b = 0; b < 256; b++) v.push_back(Buf{(uint8_t)a, (uint8_t)b}); batch(v); }
  for (int s = 0; s < 8; s++) {
    vt::begin("rnd");
    for (int k = 0; k < vt::scale(40, 800); k++) {
      std::vector<Buf> v;
      for (int j = 0; j < 20; j++) { Buf x((size_t)(r.chance(0.05) ? r.in(60, 400) : r.in(0, 20))); for (auto& c : x) c = r.chance(0.2) ? 0xff : r.chance(0.2) ? 0 : (uint8_t)r.next(); v.push_back(x); }
      batch(v);
    }
    for (int k = 0; k < vt::scale(100, 1000); k++) {
      std::string t; for (long j = r.in(0, 9); j > 0; j--) t += r.chance(0.3) ? '=' : (char)r.below(256);
      vt::cur() = t;
      Buf o; Ev("anytext").f("t", codes(t)).f("exc", vt::guarded([&] { o = Base64Helpers::Decode(t); })).emit();
    }
  }
}
static Buf data(vt::Rng& r, size_t n, int style) {
  Buf b(n);
  uint8_t run = 0;
  for (size_t k = 0; k < n; k++) {
    if (style == 0) b[k] = 0; else if (style == 1) b[k] = (uint8_t)r.next(); else if (style == 2) b[k] = (uint8_t)(k % 251);
    else { if (r.below(50) == 0) run = (uint8_t)r.next(); b[k] = run; }
  }
  return b;
}
static void roundtrip(const Buf& b, int style) {
  Buf c, d; vt::cur() = "n=" + std::to_string(b.size()) + " style=" + std::to_string(style);
  const int ce = vt::guarded([&] { c = ZlibHelpers::CompressBytes(b); });
  const int de = ce ? 9 : vt::guarded([&] { d = ZlibHelpers::DecompressBytes(c); });
  Ev("rt").f("n", b.size()).f("style", style).f("clen", c.size()).f("cexc", ce).f("dexc", de).f("d", digest(b)).f("back", digest(d)).f("backn", d.size()).emit();
}
static void zlib(vt::Rng& r) {
  std::cerr.setstate(std::ios::failbit);
  const size_t M = 1024 * 1024;
  vt::begin("round");
  for (size_t n = 0; n < 40; n++) roundtrip(data(r, n, (int)(n % 4)), (int)(n % 4));
  for (size_t base : {size_t(4096), size_t(65536), M, 2 * M}) for (long o = -1; o <= 1; o++) for (int style = 0; style < 4; style++) roundtrip(data(r, base + (size_t)o, style), style);
  // compressed sizes around the internal output window: incompressible data grows by a known small amount
  {
    Buf noise = data(r, M + 64, 1);
    const size_t over = ZlibHelpers::CompressBytes(noise).size() - noise.size();
    for (long o = -vt::scale(12, 40); o <= vt::scale(12, 40); o++) { Buf b(noise.begin(), noise.begin() + (long)(M - over) + o); roundtrip(b, 1); }
    // compressed in part: a long run after noise, ending inside the window boundary
    for (int k = 0; k < vt::scale(4, 30); k++) { Buf b(noise.begin(), noise.begin() + (long)(M - over) - r.in(0, 40)); b.resize(b.size() + (size_t)r.in(1, 300000), (uint8_t)r.next()); roundtrip(b, 3); }
  }
  for (int k = 0; k < vt::scale(20, 200); k++) { const int st = (int)r.in(0, 3); roundtrip(data(r, (size_t)r.in(0, 300000), st), st); }
  if (vt::thorough()) { roundtrip(data(r, 9 * M + 17, 1), 1); roundtrip(data(r, 40 * M, 0), 0); }
  vt::begin("hurt");
  for (int k = 0; k < vt::scale(60, 600); k++) {
    const int style = (int)r.in(0, 3);
    const Buf b = data(r, (size_t)(r.chance(0.3) ? r.in(0, 10) : r.chance(0.05) ? (long)(2 * M + 5) : r.in(1, 5000)), style);
    const Buf c = ZlibHelpers::CompressBytes(b);
    auto hurt = [&](const char* how, const Buf& x) {
      Buf d; vt::cur() = how;
      const int e = vt::guarded([&] { d = ZlibHelpers::DecompressBytes(x); });
      Ev("hurt").f("how", how).f("at", x.size()).f("exc", e).f("d", digest(b)).f("back", digest(d)).emit();
    };
    for (size_t cut : {size_t(0), size_t(1), size_t(2), c.size() - 1, c.size() - 4, c.size() - 5, (size_t)r.below((long)c.size()), (size_t)r.below((long)c.size())})
      if (cut < c.size()) hurt("cut", Buf(c.begin(), c.begin() + (long)cut));
    for (int j = 0; j < 6; j++) { Buf x = c; x[(size_t)r.below((long)x.size())] ^= (uint8_t)(1u << r.below(8)); hurt("flip", x); }
    { Buf x = c; x.erase(x.begin() + r.below((long)x.size())); if (x != Buf(c.begin(), c.end() - 1)) hurt("drop", x); }
    { Buf x = c; x.insert(x.begin() + r.below((long)x.size()), (uint8_t)r.next()); hurt("insert", x); }
    { Buf x = c; x.push_back(7); hurt("tail", x); }
    { Buf x = data(r, (size_t)r.in(1, 60), 1); Buf d; const int e = vt::guarded([&] { d = ZlibHelpers::DecompressBytes(x); }); Ev("hurt").f("how", "noise").f("at", x.size()).f("exc", e).f("d", "-").f("back", digest(d)).emit(); }
  }
  // files: block id d is [d, length bytes, payload]
  auto block = [&](long d) { Buf b; b.push_back((uint8_t)d); const size_t n = d == 1 ? 3000 : 70000; for (size_t k = 0; k < n; k++) b.push_back((uint8_t)(d == 1 ? 9 : (k * 2654435761u) >> 13)); return b; };
  const Buf B[3] = {Buf{}, block(1), block(2)};
  auto split = [&](const Buf& x) { std::vector<long> o; size_t p = 0; while (p < x.size()) { bool hit = false; for (long d = 1; d <= 2 && !hit; d++) if (x.size() - p >= B[d].size() && std::equal(B[d].begin(), B[d].end(), x.begin() + (long)p)) { o.push_back(d); p += B[d].size(); hit = true; } if (!hit) { o.push_back(-1); break; } } return o; };
  int scn = 0;
  for (const std::string& l : vt::gen_lines()) {
    const std::vector<long> u = vt::ints(l);
    const std::string dir = "store" + std::to_string(scn++); boost::filesystem::create_directory(dir);
    auto name = [&](long x) { return dir + "/f" + (x ? "." + std::to_string(x - 1) : ""); };
    bool bad[16] = {};
    vt::begin("files");
    for (size_t p = 0; p + 2 < u.size(); p += 3) {
      const long op = u[p], x = u[p + 1], d = u[p + 2];
      if (op == 0 || op == 3) bad[x] = false;
      if (op == 0) Ev("store").f("x", x).f("d", d).f("exc", vt::guarded([&] { ZlibHelpers::CompressAndWriteToFile(B[d], name(x)); })).emit();
      else if (op == 3) { boost::filesystem::remove(name(x)); Ev("remove").f("x", x).emit(); }
      else {
        std::ifstream in(name(x), std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); in.close();
        // a file that is damaged already is only cut further: a second flip could restore it
        if (op == 1 || bad[x]) s.resize((size_t)r.below((long)s.size() > 0 ? (long)s.size() : 1)); else if (!s.empty()) s[s.size() - 1 - (size_t)r.below(std::min<long>(4, (long)s.size()))] ^= 0x40;
        std::ofstream(name(x), std::ios::binary) << s;
        bad[x] = true; Ev("spoil").f("x", x).emit();
      }
      for (long q = 0; q <= 3; q++) if (q == 0 || r.chance(0.4)) { Buf o; const int e = vt::guarded([&] { o = ZlibHelpers::LoadFromFileAndDecompress(name(q)); }); Ev("load").f("x", q).f("exc", e).f("parts", split(o)).emit(); }
    }
    boost::filesystem::remove_all(dir);
  }
  vt::begin("places");
  boost::filesystem::create_directory("d");
  for (const Buf& b : {Buf{1, 2, 3}, B[2], data(r, 3 * M, 1)}) {
    Ev("badwrite").f("where", "full device").f("exc", vt::guarded([&] { ZlibHelpers::CompressAndWriteToFile(b, "/dev/full"); })).emit();
    Ev("badwrite").f("where", "missing folder").f("exc", vt::guarded([&] { ZlibHelpers::CompressAndWriteToFile(b, "nowhere/x"); })).emit();
    Ev("badwrite").f("where", "folder").f("exc", vt::guarded([&] { ZlibHelpers::CompressAndWriteToFile(b, "d"); })).emit();
  }
  Buf o;
  Ev("badload").f("where", "missing").f("exc", vt::guarded([&] { o = ZlibHelpers::LoadFromFileAndDecompress("nothing"); })).emit();
  Ev("badload").f("where", "folder").f("exc", vt::guarded([&] { o = ZlibHelpers::LoadFromFileAndDecompress("d"); })).emit();
  { std::ofstream e("empty"); } Ev("badload").f("where", "empty").f("exc", vt::guarded([&] { o = ZlibHelpers::LoadFromFileAndDecompress("empty"); })).emit();
}
int main(int, char** argv) {
  vt::watchdog() = 60; vt::open(); vt::Rng r(vt::seed());
  if (std::string(argv[1]) == "b64") b64(r); else zlib(r);
  vt::done();
}
