// Conformance harness for the voxel grids: argv[1] = map | geom | dsh
#include "trace.hpp"
#include <arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <arc_utilities/voxel_grid.hpp>
#include <array>
#include <deque>
#include <memory>
#include <map>
using vt::Ev; using vt::Raw;
typedef std::vector<long> L;
typedef Eigen::Isometry3d Iso;
static const double S = 64.0;
#ifndef VALUE
#define VALUE int
#endif
typedef VALUE V;

struct Geo { L n, c; std::vector<L> R; L t; };
static std::vector<std::vector<L>> rotations() {
  std::vector<std::vector<L>> out;
  int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto& q : p)
    for (int m = 0; m < 8; m++) {
      std::vector<L> R(3, L(3, 0));
      for (int r = 0; r < 3; r++) R[(size_t)r][(size_t)q[r]] = (m >> r & 1) ? -1 : 1;
      long det = R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]);
      if (det == 1) out.push_back(R);
    }
  return out;
}
static Iso iso(const std::vector<L>& R, const L& t) {
  Iso X = Iso::Identity();
  for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) X.matrix()(a, b) = (double)R[(size_t)a][(size_t)b]; X.matrix()(a, 3) = (double)t[(size_t)a] / S; }
  return X;
}
static L world(const Geo& g, const L& p) {
  L w(3);
  for (size_t a = 0; a < 3; a++) w[a] = g.R[a][0] * p[0] + g.R[a][1] * p[1] + g.R[a][2] * p[2] + g.t[a];
  return w;
}
static bool pow2(long x) { return (x & (x - 1)) == 0; }
static Eigen::Vector3d v3(const L& w) { return Eigen::Vector3d((double)w[0] / S, (double)w[1] / S, (double)w[2] / S); }
static L encp(double x, double y, double z, double sc) { return L{vt::enc(x, sc), vt::enc(y, sc), vt::enc(z, sc)}; }
static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

static const std::vector<std::vector<L>> ROT = rotations();
static Geo rnd_geo(vt::Rng& r, long maxn, bool anycell) {
  Geo g;
  static const L C2 = {1, 2, 4, 8, 16, 32, 64, 128, 256}, CA = {3, 5, 6, 10, 24, 7, 48, 96, 100};
  g.n = {r.in(1, maxn), r.in(1, maxn), r.in(1, maxn)};
  if (r.chance(0.15)) g.n[(size_t)r.below(3)] = r.in(maxn, maxn * 3);
  bool cube = r.chance(0.3); long c0 = r.pick(C2);
  for (int k = 0; k < 3; k++) g.c.push_back(cube ? c0 : anycell && r.chance(0.4) ? r.pick(CA) : r.pick(C2));
  g.R = r.chance(0.3) ? ROT[0] : r.pick(ROT);
  for (int k = 0; k < 3; k++) g.t.push_back(r.chance(0.3) ? 0 : r.in(-3000, 3000));
  if (g.R == ROT[0] && r.chance(0.3)) g.R = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  return g;
}
// a point (grid frame) in or near the grid; on boundaries only where the arithmetic is exact
static L near_point(vt::Rng& r, const Geo& g, bool interior_only = false) {
  L p(3);
  for (size_t k = 0; k < 3; k++) {
    long ext = g.n[k] * g.c[k];
    for (;;) {
      switch (r.below(6)) {
        case 0: p[k] = r.in(-g.c[k] - 1, g.c[k]); break;
        case 1: p[k] = r.in(ext - g.c[k], ext + g.c[k] + 1); break;
        case 2: p[k] = g.c[k] * r.in(-2, g.n[k] + 1); break;
        case 3: p[k] = g.c[k] * r.in(0, g.n[k]) - 1; break;
        default: p[k] = r.below(ext);
      }
      if (r.chance(0.01)) p[k] = r.in(-4000000, 4000000);
      if ((interior_only || !pow2(g.c[k])) && p[k] % g.c[k] == 0) { if (g.c[k] == 1) break; continue; }
      break;
    }
  }
  return p;
}
// ------------------------------------------------------------------------------------------------ dense grid
typedef VoxelGrid::VoxelGrid<V> G;
typedef VoxelGrid::GRID_INDEX GI;
struct Case {
  Geo g; std::unique_ptr<G> grid; vt::Rng& r; bool dumping;
  long cells() const { return g.n[0] * g.n[1] * g.n[2]; }
  L dump() const { L d; for (long x = 0; x < g.n[0]; x++) for (long y = 0; y < g.n[1]; y++) for (long z = 0; z < g.n[2]; z++) d.push_back((long)grid->GetImmutable(x, y, z).first); return d; }
  void emit(Ev& e) { if (dumping) e.f("dump", dump()); e.emit(); }
  void construct(bool again);
  void get(); void set(long fx = -99, long fy = 0, long fz = 0, long fv = 0); void other(int which, long v);
  void target(Ev& e, L& x, L& p, bool& byidx) {
    byidx = r.chance(0.5);
    if (byidx) { x = {r.in(-1, g.n[0]), r.in(-1, g.n[1]), r.in(-1, g.n[2])}; if (r.chance(0.6)) for (size_t k = 0; k < 3; k++) x[k] = r.below(g.n[k]); if (r.chance(0.02)) x[(size_t)r.below(3)] = r.chance(0.5) ? 1000000 : -1000000; e.f("by", "idx").f("x", x); }
    else { p = world(g, near_point(r, g)); e.f("by", "pt").f("p", p); }
  }
};
static void bad_ctors(vt::Rng& r) {
  const double bad[] = {0.0, -1.0, std::nan(""), INFINITY, -INFINITY};
  for (int which = 0; which < 6; which++)
    for (double b : bad)
      for (int f = 0; f < 2; f++) {
        double c[3] = {1, 0.5, 2}, s[3] = {2, 2, 2}; int64_t n[3] = {2, 2, 2};
        if (which < 3) c[which] = b; else if (f == 0) s[which - 3] = b; else { if (!(b <= 0)) continue; n[which - 3] = std::isinf(b) ? -7 : (int64_t)b; }
        int exc = vt::guarded([&] {
          if (f == 0) { if (r.chance(0.5)) G g(Iso::Identity(), c[0], c[1], c[2], s[0], s[1], s[2], (V)1, (V)2); else G g(c[0], c[1], c[2], s[0], s[1], s[2], (V)1); }
          else { if (r.chance(0.5)) G g(Iso::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], (V)1, (V)2); else G g(c[0], c[1], c[2], n[0], n[1], n[2], (V)1); }
        });
        Ev("ctor").f("good", false).f("exc", exc).emit();
      }
}
void Case::construct(bool again) {
  long d = r.in(0, 50), o = r.in(51, 99);
  bool bysize = r.chance(0.4), cube = g.c[0] == g.c[1] && g.c[1] == g.c[2], centred = r.chance(0.2), oneval = r.chance(0.2);
  if (centred) { g.R = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (size_t k = 0; k < 3; k++) { if (g.n[k] * g.c[k] % 2) { g.c[k] *= 2; cube = false; } g.t[k] = -(g.n[k] * g.c[k]) / 2; } cube = g.c[0] == g.c[1] && g.c[1] == g.c[2]; }
  if (oneval) o = d;
  L size;
  if (bysize) for (size_t k = 0; k < 3; k++) size.push_back(pow2(g.c[k]) ? g.n[k] * g.c[k] - r.below(g.c[k]) : g.n[k] * g.c[k] - (g.c[k] > 2 ? 1 + r.below(g.c[k] - 1) : 0));
  const Iso X = iso(g.R, g.t);
  double c[3], s[3] = {0, 0, 0}; int64_t n[3];
  for (size_t k = 0; k < 3; k++) { c[k] = (double)g.c[k] / S; n[k] = g.n[k]; if (bysize) s[k] = (double)size[k] / S; }
  int exc = vt::guarded([&] {
    if (again) {
      if (centred) { if (bysize) grid->Initialize(c[0], c[1], c[2], s[0], s[1], s[2], (V)d, (V)o); else grid->Initialize(c[0], c[1], c[2], n[0], n[1], n[2], (V)d, (V)o); }
      else { if (bysize) grid->Initialize(X, c[0], c[1], c[2], s[0], s[1], s[2], (V)d, (V)o); else grid->Initialize(X, c[0], c[1], c[2], n[0], n[1], n[2], (V)d, (V)o); }
    } else if (cube && r.chance(0.7)) {
      if (centred) { if (bysize) grid.reset(oneval ? new G(c[0], s[0], s[1], s[2], (V)d) : new G(c[0], s[0], s[1], s[2], (V)d, (V)o)); else grid.reset(oneval ? new G(c[0], n[0], n[1], n[2], (V)d) : new G(c[0], n[0], n[1], n[2], (V)d, (V)o)); }
      else { if (bysize) grid.reset(oneval ? new G(X, c[0], s[0], s[1], s[2], (V)d) : new G(X, c[0], s[0], s[1], s[2], (V)d, (V)o)); else grid.reset(oneval ? new G(X, c[0], n[0], n[1], n[2], (V)d) : new G(X, c[0], n[0], n[1], n[2], (V)d, (V)o)); }
    } else {
      if (centred) { if (bysize) grid.reset(oneval ? new G(c[0], c[1], c[2], s[0], s[1], s[2], (V)d) : new G(c[0], c[1], c[2], s[0], s[1], s[2], (V)d, (V)o)); else grid.reset(oneval ? new G(c[0], c[1], c[2], n[0], n[1], n[2], (V)d) : new G(c[0], c[1], c[2], n[0], n[1], n[2], (V)d, (V)o)); }
      else { if (bysize) grid.reset(oneval ? new G(X, c[0], c[1], c[2], s[0], s[1], s[2], (V)d) : new G(X, c[0], c[1], c[2], s[0], s[1], s[2], (V)d, (V)o)); else grid.reset(oneval ? new G(X, c[0], c[1], c[2], n[0], n[1], n[2], (V)d) : new G(X, c[0], c[1], c[2], n[0], n[1], n[2], (V)d, (V)o)); }
    }
  });
  Eigen::Vector3d cs = grid->GetCellSizes();
  dumping = cells() <= 40;
  Ev e("ctor");
  e.f("good", true).f("exc", exc).f("n", g.n).f("c", g.c).f("R", g.R).f("t", g.t).f("size", size).f("centred", centred).f("d", d).f("o", o)
      .f("gotn", L{(long)grid->GetNumXCells(), (long)grid->GetNumYCells(), (long)grid->GetNumZCells()}).f("gotc", encp(cs(0), cs(1), cs(2), S))
      .f("gots", encp(grid->GetXSize(), grid->GetYSize(), grid->GetZSize(), S)).f("isinit", grid->IsInitialized());
  emit(e);
}
void Case::get() {
  Ev e("get"); L x, p; bool byidx; target(e, x, p, byidx);
  long v = 0; bool in = false; int how = (int)r.below(byidx ? 4 : 6);
  const G& cg = *grid; G& mg = *grid;
  auto c = [&](std::pair<const V&, bool> q) { v = (long)q.first; in = q.second; };
  auto m = [&](std::pair<V&, bool> q) { v = (long)q.first; in = q.second; };
  vt::cur() = "get " + e.s;
  if (byidx) { if (how == 0) c(cg.GetImmutable(GI(x[0], x[1], x[2]))); else if (how == 1) c(cg.GetImmutable((int64_t)x[0], (int64_t)x[1], (int64_t)x[2])); else if (how == 2) m(mg.GetMutable(GI(x[0], x[1], x[2]))); else m(mg.GetMutable((int64_t)x[0], (int64_t)x[1], (int64_t)x[2])); }
  else { auto q = v3(p); Eigen::Vector4d q4(q(0), q(1), q(2), 1); if (how == 0) c(cg.GetImmutable(q(0), q(1), q(2))); else if (how == 1) c(cg.GetImmutable3d(q)); else if (how == 2) c(cg.GetImmutable4d(q4)); else if (how == 3) m(mg.GetMutable(q(0), q(1), q(2))); else if (how == 4) m(mg.GetMutable3d(q)); else m(mg.GetMutable4d(q4)); }
  e.f("v", v).f("in", in).f("how", how).emit();
  bool ib = byidx ? (r.chance(0.5) ? cg.IndexInBounds(GI(x[0], x[1], x[2])) : cg.IndexInBounds(x[0], x[1], x[2])) : (how % 3 == 0 ? cg.LocationInBounds(v3(p)(0), v3(p)(1), v3(p)(2)) : how % 3 == 1 ? cg.LocationInBounds3d(v3(p)) : cg.LocationInBounds4d(Eigen::Vector4d(v3(p)(0), v3(p)(1), v3(p)(2), 1)));
  Ev f("inb"); if (byidx) f.f("by", "idx").f("x", x); else f.f("by", "pt").f("p", p);
  f.f("in", ib).emit();
}
void Case::set(long fx, long fy, long fz, long fv) {
  Ev e("set"); L x, p; bool byidx = true;
  if (fx != -99) { x = {fx, fy, fz}; e.f("by", "idx").f("x", x); } else target(e, x, p, byidx);
  long val = fx != -99 ? fv : r.in(100, 999); bool in = false;
  const V cv = (V)val; V mv = (V)val; G& mg = *grid;
  int how = (int)r.below(byidx ? 6 : 9);
  vt::cur() = "set " + e.s;
  auto viaref = [&](std::pair<V&, bool> q) { in = q.second; if (q.second) q.first = cv; };
  if (byidx) {
    GI gi(x[0], x[1], x[2]);
    if (how == 0) in = mg.SetValue(gi, cv); else if (how == 1) in = mg.SetValue(gi, std::move(mv)); else if (how == 2) in = mg.SetValue((int64_t)x[0], (int64_t)x[1], (int64_t)x[2], cv);
    else if (how == 3) in = mg.SetValue((int64_t)x[0], (int64_t)x[1], (int64_t)x[2], std::move(mv)); else if (how == 4) viaref(mg.GetMutable(gi)); else viaref(mg.GetMutable((int64_t)x[0], (int64_t)x[1], (int64_t)x[2]));
  } else {
    auto q = v3(p); Eigen::Vector4d q4(q(0), q(1), q(2), 1);
    switch (how) {
      case 0: in = mg.SetValue(q(0), q(1), q(2), cv); break; case 1: in = mg.SetValue(q(0), q(1), q(2), std::move(mv)); break;
      case 2: in = mg.SetValue3d(q, cv); break; case 3: in = mg.SetValue3d(q, std::move(mv)); break;
      case 4: in = mg.SetValue4d(q4, cv); break; case 5: in = mg.SetValue4d(q4, std::move(mv)); break;
      case 6: viaref(mg.GetMutable(q(0), q(1), q(2))); break; case 7: viaref(mg.GetMutable3d(q)); break; default: viaref(mg.GetMutable4d(q4));
    }
  }
  e.f("v", val).f("in", in).f("how", how);
  emit(e);
}
void Case::other(int which, long v) {
  G& mg = *grid;
  if (which == 2) { mg.ResetWithDefault(); Ev e("resetd"); emit(e); }
  else if (which == 3) { mg.ResetWithNewValue((V)v); Ev e("resetv"); e.f("v", v); emit(e); }
  else if (which == 4) { mg.ResetWithNewDefault((V)v); Ev e("resetnd"); e.f("v", v); emit(e); }
  else if (which == 5) { mg.SetDefaultValue((V)v); Ev e("setd"); e.f("v", v); emit(e); }
  else if (which == 6) { mg.SetOOBValue((V)v); Ev e("seto"); e.f("v", v); emit(e); }
  else if (which == 7) {   // raw data, right and wrong lengths
    long len = cells() + (r.chance(0.4) ? r.in(-1, 1) : 0); if (len < 0) len = 0;
    std::vector<V> data; L ld, slot;
    for (long k = 0; k < len; k++) { long q = r.in(0, 500); data.push_back((V)q); ld.push_back(q); }
    for (long x = 0; x < g.n[0]; x++) for (long y = 0; y < g.n[1]; y++) for (long z = 0; z < g.n[2]; z++) slot.push_back((long)mg.HashDataIndex(x, y, z));
    bool ok = mg.SetRawData(data);
    Ev e("raw"); e.f("data", ld).f("slot", slot).f("ok", ok); emit(e);
    if (!dumping) Ev("dumpall").f("dump", dump()).emit();
  } else if (which == 8) {
    Ev("special").f("d", (long)mg.GetDefaultValue()).f("o", (long)mg.GetOOBValue()).f("n", L{(long)mg.GetNumXCells(), (long)mg.GetNumYCells(), (long)mg.GetNumZCells()}).emit();
  } else if (which == 9) {  // a copy carries the contents and is independent of the original
    std::unique_ptr<G> cp(r.chance(0.5) ? mg.Clone() : new G(mg));
    if (r.chance(0.5)) { G tmp; tmp = *cp; *cp = tmp; }
    mg.ResetWithNewValue((V)777); mg.SetOOBValue((V)778);
    grid = std::move(cp);
    Ev("dumpall").f("dump", dump()).emit();
  } else {
    L slot, raw; for (long x = 0; x < g.n[0]; x++) for (long y = 0; y < g.n[1]; y++) for (long z = 0; z < g.n[2]; z++) slot.push_back((long)mg.HashDataIndex(x, y, z));
    const auto& d = r.chance(0.5) ? mg.GetImmutableRawData() : mg.GetMutableRawData();
    for (size_t k = 0; k < d.size(); k++) raw.push_back((long)d[k]);
    Ev("slots").f("slot", slot).f("rawv", raw).emit();
  }
}
static void map_mode() {
  vt::Rng r(vt::seed() + 101);
  for (const auto& l : vt::gen_lines()) {   // histories <<op,x,y,z,v>> over a 3x2x2 grid
    auto v = vt::ints(l);
    vt::begin("map");
    Case c{rnd_geo(r, 3, false), nullptr, r, true}; c.g.n = {3, 2, 2};
    c.construct(false);
    for (size_t k = 0; k + 4 < v.size(); k += 5) { if (v[k] == 1) c.set(v[k + 1], v[k + 2], v[k + 3], v[k + 4]); else c.other((int)v[k], v[k + 4]); c.get(); }
  }
  vt::begin("bad"); bad_ctors(r);
  for (long s = 0; s < vt::scale(90, 900); s++) {
    vt::begin("map");
    Case c{rnd_geo(r, s % 7 == 0 ? 7 : 3, true), nullptr, r, false};
    if (r.chance(0.2)) { c.grid.reset(new G()); c.construct(true); } else c.construct(false);
    long len = r.in(10, 60);
    for (long k = 0; k < len; k++) {
      double u = (double)r.below(100);
      if (u < 40) c.set(); else if (u < 80) c.get(); else if (u < 98) c.other((int)r.in(2, 10), r.chance(0.2) ? (r.chance(0.5) ? (long)c.grid->GetOOBValue() : (long)c.grid->GetDefaultValue()) : r.in(1000, 2000)); else { Geo g2 = rnd_geo(r, 4, true); c.g = g2; c.construct(true); }
    }
    Ev("dumpall").f("dump", c.dump()).emit();
  }
}
// ------------------------------------------------------------------------------------------------ geometry
static L gi(const GI& x) { auto cl = [](int64_t v) { return (long)std::max<int64_t>(-2000000000LL, std::min<int64_t>(2000000000LL, v)); }; return L{cl(x.x), cl(x.y), cl(x.z)}; }
static void geom_mode() {
  vt::Rng r(vt::seed() + 111);
  for (long s = 0; s < vt::scale(150, 1500); s++) {
    vt::begin("geom");
    Case c{rnd_geo(r, s % 10 == 0 ? 12 : 4, true), nullptr, r, false};
    c.construct(false); c.dumping = false;
    { long k = 0; for (long x = 0; x < c.g.n[0]; x++) for (long y = 0; y < c.g.n[1]; y++) for (long z = 0; z < c.g.n[2]; z++) c.grid->SetValue((int64_t)x, (int64_t)y, (int64_t)z, (V)(++k % 97)); }
    if (c.cells() > 200) { c.grid->ResetWithDefault(); }
    else { long k = 0; L d; for (long q = 0; q < c.cells(); q++) d.push_back(++k % 97);
      for (long q = 0; q < c.cells(); q++) { Ev e("set"); e.f("by", "idx").f("x", L{q / (c.g.n[1] * c.g.n[2]), q / c.g.n[2] % c.g.n[1], q % c.g.n[2]}).f("v", d[(size_t)q]).f("in", true).emit(); } }
    if (c.cells() <= 200) c.other(10, 0);
    const int pts = 25;
    for (int rep = 0; rep < 3; rep++) {
      if (rep) {   // move the grid
        c.g.R = r.pick(ROT); for (size_t k = 0; k < 3; k++) c.g.t[k] = r.in(-4000, 4000);
        c.grid->UpdateOriginTransform(iso(c.g.R, c.g.t));
        const Iso &o = c.grid->GetOriginTransform(), &v = c.grid->GetInverseOriginTransform();
        std::vector<L> gr, ir; L gt; for (int a = 0; a < 3; a++) { gr.push_back(encp(o.matrix()(a, 0), o.matrix()(a, 1), o.matrix()(a, 2), 1)); ir.push_back(encp(v.matrix()(a, 0), v.matrix()(a, 1), v.matrix()(a, 2), 1)); gt.push_back(vt::enc(o.matrix()(a, 3), S)); }
        Ev("pose").f("R", c.g.R).f("t", c.g.t).f("gotR", gr).f("gott", gt).f("invR", ir).emit();
      }
      for (int k = 0; k < pts; k++) {
        L p = near_point(r, c.g);
        const G& g = *c.grid;
        int how = (int)r.below(6); GI x; L lp = p;
        vt::cur() = "point->index how " + std::to_string(how) + " p " + vt::js(p);
        auto q = v3(p), w = v3(world(c.g, p)); if (how >= 3) lp = world(c.g, p);
        if (how == 0) x = g.PointInFrameToGridIndex(q(0), q(1), q(2)); else if (how == 1) x = g.PointInFrameToGridIndex3d(q); else if (how == 2) x = g.PointInFrameToGridIndex4d(Eigen::Vector4d(q(0), q(1), q(2), 1));
        else if (how == 3) x = g.LocationToGridIndex(w(0), w(1), w(2)); else if (how == 4) x = g.LocationToGridIndex3d(w); else x = g.LocationToGridIndex4d(Eigen::Vector4d(w(0), w(1), w(2), 1));
        Ev("pidx").f("frame", how < 3 ? "grid" : "world").f("p", lp).f("x", gi(x)).f("in", g.IndexInBounds(x)).f("how", how).emit();
      }
      for (int k = 0; k < 10; k++) {
        const G& g = *c.grid; L x = {r.below(c.g.n[0]), r.below(c.g.n[1]), r.below(c.g.n[2])};
        int how = (int)r.below(4); Eigen::Vector4d p; GI b;
        if (how == 0) p = g.GridIndexToLocation(GI(x[0], x[1], x[2])); else if (how == 1) p = g.GridIndexToLocation(x[0], x[1], x[2]); else if (how == 2) p = g.GridIndexToLocationGridFrame(GI(x[0], x[1], x[2])); else p = g.GridIndexToLocationGridFrame(x[0], x[1], x[2]);
        b = how < 2 ? g.LocationToGridIndex4d(p) : g.PointInFrameToGridIndex4d(p);
        Ev("centre").f("frame", how < 2 ? "world" : "grid").f("x", x).f("p", encp(p(0), p(1), p(2), 2 * S)).f("back", gi(b)).emit();
      }
    }
    // points on a face, or the smallest step before or after it, near and far, in the grid's own frame and through an identity pose
    for (int k = 0; k < 12; k++) {
      Geo e = c.g; for (size_t a = 0; a < 3; a++) e.c[a] = r.pick(L{1, 2, 8, 64, 256});
      const G fg(Iso::Identity(), (double)e.c[0] / S, (double)e.c[1] / S, (double)e.c[2] / S, (int64_t)e.n[0], (int64_t)e.n[1], (int64_t)e.n[2], (V)1, (V)2);
      int64_t face[3]; L sign, near; double p[3];
      for (size_t a = 0; a < 3; a++) {
        static const std::vector<int64_t> FAR = {1 << 24, (1 << 24) + 1, -(1 << 24) - 1, 2147483647LL, 2147483649LL, -2147483649LL, 8589934593LL, 1099511627777LL};
        face[a] = r.chance(0.15) ? r.pick(FAR) : (int64_t)r.in(-2, e.n[a] + 1);
        sign.push_back(r.in(-1, 1));
        p[a] = (double)face[a] * ((double)e.c[a] / S);
        if (sign[a]) p[a] = face[a] == 0 ? (double)sign[a] * 1e-200 : std::nextafter(p[a], sign[a] > 0 ? INFINITY : -INFINITY);
        near.push_back(std::abs(face[a]) < 1000 ? (long)face[a] : face[a] > 0 ? 1000000 : -1000000);
      }
      const int how = (int)r.below(6); GI x; bool in = false;
      const Eigen::Vector3d q(p[0], p[1], p[2]); const Eigen::Vector4d q4(p[0], p[1], p[2], 1);
      if (how == 0) x = fg.PointInFrameToGridIndex(p[0], p[1], p[2]); else if (how == 1) x = fg.PointInFrameToGridIndex3d(q); else if (how == 2) x = fg.PointInFrameToGridIndex4d(q4);
      else if (how == 3) x = fg.LocationToGridIndex(p[0], p[1], p[2]); else if (how == 4) x = fg.LocationToGridIndex3d(q); else x = fg.LocationToGridIndex4d(q4);
      in = how % 3 == 0 ? fg.LocationInBounds(p[0], p[1], p[2]) : how % 3 == 1 ? fg.LocationInBounds3d(q) : fg.LocationInBounds4d(q4);
      L off; for (int a = 0; a < 3; a++) { int64_t d = (a == 0 ? x.x : a == 1 ? x.y : x.z) - face[a]; off.push_back((long)std::max<int64_t>(-9, std::min<int64_t>(9, d))); }
      Ev("face").f("n", e.n).f("sign", sign).f("near", near).f("off", off).f("in", in).emit();
    }
    // a pose that drifts by very small steps is followed, step by step
    {
      Iso D = Iso::Identity(); D.translation() = Eigen::Vector3d((double)r.in(-8, 8), (double)r.in(-8, 8), (double)r.in(-8, 8));
      G drift(D, 1.0, (int64_t)2, (int64_t)2, (int64_t)2, (V)1, (V)2);
      const double tiny = std::ldexp(1.0, -(int)r.in(4, 45)); L got, inv;
      for (int k = 1; k <= 5; k++) {
        const int ax = (int)r.below(3); const double was = drift.GetOriginTransform().translation()(ax), iwas = drift.GetInverseOriginTransform().translation()(ax);
        D.translation()(ax) += tiny; drift.UpdateOriginTransform(D);
        got.push_back(vt::enc((drift.GetOriginTransform().translation()(ax) - was) / tiny)); inv.push_back(vt::enc((iwas - drift.GetInverseOriginTransform().translation()(ax)) / tiny));
      }
      Ev("drift").f("got", got).f("inv", inv).emit();
    }
    // any rigid transform and any cell size: points built inside a known cell, away from its faces
    Geo g2 = c.g; double cs[3]; for (int k = 0; k < 3; k++) cs[k] = (double)r.in(1, 4000) / 997.0;
    Eigen::Quaterniond quat((double)r.in(-100, 100) + 0.5, (double)r.in(-100, 100), (double)r.in(-100, 100), (double)r.in(-100, 100)); quat.normalize();
    Iso X = Eigen::Translation3d((double)r.in(-5000, 5000) / 77.0, (double)r.in(-5000, 5000) / 77.0, (double)r.in(-5000, 5000) / 77.0) * quat;
    G any(X, cs[0], cs[1], cs[2], (int64_t)g2.n[0], (int64_t)g2.n[1], (int64_t)g2.n[2], (V)1, (V)2);
    { Ev("ctor").f("good", true).f("exc", 0).f("n", g2.n).f("c", L{1, 1, 1}).f("R", Raw{"[]"}).f("t", L{0, 0, 0}).f("size", L{}).f("centred", false).f("d", 1).f("o", 2).f("gotn", L{(long)any.GetNumXCells(), (long)any.GetNumYCells(), (long)any.GetNumZCells()}).f("gotc", L{1, 1, 1}).f("gots", g2.n).f("isinit", true).emit(); }
    for (int k = 0; k < 20; k++) {
      L x; Eigen::Vector3d p;
      for (size_t a = 0; a < 3; a++) { x.push_back(r.in(-2, g2.n[a] + 1)); p((int)a) = cs[a] * ((double)x[a] + (double)r.in(5, 995) / 1000.0); }
      Eigen::Vector3d w = X * p;
      GI got = r.chance(0.5) ? any.LocationToGridIndex3d(w) : any.LocationToGridIndex(w(0), w(1), w(2));
      bool in = true; for (size_t a = 0; a < 3; a++) in = in && x[a] >= 0 && x[a] < g2.n[a];
      L cx = {r.below(g2.n[0]), r.below(g2.n[1]), r.below(g2.n[2])};
      GI cb = any.LocationToGridIndex4d(any.GridIndexToLocation(cx[0], cx[1], cx[2]));
      // distance of the reported centre from the true one, in millionths of the cell
      Eigen::Vector4d cc = any.GridIndexToLocation(GI(cx[0], cx[1], cx[2])); Eigen::Vector3d cw = X * Eigen::Vector3d(cs[0] * ((double)cx[0] + 0.5), cs[1] * ((double)cx[1] + 0.5), cs[2] * ((double)cx[2] + 0.5));
      bool centre_ok = (cc.head<3>() - cw).norm() < 1e-6 * std::min(cs[0], std::min(cs[1], cs[2]));
      Ev("round").f("x", x).f("in", in).f("got", gi(got)).f("gotin", any.IndexInBounds(got)).f("cx", cx).f("cback", centre_ok ? gi(cb) : L{-1, -1, -1}).emit();
    }
  }
}
// ------------------------------------------------------------------------------------------------ chunked grid
typedef VoxelGrid::DynamicSpatialHashedVoxelGrid<V> D;
struct DCase {
  Geo g; std::unique_ptr<D> d; vt::Rng& r;
  L pt(long spread) {   // grid frame
    L p(3); for (size_t k = 0; k < 3; k++) { long ch = g.n[k] * g.c[k]; p[k] = ch * r.in(-spread, spread) + (r.chance(0.4) ? g.c[k] * r.in(0, g.n[k]) - r.below(2) : r.below(ch)); }
    return p;
  }
  void get(const L& p) {
    L w = world(g, p); auto q = v3(w); long v; int st; const D& c = *d; int how = (int)r.below(4);
    vt::cur() = "dsh get " + vt::js(w);
    if (how == 0) { auto x = c.GetImmutable(q); v = (long)x.first; st = x.second; } else if (how == 1) { auto x = c.GetImmutable(q(0), q(1), q(2)); v = (long)x.first; st = x.second; }
    else if (how == 2) { auto x = d->GetMutable(q); v = (long)x.first; st = x.second; } else { auto x = d->GetMutable(q(0), q(1), q(2)); v = (long)x.first; st = x.second; }
    Ev("dget").f("p", w).f("v", v).f("st", st).f("how", how).emit();
  }
  void cell(const L& p, long val) {
    L w = world(g, p); auto q = v3(w); int st; const V cv = (V)val; V mv = (V)val; int how = (int)r.below(4);
    vt::cur() = "dsh set cell " + vt::js(w);
    st = how == 0 ? d->SetCellValue(q, cv) : how == 1 ? d->SetCellValue(q, std::move(mv)) : how == 2 ? d->SetCellValue(q(0), q(1), q(2), cv) : d->SetCellValue(q(0), q(1), q(2), std::move(mv));
    Ev("dcell").f("p", w).f("v", val).f("st", st).f("how", how).emit();
  }
  void chunk(const L& p, long val) {
    L w = world(g, p); auto q = v3(w); int st; const V cv = (V)val; V mv = (V)val; int how = (int)r.below(4);
    vt::cur() = "dsh set chunk " + vt::js(w);
    st = how == 0 ? d->SetChunkValue(q, cv) : how == 1 ? d->SetChunkValue(q, std::move(mv)) : how == 2 ? d->SetChunkValue(q(0), q(1), q(2), cv) : d->SetChunkValue(q(0), q(1), q(2), std::move(mv));
    Ev("dchunk").f("p", w).f("v", val).f("st", st).f("how", how).emit();
  }
  void ref(const L& p, long val) {
    L w = world(g, p); auto q = v3(w); auto x = d->GetMutable(q);
    if (x.second == VoxelGrid::NOT_FOUND) return;
    long old = (long)x.first; x.first = (V)val;
    Ev("dref").f("p", w).f("v", val).f("old", old).f("st", (int)x.second).emit();
  }
  void def(long val) { d->SetDefaultValue((V)val); Ev("ddef").f("v", val).f("got", (long)d->GetDefaultValue()).emit(); }
  void table() {
    std::string o = "["; bool first = true;
    auto cs = d->GetChunkSizes();
    for (auto& kv : d->GetInternalChunks()) {
      auto& ch = kv.second; L b; for (int k = 0; k < 3; k++) b.push_back(vt::enc(kv.first.base(k) / cs[(size_t)k]));
      L vals; std::vector<L> centres;
      for (int64_t x = 0; x < ch.GetNumXCells(); x++) for (int64_t y = 0; y < ch.GetNumYCells(); y++) for (int64_t z = 0; z < ch.GetNumZCells(); z++) {
        auto e = ch.GetImmutableByIndex(x, y, z); vals.push_back(e.second ? (long)e.first : -7);
        auto loc = ch.GetIndexLocationInGrid(x, y, z); centres.push_back(encp(loc.at(0), loc.at(1), loc.at(2), 2 * S)); }
      auto el = ch.GetElementSize();
      if (ch.GetImmutableByIndex(ch.GetNumXCells(), 0, 0).second || ch.GetImmutableByIndex(0, -1, 0).second || !ch.GetIndexLocationInGrid(0, 0, ch.GetNumZCells()).empty()) vals.push_back(-9);
      o += std::string(first ? "" : ",") + "{\"b\":" + vt::js(b) + ",\"cell\":" + vt::js(ch.IsCellInitialized() && !ch.IsChunkInitialized()) + ",\"v\":" + vt::js(vals) + ",\"centre\":" + vt::js(centres) + ",\"elem\":" + vt::js(encp(el[0], el[1], el[2], S)) + "}";
      first = false;
    }
    Ev("dchunks").f("chunks", Raw{o + "]"}).emit();
  }
  void make() {
    double c[3]; int64_t n[3]; for (size_t k = 0; k < 3; k++) { c[k] = (double)g.c[k] / S; n[k] = g.n[k]; }
    long dv = r.in(0, 50); bool cube = g.c[0] == g.c[1] && g.c[1] == g.c[2], ident = r.chance(0.3);
    if (ident) { g.R = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; g.t = {0, 0, 0}; }
    const Iso X = iso(g.R, g.t);
    int exc = vt::guarded([&] {
      if (ident) d.reset(cube ? new D(c[0], n[0], n[1], n[2], (V)dv) : new D(c[0], c[1], c[2], n[0], n[1], n[2], (V)dv));
      else d.reset(cube ? new D(X, c[0], n[0], n[1], n[2], (V)dv) : new D(X, c[0], c[1], c[2], n[0], n[1], n[2], (V)dv));
    });
    auto cs = d->GetCellSizes(), hs = d->GetChunkSizes(); auto nc = d->GetChunkNumCells();
    Ev("dctor").f("good", true).f("exc", exc).f("n", g.n).f("c", g.c).f("R", g.R).f("t", g.t).f("d", dv).f("gotn", L(nc.begin(), nc.end())).f("gotc", encp(cs[0], cs[1], cs[2], S)).f("gots", encp(hs[0], hs[1], hs[2], S)).emit();
  }
};
// points on faces or a little off them (exact sizes and places); then any sizes and any points, where only the write and
// the read of the same point can be compared
static void dsh_faces(vt::Rng& r) {
  for (long s = 0; s < vt::scale(40, 400); s++) {
    vt::begin("dface");
    DCase c{rnd_geo(r, 3, false), nullptr, r};
    for (size_t k = 0; k < 3; k++) { c.g.c[k] = r.pick(L{1, 2, 8, 32, 64, 256}); c.g.n[k] = r.in(1, 4); }
    c.g.R = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; c.g.t = {0, 0, 0};
    c.make();
    const double tiny = std::ldexp(1.0, -36);
    const long far = r.chance(0.3) ? 5 : 1;
    for (long k = r.in(40, 90); k > 0; k--) {
      L p(3), e(3); Eigen::Vector3d q;
      for (size_t a = 0; a < 3; a++) { p[a] = r.chance(0.9) ? c.g.c[a] * r.in(-far, far) : r.in(-300, 300); e[a] = r.in(-1, 1); q((int)a) = (double)p[a] / S + (double)e[a] * tiny; }
      const long val = r.in(100, 999), u = r.below(10); long v = val; int st;
      vt::cur() = "dsh face " + vt::js(p) + vt::js(e);
      if (u < 4) st = c.d->SetCellValue(q, (V)val); else if (u < 5) st = c.d->SetChunkValue(q, (V)val);
      else if (u < 8) { const D& cd = *c.d; auto x = cd.GetImmutable(q); v = (long)x.first; st = x.second; } else { auto x = c.d->GetMutable(q); v = (long)x.first; st = x.second; }
      Ev("dface").f("what", u < 4 ? "cell" : u < 5 ? "chunk" : "get").f("p", p).f("e", e).f("v", v).f("st", st).emit();
    }
    c.table();
  }
  for (long s = 0; s < vt::scale(40, 400); s++) {   // chunks whose number needs more than 32 bits: each is its own
    if (s % 8 == 0) vt::begin("dfar");
    const size_t ax = (size_t)r.below(3); double c[3]; int64_t n[3];
    for (int a = 0; a < 3; a++) { c[a] = std::ldexp(1.0, (int)r.in(-6, 2)); n[a] = (int64_t)1 << r.in(0, 2); }
    D d(Iso::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], (V)7);
    const double base = std::ldexp(1.0, (int)r.in(31, 40)), size = c[ax] * (double)n[ax], low = (double)r.in(-3, 3), K = (r.chance(0.5) ? base : -base) + low;
    auto q = [&](double k, long cell) { Eigen::Vector3d p(0.5 * c[0], 0.5 * c[1], 0.5 * c[2]); p((int)ax) = k * size + ((double)cell + 0.5) * c[ax]; return p; };
    const long val = r.in(100, 999), cell = r.below((long)n[ax]); L got;
    const int st = r.chance(0.5) ? d.SetCellValue(q(K, cell), (V)val) : d.SetChunkValue(q(K, cell), (V)val); const D& cd = d;
    for (long w = 0; w < n[ax]; w++) { auto x = cd.GetImmutable(q(K, w)); got.push_back((long)x.first); got.push_back((long)x.second); }
    L other;
    for (double k : {K - 1, K + 1, low, low - 1, -K, K + base, K - 4294967296.0, K + 4294967296.0, 2147483647.0, -2147483648.0}) if (k != K) { auto x = cd.GetImmutable(q(k, cell)); other.push_back((long)x.first); other.push_back((long)x.second); }
    Ev("dfar").f("st", st).f("n", (long)n[ax]).f("cell", cell).f("v", val).f("got", got).f("other", other).emit();
  }
  for (long s = 0; s < vt::scale(60, 600); s++) {
    if (s % 8 == 0) vt::begin("dany");
    double c[3]; int64_t n[3];
    for (int a = 0; a < 3; a++) { c[a] = r.chance(0.6) ? r.pick(std::vector<double>{0.01, 0.02, 0.025, 0.05, 0.1, 0.3, 1.0}) : (double)r.in(1, 4000) / 997.0; n[a] = r.in(1, 10); }
    Iso X = Iso::Identity();
    if (r.chance(0.3)) { Eigen::Quaterniond quat((double)r.in(-100, 100) + 0.5, (double)r.in(-100, 100), (double)r.in(-100, 100), (double)r.in(-100, 100)); quat.normalize(); X = Eigen::Translation3d((double)r.in(-500, 500) / 77.0, 0.1, -0.3) * quat; }
    D d(X, c[0], c[1], c[2], n[0], n[1], n[2], (V)7);
    L bad; long tries = 60;
    for (long k = 0; k < tries; k++) {
      Eigen::Vector3d q;
      for (int a = 0; a < 3; a++) q(a) = r.chance(0.6) ? (double)r.in(-600, 600) * c[a] : r.chance(0.2) ? (double)r.in(-1, 1) * 1e-18 : (double)r.in(-100000, 100000) / 313.0;
      const long val = r.in(100, 999);
      const int st = r.chance(0.5) ? d.SetCellValue(q, (V)val) : d.SetCellValue(q(0), q(1), q(2), (V)val);
      const D& cd = d; auto a = cd.GetImmutable(q); auto b = d.GetMutable(q(0), q(1), q(2));
      if (!(st == 2 && a.second == 2 && (long)a.first == val && b.second == 2 && (long)b.first == val)) bad.push_back(k);
    }
    Ev("dany").f("tries", tries).f("bad", bad).emit();
  }
}
static void dsh_mode() {
  vt::Rng r(vt::seed() + 121);
  for (const auto& l : vt::gen_lines()) {   // <<op, x, v>> along one axis, chunks of 2 cells of width 2 (scaled)
    auto v = vt::ints(l);
    vt::begin("dsh");
    long m = r.pick(L{1, 4, 32}); size_t ax = (size_t)r.below(3);
    DCase c{rnd_geo(r, 3, false), nullptr, r}; c.g.n = {1, 1, 1}; c.g.n[ax] = 2; c.g.c = {2 * m, 2 * m, 2 * m};
    c.make();
    auto at = [&](long x) { L p = {0, 0, 0}; p[ax] = x * m; return p; };
    for (size_t k = 0; k + 2 < v.size(); k += 3) { if (v[k] == 1) c.cell(at(v[k + 1]), v[k + 2]); else if (v[k] == 2) c.chunk(at(v[k + 1]), v[k + 2]); else c.def(v[k + 2]); for (int q = 0; q < 2; q++) c.get(at(r.in(-5, 5))); }
    for (long x = -5; x <= 5; x++) c.get(at(x));
    c.table();
  }
  for (long s = 0; s < vt::scale(80, 800); s++) {
    vt::begin("dsh");
    DCase c{rnd_geo(r, s % 3 ? 3 : 4, true), nullptr, r};
    for (size_t k = 0; k < 3; k++) c.g.n[k] = std::min(c.g.n[k], 5L);
    c.make();
    std::vector<L> pool; for (int k = 0; k < 6; k++) pool.push_back(c.pt(r.chance(0.2) ? 1000 : 2));
    auto p = [&]() { L q = r.chance(0.7) ? r.pick(pool) : c.pt(2); if (r.chance(0.4)) for (size_t k = 0; k < 3; k++) q[k] += r.in(-1, 1) * (r.chance(0.5) ? c.g.c[k] : 1); return q; };
    for (long k = r.in(15, 60); k > 0; k--) {
      long u = r.below(100);
      if (u < 30) c.cell(p(), r.in(100, 999)); else if (u < 45) c.chunk(p(), r.in(1000, 1999)); else if (u < 52) c.ref(p(), r.in(2000, 2999)); else if (u < 56) c.def(r.in(1, 50)); else c.get(p());
      if (r.chance(0.02)) { D cp(*c.d); c.d.reset(new D(cp)); }
    }
    for (auto& q : pool) c.get(q);
    c.table();
  }
  dsh_faces(r);
  vt::begin("dbad");
  for (int w = 0; w < 6; w++) for (double b : {0.0, -1.0, (double)INFINITY, std::nan("")}) {
    double c[3] = {1, 1, 1}; int64_t n[3] = {2, 2, 2};
    if (w < 3) c[w] = b; else { if (!(b <= 0)) continue; n[w - 3] = (int64_t)b; }
    int exc = vt::guarded([&] { if (r.chance(0.5)) D d(c[0], c[1], c[2], n[0], n[1], n[2], (V)1); else D d(Iso::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], (V)1); });
    Ev("dctor").f("good", false).f("exc", exc).emit();
  }
}
int main(int argc, char** argv) {
  vt::open();
  std::string m = argc > 1 ? argv[1] : "";
  if (m == "map") map_mode(); else if (m == "geom") geom_mode(); else if (m == "dsh") dsh_mode(); else return 97;
  vt::done();
}
