// P13 (module part), P14, P15: TPC modules and TPC-wide queries
#include <climits>
#include "tpc.h"
#include "gear/GEAR.h"
typedef std::unique_ptr<gear::TPCModuleImpl> Mod;

static void label(Gen& g, const MSpec& s, const MModel& m) {
  g.label(string(s.gpolar ? "polar TPC, " : "cartesian TPC, ") + (m.lm.polar ? "polar pads" : "cartesian pads"));
  if (s.flip()) g.label("negative half"); if (s.border != 0) g.label("border");
  g.nontrivial((s.angle != 0 || s.o0 != 0) && m.lm.nPads >= 2);
}
// a local point in, around or far from the module, as cartesian local coordinates
static XY genLocal(Gen& g, const MModel& m) {
  const LModel& L = m.lm; double a, b; const RowM& R = L.rows[g.draw(L.rows.size())];
  switch (g.draw(7)) {
    case 0: { int k = (int)g.draw(R.n); a = R.a0 + (k + g.frac()) * R.pitch; b = R.lo + (R.hi - R.lo) * g.frac(); break; }
    case 1: { int k = (int)g.draw(R.n); a = R.a0 + (k + .5) * R.pitch; b = R.c; break; }
    case 2: { double w = m.ext[L.polar ? 3 : 1] - m.ext[L.polar ? 2 : 0], h = m.ext[L.polar ? 1 : 3] - m.ext[L.polar ? 0 : 2]; a = m.ext[L.polar ? 2 : 0] + w * g.generic(-0.1, 1.1); b = m.ext[L.polar ? 0 : 2] + h * g.generic(-0.1, 1.1); break; }
    case 3: { double w = m.ext[L.polar ? 3 : 1] - m.ext[L.polar ? 2 : 0], h = m.ext[L.polar ? 1 : 3] - m.ext[L.polar ? 0 : 2]; a = m.ext[L.polar ? 2 : 0] + w * g.generic(-1, 2); b = m.ext[L.polar ? 0 : 2] + h * g.generic(-1, 2); break; }
    case 4: a = m.ext[L.polar ? (g.boolean() ? 2 : 3) : (g.boolean() ? 0 : 1)]; b = m.ext[L.polar ? (g.boolean() ? 0 : 1) : (g.boolean() ? 2 : 3)]; break;   // corner
    case 5: return m.toLocal(XY{0, 0});                                                                                     // global origin
    default: { double s = m.scale() * 2; return XY{g.generic(-s, s), g.generic(-s, s)}; }
  }
  return L.polar ? m.localXY(b, a) : XY{a, b};
}
// the same point in global coordinates of the TPC, any representation of phi
static void toGlobalC(Gen& g, const MModel& m, XY l, double& c0, double& c1) {
  XY q = m.toGlobal(l);
  if (m.s.gpolar) { c0 = std::hypot(q.x, q.y); c1 = std::atan2(q.y, q.x); if (g.draw(3) == 0) c1 += TWOPI * g.integer(-2, 2); else if (c1 < 0) c1 += TWOPI; }
  else { c0 = q.x; c1 = q.y; }
}
static bool angNear(double a, double b, double tol) { return std::fabs(wrapTo(a - b, 0)) <= tol; }

PROP(transform, 60000, 2000000) {
  bool gp = g.chance(1, 3); MSpec s = genModule(g, gp); g.note(show(s)); Mod mod(buildModule(s, g)); MModel m(s, mod.get()); label(g, s, m); const gear::TPCModule& M = *mod;
  double sc = m.scale(), tol = 1e-12 * sc;
  REQ_EQ(M.getModuleID(), s.id); REQ_EQ(M.getReadoutFrequency(), s.freq); REQ_EQ(M.getAngle(), s.angle); REQ_EQ(M.getOffset()[0], s.o0); REQ_EQ(M.getOffset()[1], s.o1); REQ_EQ(M.getBorderWidth(), s.border);
  if (s.hasZ) REQ_EQ(M.getZPosition(), s.z); else REQ_THROWS(gear::TPCModule::NoZPositionException, M.getZPosition());
  REQ_EQ(M.getTPCCoordinateType(), gp ? 2 : 1); REQ_EQ(M.getCoordinateType(), gp ? 2 : 1); REQ_EQ(M.getPadLayoutType(), gp ? 2 : 1); REQ_EQ(M.getPadLayoutImplType(), (int)gear::PadRowLayout2D::TPCMODULE);
  REQ_EQ(M.getNRows(), (int)m.lm.rows.size()); REQ_EQ(M.getNPads(), m.lm.nPads);
  for (int q = 0; q < 10; ++q) {
    XY l = genLocal(g, m); double c0, c1; toGlobalC(g, m, l, c0, c1); XY gl = m.toGlobal(l);
    gear::Vector2D r = M.globalToLocal(c0, c1); XY rl = m.localXY(r[0], r[1]);
    REQUIRE(std::fabs(rl.x - l.x) <= 10 * tol + 1e-13 * std::fabs(c0) && std::fabs(rl.y - l.y) <= 10 * tol + 1e-13 * std::fabs(c0), "global ", c0, ",", c1, " is local (cartesian) ", l.x, ",", l.y, " but got ", rl.x, ",", rl.y);
    // local input in its own coordinate type, any representation of phi
    double a = l.x, b = l.y; if (m.lm.polar) { a = std::hypot(l.x, l.y); b = std::atan2(l.y, l.x); if (g.draw(3) == 0) b += TWOPI * g.integer(-2, 2); }
    gear::Vector2D t = M.localToGlobal(a, b); XY tg = m.globalXY(t[0], t[1]);
    REQUIRE(std::fabs(tg.x - gl.x) <= 10 * tol + 1e-13 * std::fabs(c0) && std::fabs(tg.y - gl.y) <= 10 * tol + 1e-13 * std::fabs(c0), "local ", a, ",", b, " is global (cartesian) ", gl.x, ",", gl.y, " but got ", tg.x, ",", tg.y);
    gear::Vector2D back = M.globalToLocal(t[0], t[1]); XY bl = m.localXY(back[0], back[1]);
    REQUIRE(std::fabs(bl.x - l.x) <= 20 * tol + 1e-13 * std::fabs(c0) && std::fabs(bl.y - l.y) <= 20 * tol + 1e-13 * std::fabs(c0), "there and back from local ", l.x, ",", l.y, ": ", bl.x, ",", bl.y);
  }
}

PROP(module_queries, 40000, 1500000) {
  bool gp = g.chance(1, 3); MSpec s = genModule(g, gp); g.note(show(s)); Mod mod(buildModule(s, g)); MModel m(s, mod.get()); label(g, s, m); const gear::TPCModule& M = *mod; const gear::PadRowLayout2D& L = M.getLocalPadLayout();
  double sc = m.scale(), eps = 1e-9 * sc; Quiet quiet; int nin = 0, nout = 0;
  auto local = [&](XY l, double& a, double& b) { if (m.lm.polar) { a = std::hypot(l.x, l.y); b = std::atan2(l.y, l.x); } else { a = l.x; b = l.y; } };
  for (int r = 0; r < (int)m.lm.rows.size(); ++r) {
    REQ_EQ(M.getRowHeight(r), L.getRowHeight(r)); REQUIRE(M.getPadsInRow(r) == L.getPadsInRow(r), "row ", r);
    for (int k : {0, m.lm.rows[r].n - 1}) {
      int i = M.getPadIndex(r, k); REQ_EQ(i, L.getPadIndex(r, k)); REQ_EQ(M.getRowNumber(i), r); REQ_EQ(M.getPadNumber(i), k);
      REQ_EQ(M.getPadWidth(i), L.getPadWidth(i)); REQ_EQ(M.getPadHeight(i), L.getPadHeight(i)); REQ_EQ(M.getPadPitch(i), L.getPadPitch(i));
      gear::Vector2D c = M.getPadCenter(i), lc = L.getPadCenter(i); XY e = m.toGlobal(m.localXY(lc[0], lc[1])), got = m.globalXY(c[0], c[1]);
      REQUIRE(std::hypot(e.x - got.x, e.y - got.y) <= 1e-11 * sc, "centre of row ", r, " pad ", k, ": ", got.x, ",", got.y, " expected ", e.x, ",", e.y);
      for (int side = 0; side < 2; ++side) {
        int a = -1, b = -1; try { a = side ? M.getLeftNeighbour(i) : M.getRightNeighbour(i); } catch (gear::Exception&) {} try { b = side ? L.getLeftNeighbour(i) : L.getRightNeighbour(i); } catch (gear::Exception&) {}
        REQ_EQ(a, b, "neighbour");
      }
    }
  }
  for (int q = 0; q < 12; ++q) {
    XY l = genLocal(g, m); double c0, c1, a, b; toGlobalC(g, m, l, c0, c1);
    bool origin = m.lm.polar && std::hypot(l.x, l.y) < 1e-3 + eps;      // phi is undefined at the origin of a polar layout
    std::vector<XY> pts = {l, {l.x + eps, l.y}, {l.x - eps, l.y}, {l.x, l.y + eps}, {l.x, l.y - eps}, {l.x + eps, l.y + eps}, {l.x - eps, l.y - eps}, {l.x + eps, l.y - eps}, {l.x - eps, l.y + eps}};
    int r = (int)g.draw(m.lm.rows.size()), k = (int)g.draw(m.lm.rows[r].n), pad = L.getPadIndex(r, k);
    if (!origin) { local(l, a, b); if (g.boolean()) pad = L.getNearestPad(a, b); }
    std::set<int> in, inAny, near;
    for (auto& p : pts) { local(p, a, b); in.insert(L.isInsidePad(a, b, pad)); inAny.insert(L.isInsidePad(a, b)); if (!origin) near.insert(L.getNearestPad(a, b)); }
    if (in.size() == 1 && !origin) REQ_EQ((int)M.isInsidePad(c0, c1, pad), *in.begin(), "point ", c0, ",", c1, " row ", L.getRowNumber(pad), " pad ", L.getPadNumber(pad));
    int any = M.isInsidePad(c0, c1); if (inAny.size() == 1 && (!origin || m.lm.ext[0] > 0.01)) REQ_EQ(any, *inAny.begin(), "point ", c0, ",", c1);
    if (near.size() == 1) {
      int got = M.getNearestPad(c0, c1), want = *near.begin(); local(l, a, b);
      // several pads can be equally close (all that touch the origin, for example)
      if (got != want) REQUIRE(std::fabs(L.getDistanceToPad(a, b, got) - L.getDistanceToPad(a, b, want)) <= 1e-7 * sc, "nearest pad of ", c0, ",", c1, " is ", got, " but expected ", want);
    }
    local(l, a, b); if (!origin) REQ_NEAR(M.getDistanceToPad(c0, c1, pad), L.getDistanceToPad(a, b, pad), 1e-8, 3e-8 * sc, "point ", c0, ",", c1);
    double cl = m.clearance(l); if (std::fabs(cl) > eps) { REQ_EQ(M.isInsideModule(c0, c1), cl > 0, "point ", c0, ",", c1, " local ", l.x, ",", l.y); (cl > 0 ? nin : nout)++; }
  }
  if (nin) g.label("points inside module"); if (nout) g.label("points outside module");
}

PROP(module_extent, 60000, 2000000) {
  bool gp = g.chance(1, 2); MSpec s = genModule(g, gp); g.note(show(s)); Mod mod(buildModule(s, g)); MModel m(s, mod.get()); label(g, s, m); const gear::TPCModule& M = *mod;
  double sc = m.scale(), tol = 1e-10 * sc;
  for (int k = 0; k < 4; ++k) REQ_NEAR(M.getLocalModuleExtent()[k], m.ext[k], 1e-11, 1e-12 * sc, "local module extent ", k);
  for (int which = 0; which < 2; ++which) {
    const double* e = which ? m.ext : m.lm.ext; const std::vector<double>& x = which ? M.getModuleExtent() : M.getPlaneExtent(); const char* name = which ? "module extent " : "plane extent ";
    std::ostringstream o; o.precision(17); o << "[" << x[0] << "," << x[1] << "," << x[2] << "," << x[3] << "]"; string got = o.str();
    // outline of the area in global cartesian coordinates: corners, plus where the outer arc is extreme
    std::vector<XY> pts; 
    if (!m.lm.polar) for (int i = 0; i < 2; ++i) for (int j = 2; j < 4; ++j) pts.push_back(m.toGlobal(XY{e[i], e[j]}));
    else {
      for (int i = 0; i < 2; ++i) for (int j = 2; j < 4; ++j) pts.push_back(m.toGlobal(m.localXY(e[i], e[j])));
      for (int k = -40; k <= 40; ++k) { double f = k * PI / 2 - s.angle; if (f >= e[2] && f <= e[3]) pts.push_back(m.toGlobal(m.localXY(e[1], f))); }
    }
    if (!gp) {
      double bb[4] = {1e300, -1e300, 1e300, -1e300};
      for (auto& p : pts) { bb[0] = std::min(bb[0], p.x); bb[1] = std::max(bb[1], p.x); bb[2] = std::min(bb[2], p.y); bb[3] = std::max(bb[3], p.y); }
      for (int k = 0; k < 4; ++k) REQUIRE(std::fabs(x[k] - bb[k]) <= 10 * tol, name, k, " is ", x[k], " expected ", bb[k], " all: ", got);
      continue;
    }
    // polar: radii are the exact minimum and maximum over the sector, phi encloses it
    XY org = m.toLocal(XY{0, 0}); double r0 = std::hypot(org.x, org.y), f0 = std::atan2(org.y, org.x);
    double dmin = r0 < 1e-12 * sc ? e[0] : sectorDist(r0, f0, e[0], e[1], e[2], e[3]), dmax = 0;
    for (int i = 0; i < 2; ++i) for (int j = 2; j < 4; ++j) { XY p = m.toGlobal(m.localXY(e[i], e[j])); dmax = std::max(dmax, std::hypot(p.x, p.y)); }
    double opp = wrapFrom(f0 + PI, e[2]); if (opp <= e[3]) dmax = std::max(dmax, r0 + e[1]);
    REQUIRE(std::fabs(x[0] - dmin) <= 1e-7 * sc, name, "rMin is ", x[0], " expected ", dmin, " all: ", got);
    REQUIRE(std::fabs(x[1] - dmax) <= 1e-7 * sc, name, "rMax is ", x[1], " expected ", dmax, " all: ", got);
    REQUIRE(x[2] <= x[3] + 1e-12 && std::isfinite(x[2]) && std::isfinite(x[3]), name, got);
    for (int q = 0; q < 40; ++q) {
      double r = q % 4 == 0 ? e[0] : q % 4 == 1 ? e[1] : e[0] + (e[1] - e[0]) * g.frac(), f = q % 8 == 2 ? e[2] : q % 8 == 3 ? e[3] : e[2] + (e[3] - e[2]) * g.frac();
      XY p = m.toGlobal(m.localXY(r, f)); double rr = std::hypot(p.x, p.y), ph = std::atan2(p.y, p.x); if (rr < 1e-6 * sc) continue;
      double w = wrapFrom(ph, x[2] - 1e-7) ; REQUIRE(w <= x[3] + 1e-7 + 1e-9 * sc / rr || x[3] - x[2] >= TWOPI - 1e-7, name, got, " does not contain phi ", ph, " of the point local r=", r, " phi=", f, " global r=", rr);
    }
  }
}

// ---------------- P13, modules ----------------
PROP(distance_to_module, 60000, 2000000) {
  bool gp = g.chance(1, 3); MSpec s = genModule(g, gp); g.note(show(s)); Mod mod(buildModule(s, g)); MModel m(s, mod.get()); label(g, s, m); const gear::TPCModule& M = *mod; double sc = m.scale(); int nin = 0, nout = 0;
  for (int q = 0; q < 15; ++q) {
    XY l = genLocal(g, m); double c0, c1; toGlobalC(g, m, l, c0, c1);
    double d = m.moduleDist(l), got = M.getDistanceToModule(c0, c1);
    REQ_NEAR(got, d, 1e-8, 5e-8 * sc, "point ", c0, ",", c1, " local ", l.x, ",", l.y); REQUIRE(got >= 0, got);
    if (m.clearance(l) > 1e-9 * sc) { REQ_EQ(got, 0., "inside ", c0, ",", c1); ++nin; } else if (d > 1e-6 * sc) { REQUIRE(got > 0, "0 outside"); ++nout; }
  }
  // the same module and points, moved together
  if (!gp) {
    double al = g.generic(-7, 7), dx = g.generic(-1, 1) * sc, dy = g.generic(-1, 1) * sc; MSpec t = s; t.angle += (s.flip() ? -al : al);
    XY o = m.toGlobal(XY{0, 0}); double nx = o.x * std::cos(al) - o.y * std::sin(al) + dx, ny = o.x * std::sin(al) + o.y * std::cos(al) + dy; t.o0 = s.flip() ? -nx : nx; t.o1 = ny; t.hasZ = true; t.z = s.flip() ? -3 : 4;
    Mod mt(buildModule(t, g, false));
    for (int q = 0; q < 5; ++q) {
      XY p = m.toGlobal(genLocal(g, m)); XY pm{p.x * std::cos(al) - p.y * std::sin(al) + dx, p.x * std::sin(al) + p.y * std::cos(al) + dy};
      REQ_NEAR(mt->getDistanceToModule(pm.x, pm.y), M.getDistanceToModule(p.x, p.y), 1e-7, 2e-7 * sc, "moved by ", al, " ", dx, ",", dy);
    }
  }
  if (nin) g.label("points inside"); if (nout) g.label("points outside"); g.nontrivial(nin && nout);
}

// ---------------- P15: the whole TPC ----------------
namespace {
struct Tpc {                      // reference model: which modules were accepted, in which half they are
  bool gpolar; double drift, velocity = 0; vector<MSpec> mods; vector<const gear::TPCModule*> ptr;
  // cathode as documented in TPCParametersImpl.h: only defined if all modules of a half share one z
  double cathode() const {
    double n = 0, p = 0; bool hn = false, hp = false;
    for (auto& m : mods) { if (m.z <= 0) { if (!hn) n = m.z; hn = true; } else { if (!hp) p = m.z; hp = true; } }
    return hn && hp ? (n + p) / 2 : hn ? n + drift : p - drift;
  }
};
}
PROP(tpc_queries, 50000, 1500000) {
  bool gp = g.chance(1, 3); Quiet quiet; Tpc t; t.gpolar = gp; t.drift = g.boolean() ? g.real(0, 3000) : (double)g.integer(0, 3000);
  std::unique_ptr<gear::TPCParametersImpl> tpc;
  if (gp && g.chance(1, 5)) { tpc.reset(g.boolean() ? new gear::TPCParametersImpl(t.drift) : new gear::TPCParametersImpl()); t.drift = 0; } else tpc.reset(new gear::TPCParametersImpl(t.drift, gp ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN));
  gear::TPCParametersImpl& T = *tpc; const gear::TPCParameters& C = T;
  // halves: 0 no module has a z position, 1 all have (one z per half), 2 mixture
  int zmode = (int)g.draw(3); double zneg = g.pick<double>({0., -1., 0.}) * (g.boolean() ? 1. : g.generic(1, 3000)), zpos = g.pick<double>({1., 2.}) * (g.boolean() ? 1. : g.generic(1, 3000)); if (zneg == 0) zneg = 0;
  int nops = g.many(0, 12, 60, 60), refused = 0; bool plainPlane = false;
  auto state = [&](const char* when) { REQ_EQ(C.getNModules(), (int)t.mods.size(), when); REQ_EQ((int)C.getModules().size(), (int)t.mods.size(), when); for (size_t k = 0; k < t.ptr.size(); ++k) REQUIRE(C.getModules()[k] == t.ptr[k], when, " module ", k); };
  for (int op = 0; op < nops; ++op) {
    switch (g.draw(16)) {
      case 0: t.drift = g.real(0, 3000); T.setMaxDriftLength(t.drift); g.note("setMaxDriftLength ", t.drift); break;
      case 1: t.velocity = g.real(-10, 1e5); T.setDriftVelocity(t.velocity); break;
      case 2: REQ_THROWS(gear::Exception, T.addModule(nullptr), "null module"); ++refused; break;
      case 3: { MSpec s = genModule(g, !gp, true); Mod m(buildModule(s, g, false)); REQ_THROWS(gear::Exception, T.addModule(m.get()), "module of the other coordinate type"); ++refused; g.note("refused: other coordinate type"); break; }
      case 4: {
        if (t.mods.empty()) {
          if (g.boolean()) { Mod m(buildModule(genModule(g, gp, true), g, false)); REQ_THROWS(gear::Exception, T.setPadLayout(m.get()), "module as plain layout"); ++refused; break; }
          if (zmode == 1) break;
          MSpec s; s.gpolar = gp; s.lay = genLayout(g, gp ? g.pick<Kind>({SIZE, ANGLE, VERS}) : g.pick<Kind>({RECT, SIZE})); s.id = 0; s.freq = 0;
          g.note("setPadLayout ", show(s.lay)); T.setPadLayout(build(s.lay, g)); t.mods.push_back(s); t.ptr.push_back(&C.getModule(0)); plainPlane = true;
        } else { std::unique_ptr<gear::PadRowLayout2D> l(build(genLayout(g, SIZE), g)); REQ_THROWS(gear::Exception, T.setPadLayout(l.get()), "second plane"); ++refused; }
        break;
      }
      default: {
        MSpec s = genModule(g, gp); s.hasZ = zmode == 1 || (zmode == 2 && g.boolean()); s.z = g.boolean() ? zneg : zpos; if (!s.hasZ) s.z = 0;
        if (t.mods.size() && g.chance(1, 5)) s.id = g.pick(t.mods).id;
        bool dup = false; for (auto& o : t.mods) dup |= o.id == s.id;
        g.note(dup ? "refused duplicate " : "add ", show(s));
        Mod m(buildModule(s, g));
        if (dup) { REQ_THROWS(gear::Exception, T.addModule(m.get()), "module with duplicate ID ", s.id); ++refused; }
        else { T.addModule(m.get()); t.mods.push_back(s); t.ptr.push_back(m.release()); }
      }
    }
    state("after an operation");
  }
  REQ_EQ(C.getMaxDriftLength(), t.drift); REQ_EQ(C.getDriftVelocity(), t.velocity); REQ_EQ(C.getCoordinateType(), (int)(gp ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN));
  for (size_t k = 0; k < t.mods.size(); ++k) { const gear::TPCModule& m = C.getModule(t.mods[k].id); REQUIRE(&m == t.ptr[k], "module of ID ", t.mods[k].id); REQ_EQ(m.getModuleID(), t.mods[k].id); REQ_EQ(m.getReadoutFrequency(), t.mods[k].freq); }
  for (int id : {-6, 41, 1000, (int)g.integer(-5, 40)}) { bool known = false; for (auto& o : t.mods) known |= o.id == id; if (!known) REQ_THROWS(gear::Exception, C.getModule(id), "ID ", id); }
  size_t n = t.mods.size();
  // plane extent: the union over the modules
  if (n == 0) REQ_THROWS(gear::Exception, C.getPlaneExtent());
  else {
    const vector<double>& x = C.getPlaneExtent(); REQ_EQ((int)x.size(), 4);
    for (int k = 0; k < 4; ++k) { double e = t.ptr[0]->getModuleExtent()[k]; for (auto* m : t.ptr) e = k % 2 ? std::max(e, m->getModuleExtent()[k]) : std::min(e, m->getModuleExtent()[k]); REQ_EQ(x[k], e, "plane extent ", k); }
  }
  // single-plane convenience
  if (n != 1) { REQ_THROWS(gear::Exception, C.getPadLayout()); REQ_THROWS(gear::Exception, C.getReadoutFrequency()); REQ_THROWS(gear::Exception, T.setReadoutFrequency(3)); }
  else {
    const MSpec& s = t.mods[0];
    if (s.o0 == 0 && s.o1 == 0 && s.angle == 0) { const gear::PadRowLayout2D& l = C.getPadLayout(); REQ_EQ(l.getNPads(), t.ptr[0]->getNPads()); REQ_EQ(l.getNRows(), t.ptr[0]->getNRows()); int i = t.ptr[0]->getPadIndex(0, 0); REQUIRE(l.getPadCenter(i)[0] == t.ptr[0]->getPadCenter(i)[0] && l.getPadCenter(i)[1] == t.ptr[0]->getPadCenter(i)[1], "pad layout of the only module"); REQUIRE(l.getPlaneExtent() == t.ptr[0]->getPlaneExtent(), "extent of the only plane"); g.label("single plane"); }
    else REQ_THROWS(gear::Exception, C.getPadLayout());
    REQ_EQ(C.getReadoutFrequency(), s.freq); double f = g.real(0, 1e9); T.setReadoutFrequency(f); REQ_EQ(C.getReadoutFrequency(), f); REQ_EQ(t.ptr[0]->getReadoutFrequency(), f);
  }
  // point queries
  vector<MModel> models; for (auto& s : t.mods) models.emplace_back(s); int ninside = 0;
  for (int q = 0; q < 10; ++q) {
    double c0, c1, z = 0; bool origin = false;
    if (n) { const MModel& m = models[g.draw(n)]; toGlobalC(g, m, genLocal(g, m), c0, c1); } else { c0 = g.real(0, 100); c1 = g.real(0, 6); }
    XY gl = gp ? XY{c0 * std::cos(c1), c0 * std::sin(c1)} : XY{c0, c1};
    for (auto& m : models) { XY l = m.toLocal(gl); if (m.lm.polar && std::hypot(l.x, l.y) < 1e-3) origin = true; }
    bool any = n == 0 || zmode == 0, defined = zmode == 1 && n;
    double cath = defined ? t.cathode() : 0, far = 1e6;
    switch (g.draw(4)) { case 0: z = -far; break; case 1: z = far; break; default: z = defined ? cath + g.pick<double>({-1., 1.}) * g.pick<double>({1e-6, 0.5, 100., 3000.}) * (0.5 + g.frac()) : any ? g.real(-3000, 3000) : (g.boolean() ? far : -far); }
    for (int three = 0; three < 2; ++three) {
      vector<int> set; bool neg = z <= cath;
      if (defined && three && std::fabs(z - cath) < 1e-9 * std::fabs(cath)) continue;
      for (size_t k = 0; k < n; ++k) if (!three || !t.mods[k].hasZ || (t.mods[k].z <= 0) == neg) set.push_back((int)k);
      if (three && set.size() && set.size() < n) g.label("end cap chosen");
      std::ostringstream w; w.precision(17); w << (three ? "3D " : "2D ") << c0 << "," << c1; if (three) w << "," << z; string where = w.str();
      bool im = false, ip = false; double dmin = 1e300; for (int k : set) { im |= t.ptr[k]->isInsideModule(c0, c1); if (!origin) ip |= t.ptr[k]->isInsidePad(c0, c1); dmin = std::min(dmin, t.ptr[k]->getDistanceToModule(c0, c1)); }
      REQ_EQ(three ? C.isInsideModule(c0, c1, z) : C.isInsideModule(c0, c1), im, where);
      if (!origin) REQ_EQ(three ? C.isInsidePad(c0, c1, z) : C.isInsidePad(c0, c1), ip, where);
      if (set.empty()) {
        if (three) { REQ_THROWS(gear::Exception, C.getNearestModule(c0, c1, z), where); REQ_THROWS(gear::Exception, C.getNearestPad(c0, c1, z), where); }
        else { REQ_THROWS(gear::Exception, C.getNearestModule(c0, c1), where); REQ_THROWS(gear::Exception, C.getNearestPad(c0, c1), where); }
        continue;
      }
      const gear::TPCModule& nm = three ? C.getNearestModule(c0, c1, z) : C.getNearestModule(c0, c1);
      bool member = false; for (int k : set) member |= t.ptr[k] == &nm;
      REQUIRE(member, "nearest module ", nm.getModuleID(), " is not in the chosen half, ", where); REQ_EQ(nm.getDistanceToModule(c0, c1), dmin, "nearest module ", nm.getModuleID(), " ", where);
      if (im) ++ninside;
      if (origin) continue;
      gear::GlobalPadIndex p = three ? C.getNearestPad(c0, c1, z) : C.getNearestPad(c0, c1);
      const gear::TPCModule* pm = nullptr; double pmin = 1e300; for (int k : set) { int i = t.ptr[k]->getNearestPad(c0, c1); pmin = std::min(pmin, t.ptr[k]->getDistanceToPad(c0, c1, i)); if (t.mods[k].id == p.getModuleID()) pm = t.ptr[k]; }
      REQUIRE(pm, "nearest pad is in module ", p.getModuleID(), " outside the chosen half, ", where);
      REQ_EQ(p.getPadIndex(), pm->getNearestPad(c0, c1), where); REQ_EQ(pm->getDistanceToPad(c0, c1, p.getPadIndex()), pmin, "nearest pad in module ", p.getModuleID(), " ", where);
    }
  }
  state("after the queries"); (void)plainPlane;
  g.nontrivial(n >= 2); if (refused) g.label("refused additions"); if (ninside) g.label("points inside"); g.label(zmode == 0 ? "no z positions" : zmode == 1 ? "z positions" : "some z positions");
}

// global pad indices: pairs of module and pad with the order of pairs, usable as keys
PROP(global_index, 6000, 100000) {
  vector<std::pair<int, int>> want; vector<gear::GlobalPadIndex> have; std::map<gear::GlobalPadIndex, int> keyed; std::map<std::pair<int, int>, int> model; int n = g.many(2, 8, 60, 20);
  auto num = [&]() { switch (g.draw(4)) { case 0: return (int)g.draw(3); case 1: return (int)g.integer(-3, 3); case 2: return (int)((g.draw(3) << 16) | g.draw(3)); default: return (int)g.integer(INT_MIN, INT_MAX); } };
  for (int i = 0; i < n; ++i) {
    int m = num(), p = num(); gear::GlobalPadIndex x(p, m);
    if (g.chance(1, 3)) { int m2 = num(); x.setModuleID(m2); m = m2; REQ_EQ(x.getPadIndex(), p); } if (g.chance(1, 3)) { int p2 = num(); x.setPadIndex(p2); p = p2; REQ_EQ(x.getModuleID(), m); }
    if (have.size() && g.chance(1, 4)) { int k = (int)g.draw(have.size()); gear::GlobalPadIndex c(have[k]); x = c; m = want[k].first; p = want[k].second; }
    REQ_EQ(x.getModuleID(), m); REQ_EQ(x.getPadIndex(), p); want.push_back({m, p}); have.push_back(x); keyed[x] = i; model[{m, p}] = i;
  }
  for (size_t i = 0; i < have.size(); ++i) for (size_t j = 0; j < have.size(); ++j) { REQ_EQ(have[i] == have[j], want[i] == want[j], "module ", want[i].first, " pad ", want[i].second, " and module ", want[j].first, " pad ", want[j].second); REQ_EQ(have[i] < have[j], want[i] < want[j], "module ", want[i].first, " pad ", want[i].second, " and module ", want[j].first, " pad ", want[j].second); }
  REQ_EQ(keyed.size(), model.size()); for (size_t i = 0; i < have.size(); ++i) REQ_EQ(keyed[have[i]], model[want[i]]);
  g.nontrivial(n >= 3);
}
