// P16: copies are equal and independent
#include "geom.h"
using namespace geom;

// pool of (object, specification); K describes one kind of object
template <class K> static void history(Gen& g, K& kind) {
  typedef typename K::Obj Obj; typedef typename K::Spec Spec;
  struct E { std::unique_ptr<Obj> o; Spec s; };
  std::vector<E> pool; int copies = 0, assigns = 0, mods = 0, dead = 0, ids = 0;
  auto checkAll = [&]() { for (size_t k = 0; k < pool.size(); ++k) kind.compare(g, *pool[k].o, pool[k].s, "object " + std::to_string(k)); };
  { E e; e.s = kind.gen(g); g.note("0: ", kind.show(e.s)); e.o.reset(kind.make(g, e.s)); pool.push_back(std::move(e)); }
  int n = g.many(2, 14, 60);
  for (int i = 0; i < n; ++i) {
    size_t a = g.draw(pool.size());
    switch (g.draw(6)) {
      case 0: case 1: { if (pool.size() > 4) break; E e; e.s = pool[a].s; e.o.reset(kind.copy(g, *pool[a].o)); g.note("copy ", a, " -> ", pool.size()); pool.push_back(std::move(e)); ++copies; break; }
      case 2: { size_t b = g.draw(pool.size()); g.note("assign ", a, " = ", b); Obj* r = kind.assign(*pool[a].o, *pool[b].o); REQUIRE(r == 0 || r == pool[a].o.get(), "assignment returns another object"); Spec t = pool[b].s; pool[a].s = t; ++assigns; if (a == b) g.label("self assignment"); break; }
      case 3: { g.note("modify ", a); kind.modify(g, *pool[a].o, pool[a].s); ++mods; break; }
      case 4: { if (pool.size() < 2) break; g.note("destroy ", a); pool.erase(pool.begin() + a); ++dead; break; }
      default: { if (pool.size() > 4) break; E e; e.s = kind.gen(g); g.note(pool.size(), ": new ", kind.show(e.s)); e.o.reset(kind.make(g, e.s)); pool.push_back(std::move(e)); }
    }
    if (g.chance(1, 4)) checkAll();
  }
  checkAll();
  g.nontrivial(copies + assigns > 0 && mods + dead > 0); if (assigns) g.label("assigned"); if (mods && copies) g.label("modified after copy"); if (dead) g.label("destroyed");
  (void)ids;
}
static void setPar(Gen& g, gear::GearParametersImpl& p, PSpec& s) {
  PSpec add = genParams(g, 3); fill(p, add);
  for (auto& e : add.i) s.i[e.first] = e.second; for (auto& e : add.d) s.d[e.first] = e.second; for (auto& e : add.s) s.s[e.first] = e.second;
  for (auto& e : add.iv) s.iv[e.first] = e.second; for (auto& e : add.dv) s.dv[e.first] = e.second; for (auto& e : add.sv) s.sv[e.first] = e.second;
}

// ---- pad layouts ----
static void sameAnswers(Gen& g, const gear::PadRowLayout2D& a, const gear::PadRowLayout2D& b, const LSpec& s, const string& where) {
  compareLayouts(g, a, b, s, 1e-14, where);
  const auto& e = b.getPlaneExtent();
  for (int k = 0; k < 3; ++k) {
    double x = e[0] + (e[1] - e[0]) * g.generic(-0.2, 1.2), y = e[2] + (e[3] - e[2]) * g.generic(-0.2, 1.2); if (s.kind != RECT) x = std::max(x, 1e-2);
    int na = a.getNearestPad(x, y), nb = b.getNearestPad(x, y); REQUIRE(na == nb, where, " nearest pad ", na, " expected ", nb);
    REQUIRE(a.isInsidePad(x, y) == b.isInsidePad(x, y), where, " isInsidePad"); REQUIRE(a.isInsidePad(x, y, na) == b.isInsidePad(x, y, na), where, " isInsidePad(pad)"); REQUIRE(sameBits(a.getDistanceToPad(x, y, na), b.getDistanceToPad(x, y, na)), where, " distance");
    int r = (int)g.draw(b.getNRows()), p = b.getPadsInRow(r)[g.draw(b.getPadsInRow(r).size())]; 
    for (int side = 0; side < 2; ++side) { int va = -1, vb = -1; try { va = side ? a.getRightNeighbour(p) : a.getLeftNeighbour(p); } catch (gear::Exception&) {} try { vb = side ? b.getRightNeighbour(p) : b.getLeftNeighbour(p); } catch (gear::Exception&) {} REQUIRE(va == vb, where, " neighbour"); }
    REQUIRE(a.getPadIndex(b.getRowNumber(p), b.getPadNumber(p)) == p, where, " index");
  }
}
static void addCall(Gen& g, LSpec& s, Call& c) { LModel m = modelOf(s); double r = m.ext[1]; c = genCall(g, s, r); s.calls.push_back(c); }
struct LayoutK {
  typedef gear::PadRowLayout2D Obj; typedef LSpec Spec; Kind kind;
  Spec gen(Gen& g) { return genLayout(g, kind); } string show(const Spec& s) { return pads::show(s); }
  Obj* make(Gen& g, const Spec& s) { return pads::build(s, g, g.boolean()); }
  Obj* copy(Gen& g, const Obj& o) {
    if (g.boolean()) return o.clone();
    switch (kind) { case RECT: return new gear::RectangularPadRowLayout(dynamic_cast<const gear::RectangularPadRowLayout&>(o)); case SIZE: return new gear::FixedPadSizeDiskLayout(dynamic_cast<const gear::FixedPadSizeDiskLayout&>(o)); case ANGLE: return new gear::FixedPadAngleDiskLayout(dynamic_cast<const gear::FixedPadAngleDiskLayout&>(o)); default: return new gear::VersatileDiskRowLayout(dynamic_cast<const gear::VersatileDiskRowLayout&>(o)); }
  }
  template <class T> Obj* as(Obj& a, const Obj& b) { return &(dynamic_cast<T&>(a) = dynamic_cast<const T&>(b)); }
  Obj* assign(Obj& a, const Obj& b) { switch (kind) { case RECT: return as<gear::RectangularPadRowLayout>(a, b); case SIZE: return as<gear::FixedPadSizeDiskLayout>(a, b); case ANGLE: return as<gear::FixedPadAngleDiskLayout>(a, b); default: return as<gear::VersatileDiskRowLayout>(a, b); } }
  void modify(Gen& g, Obj& o, Spec& s) { if (kind == SIZE || kind == ANGLE) return; Quiet q; Call c; addCall(g, s, c); apply(&o, s, c, g); }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { std::unique_ptr<Obj> ref(pads::build(s, g, false)); sameAnswers(g, o, *ref, s, w); }
};
PROP(copy_layouts, 25000, 150000) { LayoutK k; k.kind = g.pick<Kind>({RECT, SIZE, ANGLE, VERS}); g.label(k.kind == RECT ? "rectangular" : k.kind == SIZE ? "fixed size" : k.kind == ANGLE ? "fixed angle" : "versatile"); history(g, k); }

// ---- TPC modules ----
struct MP { MSpec m; PSpec p; };
static void modifyModule(Gen& g, gear::TPCModuleImpl& o, MP& s) {
  MSpec n = genModule(g, s.m.gpolar, false);
  switch (g.draw(6)) { case 0: s.m.o0 = n.o0; s.m.o1 = n.o1; o.setOffset(n.o0, n.o1); break; case 1: s.m.angle = n.angle; o.setAngle(n.angle); break; case 2: s.m.border = n.border; o.setBorderWidth(n.border); break; case 3: s.m.hasZ = true; s.m.z = n.z; o.setZPosition(n.z); break; case 4: s.m.freq = n.freq; o.setReadoutFrequency(n.freq); break; default: setPar(g, o, s.p); }
}
static void moduleAnswers(Gen& g, const gear::TPCModule& a, const gear::TPCModule& b, const string& where) {
  // the phi range of a polar module may be written from any equivalent angle
  auto same = [&](const std::vector<double>& p, const std::vector<double>& q, const char* what) {
    bool polar = b.getTPCCoordinateType() == gear::PadRowLayout2D::POLAR; double turn = polar ? TWOPI * std::round((p[2] - q[2]) / TWOPI) : 0;
    for (int k = 0; k < 4; ++k) REQUIRE(near(p[k], q[k] + (k < 2 ? 0 : turn), 1e-12, 1e-12), where, what, k, ": ", p[k], " expected ", q[k]);
  };
  same(a.getModuleExtent(), b.getModuleExtent(), " module extent "); same(a.getPlaneExtent(), b.getPlaneExtent(), " plane extent ");
  for (int k = 0; k < 3; ++k) {
    const auto& e = b.getModuleExtent(); double x = e[0] + (e[1] - e[0]) * g.generic(-0.2, 1.2), y = e[2] + (e[3] - e[2]) * g.generic(-0.2, 1.2); if (b.getTPCCoordinateType() == gear::PadRowLayout2D::POLAR) x = std::fabs(x) + 1e-3;
    REQUIRE(a.isInsideModule(x, y) == b.isInsideModule(x, y), where, " isInsideModule"); REQUIRE(near(a.getDistanceToModule(x, y), b.getDistanceToModule(x, y), 1e-12, 1e-12), where, " distance");
    REQUIRE(a.getNearestPad(x, y) == b.getNearestPad(x, y), where, " nearest pad"); REQUIRE(a.isInsidePad(x, y) == b.isInsidePad(x, y), where, " isInsidePad");
    int p = b.getNearestPad(x, y); auto ca = a.getPadCenter(p), cb = b.getPadCenter(p); REQUIRE(near(ca[0], cb[0], 1e-12, 1e-12) && near(ca[1], cb[1], 1e-12, 1e-12), where, " pad centre");
  }
}
struct ModuleK {
  typedef gear::TPCModuleImpl Obj; typedef MP Spec; bool polar;
  Spec gen(Gen& g) { MP s; s.m = genModule(g, polar); s.p = genParams(g, 3); return s; } string show(const Spec& s) { return ::show(s.m) + model::show(s.p); }
  Obj* make(Gen& g, const Spec& s) { Obj* o = buildModule(s.m, g, g.boolean()); fill(*o, s.p); return o; }
  Obj* copy(Gen& g, const Obj& o) { if (g.boolean()) { Obj* c = dynamic_cast<Obj*>(o.clone()); REQUIRE(c, "clone is not a module"); return c; } return new Obj(o); }
  Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { modifyModule(g, o, s); }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { compareModule(g, o, s.m, s.p, -1, w); std::unique_ptr<Obj> ref(buildModule(s.m, g, false)); moduleAnswers(g, o, *ref, w); }
};
PROP(copy_modules, 20000, 100000) { ModuleK k; k.polar = g.boolean(); g.label(k.polar ? "polar TPC" : "cartesian TPC"); history(g, k); }

// ---- TPC ----
struct TpcK {
  typedef gear::TPCParametersImpl Obj; typedef TSpec Spec;
  Spec gen(Gen& g) { TSpec t = genTPC(g); if (!t.mods.empty()) { bool z = t.mods[0].hasZ; for (auto& m : t.mods) if (m.hasZ != z) { m.hasZ = z; m.z = z ? t.mods[0].z : 0; } } return t; }
  string show(const Spec& s) { return geom::show(s); }
  Obj* make(Gen& g, const Spec& s) { return geom::build(s, g); }
  Obj* copy(Gen& g, const Obj& o) { return new Obj(o); }
  Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) {
    switch (g.draw(5)) {
      case 0: s.velocity = modD(g); o.setDriftVelocity(s.velocity); break; case 1: s.drift = posD(g); o.setMaxDriftLength(s.drift); break;
      case 2: { MSpec m = genModule(g, s.polar); std::set<int> ids; for (auto& x : s.mods) ids.insert(x.id); while (ids.count(m.id)) ++m.id; if (!s.mods.empty()) { m.hasZ = s.mods[0].hasZ; m.z = m.hasZ ? (g.boolean() ? 1. : -1.) * s.mods[0].z : 0; } s.plain = false; s.mods.push_back(m); s.modPar.push_back(PSpec()); o.addModule(buildModule(m, g, false)); break; }
      case 3: if (s.mods.empty()) { setPar(g, o, s.params); break; } else { size_t k = g.draw(s.mods.size()); auto* p = dynamic_cast<gear::GearParametersImpl*>(o.getModules()[k]); if (p) setPar(g, *p, s.modPar[k]); break; }
      default: setPar(g, o, s.params);
    }
  }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) {
    geom::compare(g, o, s, -1, w); std::unique_ptr<Obj> ref(geom::build(s, g)); if (s.mods.empty()) return;
    for (int k = 0; k < 4; ++k) REQUIRE(near(o.getPlaneExtent()[k], ref->getPlaneExtent()[k], 1e-12, 1e-12), w, " extent ", k, " ", o.getPlaneExtent()[k], " expected ", ref->getPlaneExtent()[k]);
    const auto& e = ref->getPlaneExtent();
    for (int k = 0; k < 3; ++k) {
      double x = e[0] + (e[1] - e[0]) * g.generic(-0.2, 1.2), y = e[2] + (e[3] - e[2]) * g.generic(-0.2, 1.2), z = g.generic(-1, 1) * 4000; if (s.polar) x = std::fabs(x) + 1e-3;
      REQUIRE(o.isInsideModule(x, y) == ref->isInsideModule(x, y), w, " isInsideModule"); REQUIRE(o.isInsidePad(x, y) == ref->isInsidePad(x, y), w, " isInsidePad"); REQUIRE(o.getNearestPad(x, y) == ref->getNearestPad(x, y), w, " nearest pad"); REQUIRE(o.getNearestModule(x, y).getModuleID() == ref->getNearestModule(x, y).getModuleID(), w, " nearest module");
      if (s.mods[0].hasZ) { REQUIRE(o.isInsideModule(x, y, z) == ref->isInsideModule(x, y, z), w, " isInsideModule 3D"); REQUIRE(o.isInsidePad(x, y, z) == ref->isInsidePad(x, y, z), w, " isInsidePad 3D"); int i1 = -99, i2 = -99; try { i1 = o.getNearestModule(x, y, z).getModuleID(); } catch (gear::Exception&) {} try { i2 = ref->getNearestModule(x, y, z).getModuleID(); } catch (gear::Exception&) {} REQUIRE(i1 == i2, w, " nearest module 3D ", i1, " expected ", i2); }
    }
  }
};
PROP(copy_tpc, 8000, 60000) { TpcK k; history(g, k); }

// ---- parameter sets, calorimeters, trackers, field, material ----
struct ParK { typedef gear::GearParametersImpl Obj; typedef PSpec Spec; Spec gen(Gen& g) { return genParams(g, 10); } string show(const Spec& s) { return model::show(s); } Obj* make(Gen&, const Spec& s) { Obj* o = new Obj; fill(*o, s); return o; } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); } void modify(Gen& g, Obj& o, Spec& s) { setPar(g, o, s); } void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { model::compare(g, o, s, -1, w); } };
struct CalK { typedef gear::CalorimeterParametersImpl Obj; typedef CalSpec Spec; Spec gen(Gen& g) { return genCal(g, 2); } string show(const Spec& s) { return model::show(s); } Obj* make(Gen&, const Spec& s) { return geom::build(s); } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { if (g.boolean()) { setPar(g, o, s.params); return; } CalSpec::L l; l.thick = modD(g); l.abs = modD(g); l.c0 = modD(g); l.c1 = modD(g); if (s.layers.empty()) { l.dist = s.barrel ? s.a : s.c; o.layerLayout().positionLayer(l.dist, l.thick, l.c0, l.c1, l.abs); } else { l.dist = s.layers.back().dist + s.layers.back().thick; o.layerLayout().addLayer(l.thick, l.c0, l.c1, l.abs); } s.layers.push_back(l); }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { geom::compare(g, o, s, -1, w); } };
struct ZK { typedef gear::ZPlanarParametersImpl Obj; typedef ZSpec Spec; Spec gen(Gen& g) { return genZ(g, anyNum); } string show(const Spec& s) { return model::show(s); } Obj* make(Gen&, const Spec& s) { return model::build(s); } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { if (g.boolean()) { setPar(g, o, s.params); return; } ZSpec n = genZ(g, anyNum); for (auto& l : n.layers) { o.addLayer(l.n, l.phi0, l.l[0], l.l[1], l.l[2], l.l[3], l.l[4], l.l[5], l.s[0], l.s[1], l.s[2], l.s[3], l.s[4], l.s[5]); s.layers.push_back(l); } }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { model::compare(g, o, s, -1, w); } };
struct FK { typedef gear::FTDParametersImpl Obj; typedef FSpec Spec; Spec gen(Gen& g) { return genF(g, anyNum); } string show(const Spec& s) { return model::show(s); } Obj* make(Gen&, const Spec& s) { return model::build(s); } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { if (g.boolean()) { setPar(g, o, s.params); return; } FSpec::L l = genFLayer(g, anyNum); addTo(o, l); s.layers.push_back(l); }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { model::compare(g, o, s, -1, w); } };
struct SiK { typedef gear::SiPlanesParametersImpl Obj; typedef SiSpec Spec; Spec gen(Gen& g) { return genSi(g, anyNum); } string show(const Spec& s) { return model::show(s); } Obj* make(Gen&, const Spec& s) { return model::build(s); } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { if (g.boolean()) { setPar(g, o, s.params); return; } SiSpec::L l = genSiLayer(g, anyNum); if (g.boolean()) { addNew(o, l); s.layers.push_back(l); } else { addDut(o, l); s.dut = l; s.hasDut = true; } }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { model::compare(g, o, s, -1, w); } };
struct TpK { typedef gear::TrackerPlanesParametersImpl Obj; typedef TpSpec Spec; static string text(Gen& g) { return anyText(g); } Spec gen(Gen& g) { return genTp(g, anyNum, text); } string show(const Spec& s) { return model::show(s); } Obj* make(Gen&, const Spec& s) { return model::build(s); } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { if (g.boolean()) { setPar(g, o, s.params); return; } TpSpec::L l = genTpLayer(g, anyNum, text); auto y = buildLayer(l); o.addLayer(&y); s.layers.push_back(l); }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { model::compare(g, o, s, -1, w); } };
struct BK { typedef gear::ConstantBField Obj; typedef BSpec Spec; Spec gen(Gen& g) { return genB(g); } string show(const Spec& s) { return model::show(s.params); } Obj* make(Gen&, const Spec& s) { Obj* o = new Obj(gear::Vector3D(s.v[0], s.v[1], s.v[2])); fill(*o, s.params); return o; } Obj* copy(Gen&, const Obj& o) { return new Obj(o); } Obj* assign(Obj& a, const Obj& b) { return &(a = b); }
  void modify(Gen& g, Obj& o, Spec& s) { setPar(g, o, s.params); }
  void compare(Gen& g, const Obj& o, const Spec& s, const string& w) { auto f = o.at(gear::Vector3D(1, 2, 3)); REQUIRE(sameBits(f.x(), s.v[0]) && sameBits(f.y(), s.v[1]) && sameBits(f.z(), s.v[2]), w, " field"); model::compare(g, (const gear::GearParameters&)(const gear::GearParametersImpl&)o, s.params, -1, w); } };
PROP(copy_data, 30000, 250000) {
  switch (g.draw(7)) { case 0: { g.label("parameters"); ParK k; history(g, k); break; } case 1: { g.label("calorimeter"); CalK k; history(g, k); break; } case 2: { g.label("ladders"); ZK k; history(g, k); break; } case 3: { g.label("disks"); FK k; history(g, k); break; } case 4: { g.label("SiPlanes"); SiK k; history(g, k); break; } case 5: { g.label("TrackerPlanes"); TpK k; history(g, k); break; } default: { g.label("field"); BK k; history(g, k); } }
}
