// reference model of a whole geometry (GSpec): any subset of the slots of a GearMgr
#pragma once
#include "tpc.h"
#include "trackers.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include <iostream>
#include <fstream>
#include <algorithm>

namespace geom {
using namespace model; using namespace pads;
using gear::GearMgr;
const double WTOL = 1e-9;    // written precision

const int NCAL = 12;
static const char* const CALNAME[NCAL] = {"EcalBarrel", "EcalEndcap", "EcalPlug", "YokeBarrel", "YokeEndcap", "YokePlug", "HcalBarrel", "HcalEndcap", "HcalRing", "Lcal", "LHcal", "BeamCal"};
static const char* const ZNAME[3] = {"VXD", "SIT", "SET"};
inline int calFixed(int k) { return k == 0 || k == 3 || k == 6 ? 1 : k == 1 || k == 4 || k == 7 ? 0 : -1; }  // 1: barrel, 0: endcap, -1: either
inline bool calForward(int k) { return k >= 9; }
inline const gear::CalorimeterParameters& calGet(const GearMgr& m, int k) {
  switch (k) { case 0: return m.getEcalBarrelParameters(); case 1: return m.getEcalEndcapParameters(); case 2: return m.getEcalPlugParameters(); case 3: return m.getYokeBarrelParameters(); case 4: return m.getYokeEndcapParameters(); case 5: return m.getYokePlugParameters();
    case 6: return m.getHcalBarrelParameters(); case 7: return m.getHcalEndcapParameters(); case 8: return m.getHcalRingParameters(); case 9: return m.getLcalParameters(); case 10: return m.getLHcalParameters(); default: return m.getBeamCalParameters(); }
}
inline void calSet(GearMgr& m, int k, gear::CalorimeterParameters* p) {
  switch (k) { case 0: m.setEcalBarrelParameters(p); break; case 1: m.setEcalEndcapParameters(p); break; case 2: m.setEcalPlugParameters(p); break; case 3: m.setYokeBarrelParameters(p); break; case 4: m.setYokeEndcapParameters(p); break; case 5: m.setYokePlugParameters(p); break;
    case 6: m.setHcalBarrelParameters(p); break; case 7: m.setHcalEndcapParameters(p); break; case 8: m.setHcalRingParameters(p); break; case 9: m.setLcalParameters(p); break; case 10: m.setLHcalParameters(p); break; default: m.setBeamCalParameters(p); }
}
inline const gear::ZPlanarParameters& zGet(const GearMgr& m, int k) { return k == 0 ? m.getVXDParameters() : k == 1 ? m.getSITParameters() : m.getSETParameters(); }
inline void zSet(GearMgr& m, int k, gear::ZPlanarParameters* p) { if (k == 0) m.setVXDParameters(p); else if (k == 1) m.setSITParameters(p); else m.setSETParameters(p); }

struct TSpec { bool polar = false, plain = false; double drift = 0, velocity = 0; vector<MSpec> mods; vector<PSpec> modPar; PSpec params; };   // plain: single pad plane set with setPadLayout
struct BSpec { double v[3] = {0, 0, 0}; PSpec params; };
struct MatSpec { double v[5] = {0, 0, 0, 0, 0}; };   // A, Z, density, radLength, intLength
struct GSpec {
  string name; bool hasName = false;
  std::unique_ptr<BSpec> b; std::unique_ptr<TSpec> tpc; std::unique_ptr<CalSpec> cal[NCAL]; std::unique_ptr<ZSpec> z[3]; std::unique_ptr<FSpec> ftd; std::unique_ptr<TpSpec> tp; std::unique_ptr<SiSpec> si;
  map<string, PSpec> named; map<string, MatSpec> mats;
};
inline string show(const TSpec& t) {
  std::ostringstream o; o.precision(17); o << "TPC " << (t.polar ? "polar" : "cartesian") << (t.plain ? " plain" : "") << " drift=" << t.drift << " velocity=" << t.velocity << show(t.params) << "\n";
  for (size_t k = 0; k < t.mods.size(); ++k) o << "  " << show(t.mods[k]) << show(t.modPar[k]) << "\n"; return o.str();
}
inline string show(const GSpec& s) {
  std::ostringstream o; o.precision(17); if (s.hasName) o << "name '" << s.name << "'\n";
  if (s.b) o << "B " << s.b->v[0] << " " << s.b->v[1] << " " << s.b->v[2] << show(s.b->params) << "\n";
  if (s.tpc) o << show(*s.tpc);
  for (int k = 0; k < NCAL; ++k) if (s.cal[k]) o << CALNAME[k] << ": " << show(*s.cal[k]) << "\n";
  for (int k = 0; k < 3; ++k) if (s.z[k]) o << ZNAME[k] << ": " << show(*s.z[k]) << "\n";
  if (s.ftd) o << show(*s.ftd) << "\n"; if (s.tp) o << show(*s.tp) << "\n"; if (s.si) o << show(*s.si) << "\n";
  for (auto& e : s.named) o << "set '" << e.first << "':" << show(e.second) << "\n";
  for (auto& e : s.mats) { o << "material '" << e.first << "':"; for (double d : e.second.v) o << " " << d; o << "\n"; }
  return o.str();
}

// ---------- builders ----------
inline gear::CalorimeterParametersImpl* build(const CalSpec& c) {
  auto* p = c.barrel ? new gear::CalorimeterParametersImpl(c.a, c.b, c.sym, c.phi0) : new gear::CalorimeterParametersImpl(c.a, c.b, c.c, c.sym, c.phi0);
  for (size_t k = 0; k < c.layers.size(); ++k) { auto& l = c.layers[k]; if (k == 0) p->layerLayout().positionLayer(l.dist, l.thick, l.c0, l.c1, l.abs); else p->layerLayout().addLayer(l.thick, l.c0, l.c1, l.abs); }
  fill(*p, c.params); return p;
}
inline gear::TPCParametersImpl* build(const TSpec& t, Gen& g, bool mess = false) {
  auto* p = new gear::TPCParametersImpl(t.drift, t.polar ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN);
  p->setDriftVelocity(t.velocity);
  if (t.plain) { p->setPadLayout(pads::build(t.mods[0].lay, g, mess)); p->setReadoutFrequency(t.mods[0].freq); }
  else for (size_t k = 0; k < t.mods.size(); ++k) { auto* m = buildModule(t.mods[k], g, mess); fill(*m, t.modPar[k]); p->addModule(m); }
  fill(*p, t.params); return p;
}
inline gear::GearMgrImpl* build(const GSpec& s, Gen& g) {
  Quiet q; auto* m = new gear::GearMgrImpl(); if (s.hasName) m->setDetectorName(s.name);
  if (s.b) { auto* b = new gear::ConstantBField(gear::Vector3D(s.b->v[0], s.b->v[1], s.b->v[2])); fill(*b, s.b->params); m->setBField(b); }
  if (s.tpc) m->setTPCParameters(build(*s.tpc, g));
  for (int k = 0; k < NCAL; ++k) if (s.cal[k]) calSet(*m, k, build(*s.cal[k]));
  for (int k = 0; k < 3; ++k) if (s.z[k]) zSet(*m, k, model::build(*s.z[k]));
  if (s.ftd) m->setFTDParameters(model::build(*s.ftd)); if (s.tp) m->setTrackerPlanesParameters(model::build(*s.tp)); if (s.si) m->setSiPlanesParameters(model::build(*s.si));
  for (auto& e : s.named) { auto* p = new gear::GearParametersImpl(); fill(*p, e.second); m->setGearParameters(e.first, p); }
  for (auto& e : s.mats) { auto& v = e.second.v; m->registerSimpleMaterial(new gear::SimpleMaterialImpl(e.first, v[0], v[1], v[2], v[3], v[4])); }
  return m;
}

// ---------- comparisons ----------
inline void compare(Gen& g, const gear::CalorimeterParameters& p, const CalSpec& c, double tol, const string& where0) {
  string where = where0; CMPI(p.getLayoutType(), c.barrel ? gear::CalorimeterParameters::BARREL : gear::CalorimeterParameters::ENDCAP); CMPI(p.getSymmetryOrder(), c.sym); CMPD(p.getPhi0(), c.phi0);
  const auto& y = p.getLayerLayout(); CMPI(y.getNLayers(), (int)c.layers.size());
  double mag = 0, rel = tol < 0 ? 1e-15 : tol;
  for (int k = 0; k < (int)c.layers.size(); ++k) {
    auto& l = c.layers[k]; where = where0 + " layer " + std::to_string(k); mag = std::max(mag, std::fabs(l.dist)); 
    CMPD(y.getThickness(k), l.thick); CMPD(y.getAbsorberThickness(k), l.abs); CMPD(y.getCellSize0(k), l.c0); CMPD(y.getCellSize1(k), l.c1);
    REQUIRE(near(y.getDistance(k), l.dist, 0, rel * mag * 2), where, " distance ", y.getDistance(k), " expected ", l.dist);
    mag += std::fabs(l.thick);
  }
  where = where0; const auto& e = p.getExtent(); CMPI(e.size(), size_t(4)); double end = c.layers.empty() ? (c.barrel ? c.a : c.c) : c.layers.back().dist + c.layers.back().thick; mag = std::max(mag, std::fabs(end));
  CMPD(e[0], c.a);
  if (c.barrel) { REQUIRE(near(e[1], end, 0, rel * mag * 2), where, " outer radius ", e[1], " expected ", end); CMPD(e[2], 0.); CMPD(e[3], c.b); }
  else { CMPD(e[1], c.b); CMPD(e[2], c.c); REQUIRE(near(e[3], end, 0, rel * mag * 2), where, " outer z ", e[3], " expected ", end); }
  model::compare(g, p, c.params, tol, where);
}
// two real pad layouts agree (rel: relative precision of the numbers they were made from)
inline void compareLayouts(Gen& g, const gear::PadRowLayout2D& a, const gear::PadRowLayout2D& b, const LSpec& spec, double rel, const string& where) {
  LModel m = modelOf(spec); double sc = 1e-3; for (int k = 0; k < 4; ++k) sc = std::max(sc, std::fabs(m.ext[k])); double tol = rel * 20 * sc, ptol = m.polar ? 100 * rel : tol;
  CMPI(a.getPadLayoutImplType(), b.getPadLayoutImplType()); CMPI(a.getCoordinateType(), b.getCoordinateType()); CMPI(a.getPadShape(), b.getPadShape());
  CMPI(a.getNRows(), b.getNRows()); CMPI(a.getNPads(), b.getNPads());
  bool wrap = spec.kind == VERS && m.span > TWOPI - 1e-6;
  for (int k = 0; k < (wrap ? 2 : 4); ++k) REQUIRE(near(a.getPlaneExtent()[k], b.getPlaneExtent()[k], 0, k < 2 ? tol : ptol), where, " extent[", k, "] ", a.getPlaneExtent()[k], " expected ", b.getPlaneExtent()[k]);
  for (int r = 0; r < a.getNRows(); ++r) {
    const auto pa = a.getPadsInRow(r); const auto pb = b.getPadsInRow(r); REQUIRE(pa == pb, where, " pads of row ", r, ": ", pa.size(), " expected ", pb.size());
    REQUIRE(near(a.getRowHeight(r), b.getRowHeight(r), 0, tol), where, " row height ", r, " ", a.getRowHeight(r), " expected ", b.getRowHeight(r));
    for (size_t k : {size_t(0), pa.size() / 2, pa.size() - 1}) {
      int p = pa[k]; auto ca = a.getPadCenter(p), cb = b.getPadCenter(p);
      REQUIRE(near(ca[0], cb[0], 0, tol) && near(ca[1], cb[1], 0, ptol), where, " centre of pad ", p, " ", ca[0], ",", ca[1], " expected ", cb[0], ",", cb[1]);
      REQUIRE(near(a.getPadHeight(p), b.getPadHeight(p), 0, tol), where, " height of pad ", p, " ", a.getPadHeight(p), " expected ", b.getPadHeight(p));
      REQUIRE(near(a.getPadWidth(p), b.getPadWidth(p), 0, ptol), where, " width of pad ", p, " ", a.getPadWidth(p), " expected ", b.getPadWidth(p));
    }
  }
}
inline void compareModule(Gen& g, const gear::TPCModule& m, const MSpec& s, const PSpec& par, double rel, const string& where) {
  double tol = rel; CMPI(m.getModuleID(), s.id); CMPD(m.getReadoutFrequency(), s.freq); CMPD(m.getOffset()[0], s.o0); CMPD(m.getOffset()[1], s.o1); CMPD(m.getAngle(), s.angle); CMPD(m.getBorderWidth(), s.border);
  CMPI(m.getTPCCoordinateType(), s.gpolar ? (int)gear::PadRowLayout2D::POLAR : (int)gear::PadRowLayout2D::CARTESIAN);
  if (s.hasZ) CMPD(m.getZPosition(), s.z); else REQ_THROWS(gear::TPCModule::NoZPositionException, m.getZPosition(), where);
  { std::unique_ptr<gear::TPCModuleImpl> ref(buildModule(s, g, false)); double r = rel < 0 ? 1e-12 : rel; compareLayouts(g, m.getLocalPadLayout(), ref->getLocalPadLayout(), s.lay, r, where);
    if (!s.gpolar) { MModel mm(s); double t = 100 * r * mm.scale(); for (int k = 0; k < 4; ++k) { REQUIRE(near(m.getModuleExtent()[k], ref->getModuleExtent()[k], 0, t), where, " module extent[", k, "] ", m.getModuleExtent()[k], " expected ", ref->getModuleExtent()[k]); REQUIRE(near(m.getPlaneExtent()[k], ref->getPlaneExtent()[k], 0, t), where, " global plane extent[", k, "] ", m.getPlaneExtent()[k], " expected ", ref->getPlaneExtent()[k]); } } }
  model::compare(g, m, par, tol, where);
}
inline void compare(Gen& g, const gear::TPCParameters& p, const TSpec& t, double tol, const string& where) {
  CMPI(p.getCoordinateType(), t.polar ? (int)gear::PadRowLayout2D::POLAR : (int)gear::PadRowLayout2D::CARTESIAN); CMPD(p.getMaxDriftLength(), t.drift); CMPD(p.getDriftVelocity(), t.velocity);
  CMPI(p.getNModules(), (int)t.mods.size()); CMPI(p.getModules().size(), t.mods.size());
  for (size_t k = 0; k < t.mods.size(); ++k) { compareModule(g, *p.getModules()[k], t.mods[k], t.modPar[k], tol, where + " module " + std::to_string(k)); REQUIRE(&p.getModule(t.mods[k].id) == p.getModules()[k], where, " module by ID ", t.mods[k].id); }
  model::compare(g, p, t.params, tol, where);
}
#define UNSET(expr) REQ_THROWS(gear::UnknownParameterException, expr, "slot must be unset")
inline void compare(Gen& g, const GearMgr& m, const GSpec& s, double tol) {
  if (s.hasName) REQ_EQ(m.getDetectorName(), s.name); else UNSET(m.getDetectorName());
  string where = "BField";
  if (s.b) { auto f = m.getBField().at(gear::Vector3D(g.generic(-1e3, 1e3), g.generic(-1e3, 1e3), g.generic(-1e3, 1e3))); CMPD(f.x(), s.b->v[0]); CMPD(f.y(), s.b->v[1]); CMPD(f.z(), s.b->v[2]); model::compare(g, m.getBField(), s.b->params, tol, "BField"); } else UNSET(m.getBField());
  if (s.tpc) compare(g, m.getTPCParameters(), *s.tpc, tol, "TPC"); else UNSET(m.getTPCParameters());
  for (int k = 0; k < NCAL; ++k) if (s.cal[k]) compare(g, calGet(m, k), *s.cal[k], tol, CALNAME[k]); else REQ_THROWS(gear::UnknownParameterException, calGet(m, k), CALNAME[k], " must be unset");
  for (int k = 0; k < 3; ++k) if (s.z[k]) model::compare(g, zGet(m, k), *s.z[k], tol, ZNAME[k]); else REQ_THROWS(gear::UnknownParameterException, zGet(m, k), ZNAME[k], " must be unset");
  if (s.ftd) model::compare(g, m.getFTDParameters(), *s.ftd, tol, "FTD"); else UNSET(m.getFTDParameters());
  if (s.tp) model::compare(g, m.getTrackerPlanesParameters(), *s.tp, tol, "TrackerPlanes"); else UNSET(m.getTrackerPlanesParameters());
  if (s.si) model::compare(g, m.getSiPlanesParameters(), *s.si, tol, "SiPlanes"); else UNSET(m.getSiPlanesParameters());
  { vector<string> k = m.getGearParameterKeys(); REQUIRE(sorted(k) == keysOf(s.named), "names of parameter sets ", model::show(k), " expected ", model::show(keysOf(s.named))); for (auto& e : s.named) model::compare(g, m.getGearParameters(e.first), e.second, tol, "set '" + e.first + "'"); }
  { vector<string> k = m.getMaterialNames(); REQUIRE(sorted(k) == keysOf(s.mats), "materials ", model::show(k), " expected ", model::show(keysOf(s.mats)));
    for (auto& e : s.mats) { where = "material " + e.first; const auto& q = m.getSimpleMaterial(e.first); CMPI(q.getName(), e.first); auto& v = e.second.v; CMPD(q.getA(), v[0]); CMPD(q.getZ(), v[1]); CMPD(q.getDensity(), v[2]); CMPD(q.getRadLength(), v[3]); CMPD(q.getIntLength(), v[4]); } }
  UNSET(m.getPointProperties()); UNSET(m.getDistanceProperties());
}

// ---------- generators ----------
inline string markup() { return " \t<>&\"'#;=/!-?[]()%x" + alnum(); }
inline bool reads(const string& s) { return s.find("&#x") == string::npos; }
// any text (no character references)
inline string anyText(Gen& g, bool canBeEmpty = true) {
  string s;
  switch (g.draw(5)) {
    case 0: s = ident(g); break;
    case 1: s = g.str(alnum() + " ", 0, 20); break;
    case 2: s = g.str("<>&\"'", 0, 8); break;
    case 3: { int n = g.size(0, 12); for (int k = 0; k < n; ++k) s += (char)(g.chance(1, 8) ? g.integer(1, 31) : g.chance(1, 8) ? g.integer(127, 255) : g.integer(32, 126)); break; }
    default: s = g.str(markup(), 0, g.chance(1, 10) ? 300 : 25);
  }
  if (!reads(s) || (s.empty() && !canBeEmpty)) s = ident(g);
  return s;
}
inline string anyWord(Gen& g) { string s = anyText(g, false); s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s.empty() || !reads(s) ? ident(g) : s; }
inline int vecSize(Gen& g, int small) { return g.chance(1, 40) ? (int)g.integer(200, 600) : g.size(0, small); }   // sometimes longer than any buffer
inline PSpec genParams(Gen& g, int many = 6) {
  PSpec p; int n = g.chance(1, 3) ? 0 : g.size(0, many);
  for (int k = 0; k < n; ++k) {
    string key = g.chance(1, 3) ? g.str("ab", 1, 2) : g.boolean() ? ident(g) : anyText(g);
    switch (g.draw(6)) {
      case 0: p.i[key] = anyInt(g); break; case 1: p.d[key] = anyFinite(g); break; case 2: p.s[key] = anyText(g); break;
      case 3: { vector<int> v(vecSize(g, 12)); for (int& x : v) x = anyInt(g); p.iv[key] = v; break; }
      case 4: { vector<double> v(vecSize(g, 12)); for (double& x : v) x = anyFinite(g); p.dv[key] = v; break; }
      default: { vector<string> v(vecSize(g, 8)); for (string& x : v) x = anyWord(g); p.sv[key] = v; }
    }
  }
  return p;
}
inline CalSpec genCal(Gen& g, int slot) {
  CalSpec c; int f = calFixed(slot); c.barrel = f < 0 ? g.boolean() : f == 1; c.a = modD(g); c.b = modD(g); if (!c.barrel) c.c = modD(g); c.sym = g.boolean() ? (int)g.integer(1, 16) : anyInt(g); c.phi0 = modD(g);
  int n = g.many(0, 12, 300, 20); double d = c.barrel ? c.a : c.c; CalSpec::L l{}; bool have = false;
  for (int k = 0; k < n; ++k) {
    int how = have ? (int)g.draw(4) : 3;     // same as before, nearly the same, one value changed, new
    auto ch = [&](double& v) { switch (how) { case 1: { double e = g.pick<double>({2e-8, 1e-7, 1e-6, 1e-5, 1e-3}); v = v == 0 ? e : v * (1 + e); break; } case 2: v = modD(g); break; } };
    if (how == 3) { l.thick = modD(g); l.abs = g.chance(1, 3) ? 0. : modD(g); l.c0 = modD(g); l.c1 = modD(g); if (g.chance(1, 20)) l.thick = l.abs = l.c0 = l.c1 = 0; }
    else if (how) switch (g.draw(4)) { case 0: ch(l.thick); break; case 1: ch(l.abs); break; case 2: ch(l.c0); break; default: ch(l.c1); }
    have = true; l.dist = d; d += l.thick; c.layers.push_back(l);
  }
  c.params = genParams(g); if (calForward(slot) && g.boolean()) c.params.d["beam_crossing_angle"] = modD(g);
  return c;
}
// what the manager adds to forward calorimeters
inline void complete(GSpec& s) { for (int k = 9; k < NCAL; ++k) if (s.cal[k] && !s.cal[k]->params.d.count("beam_crossing_angle")) s.cal[k]->params.d["beam_crossing_angle"] = 0.; }
inline BSpec genB(Gen& g) { BSpec b; for (double& d : b.v) d = g.chance(1, 3) ? 0. : anyFinite(g); b.params = genParams(g); return b; }
inline MatSpec genMat(Gen& g) { MatSpec m; for (double& d : m.v) d = anyFinite(g); return m; }
inline TSpec genTPC(Gen& g) {
  TSpec t; t.polar = g.boolean(); t.drift = posD(g); t.velocity = g.chance(1, 4) ? 0. : modD(g); t.plain = g.chance(1, 4);
  int n = t.plain ? 1 : g.many(0, 6, 30, 25); std::set<int> ids;
  for (int k = 0; k < n; ++k) {
    MSpec m = genModule(g, t.polar, t.plain); if (g.chance(1, 6)) m.id = anyInt(g); if (t.plain) { m.id = 0; m.freq = modD(g); m.gpolar = m.lay.kind != RECT; t.polar = m.gpolar; }
    while (ids.count(m.id)) m.id = (m.id % 100000) + 1; ids.insert(m.id); t.mods.push_back(m); t.modPar.push_back(t.plain ? PSpec() : genParams(g, 4));
  }
  t.params = genParams(g); return t;
}
// layers of ladder trackers etc. with any numbers
inline double anyNum(Gen& g) { return anyFinite(g); }
} // namespace geom
