// P02: the geometry manager holds what was last stored in each slot
#include "geom.h"
#include "gear/GearPointProperties.h"
#include "gear/GearDistanceProperties.h"
#include "gearsurf/MeasurementSurfaceStore.h"
using namespace geom;

namespace {
using gear::Vector3D;
struct PP : gear::GearPointProperties {
  std::string s;
  gear::long64 getCellID(const Vector3D&) const { return 0; } const std::string& getMaterialName(const Vector3D&) const { return s; }
  double getDensity(const Vector3D&) const { return 0; } double getTemperature(const Vector3D&) const { return 0; } double getPressure(const Vector3D&) const { return 0; } double getRadlen(const Vector3D&) const { return 0; } double getIntlen(const Vector3D&) const { return 0; }
  Vector3D getLocalPosition(const Vector3D& p) const { return p; } Vector3D getB(const Vector3D& p) const { return p; } Vector3D getE(const Vector3D& p) const { return p; }
  std::vector<std::string> getListOfLogicalVolumes(const Vector3D&) const { return {}; } std::vector<std::string> getListOfPhysicalVolumes(const Vector3D&) const { return {}; }
  std::string getRegion(const Vector3D&) const { return s; } bool isTracker(const Vector3D&) const { return false; } bool isCalorimeter(const Vector3D&) const { return false; }
};
struct DP : gear::GearDistanceProperties {
  std::vector<std::string> n; std::vector<double> t;
  const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return n; } const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return t; }
  double getNRadlen(const Vector3D&, const Vector3D&) const { return 0; } double getNIntlen(const Vector3D&, const Vector3D&) const { return 0; } double getBdL(const Vector3D&, const Vector3D&) const { return 0; } double getEdL(const Vector3D&, const Vector3D&) const { return 0; }
};
enum { TPC = NCAL, VXD, SIT, SET, FTD, TRK, SIP, BF, PTP, DSP, NSLOT };
const void* getSlot(const gear::GearMgr& m, int k) {
  if (k < NCAL) return &calGet(m, k);
  switch (k) { case TPC: return &m.getTPCParameters(); case VXD: return &m.getVXDParameters(); case SIT: return &m.getSITParameters(); case SET: return &m.getSETParameters(); case FTD: return &m.getFTDParameters();
    case TRK: return &m.getTrackerPlanesParameters(); case SIP: return &m.getSiPlanesParameters(); case BF: return &m.getBField(); case PTP: return &m.getPointProperties(); default: return &m.getDistanceProperties(); }
}
struct Slot { const void* ptr = 0; const gear::GearParameters* par = 0; PSpec spec; };
}

PROP(manager, 60000, 3000000) {
  Quiet q; std::unique_ptr<gear::GearMgrImpl> mgr(new gear::GearMgrImpl()); gear::GearMgr& m = *mgr;
  Slot slots[NSLOT]; map<string, Slot> named; map<string, std::pair<const gear::SimpleMaterial*, MatSpec>> mats; string name; const void* store = &m.getMeasurementSurfaceStore();
  std::vector<std::unique_ptr<gear::SimpleMaterialImpl>> refused;
  static const string AB = "ab"; auto key = [&]() { return g.boolean() ? g.str(AB, 0, 2) : anyText(g); };
  auto check = [&](bool all) {
    for (int k = 0; k < NSLOT; ++k) {
      if (!all && g.chance(2, 3)) continue;
      if (!slots[k].ptr) { REQ_THROWS(gear::UnknownParameterException, getSlot(m, k), "slot ", k, " was never set"); continue; }
      REQUIRE(getSlot(m, k) == slots[k].ptr, "slot ", k, " returns another object"); if (slots[k].par) model::compare(g, *slots[k].par, slots[k].spec, -1, "slot " + std::to_string(k));
    }
    if (name.empty()) REQ_THROWS(gear::UnknownParameterException, m.getDetectorName()); else REQ_EQ(m.getDetectorName(), name);
    REQUIRE(&m.getMeasurementSurfaceStore() == store);
    vector<string> kk = m.getGearParameterKeys(); REQUIRE(sorted(kk) == keysOf(named), "names ", model::show(kk), " expected ", model::show(keysOf(named)));
    for (auto& e : named) { REQUIRE(&m.getGearParameters(e.first) == e.second.ptr, "set '", e.first, "'"); model::compare(g, m.getGearParameters(e.first), e.second.spec, -1, "set " + e.first); }
    kk = m.getMaterialNames(); REQUIRE(sorted(kk) == keysOf(mats), "materials ", model::show(kk), " expected ", model::show(keysOf(mats)));
    for (auto& e : mats) { const auto& x = m.getSimpleMaterial(e.first); REQUIRE(&x == e.second.first, "material ", e.first); auto& v = e.second.second.v; REQUIRE(x.getName() == e.first && sameBits(x.getA(), v[0]) && sameBits(x.getZ(), v[1]) && sameBits(x.getDensity(), v[2]) && sameBits(x.getRadLength(), v[3]) && sameBits(x.getIntLength(), v[4]), "material ", e.first, " differs"); }
    for (int k = 0; k < 2; ++k) { string s = key(); if (!named.count(s)) REQ_THROWS(gear::UnknownParameterException, m.getGearParameters(s), "'", s, "'"); if (!mats.count(s)) REQ_THROWS(gear::UnknownParameterException, m.getSimpleMaterial(s), "'", s, "'"); }
  };
  if (g.chance(1, 4)) check(true);
  int n = g.many(1, 30, 200), replaced = 0, dup = 0, sets = 0;
  for (int i = 0; i < n; ++i) switch (g.draw(6)) {
    case 0: case 1: {
      int k = g.chance(1, 3) ? (int)g.integer(9, 11) : (int)g.draw(NSLOT); Slot& s = slots[k]; if (s.ptr) ++replaced; ++sets; g.note("set slot ", k); Slot t; t.spec = genParams(g, 4); 
      if (k < NCAL) {
        if (calForward(k) && g.boolean()) { if (g.boolean()) t.spec.d["beam_crossing_angle"] = anyFinite(g); else t.spec.i["beam_crossing_angle"] = 3; }
        auto* p = new gear::CalorimeterParametersImpl(1., 2., 8, 0.); fill(*p, t.spec); calSet(m, k, p); if (calForward(k) && !t.spec.d.count("beam_crossing_angle")) t.spec.d["beam_crossing_angle"] = 0.; t.ptr = (const gear::CalorimeterParameters*)p; t.par = p;
      } else if (k == TPC) { auto* p = new gear::TPCParametersImpl(10., gear::PadRowLayout2D::CARTESIAN); fill(*p, t.spec); m.setTPCParameters(p); t.ptr = (const gear::TPCParameters*)p; t.par = p; if (g.chance(1, 4)) { m.setTPCParameters(p); g.note("again"); } }
      else if (k >= VXD && k <= SET) { auto* p = new gear::ZPlanarParametersImpl(1, 1., 2., 3., 4., 5.); fill(*p, t.spec); zSet(m, k - VXD, p); t.ptr = (const gear::ZPlanarParameters*)p; t.par = p; }
      else if (k == FTD) { auto* p = new gear::FTDParametersImpl(); fill(*p, t.spec); m.setFTDParameters(p); t.ptr = (const gear::FTDParameters*)p; t.par = p; }
      else if (k == TRK) { auto* p = new gear::TrackerPlanesParametersImpl(1, 2, 3); fill(*p, t.spec); m.setTrackerPlanesParameters(p); t.ptr = (const gear::TrackerPlanesParameters*)p; t.par = p; }
      else if (k == SIP) { auto* p = new gear::SiPlanesParametersImpl(1, 2, 3); fill(*p, t.spec); m.setSiPlanesParameters(p); t.ptr = (const gear::SiPlanesParameters*)p; t.par = p; }
      else if (k == BF) { auto* p = new gear::ConstantBField(gear::Vector3D(1, 2, 3)); fill(*p, t.spec); m.setBField(p); t.ptr = (const gear::BField*)p; t.par = p; }
      else if (k == PTP) { auto* p = new PP; m.setPointProperties(p); t.ptr = (const gear::GearPointProperties*)p; t.spec = PSpec(); }
      else { auto* p = new DP; m.setDistanceProperties(p); t.ptr = (const gear::GearDistanceProperties*)p; t.spec = PSpec(); }
      s = t; break;
    }
    case 2: { string s = key(); PSpec p = genParams(g, 4); auto* x = new gear::GearParametersImpl(); fill(*x, p); g.note("named '", s, "'"); if (named.count(s)) ++replaced; m.setGearParameters(s, x); Slot t; t.ptr = (const gear::GearParameters*)x; t.spec = p; named[s] = t; if (g.chance(1, 5)) m.setGearParameters(s, x); if (g.chance(1, 5)) m.setGearParameters(g.boolean() ? s : key(), 0); ++sets; break; }
    case 3: {
      string s = key(); MatSpec v = genMat(g); g.note("material '", s, "'"); std::unique_ptr<gear::SimpleMaterialImpl> x(new gear::SimpleMaterialImpl(s, v.v[0], v.v[1], v.v[2], v.v[3], v.v[4]));
      if (mats.count(s)) { ++dup; REQ_THROWS(gear::Exception, m.registerSimpleMaterial(x.get()), "duplicate material ", s); refused.push_back(std::move(x)); if (g.boolean()) refused.clear(); } else { mats[s] = std::make_pair((const gear::SimpleMaterial*)x.get(), v); m.registerSimpleMaterial(x.release()); ++sets; }
      break;
    }
    case 4: name = anyText(g); m.setDetectorName(name); g.note("name '", name, "'"); ++sets; break;
    default: check(false);
  }
  check(true);
  if (g.boolean()) refused.clear();
  mgr.reset();   // everything is owned by the manager (double deletion would be reported)
  if (replaced) g.label("slot replaced"); if (dup) g.label("duplicate material"); g.nontrivial(sets >= 3 && (replaced || dup || !mats.empty()));
}
