// reference models of the silicon trackers: ladder trackers (ZSpec), forward disks (FSpec), SiPlanes (SiSpec), TrackerPlanes (TpSpec)
#pragma once
#include "model.h"
#include "gear/ZPlanarLayerLayout.h"
#include "gear/FTDLayerLayout.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"

namespace model {
// one list of named numbers
struct Nums { vector<double> v; };
inline bool eqNum(double a, double b, double tol, double abs = 0) { return tol < 0 ? sameBits(a, b) : near(a, b, tol, abs); }
#define CMPD(got, want) do { ++g.evals; double a_ = (got), b_ = (want); if (!eqNum(a_, b_, tol)) fail(where, ": " #got " = ", a_, " expected ", b_); } while (0)
#define CMPI(got, want) do { ++g.evals; auto a_ = (got); auto b_ = (want); if (!(a_ == b_)) fail(where, ": " #got " = ", a_, " expected ", b_); } while (0)
inline string showv(const vector<double>& v) { return show(v); }

// ---------- ladder trackers ----------
struct ZSpec {
  int type = 1; double rIn = 0, rOut = 0, half = 0, gap = 0, radLen = 0;
  struct L { int n; double phi0; double l[6], s[6]; };   // distance, offset, thickness, length, width, radLength
  vector<L> layers; PSpec params;
};
inline string show(const ZSpec& z) {
  std::ostringstream o; o.precision(17);
  o << "ZPlanar type=" << z.type << " shell rin=" << z.rIn << " rout=" << z.rOut << " half=" << z.half << " gap=" << z.gap << " X=" << z.radLen << "\n";
  for (auto& l : z.layers) { o << "  layer n=" << l.n << " phi0=" << l.phi0 << " ladder(dist,off,thick,len,width,X)"; for (double d : l.l) o << " " << d; o << " sensitive"; for (double d : l.s) o << " " << d; o << "\n"; }
  o << show(z.params); return o.str();
}
inline gear::ZPlanarParametersImpl* build(const ZSpec& z) {
  auto* p = new gear::ZPlanarParametersImpl(z.type, z.rIn, z.rOut, z.half, z.gap, z.radLen);
  for (auto& l : z.layers) p->addLayer(l.n, l.phi0, l.l[0], l.l[1], l.l[2], l.l[3], l.l[4], l.l[5], l.s[0], l.s[1], l.s[2], l.s[3], l.s[4], l.s[5]);
  fill(*p, z.params); return p;
}
inline void compare(Gen& g, const gear::ZPlanarParameters& p, const ZSpec& z, double tol, const string& where0) {
  string where = where0;
  CMPI(p.getType(), z.type); CMPD(p.getShellInnerRadius(), z.rIn); CMPD(p.getShellOuterRadius(), z.rOut); CMPD(p.getShellHalfLength(), z.half); CMPD(p.getShellGap(), z.gap); CMPD(p.getShellRadLength(), z.radLen);
  const auto& y = p.getZPlanarLayerLayout(); CMPI(y.getNLayers(), (int)z.layers.size());
  for (int k = 0; k < (int)z.layers.size(); ++k) {
    auto& l = z.layers[k]; where = where0 + " layer " + std::to_string(k);
    CMPI(y.getNLadders(k), l.n);
    REQUIRE(near(y.getPhi0(k), l.phi0, tol < 0 ? 1e-15 : tol, 1e-15 * (4 + std::fabs(l.phi0))), where, " phi0 ", y.getPhi0(k), " expected ", l.phi0);
    CMPD(y.getLadderDistance(k), l.l[0]); CMPD(y.getLadderOffset(k), l.l[1]); CMPD(y.getLadderThickness(k), l.l[2]); CMPD(y.getLadderLength(k), l.l[3]); CMPD(y.getLadderWidth(k), l.l[4]); CMPD(y.getLadderRadLength(k), l.l[5]);
    CMPD(y.getSensitiveDistance(k), l.s[0]); CMPD(y.getSensitiveOffset(k), l.s[1]); CMPD(y.getSensitiveThickness(k), l.s[2]); CMPD(y.getSensitiveLength(k), l.s[3]); CMPD(y.getSensitiveWidth(k), l.s[4]); CMPD(y.getSensitiveRadLength(k), l.s[5]);
  }
  compare(g, p, z.params, tol, where0);
}
template <class D> ZSpec genZ(Gen& g, D num) {   // num(g): any number
  ZSpec z; z.type = (int)g.integer(1, 3); z.rIn = num(g); z.rOut = num(g); z.half = num(g); z.gap = num(g); z.radLen = num(g);
  int n = g.many(0, 12, 120);
  for (int k = 0; k < n; ++k) { ZSpec::L l; l.n = g.chance(1, 6) ? std::abs(anyInt(g) % 1000000) : (int)g.integer(1, 30); l.phi0 = g.chance(1, 4) ? g.pick<double>({0., 1.5707963267948966, -1.5, 0.00001}) : g.generic(1e-5, 7) * (g.boolean() ? 1 : -1); for (double& d : l.l) d = num(g); for (double& d : l.s) d = num(g); z.layers.push_back(l); }
  return z;
}

// ---------- forward disks ----------
struct FSpec {
  struct L { int nPetals, nSensors; bool dbl; int type; double half, phi0, alpha, z, zoff, zsign; double u[6], s[6]; };  // rInner, thickness, lengthMin, lengthMax, width, radLength
  vector<L> layers; PSpec params;
};
inline string show(const FSpec& f) {
  std::ostringstream o; o.precision(17); o << "FTD\n";
  for (auto& l : f.layers) { o << "  layer petals=" << l.nPetals << " sensors=" << l.nSensors << (l.dbl ? " double" : " single") << " type=" << l.type << " half=" << l.half << " phi0=" << l.phi0 << " alpha=" << l.alpha << " z=" << l.z << " zoff=" << l.zoff << " sign=" << l.zsign << " support(rin,thick,lmin,lmax,w,X)"; for (double d : l.u) o << " " << d; o << " sens"; for (double d : l.s) o << " " << d; o << "\n"; }
  o << show(f.params); return o.str();
}
inline void addTo(gear::FTDParametersImpl& p, const FSpec::L& l) {
  p.addLayer(l.nPetals, l.nSensors, l.dbl, l.type, l.half, l.phi0, l.alpha, l.z, l.zoff, l.zsign, l.u[0], l.u[1], l.u[2], l.u[3], l.u[4], l.u[5], l.s[0], l.s[1], l.s[2], l.s[3], l.s[4], l.s[5]);
}
inline gear::FTDParametersImpl* build(const FSpec& f) { auto* p = new gear::FTDParametersImpl(); for (auto& l : f.layers) addTo(*p, l); fill(*p, f.params); return p; }
// index: layer number asked for; l: layer expected there (values only, no z of petals)
inline void compareLayer(Gen& g, const gear::FTDLayerLayout& y, int k, const FSpec::L& l, double tol, const string& where) {
  CMPI(y.getNPetals(k), l.nPetals); CMPI(y.getNSensors(k), l.nSensors); CMPI(y.isDoubleSided(k), l.dbl); CMPI(y.getSensorType(k), l.type);
  CMPD(y.getPhiHalfDistance(k), l.half); CMPD(y.getPhi0(k), l.phi0); CMPD(y.getAlpha(k), l.alpha); CMPD(y.getZposition(k), l.z); CMPD(y.getZoffset(k), l.zoff); CMPD(y.getZoffsetSign0(k), l.zsign);
  CMPD(y.getSupportRinner(k), l.u[0]); CMPD(y.getSupportThickness(k), l.u[1]); CMPD(y.getSupportLengthMin(k), l.u[2]); CMPD(y.getSupportLengthMax(k), l.u[3]); CMPD(y.getSupportWidth(k), l.u[4]); CMPD(y.getSupportRadLength(k), l.u[5]);
  CMPD(y.getSensitiveRinner(k), l.s[0]); CMPD(y.getSensitiveThickness(k), l.s[1]); CMPD(y.getSensitiveLengthMin(k), l.s[2]); CMPD(y.getSensitiveLengthMax(k), l.s[3]); CMPD(y.getSensitiveWidth(k), l.s[4]); CMPD(y.getSensitiveRadLength(k), l.s[5]);
}
inline void compare(Gen& g, const gear::FTDParameters& p, const FSpec& f, double tol, const string& where) {
  const auto& y = p.getFTDLayerLayout(); CMPI(y.getNLayers(), (int)f.layers.size());
  for (int k = 0; k < (int)f.layers.size(); ++k) compareLayer(g, y, k, f.layers[k], tol, where + " layer " + std::to_string(k));
  compare(g, p, f.params, tol, where);
}
template <class D> FSpec::L genFLayer(Gen& g, D num) {
  FSpec::L l; l.nPetals = g.chance(1, 8) ? anyInt(g) : (int)g.integer(1, 32); l.nSensors = g.chance(1, 8) ? anyInt(g) : (int)g.integer(0, 9); l.dbl = g.boolean(); l.type = (int)g.integer(1, 2);
  l.half = num(g); l.phi0 = num(g); l.alpha = num(g); l.z = num(g); l.zoff = num(g); l.zsign = g.chance(1, 6) ? num(g) : g.boolean() ? 1. : -1.; for (double& d : l.u) d = num(g); for (double& d : l.s) d = num(g);
  return l;
}
template <class D> FSpec genF(Gen& g, D num) { FSpec f; int n = g.many(0, 14, 120); for (int k = 0; k < n; ++k) f.layers.push_back(genFLayer(g, num)); return f; }

// ---------- SiPlanes ----------
struct SiSpec {
  int id = 0, type = 2, number = 0;
  // plane: position xyz, rotation xy zx zy, size xy, thickness, radLength
  // sensitive: the same, then pitch xy, resolution, resolution xy, rotation1..4
  struct L { int id = 0; double l[10] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}; int sid = 0, npx = 0, npy = 0; double s[19] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}; };
  vector<L> layers; bool hasDut = false; L dut; PSpec params;
};
inline string show(const SiSpec::L& l) { std::ostringstream o; o.precision(17); o << "id=" << l.id << " plane(pos,rot,size,thick,X)"; for (double d : l.l) o << " " << d; o << " sensitive id=" << l.sid << " npix=" << l.npx << "," << l.npy << " (pos,rot,size,thick,X,pitch,res,resx,resy,r1..r4)"; for (double d : l.s) o << " " << d; return o.str(); }
inline string show(const SiSpec& s) {
  std::ostringstream o; o << "SiPlanes id=" << s.id << " type=" << s.type << " number=" << s.number << "\n"; for (auto& l : s.layers) o << "  layer " << show(l) << "\n"; if (s.hasDut) o << "  DUT " << show(s.dut) << "\n"; o << show(s.params); return o.str();
}
template <class T> void addNew(T& p, const SiSpec::L& a) {
  const double* l = a.l; const double* s = a.s;
  p.addLayer(a.id, l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], a.sid, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], a.npx, a.npy, s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[9]);
}
template <class T> void addOld(T& p, const SiSpec::L& a) {   // interface without rotations and x/y resolutions
  const double* l = a.l; const double* s = a.s;
  p.addLayer(a.id, l[0], l[1], l[2], l[6], l[7], l[8], l[9], a.sid, s[0], s[1], s[2], s[6], s[7], s[8], a.npx, a.npy, s[10], s[11], s[12], s[15], s[16], s[17], s[18], s[9]);
}
template <class T> void addDut(T& p, const SiSpec::L& a) {
  const double* l = a.l; const double* s = a.s;
  p.addDUT(a.id, l[0], l[1], l[2], l[6], l[7], l[8], l[9], a.sid, s[0], s[1], s[2], s[6], s[7], s[8], a.npx, a.npy, s[10], s[11], s[12], s[15], s[16], s[17], s[18], s[9]);
}
inline gear::SiPlanesParametersImpl* build(const SiSpec& s) {
  auto* p = new gear::SiPlanesParametersImpl(s.id, s.type, s.number); for (auto& l : s.layers) addNew(*p, l); if (s.hasDut) addDut(*p, s.dut); fill(*p, s.params); return p;
}
inline void compareLayer(Gen& g, const gear::SiPlanesLayerLayout& y, int k, const SiSpec::L& a, double tol, const string& where) {
  const double* l = a.l; const double* s = a.s;
  CMPI(y.getID(k), a.id); CMPD(y.getLayerPositionX(k), l[0]); CMPD(y.getLayerPositionY(k), l[1]); CMPD(y.getLayerPositionZ(k), l[2]); CMPD(y.getLayerRotationXY(k), l[3]); CMPD(y.getLayerRotationZX(k), l[4]); CMPD(y.getLayerRotationZY(k), l[5]);
  CMPD(y.getLayerSizeX(k), l[6]); CMPD(y.getLayerSizeY(k), l[7]); CMPD(y.getLayerThickness(k), l[8]); CMPD(y.getLayerRadLength(k), l[9]);
  CMPI(y.getSensitiveID(k), a.sid); CMPD(y.getSensitivePositionX(k), s[0]); CMPD(y.getSensitivePositionY(k), s[1]); CMPD(y.getSensitivePositionZ(k), s[2]); CMPD(y.getSensitiveRotationXY(k), s[3]); CMPD(y.getSensitiveRotationZX(k), s[4]); CMPD(y.getSensitiveRotationZY(k), s[5]);
  CMPD(y.getSensitiveSizeX(k), s[6]); CMPD(y.getSensitiveSizeY(k), s[7]); CMPD(y.getSensitiveThickness(k), s[8]); CMPD(y.getSensitiveRadLength(k), s[9]); CMPI(y.getSensitiveNpixelX(k), a.npx); CMPI(y.getSensitiveNpixelY(k), a.npy);
  CMPD(y.getSensitivePitchX(k), s[10]); CMPD(y.getSensitivePitchY(k), s[11]); CMPD(y.getSensitiveResolution(k), s[12]); CMPD(y.getSensitiveResolutionX(k), s[13]); CMPD(y.getSensitiveResolutionY(k), s[14]);
  CMPD(y.getSensitiveRotation1(k), s[15]); CMPD(y.getSensitiveRotation2(k), s[16]); CMPD(y.getSensitiveRotation3(k), s[17]); CMPD(y.getSensitiveRotation4(k), s[18]);
}
inline void compareDut(Gen& g, const gear::SiPlanesLayerLayout& y, const SiSpec::L& a, double tol, const string& where) {
  const double* l = a.l; const double* s = a.s;
  CMPI(y.getDUTID(), a.id); CMPD(y.getDUTPositionX(), l[0]); CMPD(y.getDUTPositionY(), l[1]); CMPD(y.getDUTPositionZ(), l[2]); CMPD(y.getDUTSizeX(), l[6]); CMPD(y.getDUTSizeY(), l[7]); CMPD(y.getDUTThickness(), l[8]); CMPD(y.getDUTRadLength(), l[9]);
  CMPI(y.getDUTSensitiveID(), a.sid); CMPD(y.getDUTSensitivePositionX(), s[0]); CMPD(y.getDUTSensitivePositionY(), s[1]); CMPD(y.getDUTSensitivePositionZ(), s[2]); CMPD(y.getDUTSensitiveSizeX(), s[6]); CMPD(y.getDUTSensitiveSizeY(), s[7]); CMPD(y.getDUTSensitiveThickness(), s[8]); CMPD(y.getDUTSensitiveRadLength(), s[9]);
  CMPI(y.getDUTSensitiveNpixelX(), a.npx); CMPI(y.getDUTSensitiveNpixelY(), a.npy); CMPD(y.getDUTSensitivePitchX(), s[10]); CMPD(y.getDUTSensitivePitchY(), s[11]); CMPD(y.getDUTSensitiveResolution(), s[12]);
  CMPD(y.getDUTSensitiveRotation1(), s[15]); CMPD(y.getDUTSensitiveRotation2(), s[16]); CMPD(y.getDUTSensitiveRotation3(), s[17]); CMPD(y.getDUTSensitiveRotation4(), s[18]);
}
inline void compare(Gen& g, const gear::SiPlanesParameters& p, const SiSpec& s, double tol, const string& where) {
  CMPI(p.getSiPlanesID(), s.id); CMPI(p.getSiPlanesType(), s.type); CMPI(p.getSiPlanesNumber(), s.number);
  const auto& y = p.getSiPlanesLayerLayout(); CMPI(y.getNLayers(), (int)s.layers.size());
  for (int k = 0; k < (int)s.layers.size(); ++k) compareLayer(g, y, k, s.layers[k], tol, where + " layer " + std::to_string(k));
  if (s.hasDut) compareDut(g, y, s.dut, tol, where + " DUT");
  compare(g, p, s.params, tol, where);
}
template <class D> SiSpec::L genSiLayer(Gen& g, D num) {
  SiSpec::L l; l.id = anyInt(g); l.sid = anyInt(g); l.npx = anyInt(g); l.npy = anyInt(g); for (double& d : l.l) d = num(g); for (double& d : l.s) d = num(g);
  for (int k = 12; k < 15; ++k) l.s[k] = std::fabs(l.s[k]);   // resolutions are not negative
  return l;
}
template <class D> SiSpec genSi(Gen& g, D num) {
  SiSpec s; s.id = anyInt(g); s.type = (int)g.integer(1, 2); s.number = g.boolean() ? anyInt(g) : 3; int n = g.many(0, 8, 120); for (int k = 0; k < n; ++k) s.layers.push_back(genSiLayer(g, num));
  if (s.type == 1) { s.hasDut = true; s.dut = genSiLayer(g, num); } return s;
}

// ---------- TrackerPlanes ----------
struct TpSpec {
  int id = 0, type = 0, number = 0;
  struct M { int id = 0; string info; double v[10] = {0}; };                       // position, rotation, size, thickness, radLength
  struct S : M { int npx = 0, npy = 0; double w[4] = {0}; };                       // pitch, resolution
  struct L { int id = 0; string info; vector<M> mat; vector<S> sens; };
  vector<L> layers; PSpec params;
};
inline string show(const TpSpec::M& m) { std::ostringstream o; o.precision(17); o << "id=" << m.id << " info='" << m.info << "'"; for (double d : m.v) o << " " << d; return o.str(); }
inline string show(const TpSpec::L& l) { std::ostringstream o; o.precision(17); o << "layer id=" << l.id << " info='" << l.info << "'"; for (auto& m : l.mat) o << "\n    material " << show(m); for (auto& s : l.sens) { o << "\n    sensitive " << show(s) << " npix=" << s.npx << "," << s.npy; for (double d : s.w) o << " " << d; } return o.str(); }
inline string show(const TpSpec& t) { std::ostringstream o; o << "TrackerPlanes id=" << t.id << " type=" << t.type << " number=" << t.number << "\n"; for (auto& l : t.layers) o << "  " << show(l) << "\n"; o << show(t.params); return o.str(); }
inline void addMat(gear::TrackerPlanesLayerImpl& y, const TpSpec::M& m) { const double* v = m.v; y.addMaterialLayer(m.id, m.info, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); }
inline void addSens(gear::TrackerPlanesLayerImpl& y, const TpSpec::S& m) { const double* v = m.v; y.addSensitiveLayer(m.id, m.info, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], m.npx, m.npy, m.w[0], m.w[1], m.w[2], m.w[3]); }
inline gear::TrackerPlanesLayerImpl buildLayer(const TpSpec::L& l) {
  gear::TrackerPlanesLayerImpl y; y.setID(l.id); y.setInfo(l.info); for (auto& m : l.mat) addMat(y, m); for (auto& s : l.sens) addSens(y, s); return y;
}
inline gear::TrackerPlanesParametersImpl* build(const TpSpec& t) {
  auto* p = new gear::TrackerPlanesParametersImpl(t.id, t.type, t.number);
  for (auto& l : t.layers) { gear::TrackerPlanesLayerImpl y = buildLayer(l); p->addLayer(&y); }
  fill(*p, t.params); return p;
}
template <class Y> void compareM(Gen& g, const Y& y, const TpSpec::M& m, double tol, const string& where) {
  const double* v = m.v;
  CMPI(y.getID(), m.id); CMPI(y.getInfo(), m.info); CMPD(y.getPositionX(), v[0]); CMPD(y.getPositionY(), v[1]); CMPD(y.getPositionZ(), v[2]); CMPD(y.getRotationXY(), v[3]); CMPD(y.getRotationZX(), v[4]); CMPD(y.getRotationZY(), v[5]);
  CMPD(y.getSizeX(), v[6]); CMPD(y.getSizeY(), v[7]); CMPD(y.getThickness(), v[8]); CMPD(y.getRadLength(), v[9]);
}
inline void compareLayer(Gen& g, const gear::TrackerPlanesLayerImpl& y0, const TpSpec::L& l, double tol, const string& where) {
  gear::TrackerPlanesLayerImpl& y = const_cast<gear::TrackerPlanesLayerImpl&>(y0);
  CMPI(y.getID(), l.id); CMPI(y.getInfo(), l.info); CMPI(y.getNMaterialLayers(), (int)l.mat.size()); CMPI(y.getNSensitiveLayers(), (int)l.sens.size());
  CMPI(y.getMaterialLayerVec().size(), l.mat.size()); CMPI(y.getSensitiveLayerVec().size(), l.sens.size());
  for (size_t k = 0; k < l.mat.size(); ++k) compareM(g, y.getMaterialLayerVec()[k], l.mat[k], tol, where + " material " + std::to_string(k));
  for (size_t k = 0; k < l.sens.size(); ++k) {
    auto& q = y.getSensitiveLayerVec()[k]; auto& s = l.sens[k]; compareM(g, q, s, tol, where + " sensitive " + std::to_string(k));
    CMPI(q.getNpixelX(), s.npx); CMPI(q.getNpixelY(), s.npy); CMPD(q.getPitchX(), s.w[0]); CMPD(q.getPitchY(), s.w[1]); CMPD(q.getResolutionX(), s.w[2]); CMPD(q.getResolutionY(), s.w[3]);
  }
}
inline void compare(Gen& g, const gear::TrackerPlanesParameters& p, const TpSpec& t, double tol, const string& where) {
  CMPI(p.getLayoutID(), t.id); CMPI(p.getLayoutType(), t.type); CMPI(p.getLayoutNumberOfLayers(), t.number);
  const auto& y = p.getTrackerPlanesLayerLayout(); CMPI(y.getNLayers(), (int)t.layers.size());
  for (size_t k = 0; k < t.layers.size(); ++k) { const gear::TrackerPlanesLayerImpl* l = y.getLayer(k); REQUIRE(l != 0, where, " layer ", k, " absent"); compareLayer(g, *l, t.layers[k], tol, where + " layer " + std::to_string(k)); }
  compare(g, p, t.params, tol, where);
}
template <class D, class T> TpSpec::L genTpLayer(Gen& g, D num, T text) {
  TpSpec::L l; l.id = g.boolean() ? (int)g.integer(0, 6) : anyInt(g); l.info = text(g); int nm = g.many(0, 4, 30, 60), ns = g.many(0, 4, 30, 60);
  for (int k = 0; k < nm; ++k) { TpSpec::M m; m.id = anyInt(g); m.info = text(g); for (double& d : m.v) d = num(g); l.mat.push_back(m); }
  for (int k = 0; k < ns; ++k) { TpSpec::S m; m.id = anyInt(g); m.info = text(g); for (double& d : m.v) d = num(g); for (double& d : m.w) d = num(g); m.npx = anyInt(g); m.npy = anyInt(g); l.sens.push_back(m); }
  return l;
}
template <class D, class T> TpSpec genTp(Gen& g, D num, T text) { TpSpec t; t.id = anyInt(g); t.number = g.boolean() ? anyInt(g) : 2; int n = g.many(0, 6, 80); for (int k = 0; k < n; ++k) t.layers.push_back(genTpLayer(g, num, text)); return t; }
} // namespace model
