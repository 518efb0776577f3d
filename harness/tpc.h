// reference model of a TPC module: placement of a pad layout (pads.h) in global coordinates
#pragma once
#include "pads.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"

using namespace pads;
struct MSpec {
  LSpec lay; bool gpolar = false; int id = 0; double freq = 0, o0 = 0, o1 = 0, angle = 0, border = 0, z = 0; bool hasZ = false;
  bool flip() const { return hasZ && z <= 0; }
};
inline std::string show(const MSpec& s) {
  std::ostringstream o; o.precision(17);
  o << "module id=" << s.id << " tpc=" << (s.gpolar ? "polar" : "cartesian") << " offset=" << s.o0 << "," << s.o1 << " angle=" << s.angle << " border=" << s.border << " freq=" << s.freq << " z=";
  if (s.hasZ) o << s.z; else o << "unset"; o << " layout: " << show(s.lay); return o.str();
}
struct XY { double x, y; };
struct MModel {
  MSpec s; LModel lm; double ox, oy, c, sn; double ext[4];   // ext: local module extent
  explicit MModel(const MSpec& sp, const gear::TPCModule* real = nullptr) : s(sp), lm(modelOf(sp.lay)) {
    // how a full circle of versatile rows is written (0..2pi or from its smallest phi) is taken from the layout (decided by rounding; checked by P11)
    if (real && lm.kind == VERS && lm.span > TWOPI - 1e-9) for (int k = 2; k < 4; ++k) lm.ext[k] = real->getLocalPadLayout().getPlaneExtent()[k];
    ox = s.gpolar ? s.o0 * std::cos(s.o1) : s.o0; oy = s.gpolar ? s.o0 * std::sin(s.o1) : s.o1; c = std::cos(s.angle); sn = std::sin(s.angle);
    for (int k = 0; k < 4; ++k) ext[k] = lm.ext[k];
    if (s.border != 0) {
      if (!lm.polar) { ext[0] -= s.border; ext[1] += s.border; ext[2] -= s.border; ext[3] += s.border; }
      else {
        double span = ext[3] - ext[2], gap = std::max(0., (TWOPI - span) / 2), b = ext[0] > 0 ? std::min(s.border / ext[0], gap) : gap;
        ext[0] = std::max(0., ext[0] - s.border); ext[1] += s.border; ext[2] -= b; ext[3] += b;
      }
    }
  }
  XY localXY(double a, double b) const { return lm.polar ? XY{a * std::cos(b), a * std::sin(b)} : XY{a, b}; }
  XY toGlobal(XY l) const { XY g{l.x * c - l.y * sn + ox, l.x * sn + l.y * c + oy}; if (s.flip()) g.x = -g.x; return g; }
  XY toLocal(XY g) const { if (s.flip()) g.x = -g.x; double x = g.x - ox, y = g.y - oy; return XY{x * c + y * sn, y * c - x * sn}; }
  XY globalXY(double c0, double c1) const { return s.gpolar ? XY{c0 * std::cos(c1), c0 * std::sin(c1)} : XY{c0, c1}; }
  double scale() const { double q = 1e-3; for (int k = 0; k < 4; ++k) q = std::max(q, std::fabs(ext[k])); return q + std::hypot(ox, oy); }
  double moduleDist(XY l) const {
    if (!lm.polar) return boxDist(l.x, l.y, ext[0], ext[1], ext[2], ext[3]);
    return sectorDist(std::hypot(l.x, l.y), std::atan2(l.y, l.x), ext[0], ext[1], ext[2], ext[3]);
  }
  // signed clearance to the border of the module (positive inside)
  double clearance(XY l) const {
    if (!lm.polar) return std::min(std::min(l.x - ext[0], ext[1] - l.x), std::min(l.y - ext[2], ext[3] - l.y));
    double r = std::hypot(l.x, l.y), w = wrapFrom(std::atan2(l.y, l.x), ext[2]) - ext[2], span = ext[3] - ext[2];
    double dr = std::min(r - ext[0], ext[1] - r);
    if (span >= TWOPI - 1e-9) return dr;
    double da = w <= span ? std::min(w, span - w) : -std::min(w - span, TWOPI - w);
    return std::min(dr, da * r);
  }
};
inline MSpec genModule(Gen& g, bool gpolar, bool plain = false) {
  MSpec s; s.gpolar = gpolar;
  s.lay = genLayout(g, gpolar ? g.pick<Kind>({SIZE, ANGLE, VERS}) : g.pick<Kind>({RECT, SIZE, ANGLE, VERS}));
  if (plain) return s;
  double size = 0; { LModel m = modelOf(s.lay); for (int k = 0; k < 2; ++k) size = std::max(size, std::fabs(m.ext[k])); size = std::max(size, 1.); }
  switch (g.draw(4)) {
    case 0: break;
    case 1: s.o0 = g.real(-1, 1) * size; s.o1 = g.real(-1, 1) * size; break;
    default: { double f = g.pick<double>({0.1, 1., 3., 20.}); s.o0 = g.generic(-f, f) * size; s.o1 = g.generic(-f, f) * size; }
  }
  if (gpolar) { s.o0 = std::fabs(s.o0); s.o1 = g.draw(4) == 0 ? g.pick<double>({0., PI / 2, PI, -PI / 2, 3 * PI / 2}) : g.generic(-TWOPI, TWOPI); }
  switch (g.draw(4)) { case 0: break; case 1: s.angle = g.pick<double>({PI / 2, PI, -PI / 2, 3 * PI / 2, PI / 4, -PI}); break; default: s.angle = g.chance(1, 6) ? g.generic(-25, 25) : g.generic(-TWOPI, TWOPI); }
  if (g.chance(1, 2)) s.border = size * g.pick<double>({0.001, 0.01, 0.1, 1., 3.}) * (0.1 + g.frac());
  if (g.chance(2, 3)) { s.hasZ = true; s.z = g.pick<double>({0., 1., -1.}) * (g.boolean() ? 1. : g.generic(1, 3000)); }
  s.id = (int)g.integer(-5, 40); s.freq = g.chance(1, 8) ? 0. : g.boolean() ? 4e7 : g.generic(0, 1e9);
  return s;
}
// set the placement in any order, with some values overwritten
inline gear::TPCModuleImpl* buildModule(const MSpec& s, Gen& g, bool mess = true) {
  int ct = s.gpolar ? gear::PadRowLayout2D::POLAR : gear::PadRowLayout2D::CARTESIAN; gear::PadRowLayout2D* pl = build(s.lay, g, mess);
  gear::TPCModuleImpl* m = s.freq == 0 && g.boolean() ? new gear::TPCModuleImpl(s.id, pl, ct) : new gear::TPCModuleImpl(s.id, pl, ct, s.freq);
  std::vector<int> ops;
  auto want = [&](bool nz, int k) { if (nz) ops.push_back(k); else if (mess && g.chance(1, 4)) ops.push_back(k); };
  want(s.o0 != 0 || s.o1 != 0, 0); want(s.angle != 0, 1); want(s.border != 0, 2); if (s.hasZ) ops.push_back(3);
  std::string done;
  if (mess) for (size_t k = ops.size(); k > 1; --k) std::swap(ops[k - 1], ops[g.draw(k)]);
  if (mess && g.chance(1, 3)) {   // intermediate values that are overwritten below
    for (int k : ops) switch (k) {
      case 0: m->setOffset(s.gpolar ? 7. : -7., 3.); break; case 1: m->setAngle(0.7); break; case 2: m->setBorderWidth(0.5); break;
      default: m->setZPosition(g.boolean() ? -s.z - 1 : 5.); }
    done = "(overwritten) ";
  }
  for (int k : ops) { switch (k) { case 0: m->setOffset(s.o0, s.o1); done += "offset "; break; case 1: m->setAngle(s.angle); done += "angle "; break; case 2: m->setBorderWidth(s.border); done += "border "; break; default: m->setZPosition(s.z); done += "z "; } }
  g.note("order: ", done);
  return m;
}
