// Pad layouts: specification, generator, builder of the real object and independent reference model
#pragma once
#include "model.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
namespace pads {
using namespace model;
const double PI = 3.14159265358979323846264338327950288, TWOPI = 2 * PI;

enum Kind { RECT = 1, SIZE = 2, ANGLE = 3, VERS = 4 };
struct Call {           // one addRow call (RECT, VERS), or repeatRows (RECT) if nPad == 0
  int repeat = 1, nPad = 1; double w = 0, h = 0, rowH = 0, left = 0, right = 0;   // RECT: pad width/height; VERS: w = pitch [mm], left = offset [mm], h/right = pad height / pad width
};
struct LSpec {
  Kind kind = RECT;
  double p0 = 0, p1 = 0, p2 = 0;       // RECT xMin xMax yMin; SIZE rMin rMax phiMax; ANGLE rMin rMax; VERS rMin
  double padH = 0, padW = 0, gap = 0; int nRow = 0;       // SIZE
  double phiMin = 0, phiMax = 0; int nPads = 1;          // ANGLE (nRow too)
  vector<Call> calls;
};
struct RowM { double lo, hi, c; int n; double a0, pitch, metalW, padH; bool full; };   // a0: x or phi of the left edge of the first pitch cell
struct LModel {
  Kind kind; bool polar; vector<RowM> rows; double ext[4]; double lo = 0, hi = 0, span = 0; int nPads = 0;
};
inline string show(const LSpec& s) {
  std::ostringstream o; o.precision(17);
  switch (s.kind) {
    case RECT: o << "Rectangular xMin=" << s.p0 << " xMax=" << s.p1 << " yMin=" << s.p2; break;
    case SIZE: o << "FixedPadSize rMin=" << s.p0 << " rMax=" << s.p1 << " padHeight=" << s.padH << " padWidth=" << s.padW << " nRow=" << s.nRow << " gap=" << s.gap << " phiMax=" << s.p2; break;
    case ANGLE: o << "FixedPadAngle rMin=" << s.p0 << " rMax=" << s.p1 << " nRow=" << s.nRow << " phiMin=" << s.phiMin << " phiMax=" << s.phiMax << " nPads=" << s.nPads; break;
    case VERS: o << "Versatile rMin=" << s.p0; break;
  }
  for (auto& c : s.calls) {
    if (c.nPad == 0) o << " repeatRows(" << c.repeat << ")";
    else if (s.kind == RECT) o << " addRow(nRow=" << c.repeat << ",nPad=" << c.nPad << ",w=" << c.w << ",h=" << c.h << ",rowH=" << c.rowH << ",left=" << c.left << ",right=" << c.right << ")";
    else o << " addRow(nPad=" << c.nPad << ",pitch=" << c.w << ",rowH=" << c.rowH << ",offset=" << c.left << ",padW=" << c.right << ",padH=" << c.h << ",repeat=" << c.repeat << ")";
  }
  return o.str();
}
inline LModel modelOf(const LSpec& s) {
  LModel m; m.kind = s.kind; m.polar = s.kind != RECT;
  if (s.kind == RECT) {
    double y = s.p2; bool repeated = false;
    auto add = [&](const RowM& r0) { RowM r = r0; double h = r0.hi - r0.lo; r.lo = y; r.hi = y + h; r.c = y + h / 2; y += h; m.rows.push_back(r); m.nPads += r.n; };
    for (auto& c : s.calls) {
      if (c.nPad == 0) { if (repeated) continue; repeated = true; auto rows = m.rows; for (int k = 1; k < c.repeat; ++k) for (auto& r : rows) add(r); continue; }
      double rh = c.rowH == 0 ? c.h : c.rowH, a = s.p0 + c.left, b = s.p1 - c.right;
      for (int k = 0; k < c.repeat; ++k) add(RowM{0, rh, 0, c.nPad, a, (b - a) / c.nPad, c.w, c.h, false});
    }
    m.ext[0] = s.p0; m.ext[1] = s.p1; m.ext[2] = s.p2; m.ext[3] = y;
  } else if (s.kind == SIZE) {
    int nr = (int)((s.p1 + 0.01 - s.p0) / s.padH), n = s.nRow > 0 ? std::min(s.nRow, nr) : nr; double rh = (s.p1 - s.p0) / n;
    for (int k = 0; k < n; ++k) {
      double rc = s.p0 + (k + .5) * rh; int np = (int)std::floor(rc * s.p2 / (s.padW + s.gap));
      m.rows.push_back(RowM{s.p0 + k * rh, s.p0 + (k + 1) * rh, rc, np, 0, s.p2 / np, s.padW / rc, s.padH, std::fabs(s.p2 - TWOPI) < 1e-6}); m.nPads += np;
    }
    m.ext[0] = s.p0; m.ext[1] = s.p1; m.ext[2] = 0; m.ext[3] = s.p2;
  } else if (s.kind == ANGLE) {
    double rh = (s.p1 - s.p0) / s.nRow, pa = (s.phiMax - s.phiMin) / s.nPads;
    for (int k = 0; k < s.nRow; ++k) m.rows.push_back(RowM{s.p0 + k * rh, s.p0 + (k + 1) * rh, s.p0 + (k + .5) * rh, s.nPads, s.phiMin, pa, pa, rh, std::fabs(s.phiMax - s.phiMin - TWOPI) < 1e-6});
    m.nPads = s.nRow * s.nPads; m.ext[0] = s.p0; m.ext[1] = s.p1; m.ext[2] = s.phiMin; m.ext[3] = s.phiMax;
  } else {
    double r = s.p0, lo = 0, hi = 0; bool first = true;
    for (auto& c : s.calls) for (int k = 0; k < c.repeat; ++k) {
      double rc = r + c.rowH / 2, off = c.left / rc; if (off < -TWOPI) off += TWOPI; if (off >= TWOPI) off -= TWOPI;
      double pitch = c.w / rc;
      m.rows.push_back(RowM{r, r + c.rowH, rc, c.nPad, off, pitch, (c.right == 0 ? c.w : c.right) / rc, c.h == 0 ? c.rowH : c.h, std::fabs(pitch * c.nPad - TWOPI) < 1e-6});
      m.nPads += c.nPad; r += c.rowH;
      lo = first ? off : std::min(lo, off); hi = first ? off + pitch * c.nPad : std::max(hi, off + pitch * c.nPad); first = false;
    }
    m.lo = lo; m.hi = hi; m.span = hi - lo;
    if (hi - lo > TWOPI) { lo = 0; hi = TWOPI; }
    m.ext[0] = s.p0; m.ext[1] = r; m.ext[2] = lo; m.ext[3] = hi;
  }
  return m;
}
// a plane that is almost, but not quite, a full circle
inline double nearlyFull(Gen& g) { return TWOPI - g.pick<double>({1e-4, 1e-3, 0.0031853, 0.01, 0.05}); }
inline Call genCall(Gen& g, LSpec& s, double& r) {
  Call c; c.nPad = g.size(1, g.chance(1, 8) ? 300 : 25); c.repeat = g.chance(1, 3) ? g.size(1, 5) : 1;
  if (s.kind == RECT) {
    double W = s.p1 - s.p0; if (g.chance(1, 3)) c.left = W * 0.4 * g.frac(); if (g.chance(1, 3)) c.right = W * 0.4 * g.frac();
    double pw = (W - c.left - c.right) / c.nPad;
    switch (g.draw(4)) { case 0: c.w = (W - c.left - c.right) / c.nPad; while (c.nPad * c.w > s.p1 - c.right - (s.p0 + c.left)) c.w = std::nextafter(c.w, 0); break; case 1: c.w = pw * 0.5; break; default: c.w = pw * (0.05 + 0.94 * g.frac()); }
    c.h = posD(g, 0.1, 40);
    if (g.chance(1, 2)) c.rowH = c.h * (1 + g.pick<double>({0., 0.1, 1., 5.}) * g.frac());
  } else {
    c.rowH = posD(g, 0.1, 40); double rc = r + c.rowH / 2;
    double span = g.draw(5) == 0 ? TWOPI : g.chance(1, 10) ? nearlyFull(g) : g.draw(3) == 0 ? TWOPI * (0.5 + 0.49 * g.frac()) : PI * (0.02 + 0.98 * g.frac());
    if (g.draw(6) == 0) { c.nPad = 1; }
    c.w = span * rc / c.nPad; while (c.nPad * (c.w / rc) > TWOPI) c.w = std::nextafter(c.w, 0);
    double off = g.draw(3) == 0 ? 0 : g.draw(8) == 0 ? g.generic(-3.9 * PI, 3.9 * PI) : g.generic(-PI, PI);
    c.left = off * rc; if (g.boolean()) c.right = c.w * (0.05 + 0.95 * g.frac()); if (g.boolean()) c.h = c.rowH * (0.05 + 0.95 * g.frac());
    for (int k = 0; k < c.repeat; ++k) r += c.rowH;
  }
  return c;
}
inline LSpec genLayout(Gen& g, Kind kind, bool forXML = false) {
  LSpec s; s.kind = kind;
  if (kind == RECT) {
    s.p0 = g.real(-300, 300); s.p1 = s.p0 + posD(g, 1, 500); s.p2 = g.real(-300, 300); double r = 0;
    int n = g.many(1, 7, 60), rep = g.chance(1, 3) ? g.size(1, 4) : 0, at = rep ? g.size(1, n) : -1;
    for (int k = 0; k < n; ++k) { s.calls.push_back(genCall(g, s, r)); if (k + 1 == at) { Call c; c.nPad = 0; c.repeat = rep; s.calls.push_back(c); } }
    if (rep >= 2 && g.chance(1, 3)) {      // rows after the repetition that look like a further one, but for one quantity
      Call c = s.calls[0], q; q.nPad = 0; q.repeat = rep; c.w *= 0.5; if (c.rowH == 0) c.rowH = c.h; Call d = c; d.repeat = rep * (int)g.integer(1, 2); double W = s.p1 - s.p0 - c.left - c.right;
      switch (g.draw(7)) { case 0: d.nPad = c.nPad + 1; c.w *= 0.5; d.w = c.w; break; case 1: d.w *= 0.5; break; case 2: d.h *= 0.5; break; case 3: d.rowH *= 1.25; break; case 4: d.left += 0.25 * W; break; case 5: d.right += 0.25 * W; break; default:; }
      s.calls = {c, q, d}; g.label("like a repetition");
    }
    if (rep && g.chance(1, 10)) { Call c; c.nPad = 0; c.repeat = 2; s.calls.push_back(c); }
  } else if (kind == SIZE) {
    s.p0 = posD(g, 1, 1500); s.padH = posD(g, 0.3, 30); int nr = g.many(1, 25, 120, 40);
    s.p1 = s.p0 + s.padH * (nr + 0.05 + 0.9 * g.frac()); s.nRow = g.chance(1, 2) ? 0 : g.size(1, nr + 2);
    if (g.chance(1, 3)) s.p1 = s.p0 + s.padH * nr;        // rows fill the plane exactly
    s.p2 = g.boolean() ? TWOPI : g.chance(1, 8) ? nearlyFull(g) : g.chance(1, 4) ? g.pick<double>({PI / 2, PI, 0.5, 6.2}) : 0.02 + 6.2 * g.frac();
    double rc0 = s.p0 + s.padH / 2; s.padW = rc0 * s.p2 * (g.boolean() ? 0.01 + 0.3 * g.frac() : 0.05 + 0.9 * g.frac()); s.gap = g.chance(1, 3) ? s.padW * g.frac() * 0.5 : 0;
    if (rc0 * s.p2 < s.padW + s.gap) s.gap = 0;
    double q = (s.p1 + 0.01 - s.p0) / s.padH; if (std::fabs(q - std::round(q)) < 1e-5) g.discard();
    LModel m = modelOf(s); for (auto& r : m.rows) { double u = r.c * s.p2 / (s.padW + s.gap); if (std::fabs(u - std::round(u)) < 1e-5 || r.n < 1) g.discard(); }
  } else if (kind == ANGLE) {
    s.p0 = g.chance(1, 8) ? 0. : posD(g, 0.5, 1500); s.p1 = s.p0 + posD(g, 1, 800); s.nRow = g.many(1, 25, 300, 40); s.nPads = g.size(1, g.chance(1, 8) ? 400 : 30);
    s.phiMin = g.chance(1, 3) ? 0. : g.real(-TWOPI, TWOPI); double span = g.chance(1, 3) ? TWOPI : g.chance(1, 8) ? nearlyFull(g) : g.chance(1, 4) ? g.pick<double>({PI / 2, PI, 0.5, 6.2}) : 0.02 + 6.2 * g.frac(); s.phiMax = s.phiMin + span;
  } else {
    s.p0 = g.chance(1, 8) ? 0. : posD(g, 0.5, 1500); double r = s.p0; int n = g.many(1, 7, 60, 40);
    for (int k = 0; k < n; ++k) s.calls.push_back(genCall(g, s, r));
  }
  (void)forXML;
  return s;
}
inline void apply(gear::PadRowLayout2D* l, const LSpec& s, const Call& c, Gen& g) {
  if (s.kind == RECT) {
    auto* r = static_cast<gear::RectangularPadRowLayout*>(l);
    if (c.nPad == 0) r->repeatRows(c.repeat);
    else if (c.right == 0 && c.left == 0 && c.rowH == 0 && g.boolean()) r->addRow(c.repeat, c.nPad, c.w, c.h);
    else r->addRow(c.repeat, c.nPad, c.w, c.h, c.rowH, c.left, c.right);
  } else {
    auto* v = static_cast<gear::VersatileDiskRowLayout*>(l);
    if (c.repeat == 1 && c.h == 0 && c.right == 0 && g.boolean()) { if (c.left == 0) v->addRow(c.nPad, c.w, c.rowH); else v->addRow(c.nPad, c.w, c.rowH, c.left); }
    else if (c.repeat == 1 && g.boolean()) v->addRow(c.nPad, c.w, c.rowH, c.left, c.right, c.h);
    else v->addRow(c.nPad, c.w, c.rowH, c.left, c.right, c.h, c.repeat);
  }
}
inline gear::PadRowLayout2D* create(const LSpec& s, bool defaults = false) {
  if (defaults && s.kind == RECT && s.p2 == 0) return new gear::RectangularPadRowLayout(s.p0, s.p1);
  if (defaults && s.kind == SIZE && s.p2 == TWOPI) return s.gap != 0 ? new gear::FixedPadSizeDiskLayout(s.p0, s.p1, s.padH, s.padW, s.nRow, s.gap) : s.nRow ? new gear::FixedPadSizeDiskLayout(s.p0, s.p1, s.padH, s.padW, s.nRow) : new gear::FixedPadSizeDiskLayout(s.p0, s.p1, s.padH, s.padW);
  switch (s.kind) {
    case RECT: return new gear::RectangularPadRowLayout(s.p0, s.p1, s.p2);
    case SIZE: return new gear::FixedPadSizeDiskLayout(s.p0, s.p1, s.padH, s.padW, s.nRow, s.gap, s.p2);
    case ANGLE: return new gear::FixedPadAngleDiskLayout(s.p0, s.p1, s.nRow, s.phiMin, s.phiMax, s.nPads);
    default: return new gear::VersatileDiskRowLayout(s.p0);
  }
}
struct Quiet { Quiet() : old(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(old); } std::streambuf* old; };
// build with optional interleaved queries and copies
inline gear::PadRowLayout2D* build(const LSpec& s, Gen& g, bool mess = true) {
  Quiet q;
  gear::PadRowLayout2D* l = create(s, mess && g.boolean());
  for (size_t k = 0; k < s.calls.size(); ++k) {
    if (mess && g.chance(1, 6)) for (int r = 0; r < l->getNRows(); ++r) (void)l->getPadsInRow(r);
    if (mess && g.chance(1, 12)) { gear::PadRowLayout2D* c = l->clone(); delete l; l = c; }
    apply(l, s, s.calls[k], g);
  }
  if (mess && g.chance(1, 6)) { gear::PadRowLayout2D* c = l->clone(); delete l; l = c; }
  return l;
}
inline double wrapTo(double phi, double mid) { return phi - TWOPI * std::floor((phi - mid + PI) / TWOPI); }   // [mid-pi, mid+pi)
inline double wrapFrom(double phi, double lo) { return phi - TWOPI * std::floor((phi - lo) / TWOPI); }       // [lo, lo+2pi)

// pitch cell of pad k of row r: distance from the point to it (Euclidean), computed in cartesian coordinates
inline double segDist(double x, double y, double ax, double ay, double bx, double by) {
  double dx = bx - ax, dy = by - ay, t = ((x - ax) * dx + (y - ay) * dy) / (dx * dx + dy * dy); t = std::max(0., std::min(1., t));
  return std::hypot(x - ax - t * dx, y - ay - t * dy);
}
inline double sectorDist(double r, double phi, double r0, double r1, double f0, double f1) {
  double w = wrapFrom(phi, f0);
  if (w <= f1 || f1 - f0 >= TWOPI) return r < r0 ? r0 - r : r > r1 ? r - r1 : 0.;
  double x = r * std::cos(phi), y = r * std::sin(phi), d = 1e300;
  for (double f : {f0, f1}) d = std::min(d, segDist(x, y, r0 * std::cos(f), r0 * std::sin(f), r1 * std::cos(f), r1 * std::sin(f)));
  return d;
}
inline double boxDist(double x, double y, double x0, double x1, double y0, double y1) {
  double dx = x < x0 ? x0 - x : x > x1 ? x - x1 : 0, dy = y < y0 ? y0 - y : y > y1 ? y - y1 : 0; return std::hypot(dx, dy);
}
inline double cellDist(const LModel& m, int row, int pad, double a, double b) {
  const RowM& R = m.rows[row];
  if (m.polar) return sectorDist(a, b, R.lo, R.hi, R.a0 + pad * R.pitch, R.a0 + (pad + 1) * R.pitch);
  return boxDist(a, b, R.a0 + pad * R.pitch, R.a0 + (pad + 1) * R.pitch, R.lo, R.hi);
}
// area used by isInsidePad: metal for SIZE and RECT, pitch cell for ANGLE and VERS; returns +1 inside, -1 outside, 0 too close to the border (eps)
inline int insidePad(const LModel& m, int row, int pad, double a, double b, double eps) {
  const RowM& R = m.rows[row]; double wa, hb, c = R.a0 + (pad + .5) * R.pitch;
  bool metal = m.kind == SIZE || m.kind == RECT;
  wa = (metal ? R.metalW : R.pitch) / 2; hb = (metal ? R.padH : R.hi - R.lo) / 2;
  double along = m.polar ? b : a, across = m.polar ? a : b;
  double da = std::fabs((m.polar ? wrapTo(along, c) : along) - c), db = std::fabs(across - R.c);
  double ea = m.polar ? eps / std::max(R.c, 1e-3) + 1e-9 : eps;
  if (m.kind == SIZE && (across < m.ext[0] || across > m.ext[1])) { return (across < m.ext[0] - eps || across > m.ext[1] + eps) ? -1 : 0; }
  bool outA = da > wa + ea, outB = db > hb + eps;
  if (outA || outB) return -1;
  if (da < wa - ea && db < hb - eps) return 1;
  return 0;
}
} // namespace pads
