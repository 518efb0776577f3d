// P17: ladder trackers: containment and sensor IDs. P18: nearest ladder and line intersections. P29: angles, radius and path length.
// Oracle: every ladder is an explicit box (own frame: normal n at phi0 + k*2pi/N, u along increasing phi, z), both z sides.
#include "trackers.h"
#include "gear/GEAR.h"
using namespace model;
namespace {
struct Box { int layer, ladder, side; double nx, ny; double lo[3], hi[3]; double thick;   // local coordinates (w along n, u along increasing phi, z)
  void local(const double* p, double* q) const { q[0] = p[0] * nx + p[1] * ny; q[1] = -p[0] * ny + p[1] * nx; q[2] = p[2]; }
  void dir(const double* q, double* p) const { p[0] = q[0] * nx - q[1] * ny; p[1] = q[0] * ny + q[1] * nx; p[2] = q[2]; }
  // >0: depth inside, <0: minus the distance
  double depth(const double* p) const {
    double q[3]; local(p, q); double in = 1e300, out2 = 0;
    for (int k = 0; k < 3; ++k) { double a = q[k] - lo[k], b = hi[k] - q[k]; in = std::min(in, std::min(a, b)); double o = std::max(0., std::max(-a, -b)); out2 += o * o; }
    return in >= 0 ? in : -std::sqrt(out2);
  }
  // entry parameter t>=0 of p+t*v, from outside; slack<0 shrinks, >0 enlarges the box
  bool hit(const double* p, const double* v, double slack, double& t) const {
    double q[3], w[3]; local(p, q); double vv[3] = {v[0], v[1], v[2]}; local(vv, w); double t0 = 0, t1 = 1e300;
    for (int k = 0; k < 3; ++k) {
      double a = lo[k] - slack - q[k], b = hi[k] + slack - q[k]; if (a > b) return false;
      if (w[k] == 0) { if (a > 0 || b < 0) return false; continue; }
      double x = a / w[k], y = b / w[k]; if (x > y) std::swap(x, y); t0 = std::max(t0, x); t1 = std::min(t1, y);
    }
    t = t0; return t0 <= t1;
  }
};
vector<Box> boxes(const ZSpec& z, bool sens) {
  vector<Box> r;
  for (int k = 0; k < (int)z.layers.size(); ++k) {
    auto& l = z.layers[k]; const double* a = sens ? l.s : l.l;
    for (int i = 0; i < l.n; ++i) for (int side : {1, -1}) {
      Box b; b.layer = k; b.ladder = i; b.side = side; double phi = l.phi0 + i * (2 * M_PI / l.n); b.nx = std::cos(phi); b.ny = std::sin(phi); b.thick = a[2];
      b.lo[0] = a[0]; b.hi[0] = a[0] + a[2]; b.lo[1] = a[1] - a[4] / 2; b.hi[1] = a[1] + a[4] / 2;
      double z0 = z.gap / 2, z1 = z.gap / 2 + a[3]; b.lo[2] = side > 0 ? z0 : -z1; b.hi[2] = side > 0 ? z1 : -z0; r.push_back(b);
    }
  }
  return r;
}
ZSpec genLadders(Gen& g) {
  ZSpec z; z.type = 1; z.gap = g.chance(1, 3) ? 0 : g.real(0.1, 20); int n = g.many(1, 6, 30); double maxLen = 0;
  double r = g.real(2, 60);
  for (int k = 0; k < n; ++k) {
    ZSpec::L l; l.n = g.chance(1, 40) ? (int)g.integer(25, 300) : g.chance(1, 4) ? (int)g.integer(0, 4) : (int)g.integer(1, 24);
    l.phi0 = g.chance(1, 3) ? g.integer(-8, 8) * M_PI / 4 : g.generic(-10, 10);
    for (double* a : {l.l, l.s}) {
      a[0] = r + (a == l.s ? g.real(-1, 3) : 0); a[2] = g.chance(1, 3) ? g.real(0.05, 0.5) : g.real(0.5, 8); a[3] = g.real(5, 300); 
      double w = l.n >= 3 && !g.chance(1, 4) ? 2 * a[0] * std::tan(M_PI / l.n) * g.generic(0.5, 1.1) : g.real(1, 120);
      a[4] = std::min(std::max(w, 0.5), 400.); a[1] = g.chance(1, 3) ? 0 : g.chance(1, 5) ? g.real(-1.5, 1.5) * a[4] : g.real(-0.4, 0.4) * a[4];
      a[5] = g.real(0, 100); maxLen = std::max(maxLen, a[3]);
    }
    z.layers.push_back(l); r += g.chance(1, 6) ? g.real(0, 3) : g.real(8, 60);
  }
  if (z.layers.size() > 1 && g.chance(1, 4)) { for (size_t k = z.layers.size(); k > 1; --k) std::swap(z.layers[k - 1], z.layers[g.draw(k)]); g.label("unordered"); }
  if (g.chance(1, 12)) { for (auto& l : z.layers) { l.l[0] *= 30; l.s[0] *= 30; } g.label("big"); }
  if (g.chance(2, 3)) { z.half = maxLen * (g.boolean() ? 1 : g.generic(1, 2)); z.rIn = g.real(1, 10); z.rOut = r + 50; z.radLen = g.real(0, 10); }
  else { z.half = 0; }
  return z;
}
double extent(const vector<Box>& bs) { double e = 10; for (auto& b : bs) for (int k = 0; k < 3; ++k) e = std::max(e, std::max(std::fabs(b.lo[k]), std::fabs(b.hi[k]))); return e; }
// a point in, near or far from the boxes
void genPoint(Gen& g, const vector<Box>& bs, double ext, double* p) {
  if (!bs.empty() && !g.chance(1, 5)) {
    const Box& b = bs[g.draw(bs.size())]; double q[3]; int mode = (int)g.draw(4);
    for (int k = 0; k < 3; ++k) { double s = b.hi[k] - b.lo[k];
      if (mode == 0) q[k] = b.lo[k] + s * g.frac();
      else if (mode == 1) q[k] = b.lo[k] + s * g.generic(-0.3, 1.3);
      else if (mode == 2) { double e = g.pick<double>({1e-3, 3e-3, 0.02, 0.2}) * (g.boolean() ? 1 : -1); q[k] = g.chance(1, 2) ? b.lo[k] + s * g.generic(0.1, 0.9) : g.boolean() ? b.lo[k] + e : b.hi[k] + e; }
      else q[k] = g.chance(1, 2) ? b.lo[k] + s * g.frac() : g.generic(-1.2, 1.2) * ext; }
    b.dir(q, p);
  } else switch (g.draw(4)) {
    case 0: for (int k = 0; k < 3; ++k) p[k] = g.generic(-1.3, 1.3) * ext; break;
    case 1: for (int k = 0; k < 3; ++k) p[k] = g.chance(1, 2) ? 0 : g.real(-1.3, 1.3) * ext; break;
    case 2: for (int k = 0; k < 3; ++k) p[k] = g.generic(-3, 3); break;
    default: { double s = std::pow(10., (double)g.integer(0, 3)); for (int k = 0; k < 3; ++k) p[k] = g.generic(-1, 1) * ext * s; }
  }
}
bool same(const gear::Vector3D& v, double x, double y, double z) { return v[0] == x && v[1] == y && v[2] == z; }
}

PROP(ladder_points, 60000, 4000000) {
  ZSpec z = genLadders(g); g.note(show(z)); std::unique_ptr<gear::ZPlanarParametersImpl> p(build(z)); const gear::ZPlanarParameters& zp = *p;
  int in = 0, out = 0, skipped = 0, shared = 0;
  for (int sens = 0; sens < 2; ++sens) {
    vector<Box> bs = boxes(z, sens); double ext = extent(bs);
    for (int q = 0; q < 15; ++q) {
      double x[3]; genPoint(g, bs, ext, x); gear::Vector3D P(x[0], x[1], x[2]);
      bool inside = false, close = false; int cnt = 0;
      for (auto& b : bs) { double m = 2.5e-4 * (1 + b.thick), d = b.depth(x); if (d > m) { inside = true; ++cnt; } else if (d > -m) close = true; }
      if (!inside && close) { ++skipped; continue; }
      gear::SensorID id; id.layer = id.module = id.sensor = id.side = -77;
      bool got = sens ? zp.isPointInSensitive(P, &id) : zp.isPointInLadder(P);
      REQUIRE(got == inside, sens ? "sensitive" : "ladder", " point ", x[0], " ", x[1], " ", x[2], " inside=", inside);
      if (sens) REQUIRE(zp.isPointInSensitive(P) == inside, "without sensor ID");
      if (inside) ++in; else ++out; if (cnt > 1) ++shared;
      if (sens && inside) {
        bool ok = false; for (auto& b : bs) if (b.layer == id.layer && b.ladder == id.module && b.side == id.side && b.depth(x) > -2.5e-4 * (1 + b.thick)) ok = true;
        REQUIRE(ok && id.sensor == 0, "point ", x[0], " ", x[1], " ", x[2], " sensor ID layer ", id.layer, " module ", id.module, " sensor ", id.sensor, " side ", id.side, " does not contain the point");
      }
    }
  }
  g.nontrivial(in && out); if (shared) g.label("overlap"); if (skipped) g.label("border"); if (z.layers.size() > 1) g.label("several layers");
}

PROP(ladder_distance, 40000, 2500000) {
  ZSpec z = genLadders(g); g.note(show(z)); std::unique_ptr<gear::ZPlanarParametersImpl> p(build(z)); const gear::ZPlanarParameters& zp = *p; int n = 0;
  for (int sens = 0; sens < 2; ++sens) {
    vector<Box> bs = boxes(z, sens); double ext = extent(bs);
    for (int q = 0; q < 8; ++q) {
      double x[3]; genPoint(g, bs, ext, x); gear::Vector3D P(x[0], x[1], x[2]);
      gear::Vector3D d = sens ? zp.distanceToNearestSensitive(P) : zp.distanceToNearestLadder(P);
      if (bs.empty()) { REQUIRE(same(d, 0, 0, 0), "no ladders: zero vector"); continue; }
      double best = -1e300; for (auto& b : bs) best = std::max(best, b.depth(x));
      double m = 0; for (auto& b : bs) m = std::max(m, 2.5e-4 * (1 + b.thick));
      double size = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) + ext, tol = 1e-9 * size;
      if (best > m) { REQUIRE(same(d, 0, 0, 0), "point inside ", x[0], " ", x[1], " ", x[2], " vector ", d[0], " ", d[1], " ", d[2]); continue; }
      double len = d.r();
      if (best > -m && len <= m) continue;     // on the border: zero is allowed
      ++n;
      double y[3] = {x[0] + d[0], x[1] + d[1], x[2] + d[2]}, at = -1e300; for (auto& b : bs) at = std::max(at, b.depth(y));
      REQUIRE(std::fabs(at) <= tol, sens ? "sensitive" : "ladder", " point ", x[0], " ", x[1], " ", x[2], " vector ", d[0], " ", d[1], " ", d[2], " leads to a point ", at, " off the ladders");
      REQ_NEAR(len, std::fabs(best), 0, tol, sens ? "sensitive" : "ladder", " point ", x[0], " ", x[1], " ", x[2], " vector ", d[0], " ", d[1], " ", d[2]);
    }
  }
  g.nontrivial(n >= 2);
}

PROP(ladder_intersection, 40000, 2500000) {
  ZSpec z = genLadders(g); g.note(show(z)); std::unique_ptr<gear::ZPlanarParametersImpl> p(build(z)); const gear::ZPlanarParameters& zp = *p; int hits = 0, none = 0;
  for (int sens = 0; sens < 2; ++sens) {
    vector<Box> bs = boxes(z, sens); double ext = extent(bs);
    for (int q = 0; q < 10; ++q) {
      double x[3], y[3], v[3]; if (g.chance(1, 3)) x[0] = x[1] = x[2] = 0; else genPoint(g, bs, ext, x);
      int mode = (int)g.draw(4);
      if (mode == 0) { for (double& c : v) c = g.generic(-1, 1); }
      else if (mode == 1) { for (double& c : v) c = g.chance(1, 3) ? 0 : g.generic(-1, 1); }
      else { genPoint(g, bs, ext, y); for (int k = 0; k < 3; ++k) v[k] = y[k] - x[k]; }
      double sc = std::pow(10., (double)g.integer(-2, 3)); for (double& c : v) c *= sc;
      double vl = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (vl == 0) continue;
      double size = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) + ext, slack = 1e-7 * size; bool startIn = false;
      for (auto& b : bs) if (b.depth(x) > -1e-6 * size) startIn = true;
      if (startIn) { g.label("start inside"); continue; }
      double t, sure = 1e300, maybe = 1e300;                       // entry into shrunk / enlarged boxes
      for (auto& b : bs) { if (b.hit(x, v, -slack, t)) sure = std::min(sure, t); if (b.hit(x, v, slack, t)) maybe = std::min(maybe, t); }
      // a line through an edge of a ladder can slip through between the two faces by rounding: not judged
      bool edge = false;
      for (auto& b : bs) if (b.hit(x, v, 1e-9 * size, t) && t * vl <= sure * vl + slack) {
        double e[3] = {x[0] + t * v[0], x[1] + t * v[1], x[2] + t * v[2]}, q2[3]; b.local(e, q2); int on = 0;
        for (int k = 0; k < 3; ++k) if (std::min(std::fabs(q2[k] - b.lo[k]), std::fabs(q2[k] - b.hi[k])) < 1e-8 * size) ++on;
        if (on >= 2) edge = true;
      }
      if (edge) { g.label("through an edge"); continue; }
      gear::Vector3D P(x[0], x[1], x[2]), V(v[0], v[1], v[2]), r = sens ? zp.intersectionSensitive(P, V) : zp.intersectionLadder(P, V);
      bool got = !same(r, 0, 0, 0);
      if (sure < 1e299) REQUIRE(got, sens ? "sensitive" : "ladder", " line from ", x[0], " ", x[1], " ", x[2], " along ", v[0], " ", v[1], " ", v[2], " hits a ladder at t=", sure, " but none was reported");
      if (maybe > 1e299) { ++none; REQUIRE(!got, sens ? "sensitive" : "ladder", " line from ", x[0], " ", x[1], " ", x[2], " along ", v[0], " ", v[1], " ", v[2], " hits nothing but ", r[0], " ", r[1], " ", r[2], " was reported"); }
      if (!got) continue;
      ++hits;
      // on the line, forward, on a ladder surface, and not before/after the true entry
      double w[3] = {r[0] - x[0], r[1] - x[1], r[2] - x[2]}; double tt = (w[0] * v[0] + w[1] * v[1] + w[2] * v[2]) / (vl * vl), off = 0, at = -1e300, s = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]) + size;
      for (int k = 0; k < 3; ++k) off = std::max(off, std::fabs(w[k] - tt * v[k]));
      double rr[3] = {r[0], r[1], r[2]}; for (auto& b : bs) { double d = b.depth(rr); at = std::max(at, d); }
      REQUIRE(off <= 1e-8 * s && tt >= 0, sens ? "sensitive" : "ladder", " line from ", x[0], " ", x[1], " ", x[2], " along ", v[0], " ", v[1], " ", v[2], " intersection ", r[0], " ", r[1], " ", r[2], " is not on the half line");
      REQUIRE(at >= -slack, "intersection ", r[0], " ", r[1], " ", r[2], " is not on a ladder");
      REQUIRE(tt * vl >= maybe * vl - slack && tt * vl <= sure * vl + slack, sens ? "sensitive" : "ladder", " line from ", x[0], " ", x[1], " ", x[2], " along ", v[0], " ", v[1], " ", v[2], " intersection ", r[0], " ", r[1], " ", r[2], " at distance ", tt * vl, " but the first entry is at ", maybe * vl, " to ", sure * vl);
    }
  }
  g.nontrivial(hits && none); if (hits) g.label("hit");
}

// P29. Angles here count clockwise from the y axis (the layout's own convention, 90 degrees minus azimuth).
PROP(ladder_angles, 60000, 4000000) {
  ZSpec z = genLadders(g); g.note(show(z)); gear::ZPlanarLayerLayoutImpl y; int through = 0, corner = 0, miss = 0; const double PI = M_PI;
  for (auto& l : z.layers) y.addLayer(l.n, l.phi0, l.l[0], l.l[1], l.l[2], l.l[3], l.l[4], l.l[5], l.s[0], l.s[1], l.s[2], l.s[3], l.s[4], l.s[5]);
  int bad = g.boolean() ? (int)z.layers.size() + (int)g.draw(3) : -1 - (int)g.draw(3);
  REQ_THROWS(std::exception, y.getMaxRadius(bad, true), bad); REQ_THROWS(std::exception, y.getStartInnerPhi(bad, true), bad); REQ_THROWS(std::exception, y.getEndOuterPhi(bad, false), bad); REQ_THROWS(std::exception, y.getThicknessForPhi(bad, 0., true), bad);
  for (int k = 0; k < (int)z.layers.size(); ++k) for (int sens = 0; sens < 2; ++sens) {
    auto& l = z.layers[k]; const double* a = sens ? l.s : l.l; string where = "layer " + std::to_string(k) + (sens ? " sensitive" : " ladder");
    double nx = std::cos(l.phi0), ny = std::sin(l.phi0), lo[2] = {a[0], a[1] - a[4] / 2}, hi[2] = {a[0] + a[2], a[1] + a[4] / 2}, rmax = 0;
    bool dflt = !sens && g.boolean();
    double got[4] = {dflt ? y.getStartInnerPhi(k) : y.getStartInnerPhi(k, sens), dflt ? y.getEndInnerPhi(k) : y.getEndInnerPhi(k, sens), dflt ? y.getStartOuterPhi(k) : y.getStartOuterPhi(k, sens), dflt ? y.getEndOuterPhi(k) : y.getEndOuterPhi(k, sens)};
    for (int q = 0; q < 4; ++q) {       // the four corners: inner face first
      double w = q < 2 ? lo[0] : hi[0], u = q % 2 ? lo[1] : hi[1], X = w * nx - u * ny, Y = w * ny + u * nx; rmax = std::max(rmax, std::hypot(X, Y));
      double d = std::remainder(got[q] - std::atan2(X, Y), 2 * PI); REQUIRE(std::fabs(d) <= 1e-11, where, " corner ", q, " at ", X, ",", Y, " angle ", got[q]);
    }
    REQUIRE(got[0] <= got[1] && got[1] - got[0] < PI && got[2] <= got[3] && got[3] - got[2] < PI, where, " angles ", got[0], " ", got[1], " ", got[2], " ", got[3]);
    REQ_NEAR(dflt ? y.getMaxRadius(k) : y.getMaxRadius(k, sens), rmax, 1e-12, 0, where);
    for (int q = 0; q < 6; ++q) {
      double f = g.chance(2, 3) ? got[0] + (got[1] - got[0]) * g.generic(-0.1, 1.1) : g.chance(1, 2) ? got[g.draw(4)] + g.generic(-0.02, 0.02) : PI / 2 - l.phi0 + g.generic(-3.1, 3.1);
      bool clear = true; for (double c : got) if (std::fabs(f - c) < 1e-7) clear = false; if (!clear) continue;
      double t = dflt ? y.getThicknessForPhi(k, f) : y.getThicknessForPhi(k, f, sens), dn = std::sin(f) * nx + std::cos(f) * ny, du = -std::sin(f) * ny + std::cos(f) * nx;   // direction in the ladder's frame
      if (f < got[0] || f > got[1]) { ++miss; REQUIRE(t == -1, where, " angle ", f, " is not covered, thickness ", t); continue; }
      double in = lo[0] / dn, out = hi[0] / dn; if (du > 0) out = std::min(out, hi[1] / du); if (du < 0) out = std::min(out, lo[1] / du);
      (out < hi[0] / dn ? corner : through)++; REQ_NEAR(t, out - in, 1e-9, 1e-9 * (rmax + a[2]), where, " angle ", f, " of ", got[0], " to ", got[1]);
    }
  }
  if (through) g.label("through"); if (corner) g.label("corner"); if (miss) g.label("not covered"); g.nontrivial(through && corner);
}
