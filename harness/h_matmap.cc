// P25: material maps hold the budgets of their grid points and interpolate between them
#include "geom.h"
#include "gear/GearDistanceProperties.h"
#include "gear/geartgeo/MaterialMap.h"
#include "gear/geartgeo/MaterialMapFactory.h"
using namespace geom;

namespace {
using gear::Vector3D;
// a smooth synthetic budget as function of the end point; counts the calls that do not start at the vertex
struct Budget : gear::GearDistanceProperties {
  double a[2][5]; mutable long calls = 0, wrongStart = 0; std::vector<std::string> n; std::vector<double> t;
  double f(int k, double x, double y, double z) const { return a[k][0] + a[k][1] * std::sin(0.7 * x + a[k][4]) + a[k][2] * std::cos(0.9 * y) * (1 + 0.3 * std::sin(z)) + a[k][3] * z; }
  double call(int k, const Vector3D& p, const Vector3D& q) const { ++calls; if (p[0] != 0 || p[1] != 0 || p[2] != 0) ++wrongStart; return f(k, q[0], q[1], q[2]); }
  const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return n; } const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return t; }
  double getNRadlen(const Vector3D& p, const Vector3D& q) const { return call(0, p, q); } double getNIntlen(const Vector3D& p, const Vector3D& q) const { return call(1, p, q); }
  double getBdL(const Vector3D&, const Vector3D&) const { return 0; } double getEdL(const Vector3D&, const Vector3D&) const { return 0; }
  explicit Budget(pbt::Gen& g) { for (auto& r : a) { for (double& c : r) c = g.generic(0.2, 2); r[0] += 10; } }
};
enum { CART, CYL, SPH };
struct Axis { double lo, hi; int n; int cells() const { return hi > lo ? n : 0; } double step() const { return cells() ? (hi - lo) / n : 1; } double at(int i) const { return i == n && cells() ? hi : lo + i * step(); } };
struct MapSpec { Axis ax[3]; int coord;
  void cart(const double* u, double* p) const {
    if (coord == CART) { for (int i = 0; i < 3; ++i) p[i] = u[i]; }
    else if (coord == CYL) { p[0] = u[0] * std::cos(u[1]); p[1] = u[0] * std::sin(u[1]); p[2] = u[2]; }
    else { p[0] = u[0] * std::sin(u[1]) * std::cos(u[2]); p[1] = u[0] * std::sin(u[1]) * std::sin(u[2]); p[2] = u[0] * std::cos(u[1]); }
  }
  double value(const Budget& b, int k, int i, int j, int l) const {
    double u[3] = {ax[0].at(i), ax[1].at(j), ax[2].at(l)}, p[3]; cart(u, p);
    if (p[0] == 0 && p[1] == 0 && p[2] == 0) return 0;       // nothing between the vertex and itself
    return b.f(k, p[0], p[1], p[2]);
  }
};
Axis axis(pbt::Gen& g, double lo, double hi, int maxn, bool cart) {   // a grid in [lo,hi] ([-inf,inf] for cartesian axes)
  Axis a; a.n = g.chance(1, 8) ? 0 : g.many(1, std::min(maxn, 12), maxn, 25);
  switch (g.draw(4)) {
    case 0: a.lo = lo; a.hi = hi; break;
    case 1: if (cart) { a.lo = -std::floor(g.real(0, 20)); a.hi = a.lo + a.n * std::floor(g.real(1, 9)); break; } // fallthrough
    case 2: if (cart) { a.lo = g.integer(-50, 20) * 0.1; a.hi = a.lo + a.n * (g.integer(1, 30) * 0.1); break; } // fallthrough
    default: a.lo = g.generic(lo, hi); a.hi = g.generic(a.lo, hi); if (a.n && a.hi - a.lo < 0.01 * a.n) { a.lo = lo; a.hi = hi; }
  }
  if (g.chance(1, 10)) a.n = 0; else if (g.chance(1, 12)) a.hi = a.lo;      // no steps: one plane at the lower bound for the whole range
  return a;
}
MapSpec anyMap(pbt::Gen& g) {
  MapSpec m; m.coord = (int)g.draw(3); int big = g.chance(1, 2) ? 40 : 15; const double P = M_PI;
  if (m.coord == CART) { for (auto& a : m.ax) a = axis(g, -8, 11, big, true); if (g.chance(1, 6)) for (auto& a : m.ax) { a.lo = -3; a.hi = 3; a.n = 2 * (1 + (int)g.draw(3)); } }
  else if (m.coord == CYL) { m.ax[0] = axis(g, 0, 12, big, false); m.ax[1] = axis(g, 0, 2 * P, big, false); m.ax[2] = axis(g, -7, 9, big, true); }
  else { m.ax[0] = axis(g, 0, 12, big, false); m.ax[1] = axis(g, 0, P, big, false); m.ax[2] = axis(g, 0, 2 * P, big, false); }
  while ((m.ax[0].n + 1L) * (m.ax[1].n + 1) * (m.ax[2].n + 1) > 4000) { Axis& a = *std::max_element(m.ax, m.ax + 3, [](const Axis& x, const Axis& y) { return x.n < y.n; }); a.n = std::max(1, a.n / 2); }
  return m;
}
void describe(pbt::Gen& g, const MapSpec& m) { g.note(m.coord == CART ? "cartesian" : m.coord == CYL ? "cylindrical" : "spherical"); for (auto& a : m.ax) g.note("  axis ", a.lo, " .. ", a.hi, " in ", a.n, " steps"); }
// neighbouring grid planes of x: all admissible choices (a point on a plane belongs to the cell on either side)
void planes(const Axis& a, double x, std::vector<std::pair<int, int>>& out) {
  out.clear(); if (a.cells() == 0) { out.push_back({0, 0}); return; }
  double t = (x - a.lo) / a.step(); int k = (int)std::floor(t); double fr = t - k;
  auto cell = [&](int c) { int u = std::max(0, c), v = std::min(a.n, c + 1); if (u <= a.n && v >= 0 && u <= v) out.push_back({u, v}); };
  cell(k); if (fr < 1e-9) cell(k - 1); if (fr > 1 - 1e-9) cell(k + 1);
}
void checkPoint(pbt::Gen& g, const gear::MaterialMap& mp, const MapSpec& m, const Budget& b, const double* u) {
  std::vector<std::pair<int, int>> c[3]; for (int i = 0; i < 3; ++i) planes(m.ax[i], u[i], c[i]);
  double got[2] = {mp.getRadiationLength(u[0], u[1], u[2]), mp.getInteractionLength(u[0], u[1], u[2])};
  std::ostringstream w; w.precision(17); w << "at (" << u[0] << ", " << u[1] << ", " << u[2] << ")";
  for (int k = 0; k < 2; ++k) {
    bool ok = false, judged = true; double want = 0;
    for (auto& cx : c[0]) for (auto& cy : c[1]) for (auto& cz : c[2]) {
      double s = 0, sw = 0; bool on = false;
      for (int i = cx.first; i <= cx.second; ++i) for (int j = cy.first; j <= cy.second; ++j) for (int l = cz.first; l <= cz.second; ++l) {
        double d = std::sqrt(std::pow(u[0] - m.ax[0].at(i), 2) + std::pow(u[1] - m.ax[1].at(j), 2) + std::pow(u[2] - m.ax[2].at(l), 2));
        if (std::fabs(d - 1e-5) < 1e-7) judged = false;
        double v = m.value(b, k, i, j, l); if (on) continue;
        if (d < 1e-5) { on = true; s = v; sw = 1; } else { s += v / d; sw += 1 / d; }
      }
      want = s / sw; if (pbt::near(got[k], want, 2e-8, 1e-9)) ok = true;
    }
    if (judged) REQUIRE(ok, k ? "interaction" : "radiation", " length is ", got[k], " but expected ", want, " ", w.str());
  }
}
// a point of the map: inside, on planes, on grid points, on the upper edges
void anyPoint(pbt::Gen& g, const MapSpec& m, double* u) {
  for (int i = 0; i < 3; ++i) { const Axis& a = m.ax[i];
    switch (g.draw(5)) { case 0: u[i] = a.at((int)g.draw(a.cells() + 1)); break; case 1: u[i] = a.hi; break; case 2: u[i] = a.cells() ? a.hi - g.frac() * a.step() : a.lo; break; default: u[i] = g.generic(a.lo, a.hi); } }
}
struct Env { Budget* b; gear::GearMgrImpl mgr; Env(pbt::Gen& g) : b(new Budget(g)) { mgr.setDistanceProperties(b); } };   // the manager owns the properties
gear::MaterialMap* build(gear::MaterialMapFactory& f, const MapSpec& m) { return f.createMaterialMap(m.ax[0].lo, m.ax[0].hi, m.ax[0].n, m.ax[1].lo, m.ax[1].hi, m.ax[1].n, m.ax[2].lo, m.ax[2].hi, m.ax[2].n, m.coord); }
}

PROP(material_map, 12000, 400000) {
  Env e(g); MapSpec m = anyMap(g); describe(g, m);
  gear::MaterialMap mp(&e.mgr, m.ax[0].lo, m.ax[0].hi, m.ax[0].n, m.ax[1].lo, m.ax[1].hi, m.ax[1].n, m.ax[2].lo, m.ax[2].hi, m.ax[2].n, m.coord);
  REQ_EQ(e.b->wrongStart, 0L); const long calls = e.b->calls;
  bool all = g.chance(1, 3); double u[3];
  for (int i = 0; i <= m.ax[0].cells(); ++i) for (int j = 0; j <= m.ax[1].cells(); ++j) for (int l = 0; l <= m.ax[2].cells(); ++l) {
    bool edge = i == m.ax[0].cells() || j == m.ax[1].cells() || l == m.ax[2].cells(); if (!all && !(edge && (i + j + l) % 3 == 0)) continue;
    int at[3] = {i, j, l}; for (int q = 0; q < 3; ++q) u[q] = m.ax[q].at(at[q]);
    REQ_NEAR(mp.getRadiationLength(u[0], u[1], u[2]), m.value(*e.b, 0, i, j, l), 2e-8, 1e-9, "grid point ", i, ",", j, ",", l); REQ_NEAR(mp.getInteractionLength(u[0], u[1], u[2]), m.value(*e.b, 1, i, j, l), 2e-8, 1e-9, "grid point ", i, ",", j, ",", l);
  }
  for (int k = 0; k < 40; ++k) { anyPoint(g, m, u); checkPoint(g, mp, m, *e.b, u); }
  for (int k = 0; k < 6; ++k) {     // just beyond the grid: tolerated; further outside: refused
    anyPoint(g, m, u); int i = (int)g.draw(3); bool up = g.boolean(); double edge = up ? m.ax[i].hi : m.ax[i].lo;
    u[i] = edge + (up ? 1 : -1) * g.generic(0, 0.9e-5); double v = mp.getRadiationLength(u[0], u[1], u[2]); REQUIRE(std::isfinite(v), "just outside the grid: ", v);
    double far = g.pick({2e-5, 1e-3, 1., 1e6}); u[i] = edge + (up ? 1 : -1) * far * (1 + g.frac());
    REQ_THROWS(gear::Exception, mp.getRadiationLength(u[0], u[1], u[2]), "point outside the map"); REQ_THROWS(gear::Exception, mp.getInteractionLength(u[0], u[1], u[2]), "point outside the map");
  }
  REQ_EQ(e.b->calls, calls, "queries use the map, not the geometry");
  g.label(m.coord == CART ? "cartesian" : m.coord == CYL ? "cylindrical" : "spherical"); g.nontrivial((m.ax[0].cells() > 0) + (m.ax[1].cells() > 0) + (m.ax[2].cells() > 0) >= 2);
}

PROP(map_refused, 6000, 100000) {
  Env e(g); MapSpec m = anyMap(g); describe(g, m); int i = (int)g.draw(3); Axis& a = m.ax[i]; const double P = M_PI;
  switch (g.draw(5)) {
    case 0: a.hi = a.lo - g.generic(1e-6, 3); break;
    case 1: a.n = -1 - (int)g.draw(5); break;
    case 2: m.coord = g.pick({3, -1, 7, 100}); break;
    case 3: if (m.coord == CART) m.coord = CYL; m.ax[0].lo = -g.generic(1e-6, 5); break;
    default: { bool cyl = m.coord != SPH; if (cyl) m.coord = CYL; int k = cyl ? 1 : 1 + (int)g.draw(2); double top = k == 2 || cyl ? 2 * P : P;
      if (g.boolean()) m.ax[k].lo = -g.generic(1e-6, 1); else m.ax[k].hi = top + g.generic(1e-6, 1); if (m.ax[k].hi <= m.ax[k].lo || !m.ax[k].n) m.ax[k].n = 1; }
  }
  describe(g, m); gear::MaterialMapFactory f(&e.mgr);
  REQ_THROWS(gear::Exception, build(f, m)); REQ_EQ(e.b->calls, 0L);
  gear::GearMgrImpl bare; MapSpec ok = anyMap(g); REQ_THROWS(gear::Exception, gear::MaterialMap(&bare, ok.ax[0].lo, ok.ax[0].hi, ok.ax[0].n, ok.ax[1].lo, ok.ax[1].hi, ok.ax[1].n, ok.ax[2].lo, ok.ax[2].hi, ok.ax[2].n, ok.coord), "no distance properties");
  g.nontrivial();
}

PROP(map_factory, 4000, 100000) {
  Env e(g); gear::MaterialMapFactory f(&e.mgr); std::vector<std::pair<MapSpec, gear::MaterialMap*>> made; std::set<gear::MaterialMap*> own; int n = 2 + (int)g.draw(5), fresh = 0;
  auto same = [](const MapSpec& a, const MapSpec& b) { if (a.coord != b.coord) return false; for (int i = 0; i < 3; ++i) if (a.ax[i].lo != b.ax[i].lo || a.ax[i].hi != b.ax[i].hi || a.ax[i].n != b.ax[i].n) return false; return true; };
  struct Free { std::set<gear::MaterialMap*>& s; ~Free() { for (auto* p : s) delete p; } } fr{own};
  for (int k = 0; k < n; ++k) {
    MapSpec m; if (made.empty() || g.chance(1, 3)) m = anyMap(g); else { m = made[g.draw(made.size())].first;
      switch (g.draw(4)) {      // the same grid again, in other coordinates, or with one number changed
        case 0: break; case 1: { bool pos = m.ax[0].lo >= 0 && m.ax[1].lo >= 0 && m.ax[1].hi <= M_PI && m.ax[2].lo >= 0 && m.ax[2].hi <= 2 * M_PI; if (pos) m.coord = (int)g.draw(3); break; }
        case 2: { Axis& a = m.ax[g.draw(3)]; if (a.n) a.n += 1; break; } default: { Axis& a = m.ax[g.draw(3)]; if (a.n) a.hi -= (a.hi - a.lo) * 0.25; } } }
    while ((m.ax[0].n + 1L) * (m.ax[1].n + 1) * (m.ax[2].n + 1) > 400) { Axis& a = *std::max_element(m.ax, m.ax + 3, [](const Axis& x, const Axis& y) { return x.n < y.n; }); a.n = std::max(1, a.n / 2); }
    describe(g, m); long before = e.b->calls; gear::MaterialMap* p = build(f, m); REQUIRE(p, "no map"); own.insert(p); bool known = false;
    for (auto& q : made) if (same(q.first, m)) { known = true; REQUIRE(q.second == p, "the same map is built twice"); } else REQUIRE(q.second != p, "one map for two different grids");
    if (known) REQ_EQ(e.b->calls, before); else { ++fresh; made.push_back({m, p}); }
    for (auto& q : made) { double u[3]; anyPoint(g, q.first, u); checkPoint(g, *q.second, q.first, *e.b, u); }
  }
  g.nontrivial(fresh >= 2);
}
