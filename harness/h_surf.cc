// P23: measurement surfaces: bounds, local/global coordinates and the surface store
#include "model.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include "CLHEP/Vector/RotationInterfaces.h"
#include "CLHEP/Vector/Rotation.h"
using namespace model;
typedef CLHEP::Hep3Vector V;
namespace {
struct Frame { double T[3], R[3][3];
  void global(const double* l, double* o) const { for (int i = 0; i < 3; ++i) o[i] = T[i] + R[i][0] * l[0] + R[i][1] * l[1] + R[i][2] * l[2]; }
  void local(const double* p, double* o) const { for (int i = 0; i < 3; ++i) { o[i] = 0; for (int k = 0; k < 3; ++k) o[i] += R[k][i] * (p[k] - T[k]); } }
};
Frame genFrame(Gen& g) {
  Frame f; for (double& t : f.T) t = g.chance(1, 4) ? 0 : g.real(-3000, 3000);
  double a[3], n; 
  if (g.chance(1, 3)) { int k = (int)g.draw(3); for (int i = 0; i < 3; ++i) a[i] = i == k; } else for (double& x : a) x = g.generic(-1, 1);
  n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); if (n < 1e-3) { a[0] = n = 1; a[1] = a[2] = 0; } for (double& x : a) x /= n;
  double w = g.chance(1, 3) ? g.integer(-4, 4) * M_PI / 4 : g.generic(-7, 7), c = std::cos(w), s = std::sin(w);
  double K[3][3] = {{0, -a[2], a[1]}, {a[2], 0, -a[0]}, {-a[1], a[0], 0}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f.R[i][j] = (i == j ? c : 0) + (1 - c) * a[i] * a[j] + s * K[i][j];
  return f;
}
string show(const Frame& f) { std::ostringstream o; o.precision(17); o << "T"; for (double t : f.T) o << " " << t; o << " R"; for (auto& r : f.R) for (double x : r) o << " " << x; return o.str(); }
gear::CartesianCoordinateSystem* build(const Frame& f) {
  return new gear::CartesianCoordinateSystem(V(f.T[0], f.T[1], f.T[2]), CLHEP::HepRotation(CLHEP::HepRep3x3(f.R[0][0], f.R[0][1], f.R[0][2], f.R[1][0], f.R[1][1], f.R[1][2], f.R[2][0], f.R[2][1], f.R[2][2])));
}
struct Bound { int kind; double a, b, h, dw, alpha;     // 0 none, 1 rectangle a x b, 2 trapezoid bottom a top b height h
  // signed distance-like margin: >0 inside
  double margin(const double* l) const {
    if (kind == 0) return 1e300;
    double c = std::cos(alpha), s = std::sin(alpha), u = c * l[0] + s * l[1], v = -s * l[0] + c * l[1], m = dw - std::fabs(l[2]);
    if (kind == 1) return std::min(m, std::min(a / 2 - std::fabs(u), b / 2 - std::fabs(v)));
    double half = (a + (b - a) * (v + h / 2) / h) / 2;     // half width at height v: bottom at -h/2, top at +h/2
    return std::min(m, std::min(h / 2 - std::fabs(v), half - std::fabs(u)));
  }
};
Bound genBound(Gen& g) {
  Bound b; b.kind = (int)g.draw(5); if (b.kind > 2) b.kind -= 2; b.a = g.chance(1, 8) ? 0 : posD(g, 0.1, 500); b.b = b.kind == 2 && g.chance(1, 8) ? 0 : posD(g, 0.1, 500); b.h = posD(g, 0.1, 500); b.dw = g.chance(1, 4) ? g.real(0, 0.1) : posD(g, 0.01, 100);
  b.alpha = g.chance(1, 3) ? 0 : g.chance(1, 3) ? g.integer(-8, 8) * M_PI / 4 : g.generic(-7, 7); return b;
}
gear::IBoundary* build(Gen& g, const Bound& b) {
  if (b.kind == 1) return b.alpha == 0 && g.boolean() ? new gear::BoundaryRectangle(b.a, b.b, b.dw) : new gear::BoundaryRectangle(b.a, b.b, b.dw, b.alpha);
  if (b.kind == 2) return new gear::BoundaryTrapezoid(b.a, b.b, b.h, b.dw, b.alpha);
  return 0;
}
gear::MeasurementSurface* surface(Gen& g, int id, const Frame& f, const Bound& b) {
  gear::IBoundary* x = build(g, b); if (x) return new gear::MeasurementSurface(id, build(f), x);
  return g.boolean() ? new gear::MeasurementSurface(id, build(f)) : new gear::MeasurementSurface(id, build(f), 0);
}
void checkSurface(Gen& g, const gear::MeasurementSurface& s, const Frame& f, const Bound& b, int npts, int& in, int& out) {
  const gear::ICoordinateSystem* cs = s.getCoordinateSystem(); REQUIRE(cs != 0);
  REQUIRE(cs->getOrigin()->x() == f.T[0] && cs->getOrigin()->y() == f.T[1] && cs->getOrigin()->z() == f.T[2], "origin");
  for (int q = 0; q < npts; ++q) {
    double l[3], p[3], back[3]; double hu = b.kind == 2 ? std::max(b.a, b.b) / 2 : b.a / 2, hv = (b.kind == 2 ? b.h : b.b) / 2, c = std::cos(b.alpha), sn = std::sin(b.alpha);
    double u, v;
    switch (g.draw(4)) {
      case 0: u = g.generic(-1.5, 1.5) * hu; v = g.generic(-1.5, 1.5) * hv; break;
      case 1: u = g.generic(-1, 1) * hu; v = g.generic(-1, 1) * hv; break;
      case 2: { double e = g.pick<double>({1e-6, 1e-4, 0.01, 0.1}) * (g.boolean() ? 1 : -1), w = hu; v = g.chance(1, 2) ? (hv + e) * (g.boolean() ? 1 : -1) : g.generic(-1, 1) * hv; if (b.kind == 2) w = (b.a + (b.b - b.a) * (v + hv) / b.h) / 2; u = g.chance(1, 2) ? (w + e) * (g.boolean() ? 1 : -1) : g.generic(-1, 1) * w; break; }
      default: u = g.real(-600, 600); v = g.real(-600, 600);
    }
    l[0] = c * u - sn * v; l[1] = sn * u + c * v;
    l[2] = g.chance(1, 3) ? 0 : g.chance(1, 3) ? g.generic(-1, 1) * b.dw : g.chance(1, 2) ? (b.dw + g.pick<double>({1e-5, -1e-5, 0.01, -0.01, 1.})) * (g.boolean() ? 1 : -1) : g.real(-200, 200);
    f.global(l, p);
    double size = 1 + std::fabs(f.T[0]) + std::fabs(f.T[1]) + std::fabs(f.T[2]) + std::fabs(l[0]) + std::fabs(l[1]) + std::fabs(l[2]), tol = 1e-12 * size;
    V P = cs->getGlobalPoint(V(l[0], l[1], l[2]));
    for (int k = 0; k < 3; ++k) REQ_NEAR(P[k], p[k], 0, tol, "global point of ", l[0], " ", l[1], " ", l[2]);
    V L = cs->getLocalPoint(V(p[0], p[1], p[2])); f.local(p, back);
    for (int k = 0; k < 3; ++k) REQ_NEAR(L[k], back[k], 0, tol, "local point of ", p[0], " ", p[1], " ", p[2]);
    V L2 = cs->getLocalPoint(P), P2 = cs->getGlobalPoint(L); for (int k = 0; k < 3; ++k) { REQ_NEAR(L2[k], l[k], 0, tol, "local->global->local"); REQ_NEAR(P2[k], p[k], 0, tol, "global->local->global"); }
    double m = b.margin(l), w = 1e-9 * (1 + std::fabs(l[0]) + std::fabs(l[1]) + std::fabs(l[2]) + b.a + b.b + b.h) ;
    if (std::fabs(m) > w || (l[2] == 0 && b.dw == 0 && m < -w)) { REQUIRE(s.isLocalInBoundary(V(l[0], l[1], l[2])) == (m > 0), "local point ", l[0], " ", l[1], " ", l[2], " margin ", m); (m > 0 ? in : out)++; }
    if (std::fabs(m) > w + 10 * tol) REQUIRE(s.isGlobalInBoundary(V(p[0], p[1], p[2])) == (m > 0), "global point ", p[0], " ", p[1], " ", p[2], " margin ", m);
  }
}
struct Filler : gear::MeasurementSurfaceStoreFiller { vector<gear::MeasurementSurface*> v; string name;
  void getMeasurementSurfaces(vector<gear::MeasurementSurface*>& out) const { out = v; } string getName() const { return name; } };
string show(const Bound& b) { std::ostringstream o; o.precision(17); o << "kind=" << b.kind << " a=" << b.a << " b=" << b.b << " h=" << b.h << " dw=" << b.dw << " alpha=" << b.alpha; return o.str(); }
}

PROP(surface, 200000, 10000000) {
  Frame f = genFrame(g); Bound b = genBound(g); int id = anyInt(g); g.note(show(f)); g.note(show(b));
  std::unique_ptr<gear::MeasurementSurface> s(surface(g, id, f, b)); REQ_EQ(s->getID(), id);
  auto* cs = dynamic_cast<gear::CartesianCoordinateSystem*>(s->getCoordinateSystem()); REQUIRE(cs != 0);
  V ax[3] = {cs->getLocalXAxis(), cs->getLocalYAxis(), cs->getLocalZAxis()};
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { REQ_NEAR(ax[i][k], f.R[k][i], 0, 1e-14, "local axis ", i); REQ_NEAR((*cs->getR())(k, i), f.R[k][i], 0, 1e-14, "rotation"); }
  int in = 0, out = 0; checkSurface(g, *s, f, b, 20, in, out);
  g.nontrivial(b.kind == 0 ? in > 0 : in && out); g.label(b.kind == 0 ? "no boundary" : b.kind == 1 ? "rectangle" : "trapezoid");
}

PROP(surface_store, 30000, 1000000) {
  std::unique_ptr<gear::GearMgrImpl> mgr(new gear::GearMgrImpl); std::unique_ptr<gear::MeasurementSurfaceStore> own(new gear::MeasurementSurfaceStore);
  bool viaMgr = g.boolean(); gear::MeasurementSurfaceStore& st = viaMgr ? mgr->getMeasurementSurfaceStore() : *own;
  REQUIRE(!st.isFilled(), "new store"); REQ_THROWS(gear::Exception, st.getFillerName()); int probe = anyInt(g); REQ_THROWS(gear::Exception, st.GetMeasurementSurface(probe));
  int n = g.many(0, 12, 150); Filler fl; fl.name = g.chance(1, 4) ? string() : ident(g); map<int, size_t> ids; vector<Frame> fr; vector<Bound> bd; vector<int> id; bool dup = false;
  for (int k = 0; k < n; ++k) {
    int i = !ids.empty() && g.chance(1, 40) ? id[g.draw(id.size())] : g.boolean() ? (int)g.integer(-20, 60) : anyInt(g);
    if (ids.count(i)) { if (!g.chance(1, 12)) continue; dup = true; } else ids[i] = id.size();
    fr.push_back(genFrame(g)); bd.push_back(genBound(g)); id.push_back(i); fl.v.push_back(surface(g, i, fr.back(), bd.back())); g.note("surface ", i, " ", show(fr.back()), " ", show(bd.back()));
  }
  if (dup) { REQ_THROWS(gear::Exception, st.FillStore(&fl), "duplicate ID"); g.label("duplicate"); REQUIRE(!st.isFilled(), "refused filling"); return; }
  st.FillStore(&fl); REQUIRE(st.isFilled()); REQ_EQ(st.getFillerName(), fl.name);
  auto check = [&]() {
    int in = 0, out = 0;
    for (size_t k = 0; k < id.size(); ++k) { const gear::MeasurementSurface* s = st.GetMeasurementSurface(id[k]); REQUIRE(s == fl.v[k], "surface of ID ", id[k]); REQ_EQ(const_cast<gear::MeasurementSurface*>(s)->getID(), id[k]); checkSurface(g, *s, fr[k], bd[k], 3, in, out); }
    for (int q = 0; q < 4; ++q) { int i = !id.empty() && g.boolean() ? (int)((unsigned)id[g.draw(id.size())] + (g.boolean() ? 1u : -1u)) : anyInt(g); if (!ids.count(i)) REQ_THROWS(gear::Exception, st.GetMeasurementSurface(i), i); else REQUIRE(st.GetMeasurementSurface(i) == fl.v[ids[i]]); }
  };
  check();
  Filler f2; f2.name = "second"; if (g.boolean()) { int i = anyInt(g); if (!ids.count(i)) f2.v.push_back(surface(g, i, genFrame(g), genBound(g))); }
  REQ_THROWS(gear::Exception, st.FillStore(&f2), "second filling"); REQUIRE(st.isFilled()); REQ_EQ(st.getFillerName(), fl.name);
  for (auto* s : f2.v) REQ_THROWS(gear::Exception, st.GetMeasurementSurface(s->getID()), "surface of the refused filling");
  check();
  { gear::MeasurementSurfaceStore copy(st); REQUIRE(copy.isFilled(), "copy"); REQ_EQ(copy.getFillerName(), fl.name, "copy"); for (size_t k = 0; k < id.size(); ++k) { int in = 0, out = 0; checkSurface(g, *copy.GetMeasurementSurface(id[k]), fr[k], bd[k], 1, in, out); } REQ_THROWS(gear::Exception, copy.FillStore(&f2), "second filling of a copy"); }
  g.nontrivial(id.size() >= 2); g.label(viaMgr ? "manager" : "store");
}
