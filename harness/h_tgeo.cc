// P26: material along a line and at a point, on a stand-in for ROOT's geometry package (stub/faketgeo.h)
#include "xmlw.h"
#include <dlfcn.h>
#include <unistd.h>
#include "gearxml/GearXML.h"
#include "boxworld.h"
#include "geartgeo/TGeoGearDistanceProperties.h"
#include "geartgeo/TGeoGearPointProperties.h"
#include "geartgeo/TGeoGeometryInitializer.h"
#include "gear/GearMaterialProperties.h"
using namespace geom;

namespace {
void checkLine(pbt::Gen& g, const gear::TGeoGearDistanceProperties& d, const World& w, const Line& l, int what, bool stuck) {
  auto want = pieces(w, l.p, l.q); Vector3D p = V(l.p), q = V(l.q); std::ostringstream o; o.precision(17); o << "from (" << l.p[0] << "," << l.p[1] << "," << l.p[2] << ") to (" << l.q[0] << "," << l.q[1] << "," << l.q[2] << ")"; string where = o.str();
  double X = 0, I = 0, eps = 0; for (auto& s : want) { if (s.rad) X += s.len / s.rad; if (s.inter) I += s.len / s.inter; eps += 4e-5 / 0.1; } (void)stuck; eps = 4e-4 * (want.size() + 3);
  bool par = what == 4; vector<string> mn, vn; vector<double> th;
  if (what == 0 || par) REQ_NEAR(d.getNRadlen(p, q), X, 1e-7, eps, where);
  if (what == 1 || par) REQ_NEAR(d.getNIntlen(p, q), I, 1e-7, eps, where);
  if (what == 2 || par) mn = d.getMaterialNames(p, q);
  if (what == 3 || par) th = d.getMaterialThicknesses(p, q);
  if (what == 5 || par) vn = d.getVolumeNames(p, q);
  auto list = [](const vector<string>& v) { string s; for (auto& x : v) s += x + " "; return s; };
  auto merge = [](const vector<string>& v) { vector<string> r; for (auto& s : v) if (r.empty() || r.back() != s) r.push_back(s); return r; };
  if (par) {   // the lists run parallel: joined over pieces of one volume they are the pieces of the line
    REQ_EQ(th.size(), mn.size(), where); REQ_EQ(vn.size(), mn.size(), where); vector<Seg> got;
    for (size_t i = 0; i < mn.size(); ++i) { if (got.size() && got.back().vol == vn[i]) { REQ_EQ(mn[i], got.back().mat, where); got.back().len += th[i]; } else got.push_back({vn[i], mn[i], th[i], 0, 0}); }
    auto tiny = [](const Seg& s) { return s.len < 1e-4; }; vector<Seg> a = got, b = want; a.erase(std::remove_if(a.begin(), a.end(), tiny), a.end()); b.erase(std::remove_if(b.begin(), b.end(), tiny), b.end());
    // a dropped tiny piece may have separated two pieces of one volume
    auto join = [](vector<Seg> v) { vector<Seg> r; for (auto& s : v) if (r.size() && r.back().vol == s.vol) r.back().len += s.len; else r.push_back(s); return r; }; a = join(a); b = join(b);
    REQ_EQ(a.size(), b.size(), where, " volumes: ", list(vn)); for (size_t i = 0; i < b.size(); ++i) { REQ_EQ(a[i].vol, b[i].vol, where, " volumes: ", list(vn)); REQ_EQ(a[i].mat, b[i].mat, where); REQ_NEAR(a[i].len, b[i].len, 1e-9, 1e-4, "piece ", i, " in ", b[i].vol, " ", where); }
  } else if (want.size() && want[0].len > 1e-3) {
    if (what == 2) { vector<string> e; for (auto& s : want) e.push_back(s.mat); REQ_EQ(list(merge(mn)), list(merge(e)), where); }
    if (what == 3) { double s = 0, e = 0; for (double x : th) s += x; for (auto& x : want) e += x.len; REQ_NEAR(s, e, 1e-9, 1e-4 * (want.size() + 1), where); }
    if (what == 5) { vector<string> e; for (auto& s : want) e.push_back(s.vol); REQ_EQ(list(merge(vn)), list(e), where); }
  }
}
}

PROP(distance, 12000, 400000) {
  World w; makeWorld(g, w); bool stuck = g.chance(1, 4); if (stuck) w.mgr.stickEvery = 2 + (int)g.draw(9); gear::TGeoGearDistanceProperties d(&w.mgr); vector<Line> lines; int hit = 0; size_t most = 0;
  for (int k = 0; k < 12; ++k) {
    int what = (int)g.draw(8);
    if (what == 6) {   // a point to itself: nothing in between
      double p[3]; inBox(g, *w.nodes[g.draw(w.nodes.size())], p); Vector3D v = V(p); int m = (int)g.draw(5); g.note("point to itself, query ", m);
      if (m == 0) REQ_EQ(d.getNRadlen(v, v), 0.); else if (m == 1) REQ_EQ(d.getNIntlen(v, v), 0.); else if (m == 2) REQ_EQ(d.getMaterialNames(v, v).size(), 0u); else if (m == 3) REQ_EQ(d.getMaterialThicknesses(v, v).size(), 0u); else REQ_EQ(d.getVolumeNames(v, v).size(), 0u);
      continue; }
    if (what == 7) {   // start outside the world: refused, every time
      Line l = anyLine(g, w); int a = (int)g.draw(3); l.p[a] = g.boolean() ? w.mgr.top->hi[a] + g.generic(1e-3, 10) : w.mgr.top->lo[a] - g.generic(1e-3, 10); int m = (int)g.draw(5); g.note("start outside the world, query ", m);
      for (int i = 0; i < 2; ++i) { Vector3D p = V(l.p), q = V(l.q); if (m == 0) REQ_THROWS(gear::OutsideGeometryException, d.getNRadlen(p, q), i ? "second time" : ""); else if (m == 1) REQ_THROWS(gear::OutsideGeometryException, d.getNIntlen(p, q), i ? "second time" : ""); else if (m == 2) REQ_THROWS(gear::OutsideGeometryException, d.getMaterialNames(p, q), i ? "second time" : ""); else if (m == 3) REQ_THROWS(gear::OutsideGeometryException, d.getMaterialThicknesses(p, q), i ? "second time" : ""); else REQ_THROWS(gear::OutsideGeometryException, d.getVolumeNames(p, q), i ? "second time" : ""); }
      continue; }
    Line l = lines.size() && g.chance(1, 3) ? lines[g.draw(lines.size())] : anyLine(g, w);
    if (lines.size() && g.chance(1, 4)) {   // related to a line asked for before: the other direction, one common end, continued
      const Line& o = lines.back(); Line n = l; switch (g.draw(4)) { case 0: std::copy(o.q, o.q + 3, n.p); std::copy(o.p, o.p + 3, n.q); break; case 1: std::copy(o.p, o.p + 3, n.p); break; case 2: std::copy(o.q, o.q + 3, n.q); break; default: std::copy(o.q, o.q + 3, n.p); }
      if (proper(w, n)) { l = n; g.label("related to the line before"); } }
    lines.push_back(l); if (g.chance(1, 12)) std::swap(lines.back(), lines[g.draw(lines.size())]);
    g.note("line ", l.p[0], ",", l.p[1], ",", l.p[2], " -> ", l.q[0], ",", l.q[1], ",", l.q[2], " query ", what); size_t np = pieces(w, l.p, l.q).size(); most = std::max(most, np); hit += np >= 2;
    checkLine(g, d, w, l, what, stuck);
    if (g.chance(1, 20)) { REQ_THROWS(gear::NotImplementedException, d.getBdL(V(l.p), V(l.q))); REQ_THROWS(gear::NotImplementedException, d.getEdL(V(l.p), V(l.q))); }
  }
  REQUIRE(w.mgr.GetNtracks() <= 12, "tracks pile up: ", w.mgr.GetNtracks());
  if (stuck) g.label("navigation gets stuck"); if (most > 6) g.label("more than 6 pieces"); g.nontrivial(hit >= 2);
}

PROP(point, 12000, 400000) {
  World w; bool dup = g.chance(1, 4); makeWorld(g, w, dup); if (dup) g.label("volumes with the name of the world"); gear::TGeoGearPointProperties d(&w.mgr); int deep = 0;
  for (int k = 0; k < 25; ++k) {
    double p[3]; inBox(g, *w.nodes[g.draw(w.nodes.size())], p); if (g.chance(1, 6)) { int a = (int)g.draw(3); p[a] = g.boolean() ? w.mgr.top->hi[a] + g.generic(1e-6, 5) : w.mgr.top->lo[a] - g.generic(1e-6, 5); }
    if (!clear(w, p, 1e-9)) continue; Vector3D v = V(p); const TGeoNode* n = at(w.mgr.top, p); int what = (int)g.draw(9); std::ostringstream o; o.precision(17); o << "at " << p[0] << "," << p[1] << "," << p[2]; string where = o.str(); g.note(where, " query ", what);
    auto val = [&](int q, double& r, string& s, vector<string>& l) { switch (q) { case 0: s = d.getMaterialName(v); break; case 1: r = d.getDensity(v); break; case 2: r = d.getTemperature(v); break; case 3: r = d.getPressure(v); break; case 4: r = d.getRadlen(v); break; case 5: r = d.getIntlen(v); break;
      case 6: { Vector3D x = d.getLocalPosition(v); double loc[3]; if (n) { n->toLocal(p, loc); for (int i = 0; i < 3; ++i) REQ_NEAR(x[i], loc[i], 1e-12, 1e-12, "local position in ", n->name, " ", where); } break; }
      case 7: l = d.getListOfLogicalVolumes(v); break; default: l = d.getListOfPhysicalVolumes(v); } };
    double r = 0; string s; vector<string> l;
    if (!n) { REQ_THROWS(gear::OutsideGeometryException, val(what, r, s, l), where, " outside the world, query ", what); continue; }
    val(what, r, s, l); const TGeoMaterial* M = n->vol->medium->mat; if (n->mother) ++deep;
    switch (what) { case 0: REQ_EQ(s, M->name, where); break; case 1: REQ_EQ(r, M->dens, where); break; case 2: REQ_EQ(r, M->temp, where); break; case 3: REQ_EQ(r, M->press, where); break; case 4: REQ_EQ(r, M->rad, where); break; case 5: REQ_EQ(r, M->inter, where); break; case 6: break;
      default: { vector<string> e; for (const TGeoNode* q = n; q; q = q->mother) e.push_back(what == 7 ? q->vol->name : q->name); string a, b; for (auto& x : l) a += x + " "; for (auto& x : e) b += x + " "; REQ_EQ(a, b, where); } }
  }
  double p[3]; inBox(g, *w.nodes[0], p); Vector3D v = V(p); if (g.chance(1, 10)) { REQ_THROWS(gear::NotImplementedException, d.getB(v)); REQ_THROWS(gear::NotImplementedException, d.getE(v)); REQ_THROWS(gear::NotImplementedException, d.getCellID(v)); REQ_THROWS(gear::NotImplementedException, d.getRegion(v)); REQ_THROWS(gear::NotImplementedException, d.isTracker(v)); REQ_THROWS(gear::NotImplementedException, d.isCalorimeter(v)); }
  g.nontrivial(deep >= 3);
}

// a geometry file that names a GDML file: the manager answers from that geometry
PROP(gdml_file, 3000, 60000) {
  static void* lib = 0; if (!lib) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); string d(b, n > 0 ? n : 0); d = d.substr(0, d.rfind('/')) + "/stub/libgeartgeo.so"; lib = dlopen(d.c_str(), RTLD_NOW | RTLD_GLOBAL); if (!lib) { fprintf(stderr, "%s\n", dlerror()); abort(); } }
  World w[2]; auto& files = TGDMLParse::files(); files.clear(); string name[2]; int nw = 1 + (int)g.draw(2);
  struct Undo { ~Undo() { TGDMLParse::files().clear(); } } undo;
  for (int i = 0; i < nw; ++i) { makeWorld(g, w[i]); name[i] = xmlw::ident(g) + std::to_string(i) + ".gdml"; files[name[i]] = w[i].vols[0].get(); w[i].mgr.topVolume = 0; }
  string f = pbt::scratch() + "/g.xml"; int use = (int)g.draw(nw); bool known = g.chance(3, 4), none = !known && g.boolean();
  xmlw::spit(f, string("<gear>\n") + (none ? "" : "<GDMLFile name=\"" + (known ? name[use] : "missing.gdml") + "\"/>\n") + "<detectors/>\n</gear>\n"); g.note("file names ", none ? "no GDML file" : known ? name[use] : "a missing GDML file");
  Quiet q; gear::GearXML x(f);
  if (none) { std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); REQ_THROWS(gear::UnknownParameterException, m->getPointProperties()); REQ_THROWS(gear::UnknownParameterException, m->getDistanceProperties()); return; }
  if (!known) { REQ_THROWS(gear::ParseException, x.createGearMgr()); return; }
  std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); World& W = w[use]; REQUIRE(W.mgr.topVolume == W.vols[0].get() && W.mgr.closed, "the geometry is not closed with its world as top volume");
  const gear::GearPointProperties& pp = m->getPointProperties(); const gear::GearDistanceProperties& dp = m->getDistanceProperties(); int deep = 0;
  for (int k = 0; k < 4; ++k) { double p[3]; inBox(g, *W.nodes[g.draw(W.nodes.size())], p); if (!clear(W, p, 1e-9)) continue; const TGeoNode* n = at(W.mgr.top, p); deep += n->mother != 0; REQ_EQ(pp.getMaterialName(V(p)), n->vol->medium->mat->name); REQ_EQ(pp.getDensity(V(p)), n->vol->medium->mat->dens);
    Line l = anyLine(g, W); double X = 0; auto s = pieces(W, l.p, l.q); for (auto& e : s) if (e.rad) X += e.len / e.rad; REQ_NEAR(dp.getNRadlen(V(l.p), V(l.q)), X, 1e-7, 4e-4 * (s.size() + 3)); }
  g.nontrivial(deep > 0);
}
