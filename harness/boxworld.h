// generated worlds of nested boxes and the independent decomposition of lines through them
#pragma once
#include "xmlw.h"
#include "gearimpl/Vector3D.h"
#include "stub/faketgeo.h"
namespace {
using gear::Vector3D; using std::vector; using std::string;
// the specification: a tree of boxes; its own answers are computed without the stand-in
struct World { vector<std::unique_ptr<TGeoMaterial>> mats; vector<std::unique_ptr<TGeoMedium>> meds; vector<std::unique_ptr<TGeoVolume>> vols; vector<std::unique_ptr<TGeoNode>> nodes; TGeoManager mgr; double size = 1; };
void makeWorld(pbt::Gen& g, World& w, bool dup = false) {
  int nm = 1 + (int)g.draw(5); for (int i = 0; i < nm; ++i) { TGeoMaterial m; m.name = "mat" + std::to_string(i); m.dens = g.real(0, 20); m.temp = g.real(0, 400); m.press = g.real(0, 1e5); m.rad = g.chance(1, 5) ? 0 : g.generic(0.1, 1000); m.inter = g.chance(1, 5) ? 0 : g.generic(0.1, 1000); w.mats.emplace_back(new TGeoMaterial(m)); w.meds.emplace_back(new TGeoMedium{w.mats.back().get()}); }
  int nv = 1 + (int)g.draw(6); for (int i = 0; i <= nv; ++i) { w.vols.emplace_back(new TGeoVolume()); TGeoVolume& v = *w.vols.back(); v.name = i ? "vol" + std::to_string(i) : "world"; v.medium = g.pick(w.meds).get(); v.mgr = &w.mgr; }
  w.size = g.pick({2., 30., 400., 2500.});
  struct Rec { static void kids(pbt::Gen& g, World& w, TGeoNode* m, int depth) {
    int n = g.many(0, depth ? 3 : 5, depth ? 3 : 25, 15); if (!n) return; int ax = (int)g.draw(3); double len = m->hi[ax] - m->lo[ax], pitch = len / n;
    for (int i = 0; i < n; ++i) { w.nodes.emplace_back(new TGeoNode()); TGeoNode* k = w.nodes.back().get(); k->name = "n" + std::to_string(w.nodes.size()); k->vol = w.vols[1 + g.draw(w.vols.size() - 1)].get(); k->mother = m; m->kids.push_back(k);
      double fill = g.generic(0.15, 0.85);
      for (int a = 0; a < 3; ++a) { double lo = m->lo[a], hi = m->hi[a]; if (a == ax) { lo += i * pitch; hi = lo + pitch; } double L = hi - lo, f = a == ax ? fill : g.generic(0.5, 0.95), s = g.frac() * (1 - f); k->lo[a] = lo + L * (s + 0.01 * f); k->hi[a] = lo + L * (s + 0.99 * f); k->t[a] = (k->lo[a] + k->hi[a]) / 2 + (g.boolean() ? 0 : g.generic(-1, 1)); }
      k->quarter = (int)g.draw(4); if (depth < 4 && g.chance(1, 2)) kids(g, w, k, depth + 1); } } };
  w.nodes.emplace_back(new TGeoNode()); TGeoNode* top = w.nodes.back().get(); top->name = "top"; top->vol = w.vols[0].get(); for (int a = 0; a < 3; ++a) { top->lo[a] = -w.size * g.generic(0.3, 1); top->hi[a] = w.size * g.generic(0.3, 1); }
  Rec::kids(g, w, top, 0); if (dup) { for (auto& v : w.vols) if (g.chance(1, 3)) v->name = "world"; for (size_t i = 1; i < w.nodes.size(); ++i) if (g.chance(1, 4)) w.nodes[i]->name = "top"; } w.mgr.top = top; w.mgr.topVolume = top->vol;
  g.note(w.nodes.size(), " boxes, world size ", w.size);
  for (auto& n : w.nodes) g.note("  ", n->name, " in ", n->mother ? n->mother->name : "-", " volume ", n->vol->name, " material ", n->vol->medium->mat->name, " x ", n->lo[0], "..", n->hi[0], " y ", n->lo[1], "..", n->hi[1], " z ", n->lo[2], "..", n->hi[2]);
}
const TGeoNode* at(const TGeoNode* n, const double* p) { for (int a = 0; a < 3; ++a) if (!(p[a] >= n->lo[a] && p[a] <= n->hi[a])) return 0; for (auto* k : n->kids) if (const TGeoNode* r = at(k, p)) return r; return n; }
struct Seg { string vol, mat; double len; double rad, inter; };
// pieces of the segment p q, in order (neighbouring pieces of one box joined)
vector<Seg> pieces(const World& w, const double* p, const double* q) {
  double d[3], L = 0; for (int i = 0; i < 3; ++i) { d[i] = q[i] - p[i]; L += d[i] * d[i]; } L = std::sqrt(L);
  vector<double> t = {0, 1}; for (auto& n : w.nodes) for (int a = 0; a < 3; ++a) if (d[a] != 0) for (double c : {n->lo[a], n->hi[a]}) { double u = (c - p[a]) / d[a]; if (u > 0 && u < 1) t.push_back(u); }
  std::sort(t.begin(), t.end()); vector<Seg> r; const TGeoNode* prev = 0;
  for (size_t i = 0; i + 1 < t.size(); ++i) { double m = (t[i] + t[i + 1]) / 2, x[3]; for (int a = 0; a < 3; ++a) x[a] = p[a] + m * d[a]; const TGeoNode* n = at(w.mgr.top, x); if (!n) { prev = 0; continue; }
    double len = (t[i + 1] - t[i]) * L; if (n == prev) r.back().len += len; else { const TGeoMaterial* M = n->vol->medium->mat; r.push_back({n->name, M->name, len, M->rad, M->inter}); prev = n; } }
  return r;
}
bool clear(const World& w, const double* p, double eps) { for (auto& n : w.nodes) for (int a = 0; a < 3; ++a) if (std::fabs(p[a] - n->lo[a]) < eps || std::fabs(p[a] - n->hi[a]) < eps) return false; return true; }
void inBox(pbt::Gen& g, const TGeoNode& n, double* p) { for (int a = 0; a < 3; ++a) p[a] = g.generic(n.lo[a], n.hi[a]); }
Vector3D V(const double* p) { return Vector3D(p[0], p[1], p[2]); }
struct Line { double p[3], q[3]; };
// a line in general position: no piece so short that rounding decides about it, except the first
bool proper(const World& w, const Line& l) {
  double L = 0; for (int i = 0; i < 3; ++i) L += (l.q[i] - l.p[i]) * (l.q[i] - l.p[i]); if (std::sqrt(L) < 1e-3) return false;
  auto s = pieces(w, l.p, l.q); bool ok = at(w.mgr.top, l.p) != 0; for (size_t i = 1; i < s.size(); ++i) if (s[i].len < 1e-3) ok = false; if (s.size() && s[0].len < 1e-6) ok = false;
  for (auto& n : w.nodes) for (int a = 0; a < 3; ++a) for (double c : {n->lo[a], n->hi[a]}) if (std::fabs(l.p[a] - c) < 1e-7 || std::fabs(l.q[a] - c) < 1e-3) ok = false;
  return ok;
}
Line anyLine(pbt::Gen& g, const World& w) {
  for (int tries = 0; tries < 20; ++tries) {
    Line l; inBox(g, *w.nodes[g.draw(w.nodes.size())], l.p); inBox(g, *w.nodes[g.draw(w.nodes.size())], l.q);
    switch (g.draw(6)) {
      case 0: { int a = (int)g.draw(3); for (int i = 0; i < 3; ++i) if (i != a) l.q[i] = l.p[i]; break; }                               // along an axis
      case 1: { const TGeoNode& n = *w.nodes[g.draw(w.nodes.size())]; int a = (int)g.draw(3); inBox(g, n, l.p); bool up = g.boolean(); double e = g.generic(1e-6, 8e-6); l.p[a] = up ? n.hi[a] - e : n.lo[a] + e; for (int i = 0; i < 3; ++i) if (i != a) l.q[i] = l.p[i]; break; }   // starts next to a boundary
      default: break; }
    if (proper(w, l)) return l;
  }
  throw pbt::Discard();
}
}
