// independent writer of geometry files: GSpec -> element tree -> text, with free spelling, order and formatting.
// It does not use any code of the library.
#pragma once
#include "geom.h"

namespace xmlw {
using namespace geom;
struct At { string n, v; bool req; };
struct X {
  enum K { ELEM, COMM, UNKN, TEXT } k = ELEM; string name; vector<At> at; vector<X> kids; string text; bool hasText = false, req = false, ordered = false;   // req: the element is required by its parent; ordered: children keep their order
  X() {} explicit X(const string& n, bool r = false) : name(n), req(r) {}
  X& a(const string& n, const string& v, bool r = true) { at.push_back({n, v, r}); return *this; }
  X& kid(const X& x) { kids.push_back(x); return kids.back(); }
};
struct Style { bool odd = true; };   // odd: unusual but legal spellings

inline string fmt(const char* f, double v) { char b[400]; snprintf(b, sizeof b, f, v); return b; }
inline bool whole(double v) { return std::fabs(v) < 1e15 && v == std::floor(v); }
inline string zeros(Gen& g, string s) { size_t k = (s[0] == '-' || s[0] == '+') ? 1 : 0; s.insert(k, g.str("0", 1, 3)); return s; }
inline string num(Gen& g, double v) {
  string s;
  switch (g.draw(6)) {
    case 0: s = fmt("%.17g", v); break; case 1: s = fmt("%.17e", v); break; case 2: s = fmt("%.17E", v); break; case 3: s = fmt("%+.17g", v); break;
    default: s = whole(v) ? fmt(g.boolean() ? "%.0f" : "%.1f", v) + (g.chance(1, 8) && s.find('.') == string::npos ? "" : "") : fmt("%.17g", v);
  }
  if (whole(v) && s.find_first_of(".eE") == string::npos && g.chance(1, 6)) s += ".";
  if (g.chance(1, 8)) s = zeros(g, s);
  if (g.chance(1, 8)) s = " " + s; if (g.chance(1, 8)) s += " ";
  return s;
}
inline string num(Gen& g, int v) { string s = std::to_string(v); if (v >= 0 && g.chance(1, 8)) s = "+" + s; if (g.chance(1, 8)) s = zeros(g, s); if (g.chance(1, 8)) s = " " + s; if (g.chance(1, 8)) s += " "; return s; }

// ---------- parameters ----------
inline bool plainText(const string& v) {   // survives white space condensing
  if (v.empty() || v[0] == ' ' || v.back() == ' ' || v.find("  ") != string::npos) return false;
  for (unsigned char c : v) if ((c < 32 && isspace(c)) || c == 0) return false; return true;
}
inline X param(Gen& g, const string& name, const string& type, const string& value, bool asText) {
  X x("parameter"); x.a("name", name).a("type", type);
  if (asText) { x.hasText = true; x.text = value; } else x.a("value", value, false);
  return x;
}
inline string sep(Gen& g, bool wide) { string s = g.chance(1, 4) ? g.str(wide ? " \n\t" : " ", 1, 3) : " "; return s.empty() ? " " : s; }
template <class V, class F> string list(Gen& g, const V& v, F f, bool wide) { string s = g.chance(1, 6) ? sep(g, wide) : ""; for (size_t k = 0; k < v.size(); ++k) s += (k ? sep(g, wide) : "") + f(v[k]); if (g.chance(1, 6)) s += sep(g, wide); return s; }
inline void params(Gen& g, X& x, const PSpec& p) {
  auto n = [&](auto v) { string s = num(g, v); s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s; };
  auto pad = [&](string s) { if (g.chance(1, 8)) s = sep(g, true) + s; if (g.chance(1, 8)) s += sep(g, true); return s; };
  for (auto& e : p.i) x.kid(param(g, e.first, "int", pad(n(e.second)), g.chance(1, 3)));
  for (auto& e : p.d) x.kid(param(g, e.first, "double", pad(n(e.second)), g.chance(1, 3)));
  for (auto& e : p.s) x.kid(param(g, e.first, "string", e.second, (e.second.empty() || plainText(e.second)) && g.chance(1, 3)));
  for (auto& e : p.iv) x.kid(param(g, e.first, "IntVec", list(g, e.second, n, true), g.chance(1, 3)));
  for (auto& e : p.dv) x.kid(param(g, e.first, "DoubleVec", list(g, e.second, n, true), g.chance(1, 3)));
  for (auto& e : p.sv) { bool plain = true; for (auto& w : e.second) plain = plain && plainText(w); bool t = plain && g.chance(1, 3); x.kid(param(g, e.first, "StringVec", list(g, e.second, [](const string& s) { return s; }, t), t)); }
  if (g.chance(1, 12)) { bool i = g.boolean(); string nm = "no_value"; if (!p.i.count(nm) && !p.d.count(nm)) x.kid(param(g, nm, i ? "int" : "double", g.str(" ", 0, 2), g.boolean())); }   // no value: no parameter
}

// ---------- detectors ----------
inline string anyCase(Gen& g, string s) { if (g.chance(1, 2)) for (char& c : s) if (isalpha((unsigned char)c) && g.boolean()) c = isupper((unsigned char)c) ? tolower(c) : toupper(c); return s; }
inline string lower(string s) { for (char& c : s) c = tolower((unsigned char)c); return s; }
inline string route(Gen& g, const string& canonical, const vector<string>& keys, const vector<string>& all) {   // a name that contains exactly the given keywords
  if (g.boolean()) return canonical;
  string s = g.str(alnum(), 0, 5); for (auto& k : keys) s += anyCase(g, k) + g.str(alnum(), 0, 5);
  string l = lower(s); for (auto& k : all) { bool want = false; for (auto& q : keys) want = want || q.find(k) != string::npos; if (!want && l.find(k) != string::npos) return canonical; }
  return s;
}
inline string calName(Gen& g, int k) {
  static const vector<string> all = {"ecal", "yoke", "lcal", "lhcal", "beamcal", "hcal", "plug", "ring"};
  static const vector<vector<string>> keys = {{"ecal"}, {"ecal"}, {"ecal", "plug"}, {"yoke"}, {"yoke"}, {"yoke", "plug"}, {"hcal"}, {"hcal"}, {"hcal", "ring"}, {"lcal"}, {"lhcal"}, {"beamcal"}};
  return route(g, CALNAME[k], keys[k], all);
}
inline X detector(Gen& g, const string& name, const string& type) { X x("detector"); x.a("name", name).a("geartype", type, false); if (g.chance(1, 8)) x.a("id", std::to_string(g.draw(100)), false); if (g.chance(1, 8)) x.a("insideTrackingVolume", "yes", false); return x; }
inline X value(Gen& g, const string& n, double v, bool req) { X x(n, req); x.a("value", num(g, v)); return x; }

inline X calX(Gen& g, const CalSpec& c, int slot) {
  X x = detector(g, calName(g, slot), "CalorimeterParameters");
  X l("layout", true); l.a("type", anyCase(g, c.barrel ? "Barrel" : "Endcap")).a("symmetry", num(g, c.sym)).a("phi0", num(g, c.phi0)); x.kid(l);
  X d("dimensions", true); d.a("inner_r", num(g, c.a)); if (c.barrel) d.a("outer_z", num(g, c.b)); else d.a("outer_r", num(g, c.b)).a("inner_z", num(g, c.c)); x.kid(d);
  auto layer = [&](const CalSpec::L& y, int rep) { X r("layer"); r.a("repeat", num(g, rep)).a("thickness", num(g, y.thick)).a("absorberThickness", num(g, y.abs)).a("cellSize0", num(g, y.c0)).a("cellSize1", num(g, y.c1)); x.kid(r); };
  for (size_t k = 0; k < c.layers.size();) {
    size_t n = 1; while (k + n < c.layers.size() && sameBits(c.layers[k].thick, c.layers[k + n].thick) && sameBits(c.layers[k].abs, c.layers[k + n].abs) && sameBits(c.layers[k].c0, c.layers[k + n].c0) && sameBits(c.layers[k].c1, c.layers[k + n].c1) && !g.chance(1, 4)) ++n;
    if (g.chance(1, 20)) { CalSpec::L y = c.layers[k]; y.thick += 1; layer(y, 0); }   // repeated zero times
    layer(c.layers[k], (int)n); k += n;
  }
  params(g, x, c.params); return x;
}
inline void prep(Gen& g, LSpec& s) {   // what a file can describe: all rows repeated at the end, if at all
  if (s.kind != RECT) return; vector<Call> c; int rep = 0; for (auto& q : s.calls) if (q.nPad) c.push_back(q); else rep = q.repeat; s.calls = c;
  if (rep) { Call q; q.nPad = 0; q.repeat = rep; s.calls.push_back(q); }
}
inline X layoutX(Gen& g, const LSpec& s) {
  X x("PadRowLayout2D", true); auto opt = [&](X& e, const char* n, double v, double def) { if (!sameBits(v, def) || g.chance(1, 3)) e.a(n, num(g, v), false); };
  auto rep = [&](X& e, const char* n, int r) { if (r != 1 || g.chance(1, 3)) e.a(n, num(g, r), false); };
  switch (s.kind) {
    case RECT: x.a("type", "RectangularPadRowLayout").a("xMin", num(g, s.p0)).a("xMax", num(g, s.p1)).a("yMin", num(g, s.p2));
      for (auto& c : s.calls) { if (c.nPad == 0) { rep(x, "repeatRows", c.repeat); continue; } X r("row"); r.a("nPad", num(g, c.nPad)).a("padWidth", num(g, c.w)).a("padHeight", num(g, c.h)); opt(r, "rowHeight", c.rowH, 0.); opt(r, "leftOffset", c.left, 0.); opt(r, "rightOffset", c.right, 0.); rep(r, "repeat", c.repeat); x.kid(r); } break;
    case SIZE: x.a("type", "FixedPadSizeDiskLayout").a("rMin", num(g, s.p0)).a("rMax", num(g, s.p1)).a("padHeight", num(g, s.padH)).a("padWidth", num(g, s.padW)).a("maxRow", num(g, s.nRow)).a("padGap", num(g, s.gap)); opt(x, "phiMax", s.p2, TWOPI); break;
    case ANGLE: x.a("type", "FixedPadAngleDiskLayout").a("rMin", num(g, s.p0)).a("rMax", num(g, s.p1)).a("nRow", num(g, s.nRow)).a("phiMin", num(g, s.phiMin)).a("phiMax", num(g, s.phiMax)).a("nPadsInRow", num(g, s.nPads)); break;
    case VERS: x.a("type", "VersatileDiskRowLayout").a("rMin", num(g, s.p0));
      for (auto& c : s.calls) { X r("row"); r.a("nPad", num(g, c.nPad)).a("padPitch", num(g, c.w)).a("rowHeight", num(g, c.rowH)); opt(r, "padWidth", c.right, 0.); opt(r, "padHeight", c.h, 0.); opt(r, "offset", c.left, 0.); rep(r, "repeat", c.repeat); x.kid(r); } break;
  }
  return x;
}
// fields of a module that a default can provide
enum { FREQ, LAYOUT, OFFSET, ZPOS, ANGLE_, BORDER, NFIELD };
struct Def { bool has[NFIELD] = {}; MSpec m; };
inline void take(MSpec& a, const MSpec& b, int f) { switch (f) { case FREQ: a.freq = b.freq; break; case LAYOUT: a.lay = b.lay; break; case OFFSET: a.o0 = b.o0; a.o1 = b.o1; break; case ZPOS: a.hasZ = true; a.z = b.z; break; case ANGLE_: a.angle = b.angle; break; default: a.border = b.border; } }
inline X fieldX(Gen& g, const MSpec& m, int f) {
  switch (f) { case FREQ: return value(g, "readoutFrequency", m.freq, false); case LAYOUT: { X x = layoutX(g, m.lay); x.req = false; return x; } case OFFSET: { X x("offset"); x.a("x_r", num(g, m.o0)).a("y_phi", num(g, m.o1)); return x; } case ZPOS: return value(g, "zPosition", m.z, false); case ANGLE_: return value(g, "angle", m.angle, false); default: return value(g, "enlargeActiveAreaBy", m.border, false); }
}
inline void unreq(X& x) { x.req = false; for (auto& a : x.at) a.req = false; for (auto& k : x.kids) unreq(k); }   // a default may be unused
// writes the TPC; modules may be changed to take values of defaults (t is the resulting specification)
inline X tpcX(Gen& g, TSpec& t) {
  X x = detector(g, g.boolean() ? "TPC" : ident(g), "TPCParameters");
  for (auto& m : t.mods) prep(g, m.lay);
  x.kid(value(g, "maxDriftLength", t.drift, true));
  if (t.plain && g.chance(3, 4)) {
    x.kid(value(g, "driftVelocity", t.velocity, true)); x.kid(value(g, "readoutFrequency", t.mods[0].freq, true)); x.kid(layoutX(g, t.mods[0].lay)); params(g, x, t.params); return x;
  }
  X ct("coordinateType"); ct.a("value", t.polar ? "polar" : "cartesian"); x.kid(ct);
  if (t.velocity != 0 || g.boolean()) x.kid(value(g, "driftVelocity", t.velocity, false)); else t.velocity = 0;
  std::set<int> used; size_t k = 0;
  do {
    size_t n = std::min(t.mods.size() - k, (size_t)g.size(0, 4)); X sec("modules"); sec.ordered = true; int start = 0;
    if (g.boolean()) { start = g.boolean() ? (int)g.integer(-5, 40) : (int)g.integer(-1000000, 1000000); sec.a("moduleIDStartCount", num(g, start), false); }
    // defaults before module number pos
    vector<std::pair<size_t, Def>> defs; int nd = g.boolean() ? g.size(0, 3) : 0;
    for (int d = 0; d < nd && n; ++d) { Def q; q.m = t.mods[k + g.draw(n)]; for (int f = 0; f < NFIELD; ++f) q.has[f] = g.boolean() && (f != ZPOS || q.m.hasZ); defs.push_back({g.draw(n + 1), q}); }
    std::stable_sort(defs.begin(), defs.end(), [](const std::pair<size_t, Def>& a, const std::pair<size_t, Def>& b) { return a.first < b.first; });
    auto putDefs = [&](size_t at) { for (auto& d : defs) if (d.first == at) { X e("default"); for (int f = 0; f < NFIELD; ++f) if (d.second.has[f]) { X fx = fieldX(g, d.second.m, f); unreq(fx); e.kid(fx); } sec.kid(e); } };
    for (size_t j = 0; j < n; ++j) {
      putDefs(j); MSpec& m = t.mods[k + j]; const Def* d = defs.empty() ? nullptr : &defs[0].second; for (auto& q : defs) if (q.first <= j) d = &q.second;
      X e("module");
      int run = start + (int)j;
      if (!used.count(run) && g.boolean()) m.id = run; else { while (used.count(m.id)) m.id = (m.id % 100000) + 1; X i("moduleID"); i.a("value", num(g, m.id)); e.kid(i); }
      used.insert(m.id);
      for (int f = 0; f < NFIELD; ++f) {
        bool inDef = d && d->has[f];
        if (inDef && (g.boolean() || (f == ZPOS && !m.hasZ))) { take(m, d->m, f); continue; }
        if (!inDef) {
          if (f == ZPOS && !m.hasZ) continue;
          if ((f == OFFSET && m.o0 == 0 && m.o1 == 0) || (f == ANGLE_ && m.angle == 0) || (f == BORDER && m.border == 0)) if (g.boolean()) { if (f == OFFSET) m.o0 = m.o1 = 0; if (f == ANGLE_) m.angle = 0; if (f == BORDER) m.border = 0; continue; }
        }
        X fx = fieldX(g, m, f); if (!inDef && (f == FREQ || f == LAYOUT)) fx.req = true; e.kid(fx);
      }
      params(g, e, t.modPar[k + j]); sec.kid(e);
      if (g.chance(1, 12)) { X u("remark"); sec.kid(u); }
    }
    putDefs(n); x.kid(sec); k += n;
  } while (k < t.mods.size() || g.chance(1, 4));
  params(g, x, t.params); return x;
}
inline X zX(Gen& g, const ZSpec& z, int slot) {
  static const vector<string> all = {"vxd", "sit", "set"};
  X x = detector(g, route(g, ZNAME[slot], {all[slot]}, all), g.boolean() ? "ZPlanarParameters" : "VXDParameters");
  X t(g.boolean() ? "type" : "vxdType", true); t.a("technology", z.type == 1 ? "CCD" : z.type == 2 ? "CMOS" : "HYBRID"); x.kid(t);
  X s("shell", true); s.a("halfLength", num(g, z.half)).a("gap", num(g, z.gap)).a("innerRadius", num(g, z.rIn)).a("outerRadius", num(g, z.rOut)).a("radLength", num(g, z.radLen)); x.kid(s);
  X ls("layers", true);
  for (auto& l : z.layers) {
    X y("layer"); y.a("nLadders", num(g, l.n)).a("phi0", num(g, l.phi0));
    auto lad = [&](const char* n, const double* v) { X e(n, true); e.a("distance", num(g, v[0])).a("offset", num(g, v[1])).a("thickness", num(g, v[2])).a("length", num(g, v[3])).a("width", num(g, v[4])).a("radLength", num(g, v[5])); return e; };
    y.kid(lad("ladder", l.l)); y.kid(lad("sensitive", l.s)); ls.kid(y);
  }
  x.kid(ls); params(g, x, z.params); return x;
}
inline X ftdX(Gen& g, const FSpec& f) {
  X x = detector(g, g.boolean() ? "FTD" : ident(g), "FTDParameters"); X ls("layers", true);
  for (auto& l : f.layers) {
    X y("layer"); y.a("nPetals", num(g, l.nPetals)).a("nSensors", num(g, l.nSensors)).a("isDoubleSided", l.dbl ? "1" : "0").a("sensorType", l.type == 1 ? "PIXEL" : "STRIP").a("petalOpenningAngle", num(g, l.half)).a("phi0", num(g, l.phi0)).a("alpha", num(g, l.alpha)).a("zposition", num(g, l.z)).a("zoffset", num(g, l.zoff)).a("zsign0", num(g, l.zsign));
    auto e = [&](const char* n, const double* v) { X q(n, true); q.a("rInner", num(g, v[0])).a("thickness", num(g, v[1])).a("lengthMin", num(g, v[2])).a("lengthMax", num(g, v[3])).a("width", num(g, v[4])).a("radLength", num(g, v[5])); return q; };
    y.kid(e("support", l.u)); y.kid(e("sensitive", l.s)); ls.kid(y);
  }
  x.kid(ls); params(g, x, f.params); return x;
}
static const char* const GEO[10] = {"positionX", "positionY", "positionZ", "rotationXY", "rotationZX", "rotationZY", "sizeX", "sizeY", "thickness", "radLength"};
inline X siX(Gen& g, SiSpec& s) {
  X x = detector(g, g.boolean() ? "SiPlanes" : ident(g), "SiPlanesParameters");
  X i("siplanesID", true); i.a("ID", num(g, s.id)); x.kid(i); X t("siplanesType", true); t.a("type", s.type == 1 ? "TelescopeWithDUT" : "TelescopeWithoutDUT"); x.kid(t); X n("siplanesNumber", true); n.a("number", num(g, s.number)); x.kid(n);
  auto opt = [&](X& e, const char* nm, double& v, double def) { if (g.boolean()) v = def; if (!sameBits(v, def) || g.boolean()) e.a(nm, num(g, v), false); };
  auto sens = [&](X& e, SiSpec::L& l, bool dut) {
    e.a("npixelX", num(g, l.npx)).a("npixelY", num(g, l.npy)).a("pitchX", num(g, l.s[10])).a("pitchY", num(g, l.s[11])).a("resolution", num(g, l.s[12]));
    if (!dut) { opt(e, "resolutionX", l.s[13], l.s[12]); opt(e, "resolutionY", l.s[14], l.s[12]); }
    opt(e, "rotation1", l.s[15], 1.); opt(e, "rotation2", l.s[16], 0.); opt(e, "rotation3", l.s[17], 0.); opt(e, "rotation4", l.s[18], 1.);
  };
  auto geo = [&](X& e, double* v, bool dut) { for (int k = 0; k < 10; ++k) if (k >= 3 && k < 6) { if (!dut) opt(e, GEO[k], v[k], 0.); } else e.a(GEO[k], num(g, v[k])); };
  if (s.hasDut) { X d("dut", true); X a("dut_ladder", true); a.a("ID", num(g, s.dut.id)); geo(a, s.dut.l, true); d.kid(a); X b("dut_sensitive", true); b.a("ID", num(g, s.dut.sid)); geo(b, s.dut.s, true); sens(b, s.dut, true); d.kid(b); x.kid(d); }
  X ls("layers", true);
  for (auto& l : s.layers) { X y("layer"); X a("ladder", true); a.a("ID", num(g, l.id)); geo(a, l.l, false); y.kid(a); X b("sensitive", true); b.a("ID", num(g, l.sid)); geo(b, l.s, false); sens(b, l, false); y.kid(b); ls.kid(y); }
  x.kid(ls); params(g, x, s.params); return x;
}
inline X tpX(Gen& g, TpSpec& t) {
  X x = detector(g, g.boolean() ? "TrackerPlanes" : ident(g), "TrackerPlanesParameters");
  X i("LayoutID", true); i.a("ID", num(g, t.id)); x.kid(i); X n("LayoutNumberOfLayers", true); n.a("number", num(g, t.number)); x.kid(n);
  auto opt = [&](X& e, const char* nm, double& v, double def) { if (g.boolean()) v = def; if (!sameBits(v, def) || g.boolean()) e.a(nm, num(g, v), false); };
  auto opti = [&](X& e, const char* nm, int& v, int def) { if (g.boolean()) v = def; if (v != def || g.boolean()) e.a(nm, num(g, v), false); };
  auto info = [&](X& e, string& v) { if (g.boolean()) v = ""; if (!v.empty() || g.boolean()) e.a("info", v, false); };
  auto geo = [&](X& e, TpSpec::M& m) { e.a("ID", num(g, m.id)); info(e, m.info); for (int k = 0; k < 10; ++k) opt(e, GEO[k], m.v[k], k == 6 || k == 7 ? 1. : 0.); };
  X ls("layers", true);
  for (auto& l : t.layers) {
    X y("layer"); y.a("ID", num(g, l.id)); info(y, l.info);
    for (auto& m : l.mat) { X a("ladder"); geo(a, m); y.kid(a); }
    for (auto& m : l.sens) { X b("sensitive"); geo(b, m); opti(b, "npixelX", m.npx, 1); opti(b, "npixelY", m.npy, 1); opt(b, "pitchX", m.w[0], 0.); opt(b, "pitchY", m.w[1], 0.); opt(b, "resolutionX", m.w[2], 0.); opt(b, "resolutionY", m.w[3], 0.); y.kid(b); }
    ls.kid(y);
  }
  x.kid(ls); params(g, x, t.params); return x;
}
// the root element; s is updated where the file says something else (defaults taken)
inline X rootX(Gen& g, GSpec& s) {
  X r("gear");
  if (s.hasName) { X x("global"); x.a("detectorName", s.name); r.kid(x); }
  if (s.b) { X x("BField"); x.a("x", num(g, s.b->v[0])).a("y", num(g, s.b->v[1])).a("z", num(g, s.b->v[2])); if (g.chance(1, 4)) x.a("type", "ConstantBField", false); params(g, x, s.b->params); r.kid(x); }
  X d("detectors", true);
  if (s.tpc) d.kid(tpcX(g, *s.tpc));
  for (int k = 0; k < NCAL; ++k) if (s.cal[k]) d.kid(calX(g, *s.cal[k], k));
  for (int k = 0; k < 3; ++k) if (s.z[k]) d.kid(zX(g, *s.z[k], k));
  if (s.ftd) d.kid(ftdX(g, *s.ftd)); if (s.tp) d.kid(tpX(g, *s.tp)); if (s.si) d.kid(siX(g, *s.si));
  for (auto& e : s.named) { X x = detector(g, e.first, "GearParameters"); params(g, x, e.second); d.kid(x); }
  r.kid(d);
  if (!s.mats.empty() || g.boolean()) { X m("materials"); for (auto& e : s.mats) { auto& v = e.second.v; X x("material"); x.a("name", e.first).a("A", num(g, v[0])).a("Z", num(g, v[1])).a("density", num(g, v[2])).a("radLength", num(g, v[3])).a("intLength", num(g, v[4])); m.kid(x); } r.kid(m); }
  return r;
}
// ---------- order and decoration ----------
inline void shuffleAt(Gen& g, vector<At>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g.draw(k)]); }
// any order of children; children of the same name keep their order (unless free)
inline void shuffleKids(Gen& g, X& x, bool free) {
  vector<X> old = x.kids; vector<size_t> ix(old.size()); for (size_t k = 0; k < ix.size(); ++k) ix[k] = k; for (size_t k = ix.size(); k > 1; --k) std::swap(ix[k - 1], ix[g.draw(k)]);
  if (!free) { map<string, vector<size_t>> by; for (size_t i : ix) by[old[i].name].push_back(i); for (auto& e : by) std::sort(e.second.begin(), e.second.end()); map<string, size_t> pos; for (size_t& i : ix) { const string& n = old[i].name; i = by[n][pos[n]++]; } }
  x.kids.clear(); for (size_t i : ix) x.kids.push_back(old[i]);
}
inline X commentX(Gen& g) {
  X c; c.k = X::COMM;
  switch (g.draw(4)) { case 0: c.name = g.pick<string>({"detector", "layer", "parameter", "module", "default", "row", "ladder", "sensitive", "material", "layers", "modules", "PadRowLayout2D"}); break;
    case 1: c.name = g.pick<string>({" <detector name=\"x\" geartype=\"y\"/> ", "</detectors>", "& < > \" '", " - - ", "", "<layer>"}); break; default: c.name = g.str(alnum() + " \n<>&'\"=/", 0, 20); }
  size_t p; while ((p = c.name.find("--")) != string::npos) c.name.erase(p, 1); if (!c.name.empty() && c.name.back() == '-') c.name += " "; return c;
}
inline void decorate(Gen& g, X& x, int level = 0) {
  shuffleAt(g, x.at); if (!x.ordered) shuffleKids(g, x, x.name == "detectors" || x.name == "gear");
  for (X& k : x.kids) decorate(g, k, level + 1);
  int n = g.chance(1, 4) ? g.size(0, 3) : 0;
  for (int k = 0; k < n; ++k) {
    if (x.hasText) { X c = commentX(g); if (g.boolean()) x.kids.push_back(c); else x.kids.insert(x.kids.begin(), c); continue; }   // comments around the text
    if (x.name == "parameter") continue;
    X c; if (g.chance(3, 4)) c = commentX(g); else if (g.boolean()) { c.k = X::TEXT; c.name = g.pick<string>({"layer", "detector", "some text", "row", "x"}); if (!x.kids.empty()) { bool t = false; for (auto& q : x.kids) t = t || q.k == X::TEXT; if (t) continue; } } else { c = X(g.pick<string>({"remark", "author", "Detector", "layerx"})); if (g.boolean()) c.a("name", ident(g)); if (g.boolean()) c.kid(X("layer")); }
    x.kids.insert(x.kids.begin() + g.draw(x.kids.size() + 1), c);
  }
  if (x.name != "parameter" && x.name != "default" && g.chance(1, 20)) { bool dup = false; for (auto& a : x.at) dup = dup || a.n == "remark"; if (!dup) x.a("remark", ident(g), false); }
}
// a detector whose type is missing
inline X untyped(Gen& g) { X x("detector"); x.a("name", g.pick<string>({"EcalBarrel", "VXD", "TPC", "x", "hcal"})); if (g.boolean()) { X l("layout"); l.a("type", "Barrel"); x.kid(l); } if (g.boolean()) x.kid(param(g, "p", "int", "7", false)); if (g.boolean()) x.a("type", "CalorimeterParameters"); return x; }

// ---------- text ----------
inline string wsp(Gen& g, bool need) { string s = g.chance(1, 3) ? g.str(" \n\t\r", 0, 2) : ""; if (need && s.empty()) s = " "; return s; }
inline string refOf(Gen& g, unsigned char c) { char b[16]; snprintf(b, sizeof b, g.boolean() ? "&#x%x;" : "&#x%02X;", c); return b; }
inline string wval(Gen& g, const string& v, char q) {
  string r; for (unsigned char c : v) {
    if (c == '&') r += g.boolean() ? "&amp;" : refOf(g, c); else if (c == '<') r += g.boolean() ? "&lt;" : refOf(g, c);
    else if (c == '>') r += q ? (g.draw(3) == 0 ? string(">") : g.boolean() ? "&gt;" : refOf(g, c)) : "&gt;";
    else if (c == '"') r += (q == '\'' && g.boolean()) ? string("\"") : g.boolean() ? "&quot;" : refOf(g, c);
    else if (c == '\'') r += (q == '"' && g.boolean()) ? string("'") : g.boolean() ? "&apos;" : refOf(g, c);
    else if (c < 32) { if (c == '\n' || c == '\t') r += !q || g.boolean() ? string(1, (char)c) : refOf(g, c); else r += refOf(g, c); }
    else if (c < 127 && c != ' ' && g.chance(1, 40)) r += refOf(g, c); else r += c; }
  return r;
}
inline bool wordy(const string& v) { if (v.empty()) return false; for (unsigned char c : v) if (!isalnum(c) && c != '.' && c != '-' && c != '_' && c != '+') return false; return true; }
inline string wattr(Gen& g, const string& n, const string& v) {
  string r = wsp(g, true) + n + wsp(g, false) + "=" + wsp(g, false); char q = g.boolean() ? '"' : '\'';
  if (wordy(v) && g.chance(1, 30)) return r + v + " ";
  return r + q + wval(g, v, q) + q;
}
inline string wnode(Gen& g, const X& x) {
  switch (x.k) { case X::COMM: return "<!--" + x.name + "-->"; case X::UNKN: return "<" + x.name + ">"; case X::TEXT: return wval(g, x.name, 0); default: break; }
  string r = "<" + x.name; for (auto& a : x.at) r += wattr(g, a.n, a.v); r += wsp(g, false);
  bool empty = x.kids.empty() && (!x.hasText || x.text.empty()); if (empty && g.draw(4)) return r + "/>";
  r += ">"; bool text = false, done = !x.hasText;
  for (auto& c : x.kids) {
    if (!done && (g.boolean() || c.k != X::COMM)) { r += wval(g, x.text, 0); done = true; text = true; }
    if (!text && c.k != X::TEXT) r += g.chance(1, 2) ? (g.chance(1, 4) ? "\r\n" : "\n") : wsp(g, false); text = c.k == X::TEXT; r += wnode(g, c); }
  if (!done) r += wval(g, x.text, 0); else if (!text) r += wsp(g, false);
  return r + "</" + x.name + wsp(g, false) + ">";
}
inline string document(Gen& g, const X& root) {
  string body; auto misc = [&]() { if (g.chance(1, 5)) body += wnode(g, commentX(g)) + wsp(g, false); };
  misc(); if (g.chance(1, 8)) body += "<!DOCTYPE gear SYSTEM \"gear.dtd\">\n"; misc(); body += wnode(g, root) + wsp(g, false); misc();
  bool high = false; for (unsigned char c : body) high = high || c >= 0x80;
  string h; if (g.boolean()) { h = "<?xml version=\"1.0\""; if (g.boolean()) h += string(" encoding=\"") + (high ? "ISO-8859-1" : g.pick<string>({"UTF-8", "utf-8", "ISO-8859-1"})) + "\""; else if (high) h += " encoding=\"ISO-8859-1\""; h += wsp(g, true) + "?>" + wsp(g, false); }
  return h + body;
}
// a random geometry that a file can describe
inline GSpec genGeo(Gen& g, int many = 4) {
  GSpec s; if (g.boolean()) { s.hasName = true; s.name = anyText(g, false); } if (g.boolean()) s.b.reset(new BSpec(genB(g)));
  int n = g.size(0, many);
  for (int k = 0; k < n; ++k) switch (g.draw(8)) {
    case 0: case 1: { int c = (int)g.draw(NCAL); s.cal[c].reset(new CalSpec(genCal(g, c))); break; }
    case 2: { int z = (int)g.draw(3); s.z[z].reset(new ZSpec(genZ(g, anyNum))); s.z[z]->params = genParams(g, 3); break; }
    case 3: s.ftd.reset(new FSpec(genF(g, anyNum))); s.ftd->params = genParams(g, 3); break;
    case 4: s.tp.reset(new TpSpec(genTp(g, anyNum, [](Gen& q) { return anyText(q); }))); s.tp->params = genParams(g, 3); break;
    case 5: s.si.reset(new SiSpec(genSi(g, anyNum))); s.si->params = genParams(g, 3); break;
    case 6: s.tpc.reset(new TSpec(genTPC(g))); break;
    default: s.named[g.boolean() ? ident(g) : anyText(g)] = genParams(g);
  }
  n = g.many(0, 3, 40, 40); for (int k = 0; k < n; ++k) s.mats[g.boolean() ? ident(g) : anyText(g)] = genMat(g);
  return s;
}
inline int parts(const GSpec& s) { int n = (s.b ? 1 : 0) + (s.tpc ? 1 : 0) + (s.ftd ? 1 : 0) + (s.tp ? 1 : 0) + (s.si ? 1 : 0) + (int)s.named.size() + (int)s.mats.size(); for (auto& c : s.cal) n += c ? 1 : 0; for (auto& z : s.z) n += z ? 1 : 0; return n; }
inline void spit(const string& f, const string& s) { std::ofstream o(f.c_str(), std::ios::binary | std::ios::trunc); o << s; }
} // namespace xmlw
