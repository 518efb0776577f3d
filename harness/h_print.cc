// P24: printing shows every value, changes nothing and never fails
#include "xmlw.h"
#include "program.h"
#include "gearxml/GearXML.h"
#include "gearimpl/Util.h"
using namespace geom;
namespace {
int PREC = 6;
struct Cur { Gen& g; string t, what; size_t at = 0;
  // literal text must follow somewhere after the current position
  void find(const string& s) { ++g.evals; size_t k = t.find(s, at); if (k == string::npos) fail(what, ": '", s, "' not found (in order) in the text:\n", t.substr(0, 6000)); at = k + s.size(); }
  string line() { size_t e = t.find('\n', at); string r = t.substr(at, e == string::npos ? e : e - at); at = e == string::npos ? t.size() : e + 1; return r; }
};
string D(double v) { char b[400]; snprintf(b, sizeof b, "%.*g", PREC, v); return b; }
string I(long v) { return std::to_string(v); }
// print twice, once on a fresh and then again on the same stream; stream settings and text must not change
template <class T> string text(Gen& g, const T& x, const string& what) {
  std::ostringstream a, b; a.precision(PREC); b.precision(PREC); auto fl = a.flags();
  gear::operator<<(a, x); REQUIRE(a.good(), what, ": stream"); REQUIRE(a.flags() == fl && a.precision() == PREC, what, ": the number format of the stream was changed"); string t = a.str();
  gear::operator<<(b, x); REQUIRE(b.str() == t, what, ": second text differs"); gear::operator<<(b, x); REQUIRE(b.str() == t + t, what, ": printing twice to one stream differs:\n", b.str());
  return t;
}
void params(Cur& c, const PSpec& p) {
  for (auto& e : p.i) c.find("[int]       " + e.first + " \t " + I(e.second) + "\n");
  for (auto& e : p.d) c.find("[double]    " + e.first + " \t " + D(e.second) + "\n");
  for (auto& e : p.s) c.find("[string]    " + e.first + " \t " + e.second + "\n");
  for (auto& e : p.iv) { string s = "[IntVec]    " + e.first + " \t "; for (int v : e.second) s += I(v) + " , "; c.find(s + "\n"); }
  for (auto& e : p.dv) { string s = "[DoubleVec] " + e.first + " \t "; for (double v : e.second) s += D(v) + " , "; c.find(s + "\n"); }
  for (auto& e : p.sv) { string s = "[StringVec] " + e.first + " \t "; for (auto& v : e.second) s += v + " , "; c.find(s + "\n"); }
}
struct Row { vector<string> s; void d(double v) { s.push_back("#" + num(v)); } void i(int v) { s.push_back(std::to_string(v)); } void t(const string& v) { if (!v.empty()) s.push_back(v); } static string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; } };
// a printed table line: tokens separated by blanks and bars; numbers are compared to the number of printed decimals
void row(Cur& c, const Row& r, const string& what) {
  Gen& g = c.g; string l = c.line(); for (char& ch : l) if (ch == '|' || ch == '`') ch = ' '; std::istringstream i(l); vector<string> tok; string w; while (i >> w) tok.push_back(w);
  REQUIRE(tok.size() == r.s.size(), what, ": ", tok.size(), " values in '", l, "' expected ", r.s.size());
  for (size_t k = 0; k < tok.size(); ++k) {
    if (r.s[k][0] != '#') { REQUIRE(tok[k] == r.s[k], what, " column ", k, ": ", tok[k], " expected ", r.s[k]); continue; }
    double want = strtod(r.s[k].c_str() + 1, 0), unit = 1; char* e; double got = strtod(tok[k].c_str(), &e); size_t dot = tok[k].find('.'); if (dot != string::npos) unit = std::pow(10., -(double)(tok[k].size() - dot - 1));
    REQUIRE(*e == 0 && std::fabs(got - want) <= 0.5 * unit * (1 + 1e-6) + 1e-15 * std::fabs(want), what, " column ", k, ": ", tok[k], " expected ", want);
  }
}
void tableStart(Cur& c) { c.find("---|\n"); }
string textOf(Gen& g, const gear::ZPlanarParameters& p, const ZSpec& z, const string& what) {
  Cur c{g, text(g, p, what), what}; params(c, z.params); c.find("type : "); c.find(z.type == 1 ? " CCD " : z.type == 2 ? " CMOS " : z.type == 3 ? " HYBRID " : " unknown ");
  c.find("Shell innerR : " + D(z.rIn) + " outerR : " + D(z.rOut) + "\n"); c.find("length : " + D(z.half) + " gap " + D(z.gap) + "\n"); c.find("Layers : " + I(z.layers.size()) + "\n"); tableStart(c); tableStart(c);
  for (size_t k = 0; k < z.layers.size(); ++k) { auto& l = z.layers[k]; Row r; r.i(l.n); for (int q : {0, 4, 3, 2}) r.d(l.l[q]); for (int q : {0, 4, 3, 2}) r.d(l.s[q]); row(c, r, what + " layer " + I(k)); }
  REQUIRE(c.line().find("----") != string::npos, what, ": end of table"); return c.t;
}
string textOf(Gen& g, const gear::FTDParameters& p, const FSpec& f, const string& what) {
  Cur c{g, text(g, p, what), what}; c.find("FTDParameters"); params(c, f.params); c.find("Layers : " + I(f.layers.size()) + "\n"); tableStart(c); tableStart(c);
  for (size_t k = 0; k < f.layers.size(); ++k) { auto& l = f.layers[k]; Row r; r.i(l.nPetals); for (int q : {2, 3, 4, 1}) r.d(l.u[q]); for (int q : {2, 3, 4, 1}) r.d(l.s[q]); row(c, r, what + " layer " + I(k)); }
  REQUIRE(c.line().find("----") != string::npos, what, ": end of table"); return c.t;
}
string textOf(Gen& g, const gear::SiPlanesParameters& p, const SiSpec& s, const string& what) {
  Cur c{g, text(g, p, what), what}; c.find("SiPlanesParameters"); params(c, s.params); c.find("Setup ID : " + I(s.id) + "\n"); c.find("Telescope type : "); c.find(s.type == 1 ? " TelescopeWithDUT" : s.type == 2 ? " TelescopeWithoutDUT" : " unknown ");
  c.find("planes : " + I(s.number) + "\n"); c.find("Number of layers : " + I(s.layers.size()) + "\n"); tableStart(c); tableStart(c);
  for (size_t k = 0; k < s.layers.size(); ++k) { auto& l = s.layers[k]; Row r; r.i(l.id); for (int q = 0; q < 9; ++q) r.d(l.l[q]); r.i(l.sid); for (int q : {0, 1, 2, 6, 7, 8}) r.d(l.s[q]); r.i(l.npx); r.i(l.npy); for (int q : {10, 11, 12, 15, 16, 17, 18}) r.d(l.s[q]); row(c, r, what + " layer " + I(k)); }
  REQUIRE(c.line().find("----") != string::npos, what, ": end of table");
  if (s.type == 1) { c.find("DUT parameters"); c.find("Rot4"); tableStart(c); auto& l = s.dut; Row r; r.i(l.id); for (int q : {0, 1, 2, 6, 7, 8}) r.d(l.l[q]); r.i(l.sid); for (int q : {0, 1, 2, 6, 7, 8}) r.d(l.s[q]); r.i(l.npx); r.i(l.npy); for (int q : {10, 11, 15, 16, 17, 18}) r.d(l.s[q]); row(c, r, what + " DUT"); }
  else REQUIRE(c.t.find("DUT parameters") == string::npos, what, ": DUT printed although there is none");
  return c.t;
}
string textOf(Gen& g, const gear::TrackerPlanesParameters& p, const TpSpec& t, const string& what) {
  Cur c{g, text(g, p, what), what}; c.find("TrackerPlanesParameters"); params(c, t.params); c.find("Setup ID : " + I(t.id) + "\n"); c.find("planes : " + I(t.number) + "\n"); c.find("Number of layers : " + I(t.layers.size()) + "\n"); tableStart(c); tableStart(c);
  for (size_t k = 0; k < t.layers.size(); ++k) {
    auto& l = t.layers[k]; { Row r; r.i(l.id); r.t(l.info); row(c, r, what + " layer " + I(k)); }
    for (size_t q = 0; q < l.mat.size(); ++q) { auto& m = l.mat[q]; Row r; r.i(m.id); r.t(m.info); for (double v : m.v) r.d(v); row(c, r, what + " layer " + I(k) + " ladder " + I(q)); }
    for (size_t q = 0; q < l.sens.size(); ++q) { auto& m = l.sens[q]; Row r; r.i(m.id); r.t(m.info); for (double v : m.v) r.d(v); r.i(m.npx); r.i(m.npy); for (double v : m.w) r.d(v); row(c, r, what + " layer " + I(k) + " sensitive " + I(q)); }
  }
  REQUIRE(c.line().find("----") != string::npos, what, ": end of table"); return c.t;
}
string textOf(Gen& g, const gear::CalorimeterParameters& p, const CalSpec& s, const string& what) {
  Cur c{g, text(g, p, what), what}; params(c, s.params); c.find(s.barrel ? "calorimeter type:  barrel" : "calorimeter type:  endcap"); c.find("symmetry order:  " + I(s.sym) + "\n"); c.find("phi0:            " + D(s.phi0) + "\n");
  const auto& e = p.getExtent(); c.find("rMin:      " + D(e[0]) + "\n"); c.find("rMax:      " + D(e[1]) + "\n"); c.find("zMin:      " + D(e[2]) + "\n"); c.find("zMax:      " + D(e[3]) + "\n"); c.find("#total " + I(s.layers.size()) + "\n");
  // layers: one line where the thicknesses change and for the last layer (others may be abbreviated)
  const auto& y = p.getLayerLayout(); int last = -1, n = (int)s.layers.size(); vector<char> shown(n, 0);
  while (c.t.compare(c.at, 11, "       id: ") == 0) {
    string l = c.line(); int k = atoi(l.c_str() + 11); REQUIRE(k > last && k < n, what, ": layer line '", l, "' after layer ", last); last = k; shown[k] = 1;
    string want = "       id: " + I(k) + " thickness: " + D(y.getThickness(k)) + " absorber thickness: " + D(y.getAbsorberThickness(k)) + " distance: " + D(y.getDistance(k)) + " cellsize-0: " + D(y.getCellSize0(k)) + " cellsize-1: " + D(y.getCellSize1(k)); REQUIRE(l == want, what, ": '", l, "' expected '", want, "'");
  }
  for (int k = 0; k < n; ++k) { auto& l = s.layers[k]; bool changed = k ? l.thick != s.layers[k - 1].thick || l.abs != s.layers[k - 1].abs : l.thick != 0 || l.abs != 0; if (changed || k == n - 1) REQUIRE(shown[k], what, ": layer ", k, " is not printed:\n", c.t); }
  return c.t;
}
string textOf(Gen& g, const gear::BField& b, const BSpec& s) {
  Cur c{g, text(g, b, "BField"), "BField"}; c.find("Bx = " + D(s.v[0]) + " , By = " + D(s.v[1]) + " , Bz = " + D(s.v[2]) + " "); params(c, s.params); return c.t;
}
string typeName(int t) { return t == gear::PadRowLayout2D::POLAR ? "polar" : "cartesian"; }
string textOf(Gen& g, const gear::TPCParameters& p, const TSpec& s) {
  Cur c{g, text(g, p, "TPC"), "TPC"}; params(c, s.params); c.find("maxDriftLength :      " + D(s.drift) + "\n"); c.find("coordinateType :      " + string(s.polar ? "polar" : "cartesian") + "\n"); c.find("Number of modules :   " + I(s.mods.size()) + "\n");
  for (size_t k = 0; k < s.mods.size(); ++k) {
    const gear::TPCModule& m = *p.getModules()[k]; string what = "module " + I(k); Cur d{g, text(g, m, what), what}; d.find("TPCModule"); params(d, s.modPar[k]);
    d.find("Readout frequency :   " + D(s.mods[k].freq) + "\n"); d.find("Type :                 " + typeName(m.getLocalPadLayout().getCoordinateType()) + "\n"); d.find("Number of pads :      " + I(m.getNPads()) + "\n"); d.find("Number of Rows :      " + I(m.getNRows()) + "\n");
    d.find("Offset :              " + D(s.mods[k].o0) + "  ;  " + D(s.mods[k].o1) + "\n"); if (s.mods[k].hasZ) d.find("zPosition :           " + D(s.mods[k].z) + "\n"); else d.find("no z Position set"); d.find("Angle :               " + D(s.mods[k].angle) + "\n");
    const auto& e = m.getPlaneExtent(); d.find("[" + D(e[0]) + "," + D(e[1]) + "," + D(e[2]) + "," + D(e[3]) + "]\n"); c.find(d.t);
  }
  return c.t;
}
string word(Gen& g) { return g.chance(1, 4) ? string() : g.chance(1, 10) ? g.str(alnum(), 1, 3000) : ident(g); }
}

PROP(print, 20000, 600000) {
  PREC = g.pick<int>({6, 6, 3, 12, 17, 1});
  GSpec s; if (g.boolean()) { s.hasName = true; s.name = anyText(g, false); } int det = 0;
  auto want = [&]() { bool b = g.chance(1, 3); det += b; return b; };
  if (want()) s.b.reset(new BSpec(genB(g)));
  if (want()) s.tpc.reset(new TSpec(genTPC(g)));
  for (int k = 0; k < NCAL; ++k) if (g.chance(1, 5)) { s.cal[k].reset(new CalSpec(genCal(g, k))); ++det; }
  for (int k = 0; k < 3; ++k) if (want()) { s.z[k].reset(new ZSpec(genZ(g, anyNum))); s.z[k]->params = genParams(g, 3); if (g.chance(1, 8)) s.z[k]->type = anyInt(g); }
  if (want()) { s.ftd.reset(new FSpec(genF(g, anyNum))); s.ftd->params = genParams(g, 3); }
  if (want()) { s.tp.reset(new TpSpec(genTp(g, anyNum, word))); s.tp->params = genParams(g, 3); }
  if (want()) { s.si.reset(new SiSpec(genSi(g, anyNum))); s.si->params = genParams(g, 3); }
  int n = g.many(0, 3, 40); for (int k = 0; k < n; ++k) s.named[g.boolean() ? ident(g) : anyText(g)] = genParams(g);
  n = g.many(0, 4, 60); for (int k = 0; k < n; ++k) s.mats[g.boolean() ? ident(g) : anyText(g)] = genMat(g);
  complete(s); g.note(show(s)); std::unique_ptr<gear::GearMgr> m(build(s, g)); const gear::GearMgr& mgr = *m;
  Cur c{g, text(g, mgr, "manager"), "manager"};
  c.find("DetectorName"); if (s.hasName) c.find(s.name + "\n"); else c.find("NOT FOUND");
  if (s.b) c.find(textOf(g, mgr.getBField(), *s.b)); else { c.find("BField"); c.find("NOT FOUND"); }
  auto z = [&](int k) { if (s.z[k]) { c.find("----  " + string(ZNAME[k]) + "    ----"); string t = textOf(g, zGet(mgr, k), *s.z[k], ZNAME[k]); c.find(t); } };
  z(0); if (s.ftd) c.find(textOf(g, mgr.getFTDParameters(), *s.ftd, "FTD")); z(1); z(2);
  if (s.tpc) c.find(textOf(g, mgr.getTPCParameters(), *s.tpc));
  static const char* const TITLE[NCAL] = {"Ecal barrel", "Ecal endcap", "Ecal plug", "Yoke barrel", "Yoke endcap", "Yoke plug", "Hcal barrel", "Hcal endcap", "Hcal ring", "Lcal", "LHcal", "BeamCal"};
  for (int k = 0; k < NCAL; ++k) if (s.cal[k]) { c.find("----  " + string(TITLE[k]) + " "); c.find(textOf(g, calGet(mgr, k), *s.cal[k], CALNAME[k])); }
  if (s.tp) { c.find("----  TrackerPlanes ----"); c.find(textOf(g, mgr.getTrackerPlanesParameters(), *s.tp, "TrackerPlanes")); }
  if (s.si) { c.find("----  SiPlanes ----"); c.find(textOf(g, mgr.getSiPlanesParameters(), *s.si, "SiPlanes")); }
  c.find("parameter sections");
  for (auto& k : mgr.getGearParameterKeys()) { c.find("name : " + k + " ------- \n"); auto& p = s.named.at(k); Cur d{g, text(g, mgr.getGearParameters(k), "set " + k), "set " + k}; params(d, p); c.find(d.t); }
  c.find("materials");
  for (auto& k : mgr.getMaterialNames()) { auto& v = s.mats.at(k).v; char b[600]; snprintf(b, sizeof b, ", A= %+.8e, Z= %+.8e, density [kg/m3]= %+.8e, radiation length [mm]= %+.8e, interaction length [mm]= %+.8e\n", v[0], v[1], v[2], v[3], v[4]); Cur d{g, text(g, mgr.getSimpleMaterial(k), "material"), "material"}; d.find("    " + k + b); c.find(d.t); }
  geom::compare(g, mgr, s, -1);
  g.nontrivial(det + s.named.size() + s.mats.size() >= 2);
}

// the installed program printParameters prints what the geometry in the file prints as
PROP(print_program, 700, 20000) {
  PREC = 6; GSpec s = xmlw::genGeo(g, 4); string f = pbt::scratch() + "/p.xml"; std::unique_ptr<gear::GearMgr> m(build(s, g)), back; { Quiet q; gear::GearXML::createXMLFile(m.get(), f); gear::GearXML x(f); back.reset(x.createGearMgr()); }
  g.note(show(s)); std::ostringstream want; want << *back; string out; int c = program("printParameters", {f}, out);
  REQUIRE(c == 0, "the program fails with ", c, ": ", out); REQUIRE(out.find(want.str()) != string::npos, "the program prints\n", out, "\nthe geometry prints as\n", want.str());
  if (g.chance(1, 20)) { c = program("printParameters", {}, out); REQUIRE(c > 0 && c < 77 && out.find("usage") != string::npos, "no file name: exit code ", c, ": ", out); }
  if (g.chance(1, 20)) { string h = pbt::scratch() + "/missing.xml"; c = program("printParameters", {h}, out); REQUIRE(c > 0 && c < 77 && out.find("xception") != string::npos, "missing file: exit code ", c, ": ", out); }
  g.nontrivial(xmlw::parts(s) >= 2);
}
