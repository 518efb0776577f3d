// P03, P04, P05: XML round trips through files
#include "geom.h"
#include "gearxml/GearXML.h"
using namespace geom;

static string slurp(const string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void roundTrip(Gen& g, GSpec& s) {
  complete(s); g.note(show(s));
  Quiet q; string f1 = pbt::scratch() + "/a.xml", f2 = pbt::scratch() + "/b.xml"; remove(f1.c_str()); remove(f2.c_str());
  std::unique_ptr<gear::GearMgr> m(build(s, g)); gear::GearXML::createXMLFile(m.get(), f1); string t1 = slurp(f1); REQUIRE(!t1.empty(), "nothing written"); g.note("file:\n", t1);
  std::unique_ptr<gear::GearMgr> r; { gear::GearXML x(f1); r.reset(x.createGearMgr()); REQUIRE(x.createGearMgr() == r.get(), "second call gives another manager"); }
  if (!s.hasName) { s.hasName = true; s.name = "Unknown"; }
  compare(g, *r, s, WTOL);
  gear::GearXML::createXMLFile(r.get(), f2); string t2 = slurp(f2);
  if (t1 != t2) { size_t k = 0; while (k < t1.size() && k < t2.size() && t1[k] == t2[k]) ++k; fail("second file differs at byte ", k, ": ...", t1.substr(k > 40 ? k - 40 : 0, 80), "... became ...", t2.substr(k > 40 ? k - 40 : 0, 80)); }
  ++g.evals;
}
static void frame(Gen& g, GSpec& s) { if (g.boolean()) { s.hasName = true; s.name = anyText(g, false); } }

PROP(xml_calo, 20000, 150000) {
  GSpec s; frame(g, s); if (g.boolean()) s.b.reset(new BSpec(genB(g)));
  int n = g.size(0, 6); for (int k = 0; k < n; ++k) { int c = (int)g.draw(NCAL); s.cal[c].reset(new CalSpec(genCal(g, c))); }
  n = g.many(0, 4, 60); for (int k = 0; k < n; ++k) s.named[g.boolean() ? ident(g) : anyText(g)] = genParams(g);
  n = g.many(0, 5, 100); for (int k = 0; k < n; ++k) s.mats[g.boolean() ? ident(g) : anyText(g)] = genMat(g);
  int det = 0; for (auto& c : s.cal) if (c) { ++det; if (c->layers.size() > 1) g.label("several layers"); }
  roundTrip(g, s); g.nontrivial(det + s.named.size() + s.mats.size() >= 2); if (s.b) g.label("field");
}
PROP(xml_trackers, 10000, 120000) {
  GSpec s; frame(g, s); int det = 0;
  for (int k = 0; k < 3; ++k) if (g.boolean()) { s.z[k].reset(new ZSpec(genZ(g, anyNum))); s.z[k]->params = genParams(g, 3); ++det; }
  if (g.boolean()) { s.ftd.reset(new FSpec(genF(g, anyNum))); s.ftd->params = genParams(g, 3); ++det; }
  if (g.boolean()) { s.tp.reset(new TpSpec(genTp(g, anyNum, [](Gen& q) { return anyText(q); }))); s.tp->params = genParams(g, 3); ++det; }
  if (g.boolean()) { s.si.reset(new SiSpec(genSi(g, anyNum))); s.si->params = genParams(g, 3); ++det; }
  roundTrip(g, s); g.nontrivial(det >= 1);
}
PROP(xml_tpc, 20000, 120000) {
  GSpec s; frame(g, s); s.tpc.reset(new TSpec(genTPC(g)));
  for (auto& m : s.tpc->mods) g.label(m.lay.kind == RECT ? "rectangular" : m.lay.kind == SIZE ? "fixed size" : m.lay.kind == ANGLE ? "fixed angle" : "versatile");
  g.label(s.tpc->polar ? "polar" : "cartesian"); if (s.tpc->plain) g.label("plain pad plane");
  roundTrip(g, s); g.nontrivial(s.tpc->mods.size() >= 1);
}
