// P06: independently written files are read as they say
#include "xmlw.h"
#include "gearxml/GearXML.h"
using namespace xmlw;

static void readAndCompare(Gen& g, GSpec& s, const string& text) {
  complete(s); g.note(show(s)); g.note("file:\n", text);
  string f = pbt::scratch() + "/r.xml"; spit(f, text); Quiet q;
  gear::GearXML x(f); std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); REQUIRE(x.createGearMgr() == m.get(), "second call gives another manager");
  compare(g, *m, s, -1);
}
PROP(read_file, 16000, 300000) {
  GSpec s = genGeo(g); X r = rootX(g, s); int n = parts(s);
  for (auto& k : r.kids) if (k.name == "detectors") while (g.chance(1, 8)) { k.kids.insert(k.kids.begin() + g.draw(k.kids.size() + 1), untyped(g)); g.label("untyped detector"); }
  if (g.chance(1, 8)) { X d("GDMLFile"); d.a("name", ident(g) + ".gdml"); r.kids.insert(r.kids.begin() + g.draw(r.kids.size() + 1), d); g.label("GDML file without plugin"); }
  decorate(g, r); readAndCompare(g, s, document(g, r)); g.nontrivial(n >= 2);
}
PROP(read_tpc, 10000, 200000) {
  GSpec s; s.tpc.reset(new TSpec(genTPC(g))); X r = rootX(g, s); decorate(g, r); readAndCompare(g, s, document(g, r)); g.nontrivial(s.tpc->mods.size() >= 2 || s.tpc->plain);
}
// unknown type or no list of detectors: parse error, and no geometry
PROP(read_refused, 3000, 30000) {
  GSpec s = genGeo(g); X r = rootX(g, s); bool done = false; string what;
  if (g.boolean()) {
    for (auto& k : r.kids) if (k.name == "detectors") {
      string t = g.pick<string>({"", "Calorimeter", "TPCparameters", "tpcparameters", "GearParameters ", "UNKOWN", "FTDParametersX", "CalorimeterParametersImpl", "ZPlanar", " "}); if (g.chance(1, 4)) t = anyText(g);
      static const std::set<string> known = {"GearParameters", "TPCParameters", "CalorimeterParameters", "ZPlanarParameters", "VXDParameters", "FTDParameters", "SiPlanesParameters", "TrackerPlanesParameters"}; if (known.count(t)) t = "x";
      X d("detector"); d.a("name", ident(g)).a("geartype", t); if (g.boolean()) d.kid(param(g, "p", "int", "1", false)); k.kids.insert(k.kids.begin() + g.draw(k.kids.size() + 1), d); what = "unknown type '" + t + "'"; done = true; }
    decorate(g, r);
  } else {
    decorate(g, r); what = "no detectors";
    for (auto& k : r.kids) if (k.name == "detectors" && !done) { done = true; switch (g.draw(4)) { case 0: k.name = "detector"; break; case 1: k.name = "Detectors"; break; case 2: { X q("wrap"); X in = k; q.kid(in); k = q; break; } default: k = X(); k.k = X::COMM; k.name = "detectors"; } }
  }
  if (!done) g.discard(); string text = document(g, r), f = pbt::scratch() + "/r.xml"; g.note(what, "\n", text); spit(f, text); Quiet q; g.nontrivial();
  gear::GearXML x(f); REQ_THROWS(gear::ParseException, x.createGearMgr(), what); REQ_THROWS(gear::ParseException, x.createGearMgr(), what, " (second call)");
}
