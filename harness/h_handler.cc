// P27: element handlers: found by type name, replaceable, one element at a time with or without a manager
#include "xmlw.h"
#include "gearxml/GearXML.h"
#include "gearxml/tinyxml.h"
#include "gearxml/XMLHandlerMgr.h"
#include "gearxml/GearParametersXML.h"
#include "gearxml/TPCParametersXML.h"
#include "gearxml/CalorimeterParametersXML.h"
#include "gearxml/ZPlanarParametersXML.h"
#include "gearxml/FTDParametersXML.h"
#include "gearxml/TrackerPlanesParametersXML.h"
#include "gearxml/SiPlanesParametersXML.h"
#include "gearxml/ConstantBFieldXML.h"
#include "gearxml/SimpleMaterialXML.h"
#include "gearxml/PadRowLayout2DXML.h"
#include <typeinfo>
using namespace xmlw; using gear::TiXmlElement; using gear::XMLHandler; using gear::XMLHandlerMgr; using gear::GearParameters;

static const char* const TYPES[7] = {"GearParameters", "TPCParameters", "CalorimeterParameters", "ZPlanarParameters", "FTDParameters", "TrackerPlanesParameters", "SiPlanesParameters"};
static XMLHandler* builtin(int k) {
  switch (k) { case 0: return new gear::GearParametersXML; case 1: return new gear::TPCParametersXML; case 2: return new gear::CalorimeterParametersXML; case 3: return new gear::ZPlanarParametersXML;
    case 4: return new gear::FTDParametersXML; case 5: return new gear::TrackerPlanesParametersXML; default: return new gear::SiPlanesParametersXML; }
}
static bool isBuiltin(const XMLHandler* h, int k) {
  switch (k) { case 0: return dynamic_cast<const gear::GearParametersXML*>(h); case 1: return dynamic_cast<const gear::TPCParametersXML*>(h); case 2: return dynamic_cast<const gear::CalorimeterParametersXML*>(h); case 3: return dynamic_cast<const gear::ZPlanarParametersXML*>(h);
    case 4: return dynamic_cast<const gear::FTDParametersXML*>(h); case 5: return dynamic_cast<const gear::TrackerPlanesParametersXML*>(h); default: return dynamic_cast<const gear::SiPlanesParametersXML*>(h); }
}
#define NEED(c, ...) do { if (!(c)) pbt::fail(#c " is false: ", ##__VA_ARGS__); } while (0)
static const XMLHandler& H(int k) { const XMLHandler* h = XMLHandlerMgr::instance()->getHandler(TYPES[k]); NEED(h, "no handler for ", TYPES[k]); NEED(isBuiltin(h, k), "wrong handler for ", TYPES[k]); return *h; }

// ---- one element at a time ----
struct Part { int type; string name; const GearParameters* obj; std::function<void(gear::GearMgr&, GearParameters*)> put; std::function<const GearParameters*(const gear::GearMgr&)> get; };
static vector<Part> partsOf(const GSpec& s, const gear::GearMgr& m) {
  vector<Part> v;
  if (s.tpc) v.push_back({1, "TPC", &m.getTPCParameters(), [](gear::GearMgr& x, GearParameters* p) { auto* q = dynamic_cast<gear::TPCParameters*>(p); NEED(q, "not TPC parameters"); x.setTPCParameters(q); }, [](const gear::GearMgr& x) { return (const GearParameters*)&x.getTPCParameters(); }});
  for (int k = 0; k < NCAL; ++k) if (s.cal[k]) v.push_back({2, CALNAME[k], &calGet(m, k), [k](gear::GearMgr& x, GearParameters* p) { auto* q = dynamic_cast<gear::CalorimeterParameters*>(p); NEED(q, "not calorimeter parameters"); calSet(x, k, q); }, [k](const gear::GearMgr& x) { return (const GearParameters*)&calGet(x, k); }});
  for (int k = 0; k < 3; ++k) if (s.z[k]) v.push_back({3, ZNAME[k], &zGet(m, k), [k](gear::GearMgr& x, GearParameters* p) { auto* q = dynamic_cast<gear::ZPlanarParameters*>(p); NEED(q, "not ladder parameters"); zSet(x, k, q); }, [k](const gear::GearMgr& x) { return (const GearParameters*)&zGet(x, k); }});
  if (s.ftd) v.push_back({4, "FTD", &m.getFTDParameters(), [](gear::GearMgr& x, GearParameters* p) { auto* q = dynamic_cast<gear::FTDParameters*>(p); NEED(q, "not FTD parameters"); x.setFTDParameters(q); }, [](const gear::GearMgr& x) { return (const GearParameters*)&x.getFTDParameters(); }});
  if (s.tp) v.push_back({5, "TrackerPlanes", &m.getTrackerPlanesParameters(), [](gear::GearMgr& x, GearParameters* p) { auto* q = dynamic_cast<gear::TrackerPlanesParameters*>(p); NEED(q, "not plane parameters"); x.setTrackerPlanesParameters(q); }, [](const gear::GearMgr& x) { return (const GearParameters*)&x.getTrackerPlanesParameters(); }});
  if (s.si) v.push_back({6, "SiPlanes", &m.getSiPlanesParameters(), [](gear::GearMgr& x, GearParameters* p) { auto* q = dynamic_cast<gear::SiPlanesParameters*>(p); NEED(q, "not plane parameters"); x.setSiPlanesParameters(q); }, [](const gear::GearMgr& x) { return (const GearParameters*)&x.getSiPlanesParameters(); }});
  for (auto& e : s.named) { string n = e.first; v.push_back({0, n, &m.getGearParameters(n), [n](gear::GearMgr& x, GearParameters* p) { x.setGearParameters(n, p); }, [n](const gear::GearMgr& x) { return &x.getGearParameters(n); }}); }
  return v;
}
PROP(one_element, 8000, 120000) {
  GSpec s = genGeo(g, 5); complete(s); g.note(show(s)); Quiet q; std::unique_ptr<gear::GearMgr> m(build(s, g)); gear::GearMgrImpl a, b; if (s.hasName) { a.setDetectorName(s.name); b.setDetectorName(s.name); }
  auto v = partsOf(s, *m); for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g.draw(k)]);
  for (auto& p : v) {
    TiXmlElement e = H(p.type).toXML(*p.obj); REQUIRE(string(e.Value()) == "detector", "element is called ", e.Value());
    if (p.type != 0 && p.type != 2 && p.type != 3 && g.boolean()) { if (g.boolean()) e.SetAttribute("name", anyText(g)); }   // only the calorimeters, ladder trackers and named sets are told apart by name
    else { if (g.boolean()) { std::unique_ptr<GearParameters> r(H(p.type).fromXML(&e)); REQUIRE(r.get() != 0, p.name, ": nothing returned without name"); } e.SetAttribute("name", p.name); }
    bool first = g.boolean();
    for (int t = 0; t < 2; ++t) if ((t == 0) == first) { GearParameters* r = g.boolean() ? H(p.type).fromXML(&e) : H(p.type).fromXML(&e, 0); REQUIRE(r != 0, p.name, ": nothing returned"); p.put(a, r); REQUIRE(p.get(a) == r, p.name); }
      else { GearParameters* r = H(p.type).fromXML(&e, &b); REQUIRE(r != 0, p.name, ": nothing returned"); REQUIRE(p.get(b) == r, p.name, ": the manager holds another object than the one returned"); }
  }
  if (s.b) {
    gear::ConstantBFieldXML h; TiXmlElement e = h.toXML(m->getBField()); REQUIRE(string(e.Value()) == "BField", "element is called ", e.Value());
    GearParameters* r = h.fromXML(&e, 0); auto* f = dynamic_cast<gear::BField*>(r); REQUIRE(f != 0, "no field returned"); a.setBField(f); r = h.fromXML(&e, &b); REQUIRE((const GearParameters*)&b.getBField() == r, "another field than the one returned");
  }
  for (auto& t : s.mats) {
    gear::SimpleMaterialXML h; TiXmlElement e = h.toXML(m->getSimpleMaterial(t.first)); REQUIRE(string(e.Value()) == "material", "element is called ", e.Value());
    gear::SimpleMaterial* r = h.fromXML(&e, 0); REQUIRE(r != 0, "no material returned"); a.registerSimpleMaterial(r); r = h.fromXML(&e, &b); REQUIRE(&b.getSimpleMaterial(t.first) == r, "another material than the one returned");
  }
  g.note("read without manager"); compare(g, a, s, WTOL); g.note("read with manager"); compare(g, b, s, WTOL); compare(g, *m, s, -1);
  g.nontrivial(v.size() >= 2);
}
// ---- parameters of another kind are refused ----
struct OtherField : gear::GearParametersImpl, gear::BField { gear::Vector3D at(gear::Vector3D p) const { return p; } };
static GearParameters* sample(Gen& g, int k) {   // 0..6 as TYPES, 7: constant field, 8: another field
  switch (k) { case 0: { auto* p = new gear::GearParametersImpl(); fill(*p, genParams(g, 3)); return p; } case 1: return build(genTPC(g), g); case 2: return build(genCal(g, 9)); case 3: return model::build(genZ(g, anyNum)); case 4: return model::build(genF(g, anyNum));
    case 5: return model::build(genTp(g, anyNum, [](Gen& q) { return anyText(q); })); case 6: return model::build(genSi(g, anyNum)); case 7: { auto b = genB(g); return new gear::ConstantBField(gear::Vector3D(b.v[0], b.v[1], b.v[2])); } default: return new OtherField; }
}
PROP(wrong_kind, 4000, 60000) {
  Quiet q; int k = (int)g.draw(9), h = (int)g.integer(1, 7); std::unique_ptr<GearParameters> p(sample(g, k)); g.note("parameters of kind ", k, " given to handler ", h); gear::ConstantBFieldXML field; const XMLHandler& x = h == 7 ? (const XMLHandler&)field : H(h);
  if (k == h) { TiXmlElement e = x.toXML(*p); REQUIRE(string(e.Value()) == (h == 7 ? "BField" : "detector"), "element is called ", e.Value()); g.label("right kind"); }
  else { REQ_THROWS(gear::Exception, x.toXML(*p), "kind ", k, " handler ", h); g.nontrivial(); }
  TiXmlElement e = H(0).toXML(*p); REQUIRE(string(e.Value()) == "detector", "any parameters can be written as a named set");
  // pad layouts
  static const char* const LT[4] = {"RectangularPadRowLayout", "FixedPadSizeDiskLayout", "FixedPadAngleDiskLayout", "VersatileDiskRowLayout"}; static const Kind KIND[4] = {RECT, SIZE, ANGLE, VERS};
  int a = (int)g.draw(4), b = (int)g.draw(4); std::unique_ptr<gear::PadRowLayout2D> l(pads::build(genLayout(g, KIND[a]), g, false)); auto* lh = gear::PadRowLayout2DXML::getHandler(LT[b]); REQUIRE(lh != 0, "no handler for ", LT[b]); REQUIRE(gear::PadRowLayout2DXML::getHandler(LT[b]) == lh, "another handler for ", LT[b]); g.note(LT[a], " given to the handler of ", LT[b]);
  REQUIRE((gear::PadRowLayout2DXML::getHandler(l.get()) == lh) == (a == b), "handler of ", LT[a], " and of ", LT[b]);
  if (a == b) { TiXmlElement y = lh->toXML(l.get()); REQUIRE(string(y.Value()) == "PadRowLayout2D" && y.Attribute("type") && string(y.Attribute("type")) == LT[a], "element is ", y.Value()); } else REQ_THROWS(gear::ParseException, lh->toXML(l.get()), LT[a], " written by handler of ", LT[b]);
  string bad = g.pick<string>({"", "x", "UNKNOWN", "rectangularpadrowlayout", "VersatileDiskRowLayout ", "TPCModule"}); REQUIRE(gear::PadRowLayout2DXML::getHandler(bad) == 0, "handler for '", bad, "'");
  // a geometry holding a field that cannot be written is refused
  if (g.chance(1, 8)) { gear::GearMgrImpl m; m.setBField(new OtherField); string f = pbt::scratch() + "/w.xml"; remove(f.c_str()); REQ_THROWS(gear::Exception, (gear::GearXML::createXMLFile(&m, f), 0), "field of unknown kind"); REQ_THROWS(gear::Exception, (gear::GearXML::createXMLFile(0, f), 0), "no manager"); }
}
// ---- the list of handlers ----
namespace {
struct Call { int id; string name; const TiXmlElement* e; gear::GearMgr* m; size_t kids; };
struct Log { std::map<int, int> alive; vector<Call> calls; vector<const TiXmlElement*> seen; bool refuse = false; };
Log& logOf() { static Log* l = new Log; return *l; }
struct Own : XMLHandler {
  int id; explicit Own(int k) : id(k) { ++logOf().alive[id]; } ~Own() { --logOf().alive[id]; }
  TiXmlElement toXML(const GearParameters&) const { return TiXmlElement("detector"); }
  GearParameters* fromXML(const TiXmlElement* e, gear::GearMgr* m) const {
    size_t n = 0; for (const gear::TiXmlNode* k = e->FirstChild(); k; k = k->NextSibling()) if (k->ToElement()) ++n;
    logOf().calls.push_back({id, gear::getXMLAttribute(e, "name"), e, m, n}); if (logOf().refuse) throw gear::ParseException("refused by handler " + std::to_string(id));
    auto* p = new gear::GearParametersImpl; p->setIntVal("handled by", id); if (m) m->setGearParameters(gear::getXMLAttribute(e, "name"), p); return p;
  }
};
struct Restore { ~Restore() { for (int k = 0; k < 7; ++k) XMLHandlerMgr::instance()->setHandler(TYPES[k], builtin(k)); } };
}
PROP(registry, 6000, 100000) {
  static int serial = 0, ids = 0; Quiet q; Restore restore; auto* M = XMLHandlerMgr::instance(); REQUIRE(XMLHandlerMgr::instance() == M, "another instance"); string pre = "case" + std::to_string(serial++) + "_";   // names that no earlier case used
  vector<string> names(TYPES, TYPES + 7); int n = g.size(1, 6); for (int k = 0; k < n; ++k) { string t = pre + (g.boolean() ? ident(g) : anyText(g)); if (std::find(names.begin(), names.end(), t) == names.end()) names.push_back(t); } string absent = pre + "-never";
  std::map<string, int> model; std::map<int, const XMLHandler*> ptr; vector<int> gone; logOf() = Log(); int used = 0, replaced = 0, ops = g.size(2, 14);
  auto look = [&](const string& t) {
    const XMLHandler* h = M->getHandler(t); auto it = model.find(t);
    if (it != model.end()) { REQUIRE(h == ptr[it->second], "type '", t, "': not the handler set last"); return; }
    for (int k = 0; k < 7; ++k) if (t == TYPES[k]) { REQUIRE(h && isBuiltin(h, k), "type ", t, ": not the handler of this type"); return; }
    REQUIRE(h == 0, "handler for the unknown type '", t, "'");
  };
  for (int o = 0; o < ops; ++o) {
    string t = g.pick(names);
    switch (g.draw(5)) {
      case 0: case 1: { int id = ++ids; auto* h = new Own(id); auto it = model.find(t); if (it != model.end()) { gone.push_back(it->second); ++replaced; } g.note("set handler ", id, " for '", t, "'"); M->setHandler(t, h); model[t] = id; ptr[id] = h; break; }
      case 2: if (g.boolean() && model.count(t)) { g.note("set the same handler for '", t, "'"); M->setHandler(t, const_cast<XMLHandler*>(ptr[model[t]])); break; } g.note("set no handler for '", t, "'"); M->setHandler(t, 0); break;
      case 3: { // read a file
        GSpec s; s.hasName = true; s.name = "d"; X r = rootX(g, s); vector<std::pair<string, string>> want; vector<size_t> kids; vector<std::pair<string, int>> sets; bool unknown = false; int stop = -1;
        for (auto& d : r.kids) if (d.name == "detectors") { int m = g.size(1, 8); for (int k = 0; k < m; ++k) {
          string ty = g.pick(names); auto it = model.find(ty); bool own = it != model.end(); if (!own && ty.compare(0, pre.size(), pre) && ty != "GearParameters") continue;
          string nm = "s" + std::to_string(k); X x("detector"); string wr = ty; if (own && ty == "ZPlanarParameters" && g.boolean()) wr = "VXDParameters"; x.a("name", nm).a("geartype", wr); int c = own ? (int)g.draw(4) : 0; for (int i = 0; i < c; ++i) x.kid(X(g.boolean() ? "layer" : "x" + ident(g)));
          d.kid(x); if (own) { if (!unknown) { want.push_back({nm, ty}); kids.push_back(c); } } else if (ty != "GearParameters") unknown = true; } }
        vector<std::pair<string, string>> order = want; bool refuse = g.chance(1, 6) && !want.empty(); (void)stop; logOf().calls.clear(); logOf().refuse = refuse; string text = document(g, r), f = pbt::scratch() + "/h.xml"; g.note("read", refuse ? " (handlers refuse)" : "", "\n", text); spit(f, text); gear::GearXML x(f); ++used;
        if (refuse) { string w; try { x.createGearMgr(); fail("read although the handler refused"); } catch (gear::ParseException& e) { w = e.what(); } REQUIRE(w.find("refused by handler " + std::to_string(model[want[0].second])) != string::npos, "error is: ", w); REQUIRE(logOf().calls.size() == 1, "handlers called after the first refusal: ", logOf().calls.size()); }
        else if (unknown) { REQ_THROWS(gear::ParseException, x.createGearMgr(), "unknown type"); }
        else {
          std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); auto& c = logOf().calls; REQUIRE(c.size() == want.size(), "own handlers called ", c.size(), " times, expected ", want.size());
          for (size_t k = 0; k < c.size(); ++k) { REQUIRE(c[k].name == want[k].first && c[k].id == model[want[k].second], "call ", k, " was handler ", c[k].id, " for '", c[k].name, "'"); REQUIRE(c[k].m == m.get(), "handler was given another manager"); REQUIRE(c[k].kids == kids[k], "children of '", c[k].name, "': ", c[k].kids); REQ_EQ(m->getGearParameters(c[k].name).getIntVal("handled by"), c[k].id); }
          REQUIRE(x.createGearMgr() == m.get() && c.size() == want.size(), "second call reads again");
        }
        logOf().refuse = false; break; }
      default: look(t); look(absent);
    }
    for (auto& e : model) REQUIRE(logOf().alive[e.second] == 1, "handler ", e.second, " for '", e.first, "' was destroyed"); for (int d : gone) REQUIRE(logOf().alive[d] == 0, "replaced handler ", d, " still exists");
  }
  for (auto& t : names) look(t); look(absent);
  g.nontrivial(used && !model.empty()); if (replaced) g.label("own handler replaced");
}
// ---- attribute helpers used by handlers ----
PROP(helpers, 8000, 120000) {
  std::map<string, string> at; gear::TiXmlDocument doc; TiXmlElement root("e"); int n = g.size(0, 5); for (int k = 0; k < n; ++k) { string a = ident(g), v = anyText(g); at[a] = v; root.SetAttribute(a, v); }
  std::map<string, std::pair<bool, string>> ch; n = g.size(0, 5);
  for (int k = 0; k < n; ++k) { string c = g.boolean() && !at.empty() ? at.begin()->first : ident(g); bool has = !g.chance(1, 4); string v = anyText(g); TiXmlElement e(c); if (has) e.SetAttribute("value", v); else if (g.boolean()) e.SetAttribute("Value", v); if (g.chance(1, 4)) { gear::TiXmlComment cm; cm.SetValue(c); root.InsertEndChild(cm); } root.InsertEndChild(e); if (!ch.count(c)) ch[c] = {has, v}; }
  doc.InsertEndChild(root); const gear::TiXmlNode* el = doc.RootElement(); string def = anyText(g); vector<string> keys = {"value", "name", ident(g)}; for (auto& e : at) keys.push_back(e.first); for (auto& e : ch) keys.push_back(e.first);
  for (auto& k : keys) {
    g.note("name ", k);
    if (at.count(k)) { REQ_EQ(gear::getXMLAttribute(el, k), at[k]); REQ_EQ(gear::getOptionalXMLAttribute(el, k, def), at[k]); } else { REQ_THROWS(gear::ParseException, gear::getXMLAttribute(el, k), k); REQ_EQ(gear::getOptionalXMLAttribute(el, k, def), def); }
    if (!ch.count(k)) { REQ_THROWS(gear::ParseException, gear::getChildElementValue(el, k), k); REQ_EQ(gear::getOptionalChildElementValue(el, k, def), def); }
    else if (ch[k].first) { REQ_EQ(gear::getChildElementValue(el, k), ch[k].second); REQ_EQ(gear::getOptionalChildElementValue(el, k, def), ch[k].second); }
    else { REQ_THROWS(gear::ParseException, gear::getChildElementValue(el, k), k); REQ_THROWS(gear::ParseException, gear::getOptionalChildElementValue(el, k, def), k); }
    gear::TiXmlText text(k); for (const gear::TiXmlNode* no : {(const gear::TiXmlNode*)0, (const gear::TiXmlNode*)&text, (const gear::TiXmlNode*)&doc}) { REQ_THROWS(gear::ParseException, gear::getXMLAttribute(no, k), k); REQ_EQ(gear::getOptionalXMLAttribute(no, k, def), def); REQ_THROWS(gear::ParseException, gear::getChildElementValue(no, k), k); REQ_THROWS(gear::ParseException, gear::getOptionalChildElementValue(no, k, def), k); }
  }
  g.nontrivial(at.size() + ch.size() >= 2);
}
