// P09: merging two geometry files
#include "xmlw.h"
#include "gearxml/GearXML.h"
#include "gearxml/MergeXML.h"
#include "gearxml/tinyxml.h"
#include "program.h"
using namespace xmlw;

static string slurp(const string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// what a file says: elements, attributes, text
struct E { string name; vector<std::pair<string, string>> at; vector<E> kids; string text; const string* get(const string& n) const { for (auto& a : at) if (a.first == n) return &a.second; return nullptr; } };
static E of(const X& x) { E e; e.name = x.name; for (auto& a : x.at) e.at.push_back({a.n, a.v}); for (auto& k : x.kids) if (k.k == X::ELEM) e.kids.push_back(of(k)); if (x.hasText) e.text = x.text; return e; }
static string squeeze(const string& s) { string r; for (unsigned char c : s) if (isspace(c)) { if (!r.empty() && r.back() != ' ') r += ' '; } else r += c; while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
static E of(const gear::TiXmlElement& x) {
  E e; e.name = x.Value(); for (const gear::TiXmlAttribute* a = x.FirstAttribute(); a; a = a->Next()) e.at.push_back({a->Name(), a->Value()});
  for (const gear::TiXmlNode* k = x.FirstChild(); k; k = k->NextSibling()) { if (k->ToElement()) e.kids.push_back(of(*k->ToElement())); else if (k->ToText()) e.text += (e.text.empty() ? "" : " + ") + string(k->Value()); }
  return e;
}
static void print(const E& e, string& o, int level = 0) {
  o += string(level, ' ') + e.name; for (auto& a : e.at) o += " " + a.first + "=[" + a.second + "]"; if (!squeeze(e.text).empty()) o += " text=[" + squeeze(e.text) + "]"; o += "\n"; for (auto& k : e.kids) print(k, o, level + 1);
}
static string print(const E& e) { string o; print(e, o); return o; }
struct Ambiguous {};
static bool like(const E& a, const E& b) { const string *n = a.get("name"), *m = b.get("name"); return a.name == b.name && (n != nullptr) == (m != nullptr) && (!n || *n == *m); }
static int count(const vector<E>& v, const E& e, size_t upTo) { int n = 0; for (size_t k = 0; k < v.size() && k < upTo; ++k) n += like(v[k], e); return n; }
static void attributes(const E& rec, E& dom) { for (auto& a : rec.at) if (!dom.get(a.first) && !(a.first == "value" && !squeeze(dom.text).empty())) dom.at.push_back(a); }
static void contents(const E& rec, E& dom, bool sections = false) {
  const vector<E> old = dom.kids;
  for (size_t k = 0; k < rec.kids.size(); ++k) {
    const E& c = rec.kids[k]; int nr = count(rec.kids, c, rec.kids.size()), nd = count(old, c, old.size());
    if (nd && nr != nd) throw Ambiguous();
    if (!nd) { dom.kids.push_back(c); continue; }
    int want = count(rec.kids, c, k), at = 0; for (size_t j = 0; j < old.size(); ++j) if (like(old[j], c) && at++ == want) { attributes(c, dom.kids[j]); if ((sections || c.get("name")) && squeeze(c.text).empty() && squeeze(old[j].text).empty()) contents(c, dom.kids[j]); }
  }
}
static E merged(const E& rec, const E& dom) { E r = dom; contents(rec, r, true); return r; }
static void plainDecorate(Gen& g, X& x) {   // order and comments
  for (X& k : x.kids) plainDecorate(g, k); shuffleAt(g, x.at); if (!x.ordered) shuffleKids(g, x, x.name == "detectors" || x.name == "gear");
  if (x.name == "gear") return;
  int n = g.chance(1, 4) ? g.size(0, 3) : 0; for (int k = 0; k < n; ++k) { X c = commentX(g); if (g.boolean()) x.kids.push_back(c); else x.kids.insert(x.kids.begin(), c); }
}
static void ascii(X& x) { auto f = [](string& t) { for (char& c : t) if ((unsigned char)c >= 0x7f) c = 'z'; }; for (auto& a : x.at) f(a.v); f(x.text); f(x.name); for (X& k : x.kids) ascii(k); }   // files of different encodings cannot be merged
static void all(X& x, vector<X*>& v) { if (x.k == X::ELEM) { v.push_back(&x); for (auto& k : x.kids) all(k, v); } }
// another version of the file: things left out, changed, added
static X variant(Gen& g, const X& base) {
  X r = base; int n = g.size(0, 8);
  for (int k = 0; k < n; ++k) {
    vector<X*> v; all(r, v); X* x = v[g.draw(v.size())]; bool top = x == v[0];
    switch (g.draw(7)) {
      case 0: if (!x->at.empty() && x->at[x->at.size() - 1].n != "name") x->at.pop_back(); break;
      case 1: case 2: { if (x->kids.empty()) break; size_t c = g.draw(x->kids.size()); if (top && x->kids[c].name == "detectors") break; bool twins = false; for (size_t j = 0; j < x->kids.size(); ++j) { auto nm = [](const X& q) { for (auto& a : q.at) if (a.n == "name") return a.v; return string("-"); }; if (j != c && x->kids[j].name == x->kids[c].name && nm(x->kids[j]) == nm(x->kids[c])) twins = true; } if (!twins || g.chance(1, 6)) x->kids.erase(x->kids.begin() + c); break; }
      case 3: if (!x->at.empty()) { At& a = x->at[g.draw(x->at.size())]; if (a.n != "name" || g.chance(1, 3)) a.v = g.boolean() ? std::to_string(g.integer(-50, 50)) : ident(g); } break;
      case 4: { X p = param(g, g.pick<string>({"p", "q", "added"}), g.pick<string>({"int", "string"}), std::to_string(g.draw(100)), g.boolean()); if (x->name == "detector" || x->name == "BField") x->kids.push_back(p); break; }
      case 5: if (x->name == "detectors") { X d("detector"); d.a("name", g.pick<string>({"extra", "p", "EcalBarrel"})).a("geartype", "GearParameters"); x->kids.push_back(d); } else if (x->hasText) x->text = ident(g); break;
      default: x->a(g.pick<string>({"extra", "unit"}), ident(g)); { std::set<string> s; for (auto& a : x->at) if (!s.insert(a.n).second) { x->at.pop_back(); break; } }
    }
  }
  return r;
}
static string dominantFirst(Gen& g, const string& dom, const string& rec, const string& out, bool& ok, bool& threw) {
  ok = threw = false; gear::MergeXML m; bool first = g.boolean(); if (g.chance(1, 4)) m.makeDominant((int)g.integer(3, 9)); Quiet q;
  auto set = [&](int f, const string& n) { REQUIRE(f == 1 ? m.setFile1(n) : m.setFile2(n), "cannot set file ", f); };
  if (g.boolean()) { set(1, first ? dom : rec); set(2, first ? rec : dom); } else { set(2, first ? rec : dom); set(1, first ? dom : rec); }
  if (first) { if (g.boolean()) m.makeDominant(2); m.makeDominant(1); if (g.boolean()) m.makeDominant(0); } else if (g.boolean()) { if (g.boolean()) m.makeDominant(1); m.makeDominant(2); }
  int times = 1 + (int)g.draw(3); string last;
  for (int k = 0; k < times; ++k) {
    remove(out.c_str()); try { ok = m.mergeFiles(out); } catch (const gear::Exception&) { threw = true; ok = false; }
    string t = slurp(out); if (k) REQUIRE(t == last, "merging again with the same object gives another file"); last = t;
  }
  return last;
}
static void checkMerge(Gen& g, const string& dt, const string& rt, const E* want) {   // want: null if the merge has to be refused
  string a = pbt::scratch() + "/dom.xml", b = pbt::scratch() + "/rec.xml", o = pbt::scratch() + "/out.xml"; spit(a, dt); spit(b, rt); g.note("dominant file:\n", dt, "\nrecessive file:\n", rt);
  bool ok, threw; string t = dominantFirst(g, a, b, o, ok, threw);
  REQUIRE(slurp(a) == dt && slurp(b) == rt, "an input file was modified");
  if (!want) { REQUIRE(!ok, "ambiguous elements were merged"); REQUIRE(t.empty(), "a refused merge wrote a file"); return; }
  REQUIRE(ok && !threw, "merge failed"); gear::TiXmlDocument d; REQUIRE(d.LoadFile(o) && d.RootElement(), "the merged file cannot be read: ", d.ErrorDesc());
  string got = print(of(*d.RootElement())), exp = print(*want); g.note("merged file:\n", t);
  if (got != exp) { size_t k = 0; while (k < got.size() && k < exp.size() && got[k] == exp[k]) ++k; size_t p = got.rfind('\n', k); p = p == string::npos ? 0 : p + 1; fail("merged file says\n", got.substr(p, 300), "\ninstead of\n", exp.substr(p, 300)); } ++g.evals;
}
PROP(merge_trees, 12000, 250000) {
  GSpec s = genGeo(g, 3); X base = rootX(g, s); ascii(base); X d = variant(g, base), r = variant(g, base);
  plainDecorate(g, d); plainDecorate(g, r); E ed = of(d), er = of(r), m; bool amb = false; try { m = merged(er, ed); } catch (Ambiguous&) { amb = true; }
  g.label(amb ? "refused: repeated elements" : "merged"); g.nontrivial(!amb && print(m) != print(ed));
  checkMerge(g, document(g, d), document(g, r), amb ? nullptr : &m);
}
PROP(merge_self, 4000, 60000) {
  GSpec s = genGeo(g, 4); X r = rootX(g, s); decorate(g, r); string t = document(g, r), f = pbt::scratch() + "/self.xml", o = pbt::scratch() + "/o.xml", o2 = pbt::scratch() + "/o2.xml"; spit(f, t); g.note("file:\n", t); g.nontrivial(parts(s) >= 2);
  gear::TiXmlDocument d; REQUIRE(d.LoadFile(f), "not readable"); d.SaveFile(o2);
  bool ok, threw; string m = dominantFirst(g, f, f, o, ok, threw); REQUIRE(ok && !threw, "merge with itself failed"); REQUIRE(m == slurp(o2), "a file merged with itself became\n", m); REQUIRE(slurp(f) == t, "input file was modified");
}
// the union of two geometries
PROP(merge_geometry, 6000, 120000) {
  GSpec u = genGeo(g, 8), a, b; complete(u); GSpec bb; auto who = [&]() { return (int)g.draw(3); };   // 0: dominant, 1: recessive, 2: both
  int both = 0, rec = 0; auto deal = [&](auto& x, auto& p, auto& q) { if (!x) return; int w = who(); typedef typename std::decay<decltype(*x)>::type T; if (w != 1) p.reset(new T(*x)); if (w != 0) q.reset(new T(*x)); both += w == 2; rec += w == 1; };
  deal(u.b, a.b, b.b); deal(u.tpc, a.tpc, b.tpc); for (int k = 0; k < NCAL; ++k) deal(u.cal[k], a.cal[k], b.cal[k]); for (int k = 0; k < 3; ++k) deal(u.z[k], a.z[k], b.z[k]); deal(u.ftd, a.ftd, b.ftd); deal(u.tp, a.tp, b.tp); deal(u.si, a.si, b.si);
  for (auto& e : u.mats) { int w = who(); if (w != 1) a.mats.insert(e); if (w != 0) { b.mats.insert(e); if (w == 2) for (double& v : b.mats[e.first].v) v = anyFinite(g); } rec += w == 1; both += w == 2; }
  for (auto& e : u.named) {   // sets in both files: parameters are united by name, the dominant ones win
    int w = who(); PSpec p = e.second, q;
    if (w == 2) { ++both; auto names = [](const PSpec& x) { std::set<string> n; for (auto& k : x.i) n.insert(k.first); for (auto& k : x.d) n.insert(k.first); for (auto& k : x.s) n.insert(k.first); for (auto& k : x.iv) n.insert(k.first); for (auto& k : x.dv) n.insert(k.first); for (auto& k : x.sv) n.insert(k.first); return n; };
      p = PSpec(); std::set<string> in; PSpec all = genParams(g), mine = genParams(g); std::set<string> mn = names(mine); p = mine; q = all; PSpec res = mine;
      for (auto& k : all.i) if (!mn.count(k.first)) res.i.insert(k); for (auto& k : all.d) if (!mn.count(k.first)) res.d.insert(k); for (auto& k : all.s) if (!mn.count(k.first)) res.s.insert(k); for (auto& k : all.iv) if (!mn.count(k.first)) res.iv.insert(k); for (auto& k : all.dv) if (!mn.count(k.first)) res.dv.insert(k); for (auto& k : all.sv) if (!mn.count(k.first)) res.sv.insert(k);
      auto uniq = [&](const PSpec& x) { return names(x).size() == x.i.size() + x.d.size() + x.s.size() + x.iv.size() + x.dv.size() + x.sv.size(); }; if (!uniq(mine) || !uniq(all)) { p = q = e.second; if (!uniq(p)) g.label("same name, several types"); } else e.second = res; a.named[e.first] = p; b.named[e.first] = q;
    } else if (w == 0) a.named[e.first] = p; else { b.named[e.first] = p; ++rec; } }
  a.hasName = b.hasName = true; a.name = anyText(g, false); b.name = anyText(g, false); u.hasName = true; u.name = a.name;
  string fa = pbt::scratch() + "/a.xml", fb = pbt::scratch() + "/b.xml", o = pbt::scratch() + "/ab.xml"; { Quiet q; std::unique_ptr<gear::GearMgr> ma(build(a, g)), mb(build(b, g)); gear::GearXML::createXMLFile(ma.get(), fa); gear::GearXML::createXMLFile(mb.get(), fb); }
  g.note("dominant:\n", show(a), "\nrecessive:\n", show(b)); string ta = slurp(fa), tb = slurp(fb); bool ok, threw; string t = dominantFirst(g, fa, fb, o, ok, threw); REQUIRE(ok && !threw, "merge failed"); REQUIRE(slurp(fa) == ta && slurp(fb) == tb, "an input file was modified");
  Quiet q; gear::GearXML x(o); std::unique_ptr<gear::GearMgr> m(x.createGearMgr()); if (!m) fail("no manager");
  compare(g, *m, u, WTOL); g.nontrivial(rec >= 1 && rec + both >= 2);
}
// not both files set, unreadable files, no geometry
PROP(merge_refused, 1500, 15000) {
  GSpec s = genGeo(g, 2); X r = rootX(g, s), w = r; string f = pbt::scratch() + "/g.xml", h = pbt::scratch() + "/h.xml", o = pbt::scratch() + "/o.xml"; remove(o.c_str()); spit(f, document(g, r)); Quiet q; gear::MergeXML m; g.nontrivial();
  int how = (int)g.draw(4); g.note("case ", how); bool one = g.boolean();
  switch (how) {
    case 0: REQUIRE(one ? m.setFile1(f) : m.setFile2(f), ""); break;
    case 1: spit(h, g.pick<string>({"<gear>", "<gear><detectors>", "<gear><detectors></gear>", "gear", "<gear", "", "<gear a></gear>"})); REQUIRE(!(one ? m.setFile1(h) : m.setFile2(h)), "a broken file was accepted"); return;
    case 2: { w.name = "Gear"; spit(h, document(g, w)); if (one) { m.setFile1(f); m.setFile2(h); } else { m.setFile1(h); m.setFile2(f); } break; }
    default: { for (auto& k : w.kids) if (k.name == "detectors") k.name = "detector"; spit(h, document(g, w)); if (one) { m.setFile1(f); m.setFile2(h); } else { m.setFile1(h); m.setFile2(f); } }
  }
  if (g.boolean()) m.makeDominant(1); REQUIRE(!m.mergeFiles(o), "merged"); REQUIRE(slurp(o).empty(), "something was written");
}

// the installed program: mergeXML <secondary> <primary> <target> writes what the library writes when the second file dominates
PROP(merge_program, 1000, 30000) {
  GSpec s = genGeo(g, 3); X base = rootX(g, s); ascii(base); X d = variant(g, base), r = variant(g, base); plainDecorate(g, d); plainDecorate(g, r);
  string fd = pbt::scratch() + "/td.xml", fr = pbt::scratch() + "/tr.xml", o = pbt::scratch() + "/to.xml", o2 = pbt::scratch() + "/to2.xml"; string td = document(g, d), tr = document(g, r); int broken = g.chance(1, 6) ? 1 + (int)g.draw(3) : 0;
  if (broken == 1) td = td.substr(0, td.find('<') + 3); if (broken == 2) tr = tr.substr(0, tr.find('<') + 3);
  spit(fd, td); spit(fr, tr); if (broken == 3) remove(fr.c_str()); remove(o.c_str()); remove(o2.c_str()); g.note("primary:\n", td, "\nsecondary", broken == 3 ? " is missing" : ":\n", tr);
  bool ok = false, threw = false; { Quiet q; try { gear::MergeXML m; ok = m.setFile1(fr) && m.setFile2(fd); if (ok) ok = m.mergeFiles(o2); } catch (gear::Exception&) { threw = true; } }
  string out; int code = program("mergeXML", {fr, fd, o}, out);
  if (ok && !threw) { REQUIRE(code == 0, "the program fails with ", code, ": ", out); string a = slurp(o); REQUIRE(!a.empty(), "no target"); REQUIRE(a == slurp(o2), "the target differs from what the library writes:\n", a, "\nlibrary:\n", slurp(o2)); }
  else { REQUIRE(slurp(o).empty(), "a target was written"); if (threw) REQUIRE(code < 128 && out.find("xception") != string::npos, "no error message, exit code ", code, ": ", out); else REQUIRE(code > 0 && code < 77, "the program ends with ", code, ": ", out); }
  REQUIRE(slurp(fd) == td && (broken == 3 || slurp(fr) == tr), "an input was modified"); g.nontrivial(ok && !threw && slurp(o) != td);
  if (g.chance(1, 10)) { vector<string> few = {fr, fd}; few.resize(g.draw(3)); string u; int c = program("mergeXML", few, u); REQUIRE(c > 0 && c < 77 && u.find("usage") != string::npos, "too few arguments: exit code ", c, ": ", u); }
}
