// P07: damaged geometry files: a usable geometry or a library exception, never anything else
#include "xmlw.h"
#include "gearxml/GearXML.h"
#include "gearimpl/Util.h"
#include "gearxml/tinyxml.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace xmlw;

// counts that would only make the geometry huge are out of scope: they cost time and memory, not correctness
static bool sane(const string& t) {
  static const vector<string> counts = {"repeat", "repeatRows", "nPad", "nRow", "nPadsInRow", "maxRow", "rMin", "rMax", "padHeight", "padWidth", "padGap", "rowHeight", "padPitch", "nLadders", "nPetals", "nSensors", "xMin", "xMax", "yMin"};
  for (auto& c : counts) for (size_t p = t.find(c); p != string::npos; p = t.find(c, p + 1)) {
    size_t q = p + c.size(); while (q < t.size() && (isspace((unsigned char)t[q]) || t[q] == '=' || t[q] == '"' || t[q] == '\'')) ++q;
    string v = t.substr(q, 120); if (v.find('&') < v.find_first_of("\"'> ")) return false;
    double d = strtod(v.c_str(), nullptr); if (d != 0 && !(std::fabs(d) <= 2e5 && std::fabs(d) >= 1e-4)) return false;
  }
  return true;
}
static void useLayout(const gear::PadRowLayout2D& l) { if (l.getNRows() > 200 || l.getNPads() > 20000) return; for (int r = 0; r < l.getNRows(); ++r) for (int p : l.getPadsInRow(r)) { l.getPadCenter(p); l.getPadWidth(p); l.getPadHeight(p); } }
static void use(gear::GearMgr& m) {
  std::ostringstream o; o << m; try { m.getDetectorName(); } catch (gear::UnknownParameterException&) {}
  for (auto& k : m.getGearParameterKeys()) { const gear::GearParameters& p = m.getGearParameters(k); for (auto& n : p.getIntKeys()) p.getIntVal(n); for (auto& n : p.getStringVecKeys()) p.getStringVals(n); }
  for (auto& k : m.getMaterialNames()) m.getSimpleMaterial(k);
  try { m.getBField().at(gear::Vector3D(1, 2, 3)); } catch (gear::UnknownParameterException&) {}
  try { useLayout(m.getTPCParameters().getPadLayout()); } catch (gear::Exception&) {}
  try { const auto& t = m.getTPCParameters(); for (auto* d : t.getModules()) useLayout(*d); } catch (gear::Exception&) {}
  string f = pbt::scratch() + "/again.xml"; try { gear::GearXML::createXMLFile(&m, f); } catch (gear::Exception&) {}
}
// reads the file twice with one reader; returns 0: accepted, 1: refused as ill-formed, 2: refused with another library exception
static int readIt(Gen& g, const string& f) {
  Quiet q; gear::GearXML x(f); int r = 0; string what;
  std::unique_ptr<gear::GearMgr> m;
  try { m.reset(x.createGearMgr()); }
  catch (const gear::ParseException& e) { r = 1; what = e.what(); } catch (const gear::Exception& e) { r = 2; what = e.what(); }
  catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { pbt::fail("raised something that is not a library exception: ", e.what()); } catch (...) { pbt::fail("raised something that is not an exception class"); }
  if (r == 0) {
    REQUIRE(m.get(), "no manager, no error");
    try { use(*m); } catch (const std::exception& e) { pbt::fail("the accepted geometry cannot be used: ", e.what()); }
    return 0;
  }
  g.note("refused: ", what);
  bool again = false; try { gear::GearMgr* m = x.createGearMgr(); delete m; } catch (const gear::Exception&) { again = true; }
  REQUIRE(again, "after a failed read the same reader hands out a geometry");
  return r;
}
static int readText(Gen& g, const string& t) { string f = pbt::scratch() + "/f.xml"; spit(f, t); g.note("file:\n", t); return readIt(g, f); }

static string aDocument(Gen& g) {
  GSpec s = genGeo(g, 3);
  if (g.boolean()) { X r = rootX(g, s); decorate(g, r); return document(g, r); }
  complete(s); string f = pbt::scratch() + "/base.xml"; { Quiet q; std::unique_ptr<gear::GearMgrImpl> m(build(s, g)); gear::GearXML::createXMLFile(m.get(), f); }
  std::ifstream in(f.c_str(), std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str();
}
static string junk(Gen& g) {
  switch (g.draw(7)) {
    case 0: return string(1, (char)g.draw(256));
    case 1: return g.pick<string>({"<", ">", "/", "\"", "'", "=", "&", "<!--", "-->", "<?xml", "?>", "<!", "</", "/>", "&#", "&#x", ";", "&amp", "&#0;", "&#x0;", "<![CDATA[", "]]>", "<a", "< ", "&lt;"});
    case 2: return g.pick<string>({"\xef", "\xef\xbb", "\xef\xbb\xbf", "\xc3", "\xe2\x82", "\xf0\x9f", "\xf0", "\x80", "\xff\xfe", "\xef\xbf\xbe", "\xef\xbf"});
    case 3: return string("\0", 1);
    case 4: return g.pick<string>({"gear", "detectors", "detector", "layer", "value", "name", "geartype", "type", " a=\"b\"", "<x/>", "<detector name=\"a\" geartype=\"GearParameters\">", "</detector>", "<parameter name=\"x\" type=\"int\"/>"});
    case 5: return g.pick<string>({"0", "-1", "7", "", "abc", "1.5", "-", "3 4", "e", "nan", "inf", "0x10", "1e", "--2", " "});
    default: return g.str("<>\"'=/!-?& \nabc", 1, 6);
  }
}
static void damage(Gen& g, string& t) {
  size_t n = t.size(), p = n ? g.draw(n) : 0, len = g.boolean() ? 1 + g.draw(3) : 1 + g.draw(40);
  if (g.boolean() && n) { size_t q = t.find_first_of("<>\"'=/&", p); if (q != string::npos) p = q + (g.boolean() ? 1 : 0); }   // near markup
  if (p > t.size()) p = t.size();
  switch (g.draw(6)) {
    case 0: t.erase(p, len); break;
    case 1: t.insert(p, junk(g)); break;
    case 2: t.replace(p, std::min(len, t.size() - p), junk(g)); break;
    case 3: t.insert(p, t.substr(n ? g.draw(n) : 0, len)); break;                    // copy a piece elsewhere
    case 4: if (p < t.size()) t[p] = (char)(t[p] ^ (1 << g.draw(8))); break;
    default: { size_t q = n ? g.draw(n) : 0; string a = t.substr(p, len); t.erase(p, len); t.insert(std::min(q, t.size()), a); }   // move
  }
}
PROP(fuzz_bytes, 12000, 400000) {
  string t = aDocument(g); int n = g.size(1, 6); for (int k = 0; k < n; ++k) damage(g, t);
  if (!sane(t)) { g.label("skipped: huge counts"); g.discard(); }
  int r = readText(g, t); g.label(r == 0 ? "accepted" : r == 1 ? "parse error" : "other library exception"); g.nontrivial();
}
// text built of fragments of markup
PROP(fuzz_soup, 8000, 300000) {
  string t = g.boolean() ? "<gear><detectors>" : ""; int n = g.size(0, 25); for (int k = 0; k < n; ++k) t += junk(g);
  if (g.boolean()) t += "</detectors></gear>"; if (!sane(t)) g.discard();
  int r = readText(g, t); g.label(r == 0 ? "accepted" : "refused"); g.nontrivial(n >= 3);
}
static void all(X& x, vector<X*>& v) { if (x.k == X::ELEM) { v.push_back(&x); for (auto& k : x.kids) all(k, v); } }
PROP(fuzz_elements, 12000, 400000) {
  GSpec s = genGeo(g, 3); X r = rootX(g, s); int n = g.size(1, 4);
  for (int k = 0; k < n; ++k) {
    vector<X*> v; all(r, v); X* x = v[g.draw(v.size())];
    switch (g.draw(10)) {
      case 0: if (!x->at.empty()) x->at.erase(x->at.begin() + g.draw(x->at.size())); break;
      case 1: if (!x->kids.empty()) x->kids.erase(x->kids.begin() + g.draw(x->kids.size())); break;
      case 2: if (!x->kids.empty()) { X c = x->kids[g.draw(x->kids.size())]; x->kids.insert(x->kids.begin() + g.draw(x->kids.size() + 1), c); } break;
      case 3: if (!x->at.empty()) x->at[g.draw(x->at.size())].v = g.pick<string>({"", " ", "0", "-1", "abc", "1.5", "100", "-100", "0.001", "2 3", "nan", "inf", "true", "-0", "1,5", "3x", "Barrel", "CCD", "GearParameters", "TPCParameters", "FTDParameters", "cartesian", "polar", "intVec", "RectangularPadRowLayout", "FixedPadSizeDiskLayout", "FixedPadAngleDiskLayout", "VersatileDiskRowLayout"}); break;
      case 4: { X c = *v[g.draw(v.size())]; if (v.size() < 200) x->kids.insert(x->kids.begin() + g.draw(x->kids.size() + 1), c); break; }   // a piece of the file somewhere else
      case 5: x->name = g.pick<string>({"layer", "detector", "module", "default", "row", "x", "parameter", "layers", "PadRowLayout2D", "sensitive", "ladder"}); break;
      case 6: if (x->at.size() > 1) std::swap(x->at[0].v, x->at[g.draw(x->at.size())].v); break;
      case 7: if (!x->at.empty()) x->at[g.draw(x->at.size())].n = g.pick<string>({"value", "name", "type", "x", "repeat", "ID"}); break;
      case 8: {     // a word that is nearly the right one
        if (x->at.empty()) break; vector<std::pair<X*, int>> w; for (X* y : v) for (size_t q = 0; q < y->at.size(); ++q) if (y->at[q].v.size() > 3 && isalpha((unsigned char)y->at[q].v[0])) w.push_back({y, (int)q});
        if (w.empty()) break; auto e = w[g.draw(w.size())]; string& a = e.first->at[e.second].v;
        switch (g.draw(6)) { case 0: a += g.pick<string>({"s", "1", " ", "Layout", "x"}); break; case 1: a.resize(a.size() - 1 - g.draw(3)); break; case 2: a[0] = (char)(a[0] ^ 32); break; case 3: a = "my" + a; break; case 4: a[g.draw(a.size())] = 'q'; break; default: for (char& c : a) c = (char)toupper(c); }
        break;
      }
      default: if (x->kids.size() > 1) std::swap(x->kids[0], x->kids[g.draw(x->kids.size())]);
    }
  }
  string t = document(g, r); if (!sane(t)) { g.label("skipped: huge counts"); g.discard(); }
  int q = readText(g, t); g.label(q == 0 ? "accepted" : q == 1 ? "parse error" : "other library exception"); g.nontrivial();
}
// something required is missing: parse error
PROP(required, 10000, 200000) {
  GSpec s = genGeo(g, 3); X r = rootX(g, s); vector<X*> v; all(r, v); vector<std::pair<X*, int>> c;   // attribute k>=0, child -1-k
  for (X* x : v) { for (size_t k = 0; k < x->at.size(); ++k) if (x->at[k].req) c.push_back({x, (int)k}); for (size_t k = 0; k < x->kids.size(); ++k) if (x->kids[k].req) c.push_back({x, -1 - (int)k}); }
  if (c.empty()) g.discard(); auto e = c[g.draw(c.size())]; string what;
  if (e.second >= 0) { what = "attribute " + e.first->at[e.second].n + " of <" + e.first->name + ">"; if (g.chance(1, 4)) e.first->at[e.second].n = e.first->at[e.second].n + "_"; else e.first->at.erase(e.first->at.begin() + e.second); }
  else { int k = -1 - e.second; what = "element <" + e.first->kids[k].name + "> of <" + e.first->name + ">"; if (g.chance(1, 4)) { X m; m.k = X::COMM; m.name = e.first->kids[k].name; e.first->kids[k] = m; } else e.first->kids.erase(e.first->kids.begin() + k); }
  bool plain = g.chance(1, 2); if (plain) decorate(g, r); string t = document(g, r); g.note("removed: ", what); g.label(what); g.nontrivial();
  REQ_EQ(readText(g, t), 1, "(0: accepted, 1: parse error, 2: another exception) without ", what);
}
// a word of a closed set (kind of detector, layout, technology, coordinates) that is not in the set: an exception
PROP(unknown_kind, 6000, 150000) {
  GSpec s = genGeo(g, 4); X r = rootX(g, s); vector<X*> v; all(r, v); vector<string*> c;
  static const std::set<std::pair<string, string>> closed = {{"detector", "geartype"}, {"layout", "type"}, {"PadRowLayout2D", "type"}, {"coordinateType", "value"}, {"vxdType", "technology"}, {"layer", "sensorType"}, {"siplanesType", "type"}};
  std::set<X*> un; for (X* x : v) if (x->name == "default") { vector<X*> w; all(*x, w); un.insert(w.begin(), w.end()); }   // a default may be unused
  for (X* x : v) if (!un.count(x)) for (auto& a : x->at) if (closed.count({x->name, a.n})) { c.push_back(&a.v); g.label(x->name + "/" + a.n); }
  if (c.empty()) g.discard(); string& w = *c[g.draw(c.size())], old = w;
  switch (g.draw(8)) {
    case 0: w += g.pick<string>({"s", "1", "_", "Layout", "x", "Parameters"}); break; case 1: w.resize(w.size() - 1 - g.draw(std::min<size_t>(w.size() - 1, 3))); break; case 2: w = g.pick<string>({"my", "x", "_", "z"}) + w; break;
    case 3: w[g.draw(w.size())] = g.pick<char>({'q', '0', '-'}); break; case 4: w += w; break; case 5: w = string(w.rbegin(), w.rend()); break; case 6: w = g.pick<string>({"none", "Unknown", "0", "1", "unknown", "CDC", "ECal"}); break; default: w.erase(g.draw(w.size()), 1);
  }
  string lo, lw; for (char ch : old) lo += (char)tolower(ch); for (char ch : w) lw += (char)tolower(ch);
  static const std::set<string> words = {"barrel", "endcap", "ccd", "cmos", "hybrid", "pixel", "strip", "cartesian", "polar"}; if (lo == lw || words.count(lw)) g.discard();
  string now = w; g.note("'", old, "' became '", now, "'"); g.nontrivial(); decorate(g, r); string t = document(g, r); REQUIRE(readText(g, t) >= 1, "'", old, "' replaced by '", now, "' was accepted");
}
// cut off anywhere before the end of the root element: parse error
PROP(truncated, 8000, 200000) {
  string t = aDocument(g); size_t end = t.rfind("</"); while (end != string::npos && t.compare(end, 6, "</gear")) end = end ? t.rfind("</", end - 1) : string::npos;
  if (end == string::npos) g.discard(); end = t.find('>', end); size_t cut = g.boolean() ? g.draw(end + 1) : end - g.draw(std::min<size_t>(end, 60) + 1);
  t.resize(cut); if (!sane(t)) g.discard(); g.nontrivial(cut > 20);
  REQ_EQ(readText(g, t), 1, "(0: accepted, 1: parse error, 2: another exception) for a file cut off after ", cut, " bytes");
}
// the parser alone, on a buffer that ends exactly after the text
PROP(fuzz_parser, 60000, 2500000) {
  string t; if (g.boolean()) t += g.pick<string>({"<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\"?>", "\xef\xbb\xbf", "<?xml encoding='x'?>", "<?xml"});
  int n = g.size(0, 12); if (g.boolean()) t += "<a>"; if (g.boolean()) t += g.str("<>/a='! \xef\xbb-?&;#x\xe2\n\t", 0, 14); else for (int k = 0; k < n; ++k) t += junk(g);
  if (g.chance(1, 3)) t += "</a>"; while (!t.empty() && g.chance(1, 3)) t.resize(t.size() - 1);
  t = t.substr(0, t.find('\0')); std::unique_ptr<char[]> b(new char[t.size() + 1]); memcpy(b.get(), t.c_str(), t.size() + 1); g.note("text: ", t); g.nontrivial(n >= 2);
  gear::TiXmlEncoding e = g.pick<gear::TiXmlEncoding>({gear::TIXML_ENCODING_UNKNOWN, gear::TIXML_ENCODING_UTF8, gear::TIXML_ENCODING_LEGACY});
  gear::TiXmlDocument d; const char* p = d.Parse(b.get(), 0, e); REQUIRE(p == 0 || (p >= b.get() && p <= b.get() + t.size()), "the parser ends outside the text");
  g.label(d.Error() ? "error" : "parsed"); if (d.Error()) { REQUIRE(string(d.ErrorDesc()).size() > 0, ""); d.ErrorRow(); }
  std::ostringstream o; o << d;   // whatever was read can be printed
}
PROP(special_files, 600, 6000) {
  string d = pbt::scratch() + "/sp", f = d + "/f.xml"; mkdir(d.c_str(), 0700); unlink(f.c_str()); g.nontrivial();
  switch (g.draw(7)) {
    case 0: g.note("no such file"); REQ_EQ(readIt(g, d + "/none.xml"), 1); break;
    case 1: g.note("a directory"); REQ_EQ(readIt(g, d), 1); break;
    case 2: REQ_EQ(readText(g, g.str(" \n\t\r", 0, 5)), 1); break;
    case 3: { string c = "<!--" + g.str("ab -<>", 0, 6) + " -->"; REQ_EQ(readText(g, c), 1); break; }
    case 4: { string t; string pre = g.pick<string>({"", "<gear>", "<gear><detectors>"}); int n = g.boolean() ? (int)g.draw(300000) : (int)g.draw(2000); string tag = g.pick<string>({"<a>", "<detector>", "<a b=\"c\">", "<a><!---->", "<"}); for (int k = 0; k < n; ++k) t += tag; g.note("nested ", n, " ", tag); string ff = pbt::scratch() + "/f.xml"; spit(ff, pre + t); REQ_EQ(readIt(g, ff), 1); break; }
    case 5: { int n = g.boolean() ? (int)g.draw(300000) : (int)g.draw(900); string t = "<gear><detectors/>"; for (int k = 0; k < n; ++k) t += "<a>"; for (int k = 0; k < n; ++k) t += "</a>"; t += "</gear>"; g.note("balanced nesting of depth ", n); string ff = pbt::scratch() + "/f.xml"; spit(ff, t); int r = readIt(g, ff); if (n < 400) REQ_EQ(r, 0); else REQUIRE(r < 2, r); break; }
    default: { GSpec s = genGeo(g, 2); X r = rootX(g, s); string t = document(g, r); size_t p = g.draw(t.rfind("</gear") + 1); t.insert(p, 1, '\0'); g.note("NUL byte at ", p); int q = readText(g, t); REQ_EQ(q, 1); }
  }
}
