// P01: named parameters behave as six independent maps
#include "model.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
using namespace model; using gear::GearParametersImpl;

static string key(Gen& g, const vector<string>& pool) {
  switch (g.draw(8)) {
    case 0: return g.str("ab", 0, 3);
    case 1: return g.str(alnum() + " .:/<>&\"'=\t", 0, 120);
    default: return g.pick(pool);
  }
}
static double anyD(Gen& g) { if (g.chance(1, 12)) return g.pick<double>({NAN, INFINITY, -INFINITY, DBL_MIN, DBL_MAX, 5e-324}); return anyFinite(g); }
static string anyS(Gen& g) {
  switch (g.draw(5)) { case 0: return ""; case 1: return g.str("abc xyz", 0, 10); case 2: return g.str(alnum() + " <>&\"'\n\t", 0, 300); default: return ident(g); }
}
template <class T, class F> static vector<T> vec(Gen& g, F f) { int n = g.chance(1, 20) ? g.size(0, 400) : g.size(0, 12); vector<T> v; for (int k = 0; k < n; ++k) v.push_back(f(g)); return v; }

static std::unique_ptr<GearParametersImpl> make(Gen& g) {
  switch (g.draw(4)) {
    case 1: return std::unique_ptr<GearParametersImpl>(new gear::CalorimeterParametersImpl(100., 200., 8, 0.));
    case 2: return std::unique_ptr<GearParametersImpl>(new gear::ConstantBField(gear::Vector3D(0, 0, 4)));
    case 3: return std::unique_ptr<GearParametersImpl>(new gear::ZPlanarParametersImpl(1, 10., 20., 30., 0., 0.));
    default: return std::unique_ptr<GearParametersImpl>(new GearParametersImpl);
  }
}

PROP(map_model, 24000, 400000) {
  vector<string> pool = {"a", "A", "b", "key", "Key", "key1", "key10", "beam_crossing_angle", ""};
  for (int k = 0, n = g.size(0, 6); k < n; ++k) pool.push_back(ident(g, 1, 20));
  struct Obj { std::unique_ptr<GearParametersImpl> p; PSpec s; bool plain; };
  vector<Obj> objs; objs.push_back({make(g), {}, false});
  int n = g.size(1, g.chance(1, 10) ? 120 : 30), writes = 0, over = 0, copies = 0;
  for (int k = 0; k < n; ++k) {
    size_t oi = g.draw(objs.size()); Obj& o = objs[oi]; PSpec& s = o.s; GearParametersImpl& p = *o.p;
    string ky = key(g, pool);
    auto w = [&](bool had) { ++writes; over += had; };
    switch (g.draw(15)) {
      case 0: case 1: { int v = anyInt(g); g.note("obj", oi, " setInt '", ky, "' ", v); w(s.i.count(ky)); p.setIntVal(ky, v); s.i[ky] = v; break; }
      case 2: case 3: { double v = anyD(g); g.note("obj", oi, " setDouble '", ky, "' ", v); w(s.d.count(ky)); p.setDoubleVal(ky, v); s.d[ky] = v; break; }
      case 4: case 5: { string v = anyS(g); g.note("obj", oi, " setString '", ky, "' '", v, "'"); w(s.s.count(ky)); p.setStringVal(ky, v); s.s[ky] = v; break; }
      case 6: case 7: { auto v = vec<int>(g, anyInt); g.note("obj", oi, " setInts '", ky, "' ", show(v)); w(s.iv.count(ky)); p.setIntVals(ky, v); s.iv[ky] = v; break; }
      case 8: case 9: { auto v = vec<double>(g, anyD); g.note("obj", oi, " setDoubles '", ky, "' ", show(v)); w(s.dv.count(ky)); p.setDoubleVals(ky, v); s.dv[ky] = v; break; }
      case 10: case 11: { auto v = vec<string>(g, anyS); g.note("obj", oi, " setStrings '", ky, "' ", show(v)); w(s.sv.count(ky)); p.setStringVals(ky, v); s.sv[ky] = v; break; }
      case 12: { // copy or assign
        if (objs.size() < 4) {
          g.note("obj", objs.size(), " = copy of obj", oi); PSpec c = s;
          std::unique_ptr<GearParametersImpl> np(g.boolean() ? new GearParametersImpl(p) : new GearParametersImpl);
          if (np->getIntKeys().empty() && np->getDoubleKeys().empty()) *np = p;
          objs.push_back({std::move(np), c, true}); ++copies;
        } else { size_t from = g.draw(objs.size()); g.note("obj", oi, " assigned from obj", from); *objs[oi].p = *objs[from].p; PSpec c = objs[from].s; objs[oi].s = c; ++copies; }
        break; }
      case 13: { // read absent / present keys of every type
        g.note("obj", oi, " read '", ky, "'");
        if (!s.i.count(ky)) REQ_THROWS(gear::UnknownParameterException, p.getIntVal(ky), ky);
        if (!s.d.count(ky)) REQ_THROWS(gear::UnknownParameterException, p.getDoubleVal(ky), ky);
        if (!s.s.count(ky)) REQ_THROWS(gear::UnknownParameterException, p.getStringVal(ky), ky);
        if (!s.iv.count(ky)) REQ_THROWS(gear::UnknownParameterException, p.getIntVals(ky), ky);
        if (!s.dv.count(ky)) REQ_THROWS(gear::UnknownParameterException, p.getDoubleVals(ky), ky);
        if (!s.sv.count(ky)) REQ_THROWS(gear::UnknownParameterException, p.getStringVals(ky), ky);
        break; }
      case 14: if (objs.size() > 1 && g.boolean()) { g.note("obj", oi, " destroyed"); objs.erase(objs.begin() + oi); } break;
    }
    if (g.chance(1, 4)) for (auto& q : objs) compare(g, *q.p, q.s, -1, "obj");
  }
  for (auto& q : objs) { compare(g, *q.p, q.s, -1, "obj"); compare(g, *q.p, q.s, -1, "obj (read again)"); }
  for (auto& q : objs) for (auto& ky : pool) {
    if (!q.s.i.count(ky)) REQ_THROWS(gear::UnknownParameterException, q.p->getIntVal(ky), ky);
    if (!q.s.d.count(ky)) REQ_THROWS(gear::UnknownParameterException, q.p->getDoubleVal(ky), ky);
    if (!q.s.s.count(ky)) REQ_THROWS(gear::UnknownParameterException, q.p->getStringVal(ky), ky);
    if (!q.s.iv.count(ky)) REQ_THROWS(gear::UnknownParameterException, q.p->getIntVals(ky), ky);
    if (!q.s.dv.count(ky)) REQ_THROWS(gear::UnknownParameterException, q.p->getDoubleVals(ky), ky);
    if (!q.s.sv.count(ky)) REQ_THROWS(gear::UnknownParameterException, q.p->getStringVals(ky), ky);
  }
  if (copies) g.label("with copies"); if (over) g.label("with overwrites");
  g.nontrivial(writes >= 3 && (over || copies));
}
// many keys at once
PROP(many_keys, 800, 8000) {
  GearParametersImpl p; PSpec s; int n = g.size(20, 400);
  for (int k = 0; k < n; ++k) {
    string ky = "k" + std::to_string(g.draw(n * 2));
    switch (g.draw(6)) {
      case 0: { int v = anyInt(g); p.setIntVal(ky, v); s.i[ky] = v; break; }
      case 1: { double v = anyD(g); p.setDoubleVal(ky, v); s.d[ky] = v; break; }
      case 2: { string v = anyS(g); p.setStringVal(ky, v); s.s[ky] = v; break; }
      case 3: { vector<int> v(g.draw(4), (int)k); p.setIntVals(ky, v); s.iv[ky] = v; break; }
      case 4: { vector<double> v(g.draw(4), k * .5); p.setDoubleVals(ky, v); s.dv[ky] = v; break; }
      default: { vector<string> v(g.draw(4), ky); p.setStringVals(ky, v); s.sv[ky] = v; break; }
    }
  }
  compare(g, p, s, -1, "set");
  GearParametersImpl c(p); compare(g, c, s, -1, "copy");
  g.note(n, " writes, ", s.count(), " entries"); g.nontrivial(s.count() > 20);
}
