// P21: telescope planes (SiPlanes and TrackerPlanes) hold what they were given. P19: forward disks
#include "trackers.h"
using namespace model;
typedef void (gear::SiPlanesLayerLayout::*SetD)(int, double);
static const SetD setL[10] = {&gear::SiPlanesLayerLayout::setLayerPositionX, &gear::SiPlanesLayerLayout::setLayerPositionY, &gear::SiPlanesLayerLayout::setLayerPositionZ, &gear::SiPlanesLayerLayout::setLayerRotationXY, &gear::SiPlanesLayerLayout::setLayerRotationZX, &gear::SiPlanesLayerLayout::setLayerRotationZY, &gear::SiPlanesLayerLayout::setLayerSizeX, &gear::SiPlanesLayerLayout::setLayerSizeY, &gear::SiPlanesLayerLayout::setLayerThickness, &gear::SiPlanesLayerLayout::setLayerRadLength};
#define S(x) &gear::SiPlanesLayerLayout::setSensitive##x
static const SetD setS[19] = {S(PositionX), S(PositionY), S(PositionZ), S(RotationXY), S(RotationZX), S(RotationZY), S(SizeX), S(SizeY), S(Thickness), S(RadLength), S(PitchX), S(PitchY), S(Resolution), S(ResolutionX), S(ResolutionY), S(Rotation1), S(Rotation2), S(Rotation3), S(Rotation4)};
#undef S
static double num(Gen& g) { return anyFinite(g); }

PROP(siplanes, 40000, 2000000) {
  SiSpec s; s.id = anyInt(g); s.type = (int)g.integer(1, 2); s.number = anyInt(g);
  bool viaParams = g.boolean();
  std::unique_ptr<gear::SiPlanesParametersImpl> p(new gear::SiPlanesParametersImpl(s.id, s.type, s.number));
  gear::SiPlanesLayerLayoutImpl own;
  // updates are only possible on the layout itself (the parameters class hands out a const layout)
  auto check = [&]() { if (viaParams) { compare(g, *p, s, -1, "SiPlanes"); } else { REQ_EQ(own.getNLayers(), (int)s.layers.size()); for (size_t k = 0; k < s.layers.size(); ++k) compareLayer(g, own, (int)k, s.layers[k], -1, "layer " + std::to_string(k)); if (s.hasDut) compareDut(g, own, s.dut, -1, "DUT"); } };
  int n = g.many(1, 25, 200), updates = 0;
  for (int k = 0; k < n; ++k) switch (g.draw(viaParams ? 4 : 6)) {
    case 0: { SiSpec::L l = genSiLayer(g, num); bool old = g.boolean(); if (old) { for (int q : {3, 4, 5}) l.l[q] = l.s[q] = 0; double r = viaParams ? l.s[12] : 0; l.s[13] = l.s[14] = r; }
      g.note(old ? "add (old) " : "add ", show(l)); s.layers.push_back(l); if (viaParams) { if (old) addOld(*p, l); else addNew(*p, l); } else { if (old) addOld(own, l); else addNew(own, l); } break; }
    case 1: { SiSpec::L l = genSiLayer(g, num); g.note("DUT ", show(l)); s.dut = l; s.hasDut = true; if (viaParams) addDut(*p, l); else addDut(own, l); break; }
    case 2: { int v = anyInt(g); switch (g.draw(3)) { case 0: if (viaParams) { s.id = v; p->setSiPlanesID(v); } break; case 1: if (viaParams) { s.type = v; p->setSiPlanesType(v); } break; default: if (viaParams) { s.number = v; p->setSiPlanesNumber(v); } } g.note("set"); break; }
    case 3: check(); break;
    default: {
      if (s.layers.empty()) break; int i = (int)g.draw(s.layers.size()); ++updates; auto& l = s.layers[i]; int f = (int)g.draw(33);
      if (f < 10) { l.l[f] = num(g); SetD m = setL[f]; (own.*m)(i, l.l[f]); } else if (f < 29) { l.s[f - 10] = num(g); SetD m = setS[f - 10]; (own.*m)(i, l.s[f - 10]); }
      else { int v = anyInt(g); switch (f) { case 29: l.id = v; own.setID(i, v); break; case 30: l.sid = v; own.setSensitiveID(i, v); break; case 31: l.npx = v; own.setSensitiveNpixelX(i, v); break; default: l.npy = v; own.setSensitiveNpixelY(i, v); } }
      g.note("update layer ", i, " field ", f);
      int j = (int)s.layers.size() + (int)g.draw(3);
      REQ_THROWS(std::exception, own.setLayerSizeX(j, 1.)); REQ_THROWS(std::exception, own.getSensitiveSizeY(-1)); REQ_THROWS(std::exception, own.getID(j));
    }
  }
  check(); check();
  g.nontrivial(s.layers.size() >= 2); if (updates) g.label("updated"); if (s.hasDut) g.label("DUT"); g.label(viaParams ? "parameters" : "layout");
}

static string text(Gen& g) { return g.chance(1, 4) ? string() : g.chance(1, 10) ? g.str(alnum(), 0, 300) : ident(g); }
PROP(trackerplanes, 40000, 2000000) {
  TpSpec t; t.id = anyInt(g); t.type = anyInt(g); t.number = anyInt(g);
  gear::TrackerPlanesParametersImpl p(t.id, t.type, t.number); gear::TrackerPlanesLayerLayoutImpl own; string oInfo; int oID = 0;
  bool viaParams = g.boolean();
  auto lay = [&]() -> const gear::TrackerPlanesLayerLayout& { return viaParams ? p.getTrackerPlanesLayerLayout() : own; };
  auto check = [&]() {
    if (viaParams) compare(g, p, t, -1, "TrackerPlanes");
    const auto& y = lay(); REQ_EQ(y.getNLayers(), (int)t.layers.size());
    if (!viaParams) { REQ_EQ(y.getInfo(), oInfo); REQ_EQ(y.getID(), oID); }
    for (size_t k = 0; k < t.layers.size(); ++k) { REQUIRE(y.getLayer(k) != 0); compareLayer(g, *y.getLayer(k), t.layers[k], -1, "layer"); }
    for (unsigned bad : {(unsigned)t.layers.size(), (unsigned)t.layers.size() + 3, 0x7fffffffu, 0xffffffffu}) REQUIRE(y.getLayer(bad) == 0, bad);
    for (int q = 0; q < 3; ++q) {
      int id = q == 0 || t.layers.empty() ? anyInt(g) : q == 1 ? (int)g.integer(0, 6) : t.layers[g.draw(t.layers.size())].id;
      const TpSpec::L* want = 0; const gear::TrackerPlanesLayerImpl* got = y.getLayerByID(id);
      for (auto& l : t.layers) if (l.id == id) { want = &l; break; }
      if (!want) { REQUIRE(got == 0, "ID ", id, " does not exist"); continue; }
      REQUIRE(got != 0, "ID ", id, " exists"); REQ_EQ(got->getID(), id);
      compareLayer(g, *got, *want, -1, "by ID");
    }
  };
  int n = g.many(1, 20, 200), updates = 0;
  for (int k = 0; k < n; ++k) switch (g.draw(6)) {
    case 0: case 1: { TpSpec::L l = genTpLayer(g, num, text); g.note("add ", show(l)); gear::TrackerPlanesLayerImpl y = buildLayer(l);
      if (g.chance(1, 4)) { gear::TrackerPlanesLayerImpl z(y.getMaterialLayerVec(), y.getSensitiveLayerVec()); z.setID(l.id); z.setInfo(l.info); y.setID((y.getID() ^ 1)); if (!y.getMaterialLayerVec().empty()) y.getMaterialLayerVec()[0].setSizeX(-77); compareLayer(g, z, l, -1, "made from vectors"); if (viaParams) p.addLayer(&z); else own.addLayer(&z); t.layers.push_back(l); break; }
      if (viaParams) p.addLayer(&y); else own.addLayer(&y); t.layers.push_back(l);
      y.setID(l.id / 2 + 1); y.setInfo("changed afterwards"); for (auto& m : y.getMaterialLayerVec()) m.setThickness(-1.25); break; }
    case 2: check(); break;
    case 3: if (viaParams) { int v = anyInt(g); switch (g.draw(3)) { case 0: t.id = v; p.setLayoutID(v); break; case 1: t.type = v; p.setLayoutType(v); break; default: t.number = v; p.setLayoutNumberOfLayers(v); } } else { oInfo = text(g); own.setInfo(oInfo); oID = anyInt(g); own.setID(oID); } break;
    default: {   // update one quantity of one layer
      if (t.layers.empty()) break; int i = (int)g.draw(t.layers.size()); auto& l = t.layers[i]; auto* y = const_cast<gear::TrackerPlanesLayerImpl*>(lay().getLayer(i)); ++updates;
      int what = (int)g.draw(4);
      if (what == 0) { l.id = anyInt(g); y->setID(l.id); } else if (what == 1) { l.info = text(g); y->setInfo(l.info); }
      else {
        bool sens = what == 3; size_t cnt = sens ? l.sens.size() : l.mat.size(); if (!cnt) break; size_t j = g.draw(cnt);
        TpSpec::M& m = sens ? (TpSpec::M&)l.sens[j] : l.mat[j]; int f = (int)g.draw(sens ? 18 : 12); double d = num(g); int v = anyInt(g); string x = text(g);
        g.note("update layer ", i, sens ? " sensitive " : " material ", j, " field ", f);
        auto upd = [&](auto& q) { switch (f) { case 0: q.setPositionX(d); break; case 1: q.setPositionY(d); break; case 2: q.setPositionZ(d); break; case 3: q.setRotationXY(d); break; case 4: q.setRotationZX(d); break; case 5: q.setRotationZY(d); break; case 6: q.setSizeX(d); break; case 7: q.setSizeY(d); break; case 8: q.setThickness(d); break; case 9: q.setRadLength(d); break; case 10: q.setID(v); break; case 11: q.setInfo(x); break; default:; } };
        if (f < 10) m.v[f] = d; else if (f == 10) m.id = v; else if (f == 11) m.info = x;
        if (!sens) upd(y->getMaterialLayerVec()[j]); else {
          auto& q = y->getSensitiveLayerVec()[j]; auto& s = l.sens[j]; upd(q);
          switch (f) { case 12: s.w[0] = d; q.setPitchX(d); break; case 13: s.w[1] = d; q.setPitchY(d); break; case 14: s.w[2] = d; q.setResolutionX(d); break; case 15: s.w[3] = d; q.setResolutionY(d); break; case 16: s.npx = v; q.setNpixelX(v); break; case 17: s.npy = v; q.setNpixelY(v); break; default:; }
        }
      }
    }
  }
  check();
  g.nontrivial(t.layers.size() >= 2); if (updates) g.label("updated"); g.label(viaParams ? "parameters" : "layout");
}

PROP(ftd, 12000, 500000) {
  FSpec f; std::unique_ptr<gear::FTDParametersImpl> p(new gear::FTDParametersImpl());
  const int n = g.many(0, 16, 100);
  double scale = std::pow(10., (double)g.integer(-3, 6));
  auto sc = [&](Gen& g) { return g.real(-2, 2) * scale; };
  for (int k = 0; k < n; ++k) {
    FSpec::L l = genFLayer(g, sc); l.zsign = g.boolean() ? 1 : -1; l.nSensors = g.chance(1, 4) ? (int)g.integer(0, 200) : (int)g.integer(0, 8); if (l.dbl && l.nSensors % 2 && g.boolean()) ++l.nSensors;
    l.nPetals = (int)g.integer(1, 40);
    l.z = std::fabs(l.z) + scale * 1e-3; l.zoff = std::fabs(l.z) * 0.9 * g.frac(); if (g.chance(1, 4)) l.zoff = 0;   // no petal at z = 0
    for (int q : {1}) { l.u[q] = std::fabs(l.u[q]); l.s[q] = std::fabs(l.s[q]); }
    if (g.chance(1, 2)) l.half = 3.141592653589793 / l.nPetals;
    f.layers.push_back(l); addTo(*p, l);
    if (g.chance(1, 6)) compare(g, *p, f, -1, "FTD");
  }
  g.note(show(f));
  compare(g, *p, f, -1, "FTD");
  const gear::FTDLayerLayout& y = p->getFTDLayerLayout();
  for (int k = 0; k < 2 * n; ++k) {
    const auto& l = f.layers[k % n]; double side = k < n ? 1 : -1; string where = "layer " + std::to_string(k) + " of " + std::to_string(n);
    compareLayer(g, y, k, l, -1, where);
    if (k < n) { REQ_NEAR(y.getMaxRadius(k), l.u[0] + l.u[4], 1e-12, 1e-15 * scale); REQ_NEAR(y.getMaxRadius(k, true), l.s[0] + l.s[4], 1e-12, 1e-15 * scale); }
    for (int q = 0; q < 4; ++q) {
      int petal = q == 0 ? 0 : q == 1 ? l.nPetals - 1 : (int)g.draw(l.nPetals);
      double tol = 1e-12 * (std::fabs(l.z) + std::fabs(l.zoff) + l.u[1] + l.s[1]);
      double z = side * (l.z + (petal % 2 ? -1 : 1) * l.zsign * l.zoff);
      REQ_NEAR(y.getSupportZposition(k, petal), z, 0, tol, where, " petal ", petal);
      REQ_NEAR(y.getPhiPetalCd(k, petal), l.phi0 + petal * 2 * l.half, 1e-12, 1e-12 * (std::fabs(l.phi0) + std::fabs(petal * 2 * l.half)), where, " petal ", petal);
      for (int r = 0; r < 5; ++r) {
        int s = r == 0 ? 0 : r == 1 ? l.nSensors + 1 : r == 2 ? l.nSensors : r == 3 ? l.nSensors / 2 + (int)g.draw(2) : (int)g.integer(-2, l.nSensors + 2);
        if (s < 1 || s > l.nSensors) { REQ_THROWS(gear::Exception, y.getSensitiveZposition(k, petal, s), where, " petal ", petal, " sensor ", s, " of ", l.nSensors); continue; }
        bool back = l.dbl && s > l.nSensors / 2;
        REQ_NEAR(y.getSensitiveZposition(k, petal, s), z + (back ? 1 : -1) * side * (l.u[1] + l.s[1]) / 2, 0, tol, where, " petal ", petal, " sensor ", s, " of ", l.nSensors, back ? " back" : " front");
      }
    }
  }
  if (n) { REQ_THROWS(std::exception, y.getNPetals(2 * n)); REQ_THROWS(std::exception, y.getSensitiveWidth(2 * n + 5)); }
  g.nontrivial(n >= 2); if (n > 7) g.label(">7 layers");
}
