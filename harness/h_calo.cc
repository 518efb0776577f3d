// P20: calorimeter layers and extent
#include "model.h"
using namespace model;
PROP(layers, 30000, 600000) {
  CalSpec c; c.barrel = g.boolean(); c.a = modD(g); c.b = modD(g); c.c = modD(g); c.sym = (int)g.integer(0, 16); c.phi0 = g.real(-7, 7);
  bool defaults = g.chance(1, 4);
  std::unique_ptr<gear::CalorimeterParametersImpl> p;
  if (defaults) { p.reset(c.barrel ? new gear::CalorimeterParametersImpl(c.a, c.b) : new gear::CalorimeterParametersImpl(c.a, c.b, c.c)); c.sym = c.barrel ? 8 : 2; c.phi0 = 0; }
  else p.reset(c.barrel ? new gear::CalorimeterParametersImpl(c.a, c.b, c.sym, c.phi0) : new gear::CalorimeterParametersImpl(c.a, c.b, c.c, c.sym, c.phi0));
  g.note(show(c));
  auto check = [&]() {
    const gear::CalorimeterParameters& q = *p;
    REQ_EQ(q.getLayoutType(), c.barrel ? 1 : 2); REQ_EQ(q.getSymmetryOrder(), c.sym); REQ_EQ(q.getPhi0(), c.phi0);
    const auto& l = q.getLayerLayout(); REQ_EQ(l.getNLayers(), (int)c.layers.size());
    for (size_t k = 0; k < c.layers.size(); ++k) {
      auto& s = c.layers[k];
      REQ_NEAR(l.getDistance(k), s.dist, 1e-12, 1e-300, "layer ", k); REQ_EQ(l.getThickness(k), s.thick, "layer ", k); REQ_EQ(l.getAbsorberThickness(k), s.abs, "layer ", k);
      REQ_EQ(l.getCellSize0(k), s.c0, "layer ", k); REQ_EQ(l.getCellSize1(k), s.c1, "layer ", k);
    }
    for (int bad : {-1, (int)c.layers.size(), (int)c.layers.size() + 7, INT_MAX, INT_MIN}) {
      REQ_THROWS(std::exception, l.getDistance(bad), bad); REQ_THROWS(std::exception, l.getThickness(bad), bad); REQ_THROWS(std::exception, l.getAbsorberThickness(bad), bad);
      REQ_THROWS(std::exception, l.getCellSize0(bad), bad); REQ_THROWS(std::exception, l.getCellSize1(bad), bad);
    }
    double end = c.layers.empty() ? (c.barrel ? c.a : c.c) : c.layers.back().dist + c.layers.back().thick;
    const auto& e = q.getExtent(); REQ_EQ(e.size(), size_t(4));
    double scale = c.layers.empty() ? 0 : std::max(std::fabs(c.layers.back().dist), std::fabs(c.layers.back().thick));
    REQ_EQ(e[0], c.a);
    if (c.barrel) { REQ_NEAR(e[1], end, 0, 1e-12 * scale); REQ_EQ(e[2], 0.); REQ_EQ(e[3], c.b); }
    else { REQ_EQ(e[1], c.b); REQ_EQ(e[2], c.c); REQ_NEAR(e[3], end, 0, 1e-12 * scale); }
  };
  bool reserve = g.boolean(); (void)reserve;
  if (g.boolean()) check();
  int n = g.many(0, 25, 400, 20);
  for (int k = 0; k < n; ++k) {
    int rep = g.chance(1, 4) ? g.size(1, 5) : 1;
    CalSpec::L l; l.thick = g.chance(1, 8) ? 0. : modD(g); l.c0 = modD(g); l.c1 = modD(g); l.abs = modD(g); bool da = g.chance(1, 4); if (da) l.abs = 0;
    bool position = k == 0 ? g.chance(3, 4) : g.chance(1, 6); double dist = g.chance(1, 8) ? 0. : modD(g);
    for (int r = 0; r < rep; ++r) {
      if (position && r == 0) { l.dist = dist; g.note("position ", dist, " ", l.thick, " ", l.c0, " ", l.c1, " ", l.abs);
        if (da) p->layerLayout().positionLayer(dist, l.thick, l.c0, l.c1); else p->layerLayout().positionLayer(dist, l.thick, l.c0, l.c1, l.abs); }
      else { l.dist = c.layers.empty() ? 0. : c.layers.back().dist + c.layers.back().thick; g.note("add ", l.thick, " ", l.c0, " ", l.c1, " ", l.abs);
        if (da) p->layerLayout().addLayer(l.thick, l.c0, l.c1); else p->layerLayout().addLayer(l.thick, l.c0, l.c1, l.abs); }
      c.layers.push_back(l);
    }
    if (g.chance(1, 5)) check();
    if (g.chance(1, 20)) { g.note("copy"); std::unique_ptr<gear::CalorimeterParametersImpl> q(new gear::CalorimeterParametersImpl(*p)); p = std::move(q); }
  }
  check(); check();
  if (c.layers.empty()) g.label("no layer"); else if (c.layers.size() > 20) g.label(">20 layers");
  g.label(c.barrel ? "barrel" : "endcap"); g.nontrivial(c.layers.size() >= 2);
}
