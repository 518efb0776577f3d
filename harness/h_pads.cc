// P10 - P13 (layout part): pad layouts
#include "pads.h"
using namespace pads;
typedef std::unique_ptr<gear::PadRowLayout2D> Lay;

static Kind anyKind(Gen& g) { return g.pick<Kind>({RECT, SIZE, ANGLE, VERS}); }
static void lab(Gen& g, const LSpec& s, const LModel& m) {
  g.label(s.kind == RECT ? "rectangular" : s.kind == SIZE ? "fixed pad size" : s.kind == ANGLE ? "fixed pad angle" : "versatile");
  bool full = false; for (auto& r : m.rows) full |= r.full; if (full) g.label("full circle rows");
  g.nontrivial(m.rows.size() >= 2 && m.nPads >= 4);
}
static double scaleOf(const LModel& m) { double s = 1e-3; for (int k = 0; k < 4; ++k) s = std::max(s, std::fabs(m.ext[k])); return s; }
// a plane of a full circle may be given as [0,2pi] or from its smallest phi (which one is decided by rounding)
static void compareExtent(Gen& g, const gear::PadRowLayout2D& L, const LModel& m, double tol) {
  double sc = scaleOf(m); const std::vector<double>& e = L.getPlaneExtent();
  REQ_EQ((int)e.size(), 4);
  for (int q = 0; q < 2; ++q) REQ_NEAR(e[q], m.ext[q], tol, tol * sc, "extent ", q);
  if (m.kind == VERS && m.span > TWOPI - 1e-9 && pbt::near(e[2], 0, 0, 1e-12) && pbt::near(e[3], TWOPI, 1e-12, 0)) return;
  if (m.kind == VERS && m.span > TWOPI - 1e-9 && m.span < TWOPI + 1e-9) { REQ_NEAR(e[2], m.lo, tol, tol * sc, "extent 2"); REQ_NEAR(e[3], m.hi, tol, tol * sc, "extent 3"); return; }
  for (int q = 2; q < 4; ++q) REQ_NEAR(e[q], m.ext[q], tol, tol * sc, "extent ", q);
}

// ---------------- P10 ----------------
PROP(pad_numbering, 40000, 1500000) {
  LSpec s = genLayout(g, anyKind(g)); g.note(show(s)); LModel m = modelOf(s);
  Lay l(build(s, g)); lab(g, s, m); const gear::PadRowLayout2D& L = *l;
  int nR = (int)m.rows.size();
  REQ_EQ(L.getNRows(), nR); REQ_EQ(L.getNPads(), m.nPads);
  REQ_EQ(L.getCoordinateType(), m.polar ? 2 : 1); REQ_EQ(L.getPadLayoutType(), m.polar ? 2 : 1); REQ_EQ(L.getPadLayoutImplType(), (int)m.kind);
  std::set<int> seen;
  for (int r = 0; r < nR; ++r) {
    const vector<int>& p = L.getPadsInRow(r); REQ_EQ((int)p.size(), m.rows[r].n, "pads in row ", r);
    for (int k = 0; k < (int)p.size(); ++k) {
      REQUIRE(seen.insert(p[k]).second, "index ", p[k], " listed twice (row ", r, " pad ", k, ")");
      REQ_EQ(L.getPadIndex(r, k), p[k], "row ", r, " pad ", k); REQ_EQ(L.getRowNumber(p[k]), r); REQ_EQ(L.getPadNumber(p[k]), k);
    }
    int n = m.rows[r].n; bool full = m.rows[r].full;
    for (int k = 0; k < n; ++k) {
      if (k > 3 && k < n - 3 && (k % 7)) continue;
      // "up" is the neighbour with the next higher number: right in cartesian, left in polar layouts
      auto up = [&](int i) { return m.polar ? L.getLeftNeighbour(i) : L.getRightNeighbour(i); };
      auto down = [&](int i) { return m.polar ? L.getRightNeighbour(i) : L.getLeftNeighbour(i); };
      int i = L.getPadIndex(r, k);
      if (k + 1 < n) { REQ_EQ(up(i), L.getPadIndex(r, k + 1), "row ", r, " pad ", k); REQ_EQ(down(up(i)), i); }
      else if (full) { REQ_EQ(up(i), L.getPadIndex(r, 0), "row ", r, " last pad"); REQ_EQ(down(up(i)), i); }
      else REQ_THROWS(std::exception, up(i), "row ", r, " last pad ", k);
      if (k > 0) REQ_EQ(down(i), L.getPadIndex(r, k - 1), "row ", r, " pad ", k);
      else if (full) REQ_EQ(down(i), L.getPadIndex(r, n - 1), "row ", r, " first pad");
      else REQ_THROWS(std::exception, down(i), "row ", r, " first pad");
    }
    for (int bad : {-1, n, n + 1 + (int)g.draw(100), 65535, 65536, -65536, INT_MAX, INT_MIN, (int)(0x10000 + g.draw(n))}) if (bad < 0 || bad >= n) REQ_THROWS(std::exception, L.getPadIndex(r, bad), "row ", r, " of ", n, " pads, pad ", bad);
  }
  REQ_EQ((int)seen.size(), L.getNPads());
  for (int bad : {-1, nR, nR + 1 + (int)g.draw(100), 32767, -32768, INT_MAX, INT_MIN}) {
    if (bad >= 0 && bad < nR) continue;
    REQ_THROWS(std::exception, L.getPadIndex(bad, 0), "row ", bad);
    bool none = true; try { none = L.getPadsInRow(bad).empty(); } catch (const std::exception&) {}
    REQUIRE(none, "pads listed for row ", bad, " of ", nR);
  }
}
// indices that no pad has: a neighbour given is a pad, every other query refuses or answers, without touching anything outside the layout
PROP(illegal_index, 40000, 1500000) {
  LSpec s = genLayout(g, anyKind(g)); g.note(show(s)); LModel m = modelOf(s); Lay l(build(s, g)); lab(g, s, m); const gear::PadRowLayout2D& L = *l;
  int nR = (int)m.rows.size(), refused = 0, answered = 0, bad = 0;
  auto safe = [&](auto f) { try { f(); ++answered; } catch (const std::exception&) { ++refused; } };
  for (int q = 0; q < 12; ++q) {
    int r = (int)g.draw(nR), k = g.pick<int>({m.rows[r].n, m.rows[r].n + 1 + (int)g.draw(100), 0xffff, 0x7fff, 0x8000});
    bool badRow = g.draw(3) != 0; if (badRow) { r = g.pick<int>({nR, nR + 1 + (int)g.draw(1000), 0x7fff, -1, -1 - (int)g.draw(1000), -0x8000}); if (g.boolean()) k = (int)g.draw(10); }
    else if (k < m.rows[r].n) continue;
    if (k > 0xffff) k = 0xffff; if (!badRow && k < m.rows[r].n) continue;
    int i = (int)(((unsigned)(r & 0xffff) << 16) | (unsigned)k); double a = g.generic(m.ext[0], m.ext[1]), b = g.generic(m.ext[2], m.ext[3]); if (m.polar) a = std::max(std::fabs(a), 1e-3);
    for (bool left : {true, false}) safe([&] {
      int j = left ? L.getLeftNeighbour(i) : L.getRightNeighbour(i), jr = L.getRowNumber(j), jk = L.getPadNumber(j);
      if (jr < 0 || jr >= nR || jk < 0 || jk >= m.rows[jr].n) g.label("bad neighbour"), bad = i;
    });
    REQUIRE(bad == 0, "a neighbour that does not exist is returned for index ", bad);
    safe([&] { L.getRowNumber(i); }); safe([&] { L.getPadNumber(i); }); safe([&] { L.getPadWidth(i); }); safe([&] { L.getPadPitch(i); }); safe([&] { L.getPadHeight(i); });
    safe([&] { L.getPadCenter(i); }); safe([&] { L.isInsidePad(a, b, i); }); safe([&] { L.getDistanceToPad(a, b, i); }); if (badRow) safe([&] { L.getRowHeight(r); });
  }
  if (refused) g.label("refused"); if (answered) g.label("answered");
  // and nothing changed
  REQ_EQ(L.getNRows(), nR); REQ_EQ(L.getNPads(), m.nPads); compareExtent(g, L, m, 1e-11);
}
// invalid rows are refused and change nothing
PROP(refused_rows, 40000, 1500000) {
  LSpec s = genLayout(g, g.boolean() ? RECT : VERS); g.note(show(s)); LModel m = modelOf(s); Lay l(build(s, g)); lab(g, s, m);
  for (int k = 0; k < 4; ++k) {
    if (s.kind == RECT) {
      auto* r = static_cast<gear::RectangularPadRowLayout*>(l.get()); double W = s.p1 - s.p0;
      switch (g.draw(7)) {
        case 0: REQ_THROWS(gear::Exception, r->addRow(1, 4, W / 4 * (1.001 + g.frac()), 1), "pads too wide"); break;
        case 1: REQ_THROWS(gear::Exception, r->addRow(1 + g.draw(3), 4, W / 8, 2., 1.9 * g.frac() + 1e-3), "row lower than pad"); break;
        case 2: REQ_THROWS(gear::Exception, r->addRow(1, 4, W / 8, 2., 0, W * 0.5, W * 0.4)); break;
        case 3: REQ_THROWS(gear::Exception, r->addRow(1, -(int)g.draw(5), W / 8, 2.)); break;
        case 4: REQ_THROWS(gear::Exception, r->addRow(-(int)g.draw(5), 2, W / 8, 2.)); break;
        case 5: REQ_THROWS(gear::Exception, r->addRow(1, 2, -W / 8, 2.)); break;
        case 6: REQ_THROWS(gear::Exception, r->addRow(1, 2, W / 8, 2., 0, g.boolean() ? -1 : 0, -1)); break;
      }
    } else {
      auto* v = static_cast<gear::VersatileDiskRowLayout*>(l.get()); double rc = m.ext[1] + 0.5;
      switch (g.draw(6)) {
        case 0: REQ_THROWS(gear::Exception, v->addRow(7, rc * TWOPI / 7 * (1.001 + g.frac()), 1.), "more than a full circle"); break;
        case 1: REQ_THROWS(gear::Exception, v->addRow(-(int)g.draw(4), 0.1, 1.)); break;
        case 2: REQ_THROWS(gear::Exception, v->addRow(2, 0.01 * rc, 1., 0, 0.011 * rc)); break;
        case 3: REQ_THROWS(gear::Exception, v->addRow(2, 0.01 * rc, -(double)g.draw(3))); break;
        case 4: REQ_THROWS(gear::Exception, v->addRow(2, -0.01 * rc, 1.)); break;
        case 5: REQ_THROWS(gear::Exception, v->addRow(2, 0.01 * rc, 1., 0, 0, 0, -(int)g.draw(3))); break;
      }
    }
    REQ_EQ(l->getNRows(), (int)m.rows.size()); REQ_EQ(l->getNPads(), m.nPads);
    compareExtent(g, *l, m, 1e-11);
  }
}

// ---------------- P11 ----------------
PROP(pad_geometry, 100000, 4000000) {
  LSpec s = genLayout(g, anyKind(g)); g.note(show(s)); LModel m = modelOf(s); Lay l(build(s, g)); lab(g, s, m); const gear::PadRowLayout2D& L = *l;
  double sc = scaleOf(m), tol = 1e-11;
  compareExtent(g, L, m, tol);
  for (int r = 0; r < (int)m.rows.size(); ++r) {
    const RowM& R = m.rows[r];
    REQ_NEAR(L.getRowHeight(r), R.hi - R.lo, tol, tol * sc, "row ", r);
    for (int k = 0; k < R.n; ++k) {
      if (k > 2 && k < R.n - 2 && g.draw(6)) continue;
      int i = L.getPadIndex(r, k); gear::Vector2D c = L.getPadCenter(i); double ca = R.a0 + (k + .5) * R.pitch;
      double along = m.polar ? c[1] : c[0], across = m.polar ? c[0] : c[1];
      REQ_NEAR(across, R.c, tol, tol * sc, "centre of row ", r, " pad ", k);
      if (m.polar) along = wrapTo(along, ca);
      REQ_NEAR(along, ca, tol, tol * std::max(sc, 30.), "centre of row ", r, " pad ", k);
      REQ_NEAR(L.getPadWidth(i), R.metalW, tol, 0, "row ", r, " pad ", k); REQ_NEAR(L.getPadPitch(i), R.pitch, tol * 100, 0, "row ", r, " pad ", k); REQ_NEAR(L.getPadHeight(i), R.padH, tol * 100, 0, "row ", r, " pad ", k);
      // the centre is inside the pad, and inside no neighbour
      REQUIRE(R.metalW <= 0 || L.isInsidePad(c[0], c[1], i), "centre outside pad: row ", r, " pad ", k);
      REQUIRE(R.metalW <= 0 || L.isInsidePad(c[0], c[1]), "centre outside layout: row ", r, " pad ", k);
    }
  }
  if (s.kind == RECT) {
    auto& rows = static_cast<const gear::RectangularPadRowLayout&>(L).rows(); REQ_EQ(rows.size(), m.rows.size());
    for (size_t r = 0; r < rows.size(); ++r) { REQ_EQ(rows[r].NPad, m.rows[r].n); REQ_NEAR(rows[r].Center, m.rows[r].c, tol, tol * sc); REQ_NEAR(rows[r].WidthPerPad, m.rows[r].pitch, tol, 0); }
    unsigned tot = 0; for (unsigned n : static_cast<const gear::RectangularPadRowLayout&>(L).equalRowNumbers()) tot += n; REQ_EQ(tot, (unsigned)rows.size());
  }
  if (s.kind == VERS) {
    auto& rows = static_cast<const gear::VersatileDiskRowLayout&>(L).rows(); REQ_EQ(rows.size(), m.rows.size());
    for (size_t r = 0; r < rows.size(); ++r) {
      auto& a = rows[r]; auto& R = m.rows[r]; REQ_EQ(a.getRowNumber(), (int)r); REQ_EQ(a.getNPads(), R.n); REQ_NEAR(a.getRCentre(), R.c, tol, tol * sc); REQ_NEAR(a.getPadPitch(), R.pitch, tol, 0); REQ_NEAR(a.getPadPitch_mm(), R.pitch * R.c, tol, 0);
      REQ_NEAR(a.getPadWidth(), R.metalW, tol, 0); REQ_NEAR(a.getPadWidth_mm(), R.metalW * R.c, tol, 0); REQ_NEAR(a.getRowHeight(), R.hi - R.lo, tol, tol * sc); REQ_NEAR(a.getPadHeight(), R.padH, tol * 100, 0); REQ_NEAR(a.getOffset(), R.a0, tol * 10, tol * 30); REQ_NEAR(a.getOffset_mm(), R.a0 * R.c, tol * 10, tol * 30 * R.c);
      REQ_NEAR(a.getPhiMin(), R.a0, tol, tol * 30); REQ_NEAR(a.getPhiMax(), R.a0 + R.n * R.pitch, tol, tol * 30); REQ_NEAR(a.getRMin(), R.lo, tol, tol * sc); REQ_NEAR(a.getRMax(), R.hi, tol, tol * sc);
    }
  }
  if (s.kind == SIZE) { auto& f = static_cast<const gear::FixedPadSizeDiskLayout&>(L); REQ_EQ(f.getFixedPadWidth(), s.padW); REQ_EQ(f.getPadGap(), s.gap); }
  if (s.kind == ANGLE) { auto& f = static_cast<const gear::FixedPadAngleDiskLayout&>(L); REQ_EQ(f.getPadGap(), 0.); REQ_NEAR(f.getFixedPadAngle(), (s.phiMax - s.phiMin) / s.nPads, tol, 0); }
}
struct Pt { double a, b; };
// a point in or around a random pad, or anywhere around the plane; any representation of phi
static Pt genPoint(Gen& g, const LModel& m) {
  double a, b; int r = (int)g.draw(m.rows.size()); const RowM& R = m.rows[r]; int k = g.draw(4) == 0 ? (g.boolean() ? R.n - 1 : 0) : (int)g.draw(R.n);
  double along, across;
  switch (g.draw(8)) {
    case 6: along = R.a0 + (k + g.pick<double>({0, 0, 1, 0.5})) * R.pitch; across = g.pick<double>({R.lo, R.hi, R.c}); break;                  // corners and edges
    case 0: along = R.a0 + (k + .5) * R.pitch; across = R.c; break;                                                       // centre
    case 1: case 2: along = R.a0 + (k + g.frac()) * R.pitch; across = R.lo + (R.hi - R.lo) * g.frac(); break;                   // in the cell
    case 3: along = R.a0 + (k + g.generic(-1, 2)) * R.pitch; across = R.lo + (R.hi - R.lo) * g.generic(-1, 2); break;           // around
    case 4: along = R.a0 + g.pick<double>({-0.3, -0.01, R.n + 0.01, R.n + 0.3, -2., R.n + 2., 0.001, R.n - 0.001}) * R.pitch; across = R.lo + (R.hi - R.lo) * g.generic(-0.5, 1.5); break;  // beside the row
    default: { double w = m.polar ? TWOPI : m.ext[1] - m.ext[0], h = m.rows.back().hi - m.rows[0].lo; along = (m.polar ? 0 : m.ext[0]) + w * g.generic(-0.3, 1.3); across = m.rows[0].lo + h * g.generic(-0.4, 1.4); }
  }
  if (m.polar) { across = std::max(std::fabs(across), 1e-3); if (g.draw(3) == 0) along += TWOPI * g.integer(-2, 2); a = across; b = along; } else { a = along; b = across; }
  return Pt{a, b};
}
PROP(inside, 100000, 4000000) {
  LSpec s = genLayout(g, anyKind(g)); g.note(show(s)); LModel m = modelOf(s); Lay l(build(s, g)); lab(g, s, m); const gear::PadRowLayout2D& L = *l;
  double eps = 1e-9 * scaleOf(m); int nin = 0, nout = 0;
  for (int q = 0; q < 20; ++q) {
    Pt p = genPoint(g, m); int any = -1;
    for (int r = 0; r < (int)m.rows.size(); ++r) {
      const RowM& R = m.rows[r]; double across = m.polar ? p.a : p.b;
      double reach = std::max(R.padH, R.hi - R.lo) / 2 + 1; bool nearRow = std::fabs(across - R.c) < reach;
      for (int k = 0; k < R.n; ++k) {
        if (!nearRow && k > 1 && k < R.n - 1) continue;
        if (R.n > 40 && k > 1 && k < R.n - 2 && m.polar && std::fabs(wrapTo(p.b, R.a0 + (k + .5) * R.pitch) - (R.a0 + (k + .5) * R.pitch)) > 2 * R.pitch) continue;
        int in = insidePad(m, r, k, p.a, p.b, eps); if (in == 0) { any = any == 1 ? 1 : 0; continue; }
        if (in == 1) any = 1;
        REQ_EQ(L.isInsidePad(p.a, p.b, L.getPadIndex(r, k)), in == 1, "point ", p.a, ",", p.b, " row ", r, " pad ", k);
      }
    }
    // a point in the sub-border slop where neighbouring rows of pads touch is decided by either
    if (any == 0) continue;
    bool slop = false; if (s.kind == SIZE) for (auto& R : m.rows) if (R.padH > R.hi - R.lo && (std::fabs(p.a - R.lo) < 0.011 || std::fabs(p.a - R.hi) < 0.011)) slop = true;
    if (slop) continue;
    REQ_EQ(L.isInsidePad(p.a, p.b), any == 1, "point ", p.a, ",", p.b);
    (any == 1 ? nin : nout)++;
  }
  if (nin) g.label("inside points"); if (nout) g.label("outside points"); g.nontrivial(nin && nout);
}

// ---------------- P12 ----------------
PROP(nearest_pad, 100000, 4000000) {
  LSpec s = genLayout(g, anyKind(g)); g.note(show(s)); LModel m = modelOf(s); Lay l(build(s, g)); lab(g, s, m); const gear::PadRowLayout2D& L = *l;
  double eps = 1e-9 * scaleOf(m); Quiet quiet;
  for (int q = 0; q < 25; ++q) {
    Pt p = genPoint(g, m);
    if (!m.polar && g.draw(12) == 0) { p.a = g.pick<double>({m.ext[0], m.ext[1], std::nextafter(m.ext[1], -1e9), std::nextafter(m.ext[0], 1e9), p.a}); p.b = g.pick<double>({m.ext[2], m.ext[3], std::nextafter(m.ext[3], -1e9), p.b}); }
    if (m.polar && g.draw(16) == 0) { auto& R = m.rows[g.draw(m.rows.size())]; p.b = g.boolean() ? R.a0 : R.a0 + R.n * R.pitch; if (g.boolean()) p.a = g.boolean() ? R.lo : R.hi; if (p.a < 1e-3) p.a = 1e-3; }
    int i = L.getNearestPad(p.a, p.b), r = L.getRowNumber(i), k = L.getPadNumber(i);
    REQUIRE(r >= 0 && r < (int)m.rows.size() && k >= 0 && k < m.rows[r].n, "invalid pad: row ", r, " pad ", k, " for point ", p.a, ",", p.b);
    const RowM& R = m.rows[r];
    if (m.polar) {
      double best = 1e300; int hit = -1, hitPad = -1;
      for (int t = 0; t < (int)m.rows.size(); ++t) {
        auto& T = m.rows[t]; double d = sectorDist(p.a, p.b, T.lo, T.hi, T.a0, T.a0 + T.n * T.pitch); best = std::min(best, d);
        double w = wrapFrom(p.b, T.a0) - T.a0; int kk = (int)((w) / T.pitch); double off = w - kk * T.pitch; double ea = eps / std::max(p.a, 1e-3) + 1e-9;
        if (p.a > T.lo + eps && p.a < T.hi - eps && kk < T.n && off > ea && off < T.pitch - ea) { hit = t; hitPad = kk; }
      }
      if (hit >= 0) { REQUIRE(r == hit && k == hitPad, "point ", p.a, ",", p.b, " is in row ", hit, " pad ", hitPad, " but nearest pad is row ", r, " pad ", k); }
      double d = cellDist(m, r, k, p.a, p.b);
      REQUIRE(d <= best + 1e-7 * scaleOf(m), "point ", p.a, ",", p.b, ": returned row ", r, " pad ", k, " at distance ", d, " but there is one at ", best);
    } else {
      double x = std::min(std::max(p.a, m.ext[0]), m.ext[1]), y = std::min(std::max(p.b, m.ext[2]), m.ext[3]);
      auto dy = [&](const RowM& T) { return std::max(0., std::fabs(y - T.c) - T.padH / 2); };
      double best = 1e300; for (auto& T : m.rows) best = std::min(best, dy(T));
      REQUIRE(dy(R) <= best + eps, "point ", p.a, ",", p.b, ": row ", r, " is ", dy(R), " away vertically but there is a row at ", best);
      double w = (x - R.a0) / R.pitch; int kk = std::min(std::max((int)std::floor(w), 0), R.n - 1);
      bool edge = std::fabs(w - std::round(w)) < 1e-7;
      REQUIRE(k == kk || (edge && std::abs(k - kk) <= 1), "point ", p.a, ",", p.b, ": pad ", k, " expected ", kk, " in row ", r);
    }
  }
  // every pad from its own centre
  for (int r = 0; r < (int)m.rows.size(); ++r) for (int k : {0, m.rows[r].n - 1, (int)g.draw(m.rows[r].n)}) {
    int i = L.getPadIndex(r, k); gear::Vector2D c = L.getPadCenter(i); REQ_EQ(L.getNearestPad(c[0], c[1]), i, "from the centre of row ", r, " pad ", k);
  }
}

// the innermost rows can be too short for a pad, and a layout can be without any pad at all
PROP(without_pads, 20000, 800000) {
  int kind = (int)g.draw(5); Quiet quiet;
  if (kind < 4) {
    std::unique_ptr<gear::PadRowLayout2D> l; double r0 = posD(g, 1, 100), r1 = r0 + posD(g, 1, 50), h = g.generic(0.1, 3);
    switch (kind) {
      case 0: l.reset(new gear::RectangularPadRowLayout(r0, r1, h)); break;
      case 1: l.reset(new gear::VersatileDiskRowLayout(r0)); break;
      case 2: { int n = g.draw(2) * (int)g.draw(5); l.reset(new gear::FixedPadAngleDiskLayout(r0, r1, n, 0, h, n ? 0 : (int)g.draw(4))); break; }
      default: if (g.boolean()) l.reset(new gear::FixedPadSizeDiskLayout(r0, r1, 2 * (r1 - r0) + 1, 0.1)); else l.reset(new gear::FixedPadSizeDiskLayout(r0, r1, (r1 - r0) / (1.5 + g.draw(4)), 2 * r1 * h, 0, 0, h));
    }
    g.note("layout without pads, kind " + std::to_string(kind)); REQ_EQ(l->getNPads(), 0, kind);
    for (int q = 0; q < 4; ++q) {
      double a = r0 + (r1 - r0) * g.generic(-0.5, 1.5), b = h * g.generic(-0.5, 1.5); if (a < 1e-3) a = 1e-3;
      REQ_THROWS(std::exception, l->getNearestPad(a, b), "nearest pad of ", a, ",", b, " in a layout without pads, kind ", kind);
      REQUIRE(!l->isInsidePad(a, b), "point ", a, ",", b, " inside a layout without pads, kind ", kind);
    }
    g.label("no pads"); return;
  }
  LSpec s; s.kind = SIZE; s.p0 = g.boolean() ? 0. : posD(g, 0.1, 50); s.padH = posD(g, 0.3, 30); int nr = g.size(2, 30); s.p1 = s.p0 + s.padH * (nr + 0.05 + 0.9 * g.frac());
  s.p2 = g.chance(1, 3) ? TWOPI : 0.02 + 6.2 * g.frac(); s.padW = (s.p0 + s.padH * (0.6 + 0.8 * nr * g.frac())) * s.p2; LModel m = modelOf(s); g.note(show(s));
  int first = -1; for (int r = 0; r < (int)m.rows.size(); ++r) { double u = m.rows[r].c * s.p2 / s.padW; if (std::fabs(u - std::round(u)) < 1e-5) g.discard(); if (first < 0 && m.rows[r].n > 0) first = r; }
  if (first < 0) g.discard();
  gear::FixedPadSizeDiskLayout L(s.p0, s.p1, s.padH, s.padW, 0, 0, s.p2); REQ_EQ(L.getNPads(), m.nPads); double sc = scaleOf(m); bool inner = false;
  for (int q = 0; q < 20; ++q) {
    double a = std::max(1e-3, s.p0 + (s.p1 - s.p0) * g.generic(-0.2, 1.3)), b = s.p2 * g.generic(-0.3, 1.3); if (g.boolean()) a = std::max(1e-3, s.p0 + (m.rows[first].lo - s.p0) * g.frac());
    int i = L.getNearestPad(a, b), r = L.getRowNumber(i), k = L.getPadNumber(i); if (a < m.rows[first].lo) inner = true;
    REQUIRE(r >= first && r < (int)m.rows.size() && k >= 0 && k < m.rows[r].n, "invalid pad: row ", r, " pad ", k, " for point ", a, ",", b);
    double best = 1e300; for (int t = first; t < (int)m.rows.size(); ++t) { auto& T = m.rows[t]; best = std::min(best, sectorDist(a, b, T.lo, T.hi, T.a0, T.a0 + T.n * T.pitch)); }
    double d = cellDist(m, r, k, a, b); REQUIRE(d <= best + 1e-7 * sc, "point ", a, ",", b, ": returned row ", r, " pad ", k, " at distance ", d, " but there is one at ", best);
    if (a < m.rows[first].lo - 1e-9 * sc) { double padLo = m.rows[first].c - s.padH / 2; if (a < padLo - 0.011) REQUIRE(!L.isInsidePad(a, b), "point ", a, ",", b, " is inside a row without pads"); }
  }
  if (first > 0) g.label("rows without pads"); g.nontrivial(first > 0 && inner);
}

// ---------------- P13 ----------------
PROP(distance_to_pad, 100000, 4000000) {
  LSpec s = genLayout(g, anyKind(g)); g.note(show(s)); LModel m = modelOf(s); Lay l(build(s, g)); lab(g, s, m); const gear::PadRowLayout2D& L = *l;
  double sc = scaleOf(m); int nin = 0, nout = 0;
  for (int q = 0; q < 25; ++q) {
    Pt p = genPoint(g, m); int r = (int)g.draw(m.rows.size()), k = (int)g.draw(m.rows[r].n);
    if (g.draw(3) == 0) { Quiet quiet; int i = L.getNearestPad(p.a, p.b); r = L.getRowNumber(i); k = L.getPadNumber(i); }
    double d = cellDist(m, r, k, p.a, p.b), got = L.getDistanceToPad(p.a, p.b, L.getPadIndex(r, k));
    // sqrt of a difference of squares in the library limits the accuracy close to corners
    REQ_NEAR(got, d, 1e-8, 3e-8 * std::max(sc, p.a), "point ", p.a, ",", p.b, " row ", r, " pad ", k);
    REQUIRE(got >= 0, got); if (d > 1e-6 * sc) { REQUIRE(got > 0, "distance 0 outside"); ++nout; }
    const RowM& R = m.rows[r]; double across = m.polar ? p.a : p.b, along = m.polar ? wrapTo(p.b, R.a0 + (k + .5) * R.pitch) : p.a;
    double u = (along - R.a0) / R.pitch - k, v = (across - R.lo) / (R.hi - R.lo);
    if (u > 1e-6 && u < 1 - 1e-6 && v > 1e-6 && v < 1 - 1e-6) { REQ_EQ(got, 0., "inside"); ++nin; }
  }
  if (nin) g.label("points inside"); if (nout) g.label("points outside"); g.nontrivial(nin && nout);
}
