// P22: vectors
#include "model.h"
#include "gearimpl/Vectors.h"
using namespace model; using gear::Vector3D;
static double comp(Gen& g) { switch (g.draw(5)) { case 0: return (double)g.integer(-5, 5); case 1: return g.pick<double>({0., -0., 1., -1., 1e-12, 1e12}); case 2: return g.generic(-1, 1) * std::pow(10., (double)g.integer(-30, 30)); default: return g.generic(-1000, 1000); } }
static double comp2(Gen& g) { return g.draw(3) == 0 ? (double)g.integer(-5, 5) : g.generic(-1000, 1000); }
struct XYZ { double a, b, c; XYZ(double x, double y, double z) : a(x), b(y), c(z) {} double x() const { return a; } double y() const { return b; } double z() const { return c; } };

PROP(cartesian, 60000, 1000000) {
  double x = comp(g), y = comp(g), z = comp(g); g.note(x, " ", y, " ", z); double arr[3] = {x, y, z};
  Vector3D a(x, y, z), b(x, y, z, Vector3D::cartesian), c((const double*)arr), d(XYZ(x, y, z)), e(a); Vector3D f; 
  REQUIRE(f.x() == 0 && f.y() == 0 && f.z() == 0, "default vector");
  f = a;
  Vector3D h; h[0] = x; h[1] = y; h[2] = z;
  Vector3D* all[] = {&a, &b, &c, &d, &e, &f, &h};
  double m = std::max(std::fabs(x), std::max(std::fabs(y), std::fabs(z)));
  double lx = (long double)x, r2 = (double)((long double)x * x + (long double)y * y + (long double)z * z), t2 = (double)((long double)x * x + (long double)y * y); (void)lx;
  for (Vector3D* v : all) {
    const Vector3D& q = *v;
    REQUIRE(sameBits(q.x(), x) && sameBits(q.y(), y) && sameBits(q.z(), z), "components ", q.x(), " ", q.y(), " ", q.z());
    REQUIRE(sameBits(v->x(), x) && sameBits(v->y(), y) && sameBits(v->z(), z), "components (non const)");
    REQUIRE(sameBits(q[0], x) && sameBits(q[1], y) && sameBits(q[2], z), "operator[]");
    REQ_EQ(q[3], 0.); REQ_EQ(q[-1], 0.);
    REQ_NEAR(q.r2(), r2, 1e-14, 0); REQ_NEAR(q.r(), sqrt(r2), 1e-14, 0); REQ_NEAR(q.trans2(), t2, 1e-14, 0);
    REQ_NEAR(q.trans(), sqrt(t2), 1e-14, 0); REQ_NEAR(q.rho(), sqrt(t2), 1e-14, 0);
    REQ_NEAR(q.phi(), (x == 0 && y == 0) ? 0. : atan2(y, x), 1e-14, 1e-300);
    if (m > 1e-140) REQ_NEAR(q.theta(), m == 0 ? 0. : acos(std::max(-1., std::min(1., z / sqrt(r2)))), 1e-7, 1e-7);
    if (m > 1e-140) REQ_NEAR(q.theta(), atan2(sqrt(t2), z), 1e-13, 0);
    if (m == 0) REQ_EQ(q.theta(), 0.);
    if (r2 > 1e-280 && r2 < 1e280) { Vector3D u = v->unit(); REQ_NEAR(u.r(), 1., 1e-13, 0); REQ_NEAR(u.x(), x / sqrt(r2), 1e-13, 0); REQ_NEAR(u.y(), y / sqrt(r2), 1e-13, 0); REQ_NEAR(u.z(), z / sqrt(r2), 1e-13, 0); }
    XYZ k = v->to<XYZ>(); REQUIRE(sameBits(k.a, x) && sameBits(k.b, y) && sameBits(k.c, z), "to<>");
    XYZ k2 = *v; REQUIRE(k2.a == x && k2.b == y && k2.c == z, "implicit conversion");
  }
  { std::ostringstream o; auto& r = o << a; REQUIRE(&r == &o, "stream"); string t = o.str(); for (char& ch : t) if (ch == '(' || ch == ')' || ch == '[' || ch == ']' || ch == ',') ch = ' '; auto six = [](double d) { std::ostringstream s; s << d; return s.str(); };
    std::istringstream i(t); vector<string> w; string s; while (i >> s) w.push_back(s); vector<string> want = {six(x), six(y), six(z), "-", "phi:", six(a.phi()), "rho:", six(a.rho()), "theta:", six(a.theta()), "r:", six(a.r())}; REQUIRE(w == want, "printed ", o.str()); }
  float fa[3] = {(float)x, (float)y, (float)z}; Vector3D ff((const float*)fa); REQUIRE(ff.x() == fa[0] && ff.y() == fa[1] && ff.z() == fa[2], "float array");
  g.nontrivial(x != 0 && y != 0 && z != 0);
}
PROP(systems, 60000, 1000000) {
  double r = g.real(0, 1000), phi = g.real(-10, 10), z = g.real(-1000, 1000), th = g.real(0, M_PI); g.note(r, " ", phi, " ", z, " ", th);
  Vector3D c(r, phi, z, Vector3D::cylindrical), s(r, phi, th, Vector3D::spherical);
  double tol = 1e-12 * (1 + r);
  REQ_NEAR(c.x(), r * cos(phi), 0, tol); REQ_NEAR(c.y(), r * sin(phi), 0, tol); REQ_EQ(c.z(), z); REQ_NEAR(c.rho(), r, 0, tol);
  REQ_NEAR(s.x(), r * sin(th) * cos(phi), 0, tol); REQ_NEAR(s.y(), r * sin(th) * sin(phi), 0, tol); REQ_NEAR(s.z(), r * cos(th), 0, tol); REQ_NEAR(s.r(), r, 0, tol);
  if (r > 1e-3) { REQ_NEAR(cos(c.phi() - phi), 1., 0, 1e-9); REQ_NEAR(sin(c.phi() - phi), 0., 0, 1e-9); REQ_NEAR(s.theta(), th, 0, 1e-7);
    if (sin(th) > 1e-4) { REQ_NEAR(sin(s.phi() - phi), 0., 0, 1e-8); REQ_NEAR(cos(s.phi() - phi), 1., 0, 1e-8); } }
  // the same point rebuilt from each system's coordinates
  Vector3D b(s.rho(), s.phi(), s.z(), Vector3D::cylindrical), d(s.r(), s.phi(), s.theta(), Vector3D::spherical);
  for (int k = 0; k < 3; ++k) { REQ_NEAR(b[k], s[k], 0, tol * 10); REQ_NEAR(d[k], s[k], 0, tol * 10); }
  g.nontrivial(r > 0 && phi != 0);
}
PROP(algebra, 60000, 1000000) {
  Vector3D a(comp2(g), comp2(g), comp2(g)), b(comp2(g), comp2(g), comp2(g)); double s = comp2(g);
  g.note(a.x(), " ", a.y(), " ", a.z(), "  ", b.x(), " ", b.y(), " ", b.z(), " s=", s);
  Vector3D sum = a + b, dif = a - b, sc = s * a, cr = a.cross(b); double dt = a.dot(b); double t = 1e-10;
  for (int k = 0; k < 3; ++k) { REQ_EQ(sum[k], a[k] + b[k]); REQ_EQ(dif[k], a[k] - b[k]); REQ_EQ(sc[k], s * a[k]); int i = (k + 1) % 3, j = (k + 2) % 3; REQ_NEAR(cr[k], a[i] * b[j] - a[j] * b[i], 1e-12, t * 1e2); }
  REQ_NEAR(dt, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1e-12, 1e-8);
  REQ_NEAR(cr.dot(a), 0., 0, 1e-3); REQ_NEAR(cr.dot(b), 0., 0, 1e-3); REQ_NEAR(cr.r2() + dt * dt, a.r2() * b.r2(), 1e-9, 1e-6);
  Vector3D z; 
  REQUIRE(a == a, ""); REQUIRE((a == b) == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]), "==");
  Vector3D a2 = a; int k = (int)g.draw(3); a2[k] = a2[k] + 1; REQUIRE(!(a == a2), "differs in component ", k);
  REQUIRE(a + z == a, ""); REQUIRE(a - a == z, "");
  g.nontrivial(a.r() > 0 && b.r() > 0 && cr.r() > 0);
}
PROP(containers, 20000, 200000) {
  double a = anyFinite(g), b = anyFinite(g), c = anyFinite(g); unsigned bad = (unsigned)g.pick<long>({2, 3, 4, 100, (long)UINT_MAX}); g.note(a, " ", b, " ", c, " bad=", bad);
  gear::Vector2D v(a, b), e; const gear::Vector2D& cv = v; REQUIRE(sameBits(v[0], a) && sameBits(v[1], b) && sameBits(cv[0], a) && sameBits(cv[1], b), ""); REQ_EQ(e[0], 0.); REQ_EQ(e[1], 0.);
  REQ_THROWS(std::out_of_range, v[bad], bad); REQ_THROWS(std::out_of_range, cv[bad], bad);
  v[1] = c; REQUIRE(sameBits(v[1], c) && sameBits(v[0], a), "assign"); v[0] = b; REQUIRE(sameBits(v[0], b) && sameBits(v[1], c), "assign");
  gear::Vector3D_T<double> w(a, b, c), x; const gear::Vector3D_T<double>& cw = w; REQUIRE(sameBits(w[0], a) && sameBits(w[1], b) && sameBits(w[2], c), "3"); for (int k = 0; k < 3; ++k) REQ_EQ(x[k], 0.);
  if (bad > 2) { REQ_THROWS(std::out_of_range, w[bad], bad); REQ_THROWS(std::out_of_range, cw[bad], bad); }
  gear::Vector2D_T<float> vf((float)1.5, (float)2.5); REQ_EQ(vf[0], 1.5f); REQ_EQ(vf[1], 2.5f);
  gear::VectorND_T<5> n; for (unsigned k = 0; k < 5; ++k) { REQ_EQ(n[k], 0.); n[k] = k; } for (unsigned k = 0; k < 5; ++k) REQ_EQ(n[k], double(k)); REQ_THROWS(std::out_of_range, n[5]);
  g.nontrivial();
}
