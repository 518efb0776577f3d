// Reference models ("specs": plain data) of the geometry objects, generators for them, builders of the real objects
// and comparisons of real objects with specs. Shared by the harnesses.
#pragma once
#include "pbt.h"
#include "gear/GEAR.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include <climits>
#include <cfloat>
#include <memory>

namespace model {
using pbt::Gen; using pbt::fail; using pbt::near;
using std::string; using std::vector; using std::map;

// ---------- basic values ----------
inline int anyInt(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (int)g.integer(0, 9);
    case 1: return (int)g.integer(-1000, 1000);
    case 2: return g.pick<int>({INT_MAX, INT_MIN, INT_MAX - 1, 65535, 65536, -65536, 255, 256, 32767, 32768, -32768, -32769, 1 << 24, 1 << 30});
    case 3: return (int)(1u << g.draw(31)) - (int)g.draw(2);
    default: return (int)(uint32_t)g.draw(1ULL << 32);
  }
}
// finite double of any magnitude
inline double anyFinite(Gen& g) {
  switch (g.draw(7)) {
    case 0: return (double)g.integer(-10, 10);
    case 1: return g.real(-1000, 1000);
    case 2: return g.pick<double>({0., -0., 1., -1., 0.5, 1e-9, 1e9, 3.141592653589793, 1e-300, 1e300, -1e-5, 123456789., 0.1, 1. / 3., 99999.99});
    case 3: return g.generic(-1, 1);
    case 4: return g.generic(-1, 1) * std::pow(10., (double)g.integer(-12, 12));
    case 5: return g.generic(-1, 1) * std::pow(10., (double)g.integer(-300, 300));
    default: return g.generic(-5000, 5000);
  }
}
// moderate double (detector numbers)
inline double modD(Gen& g) {
  switch (g.draw(5)) {
    case 0: return (double)g.integer(0, 20);
    case 1: return g.pick<double>({0., 0.001, 0.5, 1e-6, 1e5, -3., -0.25, 2.5});
    case 2: return g.generic(-1, 1) * std::pow(10., (double)g.integer(-8, 8));
    default: return g.generic(-3000, 3000);
  }
}
inline double posD(Gen& g, double lo = 0.01, double hi = 3000) {
  if (g.draw(4) == 0) return lo * std::pow(hi / lo, g.frac());
  return g.real(lo, hi);
}
inline bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

// ---------- generic parameters ----------
struct PSpec {
  map<string, int> i; map<string, double> d; map<string, string> s;
  map<string, vector<int>> iv; map<string, vector<double>> dv; map<string, vector<string>> sv;
  size_t count() const { return i.size() + d.size() + s.size() + iv.size() + dv.size() + sv.size(); }
};
template <class V> string show(const vector<V>& v) { std::ostringstream o; o.precision(17); o << "["; for (size_t k = 0; k < v.size(); ++k) o << (k ? "," : "") << v[k]; o << "]"; return o.str(); }
inline string show(const PSpec& p) {
  std::ostringstream o; o.precision(17);
  for (auto& e : p.i) o << " int '" << e.first << "'=" << e.second;
  for (auto& e : p.d) o << " dbl '" << e.first << "'=" << e.second;
  for (auto& e : p.s) o << " str '" << e.first << "'='" << e.second << "'";
  for (auto& e : p.iv) o << " ints '" << e.first << "'=" << show(e.second);
  for (auto& e : p.dv) o << " dbls '" << e.first << "'=" << show(e.second);
  for (auto& e : p.sv) o << " strs '" << e.first << "'=" << show(e.second);
  return o.str();
}
inline void fill(gear::GearParametersImpl& p, const PSpec& s) {
  for (auto& e : s.i) p.setIntVal(e.first, e.second);
  for (auto& e : s.d) p.setDoubleVal(e.first, e.second);
  for (auto& e : s.s) p.setStringVal(e.first, e.second);
  for (auto& e : s.iv) p.setIntVals(e.first, e.second);
  for (auto& e : s.dv) p.setDoubleVals(e.first, e.second);
  for (auto& e : s.sv) p.setStringVals(e.first, e.second);
}
template <class M> vector<string> keysOf(const M& m) { vector<string> k; for (auto& e : m) k.push_back(e.first); return k; }
inline vector<string> sorted(vector<string> v) { std::sort(v.begin(), v.end()); return v; }

// tol < 0: exact (bitwise) comparison of doubles
inline void compare(Gen& g, const gear::GearParameters& p, const PSpec& s, double tol, const string& where) {
  auto kcmp = [&](const vector<string>& got, const vector<string>& want, const char* what) {
    ++g.evals;
    if (sorted(got) != want) fail(where, ": ", what, " keys are ", show(sorted(got)), " expected ", show(want));
  };
  kcmp(p.getIntKeys(), keysOf(s.i), "int"); kcmp(p.getDoubleKeys(), keysOf(s.d), "double"); kcmp(p.getStringKeys(), keysOf(s.s), "string");
  kcmp(p.getIntVecKeys(), keysOf(s.iv), "int vector"); kcmp(p.getDoubleVecKeys(), keysOf(s.dv), "double vector"); kcmp(p.getStringVecKeys(), keysOf(s.sv), "string vector");
  auto deq = [&](double a, double b) { return tol < 0 ? sameBits(a, b) : near(a, b, tol, 0); };
  for (auto& e : s.i) REQUIRE(p.getIntVal(e.first) == e.second, where, " int '", e.first, "' = ", p.getIntVal(e.first), " expected ", e.second);
  for (auto& e : s.d) REQUIRE(deq(p.getDoubleVal(e.first), e.second), where, " double '", e.first, "' = ", p.getDoubleVal(e.first), " expected ", e.second);
  for (auto& e : s.s) REQUIRE(p.getStringVal(e.first) == e.second, where, " string '", e.first, "' = '", p.getStringVal(e.first), "' expected '", e.second, "'");
  for (auto& e : s.iv) REQUIRE(p.getIntVals(e.first) == e.second, where, " ints '", e.first, "' = ", show(p.getIntVals(e.first)), " expected ", show(e.second));
  for (auto& e : s.dv) {
    const vector<double>& v = p.getDoubleVals(e.first);
    bool ok = v.size() == e.second.size(); for (size_t k = 0; ok && k < v.size(); ++k) ok = deq(v[k], e.second[k]);
    REQUIRE(ok, where, " doubles '", e.first, "' = ", show(v), " expected ", show(e.second));
  }
  for (auto& e : s.sv) REQUIRE(p.getStringVals(e.first) == e.second, where, " strings '", e.first, "' = ", show(p.getStringVals(e.first)), " expected ", show(e.second));
}

inline const string& alnum() { static string s = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; return s; }
inline string ident(Gen& g, int lo = 1, int hi = 12) {
  string s = g.str("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", 1, 1) + g.str(alnum() + "-.:", lo - 1, hi - 1);
  return s;
}

// ---------- calorimeter ----------
struct CalSpec {
  bool barrel = true; double a = 0, b = 0, c = 0;  // barrel: rMin,zMax; endcap: rMin,rMax,zMin
  int sym = 8; double phi0 = 0;
  struct L { double dist, thick, abs, c0, c1; };
  vector<L> layers; PSpec params;
};
inline string show(const CalSpec& c) {
  std::ostringstream o; o.precision(17);
  o << (c.barrel ? "barrel rmin=" : "endcap rmin=") << c.a << (c.barrel ? " zmax=" : " rmax=") << c.b; if (!c.barrel) o << " zmin=" << c.c;
  o << " sym=" << c.sym << " phi0=" << c.phi0 << " layers(dist,thick,abs,c0,c1):";
  for (auto& l : c.layers) o << " (" << l.dist << "," << l.thick << "," << l.abs << "," << l.c0 << "," << l.c1 << ")";
  o << show(c.params);
  return o.str();
}
} // namespace model
