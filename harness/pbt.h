// Minimal property-based testing engine (choice-sequence based, with integrated shrinking).
// Every random decision of a case is a bounded integer drawn from one recorded sequence, so any
// case can be replayed and shrunk generically (delete / zero / lower choices).
// Cases run in forked workers: crashes, sanitizer reports and runaway loops are failures of the case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <limits>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};           // generated case is outside the domain (counted, must stay rare)
struct Known { std::string id; };  // the case hit a listed known finding

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// when set (isolated replay), choices and notes are mirrored into shared memory so they survive a crash
struct CrashLog { uint64_t n, notesLen; uint64_t c[1 << 18]; char notes[1 << 17]; };
extern CrashLog* crashLog;

class Gen {
public:
  // fresh random case
  explicit Gen(uint64_t seed) : _state(seed) {}
  // replay: choices beyond the end are 0
  explicit Gen(const std::vector<uint64_t>& c) : _replay(true), _in(c) {}

  // uniform in [0,n)  (n>=1)
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (_replay) { v = _pos < _in.size() ? _in[_pos] : 0; ++_pos; if (n && v >= n) v = n ? v % n : v; }
    else {
      _state += 0x9e3779b97f4a7c15ULL;
      uint64_t z = _state;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      z ^= z >> 31;
      v = n ? (uint64_t)(((__uint128_t)z * n) >> 64) : z;
    }
    if (crashLog && rec.size() < (1u << 18)) { crashLog->c[rec.size()] = v; crashLog->n = rec.size() + 1; }
    rec.push_back(v);
    return v;
  }
  // integer in [lo,hi], shrinks to lo
  long integer(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo) + 1); }
  // small-biased size in [lo,hi]
  int size(int lo, int hi) {
    int span = hi - lo;
    if (span <= 0) return lo;
    switch (draw(4)) {
      case 0: return lo + (int)draw(std::min(span, 2) + 1);
      case 1: return lo + (int)draw(std::min(span, 5) + 1);
      default: return lo + (int)draw(span + 1);
    }
  }
  // small-biased size in [lo,hi], once in den cases between hi and huge
  int many(int lo, int hi, int huge, int den = 30) { return chance(1, den) ? (int)integer(hi, huge) : size(lo, hi); }
  bool boolean() { return draw(2) == 1; }
  // true with probability num/den; shrinks to false
  bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); }
  // real in [lo,hi]; mixture of coarse grid, end points and full precision
  double real(double lo, double hi) {
    switch (draw(8)) {
      case 0: return lo + (hi - lo) * draw(9) / 8.;           // coarse grid incl. end points
      case 1: { double r = std::floor((hi - lo)); if (r >= 1 && r < 1e15) return std::min(hi, std::ceil(lo) + (double)draw((uint64_t)r + 1)); }
      // fallthrough
      default: return lo + (hi - lo) * (double)draw(1ULL << 53) / 9007199254740992.0;
    }
  }
  // real strictly generic (full precision only)
  double frac() { return (double)draw(1ULL << 53) / 9007199254740992.0; }
  double generic(double lo, double hi) { return lo + (hi - lo) * frac(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  // string over an alphabet
  std::string str(const std::string& alphabet, int lo, int hi) {
    int n = size(lo, hi); std::string s;
    for (int i = 0; i < n; ++i) s += alphabet[draw(alphabet.size())];
    return s;
  }

  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const std::string& s) { labels.insert(s); }
  template <class... A> void note(const A&... a) {
    if (notes.size() > 20000) return;
    std::ostringstream o; o.precision(17); ((o << a), ...); notes += o.str(); notes += "\n";
    if (crashLog) { size_t k = std::min(notes.size(), sizeof(crashLog->notes)); memcpy(crashLog->notes, notes.data(), k); crashLog->notesLen = k; }
  }
  void discard() { throw Discard(); }
  void known(const std::string& id) { throw Known{id}; }

  std::vector<uint64_t> rec;
  bool nontriv = false;
  unsigned long evals = 0;   // additional oracle evaluations inside the case
  std::set<std::string> labels;
  std::string notes;
private:
  bool _replay = false;
  uint64_t _state = 0;
  std::vector<uint64_t> _in;
  size_t _pos = 0;
};

struct Test {
  std::string name;
  long quick, thorough;        // number of cases
  std::function<void(Gen&)> fn;
};
std::vector<Test>& registry();
struct Reg { Reg(const char* n, long q, long t, std::function<void(Gen&)> f) { registry().push_back({n, q, t, f}); } };
// scratch directory of this process (created by the engine, removed at the end)
const std::string& scratch();

template <class... A> [[noreturn]] void fail(const A&... a) {
  std::ostringstream o; o.precision(17); ((o << a), ...); throw Fail{o.str()};
}
inline bool near(double a, double b, double rel, double abs) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

} // namespace pbt

#define PROP(name, quick, thorough) \
  static void prop_##name(pbt::Gen& g); \
  static pbt::Reg reg_##name(#name, quick, thorough, prop_##name); \
  static void prop_##name(pbt::Gen& g)

#define REQUIRE(c, ...) do { ++g.evals; if (!(c)) pbt::fail(#c " is false: ", ##__VA_ARGS__); } while (0)
#define REQ_EQ(a, b, ...) do { ++g.evals; auto va_ = (a); auto vb_ = (b); if (!(va_ == vb_)) pbt::fail(#a " = ", va_, " but expected ", vb_, "  ", ##__VA_ARGS__); } while (0)
#define REQ_NEAR(a, b, rel, abs, ...) do { ++g.evals; double va_ = (a), vb_ = (b); if (!pbt::near(va_, vb_, rel, abs)) pbt::fail(#a " = ", va_, " but expected ", vb_, "  ", ##__VA_ARGS__); } while (0)
// expression must throw exactly a type caught as T
#define REQ_THROWS(T, expr, ...) do { ++g.evals; bool ok_ = false; std::string w_ = "nothing"; \
  try { (void)(expr); } catch (const T&) { ok_ = true; } catch (const pbt::Fail&) { throw; } catch (const std::exception& e_) { w_ = e_.what(); } \
  if (!ok_) pbt::fail(#expr " should throw " #T ", threw: ", w_, "  ", ##__VA_ARGS__); } while (0)
