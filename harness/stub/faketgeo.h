// Stand-in for the few classes of ROOT's geometry package that src/geartgeo uses: nested axis-parallel boxes
// (rotated by multiples of 90 degrees about z), tracked with the semantics documented for TGeoNavigator.
#pragma once
#include <cmath>
#include <array>
#include <algorithm>
#include <string>
#include <vector>
#include <map>
#include <memory>
typedef double Double_t; typedef int Int_t; typedef bool Bool_t; typedef const char Option_t;
class TGeoManager; class TGeoVolume; class TGeoNode;
struct TGeoMaterial { std::string name; double dens = 0, temp = 0, press = 0, rad = 0, inter = 0;
  const char* GetName() const { return name.c_str(); } double GetDensity() const { return dens; } double GetTemperature() const { return temp; } double GetPressure() const { return press; } double GetRadLen() const { return rad; } double GetIntLen() const { return inter; } };
struct TGeoMedium { TGeoMaterial* mat = 0; TGeoMaterial* GetMaterial() const { return mat; } const char* GetName() const { return mat->GetName(); } };
class TGeoVolume { public: std::string name; TGeoMedium* medium = 0; TGeoManager* mgr = 0;
  const char* GetName() const { return name.c_str(); } TGeoMedium* GetMedium() const { return medium; } TGeoMaterial* GetMaterial() const { return medium->mat; } TGeoManager* GetGeoManager() const { return mgr; } };
class TGeoNode { public: std::string name; TGeoVolume* vol = 0; TGeoNode* mother = 0; std::vector<TGeoNode*> kids; double lo[3], hi[3]; double t[3] = {0, 0, 0}; int quarter = 0;   // global box; local = R(-quarter*90)(p - t)
  const char* GetName() const { return name.c_str(); } TGeoVolume* GetVolume() const { return vol; } TGeoMedium* GetMedium() const { return vol->medium; } TGeoNode* GetMotherVolumeNode() const { return mother; } int GetNdaughters() const { return (int)kids.size(); } TGeoNode* GetDaughter(int i) const { return kids[i]; }
  bool in(const double* p) const { for (int i = 0; i < 3; ++i) if (p[i] < lo[i] || p[i] > hi[i]) return false; return true; }
  void toLocal(const double* p, double* l) const { double x = p[0] - t[0], y = p[1] - t[1]; static const int C[4] = {1, 0, -1, 0}, S[4] = {0, 1, 0, -1}; l[0] = C[quarter] * x + S[quarter] * y; l[1] = -S[quarter] * x + C[quarter] * y; l[2] = p[2] - t[2]; } };
class TVirtualGeoTrack { public: std::vector<std::array<double, 4>> pts; void AddPoint(Double_t x, Double_t y, Double_t z, Double_t w) { pts.push_back({x, y, z, w}); } int GetNpoints() const { return (int)pts.size(); } };
class TGeoManager { public:
  TGeoNode* top = 0; TGeoVolume* topVolume = 0; bool closed = false;
  int stickEvery = 0; mutable int steps = 0;          // every n-th boundary search gets stuck once: a tiny step that stays in the volume
  TGeoManager() {} TGeoManager(const char*, const char*) {}
  Int_t AddTrack(Int_t, Int_t, TVirtualGeoTrack* = 0) { tracks.emplace_back(new TVirtualGeoTrack()); return (int)tracks.size() - 1; }
  TVirtualGeoTrack* GetLastTrack() { return tracks.empty() ? 0 : tracks.back().get(); } TVirtualGeoTrack* GetTrack(int i) { return tracks[i].get(); } Int_t GetNtracks() const { return (int)tracks.size(); }
  void ClearTracks() { tracks.clear(); } void CleanGarbage() {}
  TGeoNode* FindNode(Double_t x, Double_t y, Double_t z) { double p[3] = {x, y, z}; SetCurrentPoint(p); return FindNode(); }
  TGeoNode* FindNode(Bool_t = true) { node = deepest(pt); outside = !node; if (outside) node = top; return outside ? 0 : node; }
  TGeoNode* InitTrack(const Double_t* p, const Double_t* d) { SetCurrentPoint(p); SetCurrentDirection(d); return FindNode(); }
  TGeoNode* InitTrack(Double_t x, Double_t y, Double_t z, Double_t nx, Double_t ny, Double_t nz) { double p[3] = {x, y, z}, d[3] = {nx, ny, nz}; return InitTrack(p, d); }
  Bool_t IsOutside() const { return outside; }
  void SetCurrentPoint(const Double_t* p) { for (int i = 0; i < 3; ++i) pt[i] = p[i]; } void SetCurrentPoint(Double_t x, Double_t y, Double_t z) { pt[0] = x; pt[1] = y; pt[2] = z; }
  void SetCurrentDirection(const Double_t* d) { for (int i = 0; i < 3; ++i) dir[i] = d[i]; } void SetCurrentDirection(Double_t x, Double_t y, Double_t z) { dir[0] = x; dir[1] = y; dir[2] = z; }
  const Double_t* GetCurrentPoint() const { return pt; } const Double_t* GetLastPoint() const { return last; } const Double_t* GetCurrentDirection() const { return dir; } Double_t GetStep() const { return step; }
  // step to the next boundary, at most stepmax; the node behind it, 0 outside
  TGeoNode* FindNextBoundaryAndStep(Double_t stepmax = 1e30, Bool_t = false) {
    for (int i = 0; i < 3; ++i) last[i] = pt[i];
    if (!node || outside) { step = 0; return 0; }
    if (stickEvery && ++steps % stickEvery == 0) { step = 1e-10; for (int i = 0; i < 3; ++i) pt[i] += step * dir[i]; return node; }
    double s = std::max(0., out(*node)); TGeoNode* kid = 0; for (TGeoNode* k : node->kids) { double u = entry(*k); if (u >= 0 && u < s) { s = u; kid = k; } }
    if (s > stepmax) { step = stepmax; for (int i = 0; i < 3; ++i) pt[i] += step * dir[i]; return node; }
    step = s + 1e-10; for (int i = 0; i < 3; ++i) pt[i] = last[i] + step * dir[i];
    if (kid) { node = kid; down(); } else { TGeoNode* m = node->mother; if (!m) { outside = true; return 0; } node = m; while (node && !node->in(pt)) node = node->mother; if (!node) { node = top; outside = true; return 0; } down(); }
    return node;
  }
  void MasterToLocal(const Double_t* g, Double_t* l) const { if (node) node->toLocal(g, l); else for (int i = 0; i < 3; ++i) l[i] = g[i]; }
  TGeoNode* GetCurrentNode() const { return node; } TGeoNode* GetTopNode() const { return top; } TGeoVolume* GetCurrentVolume() const { return node ? node->vol : 0; } TGeoVolume* GetTopVolume() const { return topVolume; } TGeoNode* GetMother(Int_t up = 1) const { TGeoNode* n = node; while (up-- && n) n = n->mother; return n; }
  Int_t GetLevel() const { int n = 0; for (TGeoNode* k = node; k && k->mother; k = k->mother) ++n; return n; }
  void CdUp() { if (node && node->mother) node = node->mother; } void CdTop() { node = top; } void SetTopVolume(TGeoVolume* v) { topVolume = v; } void CloseGeometry(Option_t* = "d") { closed = true; }
private:
  std::vector<std::unique_ptr<TVirtualGeoTrack>> tracks; TGeoNode* node = 0; bool outside = true; double pt[3] = {0, 0, 0}, last[3] = {0, 0, 0}, dir[3] = {0, 0, 0}, step = 0;
  TGeoNode* deepest(const double* p) const { if (!top || !top->in(p)) return 0; TGeoNode* n = top; for (bool more = true; more;) { more = false; for (TGeoNode* k : n->kids) if (k->in(p)) { n = k; more = true; break; } } return n; }
  void down() { for (bool more = true; more;) { more = false; for (TGeoNode* k : node->kids) if (k->in(pt)) { node = k; more = true; break; } } }
  double out(const TGeoNode& n) const { double s = 1e300; for (int i = 0; i < 3; ++i) if (dir[i] != 0) s = std::min(s, ((dir[i] > 0 ? n.hi[i] : n.lo[i]) - pt[i]) / dir[i]); return s; }
  double entry(const TGeoNode& n) const { double a = -1e300, b = 1e300; for (int i = 0; i < 3; ++i) { if (dir[i] == 0) { if (pt[i] < n.lo[i] || pt[i] > n.hi[i]) return -1; continue; } double u = (n.lo[i] - pt[i]) / dir[i], v = (n.hi[i] - pt[i]) / dir[i]; if (u > v) std::swap(u, v); a = std::max(a, u); b = std::min(b, v); } return a <= b && b > 0 ? std::max(a, 0.) : -1; }
};
class TGDMLParse { public: static std::map<std::string, TGeoVolume*>& files() { static std::map<std::string, TGeoVolume*> f; return f; }
  TGeoVolume* GDMLReadFile(const char* n) { auto i = files().find(n); return i == files().end() ? 0 : i->second; } };
