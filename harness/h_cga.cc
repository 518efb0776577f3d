// P28: material and fields through Mokka's interface (src/gearcga), on a stand-in (stub/CGADefs.h)
#include "boxworld.h"
#include "pads.h"
#include "stub/CGADefs.h"
#include "gearcga/CGAGearDistanceProperties.h"
#include "gearcga/CGAGearPointProperties.h"
#include <unistd.h>
#include <sys/wait.h>

namespace {
struct Cell { cell_ids id; int flag; string region; bool tracker, calo; };
// what the stand-in answers from
struct Sim { World w; std::map<const TGeoNode*, Cell> cell; double f[6][4]; vector<vector<string>> inits; bool shot = false; vector<Seg> met; vector<std::array<double, 3>> at; } * sim = 0;
vector<vector<string>>* inits = 0;
const TGeoNode* node(const double* p) { return at(sim->w.mgr.top, p); }
const TGeoNode* known(const double* p) { const TGeoNode* n = node(p); return n ? n : sim->w.mgr.top; }
const TGeoMaterial& mat(const double* p) { return *known(p)->vol->medium->mat; }
double lin(const double* c, const double* p) { return c[0] * p[0] + c[1] * p[1] + c[2] * p[2] + c[3]; }
// integral of a linear function along a line, times its direction
double along(int f, const double* p, const double* q) { double m[3], s = 0; for (int i = 0; i < 3; ++i) m[i] = (p[i] + q[i]) / 2; for (int i = 0; i < 3; ++i) s += lin(sim->f[f + i], m) * (q[i] - p[i]); return s; }
}
void CGAInit(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f) { if (inits) inits->push_back({a, b, c, d, e, f}); }
void CGABeamOn(double* a, double* b, double* dir, char* particle, float energy, int n) {
  sim->met.clear(); if (string(particle) != "geantino" || !(energy > 0)) return;
  double p[3], q[3], L = 0, D = 0; for (int i = 0; i < 3; ++i) { p[i] = a[i] * 10; L += (b[i] - a[i]) * (b[i] - a[i]); D += dir[i] * dir[i]; } if (!(D > 0)) return; L = std::sqrt(L) * 10; D = std::sqrt(D); for (int i = 0; i < 3; ++i) q[i] = p[i] + dir[i] / D * L;
  auto s = pieces(sim->w, p, q); for (int k = 0; k < n; ++k) sim->met.insert(sim->met.end(), s.begin(), s.end());
}
void CGAGetStepsForJava(vector<string>& vn, vector<string>& mn, vector<double>& d, vector<double>& x, vector<double>& y, vector<double>& z, vector<double>& X, vector<double>& I) {
  vn.clear(); mn.clear(); d.clear(); x.clear(); y.clear(); z.clear(); X.clear(); I.clear();
  for (auto& s : sim->met) { vn.push_back(s.vol); mn.push_back(s.mat); d.push_back(s.len); x.push_back(0); y.push_back(0); z.push_back(0); X.push_back(s.rad ? s.len / s.rad : 0); I.push_back(s.inter ? s.len / s.inter : 0); }
}
cell_ids CGAGetCellId(double x, double y, double z, int& flag, double, double, double) { double p[3] = {x, y, z}; const TGeoNode* n = node(p); if (!n) { flag = -1; return {-1, 0}; } const Cell& c = sim->cell[n]; flag = c.flag; return c.id; }
double CGAGetBdl(double* a, double* b) { return along(0, a, b); }
double CGAGetEdl(double* a, double* b) { return along(3, a, b); }
string CGAGetMaterialName(double* p) { return mat(p).name; }
double CGAGetDensity(double* p) { return mat(p).dens; }
double CGAGetTemperature(double* p) { return mat(p).temp; }
double CGAGetPressure(double* p) { return mat(p).press; }
double CGAGetRadLen(double* p) { return mat(p).rad; }
double CGAGetIntLen(double* p) { return mat(p).inter; }
vector<double> CGAGetLocalPosition(double* p) { vector<double> l(3); known(p)->toLocal(p, l.data()); return l; }
vector<double> CGAGetB(double* p) { return {lin(sim->f[0], p), lin(sim->f[1], p), lin(sim->f[2], p)}; }
vector<double> CGAGetE(double* p) { return {lin(sim->f[3], p), lin(sim->f[4], p), lin(sim->f[5], p)}; }
vector<string> CGAGetListOfLogicalVolumes(double* p) { vector<string> r; for (const TGeoNode* n = known(p); n; n = n->mother) r.push_back(n->vol->name); return r; }
vector<string> CGAGetListOfPhysicalVolumes(double* p) { vector<string> r; for (const TGeoNode* n = known(p); n; n = n->mother) r.push_back(n->name); return r; }
string CGAGetRegionName(double* p) { return sim->cell[known(p)].region; }
bool CGAIsTracker(double* p) { return sim->cell[known(p)].tracker; }
bool CGAIsCalorimeter(double* p) { return sim->cell[known(p)].calo; }

namespace {
struct In { In(Sim& s) { sim = &s; } ~In() { sim = 0; } };
void makeSim(pbt::Gen& g, Sim& s) {
  makeWorld(g, s.w); for (auto& f : s.f) for (double& x : f) x = g.real(-4, 4);
  for (auto& n : s.w.nodes) { Cell c; c.id.id0 = g.chance(1, 4) ? (int)g.draw(0x80000000u) : (int)g.draw(5000); c.id.id1 = g.chance(1, 3) ? (int)(unsigned)g.draw(0x100000000u) : (int)g.draw(5000); c.flag = (int)g.draw(4) - 1; c.region = "region" + std::to_string(g.draw(3)); c.tracker = g.boolean(); c.calo = g.boolean(); s.cell[n.get()] = c; }
}
string list(const vector<string>& v) { string s; for (auto& x : v) s += x + " "; return s; }
}

PROP(distance, 4000, 100000) {
  Sim s; makeSim(g, s); In in(s); gear::CGAGearDistanceProperties d("steer", "model", "", "host", "user", ""); int hit = 0; vector<Line> lines;
  for (int k = 0; k < 10; ++k) {
    Line l = lines.size() && g.chance(1, 4) ? lines[g.draw(lines.size())] : anyLine(g, s.w); if (lines.size() && g.chance(1, 6)) { l = lines.back(); std::swap_ranges(l.p, l.p + 3, l.q); if (!proper(s.w, l)) continue; } lines.push_back(l);
    auto want = pieces(s.w, l.p, l.q); int what = (int)g.draw(6); Vector3D p = V(l.p), q = V(l.q); std::ostringstream o; o.precision(17); o << "query " << what << " from " << l.p[0] << "," << l.p[1] << "," << l.p[2] << " to " << l.q[0] << "," << l.q[1] << "," << l.q[2]; string where = o.str(); g.note(where); hit += want.size() >= 2;
    double X = 0, I = 0; vector<string> m; for (auto& x : want) { m.push_back(x.mat); if (x.rad) X += x.len / x.rad; if (x.inter) I += x.len / x.inter; } double eps = 1e-6 * (want.size() + 1);
    switch (what) {
      case 0: REQ_NEAR(d.getNRadlen(p, q), X, 1e-9, eps, where); break;
      case 1: REQ_NEAR(d.getNIntlen(p, q), I, 1e-9, eps, where); break;
      case 2: REQ_NEAR(d.getBdL(p, q), along(0, l.p, l.q), 1e-9, 1e-9, where); break;
      case 3: REQ_NEAR(d.getEdL(p, q), along(3, l.p, l.q), 1e-9, 1e-9, where); break;
      default: {   // the two lists run parallel
        const vector<string>* mn = 0; const vector<double>* th = 0; if (what == 4) { mn = &d.getMaterialNames(p, q); th = &d.getMaterialThicknesses(p, q); } else { th = &d.getMaterialThicknesses(p, q); mn = &d.getMaterialNames(p, q); }
        size_t n = 0; vector<Seg> a; REQ_EQ(th->size(), mn->size(), where); for (; n < th->size(); ++n) if ((*th)[n] > 1e-6) a.push_back({"", (*mn)[n], (*th)[n], 0, 0});
        vector<Seg> b; for (auto& x : want) if (x.len > 1e-6) b.push_back(x);
        if (want.empty() || want[0].len > 1e-4) { REQ_EQ(a.size(), b.size(), where, " materials: ", list(*mn)); for (size_t i = 0; i < a.size(); ++i) { REQ_EQ(a[i].mat, b[i].mat, "piece ", i, " ", where); REQ_NEAR(a[i].len, b[i].len, 1e-9, 1e-6, "piece ", i, " ", where); } } } }
  }
  g.nontrivial(hit >= 3);
}

PROP(point, 4000, 100000) {
  Sim s; makeSim(g, s); In in(s); gear::CGAGearPointProperties d("steer", "model", "", "host", "user", ""); Quiet quiet; int deep = 0;
  for (int k = 0; k < 25; ++k) {
    double p[3]; inBox(g, *s.w.nodes[g.draw(s.w.nodes.size())], p); int what = (int)g.draw(15); if (what == 14 && g.boolean()) { int a = (int)g.draw(3); p[a] = g.boolean() ? s.w.mgr.top->hi[a] + g.generic(1e-3, 5) : s.w.mgr.top->lo[a] - g.generic(1e-3, 5); }
    if (!clear(s.w, p, 1e-9)) continue; const TGeoNode* n = node(p); Vector3D v = V(p); std::ostringstream o; o.precision(17); o << "query " << what << " at " << p[0] << "," << p[1] << "," << p[2]; string where = o.str(); g.note(where); deep += n && n->mother; const TGeoMaterial& m = mat(p); const Cell& c = s.cell[known(p)];
    auto vec = [&](const Vector3D& x, const vector<double>& e) { for (int i = 0; i < 3; ++i) REQ_EQ(x[i], e[i], "component ", i, " ", where); };
    switch (what) {
      case 0: REQ_EQ(d.getMaterialName(v), m.name, where); break; case 1: REQ_EQ(d.getDensity(v), m.dens, where); break; case 2: REQ_EQ(d.getTemperature(v), m.temp, where); break; case 3: REQ_EQ(d.getPressure(v), m.press, where); break;
      case 4: REQ_EQ(d.getRadlen(v), m.rad, where); break; case 5: REQ_EQ(d.getIntlen(v), m.inter, where); break; case 6: vec(d.getLocalPosition(v), CGAGetLocalPosition(p)); break; case 7: vec(d.getB(v), CGAGetB(p)); break; case 8: vec(d.getE(v), CGAGetE(p)); break;
      case 9: REQ_EQ(list(d.getListOfLogicalVolumes(v)), list(CGAGetListOfLogicalVolumes(p)), where); break; case 10: REQ_EQ(list(d.getListOfPhysicalVolumes(v)), list(CGAGetListOfPhysicalVolumes(p)), where); break;
      case 11: REQ_EQ(d.getRegion(v), c.region, where); break; case 12: REQ_EQ(d.isTracker(v), c.tracker, where); break; case 13: REQ_EQ(d.isCalorimeter(v), c.calo, where); break;
      default:
        if (!n || c.flag == -1) { REQ_THROWS(gear::Exception, d.getCellID(v), where, n ? " in no sensitive volume" : " outside of the world"); g.label(n ? "no sensitive volume" : "outside of the world"); }
        else { long long id = d.getCellID(v); REQ_EQ((unsigned)(id & 0xffffffffLL), (unsigned)c.id.id0, where, " lower word"); REQ_EQ((unsigned)((unsigned long long)id >> 32), (unsigned)c.id.id1, where, " upper word"); g.label(c.flag ? "cell" : "guard ring"); } } }
  g.nontrivial(deep >= 3);
}

// the simulation is started once in the life of a program, with the arguments of the first object: the check executes
// itself anew with the constructor calls in the environment; the answer is printed to descriptor 3
namespace {
struct Fresh { Fresh() {
  const char* e = getenv("GEAR_PBT_CGA"); if (!e) return;
  vector<vector<string>> log; inits = &log; string r; vector<string> all(1); for (; *e; ++e) if (*e == '\n') all.push_back(""); else all.back() += *e; all.pop_back(); vector<string> first;
  for (size_t i = 0; i + 7 <= all.size(); i += 7) { string* a = &all[i + 1]; if (!i) first.assign(a, a + 6); if (all[i] == "1") delete new gear::CGAGearPointProperties(a[0], a[1], a[2], a[3], a[4], a[5]); else delete new gear::CGAGearDistanceProperties(a[0], a[1], a[2], a[3], a[4], a[5]); if (log.size() != 1 && r.empty()) r = "started " + std::to_string(log.size()) + " times after " + std::to_string(i / 7 + 1) + " objects"; }
  if (r.empty() && log[0] != first) r = "started with " + list(log[0]);
  if (r.empty()) r = "fine"; if (write(3, r.data(), r.size())) {} _exit(0); } } fresh;
}
PROP(started_once, 200, 5000) {
  vector<string> a; int n = 1 + g.size(0, 6); for (int i = 0; i < n; ++i) { a.push_back(std::to_string(g.draw(2))); for (int k = 0; k < 6; ++k) a.push_back(g.chance(1, 5) ? "" : xmlw::ident(g) + std::to_string(k)); }
  string e; for (auto& x : a) e += x + "\n"; g.note("objects (1: point, 0: distance) and their arguments\n", e);
  int fd[2]; if (pipe(fd)) throw pbt::Discard(); pid_t c = fork();
  if (c == 0) { dup2(fd[1], 3); for (int i = 4; i < 64; ++i) close(i); setenv("GEAR_PBT_CGA", e.c_str(), 1); setenv("ASAN_OPTIONS", "detect_leaks=0", 1); execl("/proc/self/exe", "cga", (char*)0); _exit(99); }
  close(fd[1]); string r; char b[512]; for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) r.append(b, k); close(fd[0]); int st = 0; waitpid(c, &st, 0);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status ", st); REQ_EQ(r, string("fine")); g.nontrivial(n >= 2);
}
