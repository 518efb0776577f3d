#include "pbt.h"
#include <chrono>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fstream>
#include <unordered_set>
#include <iostream>

using namespace pbt;

namespace pbt {
std::vector<Test>& registry() { static std::vector<Test> r; return r; }
static std::string g_scratch;
CrashLog* crashLog = nullptr;
const std::string& scratch() { return g_scratch; }
}

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=2048:malloc_context_size=8:quarantine_size_mb=32";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Opt {
  std::string prop = "X", tier = "quick", out, replayDir = ".", replay, only;
  uint64_t seed = 1; int jobs = 8; double cap = 600; double scale = 1; bool list = false; bool all = false;
} opt;

enum Status { PASS = 0, FAILED = 1, DISCARDED = 2, KNOWN = 3 };
struct Outcome { Status st = PASS; std::string msg; };

static uint64_t caseSeed(const std::string& test, uint64_t index) {
  uint64_t h = 1469598103934665603ULL;
  for (char c : opt.prop + "/" + test) { h ^= (unsigned char)c; h *= 1099511628211ULL; }
  return mix64(mix64(opt.seed * 0x2545F4914F6CDD1DULL + 12345) ^ mix64(h + index * 0x9E3779B97F4A7C15ULL));
}

static Outcome runCase(const Test& t, Gen& g) {
  Outcome o;
  try { t.fn(g); }
  catch (const Fail& f) { o.st = FAILED; o.msg = f.msg; }
  catch (const Discard&) { o.st = DISCARDED; }
  catch (const Known& k) { o.st = KNOWN; o.msg = k.id; }
  catch (const std::exception& e) { o.st = FAILED; o.msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { o.st = FAILED; o.msg = "unexpected exception of unknown type"; }
  return o;
}

static void onAlarm(int) { const char m[] = "\nCASE DID NOT TERMINATE (CPU limit)\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(78); }
static void armCpu(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, 0); }

struct Shared { volatile uint64_t test, index, running, done; };

static std::string slurp(const std::string& f, size_t maxn = 1 << 20) {
  std::ifstream i(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {}); if (s.size() > maxn) s.resize(maxn); return s;
}

// run a choice sequence (or a fresh seed) in a forked child
struct Iso { Outcome out; std::vector<uint64_t> rec; std::string notes; };
static Iso isolated(const Test& t, const std::vector<uint64_t>* choices, uint64_t seed) {
  static int counter = 0;
  static CrashLog* log = (CrashLog*)mmap(0, sizeof(CrashLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  log->n = log->notesLen = 0;
  std::string f = g_scratch + "/iso" + std::to_string(++counter), fe = f + ".err";
  pid_t p = fork();
  if (p == 0) {
    int d = open("/dev/null", O_WRONLY); dup2(d, 1);
    int e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2);
    signal(SIGPROF, onAlarm); armCpu(12);
    crashLog = log;
    Gen g = choices ? Gen(*choices) : Gen(seed);
    Outcome o = runCase(t, g);
    FILE* fp = fopen(f.c_str(), "wb");
    fprintf(fp, "%d %zu\n", (int)o.st, g.rec.size());
    for (auto c : g.rec) fprintf(fp, "%llu ", (unsigned long long)c);
    fprintf(fp, "\n%zu\n", o.msg.size()); fwrite(o.msg.data(), 1, o.msg.size(), fp);
    fwrite(g.notes.data(), 1, g.notes.size(), fp);
    fclose(fp);
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  Iso r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::ifstream in(f, std::ios::binary); int s; size_t n, m; in >> s >> n; r.out.st = (Status)s; r.rec.resize(n);
    for (auto& c : r.rec) { unsigned long long x; in >> x; c = x; }
    in >> m; in.get(); r.out.msg.resize(m); if (m) in.read(&r.out.msg[0], m);
    r.notes.assign((std::istreambuf_iterator<char>(in)), {});
  } else {
    r.out.st = FAILED;
    std::ostringstream o;
    if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st); else o << "process exited with status " << WEXITSTATUS(st);
    o << "\n" << slurp(fe, 6000);
    r.out.msg = o.str();
    r.rec.assign(log->c, log->c + log->n);
    r.notes.assign(log->notes, log->notesLen);
  }
  unlink(f.c_str()); unlink(fe.c_str());
  return r;
}

static Iso shrink(const Test& t, Iso best) {
  static const double limit = getenv("PBT_SHRINK_S") ? atof(getenv("PBT_SHRINK_S")) : 30;  // for mutation runs
  double t0 = now(); long execs = 0;
  auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
    if (execs > 3000 || now() - t0 > limit) return false;
    ++execs;
    Iso r = isolated(t, &c, 0);
    if (r.out.st != FAILED) return false;
    if (r.rec.size() > best.rec.size()) return false;
    if (r.rec.size() == best.rec.size() && !(r.rec < best.rec)) return false;
    best = r; return true;
  };
  bool progress = true;
  while (progress && execs <= 3000 && now() - t0 < limit) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.rec.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.rec.size();) {
        auto c = best.rec; c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) progress = true; else i += len;
        if (execs > 3000 || now() - t0 > limit) break;
      }
    }
    for (size_t len = 8; len >= 1; len /= 2)
      for (size_t i = 0; i + len <= best.rec.size(); i += len) {
        bool z = true; for (size_t k = i; k < i + len; ++k) if (best.rec[k]) z = false;
        if (z) continue;
        auto c = best.rec; std::fill(c.begin() + i, c.begin() + i + len, 0);
        if (attempt(c)) progress = true;
      }
    for (size_t i = 0; i < best.rec.size(); ++i) {
      uint64_t lo = 0;
      while (i < best.rec.size() && best.rec[i] > lo) {
        uint64_t hi = best.rec[i], mid = lo + (hi - lo) / 2;
        auto c = best.rec; c[i] = mid;
        if (attempt(c)) progress = true; else { if (lo == mid + 1 || mid + 1 > hi) break; lo = mid + 1; if (hi - lo > (1ULL << 40)) break; }
        if (execs > 3000 || now() - t0 > limit) break;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c;
  }
  return o;
}

struct Stats {
  unsigned long cases = 0, evals = 0, nontriv = 0, discards = 0;
  std::map<std::string, unsigned long> perTest, labels, known;
};

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") opt.prop = val(); else if (a == "--tier") opt.tier = val(); else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") opt.out = val(); else if (a == "--replay-dir") opt.replayDir = val(); else if (a == "--replay") opt.replay = val();
    else if (a == "--jobs") opt.jobs = atoi(val().c_str()); else if (a == "--cap") opt.cap = atof(val().c_str()); else if (a == "--scale") opt.scale = atof(val().c_str());
    else if (a == "--only") opt.only = val(); else if (a == "--list") opt.list = true;
  }
  auto& tests = registry();
  if (opt.list) { for (auto& t : tests) printf("%s %ld %ld\n", t.name.c_str(), t.quick, t.thorough); return 0; }
  char tmpl[] = "/tmp/gearpbt.XXXXXX"; g_scratch = mkdtemp(tmpl);
  std::string root = g_scratch; pid_t rootPid = getpid();
  auto cleanup = [&]() {
    if (getpid() != rootPid) return;
    std::function<void(const std::string&)> rmrf = [&](const std::string& d) {
      if (DIR* dd = opendir(d.c_str())) {
        while (dirent* e = readdir(dd)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n;
          struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str()); }
        closedir(dd);
      }
      rmdir(d.c_str());
    };
    rmrf(root);
  };

  auto describe = [&](const Test& t, const Iso& r) {
    std::ostringstream o;
    o << "property: " << opt.prop << "\ntest: " << t.name << "\nkind: choices\nseed: " << opt.seed << "\nchoices: " << r.rec.size();
    for (auto c : r.rec) o << " " << c;
    o << "\n--- failure ---\n" << r.out.msg << "\n--- case ---\n" << r.notes << "\n";
    return o.str();
  };

  if (!opt.replay.empty()) {
    std::ifstream in(opt.replay); std::string line, tname, kind = "choices"; std::vector<uint64_t> ch; uint64_t w = 0, n = 1, last = 0;
    while (std::getline(in, line)) {
      if (line.rfind("test: ", 0) == 0) tname = line.substr(6);
      if (line.rfind("kind: ", 0) == 0) kind = line.substr(6);
      if (line.rfind("seed: ", 0) == 0) opt.seed = strtoull(line.c_str() + 6, 0, 10);
      if (line.rfind("choices: ", 0) == 0) { std::istringstream s(line.substr(9)); size_t k; s >> k; ch.resize(k); for (auto& c : ch) s >> c; }
      if (line.rfind("range: ", 0) == 0) { std::istringstream s(line.substr(7)); s >> w >> n >> last; }
      if (line == "--- failure ---") break;
    }
    int rc = 0;
    for (auto& t : tests) if (t.name == tname) {
      if (kind == "choices") {
        Iso r = isolated(t, &ch, 0);
        printf("%s\n%s\n--- case ---\n%s\n", r.out.st == FAILED ? "FAILED" : "passed", r.out.msg.c_str(), r.notes.c_str());
        rc = r.out.st == FAILED;
      } else {
        pid_t p = fork();
        if (p == 0) { int d = open("/dev/null", O_WRONLY); dup2(d, 1);
          for (uint64_t i = w; i <= last; i += n) { Gen g(caseSeed(t.name, i)); Outcome o = runCase(t, g); if (o.st == FAILED) { fprintf(stderr, "FAILED at %llu: %s\n", (unsigned long long)i, o.msg.c_str()); _exit(1); } } _exit(0); }
        int st; waitpid(p, &st, 0); rc = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      }
    }
    cleanup();
    return rc;
  }

  double t0 = now();
  int J = opt.jobs;
  std::vector<const Test*> sel; for (auto& t : tests) if (opt.only.empty() || ("," + opt.only + ",").find("," + t.name + ",") != std::string::npos) sel.push_back(&t);
  Shared* sh = (Shared*)mmap(0, sizeof(Shared) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(J);
  auto ncases = [&](const Test& t) { long n = opt.tier == "thorough" ? t.thorough : t.quick; return (uint64_t)std::max(1., n * opt.scale); };
  auto statf = [&](int w) { return root + "/stat" + std::to_string(w); };
  for (int w = 0; w < J; ++w) {
    pid_t p = fork();
    if (p == 0) {
      int d = open("/dev/null", O_WRONLY); dup2(d, 1);
      int e = open((root + "/err" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600); dup2(e, 2);
      g_scratch = root + "/w" + std::to_string(w); mkdir(g_scratch.c_str(), 0700);
      signal(SIGPROF, onAlarm);
      FILE* fp = fopen(statf(w).c_str(), "wb");
      std::unordered_set<uint64_t> seen; Stats s; int samples = 0;
      for (size_t ti = 0; ti < sel.size(); ++ti) {
        const Test& t = *sel[ti]; uint64_t N = ncases(t); int tsamples = 0; unsigned long nrun = 0;
        for (uint64_t i = w; i < N; i += J) {
          if (now() - t0 > opt.cap) { s.labels["(stopped: wall-clock cap)"]++; break; }
          sh[w].test = ti; sh[w].index = i; sh[w].running = 1;
          if ((nrun++ & 15) == 0) armCpu(30);
          Gen g(caseSeed(t.name, i));
          Outcome o = runCase(t, g);
          if (o.st == FAILED) {
            fprintf(fp, "F %zu %llu %s\n", ti, (unsigned long long)i, jesc(o.msg).c_str()); break;
          }
          if (o.st == DISCARDED) { s.discards++; continue; }
          if (o.st == KNOWN) { s.known[o.msg]++; continue; }
          s.cases++; s.evals += g.evals; s.perTest[t.name]++;
          for (auto& l : g.labels) s.labels[t.name + ":" + l]++;
          if (g.nontriv) {
            uint64_t h = mix64(ti + 77); for (auto c : g.rec) h = mix64(h ^ c);
            if (seen.insert(h).second) fwrite((std::string("N ") + std::to_string(h) + "\n").c_str(), 1, 3 + std::to_string(h).size(), fp);
            if (w == 0 && tsamples < 2 && samples < 12) { ++tsamples; ++samples; fprintf(fp, "S %s\n", jesc("[" + t.name + " #" + std::to_string(i) + "] " + g.notes.substr(0, 1500)).c_str()); }
          }
        }
      }
      fprintf(fp, "C %lu %lu %lu\n", s.cases, s.evals, s.discards);
      for (auto& k : s.perTest) fprintf(fp, "T %s %lu\n", k.first.c_str(), k.second);
      for (auto& k : s.labels) fprintf(fp, "L %lu %s\n", k.second, k.first.c_str());
      for (auto& k : s.known) fprintf(fp, "K %lu %s\n", k.second, k.first.c_str());
      fclose(fp);
      sh[w].running = 0; sh[w].done = 1;
      _exit(0);
    }
    pids[w] = p;
  }
  struct Cand { size_t ti; uint64_t idx; int w; std::string msg; };
  std::vector<Cand> cands;
  Stats S; std::set<uint64_t> hashes; std::vector<std::string> samples;
  for (int w = 0; w < J; ++w) {
    int st; waitpid(pids[w], &st, 0);
    std::ifstream in(statf(w)); std::string line;
    while (std::getline(in, line)) {
      std::istringstream s(line); char c; s >> c;
      if (c == 'F') { Cand k; s >> k.ti >> k.idx; std::getline(s, k.msg); k.w = w; cands.push_back(k); }
      if (c == 'N') { uint64_t h; s >> h; hashes.insert(h); }
      if (c == 'S') samples.push_back(line.substr(2));
      if (c == 'C') { unsigned long a, b, d; s >> a >> b >> d; S.cases += a; S.evals += b; S.discards += d; }
      if (c == 'T') { std::string n; unsigned long k; s >> n >> k; S.perTest[n] += k; }
      if (c == 'L') { unsigned long k; s >> k; std::string n; std::getline(s, n); S.labels[n.substr(1)] += k; }
      if (c == 'K') { unsigned long k; s >> k; std::string n; std::getline(s, n); S.known[n.substr(1)] += k; }
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      Cand k; k.ti = sh[w].test; k.idx = sh[w].index; k.w = w;
      std::ostringstream o; if (WIFSIGNALED(st)) o << "worker killed by signal " << WTERMSIG(st); else o << "worker exit status " << WEXITSTATUS(st);
      o << " " << jesc(slurp(root + "/err" + std::to_string(w), 3000)); k.msg = o.str(); cands.push_back(k);
    }
  }
  std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.ti != b.ti ? a.ti < b.ti : a.idx < b.idx; });
  int violations = 0; std::string vpath; std::set<size_t> reported;
  for (auto& k : cands) {
    if (violations >= 3 || reported.count(k.ti)) continue;
    const Test& t = *sel[k.ti];
    Iso r = isolated(t, nullptr, caseSeed(t.name, k.idx));
    std::string text;
    bool ok = false;
    if (r.out.st == FAILED) {
      Iso best = r;
      {
        Iso sm = shrink(t, r);
        bool all = true; for (int q = 0; q < 3; ++q) if (isolated(t, &sm.rec, 0).out.st != FAILED) all = false;
        if (all) { best = sm; ok = true; text = describe(t, best); }
        else { all = true; for (int q = 0; q < 3; ++q) if (isolated(t, &r.rec, 0).out.st != FAILED) all = false; if (all) { ok = true; text = describe(t, r); } }
      }
    }
    if (!ok) {
      // reproduce as (a) the single case from its seed, (b) the history of the worker up to this case
      for (int mode = 0; mode < 2 && !ok; ++mode) {
        bool all = true;
        for (int q = 0; q < 3 && all; ++q) {
          pid_t p = fork();
          if (p == 0) {
            int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); signal(SIGPROF, onAlarm); armCpu(300);
            for (uint64_t i = mode ? k.w : k.idx; i <= k.idx; i += J) { Gen g(caseSeed(t.name, i)); if (runCase(t, g).st == FAILED) _exit(1); }
            _exit(0);
          }
          int st; waitpid(p, &st, 0);
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) all = false;
        }
        if (all) {
          ok = true; std::ostringstream o;
          o << "property: " << opt.prop << "\ntest: " << t.name << "\nkind: range\nseed: " << opt.seed << "\nrange: " << (mode ? (uint64_t)k.w : k.idx) << " " << J << " " << k.idx
            << "\n--- failure ---\n" << k.msg << "\n" << r.out.msg << "\n--- case ---\n" << r.notes << "\n";
          text = o.str();
        }
      }
    }
    if (ok) {
      ++violations; reported.insert(k.ti);
      mkdir(opt.replayDir.c_str(), 0755);
      vpath = opt.replayDir + "/" + opt.prop + "_" + t.name + "_" + std::to_string(opt.seed) + ".replay";
      std::ofstream(vpath) << text;
      printf("%s\n", text.substr(0, 4000).c_str());
      printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), vpath.c_str());
      fflush(stdout);
    } else {
      printf("note: a failure of %s #%llu did not reproduce 3 times: %s\n", t.name.c_str(), (unsigned long long)k.idx, k.msg.c_str());
    }
  }
  if (!opt.out.empty()) {
    std::ofstream o(opt.out);
    o << "{\"cases\":" << S.cases << ",\"evals\":" << S.evals << ",\"discards\":" << S.discards << ",\"nontrivial\":" << hashes.size()
      << ",\"violations\":" << violations << ",\"wall\":" << now() - t0 << ",\"perTest\":{";
    bool first = true; for (auto& k : S.perTest) { o << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
    o << "},\"labels\":{"; first = true; for (auto& k : S.labels) { o << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
    o << "},\"known\":{"; first = true; for (auto& k : S.known) { o << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
    o << "},\"samples\":["; first = true; for (auto& s : samples) { o << (first ? "" : ",") << "\"" << s << "\""; first = false; }
    o << "]}\n";
  }
  cleanup();
  return violations ? 1 : 0;
}
