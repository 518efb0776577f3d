#!/usr/bin/env python3
"""Driver of all checks:  python3 run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only TEST]
Builds the sources of $GEAR_REPO (default /repo) with ASan+UBSan into build/, builds the harness of the property,
runs it, writes evidence/<ID>.json. Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import os, sys, subprocess, json, time, glob, re, argparse, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GEAR_REPO", "/repo")
BUILD = os.environ.get("GEAR_VERIF_BUILD", os.path.join(HERE, "build"))
CXX = "g++"
FLAGS = "-std=gnu++17 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -w"
# property -> harness source; extra tests may live in shared files
sys.path.insert(0, HERE)
from checks import CHECKS


BOOST = dict(P11=2, P12=4, P13=3, P14=2, P15=2, P17=3, P19=3, P20=2, P21=2, P22=5, P23=3, P25=4, P26=4, P28=4, P29=4)


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(props):
    """one binary per property: its harness files, the engine and the sources of the repository"""
    os.makedirs(os.path.join(BUILD, "cfg/gear"), exist_ok=True)
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    cfg = open(os.path.join(REPO, "cmake/GearConfig.h.cmake.in")).read()
    for v in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"_VERSION_%s +([0-9]+)" % v, top)
        cfg = cfg.replace("@GEAR_VERSION_%s@" % v, m.group(1) if m else "0")
    cfg = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", cfg)
    write_if_changed(os.path.join(BUILD, "cfg/gear/GearConfig.h"), cfg)
    inc = "-I%s/cfg -I%s/include -I%s/include/gear -I%s/harness" % (BUILD, REPO, REPO, HERE)
    n = ["builddir = %s" % BUILD,
         "rule cxx\n command = %s %s %s $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n description = CXX $out\n deps = gcc" % (CXX, FLAGS, inc),
         "rule link\n command = %s %s $in -lCLHEP -o $out\n description = LINK $out" % (CXX, FLAGS)]
    objs = []
    for d in ("gearsurf", "gearimpl", "gearxml"):
        for s in sorted(glob.glob(os.path.join(REPO, "src", d, "*.cc"))):
            o = "%s/obj/%s_%s.o" % (BUILD, d, os.path.basename(s)[:-3])
            n.append("build %s: cxx %s" % (o, s))
            objs.append(o)
    n.append("rule lib\n command = g++ -shared -fPIC -Wl,-soname,libgeartgeo.so $in -o $out")
    n.append("build %s/stub/libgeartgeo.so: lib %s/harness/stub/plugin.cc" % (BUILD, HERE))
    pbt = BUILD + "/obj/h_pbt.o"
    n.append("build %s: cxx %s/harness/pbt.cc" % (pbt, HERE))
    hobj = {}
    made = set()
    for p in sorted(CHECKS):
        hs = CHECKS[p]["harness"].split()
        if not all(os.path.exists("%s/harness/%s.cc" % (HERE, h)) for h in hs):
            continue
        for h in hs:
            if h not in hobj:
                hobj[h] = "%s/obj/h_%s.o" % (BUILD, h)
                n.append("build %s: cxx %s/harness/%s.cc" % (hobj[h], HERE, h))
                if CHECKS[p].get("flags"):
                    n.append("  extra = " + CHECKS[p]["flags"])
        extra = []
        # sources outside the three libraries
        for s in [y for x in CHECKS[p].get("sources", []) for y in sorted(glob.glob(os.path.join(REPO, "src", x)))]:
            o = "%s/obj/%s.o" % (BUILD, os.path.relpath(s, REPO + "/src").replace("/", "_")[:-3])
            extra.append(o)
            if o not in made:
                made.add(o)
                n.append("build %s: cxx %s" % (o, s))
                n.append("  extra = -I%s/include/gear -I%s/harness/stub %s" % (REPO, HERE, CHECKS[p].get("flags", "")))
        deps = ["%s/stub/libgeartgeo.so" % BUILD] if extra else []
        # programs of the repository that the check runs
        for x in CHECKS[p].get("programs", []):
            o = "%s/programs/%s" % (BUILD, x)
            deps.append(o)
            if o not in made:
                made.add(o)
                n.append("build %s.o: cxx %s/src/test/%s.cc" % (o, REPO, x))
                n.append("build %s: link %s.o %s" % (o, o, " ".join(objs)))
        n.append("build %s/%s: link %s %s %s%s" % (BUILD, p, " ".join(hobj[h] for h in hs), pbt, " ".join(objs + extra), " | " + " ".join(deps) if deps else ""))
    os.makedirs(BUILD + "/obj", exist_ok=True)
    nf = BUILD + "/build.ninja"
    write_if_changed(nf, "\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-f", nf] + (["%s/%s" % (BUILD, x) for x in props]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print("check error: the build of the sources or of the harness failed")
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", help="multiplies the number of cases (default: 3 in the quick tier)")
    ap.add_argument("--only")
    ap.add_argument("--jobs", default=str(min(8, os.cpu_count() or 1)))
    a = ap.parse_args()
    if a.prop == "--build-all" or a.prop == "all":
        build(sorted(p for p in CHECKS if all(os.path.exists("%s/harness/%s.cc" % (HERE, h)) for h in CHECKS[p]["harness"].split())))
        return 0
    c = CHECKS[a.prop]
    # cheap checks generate more cases in the quick tier
    a.scale = a.scale or (str(3 * BOOST.get(a.prop, 1)) if a.tier == "quick" else "1")
    t0 = time.time()
    build([a.prop])
    tb = time.time() - t0
    exe = os.path.join(BUILD, a.prop)
    env = dict(os.environ, LC_ALL="C", LANG="C")
    if a.replay:
        return subprocess.run([exe, "--prop", a.prop, "--replay", a.replay], env=env).returncode
    out = os.path.join(BUILD, "out_%s.json" % a.prop)
    if os.path.exists(out):
        os.unlink(out)
    base = [exe, "--prop", a.prop, "--tier", a.tier, "--out", out, "--replay-dir", os.path.join(HERE, "replays"),
            "--jobs", a.jobs, "--scale", a.scale]
    only = a.only or ",".join(c.get("tests", "").split())
    if only:
        base += ["--only", only]
    # the run sweeps several derived seeds; the first one is VERIF_SEED itself
    r = subprocess.run(base + ["--seed", str(a.seed), "--cap", "500" if a.tier == "quick" else "780"], env=env)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("check error: the harness ended with status %d" % r.returncode)
        return 2
    o = json.load(open(out))
    # known findings: printed while they are listed and still fail (the harness reports them as 'known')
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: id=(\S+) property=(\S+) (.*)", line.strip())
        if m and m.group(2) == a.prop and o["known"].get(m.group(1)):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, m.group(3)))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": o["cases"], "distinct_nontrivial": o["nontrivial"],
            "rule": c["rule"], "samples": o["samples"] or ["(no case completed)"],
            "oracle_comparisons": o["evals"], "discarded_cases": o["discards"],
            "cases_per_test": o["perTest"], "classification": o["labels"], "known_finding_hits": o["known"],
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": o["violations"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d comparisons, %d discarded; build %.1fs run %.1fs; violations %d" % (
        a.prop, o["cases"], o["nontrivial"], o["evals"], o["discards"], tb, o["wall"], o["violations"]))
    return 1 if r.returncode else 0


if __name__ == "__main__":
    sys.exit(main())
