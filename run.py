#!/usr/bin/env python3
"""Builds and runs the generated-input search that decides one property.

  run.py check ID            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  run.py replay ID FILE      re-run one recorded failing case
  run.py build ID...         only build
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))
CORE = ["quantumdata", "quantumoperator", "structure", "quantumtrajectory", "composites", "high"]
ELEM = ["frees", "interactions", "utils"]
SKIP = {"Version.cc", "Transformation.cc"}  # need the blitz submodule / switched off by the project itself


def sources(lib):
    if lib == "utils":
        dirs = ["CPPQEDutils"]
    elif lib == "core":
        dirs = ["CPPQEDcore/" + d for d in CORE]
    else:
        dirs = ["CPPQEDelements/" + d for d in ELEM]
    out = []
    for d in dirs:
        out += [s for s in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))) if os.path.basename(s) not in SKIP]
    return out


def build(prop, variant):
    cfg = CHECKS[prop]
    bdir = os.path.join(HERE, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    inc = [os.path.join(HERE, "standin"), os.path.join(HERE, "pbt"), os.path.join(HERE, "drivers"), os.path.join(REPO, "CPPQEDutils")]
    inc += [os.path.join(REPO, "CPPQEDcore", d) for d in CORE] + [os.path.join(REPO, "CPPQEDelements", d) for d in ELEM]
    opt = "-O1" if variant == "plain" else "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,null,alignment"
    san = "" if variant == "plain" else "-fsanitize=address,undefined"
    flags = ("-std=c++20 -w -fPIC %s -DNDEBUG -DBOOST_IOSTREAMS_DYN_LINK -DBOOST_IOSTREAMS_NO_LIB -DBOOST_SERIALIZATION_DYN_LINK "
             "-DBOOST_SERIALIZATION_NO_LIB -DBZ_HAVE_BOOST_SERIALIZATION -DCPPQED_HAS_GSL -include boost/preprocessor/iteration/iterate.hpp %s -isystem /usr/include/eigen3"
             % (opt, " ".join("-I" + i for i in inc)))
    n = ["ninja_required_version = 1.3", "builddir = .", "flags = " + flags,
         "rule cc", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CC $in",
         "rule so", "  command = g++ -shared %s $in -o $out $libs -Wl,-rpath,'$$ORIGIN'" % san, "  description = SO $out",
         "rule exe", "  command = g++ %s $in -o $out $libs" % san, "  description = EXE $out"]
    done = set()

    def obj(src, tag):
        o = tag + "_" + os.path.relpath(src, REPO if src.startswith(REPO + "/") else HERE).replace("/", "_") + ".o"
        if o not in done:
            done.add(o)
            n.append("build %s: cc %s" % (o, src))
        return o
    libs = cfg.get("libs", ["utils", "core", "elements"])
    for lib in libs:
        objs = [obj(s, lib) for s in sources(lib)]
        deps = {"utils": "-lblitz -lboost_serialization -lboost_iostreams -lgsl -lgslcblas", "core": "-L. -lvp_utils", "elements": "-L. -lvp_core -lvp_utils"}[lib]
        order = {"utils": "", "core": " | libvp_utils.so", "elements": " | libvp_core.so libvp_utils.so"}[lib]
        n += ["build libvp_%s.so: so %s%s" % (lib, " ".join(objs), order), "  libs = " + deps]
    # versionHelper() is defined in the harness' main
    exes = []
    main = obj(os.path.join(HERE, "pbt", "main.cc"), "drv")
    objs = [obj(os.path.join(HERE, "drivers", d), "drv") for d in cfg["drivers"]]
    exe = "driver_" + prop
    n += ["build %s: exe %s %s | %s" % (exe, main, " ".join(objs), " ".join("libvp_%s.so" % l for l in libs)),
          "  libs = -L. %s -lblitz -lboost_serialization -lboost_iostreams -lgsl -lgslcblas -Wl,-rpath,'$$ORIGIN' -Wl,--export-dynamic" % " ".join("-lvp_" + l for l in reversed(libs))]
    exes.append(exe)
    nf = os.path.join(bdir, "build_%s.ninja" % prop)
    open(nf, "w").write("\n".join(n) + "\n")
    jobs = os.environ.get("VP_JOBS", "8")
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j", jobs, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        lines = r.stdout.splitlines()
        sys.stdout.write("\n".join([l for l in lines if "error" in l or "undefined" in l][:12] or lines[-30:]) + "\n")
        print("ERROR: harness for %s does not build (%s)" % (prop, variant))
        return None
    return os.path.join(bdir, exe)


def known_findings():
    f = os.path.join(HERE, "known_findings.jsonl")
    out = {}
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out[d["id"]] = d
    return out


def main():
    if sys.argv[1:2] == ["selftest"]:
        return selftest()
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    mode, prop = sys.argv[1], sys.argv[2]
    if mode == "build":
        return 0 if all([build(p, "plain") for p in sys.argv[2:]]) else 2
    env = dict(os.environ, MALLOC_PERTURB_="165", OMP_NUM_THREADS="1", LC_ALL="C.UTF-8",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0", UBSAN_OPTIONS="abort_on_error=1")
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        if mode == "replay":
            exe = build(prop, "plain")
            return subprocess.run([exe, "replay", sys.argv[3], os.path.join(scratch, "r")], env=env).returncode if exe else 2
        return check(prop, env, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, env, scratch):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    rdir = os.path.join(HERE, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    evfile = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    runs = [("plain", seed)]
    if tier == "thorough":
        if cfg.get("asan", True):
            runs.append(("asan", seed + 1))
    subs, violations, known, unconfirmed = [], [], [], []
    listed = known_findings()
    for variant, s in runs:
        exe = build(prop, variant)
        tb = time.time()
        if not exe:
            if variant != "plain":
                continue
            return 2
        e = dict(env)
        if variant == "asan":
            e["VP_SCALE"] = str(cfg.get("asan_scale", 0.1))
            e.pop("MALLOC_PERTURB_", None)
        out = os.path.join(scratch, "out_%s.json" % variant)
        vdir = os.path.join(rdir, variant)
        os.makedirs(vdir, exist_ok=True)
        r = subprocess.run([exe, "run", str(s), tier, os.environ.get("VP_JOBS", "8"), scratch, vdir, out] + sys.argv[3:4], env=e)
        if r.returncode not in (0, 1):
            print("ERROR: driver of %s ended with status %d" % (prop, r.returncode))
            return 2
        for sp in json.load(open(out))["subproperties"]:
            sp["variant"] = variant
            subs.append(sp)
            f = sp.get("failure")
            if not f:
                continue
            if not f["confirmed"]:
                unconfirmed.append(sp)
            elif sp["known"] and sp["known"] in listed:
                known.append((sp, listed[sp["known"]]))
            else:
                violations.append(sp)
    real = [s for s in subs if not s["known"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(s["evaluations"] for s in real),
              "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in real),
              "rule": cfg["rule"],
              "samples": [{"subproperty": s["name"], "case": c} for s in real for c in s["samples"][:2]],
              "subproperties": [{k: s[k] for k in ("name", "variant", "planned", "evaluations", "discarded", "distinct_nontrivial", "labels", "worst_margin", "wall_s")} for s in subs],
              "known_findings_seen": [k["id"] for _, k in known],
              "unconfirmed_failures": [{"subproperty": s["name"], **s["failure"]} for s in unconfirmed],
          },
          "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(evfile, "w"), indent=1)
    for sp, k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for s in real:
        print("%-40s %-5s %6d cases, %6d distinct non-trivial, %.1f s%s" % (s["name"], s["variant"], s["evaluations"], s["distinct_nontrivial"], s["wall_s"],
              "" if s["worst_margin"] == 0 else ", worst margin %.2g" % s["worst_margin"]))
    for s in unconfirmed:
        print("note: a failure of %s did not reproduce and is not counted: %s" % (s["name"], s["failure"]["message"]))
    for s in violations:
        print("failing: %s: %s\n  case: %s" % (s["name"], s["failure"]["message"], s["failure"]["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, s["failure"]["replay"]))
    return 1 if violations else 0


def selftest():
    """Checks that the tools are there and that the engine finds, shrinks and replays a planted failure of a toy property."""
    for t in ("g++", "ninja"):
        if not shutil.which(t):
            print("missing tool: " + t)
            return 2
    d = tempfile.mkdtemp(prefix="vp_selftest_")
    try:
        exe = os.path.join(d, "toy")
        r = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-I" + os.path.join(HERE, "pbt"), os.path.join(HERE, "pbt", "main.cc"), os.path.join(HERE, "pbt", "toy.cc"), "-o", exe])
        if r.returncode:
            return 2
        r = subprocess.run([exe, "run", "1", "quick", "4", d, d, os.path.join(d, "out.json")])
        subs = {s["name"]: s for s in json.load(open(os.path.join(d, "out.json")))["subproperties"]}
        ok = r.returncode == 1 and "failure" not in subs["holds"] and all("failure" in subs[n] and subs[n]["failure"]["confirmed"] for n in ("wrong", "crashes", "hangs"))
        ok = ok and "a=100, b=0" in subs["wrong"]["failure"]["case"]
        print("self-test of the engine: " + ("ok" if ok else "FAILED"))
        return 0 if ok else 2
    finally:
        shutil.rmtree(d, ignore_errors=True)


COMMON_ASSUMPTIONS = [
    "g++ 13 -O1 -DNDEBUG build of /repo's current sources against the system's blitz, Boost, GSL and Eigen stands for the project's Release build",
    "the empty submodules Xoshiro-cpp and pcg-cpp are replaced by interface-compatible generators in /verif/standin",
]

if __name__ == "__main__":
    sys.exit(main())
