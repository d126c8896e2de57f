#!/usr/bin/env python3
"""Build and run one check:  python3 vf.py C01 [--tier quick|thorough] [--replay SUITE:INDEX] [--keep]
Builds the harness of the property from /repo's current working tree (plus /verif/harness and /verif/shim), explores its
bounded space completely, rewrites evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src/include/pdaaal"
ABSL = ["-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_raw_hash_set"]
BASE = ["-std=gnu++20", "-w", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
INC = ["-I" + REPO + "/src/include", "-I" + REPO + "/src/pdaaal-bin", "-I" + VERIF + "/shim", "-I" + VERIF + "/harness"]
PDA_CPP = SRC + "/internal/PDA.cpp"
RED_CPP = SRC + "/internal/Reducer.cpp"
NFAP_CPP = SRC + "/parsing/NfaParser.cpp"

# property -> harness translation units, sources of the code under test, options
CHECKS = json.load(open(VERIF + "/checks.json"))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def compile_all(pid, spec, out):
    """returns path of the executable or raises SystemExit(2)"""
    flags = BASE + (ASAN if spec.get("asan") else []) + spec.get("flags", [])
    gen = os.path.join(VERIF, "build", "gen"); os.makedirs(gen, exist_ok=True)
    if spec.get("version_h"):
        with open(os.path.join(gen, "version.h"), "w") as f:
            f.write('#define PDAAAL_VERSION_STR "0"\n#define PDAAAL_GIT_HASH_STR "0"\n#define PDAAAL_VERSION "0"\n#define PDAAAL_GIT_HASH "0"\n')
    units = [(os.path.join(VERIF, "harness", t), []) for t in spec["units"]]
    units += [({"PDA": PDA_CPP, "Reducer": RED_CPP, "NfaParser": NFAP_CPP, "Parsing": REPO + "/src/pdaaal-bin/parsing/Parsing.cpp"}[s], []) for s in spec.get("sources", [])]
    key0 = tree_hash(REPO + "/src", VERIF + "/harness", VERIF + "/shim")
    objs = []
    def one(u):
        src, _ = u
        key = hashlib.sha256((key0 + src + " ".join(flags)).encode()).hexdigest()[:24]
        o = os.path.join(VERIF, "build", key + ".o")
        if os.path.exists(o): return o, None
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh(["g++", *flags, *INC, "-I" + gen, "-c", src, "-o", tmp])
        if r.returncode: return None, "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
        os.replace(tmp, o); return o, None
    with ThreadPoolExecutor(8) as ex:
        for o, err in ex.map(one, units):
            if err: print(err); print("BUILD-ERROR property=%s" % pid); sys.exit(2)
            objs.append(o)
    exe = os.path.join(out, "check_" + pid)
    r = sh(["g++", *flags, *objs, *ABSL, *spec.get("libs", []), "-o", exe])
    if r.returncode: print(r.stdout[-6000:]); print("BUILD-ERROR property=%s" % pid); sys.exit(2)
    return exe

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]

def main():
    ap = argparse.ArgumentParser()
    if "--setup" in sys.argv:
        missing = [t for t in ("g++",) if not shutil.which(t)]
        print("missing: %s" % missing if missing else "nothing to prepare: every check builds what it needs"); sys.exit(1 if missing else 0)
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--workers", default=str(min(8, os.cpu_count() or 1)))
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    pid = a.property; spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(VERIF + "/build", exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True); os.makedirs(VERIF + "/replay", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf_" + pid + "_")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=1", UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1",
               VF_SCRATCH=scratch, VF_REPO=REPO, VF_VERIF=VERIF)
    try:
        exe = compile_all(pid, spec, scratch)
        if spec.get("cli"):  # a harness that drives the command line tool
            env["VF_CLI"] = compile_cli(spec, scratch)
        t1 = time.time()
        if a.replay:
            rc = subprocess.run([exe, "--tier", a.tier, "--replay", a.replay, "--scratch", scratch], env=env).returncode
            sys.exit(rc)
        out = scratch + "/result.json"
        deadline = a.deadline or (600 if a.tier == "quick" else 6 * 3600)
        mem = "0" if spec.get("asan") else "4000"
        r = subprocess.run([exe, "--tier", a.tier, "--workers", a.workers, "--out", out, "--scratch", scratch, "--deadline", str(deadline), "--hang", str(spec.get("hang", 60)), "--mem", mem],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.environ.get("MC_SLOW"): print(r.stdout[-300:])
        if not os.path.exists(out):
            print(r.stdout[-3000:]); print("CHECK-ERROR property=%s: harness gave no result (rc=%d)" % (pid, r.returncode)); sys.exit(2)
        d = json.load(open(out, errors='replace'))
        c = d["counters"]
        known = known_findings(pid); seen_known = set(); bad = []
        for v in d["violations"]:
            k = next((k for k in known if k["suite"] == v["suite"] and k["case"] == v["case"] and (not k.get("what") or k["what"] in v["what"])), None)
            if k: seen_known.add(k["id"])
            else: bad.append(v)
        for k in known:
            if k["id"] in seen_known: print("KNOWN-FINDING: property=%s %s" % (pid, k["summary"]))
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": {"states": c.get("states", 0), "transitions": c.get("transitions", 0), "traces_validated_against_impl": c.get("impl_runs", c.get("evaluations", 0)),
                           "evaluations": c.get("evaluations", 0), "distinct_nontrivial": c.get("nontrivial", 0), "rule": d["rule"], "samples": d["samples"],
                           "exhaustive": bool(d["exhaustive"]), "bounds": d["bounds"], "counters": c},
              "assumptions": d["assumptions"], "wall_s": round(time.time() - t0, 2), "build_s": round(t1 - t0, 2), "violations": len(bad)}
        json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
        if bad:
            for n, v in enumerate(bad[:5]):
                p = VERIF + "/replay/%s_%s_%d.txt" % (pid, v["suite"], v["index"])
                with open(p, "w") as f:
                    f.write("property %s violated\nsuite %s, case %d (tier %s)\n\n%s\n\n%s\n\nreplay: python3 %s/vf.py %s --tier %s --replay %s:%d\n" %
                            (pid, v["suite"], v["index"], a.tier, v["case"], v["what"], VERIF, pid, a.tier, v["suite"], v["index"]))
                if n < 3: print("--- %s:%d\n%s\n=> %s" % (v["suite"], v["index"], v["case"][:1500], v["what"][:1500]))
            for n, v in enumerate(bad[:5]):
                print("VIOLATION property=%s replay=%s/replay/%s_%s_%d.txt" % (pid, VERIF, pid, v["suite"], v["index"]))
            sys.exit(1)
        if d["timed_out"]:
            print("CHECK-ERROR property=%s: the exploration did not finish in %.0f s" % (pid, deadline)); sys.exit(2)
        print("OK property=%s tier=%s: %d cases, %d states, %d implementation runs, all of the bounded space explored, %.1f s (build %.1f s)" %
              (pid, a.tier, c.get("evaluations", 0), c.get("states", 0), ev["coverage"]["traces_validated_against_impl"], time.time() - t0, t1 - t0))
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def compile_cli(spec, out):
    exe = os.path.join(out, "pdaaal-cli")
    gen = os.path.join(VERIF, "build", "gen")
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, "version.h"), "w") as f:
        f.write('#define PDAAAL_VERSION_STR "0"\n#define PDAAAL_GIT_HASH_STR "0"\n')
    key0 = tree_hash(REPO + "/src", VERIF + "/shim")
    flags = ["-std=gnu++20", "-w", "-O0", "-D_GLIBCXX_ASSERTIONS"]
    def one(src):
        o = os.path.join(VERIF, "build", "cli_" + hashlib.sha256((key0 + src).encode()).hexdigest()[:24] + ".o")
        if os.path.exists(o): return o, None
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh(["g++", *flags, *INC, "-I" + gen, "-c", src, "-o", tmp])
        if r.returncode: return None, r.stdout[-6000:]
        os.replace(tmp, o); return o, None
    srcs = [REPO + "/src/pdaaal-bin/main.cpp", REPO + "/src/pdaaal-bin/parsing/Parsing.cpp", PDA_CPP, RED_CPP, NFAP_CPP]
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, srcs))
    for o, e in rs:
        if e: print(e); print("BUILD-ERROR cli"); sys.exit(2)
    r = sh(["g++", *[o for o, _ in rs], *ABSL, "-lboost_program_options", "-o", exe])
    if r.returncode: print(r.stdout[-4000:]); print("BUILD-ERROR cli"); sys.exit(2)
    return exe

if __name__ == "__main__":
    main()
