#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property on /repo's current working tree:
 1. govc verifies the contracts tagged with the property, on the SSA of the
    current source: this is the deciding step;
 2. the harness runs the real code on generated inputs (a bounded cross-check
    of the assumptions, and, when an obligation fails, the search for a
    failing input).
Exit 0: held.  Exit 1: a VIOLATION line was printed.
"""
import json, os, subprocess, sys, time, shutil, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
BIN = os.path.join(HERE, "bin")
EVID = os.path.join(HERE, "evidence")
os.makedirs(BIN, exist_ok=True)
os.makedirs(EVID, exist_ok=True)
QUICK = TIER != "thorough"
CROSS = 8 if QUICK else 120      # seconds of cross-checking when everything is discharged
SEARCH = 60 if QUICK else 240    # seconds of searching when an obligation fails
LIMIT = 120 if QUICK else 200    # seconds per function

TECH = "contract-based deductive verification (govc over go/ssa, z3/cvc5)"


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)


def build_govc():
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", HOME="/root")
    out = os.path.join(BIN, "govc")
    p = run(["go", "build", "-o", out, "."], 600, cwd=os.path.join(HERE, "govc"), env=env)
    if p.returncode != 0 and not os.path.exists(out):
        sys.stderr.write(p.stdout)
        sys.exit(2)
    return out


def build_harness():
    out = os.path.join(BIN, "harness")
    p = run(["bash", os.path.join(HERE, "harness", "build.sh"), out], 800)
    if p.returncode != 0:
        sys.stderr.write("the harness does not build against /repo:\n" + p.stdout[-4000:])
        return None
    return out


def known():
    """KNOWN-FINDING entries of this property."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("known: property=%s " % PROP):
            out.append(line[len("known: property=%s " % PROP):])
    return out


def harness(exe, seconds, seed, replay):
    cmd = [exe, "-p", PROP, "-t", "%ds" % seconds, "-seed", str(seed), "-out", replay]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=seconds + 200)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        sys.stderr.write("harness: exit %d\n%s\n%s\n" % (p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
        return None


def main():
    if PROP == "setup":
        build_govc()
        return 0 if build_harness() else 2
    report = os.path.join(EVID, PROP + ".govc.json")
    replay = os.path.join(EVID, PROP + ".replay.json")
    for f in (report, replay):
        if os.path.exists(f):
            os.remove(f)
    govc = build_govc()
    exe = build_harness()

    cmd = [govc, "-prop", PROP, "-json", report, "-limit", "%ds" % LIMIT]
    genv = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", HOME="/root")
    try:
        p = run(cmd, 700 if not QUICK else 560, cwd=HERE, env=genv)
        gout, grc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        gout, grc = "govc: out of time\n" + str(e.stdout or ""), 1
    try:
        rep = json.load(open(report))
    except Exception:
        rep = {"results": [], "errors": ["govc gave no report: " + gout[-500:]]}
    results = rep.get("results") or []
    obligations = sum(r["obligations"] for r in results)
    proved = sum(r["proved"] for r in results)
    failed = []
    for r in results:
        if r.get("error"):
            failed.append("%s: %s" % (r["function"], r["error"]))
        for f in r.get("failed") or []:
            failed.append("%s: %s" % (r["function"], f))
    failed += rep.get("errors") or []
    if not results or obligations == 0:
        failed.append("no obligation was generated")
    if grc != 0 and not failed:
        failed.append("govc: exit %d: %s" % (grc, gout[-500:]))

    h, cases, distinct, samples = None, 0, 0, []
    concrete = None
    if exe:
        spent, seed = 0, SEED
        want = SEARCH if failed else CROSS
        h = harness(exe, want, seed, replay)
        if h:
            cases, distinct = h["cases"], h.get("distinct_outcomes", 0)
            if h.get("failed"):
                concrete = h
    violations = 0
    for k in known():
        print("KNOWN-FINDING: property=%s %s" % (PROP, k))
    if concrete:
        violations = 1
        if os.path.exists(replay):
            d = json.load(open(replay))
            d["replay_with"] = "/verif/bin/harness -replay " + replay
            d["failed_obligations"] = failed[:20]
            json.dump(d, open(replay, "w"), indent=1)
        print("failing input: %s" % concrete["what"])
        for f in failed[:5]:
            print("failed obligation: " + f[:300])
        print("VIOLATION property=%s replay=%s" % (PROP, replay))
    elif failed:
        violations = 1
        json.dump({"property": PROP, "failed_obligations": failed, "verifier": " ".join(cmd), "verifier_output": gout[-20000:],
                   "search": {"cases": cases, "seed": SEED, "seconds": SEARCH}}, open(replay, "w"), indent=1)
        for f in failed[:8]:
            print("failed obligation: " + f[:300])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay))

    backends, assumed, inlined, uses, funcs = {}, set(), set(), set(), []
    for r in results:
        for k, v in (r.get("ByBack") or {}).items():
            backends[k] = backends.get(k, 0) + v
        assumed.update(r.get("assumed") or [])
        inlined.update(r.get("inlined") or [])
        uses.update(r.get("uses") or [])
        funcs.append({"function": r["function"], "obligations": r["obligations"], "discharged": r["proved"], "paths": r["paths"],
                      "loops": r["loops"], "seconds": round(r["seconds"], 2)})
    trusted = ["govc (/verif/govc): symbolic execution of go/ssa, verification-condition generation, simplifier", "go/packages, go/types, go/ssa (x/tools)",
               "z3 4.8.12, z3-new, cvc5 1.1.2"]
    trusted += ["assumed contract: " + a for a in sorted(assumed)]
    ev = {
        "property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": proved,
            "checker_cmd": " ".join(cmd), "trusted_base": trusted,
            "functions_under_contract": funcs, "discharged_by": backends,
            "inlined_helpers": sorted(inlined), "contracts_used_at_calls": sorted(uses),
            "solver_seconds": round(sum(r["solver_seconds"] for r in results), 2), "queries": sum(r["queries"] for r in results),
            "evaluations": cases, "distinct_nontrivial": distinct,
            "rule": "bounded cross-check, not counted as proof: seeded random cases of the property run through the real code in /repo and compared with the pinned reference; distinct by the observations of a run",
            "samples": [{"harness": "verifharness -p %s -seed %d" % (PROP, SEED), "cases": cases, "failed": bool(concrete)}],
        },
        "assumptions": [
            "integers are mathematical (no overflow); float64 arithmetic is compared symbolically, term by term, with exact constant folding",
            "contracts of callees under other properties' checks hold (each is verified by the check of its own property)",
            "the memory model: no two named fields alias unless their objects do; no data races; no unsafe",
        ] + ["assumed: " + a for a in sorted(assumed)],
        "wall_s": round(time.time() - T0, 2), "violations": violations,
    }
    json.dump(ev, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations of %d functions discharged, %d cases cross-checked, %.1f s" % (PROP, proved, obligations, len(results), cases, time.time() - T0))
    return 1 if violations else 0


sys.exit(main())
