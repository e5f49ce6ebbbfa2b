#!/usr/bin/env python3
"""mkbug.py FILE.py...: makes /verif/seeded/<id>/ from descriptions.

Each FILE.py defines BUGS = [dict(id, prop, pkg, edits=[(file, old, new)...],
demo=Go test source (package X_test, func TestDemo), needs, breaks)].
Confirms in a scratch copy: applies, builds, stable tests pass, demo passes
without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile, runpy
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
           PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$repo/@PKG@/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/o.json"
timeout 120 go test -vet=off -count=1 -overlay "$tmp/o.json" -run 'TestDemo$' ./@PKG@
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
def tests(d):
    p = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], d)
    bad = set()
    for l in p.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "fail": bad.add((e.get("Package"), e.get("Test")))
    return bad
base_bad = None
only = [a for a in sys.argv[1:] if not a.endswith(".py")]
for f in sys.argv[1:]:
    if not f.endswith(".py"): continue
    for b in runpy.run_path(f)["BUGS"]:
        if only and b["id"] not in only: continue
        dst = "/verif/seeded/" + b["id"]
        if os.path.exists(dst) and not only:
            continue
        d = tempfile.mkdtemp(prefix="bug")
        wt = d + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", wt], check=True)
            if base_bad is None: base_bad = tests(wt)
            out = d + "/seed"; os.makedirs(out)
            open(out + "/demo.sh", "w").write(DEMO.replace("@PKG@", b["pkg"])); os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo_test.go", "w").write(b["demo"])
            p = sh(["bash", out + "/demo.sh"], wt)
            if p.returncode != 0: print(b["id"], "DEMO FAILS ON CLEAN TREE\n", p.stdout[-1500:]); continue
            ok = True
            for (fn, old, new) in b["edits"]:
                s = open(wt + "/" + fn).read()
                if s.count(old) != 1: print(b["id"], "EDIT MATCHES", s.count(old), "TIMES:", fn, old); ok = False; break
                open(wt + "/" + fn, "w").write(s.replace(old, new))
            if not ok: continue
            p = sh(["go", "build", "./..."], wt)
            if p.returncode != 0: print(b["id"], "DOES NOT BUILD\n", p.stdout[-1500:]); continue
            bad = tests(wt) - base_bad
            if bad: print(b["id"], "TESTS FAIL", sorted(bad, key=str)[:5]); continue
            p = sh(["bash", out + "/demo.sh"], wt)
            if p.returncode == 0: print(b["id"], "DEMO PASSES WITH THE CHANGE"); continue
            if "[build failed]" in p.stdout: print(b["id"], "DEMO DOES NOT BUILD", p.stdout[-1000:]); continue
            diff = sh(["git", "diff", "--no-color"], wt).stdout
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            if os.path.exists(dst): shutil.rmtree(dst)
            shutil.copytree(out, dst)
            print(b["id"], "ok")
        finally:
            shutil.rmtree(d)
