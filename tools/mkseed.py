#!/usr/bin/env python3
"""Plant a bug: python3 tools/mkseed.py SPEC.py

SPEC.py defines BUGS, a list of dicts: id, property, pkg (directory of the demo
test), edits [(file, old, new), ...], demo (Go source of an external or
in-package test with func TestSeededDemo), needs, breaks. Each is confirmed in a
scratch copy (builds, stable tests pass, demo passes without and fails with the
change) and then written to seeded/<id>/. Bugs that cannot be confirmed are
reported and not written.
"""
import sys, os, subprocess, shutil, json, tempfile, runpy
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.24.13", GOTOOLCHAIN="local", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOWORK="off", GOFLAGS="-mod=mod", GOPROXY="off")
ENV["PATH"] = "/opt/veriftools/go1.24.13/bin:" + ENV["PATH"]
ENV.pop("DSKETCH_TEST_GENERATE_GO", None)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in the repository after a build: 0 when the behaviour holds, non-zero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seeded_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run 'TestSeededDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
stable = set()
def load_stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "tests", "passed", "stable_tests"):
        if k in b: return set(b[k])
    return set()
def failing(cwd):
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd)
    bad = []
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") in ("fail", "build-fail"): bad.append(e.get("Package", "") + "::" + e.get("Test", "<pkg>"))
    return bad
spec = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    wd = tempfile.mkdtemp(prefix="seed", dir="/tmp"); wt = wd + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", wt])
        sd = wd + "/seed"; os.mkdir(sd)
        open(sd + "/demo.sh", "w").write(DEMO % b); os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/demo_test.go", "w").write(b["demo"])
        r = sh(["bash", sd + "/demo.sh"], wt)
        if r.returncode != 0: print(b["id"], "DEMO FAILS ON CLEAN TREE\n", r.stdout[-2000:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = wt + "/" + f; s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT MATCHES", s.count(old), f, repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        patch = subprocess.check_output(["git", "diff"], cwd=wt, text=True)
        r = sh(["go", "build", "./..."], wt)
        if r.returncode: print(b["id"], "BUILD FAILS\n", r.stdout[-1500:]); continue
        bad = failing(wt)
        if bad: print(b["id"], "TESTS FAIL", bad[:6]); continue
        codes = [sh(["bash", sd + "/demo.sh"], wt).returncode for _ in range(2)]
        if 0 in codes: print(b["id"], "DEMO PASSES WITH THE BUG", codes); continue
        out = VERIF + "/seeded/" + b["id"]
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(sd, out)
        open(out + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(b["id"], "ok")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
