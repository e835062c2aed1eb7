#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: makes /verif/seeded/<id> from definitions, after
confirming in a scratch copy that the change builds, passes the tests, and that
the demonstration tells the two trees apart. Then runs the property's check on
the scratch copy."""
import json, os, shutil, subprocess, sys, importlib.util, textwrap
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", CGO_ENABLED="1")
SUF = os.environ.get("PLANT", "")  # lets several runs go on at once
WT = "/tmp/plant-wt" + SUF

DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test %(flags)s -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, capture_output=True, text=True, **kw)

def fresh():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)

def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    fresh()
    CV = "/tmp/plant-verif" + SUF
    shutil.rmtree(CV, ignore_errors=True)
    subprocess.run(["rsync", "-a", "--exclude=seeded", "--exclude=.git", "--exclude=evidence", VERIF + "/", CV + "/"]) if shutil.which("rsync") else shutil.copytree(VERIF, CV, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- . && git clean -fdq", WT)
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f); s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT DOES NOT APPLY", f, s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = sh("git diff", WT).stdout
            d = os.path.join(VERIF, "seeded", b["id"])
            tmp = "/tmp/plant-demo" + SUF
            shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"], "flags": b.get("flags", "")}); os.chmod(tmp + "/demo.sh", 0o755)
            open(tmp + "/demo_test.go.txt", "w").write(b["demo"])
            r = sh("gofmt -l pkg cmd internal; go vet ./pkg/... ./cmd/... ./internal/... ; go build ./... && go test ./...", WT)
            if r.returncode != 0:
                print(b["id"], "BUILD OR TESTS FAIL\n", r.stdout[-1500:], r.stderr[-500:]); continue
            r1 = sh(tmp + "/demo.sh", WT)
            sh("git checkout -q -- .", WT)
            r0 = sh(tmp + "/demo.sh", WT)
            assert not sh("git status --short", WT).stdout, "the demo changes the tree"
            open("/tmp/plant.diff" + SUF, "w").write(diff)
            assert sh("git apply /tmp/plant.diff" + SUF, WT).returncode == 0
            if r0.returncode != 0 or r1.returncode == 0:
                print(b["id"], "DEMO WRONG clean=%d patched=%d" % (r0.returncode, r1.returncode), (r0.stdout + r0.stderr)[-800:] if r0.returncode else ""); continue
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            e = dict(ENV, VERIF_REPO=WT, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["./check", b["property"], "quick"], cwd=CV, env=e, capture_output=True, text=True)
            if "not exhausted" in r.stdout or "NOT" in r.stdout: print("   ", [l for l in r.stdout.splitlines() if "NOT" in l][:3])
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  C") and ": " in l]
            others = ""
            print(b["id"], b["property"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "|".join(lines[:3])[:200], flush=True)
    shutil.rmtree(WT, ignore_errors=True)
    shutil.rmtree(CV, ignore_errors=True)
main()
