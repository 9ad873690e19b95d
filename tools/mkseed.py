#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a description: python3 tools/mkseed.py FILE.py [ID...]
FILE defines SEEDS: dicts with id, prop, edits [(file, old, new)], demo (Go test source), dir (package
directory of the demo), needs, breaks. Each is kept only if it builds, passes the stable tests and its
demonstration fails with it and passes without it."""
import json, os, subprocess, sys, shutil, importlib.util
V = "/verif"
S = "/tmp/seedrepo"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", HOME="/root")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, **k)
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package %(dir)s of the repository in the working directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local HOME=${HOME:-/root}
pkg=$PWD%(sub)s
printf '{"Replace": {"%%s/zz_seed_demo_test.go": "%%s/demo_test.go"}}' "$pkg" "$d" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -run '^TestSeedDemo$' -count=1 -timeout 120s%(flags)s ./%(rel)s
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for s in m.SEEDS:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    sh(f"rm -rf {S}; cp -a /repo {S}")
    ok = True
    for f, old, new in s["edits"]:
        p = f"{S}/{f}"; t = open(p).read()
        if t.count(old) != 1: print(s["id"], "EDIT matches", t.count(old), f); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    sh(f"gofmt -w {' '.join(f for f,_,_ in s['edits'])}", cwd=S)
    diff = sh("git diff", cwd=S).stdout
    b = sh("go build ./... && go vet . ./navigator ./types ./curve ./geo ./gpx ./geojson ./properties ./random", cwd=S)
    if b.returncode: print(s["id"], "BUILD", b.stderr[-800:]); continue
    r = sh("go test -json ./... 2>/dev/null", cwd=S)
    passed = set()
    failed = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Test") and d["Action"] in ("pass", "fail"):
            (passed if d["Action"] == "pass" else failed).add(d["Package"] + "::" + d["Test"])
    bad = [t for t in failed]
    if bad: print(s["id"], "TESTS FAIL", bad[:4]); continue
    out = f"{V}/seeded/{s['id']}"
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo_test.go", "w").write(s["demo"])
    d = s.get("dir", ".")
    open(out + "/demo.sh", "w").write(DEMO % dict(dir=d, sub="" if d == "." else "/" + d, rel="" if d == "." else d, flags=s.get("flags", "")))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    w = sh(f"bash {out}/demo.sh", cwd=S); g = sh(f"bash {out}/demo.sh", cwd="/repo")
    if w.returncode == 0 or g.returncode != 0:
        print(s["id"], "DEMO with", w.returncode, "without", g.returncode, (g.stdout+g.stderr)[-600:] if g.returncode else (w.stdout+w.stderr)[-300:])
        shutil.rmtree(out); continue
    print(s["id"], "ok:", [l for l in w.stdout.splitlines() if "zz_seed" in l or "panic" in l][:2])
sh(f"rm -rf {S}")
