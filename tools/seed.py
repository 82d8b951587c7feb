#!/usr/bin/env python3
"""seed.py FILE.py...: each FILE defines id, prop, needs, breaks, edits=[(path, old, new)], demo (Go main program).
Confirms the change in /repo (build, stable tests, demo) and keeps it under /verif/seeded/<id>."""
import json, os, subprocess, sys, re, runpy
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); R = "/repo"
PRE = open(os.path.join(V, "tools", "demo_prelude.go")).read()
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$D/demo.go.txt" "$T/main.go"
echo "{\\"Replace\\":{\\"/repo/cmd/verifdemo/main.go\\":\\"$T/main.go\\"}}" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./cmd/verifdemo || exit 2
mkdir "$T/s"; cd "$T/s" && timeout 120 "$T/demo" "$T/s"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): sh("git", "-C", R, "checkout", "--", "."); sh("git", "-C", R, "clean", "-fdq", "pkg")
def one(f):
    s = runpy.run_path(f); d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    if sh("git", "-C", R, "status", "--porcelain").stdout.strip(): sys.exit("/repo not clean")
    demo = s["demo"]
    imports = set(re.findall(r'"([^"]+)"', s.get("imports", "")))
    body = PRE.replace("//IMPORTS", "\n".join(f'\t"{i}"' for i in sorted(imports))) + demo
    open(os.path.join(d, "demo.go.txt"), "w").write(body)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        p = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
        if p.returncode != 0: print(s["id"], "DEMO FAILS ON CLEAN TREE", p.returncode, (p.stdout + p.stderr)[-600:]); return False
        own = []
        for path, old, new in s["edits"]:
            t = open(os.path.join(R, path)).read()
            if t.count(old) != 1: print(s["id"], "edit matches", t.count(old), "times in", path); return False
            open(os.path.join(R, path), "w").write(t.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # removed lines must belong to the original repository
        for path in {e[0] for e in s["edits"]}:
            bl = {}
            for line in sh("git", "-C", R, "blame", "-s", "HEAD", "--", path).stdout.split("\n"):
                m = re.match(r"\^?([0-9a-f]+)\s+(\d+)\) (.*)$", line)
                if m: bl.setdefault(m[3], []).append(m[1])
            for l in sh("git", "-C", R, "diff", "--", path).stdout.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                    own.append(any("1d45632".startswith(c[:7]) or c.startswith("1d45632") for c in bl.get(l[1:], [])))
        if not any(own): print(s["id"], "WARNING: changes no original line", own)
        p = sh("bash", "-c", ". /opt/vp/env.sh; go build ./... && go vet ./pkg/... >/dev/null")
        if p.returncode != 0: print(s["id"], "does not build", p.stderr[-500:]); return False
        p = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
        if p.returncode == 0: print(s["id"], "DEMO PASSES WITH THE CHANGE"); return False
        why = (p.stdout + p.stderr).strip()[-160:]
        sh("bash", "/opt/vp/test.sh", "/tmp/seedout.json")
        o = json.load(open("/tmp/seedout.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        bad = [t for t in b["stable"] if t not in set(o["passed"])]
        if bad: print(s["id"], "TESTS FAIL", bad[:4]); return False
        print(s["id"], s["prop"], "ok; orig lines:", own.count(True), "of", len(own), "|", why); return True
    finally: clean()
bad = 0
for f in sys.argv[1:]: bad += not one(f)
sys.exit(bad)
