#!/usr/bin/env python3
"""trials.py BATCH.py OUT [NAME...]: BATCH defines T = [(name, "C01,C02", [(path, old, new), ...])]; each change is applied to a
copy of /repo and the named checks are run against it (quick size). Development tool, not part of any check."""
import os, shutil, subprocess, sys, concurrent.futures as cf
batch, out, only = sys.argv[1], sys.argv[2], sys.argv[3:]
ns = {}; exec(open(batch).read(), ns)
W = int(os.environ.get("WORKERS", "2")); base = "/tmp/trials." + os.path.basename(out)
log = open(out, "a")
def go(cmd, cwd): return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd " + cwd + "; " + cmd], capture_output=True, text=True)
def one(t):
    name, checks, edits = t; T = base + "." + name; R, V = T + "/repo", T + "/verif"
    shutil.rmtree(T, ignore_errors=True); os.makedirs(V)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    for x in ("bin", "gen", "spec", "harness"): subprocess.run(["cp", "-a", "/verif/" + x, V], check=True)
    try:
        for p, a, b in edits:
            f = os.path.join(R, p)
            if not os.path.exists(f): return f"BAD {name}: no file {p}"
            s = open(f).read()
            if s.count(a) < 1: return f"BAD {name}: text not found in {p}"
            if s.count(a) > 1: return f"BAD {name}: text found {s.count(a)} times in {p}"
            open(f, "w").write(s.replace(a, b))
        b = go("go build ./... ", R)
        if b.returncode: return f"BAD {name}: {b.stderr[-400:]}"
        res = []
        for c in checks.split(","):
            p = subprocess.run([V + "/bin/check", c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R))
            res.append(f"{c}:{p.returncode}")
            if p.returncode == 1: break
            if p.returncode == 2: res.append((p.stdout + p.stderr)[-300:])
        return ("caught " if any(x.endswith(":1") for x in res) else "MISSED ") + name + " " + " ".join(res)
    finally: shutil.rmtree(T, ignore_errors=True)
with cf.ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, [t for t in ns["T"] if not only or t[0] in only]): print(r, file=log, flush=True)
print("DONE", file=log, flush=True)
