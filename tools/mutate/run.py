#!/usr/bin/env python3
"""run.py N SEED OUT FILE=CHECKS...: samples N changes per file, and runs the checks against each on copies of /repo and
/verif; survivors (no check reports a violation) are listed in OUT. Development tool, not part of any check."""
import json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
n, seed, out = int(sys.argv[1]), sys.argv[2], sys.argv[3]
T = "/tmp/mt." + os.path.basename(out)
shutil.rmtree(T, ignore_errors=True); os.makedirs(T + "/mut")
R, V = T + "/repo", T + "/verif"
subprocess.run(["cp", "-a", "/repo", R], check=True)
os.makedirs(V); [subprocess.run(["cp", "-a", "/verif/" + x, V], check=True) for x in ("bin", "gen", "spec", "harness")]
shutil.copy(HERE + "/mutator.go.txt", T + "/mut/main.go")
env = dict(os.environ)
go = lambda cmd, cwd: subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd " + cwd + "; " + cmd], capture_output=True, text=True)
p = go("go build -o ../mutator main.go", T + "/mut"); assert p.returncode == 0, p.stderr
log = open(out, "a")
def say(*a): print(*a, file=log, flush=True)
for spec in sys.argv[4:]:
    f, checks = spec.split("="); checks = checks.split(",")
    path = os.path.join(R, f); orig = open(path, "rb").read()
    ms = [json.loads(l) for l in subprocess.run([T + "/mutator", path], capture_output=True, text=True, check=True).stdout.split("\n") if l]
    r = random.Random(seed + f); r.shuffle(ms)
    done = 0
    for m in ms:
        if done >= n: break
        new = orig[:m["off"]] + m["new"].encode() + orig[m["off"] + m["len"]:]
        open(path, "wb").write(new)
        if go("go vet -unusedresult=false ./" + os.path.dirname(f), R).returncode and go("go build ./" + os.path.dirname(f), R).returncode:
            open(path, "wb").write(orig); continue
        done += 1; res = []
        for c in checks:
            p = subprocess.run([V + "/bin/check", c], capture_output=True, text=True, env=dict(env, VERIF_REPO=R, VERIF_SCALE=os.environ.get("MSCALE", "1")))
            res.append(f"{c}:{p.returncode}")
            if p.returncode == 1: break
            if p.returncode == 2: say("ERR", f, m["line"], c, (p.stdout + p.stderr)[-300:])
        open(path, "wb").write(orig)
        st = "killed" if any(x.endswith(":1") for x in res) else "SURVIVED"
        say(st, f"{f}:{m['line']}", m["fn"], m["kind"], json.dumps(m["old"][:160]), "->", json.dumps(m["new"][:120]), " ".join(res))
shutil.rmtree(T, ignore_errors=True)
say("DONE")
