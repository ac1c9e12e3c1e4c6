#!/usr/bin/env python3
"""seed.py verify ID...   checks planted bugs in scratch copies: patch applies, builds, stable tests pass, demo discriminates
seed.py catch ID...    applies each to /repo, runs its property's quick check (or all with -all), undoes it
(development tool; no check uses it)"""
import json, os, subprocess, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=mod")
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env, **k)
def verify(i):
    d = os.path.join(root, "seeded", i)
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = w + "/repo"
        sh(f"cp -a /repo {repo}", "/")
        demo = w + "/demo"; os.makedirs(demo)
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"): shutil.copy(os.path.join(d, f), demo)
        r = sh(f"timeout 300 bash {demo}/demo.sh", repo)
        if r.returncode != 0: return "demo fails on clean tree: " + r.stdout[-600:] + r.stderr[-600:]
        r = sh(f"git apply {d}/patch.diff", repo)
        if r.returncode: return "apply: " + r.stderr
        r = sh("go build ./... && go vet . && go test ./... 2>&1 | tail -30", repo)
        if "FAIL" in r.stdout or r.returncode: return "tests: " + r.stdout[-1500:] + r.stderr[-500:]
        r = sh(f"timeout 300 bash {demo}/demo.sh", repo)
        if r.returncode == 0: return "demo passes with the patch"
        return "ok: " + (r.stdout + r.stderr).strip()[:300]
    finally:
        shutil.rmtree(w)
def catch(i, props):
    d = os.path.join(root, "seeded", i)
    out = []
    r = sh(f"git apply {d}/patch.diff", "/repo")
    if r.returncode: return "apply: " + r.stderr
    try:
        for p in props:
            r = sh(f"./check.sh {p} -tier quick", root)
            out.append(f"{p}:{'CAUGHT' if r.returncode == 1 and 'VIOLATION property='+p in r.stdout else r.returncode}")
            if r.returncode == 1: out.append("   " + r.stdout.strip()[:int(os.environ.get('SHOW', '300'))].replace("\n", "\n      "))
            if r.returncode == 2: out.append(r.stderr[-500:])
    finally:
        sh("git checkout -- .", "/repo")
    return "\n".join(out)
allp = [f"C{n:02d}" for n in range(1, 28)]
mode, ids = sys.argv[1], sys.argv[2:]
every = "-all" in ids
ids = [i for i in ids if i != "-all"] or sorted(os.listdir(root + "/seeded"))
for i in ids:
    if mode == "verify": print(i, verify(i), flush=True)
    else:
        m = json.load(open(f"{root}/seeded/{i}/meta.json"))
        print(i, catch(i, allp if every else [m["property"]]), flush=True)
