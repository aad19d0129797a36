#!/usr/bin/env python3
"""Creates and confirms a planted bug: plant.py SPEC.py [--notest]
SPEC defines ID, PROPERTY, EDITS [(file under cocotbext/axi, old, new[, count])], DEMO (text of demo.py), NEEDS, BREAKS.
Writes /verif/seeded/ID only when: the demo passes on the clean tree, fails with the patch, and all stable tests pass with it (scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
base = tempfile.mkdtemp(prefix="plant_")
repo = os.path.join(base, "repo")
try:
    shutil.copytree("/repo", repo, symlinks=True)
    d = os.path.join(base, "demo")
    os.makedirs(d)
    for f in ("run_demo.py", "top.v"):
        shutil.copy(os.path.join(ROOT, "tools/simkit", f), d)
    open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip())
    if spec.get("PLAIN"):
        for f in ("run_demo.py", "top.v"):
            os.remove(os.path.join(d, f))
        sh = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n'
    else:
        sh = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nDEMO_REPO="$PWD" exec /opt/venv/bin/python "$here/run_demo.py" demo top.v ' + spec.get("PARAMS", "") + "\n"
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    demo = lambda: subprocess.run(["timeout", "250", "bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)
    r = demo()
    if r.returncode:
        sys.exit(f"{ID}: demo fails on the clean tree\n{r.stdout[-3500:]}{r.stderr[-1500:]}")
    for e in spec["EDITS"]:
        f, old, new = e[:3]
        p = os.path.join(repo, "cocotbext/axi", f)
        s = open(p).read()
        if old not in s:
            sys.exit(f"{ID}: edit does not apply: {old[:80]!r}")
        nth = e[3] if len(e) > 3 else 1
        if s.count(old) < nth:
            sys.exit(f"{ID}: only {s.count(old)} occurrences")
        pos = -1
        for _ in range(nth):
            pos = s.index(old, pos+1)
        s = s[:pos]+new+s[pos+len(old):]
        compile(s, p, "exec")
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    r = demo()
    if r.returncode == 0:
        sys.exit(f"{ID}: demo passes with the patch\n{r.stdout[-3000:]}")
    tail = [l for l in r.stdout.splitlines() if "Error" in l or "assert" in l or "demo:" in l][-4:]
    if "--notest" not in sys.argv:
        t = open("/opt/vp/test.sh").read().replace("/opt/vp/work", base+"/work").replace("/repo", repo).replace("pkill -9 -x vvp", "true").replace("-n 13", "-n 4")
        t = t.replace("timeout -k 10 840", "timeout -k 10 2400").replace("--timeout=420", "--timeout=1500")
        t = t.replace("/opt/vp/cocotb_cases.py", base+"/cases.py").replace("/opt/vp/results.py", base+"/results.py")
        for a in ("cocotb_cases.py", "results.py"):
            s = open("/opt/vp/"+a).read().replace("/repo", repo).replace("/opt/vp/work", base+"/work")
            open(os.path.join(base, "cases.py" if a == "cocotb_cases.py" else a), "w").write(s)
        open(base+"/test.sh", "w").write(t)
        out = base+"/out.json"
        subprocess.run(["bash", base+"/test.sh", out], capture_output=True, text=True)
        res = json.load(open(out))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set()
        for k in ("passed", "pass", "ok"):
            if isinstance(res.get(k), list):
                passed |= set(res[k])
        if not passed and isinstance(res.get("results"), dict):
            passed = {k for k, v in res["results"].items() if v in ("passed", "pass", True)}
        missing = stable-passed
        if missing:
            sys.exit(f"{ID}: {len(missing)} stable tests fail with the patch, e.g. {sorted(missing)[:3]}")
    dst = os.path.join(ROOT, "seeded", ID)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in os.listdir(d):
        if f != "__pycache__":
            shutil.copy(os.path.join(d, f), dst)
    open(os.path.join(dst, "patch.diff"), "w").write(diff)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    # what do the checks say?
    r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), spec["PROPERTY"], "--repo", repo, "--evidence", base+"/ev"], capture_output=True, text=True)
    print(f"{ID}: planted; check {spec['PROPERTY']} exit {r.returncode}; demo said {tail}")
    print("\n".join(r.stdout.splitlines()[-3:]))
finally:
    shutil.rmtree(base)
