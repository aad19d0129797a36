#!/usr/bin/env python3
"""Self test of the checks: applies each edit of bugs.py / refactors.py to a scratch copy of the package sources and runs the checks on it.
A bug must be reported by the property named; a refactoring must leave every check quiet.
usage: run.py [-p PROP] [-k NAME] [--bugs] [--refactors]"""
import argparse, concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("AXLINT_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def props():
    sys.path.insert(0, ROOT)
    from axlint import rules
    return sorted(rules.load_all())


def corpus(kind):
    import glob, importlib
    return [importlib.import_module(os.path.basename(f)[:-3]) for f in sorted(glob.glob(os.path.join(HERE, kind+"*.py")))]


def run(entry, plist):
    kind, name, edits, expect = entry
    d = tempfile.mkdtemp(prefix="axst")
    try:
        shutil.copytree(os.path.join(REPO, "cocotbext"), os.path.join(d, "cocotbext"), ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "cocotbext/axi", f)
            s = open(p).read()
            cnt = 1
            if isinstance(old, tuple):
                old, cnt = old
            if old not in s:
                return name, kind, "NOAPPLY", f"{f}: {old[:60]!r}"
            s = s.replace(old, new, cnt) if cnt > 0 else s.replace(old, new)
            open(p, "w").write(s)
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return name, kind, "SYNTAX", str(e)
        res = {}
        r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), ",".join(plist), "--repo", d, "--evidence", os.path.join(d, "ev")], capture_output=True, text=True)
        # one analysis for all of them: split the output after the line that ends each
        cur, order = [], list(plist)
        for l in r.stdout.splitlines():
            cur.append(l)
            if order and (l.startswith(f"OK property={order[0]} ") or l.startswith(f"VIOLATION property={order[0]} ") or l.startswith(f"ERROR property={order[0]}:")):
                res[order.pop(0)] = (1 if l.startswith("VIOLATION") else 2 if l.startswith("ERROR") else 0, "\n".join(cur))
                cur = []
        for q in order:
            res[q] = (3, "\n".join(cur)+r.stderr[-500:])
        if kind == "bug":
            hit = [q for q in plist if res[q][0] == 1]
            if expect in hit:
                return name, kind, "caught", f"{expect}"+(f" (also {[h for h in hit if h != expect]})" if len(hit) > 1 else "")
            if hit:
                return name, kind, "caught-other", f"expected {expect}, got {hit}"
            und = [l for q in plist for l in res[q][1].splitlines() if l.startswith(("UNDECIDED", "ERROR"))]
            return name, kind, "MISSED", f"{expect} {und[:2]}"
        noisy = [(q, res[q][0], [l for l in res[q][1].splitlines() if l.startswith(("  ", "ERROR", "UNDECIDED"))][:3]) for q in plist if res[q][0] != 0]
        und = [l for q in plist for l in res[q][1].splitlines() if l.startswith("UNDECIDED")]
        if noisy:
            return name, kind, "NOISY", noisy
        return name, kind, "quiet", und[:3] if und else ""
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p", action="append")
    ap.add_argument("-k")
    ap.add_argument("--bugs", action="store_true")
    ap.add_argument("--refactors", action="store_true")
    ap.add_argument("--all-props", action="store_true", help="run every check on every bug, not only the one expected")
    a = ap.parse_args()
    entries = []
    if a.bugs or not a.refactors:
        entries += [("bug", n, e, x) for m in corpus("bugs") for n, x, e in m.BUGS]
    if a.refactors or not a.bugs:
        entries += [("refactor", n, e, None) for m in corpus("refactors") for n, e in m.REFACTORS]
    P = a.p or props()
    jobs = []
    for en in entries:
        if a.k and a.k not in en[1]:
            continue
        if en[0] == "bug":
            if a.p and en[3] not in a.p:
                continue
            jobs.append((en, P if a.all_props else [en[3]]))
        else:
            jobs.append((en, P))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, kind, st, msg in ex.map(lambda j: run(*j), jobs):
            if st not in ("caught", "quiet") or msg and kind == "refactor":
                print(f"{kind} {name}: {st} {msg}", flush=True)
            if st not in ("caught", "quiet"):
                bad += 1
    print(f"{len(jobs)} edits, {bad} not as expected")
    return 1 if bad else 0


sys.exit(main())
