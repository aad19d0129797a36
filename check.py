#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]: decide one property from the sources in /repo."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from axlint.core import An, Report      # noqa: E402
from axlint.model import AnalysisError  # noqa: E402
from axlint import rules                # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", help="property, or several separated by commas (debugging aid: they share one analysis)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("AXLINT_REPO", "/repo"))
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--out", default=None, help="directory for the replay file")
    a = ap.parse_args()
    os.makedirs(a.evidence, exist_ok=True)
    an, rc = None, 0
    for p in a.prop.split(","):
        a.prop = p
        if an is None:
            try:
                an = An(a.repo)
                an.tier = a.tier
            except AnalysisError as e:
                print(f"ERROR property={a.prop}: {e}")
                return 2
        r = decide(a, an)
        rc = r if r == 1 or rc == 0 else rc
        sys.stdout.flush()
    return rc


def decide(a, an):
    t0 = time.time()
    known = {}
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for ln in open(kf):
            ln = ln.strip()
            if ln.startswith("known: property="+a.prop+" "):
                body = ln.split(" ", 2)[2]
                known[body.split(" | ")[0].strip()] = body
    rep = Report(a.prop)
    try:
        fns = rules.load(a.prop)
    except AnalysisError as e:
        print(f"ERROR property={a.prop}: {e}")
        return 2
    for fn in fns:
        try:
            fn(an, rep)
        except AnalysisError as e:
            rep.undecided.append(f"{fn.__name__}: {e}")
        except RecursionError as e:
            rep.undecided.append(f"{fn.__name__}: recursion limit")
        except Exception as e:
            if a.v:
                raise
            rep.undecided.append(f"{fn.__name__}: {type(e).__name__}: {e}")
    bad = [i for i in rep.items if i[2] == "bad"]
    seen, viol, kn = set(), [], []
    for r, w, s, m in bad:
        if (r, w, m) in seen:
            continue
        seen.add((r, w, m))
        sig = f"{r} {w.split(' ', 1)[-1]}"
        (kn if sig in known else viol).append((r, w, m))
    for k in kn:
        print(f"KNOWN-FINDING: property={a.prop} {k[0]} at {k[1]}: {k[2]}")
    for u in rep.undecided:
        print(f"UNDECIDED property={a.prop} {u}")
    per = {}
    for rid, text in rep.rules.items():
        per[rid] = {"rule": text, "discharged": rep.count("ok", rid), "violated": rep.count("bad", rid), "not_decided": rep.count("unknown", rid)}
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the sources under cocotbext/axi as they are now: every control-flow path (between loop heads) of the "
                           "functions listed is enumerated with value numbering, and each rule below is an obligation on those paths. Nothing is executed.",
            "obligations": len(rep.items), "discharged": rep.count("ok"), "violated": len(bad), "not_decided": rep.count("unknown"),
            "paths_walked": an.npaths, "functions_analysed": sorted(an.nfuncs), "rules": per,
            "rules_not_decided": rep.undecided,
            "sites": sorted({f"{r}: {w}" for r, w, s, _ in rep.items})[:400],
            "not_decided_sites": sorted({f"{r}: {w}: {m}" for r, w, s, m in rep.items if s == "unknown"})[:100],
        },
        "wall_s": round(time.time()-t0, 3),
        "violations": [{"rule": r, "where": w, "message": m} for r, w, m in viol],
        "assumptions": rules.assumptions(a.prop),
    }
    with open(os.path.join(a.evidence, a.prop+".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if a.v:
        for rid, d in per.items():
            print(f"  {rid}: ok {d['discharged']} bad {d['violated']} unknown {d['not_decided']}  ({d['rule'][:90]})")
        for i in rep.items:
            if i[2] == "unknown":
                print("  unknown", i)
        print(f"  paths {an.npaths} time {time.time()-t0:.1f}s")
    if viol:
        out = a.out or a.evidence
        rp = os.path.join(out, a.prop+".violation.txt")
        with open(rp, "w") as f:
            for r, w, m in viol:
                f.write(f"{w}\n  rule {r}: {rep.rules.get(r, '')}\n  {m}\n")
        for r, w, m in viol[:20]:
            print(f"  {w}: [{r}] {m}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if not rep.count("ok"):
        print(f"ERROR property={a.prop}: no obligation could be decided")
        return 2
    print(f"OK property={a.prop} obligations={len(rep.items)} discharged={rep.count('ok')} not_decided={rep.count('unknown')}")
    return 0


sys.exit(main())
