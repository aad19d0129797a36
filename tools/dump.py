#!/usr/bin/env python3
"""dump.py Class.method [--ends] [indices]: debugging aid, prints paths"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from axlint.core import *
an = An(os.environ.get("AXLINT_REPO", "/repo"))
cn, fn = sys.argv[1].split('.')
c = an.cls(cn) if cn else None
ps = an.walk(c, fn) if c else None
print(len(ps), "paths")
for i, p in enumerate(ps):
    if "--ends" in sys.argv:
        print(i, p.kind, p.end[1] if p.kind == "backedge" else p.value, len(p.events), [e.line for e in p.events if e.kind == "await"])
for x in sys.argv[2:]:
    if x.isdigit():
        ps[int(x)].dump()
