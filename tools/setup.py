#!/usr/bin/env python3
"""nothing to build: checks that the interpreter can load the analyser and that the sources parse"""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from axlint import rules
from axlint.core import An
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
rules.load_all()
a = An(os.environ.get("AXLINT_REPO", "/repo"))
print("sources parsed:", len(a.pkg.classes), "classes")
