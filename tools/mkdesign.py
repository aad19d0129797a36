#!/usr/bin/env python3
"""Writes DESIGN.md: design.head.md, the rules extracted from axlint/rules, design.tail.md with the table of planted bugs (seeded/*/meta.json, plants.json)."""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, "tools")
rules = {}
for f in sorted(glob.glob(ROOT+"/axlint/rules/*.py")):
    for fn in ast.parse(open(f).read()).body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        ps = [a.value for d in fn.decorator_list if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "prop" for a in d.args]
        for nd in ast.walk(fn):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == "rule" and len(nd.args) == 2:
                try:
                    k, v = ast.literal_eval(nd.args[0]), ast.literal_eval(nd.args[1])
                except ValueError:
                    continue
                for p in ps:
                    rules.setdefault(p, []).append((k, v, os.path.basename(f)))
out = [open(H+"/design.head.md").read()]
for p in sorted(rules):
    out.append(f"**{p}** ({', '.join(sorted({f for _, _, f in rules[p]}))})\n\n")
    for k, v, f in rules[p]:
        out.append(f"* `{k}` – {v}\n")
    out.append("\n")
tail = open(H+"/design.tail.md").read()
notes = json.load(open(H+"/plants.json"))
rows = ["| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(ROOT+"/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {notes.get(i, 'yes')} |")
out.append(tail.replace("@@PLANTS@@", "\n".join(rows)))
open(ROOT+"/DESIGN.md", "w").write("".join(out))
