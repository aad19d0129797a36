"""Rule registry: rule functions grouped by property."""

import importlib

MODULES = ("reset", "streams", "streams2", "masters", "frames", "words", "spaces", "alloc", "ids", "wiring", "optional", "slaves", "peers", "bursts", "phases", "extras", "geometry", "dumps", "reads")
_rules = {}
_assume = {}


def prop(*ids):
    def d(f):
        for i in ids:
            _rules.setdefault(i, []).append(f)
        return f
    return d


def assume(pid, *texts):
    _assume.setdefault(pid, []).extend(texts)


def share(target, source, rules=None, only=None):
    """obligations of one property that are part of what another one states"""
    def run(an, rep):
        from ..core import Report
        from ..model import AnalysisError
        cache = an.__dict__.setdefault("_shared", {})
        if source not in cache:
            r = Report(source)
            try:
                for f in list(_rules[source]):
                    if not getattr(f, "shared", False):
                        f(an, r)
            except AnalysisError as e:
                r.unk("shared", "-", str(e))
            cache[source] = r
        r = cache[source]
        for rid, text in r.rules.items():
            if rules is None or rid in rules:
                rep.rule(source+"."+rid, text)
        for it in r.items:
            if (rules is None or it[0] in rules) and (only is None or it[2] != "bad" or only(it[3])):
                rep.items.append((source+"."+it[0],)+tuple(it[1:]))
        rep.undecided += r.undecided
    run.shared = True
    _rules.setdefault(target, []).append(run)


def load(pid):
    for m in MODULES:
        importlib.import_module("axlint.rules."+m)
    if pid not in _rules:
        from ..model import AnalysisError
        raise AnalysisError(f"no rules for {pid}")
    return _rules[pid]


def load_all():
    for m in MODULES:
        importlib.import_module("axlint.rules."+m)
    return _rules


def assumptions(pid):
    return ["cocotb's scheduler is cooperative: other coroutines run only where the code awaits", "Python semantics of the built-in types"]+_assume.get(pid, [])


share("C01", "C18")
share("C03", "C18", ("reset", "flush"))
share("C10", "C20", ("stable",), lambda m: "pprot" in m)
share("C06", "C27", ("unlanes", "unkeep", "unside"))
