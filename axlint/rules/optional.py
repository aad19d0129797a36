"""C12: optional signals may be absent."""

import ast

from . import prop
from ..core import *
from .wiring import CHANNELS, PLAIN, COMPOSITE, _class_value

LIB = {"_name", "_entity", "_signals", "_optional_signals", "drive", "sample", "capture"}


class Typer:
    """declared (mandatory, optional) signals of the bus an expression denotes, as far as a class uses it"""

    def __init__(self, an, c):
        self.an, self.c = an, c
        n = c.name
        self.bus = None
        for k in c.mro():
            v = _class_value(an, k, "_bus_obj") if k is c or "_bus_obj" in k.values or "_bus_obj" in k.attrs else None
            if v is not None and hasattr(v, "name"):
                self.bus = v.name
                break
        if self.bus is None:
            if c.is_sub("StreamBase"):
                self.bus = "StreamBus"
            elif c.is_sub("AxiStreamBase"):
                self.bus = "AxiStreamBus"
            elif n.startswith("Apb"):
                self.bus = "ApbBus"
            else:
                fam = "AxiLite" if n.startswith("AxiLite") else "Axi"
                self.bus = fam+("Write" if n.endswith("Write") else "Read" if n.endswith("Read") else "")+"Bus"

    def of(self, t):
        """name of the bus class t denotes, or None"""
        if t.op == "param" and t.args[1] == "bus":
            return self.bus
        if t.op in ("attr", "mattr"):
            if t.args[0].op == "self" and t.args[1] == "bus":
                return self.bus
            if t.args[1] == "bus":
                x = t.args[0]
                if x.op == "new":
                    k = self.an.pkg.classes.get(x.args[0])
                    if k is not None:
                        v = _class_value(self.an, k, "_bus_obj")
                        return getattr(v, "name", None)
                return None
            b = self.of(t.args[0])
            if b in COMPOSITE:
                return COMPOSITE[b].get(t.args[1])
        return None

    def declared(self, b):
        k = self.an.pkg.classes.get(b)
        if k is None or b in COMPOSITE:
            return None
        if b == "StreamBus":
            # the generic base class: its handshake is optional
            v = {_class_value(self.an, self.c, a) for a in ("_valid_signal", "_ready_signal")}
            s, o = (set(_class_value(self.an, self.c, a) or ()) for a in ("_signals", "_optional_signals"))
            return s-v, o | v
        m, o = _class_value(self.an, k, "_signals"), _class_value(self.an, k, "_optional_signals")
        if m is None:
            return None
        return set(m), set(o or ())


def targets(an):
    out = []
    for n in ("AxiStreamSource", "AxiStreamSink", "AxiStreamMonitor", "ApbMaster", "ApbSlave"):
        out.append(an.cls(n))
    for fam in ("Axi", "AxiLite"):
        for x in ("MasterWrite", "MasterRead", "SlaveWrite", "SlaveRead"):
            out.append(an.cls(fam+x))
        for x in ("Source", "Sink", "Monitor"):
            out.append(an.cls(fam+"W"+x))
    for x in ("StreamSource", "StreamSink", "StreamMonitor"):
        out.append(an.cls(x))
    return out


def _nm(t):
    x = t.args[1]
    return x.args[0] if isinstance(x, tm.Term) and x.op == "const" else x


def accesses(t, guard, ty, out, ctx=()):
    """bus signals a term reads, that no condition inside the term guards: (bus class, name)"""
    if not isinstance(t, tm.Term):
        if isinstance(t, (tuple, list)):
            for x in t:
                accesses(x, guard, ty, out, ctx)
        return
    if t.op == "hasattr":
        return
    if t.op == "ite":
        accesses(t.args[0], guard, ty, out, ctx)
        accesses(t.args[1], guard, ty, out, ctx+((t.args[0], True),))
        accesses(t.args[2], guard, ty, out, ctx+((t.args[0], False),))
        return
    if t.op in ("and", "or"):
        # short circuit evaluation, in any order the term algebra keeps: an operand is guarded by the others
        for i, x in enumerate(t.args):
            accesses(x, guard, ty, out, ctx+tuple((y, t.op == "and") for j, y in enumerate(t.args) if j != i))
        return
    if t.op in ("attr", "mattr"):
        b = ty.of(t.args[0])
        if b is not None:
            out.append((b, t.args[1], ctx))
            return
    for a in t.args:
        accesses(a, guard, ty, out, ctx)


def _implies_has(t, v, n):
    if t.op == "not":
        return _implies_has(t.args[0], not v, n)
    if t.op == "hasattr":
        return v and _nm(t) == n
    if t.op == "truthy":
        return _implies_has(t.args[0], v, n)
    if t.op == "and" and v:
        return any(_implies_has(x, True, n) for x in t.args)
    if t.op == "or" and not v:
        return any(_implies_has(x, False, n) for x in t.args)
    return False


def _ok(rep, rid, w, what):
    it = (rid, str(w), "ok", what)
    if it not in rep.seen:
        rep.seen.add(it)
        rep.items.append(it)


@prop("C12")
def optional(an, rep):
    rep.rule("declared", "every bus signal used is one the bus declares")
    rep.rule("guard", "an optional signal is read, driven or watched only where it is known to exist (a coroutine: where it is started)")
    rep.rule("none", "an attribute that is None when its signal is absent is used only when it is not None")
    rep.seen = set()
    for c in targets(an):
        _class(an, rep, c)
    _tolerant(an, rep)


def roots(an, c):
    """methods walked on their own: those the outside world or the scheduler runs"""
    out = []
    seen = set()
    for k in c.mro():
        for n, f in k.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if not n.startswith("_") or n == "__init__":
                out.append(f)
        for n, p in k.props.items():
            if n not in seen:
                seen.add(n)
                out += [f for f in p.values() if f is not None]
    hook = c.find(an.reset_hook())
    if hook is not None:
        out.append(hook)
    return out


def _class(an, rep, c):
    ty = Typer(an, c)
    todo = [(f, ()) for f in roots(an, c)]
    done = set()
    started = {}
    while todo:
        f, given = todo.pop(0)
        key = (id(f.node), given)
        if key in done:
            continue
        done.add(key)
        if any(d in ("classmethod", "staticmethod") for d in f.deco):
            continue
        try:
            if f.name == an.reset_hook():
                ps = [p for s in (False, True) for p in an.walk(c, f, args={f.node.args.args[-1].arg: const(s)})]
            else:
                ps = an.walk(c, f)
        except AnalysisError as x:
            rep.unk("guard", an.where(f), str(x))
            continue
        for p in ps:
            _path(an, rep, c, ty, f, p, set(given))
            for e in p.events:
                if an.is_start(e):
                    g = an.coro_func(e.args[0])
                    have = frozenset(_nm(t) for t, v in e.facts if v and t.op == "hasattr")
                    started.setdefault(g, []).append(have)
        for g, hs in list(started.items()):
            common = frozenset.intersection(*hs)
            if (id(g.node), tuple(sorted(common))) not in done:
                todo.append((g, tuple(sorted(common))))
    # (walks with an older, larger set of known signals are subsumed by the last one)


def _path(an, rep, c, ty, f, p, given):
    lits = p.order
    items = []
    for i, (t, v, node) in enumerate(lits):
        items.append(([(x, y) for x, y, _ in lits[:i]], t, an.where(f, node), "test"))
    for e in p.events:
        if e.kind == "loop":
            continue
        ts = [e.recv] + list(e.args or ()) + [v for k, v in (e.kwargs or ())] + [e.value]
        if e.kind == "set" and e.recv is not None and e.recv.op == "self" and f.name != "__init__":
            continue    # a copy of a value computed before
        w = f"{e.func.module.rel}:{e.line} {e.func.qual}"
        items += [(e.facts, t, w, e.kind) for t in ts if isinstance(t, tm.Term)]
    for facts, t, w, kind in items:
        out = []
        accesses(t, None, ty, out)
        for b, name, ctx in out:
            d = ty.declared(b)
            if b in COMPOSITE or d is None or name in LIB:
                continue
            mand, opt = d
            if name not in mand and name not in opt:
                rep.bad("declared", w, f"{b} declares no signal {name}")
                continue
            _ok(rep, "declared", w, name)
            if name in mand:
                continue
            known = name in given or any(_implies_has(x, v, name) for x, v in ctx) or any(_implies_has(x, v, name) for x, v in facts)
            if not known:
                # follows from several conditions together
                known = any(entails(p.lits, x, True) for t2, _, _ in p.order for x in tm.subterms(t2) if x.op == "hasattr" and x.args[1] is const(name))
            if known:
                _ok(rep, "guard", w, name)
            else:
                rep.bad("guard", w, f"the optional signal {name} is used without knowing that it exists ({c.name})")
    # attributes holding a signal or None
    for e in p.events:
        r = e.recv
        if r is None or r.op not in ("mattr", "attr") or r.args[0].op != "self":
            continue
        alts = an.walker().init_alts(c).get(r.args[1])
        if not alts or not any(v is not None and v.op in ("attr", "mattr") and ty.of(v.args[0]) for v in alts) or not any(v is NONE for v in alts):
            continue
        w = f"{e.func.module.rel}:{e.line} {e.func.qual}"
        isn = [v for t, v in e.facts if t.op == "isnone" and strip_epoch(t.args[0]) is strip_epoch(r)]
        if isn and not isn[-1]:
            _ok(rep, "none", w, r.args[1])
        elif isn:
            rep.bad("none", w, f"{r.args[1]} is used where it is None because its signal is absent")
        elif any(entails(p.lits, x, False) for t, _, _ in p.order for x in tm.subterms(t) if x.op == "isnone" and strip_epoch(x.args[0]) is strip_epoch(r)):
            _ok(rep, "none", w, r.args[1])      # follows from a compound condition
        else:
            rep.bad("none", w, f"{r.args[1]} is used without knowing that it is not None ({c.name})")


def _strobes(t, out, ctx=()):
    """reads of the strobe of a received transfer"""
    if not isinstance(t, tm.Term):
        if isinstance(t, (tuple, list)):
            for x in t:
                _strobes(x, out, ctx)
        return
    if t.op == "hasattr":
        return
    if t.op == "ite":
        _strobes(t.args[0], out, ctx)
        _strobes(t.args[1], out, ctx+((t.args[0], True),))
        _strobes(t.args[2], out, ctx+((t.args[0], False),))
        return
    if t.op in ("and", "or"):
        for i, x in enumerate(t.args):
            _strobes(x, out, ctx+tuple((y, t.op == "and") for j, y in enumerate(t.args) if j != i))
        return
    n = t.args[1] if t.op in ("attr", "mattr", "getattr") else None
    if isinstance(n, tm.Term) and n.op == "const":
        n = n.args[0]
    if n == "wstrb":
        out.append(ctx)
        return
    for a in t.args:
        _strobes(a, out, ctx)


def _tolerant(an, rep):
    rep.rule("default", "a slave uses the strobe of a received beat only where the signal exists (a transfer sampled without it has strobe 0)")
    for n in ("AxiSlaveWrite", "AxiLiteSlaveWrite"):
        c = an.cls(n)
        for f, _ in an.workers(c):
            for p in an.walk(c, f):
                order = [(x, y) for x, y, _ in p.order]
                items = [(order[:i], t, an.where(f, nd)) for i, (t, v, nd) in enumerate(p.order)]
                items += [(e.facts, t, f"{e.func.module.rel}:{e.line} {e.func.qual}") for e in p.events if e.kind in ("call", "set", "loop", "assert")
                          for t in [e.recv, e.value]+list(e.args or ()) if isinstance(t, tm.Term)]
                for facts, t, w in items:
                    out = []
                    _strobes(t, out)
                    for ctx in out:
                        known = any(_implies_has(x, v, "wstrb") for x, v in ctx) or any(_implies_has(x, v, "wstrb") for x, v in facts)
                        if known:
                            _ok(rep, "default", w, "wstrb")
                        else:
                            rep.bad("default", w, "the strobe of a received beat is used without knowing that the signal exists")
