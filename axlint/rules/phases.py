"""APB: two-phase protocol of the master and ready handshake of the slave (C20).

The paths of the bus coroutine are cut at loop heads into segments; the segments form a graph over which the state of a protocol monitor (the phase of
the last clock cycle, what is driven, what has been sampled) is propagated to a fixpoint.  Every clock edge awaited is one step of the protocol."""

from . import prop, assume
from ..core import *
from .masters import masters, stage_units, accepted
from .slaves import apb_slaves
from .bursts import Ev, jobs

assume("C20", "a clock cycle of the protocol is the time between two awaited rising edges of the component's clock", "the component's coroutine is the only driver of its outputs")

PAYLOAD = ("paddr", "pwrite", "pwdata", "pstrb", "pprot")
OUT = PAYLOAD+("psel", "penable", "pready", "prdata", "pslverr")


def is_edge(e):
    r = e.recv
    return r.op == "call" and r.args[0] == "RisingEdge"


def val_of(t, name):
    """the one sample of the signal in the term, if there is exactly one"""
    vs = {x for x in tm.subterms(t) if x.op == "val" and attr_name(x.args[0]) == name}
    return next(iter(vs)) if len(vs) == 1 else None


def reading(t, v, name):
    """(sample, True/False) if the literal tells the value of the signal"""
    x = val_of(t, name)
    if x is None:
        return None
    got = [Ev({x: b}).get(t) for b in (0, 1)]
    if any(g is Ellipsis or isinstance(g, type) for g in got):
        return None
    got = [bool(g) == v for g in got]
    if got == [False, True]:
        return x, True
    if got == [True, False]:
        return x, False
    return None


class Item:
    __slots__ = ("kind", "name", "value", "fresh", "line")

    def __init__(self, kind, name=None, value=None, fresh=True, line=0):
        self.kind, self.name, self.value, self.fresh, self.line = kind, name, value, fresh, line

    @property
    def key(self):
        return (self.kind, self.name, self.value, self.fresh, self.line)


def under(p, v):
    """the value of a flag as the conditions of the path determine it"""
    if const_bool(v) is None and isinstance(v, Term):
        t = tm.truthy(v)
        if entails(p.lits, t):
            return TRUE
        if entails(p.lits, t, False):
            return FALSE
    return v


def items(p, watch):
    """[(loop id or None, [items])]: the path cut at loop heads, and where it ends"""
    segs = []
    cur, seq = None, []
    order = p.order
    li = 0
    waited = -1
    ev = p.events

    def bind(l, values, step, line):
        for nm, t in values.items():
            if nm.startswith("#") or not isinstance(t, Term):
                continue
            if t.op == "mu" and t.args == (l, nm):
                continue
            it = Item("bind", (l, nm), None, False, line)
            if t.op == "const":
                it.value = ("const", bool(t.args[0]))
            else:
                for name in watch:
                    r = reading(t, True, name)
                    if r:
                        it.value, it.fresh = (name, r[1]), r[0].args[1] == step
            seq.append(it)

    def lits(upto, step, line):
        nonlocal li, waited
        while li < upto:
            t, v, node = order[li]
            li += 1
            for name in watch:
                r = reading(t, v, name)
                if r:
                    seq.append(Item("is", name, r[1], r[0].args[1] == step, getattr(node, "lineno", line)))
            for x in tm.subterms(t):
                # the pause flag cannot change until the coroutine waits again
                if x.op == "mattr" and x.args[0].op == "self" and "pause" in x.args[1] and (t is x or t.op in ("truthy", "not") and t is not x and tm.truthy(x) in (t, tm.not_(t))):
                    if x.args[2] > waited:
                        seq.append(Item("pz", x.args[1], v if tm.truthy(x) is tm.truthy(t) else not v, True, getattr(node, "lineno", line)))
            mus = {x for x in tm.subterms(t) if x.op == "mu"}
            if len(mus) == 1 and not any(x.op == "val" for x in tm.subterms(t)):
                m = mus.pop()
                got = [Ev({m: b}).get(t) for b in (False, True)]
                if not any(g is Ellipsis or isinstance(g, type) for g in got):
                    got = [bool(g) == v for g in got]
                    if got[0] != got[1]:
                        seq.append(Item("var", m.args, got[1], True, getattr(node, "lineno", line)))

    def within(l, i):
        """does the path go into the body of loop l after event i?"""
        return any(l in e.loops for e in ev[i:]) or p.kind == "backedge" and p.end[1] == l
    counted = {l for l, d in p.linit.items() if isinstance(d.get("#hi"), Term)}
    for i, e in enumerate(ev):
        lits(e.nlits, e.step, e.line)
        if e.kind == "loop":
            bind(e.name, p.linit.get(e.name, {}), e.value, e.line)
            segs.append((cur, e.name, seq))
            cur, seq = e.name, []
            if e.name in counted:
                seq.append(Item("iter", e.name, within(e.name, i+1), True, e.line))
        elif e.kind == "await":
            seq.append(Item("edge" if is_edge(e) else "wait", line=e.line))
            waited = max(waited, e.epoch if isinstance(e.epoch, int) else 0)
        elif e.kind == "toint" and e.value is not None and e.value.op == "val":
            seq.append(Item("sample", attr_name(e.value.args[0]), e.value, e.value.args[1] == e.step, e.line))
        elif e.kind == "set" and e.name == "value" and attr_name(e.recv) in OUT:
            v = e.value
            if attr_name(e.recv) in ("psel", "penable", "pready"):
                v = under(p, v)
            seq.append(Item("set", attr_name(e.recv), v, line=e.line))
    lits(len(order), p.step, 0)
    dest = p.end[1] if p.kind == "backedge" else "end"
    if dest != "end":
        bind(dest, p.end[2], p.step, 0)
        if dest in counted:
            k, hi = tm.add(T("mu", dest, "#"), const(1)), p.linit[dest]["#hi"]
            last = p.lits.truth(tm.eq(k, hi))
            if last is None and p.lits.truth(tm.lt(k, hi)) is not None:
                last = not p.lits.truth(tm.lt(k, hi))
            if last is not None:
                seq.append(Item("more", dest, not last, True, 0))
    segs.append((cur, dest, seq))
    return segs


def graph(ps, watch):
    g = {}
    for p in ps:
        if p.kind == "raise":
            continue
        for a, b, seq in items(p, watch):
            g.setdefault(a, {})[(b, tuple(x.key for x in seq))] = (b, seq)
    return {a: list(d.values()) for a, d in g.items()}


def configs(ps, extra):
    """path sets that agree on which optional signals exist and (extra) on the kind of operation"""
    has = sorted({t for p in ps for t, v, _ in p.order if t.op == "hasattr"}, key=str)[:5]
    out = []
    for n in range(1 << len(has)):
        want = {t: bool(n >> i & 1) for i, t in enumerate(has)}
        for tag, keep in extra:
            sel = [p for p in ps if all(want.get(t, v) == v for t, v, _ in p.order) and keep(p)]
            if sel:
                out.append(({attrof(t): v for t, v in want.items()}, tag, sel))
    return out


def attrof(t):
    return str(t.args[1].args[0]) if isinstance(t.args[1], Term) and t.args[1].op == "const" else str(t.args[-1])


Term = tm.Term


def flow(g, start, step, rep_bad):
    """propagate monitor states over the segment graph"""
    tested = {it.name for d in g.values() for _, q in d for it in q if it.kind == "var"}
    seen = set()
    todo = [(None, start, frozenset())]
    while todo:
        n, s, known = todo.pop()
        if (n, s, known) in seen:
            continue
        seen.add((n, s, known))
        for dest, seq in g.get(n, ()):
            x, k = s, dict(known)
            for it in seq:
                if it.kind == "more":
                    k["more:"+it.name] = ("const", it.value, True)
                    continue
                if it.kind == "iter":
                    if k.pop("more:"+it.name, (None, it.value))[1] != it.value:
                        x = None
                        break
                    continue
                if it.kind == "pz":
                    if k.get("pz:"+it.name, (None, it.value))[1] != it.value:
                        x = None
                        break
                    k["pz:"+it.name] = ("const", it.value, True)
                    continue
                if it.kind == "bind":
                    # what a local variable holds at a loop head: a constant or a sample
                    if it.name in tested:
                        if it.value is None:
                            k.pop(it.name, None)
                        else:
                            k[it.name] = it.value+(it.fresh,)
                    continue
                if it.kind == "var":
                    v = k.get(it.name)
                    if v is None:
                        continue
                    if v[0] == "const":
                        if v[1] != it.value:
                            x = None
                            break
                        continue
                    x = step(x, Item("is", v[0], it.value == v[1], v[2], it.line))
                else:
                    if it.kind in ("edge", "wait"):
                        k = {a: (b[0], b[1], False) for a, b in k.items() if not (isinstance(a, str) and a.startswith("pz:"))}
                    x = step(x, it)
                if x is None:
                    break
            if x is not None and dest != "end":
                todo.append((dest, x, frozenset(k.items())))
    return {(n, s) for n, s, _ in seen}


def const_bool(t):
    t = tm.truthy(t)
    return True if t is TRUE else False if t is FALSE else None


@prop("C20")
def master_phases(an, rep):
    rep.rule("setup", "every transfer begins with exactly one cycle of select without enable")
    rep.rule("access", "enable follows and is held, with select, until ready is seen; then both are taken back (select may stay for a transfer that follows at once)")
    rep.rule("ready", "ready is looked at at every clock edge of the access phase, and only there")
    rep.rule("stable", "address, direction, protection, data and strobes are driven for each transfer and do not change while it is in progress")
    rep.rule("sample", "read data and error are sampled when the transfer completes")
    done = 0
    seen = set()
    for j in jobs(an):
        if j.stage != "req" or not any(attr_name(s.recv) == "psel" for p in j.ps for s in p.sets("value")):
            continue
        c, f, ps = j.c, j.f, j.ps
        driven = {attr_name(s.recv) for p in ps for s in p.sets("value")}
        w = f"{an.where(f)} [{c.name}] {'write' if j.write else 'read'}"
        said = set()
        unk = {}
        n = 0

        def bad(rule, it, msg):
            if (rule, it.line) not in said:
                said.add((rule, it.line))
                rep.bad(rule, f"{f.module.rel}:{it.line} {f.qual} [{c.name}]", msg)

        # select left asserted by a term over the position in the operation: it holds where the loop over the transfers goes on
        body = {}
        for p in ps:
            for s in p.sets("value"):
                if attr_name(s.recv) == "psel" and const_bool(under(p, s.value)) is None and not any(x.op in ("mattr", "val") or x.op == "meth" and x.args[1] in ("empty", "full", "qsize") for x in tm.subterms(s.value)):
                    fors = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While)) and n.lineno < s.line <= n.end_lineno]
                    fors = [n for n in fors if not (isinstance(n, ast.While) and n is min(fors, key=lambda m: m.lineno))]
                    if fors:
                        lp = max(fors, key=lambda m: m.lineno)
                        body[s.line] = (lp.lineno, lp.end_lineno)

        for cfg, tag, sel in configs(ps, [(None, lambda p: True)]):
            good, wrong = set(), set()
            need = {s for s in PAYLOAD if s in driven and cfg.get(s, True) and (j.write or s != "pwdata")}
            g = graph(sel, ("pready",))

            def step(s, it):
                phase, psel, pen, fresh, asked = s
                if isinstance(psel, tuple) and it.line and not psel[0] <= it.line <= psel[1]:
                    return None    # not where the loop goes on
                if it.kind == "set":
                    if it.name in ("psel", "penable"):
                        v = const_bool(it.value)
                        if v is None and it.name == "psel" and it.line in body:
                            v = body[it.line]
                        if v is None:
                            unk.setdefault("setup", f"{it.name} not constant")
                            return None
                        return (phase, v, pen, fresh, asked) if it.name == "psel" else (phase, psel, v, fresh, asked)
                    if it.name in PAYLOAD:
                        if phase in ("setup", "access"):
                            bad("stable", it, f"{it.name} changes during a transfer")
                        if it.name == "pwrite":
                            v = const_bool(it.value)
                            if v is not None and v != j.write:
                                bad("stable", it, f"pwrite is {v} for a {'write' if j.write else 'read'}")
                        return (phase, psel, pen, fresh | {it.name}, asked)
                    return s
                if it.kind == "sample":
                    if it.name in ("prdata", "pslverr"):
                        (good if phase == "done" else wrong).add((it.name, it.line))
                    return s
                if it.kind == "is":
                    if phase != "access":
                        return s
                    if not it.fresh:
                        bad("ready", it, "the transfer is ended on a value of ready sampled at an earlier clock edge")
                        return None
                    if it.value:
                        return ("done", psel, pen, frozenset(), None)
                    return (phase, psel, pen, fresh, True)
                if it.kind == "wait":
                    if psel or pen:
                        bad("access", it, "select or enable is left asserted while the master waits for something else than the clock")
                        return None
                    if phase in ("setup", "access"):
                        bad("access", it, "the transfer is abandoned before it is ready")
                        return None
                    return ("idle", psel, pen, fresh, asked)
                # clock edge
                if pen and not psel:
                    bad("access", it, "enable without select")
                    return None
                if not psel:
                    if phase in ("setup", "access"):
                        bad("access", it, "the transfer is withdrawn before it is ready")
                        return None
                    return ("idle", psel, pen, fresh, None)
                if not pen:
                    if phase == "setup":
                        bad("setup", it, "select without enable for more than one cycle")
                        return None
                    if phase == "access":
                        bad("access", it, "enable is taken back before ready")
                        return None
                    miss = need-fresh
                    if miss:
                        bad("stable", it, f"a transfer begins without {', '.join(sorted(miss))} being driven for it")
                        return None
                    return ("setup", psel, pen, fresh, None)
                if phase in ("idle", "done"):
                    bad("setup" if phase == "idle" else "access", it, "enable is asserted in the first cycle of a transfer" if phase == "idle" else "enable stays asserted after the transfer is complete")
                    return None
                if phase == "access" and not asked:
                    bad("ready", it, "a clock edge of the access phase passes without ready being looked at")
                    return None
                return ("access", psel, pen, fresh, None)

            st = flow(g, ("idle", False, False, frozenset(), None), step, bad)
            n += len(st)
            if not any(s[0] == "done" for _, s in st) and not said and not unk:
                unk.setdefault("access", "no transfer is seen to complete")
            # samples
            for p in sel:
                steps = {r[0].args[1] for t, v, _ in p.order for r in [reading(t, v, "pready")] if r and r[1]}
                for t in [t for t, _, _ in p.order]+[e.args[0] for e in p.events if e.kind == "call" and e.args]+[t for e in [p.end] if e and e[0] == "backedge" for t in e[2].values()]:
                    if not isinstance(t, Term):
                        continue
                    for x in tm.subterms(t):
                        if x.op == "val" and attr_name(x.args[0]) in ("prdata", "pslverr") and x.args[1] not in steps:
                            k = (attr_name(x.args[0]), "sample")
                            at = {(k[0], e.line) for e in p.events if e.kind == "toint" and e.value is x}
                            if at and at <= good and not at & wrong:
                                continue
                            if not at or not at & wrong:
                                unk.setdefault("sample", "place where it is sampled not found")
                            elif k not in said:
                                said.add(k)
                                rep.bad("sample", w, f"{k[0]} is not sampled at the clock edge at which ready is seen")
        done += 1
        for r in rep.rules:
            if r in unk:
                rep.unk(r, w, unk[r])
            elif not any(r in x for x in said) and r in ("setup", "access", "ready", "stable", "sample"):
                rep.ok(r, w, f"{n} monitor states")
    if done < 2:
        raise AnalysisError("APB master not found")


@prop("C20")
def slave_phases(an, rep):
    rep.rule("select", "a slave answers only a selection sampled after the previous answer was taken back")
    rep.rule("once", "ready is asserted for exactly one clock cycle per answer")
    rep.rule("valid", "read data and error are driven for each answer, no later than ready")
    done = 0
    for c, f, ps in apb_slaves(an):
        w = f"{an.where(f)} [{c.name}]"
        driven = {attr_name(s.recv) for p in ps for s in p.sets("value")}
        if "pready" not in driven:
            continue
        said, unk = set(), {}
        n = 0

        def bad(rule, it, msg):
            if (rule, it.line) not in said:
                said.add((rule, it.line))
                rep.bad(rule, f"{f.module.rel}:{it.line} {f.qual} [{c.name}]", msg)

        for cfg, tag, sel in configs(ps, [(None, lambda p: True)]):
            g = graph(sel, ("psel", "pwrite"))

            def step(s, it):
                ready, cnt, seen, after, fresh, wr = s
                if it.kind == "set":
                    if it.name == "pready":
                        v = const_bool(it.value)
                        if v is None:
                            unk.setdefault("once", "pready not constant")
                            return None
                        if v and not ready:
                            if seen != "ok":
                                bad("select", it, "ready is asserted without the slave being selected" if seen is None else
                                    "ready is asserted again for the access that has just been completed")
                                return None
                            return (True, 0, seen, after, fresh, wr)
                        if not v and ready:
                            if cnt == 0:
                                bad("once", it, "ready is taken back before a clock edge")
                                return None
                            return (False, 0, None, after, frozenset(), None)
                        return s
                    if it.name in ("prdata", "pslverr"):
                        return (ready, cnt, seen, after, fresh | {it.name}, wr)
                    return s
                if it.kind == "sample":
                    return s
                if it.kind == "is":
                    if it.name == "psel":
                        if ready:
                            return s
                        return (ready, cnt, ("stale" if after or not it.fresh else "ok") if it.value else None, after, fresh, wr)
                    return (ready, cnt, seen, after, fresh, it.value) if not ready else s
                if it.kind == "wait":
                    if ready:
                        bad("once", it, "ready is left asserted while the slave waits for something else than the clock")
                        return None
                    return s
                # clock edge
                if ready:
                    if cnt >= 1:
                        bad("once", it, "ready is asserted for more than one clock cycle")
                        return None
                    if wr is False and "prdata" not in fresh and "prdata" in driven:
                        bad("valid", it, "ready without read data")
                        return None
                    if "pslverr" in driven and cfg.get("pslverr", True) and "pslverr" not in fresh:
                        bad("valid", it, "ready without a value for the error")
                        return None
                    return (True, 1, None, True, fresh, wr)
                return (ready, 0, seen, False, fresh, wr)

            st = flow(g, (False, 0, None, False, frozenset(), None), step, bad)
            n += len(st)
            if not any(s[0] for _, s in st) and not any(it.kind == "set" and it.name == "pready" and const_bool(it.value) for d in g.values() for _, q in d for it in q):
                unk.setdefault("once", "ready is never asserted")
            for p in sel:
                at = [r[0].args[1] for t, v, _ in p.order for r in [reading(t, v, "psel")] if r and r[1]]
                if not at:
                    continue
                for e in p.events:
                    if e.kind == "call" and e.awaited and attr_name(e.recv) == "target":
                        for a in e.args:
                            for x in tm.subterms(a):
                                if x.op == "val" and attr_name(x.args[0]) in PAYLOAD and x.args[1] < at[0]:
                                    bad("select", Item("set", line=e.line), f"{attr_name(x.args[0])} was sampled before the slave was seen to be selected")
        done += 1
        for r in ("select", "once", "valid"):
            if r in unk:
                rep.unk(r, w, unk[r])
            elif not any(r in x for x in said):
                rep.ok(r, w, f"{n} monitor states")
    if not done:
        raise AnalysisError("APB slave not found")
