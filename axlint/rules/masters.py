"""Bus masters: operation life cycle (C01), idle / wait (C02), reset (C03), capture at call time (C09), attribute plumbing (C10),
request validation (C11), response codes (C13)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .streams import stream_components, worker_paths, is_clock_wait, event_of, outer_backedge, iteration_events, reads_of, groups

ENTRY = ("init_write", "init_read", "write", "read")
PUTS = ("put", "put_nowait", "append", "start_cmd")
GETS = ("get", "get_nowait", "popleft", "pop")


def masters(an):
    """classes that accept operations and process them themselves"""
    out = []
    for c in an.subclasses("Reset"):
        if c.is_sub("Region") and any(c.find(m) is not None and c.find(m).cls is not None and c.find(m).cls.is_sub("Reset") for m in ("init_write", "init_read")):
            out.append(c)
    if len(out) < 3:
        raise AnalysisError("bus master classes not found")
    return sorted(out, key=lambda c: c.name)


def composites(an):
    """classes that combine a write and a read interface"""
    out = []
    for c in an.pkg.classes.values():
        names = set()
        f = c.find("__init__")
        if f is None or c.is_sub("Reset"):
            continue
        al = an.walker().init_alts(c)
        if "write_if" in al and "read_if" in al:
            out.append(c)
    return sorted(out, key=lambda c: c.name)


def entries(an, c):
    """[(name, Func, paths)] of operation entry points"""
    out = []
    for m in ENTRY:
        f = c.find(m)
        if f is None or f.cls is None or not f.cls.is_sub("Reset"):
            continue
        out.append((m, f, an.walk(c, f)))
    if not out:
        raise AnalysisError(f"{c.name}: no operation entry points")
    return out


def cmd_puts(p):
    for e in p.calls(PUTS):
        if e.recv is not None and is_self_attr(e.recv) and e.args and e.args[-1].op == "nt":
            yield e


def fields(nt):
    return dict(nt.args[1])


def is_event(t):
    return t.op == "new" and t.args[0] == "Event" or t.op == "ext" or t.op == "obj"


def accepted(an, c):
    """[(name, func, path, put event, fields)] for paths that accept the operation"""
    for m, f, ps in entries(an, c):
        for p in finals(ps):
            puts = list(cmd_puts(p))
            yield m, f, p, puts


def event_field(an, c):
    """name of the command field that carries the completion event"""
    cnt = {}
    for m, f, p, puts in accepted(an, c):
        for e in puts:
            for k, v in fields(e.args[-1]).items():
                for x in p.events:
                    if x.kind == "await" and event_of(x.recv) is v:
                        cnt[k] = cnt.get(k, 0)+1
                if p.value is v:
                    cnt[k] = cnt.get(k, 0)+1
    if not cnt:
        raise AnalysisError(f"{c.name}: completion event of operations not found")
    return max(cnt, key=lambda k: cnt[k])


def counter_attr(an, c):
    """attribute idle() looks at"""
    for p in finals(an.walk(c, "idle")):
        if p.value is not None:
            for x in list(tm.subterms(p.value))+[y for t, v, _ in p.order for y in tm.subterms(t)]:
                if x.op in ("attr", "mattr") and x.args[0].op == "self":
                    return x.args[1]
    raise AnalysisError(f"{c.name}.idle(): no operation counter")


def idle_event_attr(an, c):
    for p in an.walk(c, "wait"):
        for e in p.events:
            if e.kind == "await":
                x = event_of(e.recv)
                if x is not None and attr_name(x):
                    return attr_name(x)
    raise AnalysisError(f"{c.name}.wait() awaits no event")


def stage_units(an, c):
    """[(label, Func, paths, kind)]: worker coroutines plus the per-ID response coroutine handed to the tag manager"""
    out = []
    for f, attr in an.workers(c):
        out.append((f, an.walk(c, f), "worker"))
    done = {f for f, _, _ in out}
    ev = event_field(an, c)
    for f in _methods(c):
        if f in done or f.name in ENTRY or f.name == an.reset_hook() or f.name == "__init__" or not f.is_async:
            continue
        ps = an.walk(c, f)
        hit = False
        for p in ps:
            for e in p.calls("set"):
                if e.recv is not None and e.recv.op in ("attr", "mattr") and e.recv.args[1] == ev and e.recv.args[0].op == "param":
                    hit = True
        if hit:
            out.append((f, ps, "per-id"))
    return out


def _methods(c):
    seen = {}
    for k in reversed(c.mro()):
        for n, f in k.methods.items():
            seen[n] = f
    return list(seen.values())


def taken(p, kind):
    """[(event or None, item term)] commands taken in charge on the path"""
    if kind == "per-id":
        f = p.func
        return [(None, T("param", f.qual, f.node.args.args[-1].arg))]
    out = []
    for e in p.calls(GETS):
        if e.recv is not None and is_self_attr(e.recv) and e.loops:
            out.append((e, e.result))
    return out


def evterm(item, ev):
    return lambda t: t is not None and t.op in ("attr", "mattr") and t.args[0] is item and t.args[1] == ev


def completions(p, item, ev):
    return [e for e in p.calls("set") if evterm(item, ev)(e.recv)]


def handoffs(p, item, ev):
    out = []
    for e in p.calls(PUTS):
        if e.args and e.args[-1].op == "nt" and any(evterm(item, ev)(v) for _, v in e.args[-1].args[1]):
            out.append(e)
        elif e.args and e.args[-1] is item:
            out.append(e)
    return out


def cond_of(p, e):
    """literals known when event e happened are a prefix; here: the literals of the path"""
    return p.lits


# ------------------------------------------------------------------ C01

@prop("C01")
def lifecycle(an, rep):
    rep.rule("accept", "an accepted operation is queued exactly once, carrying the completion event the caller gets (or waits for) and returning that event's data")
    rep.rule("once", "each operation taken from a queue is completed or handed to the next stage exactly once, with its own event")
    rep.rule("own", "the result (and what is handed on) carries the operation's own address and length")
    rep.rule("custody", "while an operation is being worked on it is remembered where the reset handler finds it, and forgotten once it is completed")
    n = 0
    for c in masters(an):
        ev = event_field(an, c)
        queues = set()
        for m, f, p, puts in accepted(an, c):
            w = f"{an.where(f)} [{c.name}]"
            n += 1
            rep.check("accept", w, len(puts) == 1, "an accepted operation is not queued exactly once")
            if len(puts) != 1:
                continue
            e = puts[0]
            queues.add(e.recv.args[1])
            E = fields(e.args[-1]).get(ev)
            rep.check("accept", w, not any(x.loops for x in [e]), "the operation is queued in a loop")
            if m.startswith("init_"):
                rep.check("accept", w, p.value is E, "the event returned is not the one that will be set")
                pr = [a.arg for a in f.node.args.args if a.arg == "event"]
                if pr:
                    par = T("param", f.qual, "event")
                    if not possible(p.lits, [(tm.isnone(par), True)]):
                        rep.check("accept", w, E is par, "the caller's event is not used")
                rep.check("accept", w, not [x for x in p.events if x.kind == "await"], "the non-blocking call waits")
            else:
                waits = [x for x in p.events if x.kind == "await" and event_of(x.recv) is E]
                rep.check("accept", w, bool(waits) and waits[-1].idx > e.idx, "the call returns without waiting for its own operation")
                v = p.value
                rep.check("accept", w, v is not None and v.op in ("attr", "mattr") and v.args[0] is E and v.args[1] == "data" or
                          bool(waits) and v is waits[-1].result and None,
                          "the call does not return the result of its own operation")
                rep.check("accept", w, E is not None and E.op != "param" and E.op != "attr" and E.op != "mattr", "the completion event is shared between calls")
        # stages
        term = 0
        opq = set(queues)
        for f, ps, kind in stage_units(an, c):
            for p in ps:
                for g, x in taken(p, kind):
                    opq |= {e.recv.args[1] for e in handoffs(p, x, ev) if e.recv is not None and is_self_attr(e.recv)}
        for f, ps, kind in stage_units(an, c):
            w = f"{an.where(f)} [{c.name}]"
            for p in ps:
                if p.kind == "raise":
                    continue
                full = outer_backedge(p) if kind == "worker" else p.kind in ("return", "fall")
                items = taken(p, kind)
                items = [(g, x) for g, x in items if g is None or g.recv.args[1] in opq or _is_cmd(an, c, ps, x, ev)]
                for g, x in items:
                    comp, hand = completions(p, x, ev), handoffs(p, x, ev)
                    n += 1
                    depth = len(g.loops) if g is not None else 0
                    for e in comp+hand:
                        if len(e.loops) > depth:
                            rep.bad("once", f"{e.where} [{c.name}]", "an operation may be completed several times (inside a loop)")
                    if full:
                        rep.check("once", w, len(comp)+len(hand) == 1, "an operation is dropped or completed more than once")
                    for e in comp:
                        term += 1
                        a = e.arg(0, "data")
                        rep.check("once", f"{e.where} [{c.name}]", a is not None and a is not NONE, "an operation is completed without a result")
                        if a is not None and a.op == "nt":
                            _own(an, rep, c, e, a, x)
                    for e in hand:
                        if e.args[-1].op == "nt":
                            _own(an, rep, c, e, e.args[-1], x)
                    if kind == "worker" and g is not None:
                        _custody(an, rep, c, f, p, g, x, comp, hand, full)
        rep.check("once", c.name, term > 0, "operations are never completed")
    if n < 20:
        raise AnalysisError("operation paths not found")


def _is_cmd(an, c, ps, x, ev):
    """the item taken is an operation (its event is used somewhere)"""
    for p in ps:
        if completions(p, x, ev) or handoffs(p, x, ev):
            return True
    return False


def _length_term(x, p=None):
    return (T("attr", x, "length"),)


def _own(an, rep, c, e, nt, x):
    for k, v in nt.args[1]:
        w = f"{e.where} {nt.args[0]}.{k} [{c.name}]"
        if k == "address":
            rep.check("own", w, v.op in ("attr", "mattr") and v.args[0] is x and v.args[1] == "address", "the address is not the operation's own")
        elif k == "length":
            rep.check("own", w, _is_own_length(v, x), "the length is not the operation's own")


def _is_own_length(v, x):
    if v.op in ("attr", "mattr") and v.args[0] is x:
        return v.args[1] == "length"
    if v.op == "call" and v.args[0] == "len":
        y = v.args[1][0] if isinstance(v.args[1], tuple) else v.args[1]
        return y.op in ("attr", "mattr") and y.args[0] is x and y.args[1] == "data"
    if v.op == "ite":
        return _is_own_length(v.args[1], x) and _is_own_length(v.args[2], x)
    return False


def _custody(an, rep, c, f, p, g, x, comp, hand, full):
    """some self attribute names x from the first await after the get to the completion"""
    w = f"{g.where} {f.qual} [{c.name}]"
    holders = {s.name for s in p.sets() if s.recv.op == "self" and s.value is x}
    if not holders:
        # fine only when nothing is awaited while the operation is held
        end = min([e.idx for e in comp+hand], default=len(p.events))
        aw = [e for e in p.events if e.kind == "await" and g.idx < e.idx < end and not _await_of(e, g)]
        if aw or not full and [e for e in p.events if e.kind == "await" and e.idx > g.idx and not _await_of(e, g)]:
            rep.bad("custody", w, "an operation in progress is not remembered, so a reset loses it and its caller waits forever")
        return
    A = sorted(holders)[0]
    cur = None
    done = False
    first_done = min([e.idx for e in comp+hand], default=None)
    for e in p.events:
        if e.idx <= g.idx:
            continue
        if e.kind == "set" and e.recv.op == "self" and e.name == A:
            cur = e.value
        if e.kind == "await" and not _await_of(e, g):
            held_needed = first_done is None or e.idx < first_done
            if held_needed:
                rep.check("custody", f"{e.where} {f.qual} [{c.name}]", cur is x, "the operation in progress is not remembered while waiting, so a reset would lose it")
            elif comp:
                rep.check("custody", f"{e.where} {f.qual} [{c.name}]", cur is NONE, "a completed operation is still remembered while waiting")
    if full:
        rep.check("custody", w, cur is NONE, "a finished operation stays remembered, so a reset would complete it again")


def _await_of(e, g):
    """the await belongs to the get itself"""
    return e.recv is g.result


@prop("C01", "C03")
def flush(an, rep):
    rep.rule("flush", "on reset every queued operation and every operation in progress is completed with no result, exactly once per place it is kept, and forgotten")
    n = 0
    for c in masters(an):
        ev = event_field(an, c)
        hook = an.method(c, an.reset_hook())
        w = f"{an.where(hook)} [{c.name}]"
        qs, holders = set(), set()
        for m, f, p, puts in accepted(an, c):
            qs |= {e.recv.args[1] for e in puts}
        tagmgr = set()
        for f, ps, kind in stage_units(an, c):
            for p in ps:
                for g, x in taken(p, kind):
                    if g is None or not _is_cmd(an, c, ps, x, ev):
                        continue
                    holders |= {s.name for s in p.sets() if s.recv.op == "self" and s.value is x}
                    for e in handoffs(p, x, ev):
                        if e.recv is not None and is_self_attr(e.recv):
                            if e.name == "start_cmd":
                                tagmgr.add(e.recv.args[1])
                            else:
                                qs.add(e.recv.args[1])
        ps = [p for p in an.walk(c, hook, args={hook.node.args.args[-1].arg: TRUE})]
        fin = [p for p in ps if p.kind in ("return", "fall")]
        for q in sorted(qs):
            n += 1
            seen = False
            for p in ps:
                for g in p.calls(GETS):
                    if g.recv is not None and is_self_attr(g.recv, q):
                        seen = True
                        if p.kind == "backedge":
                            inloop = [e for e in p.events if e.loops and e.idx >= g.idx]
                            _flushed(rep, p, g.result, ev, inloop, f"{g.where} {hook.qual} [{c.name}]")
            rep.check("flush", f"{w} {q}", seen, "queued operations are not flushed on reset")
            for p in fin:
                lits = [(t, v) for t, v, _ in p.order for x in tm.subterms(t) if x.op == "call" and x.args[0] == "qsize" and is_self_attr(x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1], q)]
                fresh = [s for s in p.sets(q) if s.recv.op == "self"]
                if seen:
                    ok = any(not v for t, v in lits) or bool(fresh) or None
                    if ok is None:
                        evs = [e for e in p.events if e.recv is not None and is_self_attr(e.recv, q)]
                        passed = any(is_self_attr(a, q) for e in p.events for a in e.args if isinstance(a, tm.Term))
                        if not passed and (not lits and not evs or lits and not any(x.op == "mu" for t, v in lits for x in tm.subterms(t)) and
                                           evs and all(not e.loops and e.name in GETS for e in evs)):
                            ok = False
                    rep.check("flush", f"{w} {q}", ok, "the flush may leave operations queued")
        for a in sorted(holders):
            n += 1
            for p in fin:
                rd = [x for x in reads_of(p, a)]
                x0 = rd[0] if rd else None
                if x0 is None:
                    rep.bad("flush", f"{w} {a}", "the operation in progress is not flushed on reset")
                    continue
                present = not (entails(p.lits, tm.truthy(x0), False) or entails(p.lits, tm.isnone(x0), True))
                if present:
                    _flushed(rep, p, x0, ev, p.events, f"{w} {a}")
                    s = p.sets(a)
                    last = [y for y in p.sets(a) if y.recv.op == "self"]
                    rep.check("flush", f"{w} {a}", bool(last) and last[-1].value is NONE, "the flushed operation stays remembered (it would be flushed again)")
        for t in sorted(tagmgr):
            n += 1
            for p in fin:
                k = [e for e in p.calls("flush") if e.recv is not None and is_self_attr(e.recv, t)]
                rep.check("flush", f"{w} {t}", len(k) == 1, "operations waiting for responses are not flushed on reset")
            hit = False
            for p in ps:
                if p.kind == "backedge":
                    k = [e for e in p.calls("flush") if e.recv is not None and is_self_attr(e.recv, t)]
                    if not k:
                        continue
                    elems = {x for e in p.events for v in [e.recv] if v is not None for x in tm.subterms(v) if x.op == "sub" and x.args[0] is k[-1].result}
                    elems |= {x for l, v, _ in p.order for x in tm.subterms(l) if x.op == "sub" and x.args[0] is k[-1].result}
                    for x in elems:
                        hit = True
                        _flushed(rep, p, x, ev, [e for e in p.events if e.loops], f"{w} {t}")
            rep.check("flush", f"{w} {t}", hit, "operations waiting for responses are not completed on reset")
    if n < 8:
        raise AnalysisError("reset flush sites not found")


def _flushed(rep, p, item, ev, events, w):
    e0 = [t for l, v, _ in p.order for t in tm.subterms(l) if evterm(item, ev)(t)]
    if e0 and entails(p.lits, tm.truthy(e0[0]), False) or e0 and entails(p.lits, tm.isnone(e0[0]), True):
        rep.ok("flush", w)
        return
    st = [e for e in events if e.kind == "call" and e.name == "set" and evterm(item, ev)(e.recv)]
    rep.check("flush", w, len(st) == 1, "an operation flushed by reset is not completed exactly once")
    for e in st:
        a = e.arg(0, "data")
        rep.check("flush", w, a is None or a is NONE, "an operation flushed by reset is completed with a result")


# ------------------------------------------------------------------ C02

@prop("C02")
def master_idle(an, rep):
    rep.rule("count", "the number of operations in flight goes up by one per accepted operation, down by one per completed one and to zero on reset")
    rep.rule("idle", "idle() is true exactly when that number is zero")
    rep.rule("wait", "wait() returns only when idle() holds; its event is set exactly when the last operation completes or is flushed and cleared when one is accepted")
    n = 0
    for c in masters(an):
        A = counter_attr(an, c)
        I = idle_event_attr(an, c)
        ev = event_field(an, c)

        def delta(p, evs=None):
            d = 0
            for s in p.sets(A):
                if s.recv.op != "self" or (evs is not None and s not in evs):
                    continue
                rd = [x for x in tm.subterms(s.value) if is_self_attr(x, A)]
                k = tm.numval(tm.sub_(s.value, rd[0])) if rd else None
                if k is None:
                    return None
                d = k if rd[0].op == "mattr" and d == 0 else d+k
            return d
        for m, f, p, puts in accepted(an, c):
            w = f"{an.where(f)} [{c.name}]"
            n += 1
            rep.check("count", w, delta(p) == 1, "accepting an operation does not count it exactly once")
            clr = [e for e in p.calls("clear") if is_self_attr(e.recv, I)]
            rep.check("wait", w, bool(clr), "accepting an operation does not end the idle state")
            st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
            rep.check("wait", w, not st, "accepting an operation signals idle")
            # counted before anything else can run
            sets = [s for s in p.sets(A) if s.recv.op == "self"]
            aw = [e for e in p.events if e.kind == "await"]
            if sets and aw:
                rep.check("count", w, sets[0].idx < aw[0].idx, "the operation is counted only after other coroutines may have run")
        for m, f, ps in entries(an, c):
            for p in ps:
                if p.kind == "raise":
                    rep.check("count", f"{an.where(f)} [{c.name}]", not list(p.sets(A)), "a rejected operation is counted")
        for f, ps, kind in stage_units(an, c):
            for p in ps:
                if p.kind == "raise":
                    continue
                full = outer_backedge(p) if kind == "worker" else p.kind in ("return", "fall")
                comp = []
                for g, x in taken(p, kind):
                    comp += completions(p, x, ev)
                w = f"{an.where(f)} [{c.name}]"
                d = delta(p)
                if not comp and d == 0:
                    continue
                n += 1
                if full:
                    rep.check("count", w, d == -len(comp), "completing an operation does not discount it exactly once")
                elif not comp:
                    rep.bad("count", w, "the operation count changes without an operation completing")
                sets = [s for s in p.sets(A) if s.recv.op == "self"]
                st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
                if sets and full:
                    v = sets[-1].value
                    z = tm.eq(v, ZERO)
                    if st:
                        rep.check("wait", w, entails(p.lits, z), "idle is signalled while operations are in flight")
                        rep.check("wait", w, st[0].step == sets[-1].step, "idle is signalled late")
                    else:
                        rep.check("wait", w, not possible(p.lits, [(z, True)]), "idle is not signalled when the last operation completes")
                    if comp:
                        rep.check("count", w, comp[-1].step == sets[-1].step, "an operation is discounted in another step than it completes")
                elif st:
                    rep.bad("wait", w, "idle is signalled although no operation completed")
        for p in an.hook_paths(c, True):
            f = an.method(c, an.reset_hook())
            w = f"{an.where(f)} [{c.name}]"
            n += 1
            s = [x for x in p.sets(A) if x.recv.op == "self"]
            rep.check("count", w, bool(s) and tm.numval(s[-1].value) == 0, "reset leaves flushed operations counted as in flight")
            st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
            rep.check("wait", w, bool(st), "reset does not wake callers of wait()")
        for p in an.hook_paths(c, False):
            f = an.method(c, an.reset_hook())
            s = [x for x in p.sets(A) if x.recv.op == "self" and tm.numval(x.value) != 0]
            rep.check("count", f"{an.where(f)} [{c.name}]", not s, "leaving reset changes the operation count")
        # idle / wait
        f = an.method(c, "idle")
        for p in finals(an.walk(c, "idle")):
            rd = reads_of(p, A)
            zero = tm.not_(tm.truthy(sorted(rd, key=lambda t: t.id)[0])) if rd else None
            rep.check("idle", f"{an.where(f)} [{c.name}]", zero is not None and equal_under(p.lits, tm.truthy(p.value), zero), "idle() does not tell whether operations are in flight")
            n += 1
        _wait_rule(an, rep, c)
        for p in finals(an.walk(c, "__init__")):
            st = [e for e in p.calls("set") if is_self_attr(e.recv, I) or e.recv is not None and any(s.value is e.recv for s in p.sets(I))]
            rep.check("wait", f"{c.name}.__init__", bool(st), "wait() blocks although nothing was ever submitted")
    for c in composites(an):
        if c.find("idle") is None:
            continue
        f = an.method(c, "idle")
        for p in finals(an.walk(c, f, noinline=("idle",))):
            n += 1
            calls = {attr_name(e.recv): e for e in p.calls("idle") if e.recv is not None}
            forms = []
            ok = True
            v = tm.truthy(p.value)
            for a in ("write_if", "read_if"):
                e = calls.get(a)
                idle_a = None
                rds = [x for x in reads_of(p, a)]
                absent = any(entails(p.lits, tm.truthy(x), False) for x in rds)
                if absent:
                    continue
                if e is None:
                    # result must be known false already
                    if possible(p.lits, [(v, True)]):
                        ok = False
                    continue
                if possible(p.lits, [(v, True), (tm.truthy(e.result), False)] + [(tm.truthy(x), True) for x in rds]):
                    ok = False
                forms.append((tm.truthy(e.result), True))
            if ok and len(calls) == 2 and possible(p.lits, forms+[(v, False)]):
                ok = False
            rep.check("idle", f"{an.where(f)} [{c.name}]", ok, "idle() does not report whether both directions are idle")
        _wait_rule(an, rep, c)
        for m, a in (("wait_write", "write_if"), ("wait_read", "read_if")):
            g = c.find(m)
            if g is None:
                continue
            for p in finals(an.walk(c, g, noinline=("wait",))):
                k = [e for e in p.calls("wait") if attr_name(e.recv) == a]
                rep.check("wait", f"{an.where(g)} [{c.name}]", bool(k) and k[-1].awaited, f"{m}() does not wait for its direction")
    if n < 20:
        raise AnalysisError("idle / wait paths not found")


def _wait_rule(an, rep, c):
    f = an.method(c, "wait")
    w = f"{an.where(f)} [{c.name}]"
    ps = an.walk(c, f, noinline=("idle", "wait"))
    for p in finals(ps):
        ids = [e for e in p.calls("idle") if e.recv.op == "self"]
        aw = [e for e in p.events if e.kind == "await"]
        if ids:
            rep.check("wait", w, p.holds(tm.truthy(ids[-1].result), True) and (not aw or ids[-1].idx > aw[-1].idx or ids[-1].step == p.step),
                      "wait() may return although operations are in flight")
        else:
            # the test may be written out in place
            A = None
            try:
                A = counter_attr(an, c)
            except AnalysisError:
                pass
            ok = None
            if A:
                rd = [x for x in reads_of(p, A)]
                ok = any(entails(p.lits, tm.truthy(x), False) or entails(p.lits, tm.eq(x, ZERO)) for x in rd) if rd else False
            rep.check("wait", w, ok, "wait() returns without checking that operations are still in flight")


# ------------------------------------------------------------------ C09

MUTABLE_OK = ("bytes", "list", "tuple", "bytearray")


@prop("C09")
def capture(an, rep):
    rep.rule("capture", "write data (and per-beat user values) handed to a master is copied before the call returns or yields, so later changes by the caller have no effect")
    n = 0
    for c in masters(an):
        for m, f, p, puts in accepted(an, c):
            for e in puts:
                for k, v in fields(e.args[-1]).items():
                    w = f"{e.where} {e.args[-1].args[0]}.{k} [{c.name}]"
                    if k == "data":
                        n += 1
                        rep.check("capture", w, _copied(v), "write data is queued without copying it: the caller can change it after the call")
                    elif k == "wuser":
                        n += 1
                        # an int, or a copy
                        par = [x for x in tm.subterms(v) if x.op == "param"]
                        if v.op == "param":
                            isint = not possible(p.lits, [(T("isinstance", v, T("cls", "int")), False)])
                            rep.check("capture", w, isint, "per-beat user values are queued without copying them")
                        else:
                            rep.ok("capture", w)
                for x in p.events:
                    if x.kind == "await" and x.idx < e.idx and not (x.recv is e.result):
                        rep.bad("capture", f"{x.where} [{c.name}]", "the call yields before it has captured its arguments")
                    if x.kind == "loop" and x.idx < e.idx:
                        for q in an.walk(c, f):
                            if q.kind == "backedge" and q.end[1] == x.name:
                                for y in q.events:
                                    if y.kind == "await" and y.loops and y.loops[-1] == x.name:
                                        rep.bad("capture", f"{y.where} [{c.name}]", "the call yields before it has captured its arguments")
    # streams of frames
    from .streams import queue_puts, qattr
    for kind, c in stream_components(an):
        if kind != "source":
            continue
        q = qattr(an, c)
        axis = "tdata" in [s for s in (getattr(c, "stream", None) or {}).get("payload", [])] or c.is_sub("AxiStreamBase")
        if not axis:
            continue
        for m in ("send", "send_nowait", "write", "write_nowait"):
            f = an.method(c, m)
            for p in finals(an.walk(c, f)):
                for e in queue_puts(p):
                    if e.recv.args[1] == q:
                        n += 1
                        x = e.args[0]
                        rep.check("capture", f"{an.where(f)} [{c.name}]", x.op == "new" and x.args[0] == "AxiStreamFrame", "the caller's frame object itself is queued instead of a copy")
    if n < 8:
        raise AnalysisError("captured values not found")


def _copied(v):
    if v.op == "call" and v.args[0] in ("bytes", "bytearray", "list", "tuple"):
        return True
    if v.op == "ite":
        return _copied(v.args[1]) and _copied(v.args[2])
    if v.op in ("new", "list"):
        return True
    if v.op in ("param", "attr", "mattr"):
        return False
    if v.op == "call" and v.args[0] in ("memoryview", "iter") or v.op == "new" and v.args[0] in ("memoryview", "iter"):
        return False
    return None


# ------------------------------------------------------------------ C10

def channels(an, c):
    """{attribute: stream class} of the channels a component owns"""
    out = {}
    for a, vs in an.walker().init_alts(c).items():
        for v in vs:
            if v is not None and v.op == "new" and v.args[0] in an.pkg.classes:
                k = an.pkg.classes[v.args[0]]
                if getattr(k, "stream", None) or any(getattr(b, "stream", None) for b in k.mro()):
                    out[a] = k
    return out


def stream_of(k):
    for b in k.mro():
        s = getattr(b, "stream", None)
        if s:
            return s
    return None


def sends(an, c, p):
    """[(send event, channel class, {signal: value}, {signal: set event})] transactions put on a channel on the path"""
    ch = channels(an, c)
    out = []
    for e in p.calls(("send", "send_nowait")):
        a = attr_name(e.recv)
        if a not in ch or e.recv.args[0].op != "self":
            continue
        t = e.args[0] if e.args else None
        vals, evs = {}, {}
        if t is not None and t.op == "new":
            for s in p.sets():
                if s.recv is t and s.idx < e.idx:
                    vals[s.name] = s.value
                    evs[s.name] = s
            for k, v in _ctor_kwargs(p, t):
                vals.setdefault(k, v)
        out.append((e, ch[a], vals, evs))
    return out


def _ctor_kwargs(p, t):
    for x in p.events:
        if x.kind == "new" and x.result is t:
            return [(k, v) for k, v in x.kwargs if k is not None]
    return []


# signal suffix -> argument of the public operation
SIG_ARG = {"id": ("awid", "arid"), "addr": ("address",), "size": ("size",), "burst": ("burst",), "lock": ("lock",), "cache": ("cache",), "prot": ("prot",),
           "qos": ("qos",), "region": ("region",), "user": ("user",)}
DERIVED = ("id", "addr", "len", "size")


def strip_conv(t, an):
    """look through conversions that keep the value (enum constructors, int())"""
    while t.op == "call" and (t.args[0] in ("int", "bytes") or t.args[0] in an.pkg.classes and an.pkg.classes[t.args[0]].kind == "enum"):
        t = t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1]
    return t


@prop("C10")
def plumbing(an, rep):
    rep.rule("request", "every attribute given with an operation reaches its own bus signal with its value unchanged, in the blocking and the non-blocking calls alike")
    rep.rule("complete", "every attribute signal of an address channel is given a value for each transfer put on it")
    rep.rule("user", "per-beat user data: a single value is sent with every beat, a list beat by beat (zero past its end)")
    n = 0
    for c in masters(an):
        ev = event_field(an, c)
        # command field -> parameter, per entry
        entry = {}
        for m, f, p, puts in accepted(an, c):
            if len(puts) != 1:
                continue
            nt = puts[0].args[-1]
            entry.setdefault(nt.args[0], []).append((m, f, p, fields(nt)))
        for f, ps in [(f, ps) for f, ps, k in stage_units(an, c) if k == "worker"]:
            for p in ps:
                if p.kind == "raise":
                    continue
                items = [x for g, x in taken(p, "worker")]
                for e, k, vals, evs in sends(an, c, p):
                    st = stream_of(k)
                    pre = _prefix(st)
                    if pre is None or pre not in ("aw", "ar"):
                        continue
                    want = [s for s in st["payload"]]
                    for s in want:
                        n += 1
                        w = f"{e.where} {f.qual} {s} [{c.name}]"
                        if s not in vals and _same_as(p, items, ZERO) is not None:
                            vals = dict(vals, **{s: ZERO})
                        if s not in vals:
                            rep.bad("complete", w, f"{s} is not given a value (it would be sent as 0)")
                            continue
                        rep.ok("complete", w)
                        suf = s[len(pre):]
                        if suf in ("len", "addr"):
                            continue
                        _trace(an, rep, c, p, w, s, suf, vals[s], items, entry)
                # APB drives the bus directly
                for s in p.sets("value"):
                    nm = attr_name(s.recv)
                    if nm in ("pprot",):
                        n += 1
                        _trace(an, rep, c, p, f"{s.where} {f.qual} {nm} [{c.name}]", nm, "prot", s.value, items, entry)
                _wuser(an, rep, c, f, p, items)
    if n < 40:
        raise AnalysisError("address channel transfers not found")


def _prefix(st):
    import os
    v = st["valid"] or ""
    return v[:-5] if v.endswith("valid") else None


def _same_as(p, items, v, many=False):
    """fields of the commands in hand that are known to equal v on this path"""
    out = []
    for t, _, _ in p.order:
        for y in tm.subterms(t):
            if y.op in ("attr", "mattr") and y.args[0] in items and y not in out and entails(p.lits, tm.eq(y, v)):
                out.append(y)
    return out if many else out[0] if out else None


def _trace(an, rep, c, p, w, sig, suf, v, items, entry):
    v = strip_conv(v, an)
    if v.op in ("const", "enum"):
        # a constant on a path that is only taken when the requested value is that constant
        cands = [y for y in _same_as(p, items, v, True) if any(fs.get(y.args[1]) is not None and any(
            tm.contains(fs[y.args[1]], T("param", f.qual, a)) for a in SIG_ARG.get(suf, ())) for es in entry.values() for _, f, _, fs in es)]
        v = cands[0] if cands else v
    if v.op in ("attr", "mattr") and v.args[0] in items:
        fld = v.args[1]
        for nt, es in entry.items():
            for m, f, q, fs in es:
                if fld not in fs:
                    continue
                pn = [a.arg for a in f.node.args.args]
                cands = [x for x in SIG_ARG.get(suf, ()) if x in pn]
                if not cands:
                    continue
                par = T("param", f.qual, cands[0])
                got = strip_conv(fs[fld], an)
                ww = f"{an.where(f)} {cands[0]} -> {sig} [{c.name}]"
                if got is par:
                    rep.ok("request", ww)
                elif suf in ("id", "size") and (entails(q.lits, tm.or_(tm.isnone(par), tm.lt(par, ZERO)))):
                    rep.ok("request", ww)     # left to the component
                elif any(x is not par and x.op == "param" for x in tm.subterms(got)) and not tm.contains(got, par):
                    rep.bad("request", ww, f"{sig} carries another argument than {cands[0]}")
                elif got.op in ("const", "enum"):
                    ok = entails(q.lits, tm.eq(par, got))
                    rep.check("request", ww, ok, f"{cands[0]} is replaced by a constant")
                elif tm.contains(got, par):
                    rep.check("request", ww, eqv.equal(got, par, given=[(t, val) for t, val, _ in q.order]), f"{cands[0]} is altered on its way to {sig}")
                else:
                    rep.bad("request", ww, f"{sig} does not carry {cands[0]}")
        return
    if suf == "id":
        # an ID chosen by the component is allowed when none was asked for
        ids = [x for x in items for t, val, _ in p.order for y in tm.subterms(t) if y.op == "isnone" and y.args[0].op in ("attr", "mattr") and y.args[0].args[0] is x and val]
        rep.check("request", w, bool(ids) or None, f"{sig} does not carry the requested ID")
        flds = {y for x in items for t, val, _ in p.order for y in tm.subterms(t) if y.op in ("attr", "mattr") and y.args[0] is x and y.args[1].endswith("id")}
        for y in flds:
            rep.check("request", w, not possible(p.lits, [(tm.isnone(y), False)]), f"{sig} does not carry the requested ID whenever one is requested")
        return
    if v.op in ("const", "enum", "mattr") or v.op == "attr" and v.args[0].op == "self":
        # constant: fine only if the literals force the attribute to it
        rep.bad("request", w, f"{sig} does not carry the value requested")
    elif any(tm.contains(v, x) for x in items):
        flds = {y for y in tm.subterms(v) if y.op in ("attr", "mattr") and y.args[0] in items}
        ok = None
        for y in flds:
            ok = eqv.equal(v, y, given=[(t, val) for t, val, _ in p.order])
        rep.check("request", w, ok, f"{sig} does not carry the value requested")
    else:
        rep.unk("request", w, f"origin of {sig} not recognised")


def _wuser(an, rep, c, f, p, items):
    for e, k, vals, evs in sends(an, c, p):
        st = stream_of(k)
        if _prefix(st) != "w" or "wuser" not in st["payload"]:
            continue
        w = f"{e.where} {f.qual} wuser [{c.name}]"
        v = vals.get("wuser")
        if v is None:
            rep.bad("user", w, "wuser is not given a value")
            continue
        srcs = [x for x in items]
        u = None
        for t, val, _ in p.order:
            for x in tm.subterms(t):
                if x.op in ("attr", "mattr") and x.args[0] in items and "user" in x.args[1]:
                    u = x
        for x in tm.subterms(v):
            if x.op in ("attr", "mattr") and x.args[0] in items and "user" in x.args[1]:
                u = u or x
        if u is None:
            rep.unk("user", w, "source of wuser not recognised")
            continue
        isint = T("isinstance", u, T("cls", "int"))
        beats = beat_indices(an.walk(c, f), e.loops[-1] if e.loops else None)
        reads = [x for t, val, _ in p.order for x in tm.subterms(t) if is_len_of(x, u)]
        if not possible(p.lits, [(isint, False)]):
            rep.check("user", w, v is u, "a single user value is not sent unchanged with every beat")
        elif v.op == "sub" and v.args[0] is u:
            rep.check("user", w, not beats or v.args[1] in beats, "the user value of another beat is sent")
        elif tm.numval(v) == 0:
            bad = False
            for b in beats:
                for ln in reads or [T("call", "len", (u,), (), 0)]:
                    if possible(p.lits, [(tm.lt(b, ln), True), (tm.truthy(u), True), (isint, False)]):
                        bad = True
            rep.check("user", w, not bad if beats else None, "a user value given for the beat is not sent")
        else:
            rep.unk("user", w, "value of wuser not recognised")


def is_len_of(x, u):
    return x.op == "call" and x.args[0] == "len" and (x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]) is u


def beat_indices(ps, loop):
    """symbols that count the iterations of a loop from zero"""
    out = None
    for p in ps:
        if p.kind == "backedge" and p.end[1] == loop:
            here = set()
            for k, v in p.end[2].items():
                init = p.linit.get(loop, {}).get(k)
                c, d = tm.lin_of(v)
                if init is ZERO and c == 1 and len(d) == 1:
                    (x, q), = d.items()
                    if q == 1 and x.op == "mu" and x.args[1] == k:
                        here.add(x)
            out = here if out is None else out & here
    return out or set()


# ------------------------------------------------------------------ forwarding

def bind(f, args, kwargs):
    """parameter -> argument of a method call (self excluded)"""
    names = [a.arg for a in f.node.args.args][1:]
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kwargs:
        out[k] = v
    return out


@prop("C10", "C01")
def forwarding(an, rep):
    rep.rule("forward", "the combined master passes every argument to the same-named argument of the right direction's master, with equal defaults, and returns its result")
    n = 0
    for c in composites(an):
        al = an.walker().init_alts(c)
        target = {}
        for a in ("write_if", "read_if"):
            for v in al.get(a, ()):
                if v is not None and v.op == "new" and v.args[0] in an.pkg.classes:
                    target[a] = an.pkg.classes[v.args[0]]
        for m in ENTRY:
            f = c.find(m)
            if f is None or f.cls is not c:
                continue
            a = "write_if" if "write" in m else "read_if"
            if a not in target:
                continue
            g = target[a].find(m)
            if g is None:
                rep.bad("forward", f"{an.where(f)} [{c.name}]", f"{m} is not offered by the {a}")
                continue
            for p in finals(an.walk(c, f, noinline=ENTRY)):
                n += 1
                w = f"{an.where(f)} [{c.name}]"
                calls = [e for e in p.calls(m) if e.recv is not None and is_self_attr(e.recv)]
                ok = len(calls) == 1 and calls[0].recv.args[1] == a
                rep.check("forward", w, ok, f"{m} is not passed to the {a} exactly once")
                if not ok:
                    continue
                e = calls[0]
                b = bind(g, e.args, e.kwargs)
                names = [x.arg for x in f.node.args.args][1:]
                for nm in names:
                    par = T("param", f.qual, nm)
                    rep.check("forward", f"{w} {nm}", b.get(nm) is par, f"argument {nm} does not reach the {a} as {nm}")
                rep.check("forward", w, p.value is e.result or p.value is not None and e.result is not None and p.value is e.result, "the result is not passed back")
                if f.is_async:
                    rep.check("forward", w, e.awaited, "the operation is not waited for")
            # defaults
            d1, d2 = _defaults(f), _defaults(g)
            for nm in d1:
                if nm in d2:
                    rep.check("forward", f"{an.where(f)} {nm} default [{c.name}]", ast.dump(d1[nm]) == ast.dump(d2[nm]) or _same_const(an, f, d1[nm], g, d2[nm]),
                              f"default of {nm} differs from the {a}'s")
    # same attribute defaults for the blocking and the non-blocking call
    for c in masters(an):
        for x in ("write", "read"):
            f, g = c.find(x), c.find("init_"+x)
            if f is None or g is None or not f.cls.is_sub("Reset") or not g.cls.is_sub("Reset"):
                continue
            d1, d2 = _defaults(f), _defaults(g)
            for nm in d1:
                if nm in d2:
                    n += 1
                    rep.check("forward", f"{an.where(f)} {nm} default [{c.name}]", ast.dump(d1[nm]) == ast.dump(d2[nm]) or _same_const(an, f, d1[nm], g, d2[nm]),
                              f"default of {nm} differs between {x} and init_{x}")
    if n < 8:
        raise AnalysisError("combined masters not found")


def _defaults(f):
    a = f.node.args
    pos = a.posonlyargs+a.args
    return {x.arg: d for x, d in zip(pos[len(pos)-len(a.defaults):], a.defaults)}


def _same_const(an, f, x, g, y):
    try:
        w = an.walker()
        return w.const_expr(f.module, x) is w.const_expr(g.module, y)
    except Exception:
        return None


# ------------------------------------------------------------------ C11

@prop("C11")
def validation(an, rep):
    rep.rule("reject", "no operation outside the address space, with an unusable ID, size, length, data or event, or with a sideband value that has no signal is accepted")
    rep.rule("valid", "no operation that meets all of these conditions is refused")
    rep.rule("clean", "a refused operation raises ValueError before it changes anything")
    n = 0
    for c in masters(an):
        for m, f, ps in entries(an, c):
            w = f"{an.where(f)} [{c.name}]"
            pn = [a.arg for a in f.node.args.args]
            P = lambda x: T("param", f.qual, x)
            conds = _conditions(an, c, f, ps, P, pn)
            for p in ps:
                acc = p.kind in ("return", "fall")
                n += 1
                if acc:
                    for what, bad in conds:
                        rep.check("reject", f"{w} {what}", not possible(p.lits, [(bad, True)]), f"accepted although {what}")
                elif p.kind == "raise":
                    eff = [e for e in p.events if e.kind in ("set", "setitem") and e.recv is not None and e.recv.op == "self" or
                           e.kind == "call" and e.name in ("put", "put_nowait", "clear", "set", "send", "append") and e.recv is not None and is_self_attr(e.recv)]
                    rep.check("clean", w, not eff, "a refused operation has already changed the master's state")
                    rep.check("clean", w, "ValueError" in str(p.value) or None, "refusal is not a ValueError")
                    if "ValueError" in str(p.value):
                        good = [(b, False) for _, b in conds]
                        rep.check("valid", w, not possible(p.lits, good), "a legal operation is refused")
    if n < 40:
        raise AnalysisError("operation validation paths not found")


def _conditions(an, c, f, ps, P, pn):
    """[(description, formula that makes the request invalid)]"""
    terms = [t for p in ps for t, v, _ in p.order]
    addr = P("address")
    size = None
    seen = set()
    for t in terms:
        for x in tm.subterms(t, seen):
            if x.op == "pow2" and x.args[0].op == "call" and x.args[0].args[0] == "len":
                y = x.args[0].args[1]
                y = y[0] if isinstance(y, tuple) else y
                if y.op in ("attr", "mattr") and str(y.args[1]).endswith("addr"):
                    size = x
    if size is None:
        raise AnalysisError(f"{f.qual}: the address space size is not derived from the address signal")
    out = [("the address is negative", tm.lt(addr, ZERO)), ("the address is outside the address space", tm.not_(tm.lt(addr, size)))]
    if "data" in pn:
        ln = T("call", "len", (P("data"),), (), 0)
        cand = [x for t in terms for x in tm.subterms(t) if x.op == "call" and x.args[0] == "len" and (x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]) is P("data")]
        ln = cand[0] if cand else ln
        out.append(("the data is an integer", T("isinstance", P("data"), T("cls", "int"))))
    else:
        ln = P("length")
        out.append(("the length is negative", tm.lt(ln, ZERO)))
    over = tm.lt(size, tm.add(addr, ln))
    if "burst" in pn:
        fixed = tm.not_(T("truthy", P("burst")))
        out.append(("the transfer runs past the end of the address space", tm.and_(over, tm.not_(fixed))))
    else:
        out.append(("the transfer runs past the end of the address space", over))
    for i in ("awid", "arid"):
        if i in pn:
            sig = [x for t in terms for x in tm.subterms(t) if x.op == "pow2" and x.args[0].op == "call" and x.args[0].args[0] == "len" and
                   (lambda y: y.op in ("attr", "mattr") and y.args[1] == i)(x.args[0].args[1][0] if isinstance(x.args[0].args[1], tuple) else x.args[0].args[1])]
            cnt = sig[0] if sig else T("pow2", T("call", "len", (T("attr", T("unknown"), i),), (), 0))
            out.append(("the ID does not fit its signal", tm.and_(tm.not_(tm.isnone(P(i))), tm.not_(tm.lt(P(i), ZERO)), tm.not_(tm.lt(P(i), cnt)))))
    if "size" in pn:
        mx = None
        for t in terms:
            for x in tm.subterms(t):
                if x.op == "meth" and x.args[1] == "bit_length":
                    mx = x
        if mx is None:
            alts = an.walker().init_alts(c).get("max_burst_size", ())
            mx = next((v for v in alts if v is not None), T("unknown", "max size"))
        out.append(("the beat size exceeds the bus width", tm.and_(tm.not_(tm.isnone(P("size"))), tm.not_(tm.lt(P("size"), ZERO)), tm.lt(mx, P("size")))))
    if "event" in pn:
        isev = [x for t in terms for x in tm.subterms(t) if x.op == "isinstance" and x.args[0] is P("event")]
        if isev:
            out.append(("the event is not an event", tm.and_(tm.not_(tm.isnone(P("event"))), tm.not_(isev[0]))))
        else:
            out.append(("the event is not an event", tm.and_(tm.not_(tm.isnone(P("event"))), T("unknown", "event type"))))
    # sidebands
    defaults = _defaults(f)
    w = an.walker()
    has = {}
    for t in terms:
        for x in tm.subterms(t):
            if x.op == "hasattr" and x.args[1].op == "const":
                has[x.args[1].args[0]] = x
    for s in pn:
        if s not in ("lock", "cache", "prot", "qos", "region", "user", "wuser"):
            continue
        d = w.const_expr(f.module, defaults[s])
        isapb = c.find("wait") is not None and not any(k.endswith("channel") for k in an.walker().init_alts(c))
        sigs = [k for k in _optional_sigs(an, c) if (k == s or (k[:2] in ("aw", "ar") and k[2:] == s) or (k[:1] == "p" and k[1:] == s))]
        for k in sigs:
            pres = has.get(k)
            if pres is None:
                pres = T("hasattr", T("attr", T("self", c.name), "bus"), const(k))
            dv = tm.numval(d)
            out.append((f"{s} is given although {k} is not connected", tm.and_(tm.not_(pres), tm.not_(tm.eq(P(s), d)))))
    return out


def _optional_sigs(an, c):
    out = []
    for a, k in channels(an, c).items():
        st = stream_of(k)
        if _prefix(st) in ("aw", "ar", "w"):
            out += list(st["optional"])
    if not out:
        b = an.pkg.classes.get("ApbBus")
        if b is not None:
            ca = b.class_attr("_optional_signals")
            if ca:
                out = [e.value for e in ca[1][1].elts if isinstance(e, ast.Constant)]
    return out


# ------------------------------------------------------------------ C13

@prop("C13")
def responses(an, rep):
    rep.rule("merge", "the reported response is OKAY only if every response received for the operation was OKAY, and is an error that was received otherwise")
    rep.rule("report", "the merged response is the one reported to the caller")
    n = 0
    for c in masters(an):
        ev = event_field(an, c)
        for f, ps, kind in stage_units(an, c):
            rv = {}
            for p in ps:
                for g, x in taken(p, kind):
                    for e in completions(p, x, ev):
                        a = e.arg(0, "data")
                        if a is not None and a.op == "nt":
                            for k, v in a.args[1]:
                                if k == "resp":
                                    n += 1
                                    # the loop variable behind it
                                    w = f"{e.where} {f.qual} [{c.name}]"
                                    if v.op == "mu":
                                        rv.setdefault(v.args[1], set()).add(v.args[0])
                                        rep.ok("report", w)
                                    elif v.op in ("enum", "const"):
                                        rep.check("report", w, _no_beats(p, ps), "a fixed response is reported whatever was received")
                                    else:
                                        rep.unk("report", w, "origin of the response not recognised")
            if not rv:
                continue
            for name, loops in rv.items():
                # inner loops that continue the same accumulation
                grown = True
                while grown:
                    grown = False
                    for p in ps:
                        for lp, ini in p.linit.items():
                            x = ini.get(name)
                            if lp not in loops and x is not None and x.op == "mu" and x.args[1] == name and x.args[0] in loops:
                                loops.add(lp)
                                grown = True
                for p in ps:
                    if p.kind != "backedge" or p.end[1] not in loops or name not in p.end[2]:
                        continue
                    nx = p.end[2][name]
                    init = p.linit.get(p.end[1], {}).get(name)
                    w = f"{an.where(f)} [{c.name}]"
                    mu = T("mu", p.end[1], name)
                    if init is not None and not (init.op == "mu" and init.args[0] in loops):
                        rep.check("merge", w, tm.truthy(init) is FALSE, "the response does not start out as OKAY")
                    n += 1
                    if nx.op == "mu" and nx.args[1] == name and nx.args[0] in loops and nx.args[0] != p.end[1]:
                        continue
                    samples = _resp_samples(an, c, p)
                    _received(an, rep, c, p, nx, mu, w)
                    N, sure = _err(nx, an)
                    if not sure:
                        rep.unk("merge", w, "how the response is merged is not recognised")
                        continue
                    for s in samples:
                        rep.check("merge", w, not possible(p.lits, [(s, True), (N, False)]), "an error response is reported as success")
                    rep.check("merge", w, not possible(p.lits, [(tm.truthy(mu), True), (N, False)]), "an earlier error response is forgotten")
                    rep.check("merge", w, not possible(p.lits, [(s, False) for s in samples]+[(tm.truthy(mu), False), (N, True)]),
                              "an error is reported although every response was OKAY")
            # every beat's response is looked at
            for p in ps:
                if p.kind == "backedge" and any(p.end[1] in lp for lp in rv.values()) and any(attr_name(s.recv) == "penable" and tm.truthy(s.value) is TRUE for s in p.sets("value")):
                    pres = T("hasattr", T("attr", T("self", c.name), "bus"), const("pslverr"))
                    pr = [y for t2, v2, _ in p.order for y in tm.subterms(t2) if y.op == "hasattr" and y.args[1].op == "const" and y.args[1].args[0] == "pslverr"]
                    n += 1
                    if pr and not possible(p.lits, [(pr[0], True)]):
                        continue
                    rep.check("merge", f"{an.where(f)} [{c.name}]", bool(_resp_samples(an, c, p)), "the error signal is not looked at when a transfer completes")
            for p in ps:
                rec = [e for e in p.calls(("recv", "get_resp", "get_resp_nowait", "recv_nowait")) if e.loops and p.kind == "backedge"]
                inner = [e for e in rec if e.loops and e.loops[-1] == p.end[1]] if p.kind == "backedge" else []
                if inner:
                    n += 1
                    rep.check("merge", f"{inner[0].where} {f.qual} [{c.name}]", bool(_resp_samples(an, c, p)), "a received response code is not looked at")
    if n < 8:
        raise AnalysisError("response merging not found")


RECV = ("recv", "get_resp", "get_resp_nowait", "recv_nowait")


def _no_beats(p, ps):
    """no response can have been received on the path: True / False / None"""
    loops = {q.end[1] for q in ps if q.kind == "backedge" and any(e.loops and e.loops[-1] == q.end[1] for e in q.calls(RECV))}
    passed = [e for e in p.events if e.kind == "loop" and _loop_id(p, e, loops)]
    if not passed:
        return None
    for lp in loops & set(p.linit):
        hi = p.linit[lp].get("#hi")
        if hi is None or not entails(p.lits, tm.lt(ZERO, hi), False):
            return False
    return True


def _loop_id(p, e, loops):
    return bool(loops & set(p.linit))


def _err(t, an):
    """(formula 'the response code is an error', recognised)"""
    t = strip_conv(t, an)
    if t.op in ("max", "bor", "vor"):
        xs = [_err(x, an) for x in t.args]
        return tm.or_(*[x for x, _ in xs]), all(s for _, s in xs)
    if t.op == "ite":
        a, b = _err(t.args[1], an), _err(t.args[2], an)
        return tm.ite(t.args[0], a[0], b[0]), a[1] and b[1]
    return tm.truthy(t), t.op in ("mu", "getattr", "attr", "mattr", "val", "enum", "const", "meth", "sub")


def _received(an, rep, c, p, nx, mu, w):
    """the code kept is one that was received (the one kept so far, or the one of this transfer)"""
    from .bursts import Ev, Fail
    raw = {}
    for s in _resp_samples(an, c, p):
        for x in tm.subterms(s):
            if x.op in ("getattr", "val") or x.op in ("attr", "mattr") and x.args[1] in ("bresp", "rresp"):
                raw[x] = x.op == "val"
                break
    if len(raw) != 1:
        return
    base, apb = next(iter(raw.items()))

    def conv(x):
        y = strip_conv(x, an)
        return tm.subst(y, conv) if y is not x else None
    nx = tm.subst(strip_conv(nx, an), conv)
    for r0 in range(4):
        for r1 in range(2 if apb else 4):
            E = Ev({mu: r0, base: r1})
            lv = [(E.get(tm.subst(t, conv)), v) for t, v, _ in p.order]
            if any(x is not Ellipsis and (x is Fail or bool(x) != bool(v)) for x, v in lv):
                continue
            v = E.get(nx)
            if v is Ellipsis:
                rep.unk("merge", w, "code kept not recognised")
                return
            ok = v == r0 or v == (2 if apb and r1 else r1)
            if not ok:
                rep.bad("merge", w, "a response code is reported that was not received")
                return
    rep.ok("merge", w)


def _resp_samples(an, c, p):
    """truth formulas 'this response was an error' for the response codes received in the iteration"""
    out = []
    seen = set()
    for t in [t for t, v, _ in p.order]+[v for v in p.end[2].values()] + [a for e in p.events if e.kind == "convert" for a in e.args] + \
            [e.value for e in p.events if e.kind == "toint" and e.value is not None]:
        for x in tm.subterms(t, seen):
            if x.op == "getattr" and len(x.args) >= 2 and x.args[1].op == "const" and str(x.args[1].args[0]).endswith("resp"):
                out.append(tm.truthy(x))
            elif x.op in ("attr", "mattr") and x.args[1] in ("bresp", "rresp") and x.args[0].op == "meth":
                out.append(tm.truthy(x))
            elif x.op == "val" and attr_name(x.args[0]) == "pslverr":
                pres = [y for t2, v2, _ in p.order for y in tm.subterms(t2) if y.op == "hasattr" and y.args[1].op == "const" and y.args[1].args[0] == "pslverr"]
                out.append(tm.and_(tm.truthy(x), pres[0]) if pres else tm.truthy(x))
    return list(dict.fromkeys(out))
