"""Byte-stream reading and waiting for received data (C37)."""

from . import prop, assume
from ..core import *
from .. import eqv
from ..terms import T, Term
from .bursts import Ev, Unknown, Fail

assume("C37", "queues deliver their items in order (cocotb.queue); recv/recv_nowait account for the frame they take (C08)")

FLD = "read_queue"
MUT = ("append", "extend", "insert", "clear", "pop", "remove", "reverse", "sort", "appendleft", "popleft", "extendleft")


def readers(an):
    return [c for c in an.pkg.classes.values() if c.find("read_nowait") is not None and c.find("read") is not None and c.find("recv") is not None]


def waiters(an):
    out = []
    for c in an.pkg.classes.values():
        f = c.find("wait")
        if f is not None and c.find("recv") is not None and any(a.arg == "timeout" for a in f.node.args.args):
            out.append(c)
    return out


def is_rq(t):
    return t is not None and (is_self_attr(t, FLD) or t.op == "mu" and str(t.args[1]) == "self."+FLD)


def qsizes(t):
    return [x for x in tm.subterms(t) if x.op == "call" and x.args[0] == "qsize" and is_self_attr(x.args[1][0], "queue")]


def ver(x):
    v = x.args[3] if len(x.args) > 3 else 0
    return v if isinstance(v, tuple) and all(isinstance(y, int) for y in v) else (0, 0)


def gets(p):
    return [e for e in p.events if e.kind == "call" and e.name in ("get", "get_nowait") and e.recv is not None and is_self_attr(e.recv, "queue")]


def _in(loop, e):
    return bool(e.loops) and e.loops[-1] == loop


def _data_of(t, g):
    """the term is the data of the frame taken by event g"""
    while t.op == "call" and t.args[0] in ("list", "bytes", "bytearray", "tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t.op in ("attr", "mattr") and t.args[1] == "tdata" and t.args[0] is g.result or \
        t.op == "slice" and t.args[1] in (NONE, ZERO) and t.args[2] is NONE and _data_of(t.args[0], g)


def _parts(t):
    return _parts(t.args[0])+_parts(t.args[1]) if t.op == "concat" and len(t.args) == 2 else \
        [x for x, k in t.args[1]] if t.op == "lin" and tm.numval(t) is None and all(k == 1 for _, k in t.args[1]) and t.args[0] == 0 else [t]


def appended(p):
    """(event, item) for what is added at the end of the data; item None: some other change"""
    out = []
    for e in p.events:
        if e.kind == "call" and is_rq(e.recv) and e.name in MUT:
            out.append((e, ("ext", e.args[0]) if e.name == "extend" and len(e.args) == 1 else ("one", e.args[0]) if e.name == "append" and e.args else None))
        elif e.kind == "set" and e.name == FLD:
            ps = _parts(e.value)
            if len(ps) == 2 and any(is_rq(x) for x in ps):
                if e.value.op == "concat" and not is_rq(ps[0]):
                    out.append((e, ("front", ps[0])))
                else:
                    out.append((e, ("ext", [x for x in ps if not is_rq(x)][0]) if not all(is_rq(x) for x in ps) else None))
            else:
                out.append((e, None))
        elif e.kind in ("delitem", "setitem") and is_rq(e.recv):
            out.append((e, None))
    return out


def follow(p, n, count, pcount):
    """(result, what is left) for n bytes held, or None when not determined"""
    rq = list(range(100, 100+n))
    seen = {}
    nmut = 0
    last = max([e.idx for e in p.events if e.kind == "loop"]+[-1])
    cur = rq
    lenat = {0: list(rq)}
    for e in p.events:
        if e.idx < last:
            if e.kind in ("set", "delitem", "setitem") and (e.name == FLD or is_rq(e.recv)) or e.kind == "call" and is_rq(e.recv) and e.name in MUT:
                return None
            continue
        E = REv({pcount: count})
        E.cur, E.seen, E.first, E.lenat = cur, seen, rq, lenat
        if e.kind == "slice" and is_rq(e.recv):
            v = E.get(e.result)
            if v is Ellipsis or v is Fail:
                return None
            if e.result in seen and seen[e.result] != v:
                seen[e.result] = Ellipsis
            else:
                seen[e.result] = v
        elif e.kind == "delitem" and is_rq(e.recv):
            k = e.name
            if not isinstance(k, Term) or k.op != "sl":
                return None
            r = E.span(k, len(cur))
            if r is None:
                return None
            del cur[r[0]:r[1]]
            nmut += 1
        elif e.kind == "setitem" and is_rq(e.recv):
            k = e.name
            v = E.get(e.value) if e.value is not None else Ellipsis
            if e.value is not None and e.value.op == "new":
                v = []
            r = E.span(k, len(cur)) if isinstance(k, Term) and k.op == "sl" else None
            if r is None or not isinstance(v, list):
                return None
            cur[r[0]:r[1]] = v
            nmut += 1
        elif e.kind == "set" and e.name == FLD:
            v = [] if e.value.op == "new" and e.value.args[0] == "list" or e.value.op == "list" and not e.value.args else E.get(e.value)
            if not isinstance(v, list):
                return None
            cur = list(v)
        elif e.kind == "call" and is_rq(e.recv) and e.name in MUT:
            if e.name == "clear" and not e.args:
                del cur[:]
                nmut += 1
            else:
                return None
        elif e.kind == "call" and e.name in ("list", "bytes", "bytearray") and e.args and is_rq(e.args[0]):
            seen[e.result] = list(cur)
        lenat[nmut] = list(cur)
    E = REv({pcount: count})
    E.cur, E.seen, E.first, E.lenat = cur, seen, rq, lenat
    v = p.value
    if is_rq(v):
        # the object handed out is the one the read started with
        return (list(rq), list(cur), cur is rq)
    if v.op == "new" and v.args[0] == "list" and not any(e.recv is v for e in p.events if e.kind != "new"):
        return ([], list(cur), False)
    r = E.get(v)
    if r is Fail:
        return (Fail, list(cur), False)
    if not isinstance(r, list):
        return None
    return (r, list(cur), False)


class REv(Ev):
    cur = first = ()
    seen = {}
    lenat = {}

    def _ev(self, t):
        if is_rq(t):
            return list(self.first)
        if t in self.seen:
            v = self.seen[t]
            if v is Ellipsis:
                raise Unknown()
            return v
        if t.op == "call" and t.args[0] in ("len", "list", "bytes", "bytearray") and len(t.args[1]) == 1 and is_rq(t.args[1][0]):
            n = ver(t)[0] % 1000
            if n not in self.lenat:
                raise Unknown()
            return len(self.lenat[n]) if t.args[0] == "len" else list(self.lenat[n])
        if t.op == "meth" or t.op == "call" and t.args[0] not in ("len", "min", "max", "range", "list", "bytes", "bytearray", "int", "bool", "qsize", "reversed", "sorted", "sum"):
            raise Unknown()
        return super()._ev(t)

    def ev(self, t):
        if t in self.seen or is_rq(t):
            return self._ev(t)
        return super().ev(t)

    def span(self, k, n):
        """bounds of a slice"""
        a = [None if not isinstance(x, Term) or x is NONE else self.get(x) for x in k.args]
        if any(x is Ellipsis or x is Fail for x in a) or len(a) > 2 and a[2] not in (None, 1):
            return None
        lo, hi, _ = slice(a[0], a[1]).indices(n)
        return lo, max(lo, hi)


def _holds(E, p):
    """whether the conditions of the path can hold: False, True, or None"""
    res = True
    for t, v, _ in p.order:
        x = E.get(t)
        if x is Ellipsis:
            res = None
        elif x is Fail or bool(x) != bool(v):
            return False
    return res


@prop("C37")
def reads(an, rep):
    rep.rule("arrive", "the data of every frame received by a read is added, compacted, exactly once at the end of the data held")
    rep.rule("drain", "a read takes in every frame that has arrived")
    rep.rule("take", "a read returns the oldest bytes, at most the number asked for (all of them for a negative count), and keeps exactly the rest")
    rep.rule("block", "the blocking read waits only while nothing is held, and returns only once something is")
    rep.rule("wait", "wait returns at once when something has been received, and otherwise waits for an arrival or for the given time, in the given unit")
    rep.rule("alias", "write and write_nowait queue the data as send and send_nowait do")
    n = 0
    for c in readers(an):
        for nm in ("read_nowait", "read"):
            f = an.method(c, nm)
            w0 = f"{an.where(f)} {f.qual} [{c.name}]"
            ps = an.walk(c, f)
            n += 1
            for p in ps:
                check_arrive(rep, p, w0)
            check_take(an, rep, f, ps, nm, w0)
    for c in waiters(an):
        n += 1
        check_wait(an, rep, c)
    for c in an.pkg.classes.values():
        for a, b in (("write", "send"), ("write_nowait", "send_nowait")):
            fa, fb = c.find(a), c.find(b)
            if fa is None or fb is None:
                continue
            n += 1
            check_alias(an, rep, c, fa, fb)
    if n < 8:
        raise AnalysisError("byte stream interface not found")


def check_arrive(rep, p, w0):
    loop = p.end[1] if p.kind == "backedge" else None
    gs = [e for e in gets(p) if (e.loops[-1] if e.loops else None) == loop or loop is None and not e.loops]
    ap = appended(p)
    if p.kind == "raise":
        return
    inner = loop is not None and any(e.kind == "loop" and e.loops and e.loops[-1] == loop for e in p.events)
    mine = [(e, it) for e, it in ap if (e.loops[-1] if e.loops else None) == loop]
    for e, it in mine:
        if loop is None and it is None:
            continue
        w = f"{e.where} {w0.split(' ', 1)[1]}"
        if it is None:
            rep.bad("arrive", w, "data that has arrived but was not read is changed")
        elif it[0] == "front":
            rep.bad("arrive", w, "newly received data goes before data that arrived earlier")
        elif it[0] == "one":
            if gs and (it[1] in [g.result for g in gs] or any(_data_of(it[1], g) for g in gs)):
                rep.bad("arrive", w, "a frame is stored as one item instead of its bytes")
            else:
                rep.unk("arrive", w, "item by item")
        elif not any(_data_of(it[1], g) or it[1] is g.result for g in gs):
            ops = {x for x in tm.subterms(it[1])}
            if any(g.result in ops for g in gs):
                rep.bad("arrive", w, "not exactly the data of the frame is added")
            else:
                rep.unk("arrive", w, "origin of the data added not recognised")
    for g in gs:
        w = f"{g.where} {w0.split(' ', 1)[1]}"
        hits = [e for e, it in mine if it is not None and it[0] == "ext" and (_data_of(it[1], g) or it[1] is g.result)]
        if not hits and (inner or any(it is not None and it[0] == "one" for _, it in ap) or
                         any(it is not None and not any(_data_of(it[1], h) for h in gs) for _, it in mine)):
            rep.unk("arrive", w, "how the data is added is not recognised")
            continue
        rep.check("arrive", w, len(hits) == 1, "the data of a received frame is added more than once" if hits else "the data of a received frame is lost")
        for h in hits:
            cp = [e for e in p.events if e.kind == "call" and e.name == "compact" and e.recv is g.result and g.idx < e.idx < h.idx]
            rep.check("arrive", w, bool(cp), "bytes that are not kept are added to the data read")
    if len(gs) > 1:
        order = [[h.idx for h, it in mine if it is not None and _data_of(it[1], g)] for g in gs]
        flat = [o[0] for o in order if len(o) == 1]
        rep.check("arrive", w0, flat == sorted(flat), "frames are added out of order")


def drained(p, pc):
    """(no frame can be left when the path ends, not known)"""
    vmax = max([ver(x)[0]//1000 for t, _, _ in p.order for x in qsizes(t)] or [0])
    after = sum(1 for g in gets(p) if not g.loops)
    last = []
    for t, v, _ in p.order:
        qs = qsizes(t)
        if qs and any(ver(x)[0]//1000 == vmax for x in qs) and not (after and max(ver(x)[0] % 1000 for x in qs) < after):
            last.append((t, v, qs))
    unk = False
    for k in (1, 2, 3):
        for n in range(4):
            for count in range(-1, 5):
                E = REv({pc: count})
                E.cur = E.first = list(range(100, 100+n))
                E.lenat = {0: E.first}
                for _, _, qs in last:
                    for x in qs:
                        E.fixed[x] = k
                res = [(E.get(t), v) for t, v, _ in last]
                if any(x is not Ellipsis and bool(x) != bool(v) for x, v in res):
                    continue
                if any(not qsizes(t) and E.get(t) not in (Ellipsis, Fail) and bool(E.get(t)) != bool(v) for t, v, _ in p.order):
                    continue
                if any(x is Ellipsis for x, v in res):
                    unk = True
                    continue
                return False, False
    return not unk, unk


def check_take(an, rep, f, ps, nm, w0):
    pc = T("param", "count")
    pcs = {x for p in ps for t in [p.value]+[t for t, _, _ in p.order]+[e.name for e in p.events if isinstance(e.name, Term)] if isinstance(t, Term)
           for x in tm.subterms(t) if x.op == "param" and "count" in x.args}
    pc = sorted(pcs, key=lambda x: x.id)[0] if pcs else pc
    fin = [p for p in ps if p.kind in ("return", "fall")]
    und = 0
    for p in fin:
        w = w0
        # drained
        done, unk = drained(p, pc)
        if done:
            rep.ok("drain", w)
        elif unk:
            rep.unk("drain", w, "end of the loop over received frames not recognised")
        else:
            rep.bad("drain", w, "frames that have arrived are left behind")
    for n in range(0, 6):
        for count in range(-3, 8):
            got = 0
            for p in fin:
                E = REv({pc: count})
                E.cur = E.first = list(range(100, 100+n))
                E.lenat = {0: list(E.first)}
                h = _holds(E, p)
                if h is False:
                    continue
                if nm == "read" and n == 0:
                    if any(is_rq(x) for t, _, _ in p.order for x in tm.subterms(t)) or not any(e.kind == "await" for e in p.events):
                        rep.bad("block", w0, "the blocking read may return although nothing has been received")
                    else:
                        rep.unk("block", w0, "end of the wait not recognised")
                    continue
                r = follow(p, n, count, pc)
                if r is None:
                    und += 1
                    continue
                got += 1
                data = list(range(100, 100+n))
                k = n if count < 0 else min(count, n)
                if r[2]:
                    rep.bad("take", w0, "the bytes returned are the list in which later data is collected")
                    continue
                if r[0] != data[:k] if not r[0] is Fail else True:
                    rep.bad("take", w0, f"with {n} bytes held and count {count} the read does not return the oldest {k}")
                elif r[1] != data[k:]:
                    rep.bad("take", w0, f"with {n} bytes held and count {count} the read does not keep exactly the rest")
                else:
                    rep.ok("take", w0)
            if nm == "read" and n:
                for p in ps:
                    E = REv({pc: count})
                    E.cur = E.first = list(range(100, 100+n))
                    E.lenat = {0: list(E.first)}
                    aw = [e for e in p.events if e.kind == "await"]
                    if not aw:
                        continue
                    # conditions tested before the wait
                    k = min(e.nlits for e in aw)
                    bad = True
                    for t, v, _ in p.order[:k]:
                        x = E.get(t)
                        if x is Ellipsis or x is Fail or bool(x) != bool(v):
                            bad = False
                    if bad:
                        rep.bad("block", f"{aw[0].where} {f.qual}", "the read waits for more although data is held")
                    else:
                        rep.ok("block", f"{aw[0].where} {f.qual}")
    if und:
        rep.unk("take", w0, "what is returned and kept is not recognised")


def _timers(p):
    out = []
    for e in p.events:
        ts = [a for a in (getattr(e, "args", None) or ())]+[e.value, e.recv, e.result]
        for t in ts:
            if isinstance(t, Term):
                out += [x for x in tm.subterms(t) if x.op in ("call", "new", "meth") and "Timer" in x.args]
    return list(dict.fromkeys(out))


def _plain(t):
    """a condition on simple fields of the object other than its data"""
    return all(x.op in ("not", "and", "truthy", "isnone", "const", "attr", "mattr", "self", "eq", "lt0", "lin", "param") or x.op == "call" and x in qsizes(t)
               for x in tm.subterms(t)) and not any(is_rq(x) or is_self_attr(x, "queue") and not qsizes(t) for x in tm.subterms(t))


def check_wait(an, rep, c):
    f = an.method(c, "wait")
    w0 = f"{an.where(f)} {f.qual} [{c.name}]"
    ps = an.walk(c, f)
    pt = pu = None
    for p in ps:
        for t in [t for t, _, _ in p.order]+[x for t in _timers(p) for x in [t]]:
            for x in tm.subterms(t):
                if x.op == "param" and "timeout" in x.args:
                    pt = x
                if x.op == "param" and "timeout_unit" in x.args:
                    pu = x
    if pt is None:
        rep.bad("wait", w0, "the timeout is not used")
        return
    for q in (0, 1, 2):
        for to in (0, 5, 1000):
            for p in ps:
                E = REv({pt: to})
                first = True
                for t, v, _ in p.order:
                    for x in qsizes(t):
                        if ver(x) == (0, 0):
                            E.fixed[x] = q
                aw = [e for e in p.events if e.kind == "await"]
                k = min([e.nlits for e in aw] or [len(p.order)])
                pre = True
                for t, v, _ in p.order[:k]:
                    x = E.get(t)
                    if x is Ellipsis:
                        pre = None if pre else pre
                    elif x is Fail or bool(x) != bool(v):
                        pre = False
                        break
                if pre is False:
                    continue
                if pre is None:
                    un = [t for t, v, _ in p.order[:k] if E.get(t) is Ellipsis]
                    if not q and not aw and p.kind in ("return", "fall") and all(_plain(t) for t in un):
                        rep.bad("wait", w0, "wait returns although nothing has been received")
                    else:
                        rep.unk("wait", w0, "condition not recognised")
                    continue
                if q:
                    rep.check("wait", w0, not aw, "wait blocks although something has been received")
                    continue
                if p.kind not in ("return", "fall", "backedge"):
                    continue
                if not aw:
                    rep.bad("wait", w0, "wait returns although nothing has been received")
                    continue
                a = aw[0]
                tms = [x for e in p.events if e.idx <= a.idx for t in list(getattr(e, "args", None) or ())+[e.value, e.recv, e.result] if isinstance(t, Term)
                       for x in tm.subterms(t) if x.op in ("call", "new", "meth") and "Timer" in x.args]
                act = [x for e in p.events if e.idx <= a.idx for t in list(getattr(e, "args", None) or ())+[e.value, e.recv, e.result] if isinstance(t, Term)
                       for x in tm.subterms(t) if is_self_attr(x, "active_event")]
                w = f"{a.where} {f.qual} [{c.name}]"
                rep.check("wait", w, bool(act), "wait does not wait for data to be received")
                if not to:
                    rep.check("wait", w, not tms, "wait gives up although no timeout was given")
                    continue
                if not tms:
                    rep.bad("wait", w, "the timeout is ignored")
                    continue
                comb = [x for t in [a.value, a.recv, a.result] if isinstance(t, Term) for x in tm.subterms(t) if x.op in ("call", "new") and ("First" in x.args or "Combine" in x.args)]
                for x in comb:
                    rep.check("wait", w, "Combine" not in x.args, "wait needs both the data and the timeout")
                for x in tms:
                    args, kws = _callargs(x)
                    t0 = args[0] if args else kws.get("time")
                    u = args[1] if len(args) > 1 else kws.get("units", kws.get("unit"))
                    y = REv({pt: to}).get(t0) if t0 is not None else Ellipsis
                    if y is Ellipsis:
                        rep.unk("wait", w, "time not recognised")
                    else:
                        rep.check("wait", w, y == to, "wait does not wait for the time given")
                    rep.check("wait", w, u is not None and (u is pu or u.op == "param" and "timeout_unit" in u.args), "the unit of the timeout is ignored")


def _callargs(x):
    args = next((a for a in x.args if isinstance(a, tuple) and all(isinstance(y, Term) for y in a)), ())
    rest = x.args[x.args.index(args)+1:] if args in x.args else x.args
    kws = {}
    for a in rest:
        if isinstance(a, tuple):
            for y in a:
                if isinstance(y, tuple) and len(y) == 2:
                    kws[y[0]] = y[1]
    return args, kws


def _shape(an, c, f):
    """what the method puts in the queue, and what it waits for before"""
    out = set()
    for p in an.walk(c, f):
        pk = []
        for e in p.events:
            if e.kind == "call" and e.recv is not None and is_self_attr(e.recv, "queue"):
                pk.append((e.name, bool(e.awaited)))
            elif e.kind == "await":
                pk.append(("await",))
            elif e.kind == "raise":
                pk.append(("raise", str(e.value)))
        out.add((p.kind, tuple(pk)))
    return out


def check_alias(an, rep, c, fa, fb):
    w = f"{an.where(fa)} {fa.qual} [{c.name}]"
    a, b = _shape(an, c, fa), _shape(an, c, fb)
    if a != b:
        rep.bad("alias", w, f"{fa.name} does not queue its data the way {fb.name} does")
    else:
        rep.ok("alias", w)
