"""Stream components continued: queue accounting and limits (C08), idle()/wait() (C02), reset flush / restart (C03)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .streams import (Roles, stream_components, worker_paths, queue_gets, queue_puts, qattr, is_clock_wait, event_of, outer_backedge, iteration_events,
                      reads_of, groups)

LIMITS = (("queue_occupancy_bytes", "queue_occupancy_limit_bytes"), ("queue_occupancy_frames", "queue_occupancy_limit_frames"))


def all_methods(c):
    """every method that is resolved for class c, including property accessors"""
    out = {}
    for k in reversed(c.mro()):
        for n, f in k.methods.items():
            out[n] = f
    return out


def _assigned(c):
    """public attributes assigned anywhere in the class"""
    names = set()
    for f in all_methods(c).values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                names.add(x.attr)
    return names


def self_read(t, name):
    return t.op in ("attr", "mattr") and t.args[0].op == "self" and t.args[1] == name


def delta_of(p, name):
    """net change of self.<name> over the path: ('add', term) / ('set', term) / None when it is not written"""
    out = None
    for s in p.sets(name):
        if s.recv.op != "self":
            continue
        v = s.value
        reads = [x for x in tm.subterms(v) if self_read(x, name)]
        d = None
        for r in reads:
            x = tm.sub_(v, r)
            if not any(self_read(y, name) for y in tm.subterms(x)):
                d = x
        if d is None:
            # a value built on an earlier write of the same path
            if out is not None and out[0] == "add":
                pass
            out = ("set", v, [s])
        else:
            if out is None or out[0] == "set":
                out = ("add", d, [s]) if out is None else ("mixed", v, out[2]+[s])
            else:
                out = ("add", tm.add(out[1], d), out[2]+[s])
    return out


def is_len_of(t, item):
    return t.op == "call" and t.args[0] == "len" and (t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1]) is item


def segs(p):
    """a path's events; for a loop iteration only those of the loop body"""
    return iteration_events(p) if p.kind == "backedge" else p.events


@prop("C08")
def occupancy(an, rep):
    rep.rule("count", "every item added to / taken from a queue changes the occupancy counters by exactly that item's size and by one frame; clear zeroes them")
    rep.rule("compact", "the size used is that of the item as queued (taken before the item is changed)")
    n = 0
    for kind, c in stream_components(an):
        if "queue_occupancy_bytes" not in _assigned(c) and "queue_occupancy_frames" not in _assigned(c):
            continue
        q = qattr(an, c)
        units = [(f, an.walk(c, f, noinline=("full", "compact", "normalize"))) for n_, f in sorted(all_methods(c).items())
                 if n_ in ("send", "send_nowait", "recv", "recv_nowait", "clear")]
        units += worker_paths(an, c, noinline=("full", "compact", "normalize", "handle_tx_complete"))
        for f, ps in units:
            for p in ps:
                if p.kind == "raise":
                    continue
                w = f"{an.where(f)} [{c.name}]"
                puts = [e for e in queue_puts(p) if e.recv.args[1] == q]
                gets = [e for e in queue_gets(p) if e.recv.args[1] == q]
                if p.kind == "backedge" and f.name in ("send",) and not puts:
                    continue
                db, df = delta_of(p, "queue_occupancy_bytes"), delta_of(p, "queue_occupancy_frames")
                if f.name == "clear":
                    if p.kind in ("return", "fall"):
                        n += 1
                        for nm, d in (("byte", db), ("frame", df)):
                            rep.check("count", w, d is not None and d[0] == "set" and tm.numval(d[1]) == 0, f"clear leaves the {nm} count at a stale value")
                    continue
                if not puts and not gets and db is None and df is None:
                    continue
                n += 1
                if p.kind == "backedge" and not outer_backedge(p) and f.name not in ("send",):
                    pass
                # frames
                want = len(puts)-len(gets)
                d = df[1] if df and df[0] == "add" else ZERO if df is None else None
                rep.check("count", w, d is not None and tm.numval(d) == want if (d is None or tm.numval(d) is not None) else None,
                          "the frame count does not follow the queue", "frames")
                # bytes
                if db is None:
                    rep.check("count", w, want == 0, "the byte count does not follow the queue")
                    continue
                if db[0] != "add":
                    rep.bad("count", w, "the byte count is overwritten rather than adjusted")
                    continue
                items = [(1, e.args[0]) for e in puts]+[(-1, e.result) for e in gets]
                k, terms = tm.lin_of(db[1])
                left = dict(terms)
                ok = k == 0
                lens = []
                for s, it in items:
                    m = [t for t in left if _length_of(t, it)]
                    if len(m) >= 1 and left[m[0]] == s:
                        lens.append((m[0], it))
                        del left[m[0]]
                    else:
                        ok = False
                rep.check("count", w, ok and not left, "the byte count does not change by the size of the item", "bytes")
                # size taken before the item changes
                for t, it in lens:
                    for e in p.events:
                        if e.kind == "call" and e.name in ("compact",) and e.recv is it and any(x.idx > e.idx for x in db[2]) and not _ver0(p, t, e):
                            rep.bad("compact", w, "the item is compacted before its size is taken off the count")
                    rep.ok("compact", w)
        # nothing else changes the counters
        done = {f for f, _ in units} | {c.find("__init__")}
        for nm, f in sorted(all_methods(c).items()):
            if f in done or nm.startswith("__") or nm.startswith("_") and nm != an.reset_hook():
                continue
            paths = an.walk(c, f, noinline=("full", "compact", "normalize", "handle_tx_complete")) if nm != an.reset_hook() else an.hook_paths(c, True)+an.hook_paths(c, False)
            for p in paths:
                if p.kind not in ("return", "fall"):
                    continue
                if any(e.recv is not None and e.recv.op in ("attr", "mattr") and e.recv.args[1] == q for e in list(queue_puts(p))+list(queue_gets(p))) or any(e.kind == "loop" for e in p.events):
                    continue
                for x in ("queue_occupancy_bytes", "queue_occupancy_frames"):
                    d = delta_of(p, x)
                    if d is None or d[0] == "add" and tm.numval(d[1]) == 0:
                        continue
                    s0 = d[2][-1]
                    if d[0] == "set" and tm.numval(d[1]) == 0 and any("empty" in str(t) or "qsize" in str(t) for t, _, _ in p.order):
                        continue
                    n += 1
                    rep.bad("count", f"{s0.where} {f.qual} [{c.name}]", f"{x} changes although nothing is put into or taken from the queue")
    if n < 10:
        raise AnalysisError("queue accounting sites not found")


def _ver0(p, t, e):
    """length term t was read before event e changed the item"""
    v = t.args[3] if t.op == "call" and len(t.args) > 3 else 0
    n = sum(1 for x in p.events if x.kind == "call" and x.recv is e.recv and x.idx <= e.idx)
    return not (isinstance(v, tuple) and v[0] == "m" and v[1] >= n)


def _length_of(t, it):
    if t.op == "call" and t.args[0] == "len":
        x = t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1]
        if x is it:
            return True
        # length of the item's data
        return x.op in ("attr", "mattr") and x.args[0] is it and x.args[1] == "tdata"
    return False


@prop("C08")
def limits(an, rep):
    rep.rule("full", "full() is false with no positive limit or while every occupancy is below its limit, and true once an occupancy exceeds its limit")
    n = 0
    for kind, c in stream_components(an):
        if c.find("full") is None:
            continue
        f = an.method(c, "full")
        axis = "queue_occupancy_limit_bytes" in _assigned(c)
        for p in finals(an.walk(c, f, noinline=())):
            w = f"{an.where(f)} [{c.name}]"
            n += 1
            val = tm.truthy(p.value) if p.value is not None else FALSE
            S = T("self", c.name)

            def rd(nm):
                for t in _terms(p):
                    for x in tm.subterms(t):
                        if self_read(x, nm):
                            return x
                return T("attr", S, nm)
            if axis:
                pairs = [(rd(l), rd(o)) for o, l in LIMITS]
            else:
                cnt = None
                for t in _terms(p):
                    for x in tm.subterms(t):
                        if x.op == "call" and x.args[0] in ("qsize", "len"):
                            cnt = x
                pairs = [(rd("queue_occupancy_limit"), cnt if cnt is not None else T("unknown", "count"))]
            lt0, = (tm.lt,)
            def form(l, o, k):
                pos = tm.not_(tm.lt(l, ONE))
                if k == "over":
                    return tm.and_(pos, tm.lt(l, o) if axis else tm.not_(tm.lt(o, l)))
                return tm.or_(tm.not_(pos), tm.lt(o, l))
            below = tm.and_(*[form(l, o, "below") for l, o in pairs])
            rep.check("full", w, not possible(p.lits, [(val, True), (below, True)]), "full() reports true although no limit is set or every occupancy is below its limit")
            for (l, o), nm in zip(pairs, ("byte", "frame") if axis else ("item",)):
                rep.check("full", w, not possible(p.lits, [(val, False), (form(l, o, "over"), True)]), f"full() reports false although the {nm} limit is exceeded")
    if n < 4:
        raise AnalysisError("full() not found")


def _terms(p):
    for t, v, _ in p.order:
        yield t
    if p.value is not None:
        yield p.value


def has_limit_default(an, c):
    return [nm for nm in _assigned(c) if nm.startswith("queue_occupancy_limit")]


@prop("C08")
def limit_defaults(an, rep):
    rep.rule("nolimit", "no limit is in force until the user sets one, and components never change a limit themselves")
    n = 0
    for kind, c in stream_components(an):
        names = has_limit_default(an, c)
        for nm in names:
            n += 1
            for p in finals(an.walk(c, "__init__")):
                ss = [s for s in p.sets(nm) if s.recv.op == "self"]
                if ss:
                    v = tm.numval(ss[-1].value)
                    rep.check("nolimit", f"{ss[-1].where} [{c.name}]", None if v is None else v <= 0, "a queue limit is in force by default")
        for mn, f in all_methods(c).items():
            if mn == "__init__":
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in names:
                    # a property setter / forwarding to another object is not this component's own limit
                    if isinstance(x.value, ast.Name) and x.value.id == "self":
                        rep.bad("nolimit", an.where(f, x)+f" [{c.name}]", "a limit is changed behind the user's back")
    if n < 4:
        raise AnalysisError("queue limits not found")


@prop("C08", "C07")
def send_limit(an, rep):
    rep.rule("admit", "an item is queued only when the queue was not full at that very moment; send waits for space, send_nowait raises QueueFull and changes nothing; "
                      "every accepted item is queued exactly once")
    n = 0
    for kind, c in stream_components(an):
        if kind != "source":
            continue
        q = qattr(an, c)
        for m in ("send", "send_nowait"):
            f = an.method(c, m)
            ps = an.walk(c, f, noinline=("full",))
            for p in ps:
                w = f"{an.where(f)} [{c.name}]"
                puts = [e for e in queue_puts(p) if e.recv.args[1] == q]
                fr = [e for e in p.calls("full") if e.recv.op == "self"]
                if p.kind == "raise":
                    isfull = str(p.value).find("QueueFull") >= 0
                    if isfull:
                        n += 1
                        rep.check("admit", w, bool(fr) and p.holds(tm.truthy(fr[-1].result), True), "QueueFull is raised although the queue is not full")
                        eff = [e for e in p.events if e.kind in ("set", "setitem") or e.kind == "call" and e.name in ("put", "put_nowait", "set", "clear")]
                        rep.check("admit", w, not eff, "a refused item has side effects")
                    continue
                if p.kind in ("return", "fall"):
                    n += 1
                    rep.check("admit", w, len(puts) == 1, "an accepted item is not queued exactly once")
                    if puts:
                        ok = bool(fr) and p.holds(tm.truthy(fr[-1].result), False) and fr[-1].step == puts[0].step and fr[-1].idx < puts[0].idx
                        rep.check("admit", w, ok, "an item is queued without the queue having been found not full right before")
                elif puts:
                    rep.bad("admit", w, "an item may be queued several times")
                if m == "send_nowait":
                    aw = [e for e in p.events if e.kind == "await"]
                    rep.check("admit", w, not aw, "send_nowait waits")
    if n < 4:
        raise AnalysisError("send / send_nowait not found")


# ------------------------------------------------------------------ C02 (streams)

def _wait_event(an, c):
    for p in an.walk(c, "wait"):
        for e in p.events:
            if e.kind == "await":
                x = event_of(e.recv)
                if x is not None and attr_name(x):
                    return attr_name(x)
    raise AnalysisError(f"{c.name}.wait() awaits no event")


def _qempty_reads(p, q):
    """emptiness reads of the queue on the path: truthy(qsize) atoms"""
    out = []
    vals = [t for t, v, _ in p.order]+([p.value] if p.kind == "return" and p.value is not None else [])
    seen = set()
    for t in vals:
        for x in tm.subterms(t):
            if x.op == "call" and x.args[0] == "qsize" and x not in seen:
                y = x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]
                if is_self_attr(y, q):
                    seen.add(x)
                    out.append(x)
    return out


def busy_attrs(an, c, q):
    """attributes besides the queue that idle() consults"""
    out = set()
    for p in an.walk(c, "idle"):
        vals = [t for t, v, _ in p.order]+([p.value] if p.kind == "return" and p.value is not None else [])
        for t in vals:
            for x in tm.subterms(t):
                if x.op in ("attr", "mattr") and x.args[0].op == "self" and x.args[1] != q:
                    out.add(x.args[1])
    return sorted(out)


@prop("C02")
def stream_idle(an, rep):
    rep.rule("sidle", "a source's idle() is true exactly when nothing is queued and nothing is in progress")
    rep.rule("swait", "a source's wait() returns on an event that is set only when the queue is empty and nothing is in progress, cleared by every submission, "
                      "and set whenever the source goes to sleep, is cleared while inactive or is reset with nothing queued")
    rep.rule("sbusy", "the in-progress flag is raised when an item is taken from the queue and lowered only with no item in progress")
    n = 0
    for kind, c in stream_components(an):
        if kind != "source" or c.find("idle") is None:
            continue
        q = qattr(an, c)
        bs = busy_attrs(an, c, q)
        if len(bs) != 1:
            rep.unk("sidle", c.name, "idle() depends on several attributes")
            continue
        A = bs[0]
        I = _wait_event(an, c)
        f = an.method(c, "idle")
        for p in finals(an.walk(c, f)):
            n += 1
            w = f"{an.where(f)} [{c.name}]"
            qs, ra = _qempty_reads(p, q), sorted(reads_of(p, A), key=lambda t: t.id)
            v = tm.truthy(p.value)
            qe = tm.truthy(qs[0]) if qs else None
            ae = tm.truthy(ra[0]) if ra else None
            ok = True
            if possible(p.lits, [(v, True)]):
                # true needs both known empty / inactive
                ok = qe is not None and ae is not None and not possible(p.lits, [(v, True), (qe, True)]) and not possible(p.lits, [(v, True), (ae, True)])
            if ok and possible(p.lits, [(v, False)]):
                forms = [(v, False)]+([(qe, False)] if qe is not None else [])+([(ae, False)] if ae is not None else [])
                ok = not possible(p.lits, forms)
            rep.check("sidle", w, ok, "idle() is not exactly 'nothing queued and nothing in progress'")
        for m in ("send", "send_nowait"):
            f = an.method(c, m)
            for p in finals(an.walk(c, f)):
                puts = [e for e in queue_puts(p) if e.recv.args[1] == q]
                if not puts:
                    continue
                n += 1
                clr = [e for e in p.calls("clear") if is_self_attr(e.recv, I)]
                st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
                rep.check("swait", f"{an.where(f)} [{c.name}]", bool(clr) and not st, f"{m} leaves the source looking idle to wait()")
        # worker
        for f, ps in worker_paths(an, c, noinline=("normalize", "handle_tx_complete")):
            holders = set()
            for p in ps:
                if outer_backedge(p):
                    for k, v in p.end[2].items():
                        if v.op in ("meth", "mu", "const", "none") or v is NONE:
                            if any(x is v for x in [e.result for e in queue_gets(p)]):
                                holders.add(k)
            for p in ps:
                if p.kind == "raise":
                    continue
                ev = iteration_events(p)
                w = f"{an.where(f)} [{c.name}]"
                gets = [e for e in queue_gets(p) if e in ev and e.recv.args[1] == q]
                sets = [s for s in p.sets(A) if s.recv.op == "self" and s in ev]
                st = [e for e in p.calls("set") if is_self_attr(e.recv, I) and e in ev]
                qe = _qempty_reads(p, q)
                inprog = None
                if outer_backedge(p):
                    hs = [v for k, v in p.end[2].items() if k in holders]
                    inprog = tm.or_(*[tm.truthy(v) for v in hs]) if hs else FALSE
                    ro = Roles(an, c)
                    vs = [e for e in ev if e.kind == "set" and e.name == "value" and ro.role(e.recv) == "V"]
                    dr = [e for e in ev if e.kind == "call" and e.name == "drive" or e.kind == "set" and e.name == "value" and ro.role(e.recv) in ("tdata",)]
                    if dr:
                        inprog = TRUE
                    if gets and (inprog is TRUE or (hs and possible(p.lits, [(inprog, True)]))):
                        n += 1
                        rep.check("sbusy", w, bool(sets) and tm.truthy(sets[-1].value) is TRUE or bool(sets) and entails(p.lits, tm.truthy(sets[-1].value)),
                                  "an item is taken for transmission without the source becoming busy")
                    if sets and inprog is not None:
                        last = tm.truthy(sets[-1].value)
                        rep.check("sbusy", w, not possible(p.lits, [(last, False), (inprog, True)]), "the source claims to be inactive while an item is in progress")
                for e in st:
                    n += 1
                    ok = bool(qe) and any(p.holds(tm.truthy(x), False) for x in qe)
                    rep.check("swait", f"{e.where} {f.qual} [{c.name}]", ok, "wait() is released while items are queued")
                    lastA = [s for s in sets if s.idx < e.idx]
                    rep.check("swait", f"{e.where} {f.qual} [{c.name}]", bool(lastA) and entails(p.lits, tm.truthy(lastA[-1].value), False) or
                              bool(reads_of(p, A)) and any(entails(p.lits, tm.truthy(x), False) for x in reads_of(p, A)), "wait() is released while an item is in progress")
                sl = [e for e in ev if e.kind == "await" and not is_clock_wait(e) and event_of(e.recv) is not None]
                for s in sl:
                    n += 1
                    rep.check("swait", f"{s.where} {f.qual} [{c.name}]", any(e.idx < s.idx for e in st), "the source goes to sleep without releasing wait()")
                    la = [x for x in sets if x.idx < s.idx]
                    rep.check("sbusy", f"{s.where} {f.qual} [{c.name}]", bool(la) and entails(p.lits, tm.truthy(la[-1].value), False), "the source goes to sleep still marked busy")
        # clear
        f = an.method(c, "clear")
        for p in finals(an.walk(c, f)):
            n += 1
            st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
            ra = reads_of(p, A)
            idle = any(entails(p.lits, tm.truthy(x), False) for x in ra)
            busy = any(entails(p.lits, tm.truthy(x), True) for x in ra)
            if st:
                rep.check("swait", f"{an.where(f)} [{c.name}]", idle, "clear releases wait() although an item is in progress")
            else:
                rep.check("swait", f"{an.where(f)} [{c.name}]", busy, "clear of an inactive source does not release wait()")
        # reset
        hook = an.method(c, an.reset_hook())
        for p in an.hook_paths(c, True):
            n += 1
            st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
            sets = [s for s in p.sets(A) if s.recv.op == "self"]
            rep.check("sbusy", f"{an.where(hook)} [{c.name}]", bool(sets) and tm.truthy(sets[-1].value) is FALSE, "a source stays busy after reset stopped it")
            qe = _qempty_reads(p, q)
            empty = any(p.holds(tm.truthy(x), False) for x in qe)
            if st:
                rep.check("swait", f"{an.where(hook)} [{c.name}]", empty, "reset releases wait() while items are queued")
            else:
                rep.check("swait", f"{an.where(hook)} [{c.name}]", bool(qe) and not empty, "reset does not release wait() although nothing is queued")
        for p in finals(an.walk(c, "__init__")):
            st = [e for e in p.calls("set") if e.recv is not None and any(s.value is e.recv for s in p.sets(I)) or is_self_attr(e.recv, I)]
            rep.check("swait", f"{c.name}.__init__", bool(st), "wait() blocks on a source that was never used")
    if n < 10:
        raise AnalysisError("source idle paths not found")


@prop("C02")
def receiver_wait(an, rep):
    rep.rule("rwait", "a receiver's wait() returns at once when something is queued and otherwise on an event that every queued item sets and that is only cleared with the queue empty")
    n = 0
    for kind, c in stream_components(an):
        if kind == "source" or c.find("wait") is None:
            continue
        q = qattr(an, c)
        I = _wait_event(an, c)
        f = an.method(c, "wait")
        for p in finals(an.walk(c, f)):
            n += 1
            aw = [e for e in p.events if e.kind == "await"]
            qe = _qempty_reads(p, q)
            if not aw:
                rep.check("rwait", f"{an.where(f)} [{c.name}]", any(p.holds(tm.truthy(x), True) for x in qe), "wait() returns at once although nothing is queued")
            else:
                ok = any(is_self_attr(x, I) for e in aw for x in tm.subterms(e.recv))
                rep.check("rwait", f"{an.where(f)} [{c.name}]", ok and any(p.holds(tm.truthy(x), False) for x in qe) if qe else ok and None, "wait() blocks although something is queued")
        for g, ps in worker_paths(an, c):
            for p in ps:
                puts = [e for e in queue_puts(p) if e.recv.args[1] == q and e.loops]
                if puts and p.kind == "backedge":
                    n += 1
                    st = [e for e in p.calls("set") if is_self_attr(e.recv, I)]
                    rep.check("rwait", f"{puts[0].where} {g.qual} [{c.name}]", bool(st), "a received item does not release wait()")
                clr = [e for e in p.calls("clear") if is_self_attr(e.recv, I)]
                if clr:
                    rep.bad("rwait", f"{clr[0].where} {g.qual} [{c.name}]", "the receive coroutine cancels wait()'s event")
        for m in ("recv", "recv_nowait", "clear"):
            g = an.method(c, m)
            for p in finals(an.walk(c, g, noinline=("compact",))):
                clr = [e for e in p.calls("clear") if is_self_attr(e.recv, I)]
                qe = _qempty_reads(p, q)
                empty = any(p.holds(tm.truthy(x), False) for x in qe)
                n += 1
                if clr:
                    rep.check("rwait", f"{an.where(g)} [{c.name}]", empty, "wait()'s event is cleared while items are queued")
                else:
                    rep.check("rwait", f"{an.where(g)} [{c.name}]", bool(qe) and not empty, "wait() would return although the queue has just become empty")
    if n < 10:
        raise AnalysisError("receiver wait paths not found")


# ------------------------------------------------------------------ C03

def reset_classes(an):
    out = []
    hook = an.reset_hook()
    for c in groups(an, "Reset"):
        if c.name == "Reset" or c.find(hook) is None or c.find(hook).cls.name == "Reset":
            continue
        if c.name in ("StreamBase", "AxiStreamBase"):
            continue
        out.append(c)
    return sorted(out, key=lambda c: c.name)


@prop("C03")
def restart(an, rep):
    rep.rule("stop", "on reset every coroutine the component started is killed and forgotten; when reset is released each is started again exactly once unless it is running")
    rep.rule("channels", "on reset a component empties every channel it owns")
    n = 0
    hook = an.reset_hook()
    for c in reset_classes(an):
        f = an.method(c, hook)
        w = f"{an.where(f)} [{c.name}]"
        ws = an.workers(c)
        if not ws:
            rep.bad("stop", w, "nothing is started when reset is released")
            continue
        for g, attr in ws:
            n += 1
            if attr is None:
                rep.bad("stop", w, f"the task running {g.name} is not remembered, so reset cannot stop it")
                continue
            for p in an.hook_paths(c, True):
                rd = [x for x in reads_of(p, attr)]
                gone = any(entails(p.lits, tm.isnone(x)) or entails(p.lits, tm.truthy(x), False) for x in rd)
                kills = [e for e in p.calls(("kill", "cancel")) if e.recv is not None and is_self_attr(e.recv, attr)]
                rep.check("stop", w, bool(kills) or gone, f"reset does not stop {g.name}")
                if kills:
                    s = [x for x in p.sets(attr) if x.recv.op == "self"]
                    rep.check("stop", w, bool(s) and s[-1].value is NONE, f"reset keeps the handle of the stopped {g.name}, so it would not be restarted")
            for p in an.hook_paths(c, False):
                rd = [x for x in reads_of(p, attr)]
                running = any(not possible(p.lits, [(tm.isnone(x), True)]) or not possible(p.lits, [(tm.truthy(x), False)]) for x in rd)
                starts = [e for e in p.events if an.is_start(e) and an.coro_func(e.args[0]) is g]
                if running:
                    rep.check("stop", w, not starts or any(e.recv is not None and is_self_attr(e.recv, attr) for e in p.calls("kill")), f"{g.name} is started a second time")
                else:
                    rep.check("stop", w, len(starts) == 1 and any(s.value is starts[0].result for s in p.sets(attr)), f"{g.name} is not (re)started when reset is released")
                kills = [e for e in p.calls("kill") if e.recv is not None and is_self_attr(e.recv, attr)]
                if kills and not starts:
                    rep.bad("stop", w, f"releasing reset stops {g.name}")
        # channels
        chans = []
        for a, vs in an.walker().init_alts(c).items():
            for v in vs:
                if v is not None and v.op == "new" and v.args[0] in an.pkg.classes and an.pkg.classes[v.args[0]].find("clear") is not None and \
                        an.pkg.classes[v.args[0]].is_sub("Reset"):
                    chans.append(a)
        for a in sorted(set(chans)):
            n += 1
            for p in an.hook_paths(c, True):
                k = [e for e in p.calls("clear") if e.recv is not None and is_self_attr(e.recv, a)]
                rep.check("channels", f"{w} {a}", bool(k), "reset leaves stale items in a channel")
    if n < 12:
        raise AnalysisError("reset-aware components not found")


@prop("C03")
def outputs(an, rep):
    rep.rule("outputs", "on reset a component drives the handshake outputs it owns low (valid, ready, psel, penable, pready); releasing reset does not raise them")
    n = 0
    hook = an.reset_hook()
    for c in reset_classes(an):
        f = an.method(c, hook)
        sigs = None
        for kind, sc in stream_components(an):
            if sc is c:
                ro = Roles(an, c)
                if kind == "source":
                    sigs = [("V", "valid")]
                elif kind == "sink":
                    sigs = [("R", "ready")]
                else:
                    sigs = []
        if sigs is not None:
            for role, nm in sigs:
                for p in an.hook_paths(c, True):
                    n += 1
                    hv, hr = ro.presence(p)
                    pres = hv if role == "V" else hr
                    ds = [e for e in p.events if e.kind == "set" and e.name == "value" and ro.role(e.recv) == role]
                    low = bool(ds) and tm.truthy(ds[-1].value) is FALSE
                    rep.check("outputs", f"{an.where(f)} [{c.name}]", low or not possible(p.lits, [(pres, True)]), f"{nm} is not driven low by reset")
                for p in an.hook_paths(c, False):
                    ds = [e for e in p.events if e.kind == "set" and e.name == "value" and ro.role(e.recv) == role]
                    rep.check("outputs", f"{an.where(f)} [{c.name}]", all(tm.truthy(e.value) is FALSE for e in ds), f"{nm} is raised when reset is released")
            continue
        # APB: signals the worker drives
        own = set()
        for g, ps in worker_paths(an, c):
            for p in ps:
                for e in p.events:
                    if e.kind == "set" and e.name == "value" and e.recv.op in ("attr", "mattr") and e.recv.args[1] in ("psel", "penable", "pready"):
                        own.add(e.recv.args[1])
        for s in sorted(own):
            for p in an.hook_paths(c, True):
                n += 1
                ds = [e for e in p.events if e.kind == "set" and e.name == "value" and attr_name(e.recv) == s]
                rep.check("outputs", f"{an.where(f)} {s} [{c.name}]", bool(ds) and tm.truthy(ds[-1].value) is FALSE, f"{s} is not driven low by reset")
    if n < 6:
        raise AnalysisError("driven handshake outputs not found")
