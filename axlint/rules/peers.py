"""Protocol violations by the other side, master side (C15)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .masters import masters, stage_units, sends, stream_of, channels, _prefix
from .loops import Closed, J, norm, iterations, has_mu
from .slaves import Point, plain, sy, trapped, RECV
from .ids import same

GETR = ("get_resp", "get_resp_nowait")


class IdMaster:
    """a master whose responses carry an ID: request coroutine, dispatching coroutine, per-ID coroutine"""

    def __init__(self, an, c):
        self.an, self.c = an, c
        self.req, self.disp, self.per = [], [], []
        for f, ps, kind in stage_units(an, c):
            if kind == "per-id":
                self.per.append((f, ps))
            elif any(_prefix(stream_of(k)) in ("aw", "ar") for p in ps for _, k, _, _ in sends(an, c, p)):
                self.req.append((f, ps))
            elif any(e.name in ("put_resp",) for p in ps for e in p.calls(("put_resp",))):
                self.disp.append((f, ps))
        self.tracked = bool(self.per)
        self.counts = set()
        for f, ps in self.req:
            for p in ps:
                for e in p.events:
                    if e.kind == "setitem" and is_self_attr(e.recv) and self.diff(e) is not None and self.diff(e) is not ZERO:
                        self.counts.add(e.recv.args[1])

    def cell(self, e):
        return T("sub", e.recv, e.name if isinstance(e.name, tm.Term) else const(e.name))

    def delta(self, e):
        """amount by which a setitem event changes the cell"""
        d = self.diff(e)
        return tm.numval(d) if d is not None else None

    def diff(self, e):
        if e.value is None:
            return None
        k = self.key(e)
        for x in tm.subterms(e.value):
            if x.op == "sub" and same(x.args[0], e.recv) and same(x.args[1], k):
                try:
                    return tm.sub_(e.value, x)
                except Exception:
                    return None
        return None

    def key(self, e):
        return e.name if isinstance(e.name, tm.Term) else const(e.name)

    def iscount(self, e):
        return e.kind == "setitem" and is_self_attr(e.recv) and e.recv.args[1] in self.counts

    def cells(self, t, key=None):
        """terms reading the counter (of the given ID)"""
        out = []
        for x in tm.subterms(t):
            if x.op == "sub" and is_self_attr(x.args[0]) and x.args[0].args[1] in self.counts and (key is None or same(x.args[1], key)):
                out.append(x)
            elif x.op == "meth" and x.args[1] == "get" and is_self_attr(x.args[0]) and x.args[0].args[1] in self.counts and x.args[2] and \
                    (key is None or same(x.args[2][0], key)):
                out.append(x)
        return out


def id_masters(an):
    if ("idm",) not in an.cache:
        an.cache[("idm",)] = [m for m in (IdMaster(an, c) for c in masters(an)) if m.tracked]
    return an.cache[("idm",)]


@prop("C15")
def master_checks(an, rep):
    rep.rule("unexpected", "a response is handed on only after the number of outstanding bursts of its ID was found to be positive; with a positive number it never fails")
    rep.rule("count", "the number of outstanding bursts of an ID is raised once per address sent, before it is sent, and lowered once per burst after its last beat")
    rep.rule("rlast", "a read beat whose last flag does not match its position in the burst raises an error; a matching one never does")
    ms = id_masters(an)
    if not ms:
        raise AnalysisError("no master with per-ID responses")
    for m in ms:
        w = f"{an.where(m.per[0][0])} [{m.c.name}]"
        if not m.disp or not m.req:
            rep.unk("unexpected", w, "structure of the master not recognised")
            continue
        _guard(an, rep, m)
        if m.counts:
            _count(an, rep, m)
        for f, ps in m.per:
            _rlast(an, rep, m, f, ps)


def _test(m, t, v, key, n):
    """truth of the literal with n bursts outstanding for the ID (None: not about the counter)"""
    cs = m.cells(t, key)
    if not cs:
        return None
    r = _with(m, t, n, key)
    return None if r is Ellipsis else bool(r) == v


def _with(m, t, n, key=None):
    """value of a term over the counter when it stands at n"""
    cs = set(m.cells(t, key))
    return Point({"count": n}).ev(tm.subst(t, lambda x: sy("count") if x in cs else None))


def _guard(an, rep, m):
    for f, ps in m.disp:
        for p in ps:
            tr = trapped(p)
            for e in p.calls(("put_resp",)):
                w = f"{e.where} {f.qual} [{m.c.name}]"
                if not e.args:
                    rep.unk("unexpected", w, "call not recognised")
                    continue
                key = e.args[0]
                lits = [(t, v) for t, v, nd in p.order[:e.nlits] if id(nd) not in tr]
                about = [(t, v) for t, v in lits if m.cells(t) or m.counts and any(x.op in ("attr", "mattr") and x.args[1] in m.counts for x in tm.subterms(t))]
                if not m.counts:
                    # another way of keeping track is possible: the dispatcher would have to look at it
                    rep.check("unexpected", w, None if [t for t, v in lits if not any(x.op == "hasattr" for x in tm.subterms(t))] else False,
                              "a response is handed on without a check that its ID has a transfer outstanding")
                    continue
                vals = [_test(m, t, v, key, 0) for t, v in about]
                neg = False in vals
                if neg:
                    rep.ok("unexpected", w)
                elif None in vals and any(m.cells(t, key) for t, v in about):
                    rep.unk("unexpected", w, "check of the outstanding transfers not recognised")
                else:
                    rep.bad("unexpected", w, "a response is handed on although its ID has no transfer outstanding")
        # legal responses pass
        handed = [p for p in ps if list(p.calls(("put_resp",)))]
        for p in ps:
            _legal(an, rep, m, f, p)
    for f, ps in m.per:
        for p in ps:
            _legal(an, rep, m, f, p)


def _legal(an, rep, m, f, p):
    """assertions and raises over the counter hold while a burst is outstanding"""
    for e in p.events:
        if e.kind != "assert" or not m.cells(e.value):
            continue
        w = f"{e.where} {f.qual} [{m.c.name}]"
        ok = True
        for n in (1, 2, 17):
            r = _with(m, e.value, n)
            if r is Ellipsis:
                ok = None
                break
            if not r:
                rep.bad("unexpected", w, f"a response is rejected although {n} burst(s) of its ID are outstanding")
                ok = False
                break
        if ok is None and any(m.cells(e.value)):
            rep.unk("unexpected", w, "assertion on the outstanding transfers not recognised")
    if p.kind == "raise":
        lits = [(t, v) for t, v, _ in p.order if m.cells(t)]
        if lits:
            for n in (1, 2, 17):
                rs = []
                for t, v in lits:
                    r = _with(m, t, n)
                    rs.append(None if r is Ellipsis else bool(r) == v)
                if all(rs) and None not in rs and not [1 for t, v, _ in p.order if any(x.op == "attr" and str(x.args[1]).endswith("last") for x in tm.subterms(t))]:
                    rep.bad("unexpected", f"{f.qual} [{m.c.name}]", f"a response is rejected although {n} burst(s) of its ID are outstanding")
                    break


def _count(an, rep, m):
    for f, ps in m.req:
        for p in ps:
            if p.kind == "raise":
                continue
            snd = [(e, k, vals) for e, k, vals, _ in sends(an, m.c, p) if _prefix(stream_of(k)) in ("aw", "ar")]
            inc = [e for e in p.events if m.iscount(e)]
            w = f"{an.where(f)} [{m.c.name}]"
            for e in inc:
                d = m.delta(e)
                df = m.diff(e)
                r = None if df is None else eqv.equal(df, ONE)
                rep.check("count", f"{e.where} {f.qual} [{m.c.name}]", r, f"the counter changes by {df} when a burst is sent")
            used = set()
            for e, k, vals in snd:
                v = vals.get(_prefix(stream_of(k))+"id")
                we = f"{e.where} {f.qual} [{m.c.name}]"
                if v is None:
                    continue
                c = [x for x in inc if x.loops == e.loops and x.idx < e.idx and x.idx not in used and same(m.key(x), v)]
                if c:
                    used.add(c[-1].idx)
                    rep.ok("count", we)
                    continue
                late = [x for x in inc if x.loops == e.loops and x.idx > e.idx and same(m.key(x), v)]
                # another coroutine or a method called here may do the counting
                other = [x for x in inc if x.idx not in used]
                rep.check("count", we, False if late or not other else None if any(same(m.key(x), v) for x in other) else False,
                          "the burst is counted only after it was sent: its response may be rejected" if late else "a burst is sent without being counted as outstanding for its ID")
            for x in inc:
                if x.idx not in used and x.loops and p.kind == "backedge" and p.end[1] == x.loops[-1] and not any(e.loops == x.loops for e, _, _ in snd):
                    rep.bad("count", f"{x.where} {f.qual} [{m.c.name}]", "a burst is counted as outstanding that is not sent")
    for f, ps in m.disp:
        for p in ps:
            for e in p.events:
                if m.iscount(e):
                    rep.unk("count", f"{e.where} {f.qual} [{m.c.name}]", "the counter changes where responses are dispatched")
    for f, ps in m.per:
        rec = lambda p: [e for e in p.calls(GETR)]
        deep = {e.loops for p in ps for e in rec(p)}
        if not deep:
            continue
        loops = {l[0] for l in deep if l}
        w = f"{an.where(f)} [{m.c.name}]"
        if len(loops) != 1:
            rep.unk("count", w, "loop over the bursts not found")
            continue
        burst = loops.pop()
        n = 0
        for p in ps:
            if p.kind != "backedge":
                if p.kind in ("return", "fall"):
                    for e in p.events:
                        if m.iscount(e) and not e.loops:
                            rep.unk("count", f"{e.where} {f.qual} [{m.c.name}]", "the counter changes outside the loop over the bursts")
                continue
            ch = [e for e in p.events if m.iscount(e)]
            inner = [e for e in ch if p.end[1] in e.loops and p.end[1] != burst and e.loops[-1] == p.end[1]]
            for e in inner:
                # right only on the pass of the last beat
                his = {q.linit[p.end[1]].get("#hi") for q in ps if p.end[1] in q.linit}
                B = BeatPaths(ps, p.end[1], his-{None}, {"rlast"}, lambda q: q is p)
                pt = B.point(3, 0, {"rlast": 0})
                early = None in his or B.paths[0].p is not p or pt.lits(B.paths[0].lits)[0]
                rep.check("count", f"{e.where} {f.qual} [{m.c.name}]", None if None in his else not early,
                          "the counter is lowered before the last beat of the burst: later beats are rejected")
            if p.end[1] != burst:
                continue
            n += 1
            mine = [e for e in ch if e.loops == (burst,)]
            tot = [m.delta(e) for e in mine]
            if not mine:
                r = None if any(m.iscount(e) for q in ps for e in q.events if len(e.loops) > 1) else False
                rep.check("count", w, r, "a completed burst stays counted as outstanding")
                continue
            rep.check("count", w, None if None in tot else sum(tot) == -1, f"the counter changes by {sum(t for t in tot if t is not None)} when a burst completes")
            for e in mine:
                we = f"{e.where} {f.qual} [{m.c.name}]"
                k = norm(m.key(e))
                tagged = k.op == "attr" and k.args[0].op == "param"
                rep.check("count", we, True if tagged else None if not k.op == "const" else False, "the counter of another ID is lowered")
                last = max([x.idx for x in p.events if x.kind == "call" and x.name in GETR and burst in x.loops]+[x.idx for x in p.events if x.kind == "loop" and
                           any(burst in l and len(l) > 1 for l in deep) and x.loops == (burst,)], default=None)
                if last is None:
                    rep.unk("count", we, "beats of the burst not found")
                else:
                    rep.check("count", we, e.idx > last, "the counter is lowered before the last beat of the burst: legal beats are rejected")
        if not n:
            rep.unk("count", w, "loop over the bursts not found")


def _rlast(an, rep, m, f, ps):
    """beat loop of the per-ID coroutine"""
    rsig = set()
    for a, k in channels(an, m.c).items():
        st = stream_of(k)
        if k.is_sub("StreamSink"):
            rsig |= set(st["signals"]) | set(st["optional"])
    last = [s for s in rsig if s.endswith("last")]
    if not last:
        return
    last = last[0]
    w = f"{an.where(f)} [{m.c.name}]"
    loops = {e.loops[-1] for p in ps for e in p.calls(GETR) if e.loops}
    if len(loops) != 1:
        rep.unk("rlast", w, "loop over the beats not found")
        return
    loop = loops.pop()
    hi = {p.linit[loop].get("#hi") for p in ps if loop in p.linit}
    if None in hi:
        rep.unk("rlast", w, "number of beats of a burst not recognised")
        return
    B = BeatPaths(ps, loop, hi, rsig, lambda p: any(loop in e.loops for e in p.calls(GETR)))
    n, und = 0, set()
    for ln, k, lv in beat_points():
        good = bool(lv) == (k == ln-1)
        pt = B.point(ln, k, {last: lv})
        n += 1
        if not good:
            r = B.always(pt, lambda q: q.p.kind == "backedge" and not any(pt.ev(a) is False for a, _, _ in q.asr), last)
            if r is True:
                rep.bad("rlast", w, f"beat {k+1} of {ln} with {last}={lv} is accepted")
                return
            if r is None:
                und.add(f"beat {k+1} of {ln} with {last}={lv}")
            continue
        for q in B.paths:
            for a, pre, e in q.asr:
                ok, u = pt.lits(pre)
                if ok and pt.ev(a) is False and not B.about(u, last):
                    rep.bad("rlast", f"{e.where} {f.qual} [{m.c.name}]", f"beat {k+1} of {ln} with {last}={lv} is rejected")
                    return
            if q.p.kind == "raise" and any(tm.contains(t, sy(last)) for t, _ in q.lits):
                ok, u = pt.lits(q.lits)
                if ok and not B.about(u, last):
                    rep.bad("rlast", w, f"beat {k+1} of {ln} with {last}={lv} is rejected")
                    return
    rep.check("rlast", w, None if und or not n else True, f"condition on the last flag not evaluated: {sorted(und)[:2]}")


def beat_points():
    for ln in (1, 2, 3, 16, 256):
        for k in sorted({0, 1, 2, ln-2, ln-1} & set(range(ln))):
            for lv in (0, 1):
                yield ln, k, lv


class BP:
    def __init__(self, p, lits, asr):
        self.p, self.lits, self.asr = p, lits, asr


class BeatPaths:
    """the paths through one pass of the loop over the beats, over the beat number, the burst length and the received signals"""

    def __init__(self, ps, loop, his, sigs, want):
        self.loop = loop
        self.paths = []
        BL = sy("BL")
        for p in ps:
            if loop not in p.linit or not want(p):
                continue
            cl = Closed(ps, p, loop)
            self.cl = cl
            tr = trapped(p)
            lists = {h.args[0] for h in his if h.op == "sub"}
            # lengths of other bursts of the operation differ from this one's
            f = lambda t: plain(tm.subst(cl.sub(t), lambda x: BL if x in his else sy("BL2") if x.op == "sub" and x.args[0] in lists else None), sigs)
            lits = [(f(t), v) for t, v, nd in p.order if id(nd) not in tr]
            asr = [(f(e.value), [(f(t), v) for t, v, _ in p.order[:e.nlits]], e) for e in p.events if e.kind == "assert" and loop in e.loops and id(e.node) not in tr]
            self.paths.append(BP(p, lits, asr))
        self.f = f if self.paths else None

    def point(self, ln, k, extra=()):
        return Point(dict(extra, BL=ln, BL2=ln+5), {J(self.loop): k})

    def about(self, u, sig):
        """undetermined literals that the position in the burst or the signal may decide"""
        return [t for t, v in u if any(x is sy(sig) or x is J(self.loop) or x is sy("BL") or x.op == "mu" and x.args[0] == self.loop for x in tm.subterms(t))]

    def always(self, pt, accept, sig):
        """True: at this point some accepting path is taken whatever the remaining loop variables are; False: none is; None: cannot tell"""
        sets = []
        for q in self.paths:
            if not accept(q):
                continue
            ok, u = pt.lits(q.lits)
            if not ok:
                continue
            mine = self.about(u, sig)
            sets.append({t: v for t, v in u if t in mine})
        if not sets:
            return False
        names = sorted({t for s in sets for t in s}, key=str)
        if len(names) > 5 or any(x is sy(sig) for t in names for x in tm.subterms(t)):
            return None
        import itertools
        for vals in itertools.product((True, False), repeat=len(names)):
            a = dict(zip(names, vals))
            if not any(all(a[t] == v for t, v in s.items()) for s in sets):
                return None
        return True
