"""Bus slaves: one response per request with its ID and error (C14), protocol violations detected (C15, slave side), burst addresses, strobes and
read lanes (C19)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .streams import outer_backedge
from .masters import channels, stream_of, _ctor_kwargs
from .loops import Closed, J, iterations, has_mu

RECV = ("recv", "recv_nowait", "get", "get_nowait")
SEND = ("send", "send_nowait")
ACCESS = ("read", "write")


class Slave:
    def __init__(self, an, c, f, ps, req, dat, rsp, ch):
        self.an, self.c, self.f, self.ps = an, c, f, ps
        self.req, self.dat, self.rsp, self.ch = req, dat, rsp, ch
        self.w = f"{an.where(f)} [{c.name}]"
        self.sigs = set()
        for a in (req, dat):
            if a:
                s = stream_of(ch[a])
                self.sigs |= set(s["signals"]) | set(s["optional"])
        self.pre = "aw" if "awaddr" in self.sigs else "ar"
        self.write = dat is not None
        r = stream_of(ch[rsp])
        self.rpre = "b" if self.write else "r"
        self.rsigs = set(r["signals"]) | set(r["optional"])
        self.burst = self.pre+"len" in self.sigs
        self.beat = None
        self.outer = next((next(iter(p.linit)) for p in ps if p.linit), None)
        ls = set()
        for p in ps:
            for e in p.events:
                if (self.isdat(e) if self.write else self.isrsp(e)):
                    ls.add(e.loops)
        self.beatloops = {x[1] for x in ls if len(x) >= 2}
        self.where = ls

    def on(self, e, attr, names):
        return e.kind == "call" and e.name in names and attr is not None and e.recv is not None and attr_name(e.recv) == attr and e.recv.args[0].op == "self"

    def isreq(self, e):
        return self.on(e, self.req, RECV)

    def isdat(self, e):
        return self.on(e, self.dat, RECV)

    def isrsp(self, e):
        return self.on(e, self.rsp, SEND)

    def isacc(self, e):
        return e.kind == "call" and e.name in ACCESS and attr_name(e.recv) == "target"

    def sym(self, t):
        return plain(t, self.sigs)

    def vals(self, p, e):
        """{signal: value} of the transaction sent by event e, and the set events"""
        t = e.args[0] if e.args else None
        out, evs = {}, {}
        if t is not None and t.op == "new":
            for s in p.events:
                if s.kind == "set" and s.recv is t and s.idx < e.idx:
                    out[s.name] = s.value
                    evs[s.name] = s
            for k, v in _ctor_kwargs(p, t):
                out.setdefault(k, v)
        return t, out, evs


def sy(n):
    return T("sym", n)


def plain(t, sigs):
    """received fields become symbols; conversions that keep the value are dropped; signal widths become the symbol W"""
    def f(x):
        if x.op in ("attr", "mattr") and x.args[1] in sigs and x.args[0].op != "self":
            return sy(x.args[1])
        if x.op == "getattr" and isinstance(x.args[1], Term) and x.args[1].op == "const" and x.args[1].args[0] in sigs:
            return sy(x.args[1].args[0])
        if x.op == "getattr" and isinstance(x.args[1], str) and x.args[1] in sigs:
            return sy(x.args[1])
        if x.op == "call" and x.args[0] == "len" and isinstance(x.args[1], tuple) and len(x.args[1]) == 1:
            y = x.args[1][0]
            n = attr_name(y)
            if n is not None and n.endswith(("data",)):
                return sy("W")
        if x.op == "call" and (x.args[0] in ("int",) or isinstance(x.args[0], str) and x.args[0].startswith("Axi")) and isinstance(x.args[1], tuple) and \
                len(x.args[1]) == 1:
            return plain(x.args[1][0], sigs)
        if x.op == "val" and attr_name(x.args[0]) in sigs:
            return sy(attr_name(x.args[0]))
        return None
    return tm.subst(t, f) if isinstance(t, Term) else t


Term = tm.Term


LEAVES = {}


def leaves(t):
    r = LEAVES.get(t)
    if r is None:
        r = LEAVES[t] = frozenset(x for x in eqv.atoms(t) if x.op not in ("const", "enum"))
    return r


def evaluable(t, names):
    return all(x.op == "sym" and x.args[0] in names or x.op in ("const", "enum") for x in leaves(t))


class Point:
    """evaluation of terms over symbols at one point of the grid"""

    def __init__(self, vals, extra=None):
        fixed = {sy(k): v for k, v in vals.items()}
        fixed.update(extra or {})
        self.env = eqv.Env(0, [0], fixed)
        self.keys = fixed.keys()

    def known(self, t):
        return leaves(t) <= self.keys

    def ev(self, t):
        """value, or None when the term is not determined by the symbols"""
        if not isinstance(t, Term) or not self.known(t):
            return Ellipsis
        try:
            return self.env.ev(t)
        except (eqv.Undef, TypeError, OverflowError):
            return Ellipsis

    def lits(self, order):
        """truth of the literals that the symbols determine: False as soon as one fails; (True, undetermined literals) otherwise"""
        und = []
        for t, v in order:
            x = self.ev(t)
            if x is Ellipsis:
                und.append((t, v))
            elif bool(x) != v:
                return False, und
        return True, und


def slaves(an):
    if ("slaves",) in an.cache:
        return an.cache[("slaves",)]
    out = []
    for c in an.subclasses("Reset"):
        ch = channels(an, c)
        if not ch:
            continue
        rq = dt = rs = None
        for a, k in ch.items():
            st = stream_of(k)
            sg = set(st["signals"])
            if k.is_sub("StreamSink") and sg & {"awaddr", "araddr"}:
                rq = a
            elif k.is_sub("StreamSink") and "wdata" in sg:
                dt = a
            elif k.is_sub("StreamSource") and ("bvalid" in sg or "rvalid" in sg):
                rs = a
        if rq is None or rs is None:
            continue
        for f, attr in an.workers(c):
            ps = an.walk(c, f)
            if any(e.kind == "call" and attr_name(e.recv) == rq and e.name in RECV for p in ps for e in p.events):
                out.append(Slave(an, c, f, ps, rq, dt, rs, ch))
    # one analysis per worker function: subclasses that inherit it only differ in where the bytes go
    best = {}
    for s in out:
        k = (s.f.module.name, s.f.qual)
        if k not in best or len(s.c.mro()) < len(best[k].c.mro()):
            best[k] = s
    out = sorted(best.values(), key=lambda s: s.c.name)
    if len(out) < 4:
        raise AnalysisError("slave processing coroutines not found")
    an.cache[("slaves",)] = out
    return out


def apb_slaves(an):
    """components without channels that call their target themselves"""
    out = []
    for c in an.subclasses("Reset"):
        if channels(an, c) or "target" not in an.walker().init_alts(c):
            continue
        for f, attr in an.workers(c):
            ps = an.walk(c, f)
            if any(e.kind == "call" and e.name in ACCESS and attr_name(e.recv) == "target" for p in ps for e in p.events):
                out.append((c, f, ps))
    best = {}
    for c, f, ps in out:
        k = (f.module.name, f.qual)
        if k not in best or len(c.mro()) < len(best[k][0].mro()):
            best[k] = (c, f, ps)
    return list(best.values())


def error_code(v):
    """True: an error response, False: not one, None: cannot tell"""
    if v is None:
        return None
    n = v.args[2] if v.op == "enum" else tm.numval(v)
    if n is None:
        return None
    return n in (2, 3)


def okay_code(v):
    if v is None:
        return None
    n = v.args[2] if v.op == "enum" else tm.numval(v)
    return None if n is None else n == 0


CATCH = {"Exception", "BaseException"}


def contained(e):
    return any(hs & CATCH for hs in e.trys)


def failures(p, lines):
    """except events of the path caused by a target access"""
    return [e for e in p.events if e.kind == "except" and isinstance(e.value, Term) and e.value.op == "mayraise" and e.value.args[1] in lines]


def target_lines(ps, isacc):
    return {x.line for p in ps for e in p.events if isacc(e) for x in [e]+awaits_of(p, e)}


def awaits_of(p, e):
    """where the result of a call is awaited"""
    return [x for x in p.events if x.kind == "await" and x.idx > e.idx and e.result is not None and x.recv is not None and tm.contains(x.recv, e.result)]


def guarded(p, e):
    """an exception of the target's coroutine is caught: it is raised where the coroutine is awaited"""
    aw = awaits_of(p, e)
    return contained(aw[0]) if aw else contained(e)


# ------------------------------------------------------------------ C14

@prop("C14")
def answered(an, rep):
    rep.rule("once", "each pass of a slave's loop takes one request and sends its response exactly once (reads: one beat per pass of the beat loop)")
    rep.rule("beats", "as many data beats are taken or sent as the request announces")
    rep.rule("id", "the response carries the ID of the request")
    rep.rule("last", "the last flag of a read beat is set exactly on the final beat")
    rep.rule("contained", "a failing target access is caught: it cannot end the slave's processing")
    rep.rule("error", "a failed access is answered with an error response, which nothing turns back into OKAY; without a failure the response is OKAY")
    rep.rule("ends", "the slave's processing never ends by itself")
    for S in slaves(an):
        lines = target_lines(S.ps, S.isacc)
        rep.check("contained", S.w, bool(lines), "the slave never accesses its target")
        for p in S.ps:
            if p.kind in ("return", "fall"):
                rep.bad("ends", S.w, "the slave stops processing requests")
            for e in p.events:
                if S.isacc(e):
                    rep.check("contained", f"{e.where} {S.f.qual} [{S.c.name}]", guarded(p, e), "an exception raised by the target ends the slave's processing")
        _counts(rep, S)
        for p in S.ps:
            for e in p.events:
                if S.isrsp(e):
                    _fields(rep, S, p, e)
                if (S.isrsp(e) or S.isacc(e)) and e.result is not None and any(
                        x.kind == "call" and x.idx > e.idx and str(x.name).split(".")[-1] in ("start_soon", "start", "fork", "create_task") and e.result in x.args for x in p.events):
                    rep.bad("once", f"{e.where} {S.f.qual} [{S.c.name}]", "left to another task: it may happen out of order, and reset does not stop it")
        _errors(rep, S, lines)
    for c, f, ps in apb_slaves(an):
        _apb_errors(an, rep, c, f, ps)


def _counts(rep, S):
    n = 0
    for p in S.ps:
        if p.kind != "backedge":
            continue
        rq = [e for e in p.events if S.isreq(e)]
        rs = [e for e in p.events if S.isrsp(e)]
        dt = [e for e in p.events if S.isdat(e)]
        inner = [e for e in rq if len(e.loops) > 1]
        if inner:
            rep.bad("once", f"{inner[0].where} {S.f.qual} [{S.c.name}]", "another request is taken before the current one is answered")
        if outer_backedge(p):
            n += 1
            rep.check("once", S.w, len([e for e in rq if len(e.loops) == 1]) == 1, "a pass of the slave's loop does not take exactly one request")
            if S.write:
                rep.check("once", S.w, len([e for e in rs if len(e.loops) == 1]) == 1, "a write request is not answered exactly once")
                last = max([e.idx for e in dt], default=-1)
                lp = max([e.idx for e in p.events if e.kind == "loop"], default=-1)
                for e in rs:
                    rep.check("once", S.w, e.idx > last, "the response is sent before the data has been received")
            elif not S.beatloops:
                rep.check("once", S.w, len(rs) == 1, "a read request is not answered exactly once")
            else:
                rep.check("once", S.w, not [e for e in rs if len(e.loops) == 1], "a read beat is sent outside the loop over the beats")
            _number(rep, S, p, rs, dt)
        elif p.end[1] in S.beatloops:
            ev = [e for e in (dt if S.write else rs) if e.loops and e.loops[-1] == p.end[1]]
            rep.check("once", S.w, len(ev) == 1, "a pass of the beat loop does not "+("take" if S.write else "send")+" exactly one beat")
        if S.write:
            bad = [e for e in rs if len(e.loops) > 1]
            if bad:
                rep.bad("once", f"{bad[0].where} {S.f.qual} [{S.c.name}]", "the response is sent in a loop")
        # in order: a request is answered before the next pass
    if not n:
        raise AnalysisError(f"{S.f.qual}: no complete pass of the slave's loop")


def _number(rep, S, p, rs, dt):
    if not S.burst:
        ev = dt if S.write else rs
        rep.check("beats", S.w, len(ev) == 1 and len(ev[0].loops) == 1 if ev or not S.beatloops else None, "not exactly one data beat per request")
        return
    want = tm.add(sy(S.pre+"len"), ONE)
    loops = [l for l in p.linit if l in S.beatloops]
    if len(loops) != 1:
        rep.check("beats", S.w, None if S.beatloops else False, "the beats of a burst are not processed one by one")
        return
    it = iterations(S.ps, p, loops[0])
    if it is None:
        _early(rep, S, p, loops[0], want)
        return
    cnt = S.sym(it[0])
    r = cnt is want or eqv.equal(cnt, want)
    early = [e for e in (dt if S.write else rs) if loops[0] in e.loops]
    if not evaluable(cnt, {S.pre+"len"}) and r is not True:
        r = None
    rep.check("beats", S.w, r, f"the number of data beats is {cnt}, not the announced length + 1")


def _early(rep, S, p, loop, want):
    """the loop is left by a condition of its own: is it possible before the last beat?"""
    cl = Closed(S.ps, p, loop)
    lits = [(S.sym(cl.sub(t)), b) for t, b, _ in p.order]
    lits = [(t, b) for t, b in lits if not any(x.op == "hasattr" for x in tm.subterms(t))]
    for ln in (1, 3, 15):
        for k in range(ln):
            for s in (0, 1, 2):
                pt = Point({S.pre+"len": ln, S.pre+"id": 0, S.pre+"size": 0, S.pre+"burst": s, S.pre+"addr": 0, "W": 32}, {J(loop): k})
                ok, und = pt.lits(lits)
                if ok and not und:
                    rep.bad("beats", S.w, f"a burst of {ln+1} beats can end after {k+1}")
                    return
    rep.unk("beats", S.w, "number of passes of the beat loop not recognised")


def _fields(rep, S, p, e):
    w = f"{e.where} {S.f.qual} [{S.c.name}]"
    t, vals, evs = S.vals(p, e)
    if t is None or t.op != "new":
        rep.unk("id", w, "transaction sent is not a new object")
        return
    # a transaction object sent in a loop is a fresh one each time
    new = [x for x in p.events if x.kind == "new" and x.result is t]
    if new:
        rep.check("once", w, new[-1].loops == e.loops, "one response object is sent several times")
    idn = S.rpre+"id"
    if idn in S.rsigs:
        v = vals.get(idn)
        if v is None:
            rep.bad("id", w, "the response has no ID")
        else:
            v = S.sym(v)
            rep.check("id", w, v is sy(S.pre+"id") or (None if not evaluable(v, S.sigs) else False), f"the response ID is {v}, not the request's")
    if S.rpre+"last" in S.rsigs:
        v = vals.get(S.rpre+"last")
        if v is None:
            rep.bad("last", w, "the last flag is not driven")
        elif len(e.loops) > 1:
            _last(rep, S, p, e, v, w)


def _last(rep, S, p, e, v, w):
    loop = e.loops[-1]
    cl = Closed(S.ps, p, loop)
    L = sy(S.pre+"len")
    iv = S.sym(cl.sub(v))
    if has_mu(iv, loop):
        rep.unk("last", w, "last flag depends on an unrecognised loop variable")
        return
    lits = [(S.sym(cl.sub(t)), b) for t, b, _ in p.order[:e.nlits]]
    seen = 0
    for ln in (0, 1, 2, 3, 7, 15, 255):
        for k in range(ln+1):
            pt = Point({S.pre+"len": ln, S.pre+"id": 0}, {J(loop): k})
            ok, und = pt.lits(lits)
            if not ok:
                continue
            x = pt.ev(iv)
            if x is Ellipsis:
                rep.unk("last", w, "last flag not determined by the length and the beat number")
                return
            seen += 1
            if bool(x) != (k == ln):
                rep.bad("last", w, f"beat {k} of {ln+1} is sent with last = {bool(x)}")
                return
    rep.check("last", w, seen > 0 or None, "no beat reaches the response")


def _errors(rep, S, lines):
    rn = S.rpre+"resp"
    if rn not in S.rsigs:
        return
    for p in S.ps:
        if p.kind != "backedge":
            continue
        fail = failures(p, lines)
        sends = [e for e in p.events if S.isrsp(e)]
        for e in sends:
            t, vals, evs = S.vals(p, e)
            w = f"{e.where} {S.f.qual} [{S.c.name}]"
            v = vals.get(rn)
            if v is None:
                rep.bad("error", w, "the response code is not driven")
                continue
            late = [x for x in p.events if (S.isacc(x) or x in fail) and x.idx > e.idx]
            rep.check("error", w, not late, "the response is sent before the target has been accessed")
            mine = [x for x in fail if x.idx < e.idx and x.loops[:len(e.loops)] == e.loops]
            if mine:
                rep.check("error", w, error_code(v), f"a failed access is answered with {v}")
            elif okay_code(v) is not None and _flags(S, p, e, lines):
                _flagged(rep, S, p, e, v, lines, w)
            elif okay_code(v) is not None:
                pre = [x for x in p.events if x.kind == "set" and x.recv is t and x.name == rn]
                rep.check("error", w, okay_code(v), f"a request is answered with {v} although nothing failed")
                # the value was fixed before a loop in which accesses may fail: the loop must set it
                s = evs.get(rn)
                for loop in _failing_loops(S, p, e, lines):
                    _loop_sticky(rep, S, p, e, t, rn, loop, s, lines, w)
            else:
                _var_sticky(rep, S, p, e, v, lines, w)


def _flags(S, p, e, lines):
    """literals of the path about variables of loops in which an access can fail"""
    fl = set(_failing_loops(S, p, e, lines))
    return [(t, b) for t, b, _ in p.order if any(x.op == "mu" and x.args[0] in fl and not str(x.args[1]).startswith("#") for x in tm.subterms(t))]


def _contradicted(lits, sub):
    """do the literals contradict each other once the variables are replaced? True / False / None"""
    r = False
    for t, b in lits:
        x = tm.truthy(tm.subst(t, sub))
        if x.op == "const":
            if bool(x.args[0]) != b:
                return True
        else:
            r = None
    return r


def _flagged(rep, S, p, e, v, lines, w):
    lits = _flags(S, p, e, lines)
    fl = set(_failing_loops(S, p, e, lines))
    init = {}
    for l in fl:
        init.update({T("mu", l, k): x for k, x in p.linit.get(l, {}).items()})
    if not okay_code(v):
        rep.check("error", w, _contradicted(lits, lambda x: init.get(x) if x.op == "mu" else None), f"a request is answered with {v} although nothing failed")
        return
    for b in S.ps:
        if b.kind == "backedge" and b.end[1] in fl:
            nx = {T("mu", b.end[1], k): x for k, x in b.end[2].items()}
            if [x for x in failures(b, lines) if b.end[1] in x.loops]:
                rep.check("error", w, _contradicted(lits, lambda x: nx.get(x) if x.op == "mu" else None), "a failed access in a burst is answered with OKAY")
            else:
                same = all(tm.subst(t, lambda x: nx.get(x) if x.op == "mu" else None) is t for t, _ in lits)
                c = None if same else _contradicted(lits, lambda x: nx.get(x) if x.op == "mu" else None)
                rep.check("error", w, True if same else False if c is False else None, "an access that succeeds clears an earlier error")


def _failing_loops(S, p, e, lines):
    """loops over before event e in which an access can fail and processing goes on"""
    out = []
    for b in S.ps:
        if b.kind == "backedge" and b.end[1] not in e.loops and b.end[1] not in out and \
                [x for x in failures(b, lines) if b.end[1] in x.loops and x.loops[:len(e.loops)] == e.loops]:
            out.append(b.end[1])
    return out


def _loop_sticky(rep, S, p, e, t, rn, loop, s, lines, w):
    """back paths of the loop: a failing pass leaves an error in the response object, a passing one does not touch it"""
    for b in S.ps:
        if b.kind != "backedge" or b.end[1] != loop:
            continue
        sets = [x for x in b.events if x.kind == "set" and x.recv.op == "new" and x.recv.args[0] == t.args[0] and x.name == rn and loop in x.loops]
        fail = [x for x in failures(b, lines) if loop in x.loops]
        ww = f"{w} beat loop"
        if fail:
            after = [x for x in sets if x.idx > fail[-1].idx]
            if s is not None and s.idx > max([x.idx for x in p.events if x.kind == "loop" and x.value == loop] or [-1]) and _after_loop(p, s, loop):
                rep.check("error", ww, None, "response decided after the loop")
                continue
            rep.check("error", ww, error_code(after[-1].value) if after else False, "a failed access in a burst is not remembered in the response")
        else:
            for x in sets:
                if okay_code(x.value):
                    con = any("resp" in str(l) for l, v, _ in b.order[:x.nlits])
                    rep.check("error", f"{x.where} {S.f.qual} [{S.c.name}]", None if con else False,
                              "the response is set back to OKAY for every beat, so an earlier error is lost")
                elif error_code(x.value):
                    rep.check("error", f"{x.where} {S.f.qual} [{S.c.name}]", None, "error response without a failed access")


def _after_loop(p, s, loop):
    lp = [x for x in p.events if x.kind == "loop"]
    return loop not in s.loops and bool(lp) and s.idx > lp[-1].idx


def _var_sticky(rep, S, p, e, v, lines, w):
    """the code is a term over loop variables: fresh = OKAY, after a failing pass = error, a passing pass leaves it alone"""
    mus = {x for x in tm.subterms(v) if x.op == "mu"}
    loops = {x.args[0] for x in mus}
    if len(loops) != 1:
        rep.unk("error", w, "response code not recognised")
        return
    (loop,) = loops
    init = p.linit.get(loop, {})
    if any(x.args[1] not in init for x in mus):
        rep.unk("error", w, "response code not recognised")
        return
    v0 = tm.subst(v, lambda x: init[x.args[1]] if x in mus else None)
    rep.check("error", w, okay_code(v0), f"a burst starts with response {v0}")
    for b in S.ps:
        if b.kind != "backedge" or b.end[1] != loop:
            continue
        nx = tm.subst(v, lambda x: b.end[2].get(x.args[1], x) if x in mus else None)
        if [x for x in failures(b, lines) if loop in x.loops]:
            r = error_code(nx)
            if r is None and nx is v:
                r = False
            rep.check("error", w, r, "a failed access in a burst is not remembered")
        else:
            r = True if nx is v else False if okay_code(nx) and len(mus) >= 1 and v is not nx else None
            rep.check("error", w, r, "a later access that succeeds turns the response back to OKAY")


def _apb_errors(an, rep, c, f, ps):
    isacc = lambda e: e.kind == "call" and e.name in ACCESS and attr_name(e.recv) == "target"
    lines = target_lines(ps, isacc)
    w = f"{an.where(f)} [{c.name}]"
    for p in ps:
        if p.kind in ("return", "fall"):
            rep.bad("ends", w, "the slave stops processing requests")
        for e in p.events:
            if isacc(e):
                rep.check("contained", f"{e.where} {f.qual} [{c.name}]", guarded(p, e), "an exception raised by the target ends the slave's processing")
        if not outer_backedge(p):
            continue
        rdy = [e for e in p.events if e.kind == "set" and e.name == "value" and attr_name(e.recv) == "pready" and e.loops and e.value is not FALSE and e.value is not ZERO]
        fail = failures(p, lines)
        if not rdy:
            # an access phase may be skipped only when nothing was selected
            continue
        rep.check("once", w, len(rdy) == 1 and len(rdy[0].loops) == 1, "an access is not completed exactly once")
        errs = [e for e in p.events if e.kind == "set" and e.name == "value" and attr_name(e.recv) == "pslverr" and e.loops and e.idx < _next_wait(p, rdy[0])]
        if not errs:
            has = [v for t, v, _ in p.order if t.op == "hasattr" and "pslverr" in str(t)]
            rep.check("error", w, True if has == [False] else False if has == [True] else None, "the error is not valid together with ready")
            continue
        v = tm.truthy(errs[-1].value)
        # flags and counters kept by loops may tell what failed; nothing else can
        kept = any(x.op == "mu" and not str(x.args[1]).startswith("#") for x in tm.subterms(v))
        if fail:
            rep.check("error", w, v is TRUE if v.op == "const" else None if kept else entails(p.lits, v) or False, "a failed access is not reported on pslverr")
        else:
            stale = any(x.op == "mu" and x.args[0] == rdy[0].loops[0] and any(tm.truthy(b.end[2].get(x.args[1], FALSE)) is TRUE for b in ps if outer_backedge(b))
                        for x in tm.subterms(errs[-1].value))
            rep.check("error", w, v is FALSE if v.op == "const" else False if stale else None if kept else entails(p.lits, v, False) or False, "pslverr is driven although nothing failed")
    # failures inside loops of accesses are handled on paths leaving the loop (the exception leaves it)


def _next_wait(p, e):
    return min([x.idx for x in p.events if x.kind == "await" and x.idx > e.idx], default=1 << 30)


# ------------------------------------------------------------------ requests on a grid

LENS = (0, 1, 2, 3, 4, 7, 15)
ADDRS = (0, 1, 2, 3, 5, 6, 7, 8, 12, 0x14, 0x1c, 0x3e, 0x3f, 0x7f8, 0xfc0, 0xfe0, 0xff0, 0xff8, 0xffc, 0xffe, 0xfff, 0x1000, 0x1ff4, 0x2fc8)


def spec_full(b, addr, ln, nb, n):
    """address the protocol assigns to beat n (aligned to the beat size)"""
    al = addr//nb*nb
    if b == 0:
        return al
    if b == 1:
        return al+n*nb
    ts = nb*(ln+1)
    lo = addr//ts*ts
    return lo+(al-lo+n*nb) % ts


def legality(b, addr, ln, size, lanes):
    """True: legal, False: one of the violations that must be detected, None: outside the protocol for another reason"""
    nb = 1 << size
    if nb > lanes:
        return False
    if b == 1:
        return (addr//nb*nb & 0xfff)+nb*(ln+1) <= 4096
    if b == 2:
        return True if ln in (1, 3, 7, 15) and addr % nb == 0 else None
    return True


def requests(S, illegal=False, deep=False):
    pre = S.pre
    for lanes in ((1, 2, 4, 8) if not deep else (1, 2, 4, 8, 16, 32, 64, 128)):
        for size in range(0, 5 if not deep else 8):
            for b in (0, 1, 2):
                for ln in LENS+((255,) if deep else ()):
                    for addr in ADDRS:
                        g = legality(b, addr, ln, size, lanes)
                        if g is (False if illegal else True):
                            yield {"W": 8*lanes, pre+"size": size, pre+"burst": b, pre+"len": ln, pre+"addr": addr, pre+"id": 1, pre+"prot": 0}


def trapped(p):
    """literals that come from assertions whose failure would be caught by the code itself"""
    return {id(e.node) for e in p.events if e.kind == "assert" and any(hs & (CATCH | {"AssertionError"}) for hs in e.trys)}


# ------------------------------------------------------------------ C15 (slave side)

@prop("C15")
def slave_checks(an, rep):
    rep.rule("burst", "a burst with beats wider than the bus or an incrementing burst across a 4 KB boundary is never processed; legal bursts always are")
    rep.rule("wlast", "a write beat whose last flag does not match its position in the burst stops the slave; a matching one never does")
    n = 0
    for S in slaves(an):
        if not S.burst or not S.beatloops:
            continue
        n += 1
        _burst_check(an, rep, S)
        if S.write:
            _wlast_check(rep, S)
    if not n:
        raise AnalysisError("no slave that handles bursts")


def _burst_check(an, rep, S):
    entry = {}
    for p in S.ps:
        if p.kind != "backedge":
            continue
        inb = [e for e in p.events if any(l in S.beatloops for l in e.loops)]
        if not inb:
            continue
        loop = next(l for l in inb[0].loops if l in S.beatloops)
        tr = trapped(p)
        cl = Closed(S.ps, p, loop)
        lits = tuple((S.sym(cl.at(cl.sub(t), ZERO)), v) for t, v, nd in p.order[:inb[0].nlits] if id(nd) not in tr)
        asr = tuple(S.sym(e.value) for e in p.events if e.kind == "assert" and e.idx < inb[0].idx and id(e.node) not in tr and loop not in e.loops)
        entry[(lits, asr)] = p
    if not entry:
        raise AnalysisError(f"{S.f.qual}: no path into the beat loop")
    deep = getattr(an, "tier", "quick") == "thorough"
    und = set()
    missed = None
    for v in requests(S, illegal=True, deep=deep):
        pt = Point(v)
        for (lits, asr) in entry:
            ok, u = pt.lits(lits)
            if ok and not any(pt.ev(a) is False for a in asr):
                if u and any(x.op == "sym" for t, _ in u for x in tm.subterms(t)):
                    und.add(str(u[0][0])[:80])
                else:
                    missed = v
        if missed:
            break
    if missed:
        rep.bad("burst", S.w, f"an illegal burst is processed: {_show(S, missed)}")
    else:
        rep.check("burst", S.w, None if und else True, f"conditions not evaluated: {sorted(und)[:2]}")
    # legal bursts
    checks = {}
    for p in S.ps:
        for e in p.events:
            if e.kind == "assert" and not any(l in S.beatloops for l in e.loops) and id(e.node) not in trapped(p):
                checks[(tuple((S.sym(t), v) for t, v, _ in p.order[:e.nlits]), S.sym(e.value))] = e.where
        if p.kind == "raise" and not any(l in S.beatloops for e in p.events for l in e.loops) and not any(S.isacc(e) for e in p.events):
            checks[(tuple((S.sym(t), v) for t, v, _ in p.order), None)] = S.w.split(" ")[0]
    for v in requests(S, deep=deep):
        pt = Point(v)
        for (lits, a), wh in checks.items():
            ok, u = pt.lits(lits)
            if ok and not u and (a is None or pt.ev(a) is False):
                rep.bad("burst", f"{wh} {S.f.qual} [{S.c.name}]", f"a legal burst is rejected: {_show(S, v)}")
                return
    rep.ok("burst", S.w, f"{len(checks)} assertions against the legal bursts of the grid")


def _show(S, v):
    return ", ".join(f"{k}={v[k]:#x}" for k in (S.pre+"addr", S.pre+"len", S.pre+"size", S.pre+"burst", "W"))


def _wlast_check(rep, S):
    L = S.pre+"len"
    und = False
    seen = 0
    for p in S.ps:
        loop = next((l for l in S.beatloops if any(l in e.loops for e in p.events)), None)
        if loop is None or not any(S.isdat(e) for e in p.events):
            continue
        cl = Closed(S.ps, p, loop)
        tr = trapped(p)
        f = lambda t: S.sym(cl.sub(t))
        lits = [(f(t), v) for t, v, nd in p.order if id(nd) not in tr]
        asr = [(f(e.value), [(f(t), v) for t, v, _ in p.order[:e.nlits]], e) for e in p.events if e.kind == "assert" and loop in e.loops and id(e.node) not in tr]
        accepts = p.kind == "backedge" and (p.end[1] == loop or outer_backedge(p))
        for ln in (0, 1, 2, 3, 15, 16, 255):
            for k in sorted({0, 1, 2, 14, 15, ln-1, ln} & set(range(ln+1))):
                for last in (0, 1):
                    pt = Point({L: ln, "wlast": last}, {J(loop): k})
                    good = bool(last) == (k == ln)
                    if not good and accepts:
                        ok, u = pt.lits(lits)
                        if ok and not any(pt.ev(a) is False for a, _, _ in asr):
                            if any(tm.contains(t, sy("wlast")) for t, _ in u):
                                und = True
                            else:
                                rep.bad("wlast", S.w, f"beat {k} of {ln+1} with wlast={last} is accepted")
                                return
                        seen += 1
                    if good:
                        for a, pre, e in asr:
                            ok, u = pt.lits(pre)
                            if ok and pt.ev(a) is False and not _blocking(u):
                                rep.bad("wlast", f"{e.where} {S.f.qual} [{S.c.name}]", f"beat {k} of {ln+1} with wlast={last} is rejected")
                                return
                        if p.kind == "raise":
                            ok, u = pt.lits(lits)
                            if ok and not _blocking(u) and any(tm.contains(t, sy("wlast")) for t, _ in lits):
                                rep.bad("wlast", S.w, f"beat {k} of {ln+1} with wlast={last} is rejected")
                                return
    rep.check("wlast", S.w, None if und or not seen else True, "condition on the last flag not evaluated")


def _blocking(und):
    """undetermined literals that could make the path infeasible here (those about the request itself, strobes and write lists cannot)"""
    for t, v in und:
        for x in tm.subterms(t):
            if x.op in ("mattr", "param", "meth") and x.op != "sym":
                return True
    return False


# ------------------------------------------------------------------ C19

class Access:
    """what the address decoding of one worker is written over"""

    def __init__(self, S=None, c=None, f=None, ps=None):
        self.S = S
        if S is not None:
            self.ps, self.f, self.c, self.w = S.ps, S.f, S.c, S.w
            self.addr, self.data, self.strb = S.pre+"addr", "wdata", "wstrb"
            self.sigs = S.sigs
            self.burst = S.burst
            self.beats = S.beatloops if S.burst else set()
            self.isacc = S.isacc
        else:
            self.ps, self.f, self.c = ps, f, c
            self.w = None
            self.addr, self.data, self.strb = "paddr", "pwdata", "pstrb"
            self.sigs = {"paddr", "pwdata", "pstrb", "pwrite", "psel", "penable", "pprot"}
            self.burst = False
            self.beats = set()
            self.isacc = lambda e: e.kind == "call" and e.name in ACCESS and attr_name(e.recv) == "target"

    def sym(self, t):
        return plain(t, self.sigs)

    def requests(self, deep):
        if self.burst:
            yield from requests(self.S, deep=deep)
        else:
            for lanes in (1, 2, 4, 8, 16):
                for a in ADDRS:
                    yield self.fill({"W": 8*lanes, self.addr: a})

    def fill(self, v):
        """the other request signals, at values that start a transfer"""
        if self.S is None:
            v.update({"psel": 1, "pprot": 0})
        return v

    def flags(self, v, n):
        """the point with the data beat's last flag as the protocol wants it"""
        if self.data == "wdata" and self.burst and self.S.write:
            return dict(v, wlast=int(n == v[self.S.pre+"len"]))
        return v

    def word(self, v, n):
        lanes = v["W"]//8
        return self.full(v, n)//lanes*lanes

    def full(self, v, n):
        if not self.burst:
            return v[self.addr]
        pre = self.S.pre
        return spec_full(v[pre+"burst"], v[pre+"addr"], v[pre+"len"], 1 << v[pre+"size"], n)

    def nbeats(self, v):
        return v[self.S.pre+"len"]+1 if self.burst else 1


def addr_candidates(A):
    full = A.full
    pre = A.S.pre
    nb = lambda v: 1 << v[pre+"size"]
    return {
        "beat address": full,
        "beat word": A.word,
        "linear": lambda v, n: v[A.addr]//nb(v)*nb(v)+n*nb(v),
        "aligned start": lambda v, n: v[A.addr]//nb(v)*nb(v),
        "start, then aligned": lambda v, n: v[A.addr] if n == 0 else full(v, n),
        "start, then aligned linear": lambda v, n: v[A.addr] if n == 0 else v[A.addr]//nb(v)*nb(v)+n*nb(v),
        "start": lambda v, n: v[A.addr],
        "offset": lambda v, n: n*nb(v),
        "wrap offset": lambda v, n: full(v, n) - v[A.addr]//(nb(v)*(v[pre+"len"]+1))*(nb(v)*(v[pre+"len"]+1)),
        "index": lambda v, n: n,
        "countdown": lambda v, n: v[pre+"len"]-n,
        "beats left": lambda v, n: v[pre+"len"]+1-n,
        "burst end": lambda v, n: v[A.addr]//nb(v)*nb(v)+nb(v)*(v[pre+"len"]+1),
    }


class Beats:
    """the variables of the beat loop as functions of the beat number"""

    def __init__(self, A, loop, deep):
        self.A, self.loop = A, loop
        p0 = next(p for p in A.ps if loop in p.linit and p.kind == "backedge")
        self.cl = cl = Closed(A.ps, p0, loop)
        self.init = cl.init
        self.back = []
        for b in cl.back:
            self.back.append(([(A.sym(cl.sub(t)), v) for t, v, _ in b.order], b))
        self.grid = list(A.requests(deep))
        self.pick = {}
        self.fail = {}

    def resolve(self, names):
        """find for each variable its closed form per burst type"""
        cands = addr_candidates(self.A)
        pre = self.A.S.pre
        for k in sorted(names):
            if (k, 0) in self.pick or (k, 0) in self.fail:
                continue
            m = T("mu", self.loop, k)
            if k not in self.init:
                continue
            init = self.A.sym(self.init[k])
            nx = {}
            for lits, b in self.back:
                nx[(tuple(lits), self.A.sym(self.cl.sub(b.end[2].get(k, m))))] = None
            nx = [self._lean(l, t) for l, t in nx]
            for b in (0, 1, 2):
                grid = [v for v in self.grid if v[pre+"burst"] == b]
                okc = None
                firsts = []
                for cn, cf in cands.items():
                    r = self._try(cf, grid, init, nx, m)
                    if r is True:
                        okc = cn
                        break
                    if r:
                        firsts.append((cands[cn], cn, r))
                if okc:
                    self.pick[(k, b)] = cands[okc]
                else:
                    self.fail[(k, b)] = firsts

    def _lean(self, lits, t):
        """only the literals that can matter: those over the request and this loop's variables"""
        keep = []
        for l, v in lits:
            xs = list(tm.subterms(l))
            if any(x.op in ("mu", "iter") and x.args[0] != self.loop for x in xs):
                continue
            if any(x.op == "sym" or x.op in ("mu", "iter") for x in xs):
                keep.append((l, v))
        return tuple(keep), t

    def _try(self, cf, grid, init, nx, m):
        """True: inductive; [(point, n, next)]: first failing steps with the right start; None: wrong start or undetermined"""
        fails = []
        for v in grid:
            x = Point(v).ev(init)
            if x is Ellipsis or x != cf(v, 0):
                return None
        for v in grid:
            last = self.A.nbeats(v)-1
            failed = False
            for n in (range(last) if last <= 15 else (0, 1, last-1)):
                pt = Point(self.A.flags(v, n), {m: cf(v, n), J(self.loop): n})
                for lits, t in nx:
                    ok, u = pt.lits(lits)
                    if not ok:
                        continue
                    y = pt.ev(t)
                    if y is Ellipsis:
                        return None
                    if y != cf(v, n+1):
                        if any(x.op == "sym" and x.args[0] not in (self.A.strb, "wlast") or x is m for l, _ in u for x in tm.subterms(l)):
                            return None
                        failed = True
                        fails.append((v, n, y))
                if failed:
                    break
            if len(fails) > 60:
                break
        return fails or True

    def env(self, v, n):
        """values of the loop's variables at beat n"""
        b = v[self.A.S.pre+"burst"]
        out = {J(self.loop): n}
        for (k, bb), cf in self.pick.items():
            if bb == b:
                out[T("mu", self.loop, k)] = cf(v, n)
        return out


@prop("C19")
def decode(an, rep):
    rep.rule("address", "the target is accessed in the bus word that holds the address the protocol assigns to the beat (fixed, incrementing, wrapping; any size)")
    rep.rule("read", "a read beat returns the bytes of that word, each on its own lane")
    rep.rule("strobe", "a write reaches exactly the bytes whose strobe is set, each with the data of its own lane; without a strobe signal all of them")
    rep.rule("all", "every write operation decoded from a beat is carried out")
    deep = getattr(an, "tier", "quick") == "thorough"
    n = 0
    todo = [Access(S) for S in slaves(an)]
    for c, f, ps in apb_slaves(an):
        A = Access(c=c, f=f, ps=ps)
        A.w = f"{an.where(f)} [{c.name}]"
        todo.append(A)
    for A in todo:
        rd, wr = {}, {}
        for p in A.ps:
            for e in p.events:
                if A.isacc(e):
                    (rd if e.name == "read" else wr).setdefault(e.line, []).append((p, e))
        if rd:
            n += _reads(rep, A, [x for v in rd.values() for x in v], deep)
        if wr:
            n += _writes(rep, A, [x for v in wr.values() for x in v], deep)
    if n < 5:
        raise AnalysisError("target accesses not found")


def _beatloop(A, e):
    return next((l for l in e.loops if l in A.beats), None)


def _judge(rep, A, loop, terms, w, deep):
    """terms: [(literals, address term)]; is each the word address of beat n, for every request of the grid?"""
    B = None
    f = A.sym
    if loop is not None:
        B = _beats(A, loop, deep)
        f = lambda t: A.sym(B.cl.sub(t))
    ts = {}
    for lits, t in terms:
        # literals over variables of inner loops say nothing about the beat
        ls = tuple((f(l), v) for l, v, _ in lits)
        ls = tuple((l, v) for l, v in ls if not any(x.op in ("iter", "mu") and x.args[0] != loop for x in tm.subterms(l)))
        ts[(f(t), ls)] = None
    terms = list(ts)
    if loop is not None:
        names = {x.args[1] for t, ls in terms for y in (t,)+tuple(l for l, _ in ls) for x in tm.subterms(y) if x.op == "mu" and x.args[0] == loop}
        B.resolve(names)
        for (k, b), fs in B.fail.items():
            if k not in names:
                continue
            bad = None
            m = T("mu", loop, k)
            for cf, cn, cases in fs:
                # from a right state at beat n the loop goes to y: is the address of beat n+1 wrong?
                for v, n, y in cases:
                    for t, ls in terms:
                        e0, e1 = B.env(v, n), B.env(v, n+1)
                        e0[m], e1[m] = cf(v, n), y
                        p0, p1 = Point(A.flags(v, n), e0), Point(A.flags(v, n+1), e1)
                        if not p0.lits(ls)[0] or not p1.lits(ls)[0]:
                            continue
                        x0, x1 = p0.ev(t), p1.ev(t)
                        if x0 is Ellipsis or x1 is Ellipsis:
                            continue
                        if x0 == A.word(v, n) and x1 != A.word(v, n+1):
                            bad = bad or (v, n+1, x1)
            if bad:
                v, n, x = bad
                rep.bad("address", w, f"beat {n} goes to {x:#x} instead of {A.word(v, n):#x} ({_show(A.S, v)})")
            else:
                rep.unk("address", w, f"loop variable {k!r} not recognised for burst type {b}")
    for t, ls in terms:
        und = 0
        good = 0
        for v in (B.grid if B else A.requests(deep)):
            nb = A.nbeats(v)
            for n in range(nb) if nb <= 16 else (0, 1, nb-1):
                env = B.env(v, n) if B else {}
                pt = Point(A.flags(v, n), env)
                ok, u = pt.lits(ls)
                if not ok:
                    continue
                x = pt.ev(t)
                if x is Ellipsis:
                    und += 1
                    continue
                good += 1
                if x != A.word(v, n):
                    if any(y.op == "sym" and y.args[0] != A.strb or y.op == "mu" for l, _ in u for y in tm.subterms(l)):
                        und += 1
                        continue
                    rep.bad("address", w, f"beat {n} accesses {x:#x} instead of the word at {A.word(v, n):#x}"+(f" ({_show(A.S, v)})" if A.burst else f" ({v})"))
                    return B
        rep.check("address", w, True if good and not und else None, "address not evaluated")
    return B


def _beats(A, loop, deep):
    k = (id(A), loop, deep)
    if k not in BCACHE:
        BCACHE[k] = (A, Beats(A, loop, deep))
    return BCACHE[k][1]


BCACHE = {}


def _reads(rep, A, accs, deep):
    done = set()
    for p, e in accs:
        w = f"{e.where} {A.f.qual} [{A.c.name}]"
        addr, ln = e.arg(0, "address"), e.arg(1, "length")
        key = (addr, ln, tuple((t, v) for t, v, _ in p.order[:e.nlits]))
        if key not in done:
            done.add(key)
            l = A.sym(ln) if ln is not None else None
            okl = l is not None and eqv.equal(l, tm.floordiv(sy("W"), const(8)))
            if okl is not True:
                # a narrower access is fine when it starts at the beat's own address
                scratch = Report("C19")
                if l is not None and evaluable(l, A.sigs | {"W"}):
                    _judge(scratch, A, _beatloop(A, e), [(p.order[:e.nlits], addr)], w, False)
                rep.check("read", w, False if l is not None and (evaluable(l, {"W"}) or scratch.count("ok") and not scratch.count("bad")) else None,
                          "the length read is not the width of the bus")
            else:
                rep.ok("read", w)
                _judge(rep, A, _beatloop(A, e), [(p.order[:e.nlits], addr)], w, deep)
        # the data returned
        aw = [x for x in p.events if x.kind == "await" and x.recv is e.result]
        res = e.result
        fail = [x for x in p.events if x.kind == "except" and x.idx > e.idx]
        if fail or not aw:
            continue
        sets = [x for x in p.events if x.kind == "set" and x.idx > e.idx and (x.name == "rdata" and x.recv.op == "new" or x.name == "value" and attr_name(x.recv) == "prdata")]
        if not sets:
            if p.kind == "backedge":
                rep.bad("read", w, "the data read is not returned")
            continue
        v = sets[-1].value
        ok = v.op == "call" and v.args[0] == "int.from_bytes" and len(v.args[1]) >= 1
        if not ok:
            rep.unk("read", w, "read data not recognised")
            continue
        order = v.args[1][1] if len(v.args[1]) > 1 else dict(v.args[2]).get("byteorder") if len(v.args) > 2 and v.args[2] else None
        src = v.args[1][0]
        rep.check("read", w, order is not None and order.op == "const" and order.args[0] == "little" and (src is res or src is aw[-1].result or _same_read(src, e)),
                  "the lanes do not carry the bytes read in order")
    return len(done)


def _same_read(t, e):
    while t.op == "call" and t.args[0] in ("bytes", "bytearray") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t.op == "meth" and t.args[1] == "read" and attr_name(t.args[0]) == "target" and tuple(t.args[2]) == tuple(e.args)


# -- writes

def _ops(A, p, wr):
    """write operations decoded on the path: [(event, address, data)] and the problem, if they cannot be recognised"""
    lists = {}
    for q, e in wr:
        a, d = e.arg(0, "address"), e.arg(1, "data")
        for x, i in ((a, 0), (d, 1)):
            if x is not None and x.op == "sub" and x.args[0].op == "sub" and x.args[0].args[0].op == "new":
                lists.setdefault(x.args[0].args[0].args[:1], set())
    return lists


def _elem(t, i):
    """t is element i of the tuple at the loop index of a list -> (list term, index term)"""
    if t is not None and t.op == "sub" and t.args[1] is const(i) and t.args[0].op == "sub":
        return t.args[0].args
    return None


def _writes(rep, A, wr, deep):
    """decode the lane loop"""
    lists = set()
    direct = []
    for p, e in wr:
        w = f"{e.where} {A.f.qual} [{A.c.name}]"
        x, y = _elem(e.arg(0, "address"), 0), _elem(e.arg(1, "data"), 1)
        if x and y and x[0] is y[0] and x[1] is y[1]:
            L, ix = x
            lists.add((L.op, L.args[0]) if L.op == "new" else L)
            ok = None
            while L.op == "slice" and L.args[1] in (NONE, ZERO) and L.args[2] is NONE:
                L = L.args[0]
            if L.op == "slice":
                ok = False
            elif ix.op == "mu" and ix.args[1] == "#":
                ini = p.linit.get(ix.args[0], {})
                it = ini.get("#iter")
                if it is L and ini.get("#") is ZERO:
                    ok = True
                elif it is not None and it.op == "slice" and it.args[0] is L:
                    ok = False
            elif ix.op in ("const",):
                ok = False
            rep.check("all", w, ok, "not every write operation decoded from the beat is carried out")
        elif x and y:
            rep.bad("all", w, "a write combines address and data of different operations")
        else:
            direct.append((p, e))
    n = 0
    site = wr[0][1]
    w = f"{site.where} {A.f.qual} [{A.c.name}]"
    wloops = {e.loops[-1] for p, e in wr if e.loops}
    for p, e in wr:
        if p.kind == "backedge" and lists and e.loops and p.end[1] != e.loops[-1] and not [x for x in p.events if x.kind == "except" and x.idx > e.idx]:
            rep.bad("all", f"{e.where} {A.f.qual} [{A.c.name}]", "the remaining write operations of the beat are dropped")
    if lists and direct:
        r = None
        for p, e in direct:
            done = [i.get("#iter") for i in p.linit.values()]
            lanes = {l for q in A.ps for x in q.events if x.kind == "call" and x.name == "append" and x.recv is not None and
                     (x.recv.op, x.recv.args[0]) in lists and len(x.loops) > 1 for l in x.loops[-1:] if l not in A.beats}
            if lanes & set(p.linit) and not lanes & set(e.loops) and not any(x is not None and (x.op, x.args[0]) in lists for x in done if x is not None and x.args):
                rep.bad("all", f"{e.where} {A.f.qual} [{A.c.name}]", "the write operations decoded lane by lane are not carried out")
                return 1
        rep.unk("strobe", w, "two kinds of write accesses")
        return 0
    if not direct and any(not isinstance(x, tuple) and x.op == "comp" for x in lists):
        rep.unk("strobe", w, "write operations rewritten after the lanes were decoded")
        return 1
    if direct:
        isop = lambda e: A.isacc(e) and e.name == "write"
        val = lambda e: (e.arg(0, "address"), e.arg(1, "data"))
    else:
        isop = lambda e: e.kind == "call" and e.name == "append" and e.recv is not None and e.recv.op == "new" and e.recv.args[0] == "list" and e.args and \
            e.args[0].op == "tuple" and len(e.args[0].args) == 2
        val = lambda e: e.args[0].args
        # passes that decode operations but never reach the loop that carries them out
    lane = None
    for p in A.ps:
        for e in p.events:
            if isop(e) and len(e.loops) > 1 and e.loops[-1] not in A.beats:
                lane = e.loops[-1]
    if lane is None:
        rep.unk("strobe", w, "lane loop not found")
        return 0
    if lists:
        for p in A.ps:
            if p.kind != "backedge" or lane not in p.linit or p.end[1] == lane:
                continue
            if any(x.kind == "loop" and x.name == p.end[1] and lane in x.loops for x in p.events):
                # a loop within the decoding of the lanes
                continue
            reached = any(l in p.linit for l in wloops)
            about = [t for t, v, _ in p.order if any(x.op == "new" and x.args[0] == "list" for x in tm.subterms(t))]
            rep.check("all", w, True if reached else None if about or [e for e in p.events if e.kind == "except"] else False,
                      "the write operations decoded from a beat are not carried out")
    return _lane_loop(rep, A, lane, isop, val, w, deep)


def run_start(strb, i):
    """start of the run of set strobes that ends just below lane i, None if there is none"""
    if i == 0 or not strb >> (i-1) & 1:
        return None
    k = i-1
    while k > 0 and strb >> (k-1) & 1:
        k -= 1
    return k


def strobes(lanes):
    if lanes <= 4:
        return range(1 << lanes)
    if lanes > 8:
        top = 1 << (lanes-1)
        return (0, 1, top, 2*top-1, top-1, 2*top-2, top | 1, 0x180, 0xff00, 0x00ff, 0x0f00, 0xc003)
    return (0, 1, 0x80, 0xff, 0xf0, 0x0f, 0x3c, 0x18, 0x81, 0xc3, 0x55, 0xaa, 0x7e, 0xe7, 0xbd, 0x24, 0xfe, 0x7f)


def _lane_loop(rep, A, lane, isop, val, w, deep):
    ps = [p for p in A.ps if lane in p.linit]
    p0 = next((p for p in ps if p.kind == "backedge" and p.end[1] == lane), None)
    if p0 is None:
        rep.unk("strobe", w, "lane loop not found")
        return 0
    cl = Closed(A.ps, p0, lane)
    un = [k for k in cl.init if not k.startswith("#") and T("mu", lane, k) not in cl.map]
    runs = []
    for k in un:
        used = any(tm.contains(x, T("mu", lane, k)) for p in ps for e in p.events if isop(e) for x in val(e)) or \
            any(tm.contains(t, T("mu", lane, k)) for p in ps for t, _, _ in p.order)
        if used:
            runs.append(k)
    beat = next((l for l in p0.linit if l in A.beats), None)
    # word address: the operation's address with nothing added for the lane
    words = []
    for p in ps:
        for e in p.events:
            if isop(e):
                a, d = val(e)
                a = tm.subst(cl.sub(a), lambda x: ZERO if x is J(lane) or x.op == "mu" and x.args[0] == lane else None)
                words.append((p.order[:e.nlits], a))
    B = _judge(rep, A, beat, words, w, deep)
    starts = {k: cl.init[k] for k in runs}
    if any(v is not NONE for v in starts.values()):
        rep.unk("strobe", w, f"loop variables {sorted(runs)} not recognised")
        return 1
    if len(runs) > 1:
        rep.unk("strobe", w, f"several loop variables {sorted(runs)}")
        return 1
    per_byte = not runs
    m = T("mu", lane, runs[0]) if runs else None
    full = None
    for p in ps:
        it = iterations(A.ps, p, lane) if p.kind == "backedge" and p.end[1] != lane else None
        if it:
            n = A.sym(it[0])
            ok = eqv.equal(n, tm.floordiv(sy("W"), const(8)))
            rep.check("strobe", w, ok if ok is True or evaluable(n, {"W"}) else None, "not every lane is looked at")
            break
    outer = B.cl.sub if B else lambda t: t
    conv = {p: ([(A.sym(outer(cl.sub(t))), v) for t, v, _ in p.order]) for p in ps}
    data_ok = set()
    cnt = 0
    bad = None
    und = set()
    for lanes in (1, 2, 4, 8, 16) if not deep else (1, 2, 4, 8, 16, 32):
        for present in (True, False):
            for strb in strobes(lanes) if present else ((1 << lanes)-1,):
                for addr in (0, 3*lanes+lanes//2):
                    v = {"W": 8*lanes, A.addr: addr, A.strb: strb if present else 0}
                    if A.burst:
                        v.update({A.S.pre+"size": lanes.bit_length()-1, A.S.pre+"burst": 1, A.S.pre+"len": 0, A.S.pre+"id": 0, A.S.pre+"prot": 0})
                    A.fill(v)
                    if A.S is None:
                        v["pwrite"] = 1
                    base = B.env(v, 0) if B else {}
                    word = addr//lanes*lanes
                    for p in ps:
                        back = p.kind == "backedge" and p.end[1] == lane
                        if p.kind != "backedge":
                            continue
                        for i in range(lanes) if back else (lanes,):
                            env = dict(base)
                            env[J(lane)] = i
                            if m is not None:
                                env[m] = run_start(strb, i)
                            for x in _strobe_presence(A, p):
                                env[x] = present
                            pt = Point(v, env)
                            ok, u = pt.lits(conv[p])
                            if not ok:
                                continue
                            # operations emitted on the path
                            got = []
                            for e in p.events:
                                if not isop(e):
                                    continue
                                if back and lane not in e.loops or not back and (lane in e.loops):
                                    continue
                                a, d = val(e)
                                got.append(_op_at(A, pt, cl, a, d, outer))
                            if False in got:
                                bad = bad or (lanes, strb if present else None, i, "lanes in the wrong order", None)
                                continue
                            if None in got:
                                und.add("operation not evaluated")
                                continue
                            want = []
                            bit = i < lanes and strb >> i & 1
                            if per_byte:
                                if back and bit:
                                    want = [(word+i, i, i+1)]
                            else:
                                s = run_start(strb, i)
                                if s is not None and not bit:
                                    want = [(word+s, s, i)]
                            if got != want:
                                r = _equiv_ops(got, want)
                                if any(x.op == "sym" or x is m for t, _ in u for x in tm.subterms(t)):
                                    und.add(str(u[0][0])[:60])
                                elif r:
                                    pass
                                else:
                                    bad = bad or (lanes, strb if present else None, i, got, want)
                                continue
                            cnt += 1
                            if back and m is not None:
                                nx = pt.ev(A.sym(outer(cl.sub(p.end[2].get(runs[0], m)))))
                                if nx is Ellipsis:
                                    und.add("next run start")
                                elif nx != run_start(strb, i+1):
                                    if any(x.op == "sym" or x is m for t, _ in u for x in tm.subterms(t)):
                                        und.add(str(u[0][0])[:60])
                                    else:
                                        bad = bad or (lanes, strb if present else None, i, f"next run start {nx}", run_start(strb, i+1))
    if bad:
        lanes, strb, i, got, want = bad
        sv = "no strobe" if strb is None else f"strobe {strb:#x}"
        rep.bad("strobe", w, f"{lanes} lanes, {sv}, lane {i}: operations (address, first lane, end) {got} instead of {want}")
    else:
        rep.check("strobe", w, True if cnt and not und else None, f"not evaluated: {sorted(und)[:3]}")
    return 1


def _strobe_presence(A, p):
    out = set()
    for t, _, _ in p.order:
        for x in tm.subterms(t):
            if x.op == "hasattr" and A.strb in str(x.args[1]):
                out.add(x)
    return out


def _op_at(A, pt, cl, a, d, outer):
    """(address, first lane, end lane) of an operation at a point, None when the form is not recognised"""
    a = A.sym(outer(cl.sub(a)))
    d = A.sym(outer(cl.sub(d)))
    while d.op == "call" and d.args[0] in ("bytes", "bytearray") and len(d.args[1]) == 1:
        d = d.args[1][0]
    if d.op == "slice":
        src, lo, hi = d.args[:3]
    else:
        src, lo, hi = d, NONE, NONE
    if not _lane_bytes(A, src):
        return False if _lane_bytes(A, src, "big") else None
    lanes = pt.env.fixed[sy("W")]//8
    x = pt.ev(a)
    l = 0 if lo is NONE else pt.ev(lo)
    h = lanes if hi is NONE else pt.ev(hi)
    if not all(isinstance(q, int) for q in (x, l, h)):
        return None
    return (x, l, min(h, lanes))


def _lane_bytes(A, t, end="little"):
    """the word's bytes in lane order"""
    if t.op == "meth" and t.args[1] == "to_bytes" and t.args[0] is sy(A.data):
        n = t.args[2][0] if t.args[2] else None
        order = t.args[2][1] if len(t.args[2]) > 1 else None
        kw = dict(t.args[3]) if len(t.args) > 3 and isinstance(t.args[3], tuple) and all(isinstance(q, tuple) for q in t.args[3]) else {}
        n = n if n is not None else kw.get("length")
        order = order if order is not None else kw.get("byteorder")
        return n is not None and order is not None and order.op == "const" and order.args[0] == end and eqv.equal(n, tm.floordiv(sy("W"), const(8))) is True
    return False


def _equiv_ops(got, want):
    """the same bytes from the same lanes, possibly divided differently"""
    def bs(ops):
        return sorted((a+k, l+k) for a, l, h in ops for k in range(h-l))
    return bs(got) == bs(want)
