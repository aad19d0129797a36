"""Matching of responses to operations by ID (C18)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .loops import *


def same(a, b):
    """the same value apart from when attributes and containers were read"""
    return a is b or _unver(norm(a)) is _unver(norm(b))


def _unver(t):
    def f(x):
        if x.op == "sub" and len(x.args) > 2:
            return T("sub", _unver(x.args[0]), _unver(x.args[1]))
        if x.op == "in" and len(x.args) > 2:
            return T("in", _unver(x.args[0]), _unver(x.args[1]))
        return None
    return tm.subst(t, f)


PUT = ("put_nowait", "append")
GET = ("get", "get_nowait", "popleft", "pop")


class Ctxs:
    """names used by the per-ID contexts and their manager"""

    def __init__(self, an):
        self.an = an
        self.c = an.cls("TagContext")
        self.m = an.cls("TagContextManager")
        self.me = T("self", self.c.name)
        self.mg = T("self", self.m.name)
        self.putm = {}
        self.maps = set()
        for n in ("start_cmd", "put_resp"):
            f = an.method(self.m, n)
            q = set()
            for p in finals(an.walk(self.m, f)):
                for e in self.puts(p):
                    q.add(e.recv.args[1])
                for e in p.events:
                    if e.kind == "setitem" and is_self_attr(e.recv):
                        self.maps.add(e.recv.args[1])
                for t, v, _ in p.order:
                    for x in tm.subterms(t):
                        if x.op == "in" and is_self_attr(x.args[1]):
                            self.maps.add(x.args[1].args[1])
            self.putm[n] = q
        if len(self.maps) != 1 or any(len(q) != 1 for q in self.putm.values()):
            raise AnalysisError("queues or mapping of the per-ID contexts not recognised")
        self.mapping = next(iter(self.maps))
        self.cmdq = next(iter(self.putm["start_cmd"]))
        self.respq = next(iter(self.putm["put_resp"]))
        # the method that retires a context: called on the manager by the context, with the context itself
        self.idle = None
        for n, f in self.c.methods.items():
            for p in an.walk(self.c, f):
                for e in p.events:
                    if e.kind == "call" and e.name in self.m.methods and len(e.args) == 1 and e.args[0].op == "self":
                        self.idle = self.m.methods[e.name]
        # the method that hands a command on: an attribute set from the constructor
        ini = self.m.find("__init__")
        self.process = None
        for p in finals(an.walk(self.m, ini)):
            for s in p.sets():
                if s.recv.op == "self" and s.value.op == "param":
                    self.process = s.name

    def puts(self, p):
        return [e for e in p.events if e.kind == "call" and e.name in PUT and e.recv is not None and e.recv.op in ("attr", "mattr") and e.recv.args[0].op != "self"
                and e.recv.args[0].op != "param"]


@prop("C18")
def contexts(an, rep):
    rep.rule("map", "a command or response for an ID goes to the context of that ID, a fresh or idle context being started and bound to the ID first; never two contexts for an ID or two IDs for a context")
    rep.rule("order", "a context handles its commands one after another in the order submitted, each with responses taken from the front of its response queue")
    rep.rule("idle", "a context is released only when neither a command nor a response is left for it, and then exactly once")
    rep.rule("flush", "reset hands back the command in progress and every queued command of every context exactly once, stops its processing and drops its responses")
    k = Ctxs(an)
    rep.check("map", f"{k.c.name}", k.cmdq != k.respq, "commands and responses share a queue")
    for q in (k.cmdq, k.respq):
        ec = {v.args[0] for v in an.walker().init_alts(k.c).get(q, ()) if v is not None and v.op == "new"}
        rep.check("order", f"{k.c.name}.{q}", bool(ec) and ec <= {"Queue", "deque"} or (None if not ec else False), f"the queue is not first-in first-out ({sorted(ec)})")
    _map(an, rep, k)
    _worker(an, rep, k)
    _retire(an, rep, k)
    _flush(an, rep, k)


def _map(an, rep, k):
    for n in ("start_cmd", "put_resp"):
        f = an.method(k.m, n)
        w = an.where(f)
        tag = T("param", f.qual, f.node.args.args[1].arg)
        item = T("param", f.qual, f.node.args.args[2].arg)
        M = T("attr", k.mg, k.mapping)
        for p in finals(an.walk(k.m, f)):
            pu = k.puts(p)
            if len(pu) != 1:
                rep.bad("map", w, f"the item is handed to a context {len(pu)} times")
                continue
            e = pu[0]
            rep.check("map", w, e.args[:1] == (item,), "another item is handed to the context")
            X = e.recv.args[0]
            hit = None
            for t, v, _ in p.order:
                u = _unver(norm(t))
                if u.op == "in" and u.args[0] is tag and u.args[1] is M:
                    hit = v
                if u.op == "isnone" and u.args[0].op == "meth" and u.args[0].args[1] == "get" and u.args[0].args[0] is M:
                    hit = not v
                if u.op == "truthy" and u.args[0].op == "meth" and u.args[0].args[1] == "get" and u.args[0].args[0] is M:
                    hit = v
            if any(x.kind == "except" for x in p.events):
                hit = False if hit is None else hit
            st = [x for x in p.events if x.kind == "setitem" and is_self_attr(x.recv, k.mapping)]
            pops = [x for x in p.events if x.kind == "call" and x.name in ("pop", "popleft") and x.recv is not None and is_self_attr(x.recv) and x.recv.args[1] != k.mapping]
            Xn = _unver(norm(X))
            looked = Xn.op == "sub" and Xn.args[0] is M and Xn.args[1] is tag or \
                Xn.op == "meth" and Xn.args[1] == "get" and Xn.args[0] is M and Xn.args[2] and Xn.args[2][0] is tag
            if hit is True or looked and not st:
                rep.check("map", w, looked, "an ID in use is given another context")
                rep.check("map", w, not st and not pops, "an ID in use is bound again")
                rep.check("map", w, hit is True or (None if hit is None else False), "the context of an ID without one is used")
                continue
            if hit is None:
                seen = any(tm.contains(_unver(norm(t)), M) for t, v, _ in p.order)
                rep.check("map", w, None if seen or not st else False, "an ID is bound to a context although it may have one")
                continue
            ok = len(st) == 1 and st[0].name is tag and (st[0].value is X or looked)
            rep.check("map", w, ok, "a context is used that is not bound to the ID")
            if not ok:
                continue
            X = st[0].value
            ct = [x for x in p.sets("current_tag") if x.recv is X]
            rep.check("map", w, bool(ct) and ct[-1].value is tag, "the context does not know its ID")
            if X.op == "new":
                ap = [x for x in p.events if x.kind == "call" and x.name == "append" and is_self_attr(x.recv) and x.args and x.args[0] is X]
                rep.check("map", w, len(ap) >= 1, "a new context is not listed for reset")
                rep.check("map", w, not pops, "an idle context is lost")
            else:
                rep.check("map", w, any(x.result is X for x in pops), "a context is bound that may still belong to another ID")
            started = any(x.kind == "call" and x.recv is X and x is not e and x.name not in ("append",) for x in p.events) or \
                any(an.is_start(x) for x in p.events) or any(t.op == "isnone" and v is False and attr_name(t.args[0]) and t.args[0].args[0] is X for t, v, _ in p.order)
            rep.check("map", w, started, "the context does not process its commands")


def _worker_func(an, k):
    for n, f in k.c.methods.items():
        for p in an.walk(k.c, f):
            for e in p.events:
                if an.is_start(e):
                    return an.coro_func(e.args[0])
    raise AnalysisError("coroutine of the per-ID contexts not found")


def _worker(an, rep, k):
    f = _worker_func(an, k)
    w = an.where(f)
    ps = an.walk(k.c, f)
    n = 0
    for p in ps:
        if p.kind in ("return", "fall"):
            rep.bad("order", w, "processing of the commands ends")
        if p.kind != "backedge":
            continue
        gets = [e for e in p.events if e.kind == "call" and e.name in GET and attr_name(e.recv) == k.cmdq]
        pr = [e for e in p.events if e.kind == "call" and e.name == k.process]
        if not gets and not pr:
            continue
        n += 1
        if len(gets) != 1 or len(pr) != 1:
            rep.bad("order", w, f"{len(gets)} commands are taken and {len(pr)} processed in one round")
            continue
        g, e = gets[0], pr[0]
        rep.check("order", w, g.name in ("get", "get_nowait", "popleft") or g.args == (ZERO,), "commands are not taken from the front")
        rep.check("order", w, len(e.args) >= 2 and e.args[0].op == "self" and e.args[1] is g.result, "another command is processed than the one taken")
        ev = p.events
        i = ev.index(e)
        rep.check("order", w, bool(e.awaited) or any(x.kind == "await" and x.value is e.result for x in ev[i:]), "the next command is started before this one is done")
        cur = [x for x in p.sets() if x.recv.op == "self" and x.value is g.result]
        ok = any(ev.index(x) < i and not any(y.kind == "await" for y in ev[ev.index(x):i]) for x in cur)
        rep.check("flush", w, ok, "the command in progress is not recorded while it is processed")
        after = [x for x in p.sets() if cur and x.name == cur[0].name and x.value is NONE and ev.index(x) > i]
        rep.check("flush", w, bool(after) or not cur, "a finished command is still recorded as in progress")
        if k.idle is None:
            continue
        for x in [x for x in ev if x.kind == "call" and x.name == k.idle.name]:
            ix = ev.index(x)
            early = ix < i or any(y.kind == "await" for y in ev[i+2:ix])
            em = {}
            order = p.order[:x.nlits] if isinstance(x.nlits, int) else p.order
            L = p.lits
            for t, v, _ in order:
                for y in tm.subterms(t):
                    if y.op == "call" and y.args[0] == "qsize":
                        q = y.args[1]
                        q = q[0] if isinstance(q, tuple) else q
                        if attr_name(q) in (k.cmdq, k.respq):
                            if entails(L, T("truthy", y), False) and any(z is t for z, _, _ in order):
                                em[attr_name(q)] = True
            rep.check("idle", w, not early, "a context is released while a command is in progress")
            rep.check("idle", w, em.get(k.cmdq) is True, "a context is released although commands are queued")
            rep.check("idle", w, em.get(k.respq) is True, "a context is released although responses are queued")
            rep.check("idle", w, x.args and x.args[0].op == "self" or False, "another context is released")
    rep.check("order", w, True if n else None, "processing of the commands not recognised")
    # responses
    for n, g in k.c.methods.items():
        for p in finals(an.walk(k.c, g)):
            gets = [e for e in p.events if e.kind == "call" and e.name in GET and attr_name(e.recv) == k.respq and not e.loops]
            if gets and p.value is not NONE and p.value is not None and n.startswith("get"):
                rep.check("order", an.where(g), len(gets) == 1 and p.value is gets[0].result and gets[0].name != "pop", "a response is lost, or not taken from the front of the queue")


def _retire(an, rep, k):
    if k.idle is None:
        rep.unk("idle", k.m.name, "release of contexts not recognised")
        return
    f = k.idle
    w = an.where(f)
    M = T("attr", k.mg, k.mapping)
    cx = T("param", f.qual, f.node.args.args[1].arg)
    for p in finals(an.walk(k.m, f)):
        dl = [e for e in p.events if is_self_attr(e.recv, k.mapping) and (e.kind == "delitem" or e.kind == "call" and e.name == "pop")]
        ap = [e for e in p.events if e.kind == "call" and e.name in ("append", "appendleft", "insert", "put_nowait") and is_self_attr(e.recv)]
        rep.check("idle", w, len(dl) <= 1 and len(ap) <= 1, "a context is released more than once")
        for e in dl:
            key = e.name if e.kind == "delitem" else e.args[0]
            kk = _unver(norm(key)) if isinstance(key, tm.Term) else None
            rep.check("idle", w, kk is not None and kk is T("attr", cx, "current_tag"), "the binding of another ID is removed")
            if e.kind == "call" and len(e.args) > 1 and ap:
                r = p.lits.truth(tm.isnone(e.result))
                rep.check("idle", w, r is False or any(u.op == "in" and v for u, v in [(t, v) for t, v, _ in p.order]) or (None if r is None else False), "a context without an ID is released again")
        for e in ap:
            rep.check("idle", w, bool(dl), "a context is made available although it is still bound to an ID or already available")
            rep.check("idle", w, any(a is cx for a in e.args), "another context is made available")


def _flush(an, rep, k):
    f = an.method(k.m, "flush")
    w = an.where(f)
    ps = an.walk(k.m, f)
    cf = None
    n = 0
    lists = {e.recv.args[1] for m in ("start_cmd", "put_resp") for p in finals(an.walk(k.m, an.method(k.m, m))) for e in p.events
             if e.kind == "call" and e.name == "append" and is_self_attr(e.recv) and e.args and e.args[0].op == "new"}
    def shared(t):
        return t is not None and attr_name(norm(t)) in lists

    def old(p, e):
        """the list the commands are collected in keeps what it had"""
        return all(tm.contains(v, T("mu", p.end[1], kk)) for kk, v in (p.end[2] or {}).items() if tm.contains(v, e.result))
    for p in ps:
        if p.kind != "backedge":
            continue
        L = p.end[1]
        it = p.linit[L].get("#iter")
        cs = [e for e in p.events if e.kind == "call" and e.loops and e.name in k.c.methods]
        inner = [e for e in cs if it is e.result]
        if inner:
            # the commands of one context one by one
            ap = [e for e in p.events if e.kind == "call" and e.name == "append" and e.loops and e.args and e.args[0] is T("sub", it, T("mu", L, "#"))]
            rep.check("flush", w, len(ap) == 1, "a command flushed is not handed back exactly once")
            for q in finals(ps):
                rep.check("flush", w, not ap or q.value is ap[0].recv, "the commands flushed are not returned")
            cf = inner[0].name
            continue
        if it is None or len(cs) != 1:
            if len(cs) == 0 and shared(it):
                rep.bad("flush", w, "a context is not flushed")
            continue
        n += 1
        rep.check("flush", w, shared(it), "not every context is flushed")
        cf = cs[0].name
        ex = [e for e in p.events if e.kind == "call" and e.loops and e.name in ("extend",) and e.args and e.args[0] is cs[0].result]
        st = [v for v in (p.end[2] or {}).values() if tm.contains(v, cs[0].result)]
        nested = any(l2 != L and p.linit[l2].get("#iter") is cs[0].result for l2 in p.linit)
        rep.check("flush", w, nested or len(ex)+len(st) == 1 and old(p, cs[0]), "the commands of a context are not handed back exactly once")
        for q in finals(ps):
            rep.check("flush", w, not ex or q.value is ex[0].recv or (q.value is not None and tm.contains(q.value, ex[0].recv)), "the commands flushed are not returned")
    if not n:
        # a comprehension over all contexts
        for q in finals(ps):
            v = q.value
            if v is not None and v.op == "comp" and v.args[2] and attr_name(norm(v.args[2][0][0])) in lists:
                n += 1
                for t in tm.subterms(v):
                    if t.op == "meth" and t.args[1] in k.c.methods:
                        cf = t.args[1]
    if not n:
        rep.unk("flush", w, "loop over the contexts not recognised")
    if cf is None:
        cf = "_flush"
    g = an.method(k.c, cf)
    w = an.where(g)
    wf = _worker_func(an, k)
    cur = None
    task = None
    for p in an.walk(k.c, wf):
        for e in p.sets():
            if e.recv.op == "self" and e.value.op == "call" or e.recv.op == "self" and e.value.op == "meth":
                cur = cur or (e.name if any(y.result is e.value and attr_name(y.recv) == k.cmdq for y in p.events if y.kind == "call") else None)
    for m, h in k.c.methods.items():
        for p in an.walk(k.c, h):
            for e in p.events:
                if an.is_start(e):
                    for s in p.sets():
                        if s.value is e.result:
                            task = s.name
    ps = an.walk(k.c, g)
    if cur is None:
        rep.unk("flush", w, "command in progress not recognised")
    for p in ps:
        if p.kind == "backedge":
            gs = [e for e in p.events if e.kind == "call" and e.loops and e.name in ("get_nowait", "popleft", "pop") and e.loops[-1] == p.end[1]]
            for e in gs:
                if attr_name(e.recv) == k.cmdq:
                    ap = [x for x in p.events if x.kind == "call" and x.loops and x.name == "append" and x.args and x.args[0] is e.result]
                    rep.check("flush", w, len(ap) == 1, "a queued command is dropped by reset")
            continue
        if p.kind not in ("return", "fall"):
            continue
        # queues empty on return
        for q, txt in ((k.cmdq, "commands"), (k.respq, "responses")):
            em = False
            gone = any(e.kind == "call" and e.name == "clear" and attr_name(e.recv) == q for e in p.events) or any(s.name == q for s in p.sets())
            for t, v, _ in p.order:
                for y in tm.subterms(t):
                    if y.op == "call" and y.args[0] == "qsize":
                        z = y.args[1][0] if isinstance(y.args[1], tuple) else y.args[1]
                        if attr_name(z) == q and entails(p.lits, T("truthy", y), False):
                            em = True
            if any(e.kind == "except" for e in p.events):
                em = em or None
            rep.check("flush", w, em if em or em is None else (gone and q == k.respq), f"{txt} of before the reset stay queued")
        if cur is not None:
            ct = None
            for t, v, _ in p.order:
                u = norm(t)
                if u.op in ("isnone", "truthy") and u.args[0] is T("attr", k.me, cur):
                    ct = v if u.op == "isnone" else not v
            ret = [e for e in p.events if e.kind == "call" and e.name in ("append", "extend") and p.value is not None and e.recv is p.value and not e.loops and
                   any(tm.contains(norm(a), T("attr", k.me, cur)) for a in e.args)]
            if ct is None:
                any_ = any(tm.contains(norm(a), T("attr", k.me, cur)) for e in p.events for a in (e.args or ()))
                rep.check("flush", w, None if any_ else False, "the command in progress is dropped by reset")
            elif ct:
                rep.check("flush", w, not ret, "no command is in progress, but one is handed back")
            else:
                rep.check("flush", w, len(ret) == 1 or (None if p.value is None or p.value.op != "new" else False), "the command in progress is dropped by reset")
                cl = [s for s in p.sets(cur) if s.recv.op == "self" and s.value is NONE]
                rep.check("flush", w, bool(cl), "the command in progress is handed back again by the next reset")
        if task is not None:
            tt = None
            for t, v, _ in p.order:
                u = norm(t)
                if u.op in ("isnone", "truthy") and u.args[0] is T("attr", k.me, task):
                    tt = v if u.op == "isnone" else not v
            kl = [e for e in p.events if e.kind == "call" and e.name in ("kill", "cancel") and e.recv is not None and norm(e.recv) is T("attr", k.me, task)]
            if tt is False:
                rep.check("flush", w, len(kl) == 1, "processing goes on during reset")
                rep.check("flush", w, any(s.value is NONE for s in p.sets(task)), "processing is not started again after reset")
            elif tt is None:
                rep.check("flush", w, True if kl else False, "processing goes on during reset")
        if k.idle is not None:
            rep.check("flush", w, any(e.kind == "call" and e.name == k.idle.name for e in p.events), "the context stays bound to its ID after reset")


# ------------------------------------------------------------------ use by the masters

@prop("C18")
def counting(an, rep):
    rep.rule("issue", "for each burst issued the outstanding count of its ID is raised once, before the request is sent, and its operation is queued under that same ID")
    rep.rule("accept", "each response is handed to the context of the ID it carries (0 without one), once")
    rep.rule("retire", "for each burst completed the outstanding count of the context's ID is lowered once; responses are only taken through the context")
    rep.rule("reset", "reset clears the outstanding counts together with the contexts")
    mgr = an.cls("TagContextManager")
    k = Ctxs(an)
    found = 0
    for c in an.pkg.classes.values():
        ini = c.find("__init__")
        if ini is None or ini.cls is not c:
            continue
        at = None
        proc = None
        for p in finals(an.walk(c, ini)):
            for e in p.events:
                if e.kind == "new" and e.result.args[0] == mgr.name or e.kind == "call" and e.result is not None and e.result.op == "new" and e.result.args[0] == mgr.name:
                    for s in p.sets():
                        if s.value is e.result and s.recv.op == "self":
                            at = s.name
                            if e.args and e.args[0].op == "fn" and isinstance(e.args[0].args[0], str):
                                proc = e.args[0].args[0].split(":")[1].split(".")[-1]
        if at is None:
            continue
        found += 1
        _master(an, rep, c, at, proc, k)
    rep.check("issue", "AXI masters", True if found else None, "no master with per-ID contexts found")


def counter_sets(p):
    """[(event, counter attr, key, change)] of changes of a counter held by self"""
    out = []
    for e in p.events:
        if e.kind == "setitem" and e.recv is not None and is_self_attr(e.recv) and isinstance(e.name, tm.Term) and e.name.op != "sl" and e.value is not None:
            cv, m = tm.lin_of(e.value)
            own = [x for x in m if x.op == "sub" and same(x.args[0], e.recv) and same(x.args[1], e.name) and m[x] == 1]
            if own and len(m) == 1:
                out.append((e, e.recv.args[1], e.name, cv))
    return out


def _master(an, rep, c, at, proc, k):
    ini = c.find("__init__")
    counters = set()
    workers = an.workers(c)
    issue = []
    for f, _ in workers:
        ps = an.walk(c, f, noinline=("start_cmd", "put_resp", "flush"))
        w = an.where(f)+f" [{c.name}]"
        starts = [(p, e) for p in ps for e in p.events if e.kind == "call" and e.name == "start_cmd" and attr_name(e.recv) == at]
        puts = [(p, e) for p in ps for e in p.events if e.kind == "call" and e.name == "put_resp" and attr_name(e.recv) == at]
        if puts:
            _accepts(an, rep, c, at, f, ps, w)
        if not starts:
            continue
        # requests sent: transactions with an ID field
        sends = {}
        for p in ps:
            if p.kind not in ("backedge", "return", "fall"):
                continue
            for e in p.events:
                if e.kind == "call" and e.name in ("send", "send_nowait") and e.args and e.args[0].op == "new":
                    ids = [s for s in p.sets() if s.recv is e.args[0] and s.name in ("awid", "arid")]
                    if ids or any(s.recv is e.args[0] and s.name in ("awaddr", "araddr") for s in p.sets()):
                        sends.setdefault(p, []).append((e, ids[-1].value if ids else None))
        if not sends:
            rep.unk("issue", w, "requests sent not recognised")
            continue
        for p, xs in sends.items():
            cs = counter_sets(p)
            inner = p.kind == "backedge" and len([e for e in xs[0][0].loops]) > 0
            for e, X in xs:
                if X is None:
                    rep.bad("issue", w, "a request is sent without an ID")
                    continue
                ups = [(y, n, kk, d) for y, n, kk, d in cs if kk is X]
                near = [y for y in ups if y[0].loops == e.loops]
                if not near:
                    rep.bad("issue", w, "a request is sent without raising the outstanding count of its ID")
                    continue
                rep.check("issue", w, len(near) == 1 and near[0][3] == 1, "the outstanding count is not raised by exactly one per request")
                counters.add(near[0][1])
                ev = p.events
                rep.check("issue", w, ev.index(near[0][0]) < ev.index(e) or not any(y.kind == "await" for y in ev[ev.index(e):ev.index(near[0][0])]),
                          "the outstanding count is raised after the request was sent")
            other = [y for y in cs if counters and y[1] in counters and not any(y[2] is X for _, X in xs)]
            rep.check("issue", w, not other, "the outstanding count of another ID is changed")
        for p, e in starts:
            if p.kind not in ("backedge", "return", "fall"):
                continue
            n = [x for x in p.events if x.kind == "call" and x.name == "start_cmd" and attr_name(x.recv) == at]
            rep.check("issue", w, len(n) == 1, "an operation is queued more than once")
            tag = e.args[0] if e.args else e.arg(0, "tag")
            ok = None
            for q, xs in sends.items():
                if possible(p.lits, [(t, v) for t, v, _ in q.order if not any(y.op in ("mu", "mattr", "attr") and y.op == "mu" for y in tm.subterms(t))]):
                    for _, X in xs:
                        if X is None:
                            continue
                        ok = (ok is not False) and same(X, tag)
            rep.check("issue", w, ok, "the operation is queued under another ID than its requests carry")
    # completion
    if proc is None:
        rep.unk("retire", c.name, "processing of the responses not recognised")
    else:
        _retires(an, rep, c, an.method(c, proc), counters)
    # reset
    g = an.method(c, an.reset_hook())
    w = an.where(g)+f" [{c.name}]"
    for p in an.hook_paths(c, True):
        fl = [e for e in p.events if e.kind == "call" and e.name == "flush" and attr_name(e.recv) == at]
        rep.check("reset", w, len(fl) == 1, f"the contexts are flushed {len(fl)} times on reset")
        for n in counters:
            cl = [s for s in p.sets(n) if s.recv.op == "self" and s.value.op in ("new", "dict", "call", "list", "comp", "rep")] + \
                [e for e in p.events if e.kind == "call" and e.name == "clear" and attr_name(e.recv) == n]
            rep.check("reset", w, bool(cl), "the outstanding counts survive the reset")


def _accepts(an, rep, c, at, f, ps, w):
    for p in ps:
        if p.kind in ("return", "fall"):
            rep.bad("accept", w, "handling of the responses ends")
        if p.kind != "backedge":
            continue
        rc = [e for e in p.events if e.kind == "call" and e.name in ("recv", "recv_nowait")]
        pu = [e for e in p.events if e.kind == "call" and e.name == "put_resp" and attr_name(e.recv) == at]
        if len(rc) != 1:
            rep.unk("accept", w, "response received not recognised")
            continue
        rep.check("accept", w, len(pu) == 1, f"a response is handed on {len(pu)} times")
        if len(pu) != 1:
            continue
        e = pu[0]
        r = rc[0].result
        tag, item = e.arg(0, "tag"), e.arg(1, "resp")
        rep.check("accept", w, item is r, "another response is handed on than the one received")
        t = tag
        while t.op == "call" and t.args[0] == "int":
            t = t.args[1][0]
        ok = None
        if t.op == "getattr" and t.args[0] is r:
            nm = t.args[1]
            nm = nm.args[0] if isinstance(nm, tm.Term) else nm
            ok = nm in ("bid", "rid") and (len(t.args) < 3 or t.args[2] is ZERO)
        elif t.op in ("attr", "mattr") and t.args[0] is r:
            ok = t.args[1] in ("bid", "rid")
        elif t.op == "ite":
            ok = None
        elif t is ZERO:
            ok = None if any(x.op == "hasattr" for y, v, _ in p.order for x in tm.subterms(y)) else False
        else:
            ok = False if not tm.contains(t, r) or t.op in ("lin", "band", "mod", "floordiv", "shr", "bor", "mul") else None
        rep.check("accept", w, ok, "a response is handed to the context of another ID than it carries")


def _retires(an, rep, c, f, counters):
    w = an.where(f)+f" [{c.name}]"
    cx = T("param", f.qual, f.node.args.args[1].arg)
    cmd = T("param", f.qual, f.node.args.args[2].arg)
    want = T("attr", cx, "current_tag")
    ps = an.walk(c, f)
    n = 0
    bl = T("attr", cmd, "burst_list")
    def per_burst(d):
        it, hi = norm(d.get("#iter") or NONE), d.get("#hi")
        if it.op == "call" and it.args[0] == "enumerate":
            it = norm(it.args[1][0])
        return it is bl or hi is not None and d.get("#") is ZERO and d.get("#step") is ONE and norm(hi) is norm(T("call", "len", (bl,), (), 0))
    bursts = {p.end[1] for p in ps if p.kind == "backedge" and per_burst(p.linit[p.end[1]])}
    for p in ps:
        for e in p.events:
            if e.kind == "call" and e.name in ("recv", "recv_nowait"):
                rep.bad("retire", w, "a response is taken past the contexts")
    for p in ps:
        if p.kind == "backedge" and p.end[1] in bursts:
            cs = [x for x in counter_sets(p) if x[0].loops and x[0].loops[-1] == p.end[1]]
            allc = counter_sets(p)
            n += 1
            if any(e.kind == "call" and e.name in ("subtract", "update") for e in p.events):
                rep.unk("retire", w, "change of the outstanding count not recognised")
                continue
            rep.check("retire", w, len(cs) == 1 and cs[0][3] == -1, "the outstanding count is not lowered by exactly one per burst")
            rep.check("retire", w, len(allc) == len(cs), "the outstanding count is changed within a burst")
            for y in cs:
                rep.check("retire", w, norm(y[2]) is want, "the outstanding count of another ID is lowered")
                rep.check("retire", w, not counters or y[1] in counters, "another count is lowered than was raised")
        elif p.kind == "backedge":
            own = [x for x in counter_sets(p) if x[0].loops and x[0].loops[-1] == p.end[1]]
            rep.check("retire", w, not own or (None if not bursts else False), "the outstanding count is lowered more than once per burst")
        elif p.kind in ("return", "fall"):
            out = [x for x in counter_sets(p) if not x[0].loops]
            rep.check("retire", w, not out, "the outstanding count is lowered outside the loop over the bursts")
    if not n:
        rep.unk("retire", w, "loop over the bursts not recognised")
    for p in ps:
        if p.kind == "raise":
            continue
        for e in p.events:
            if e.kind == "call" and e.name in ("get_resp", "get_resp_nowait"):
                rep.check("retire", w, e.recv is cx, "a response of another context is taken")
