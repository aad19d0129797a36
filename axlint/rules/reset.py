"""C04: effective reset.  C03: what a reset stops, flushes and restarts."""

from . import prop, assume
from ..core import *

RST_PARAMS = ("reset", "reset_active_level")


class WrongRequest(AnalysisError):
    pass


def _reset_attrs(an):
    """(local, external, state) attributes of class Reset, by how assert_reset / the edge watcher use them"""
    c = an.cls("Reset")
    hook = an.reset_hook()
    ps = an.walk(c, "assert_reset", noinline=(hook,))
    val = T("param", "Reset.assert_reset", "val")
    local = set()
    for p in ps:
        if p.holds(tm.isnone(val), False):
            for s in p.sets():
                if s.recv.op == "self" and tm.truthy(s.value) is tm.truthy(val):
                    local.add(s.name)
    if not local:
        for p in ps:
            if p.holds(tm.isnone(val), False):
                for x in p.sets():
                    if x.recv.op == "self" and tm.contains(x.value, val):
                        raise WrongRequest(f"{x.where} Reset.assert_reset", "the level requested locally is not recorded as it was given")
        raise AnalysisError("assert_reset(value) does not record the value")
    return sorted(local), hook


def _watchers(an):
    """coroutines started by the reset initialisation, with the path that starts them"""
    out = []
    c = an.cls("Reset")
    for f in c.methods.values():
        if f.is_async or f.name.startswith("__"):
            continue
        for p in finals(an.walk(c, f, noinline=(an.reset_hook(),))):
            for e in p.events:
                if an.is_start(e):
                    out.append((f, p, e))
    return out


def _check_update(an, rep, rid, p, where, local, hook, start=0, init=None):
    """on path p (events from index start) the hook is called exactly when local|ext changes the state"""
    so = None
    env = {}
    state = None
    hookev = [e for e in p.events[start:] if e.kind == "call" and e.name == hook and e.recv is not None and e.recv.op == "self"]
    sets = [e for e in p.events[start:] if e.kind == "set" and e.recv.op == "self"]
    return hookev, sets


@prop("C04")
def effective_level(an, rep):
    rid = "level"
    rep.rule(rid, "after every change of the local or external request, the component is told new = (local or external) exactly when it differs "
                  "from the remembered state, which is updated")
    c = an.cls("Reset")
    try:
        local, hook = _reset_attrs(an)
    except WrongRequest as e:
        rep.bad(rid, *e.args)
        return
    local = local[0]
    so = T("self", "Reset")
    # external attribute and state attribute: the watcher sets ext; the state attribute is what is compared
    watch = _watchers(an)
    if not watch:
        rep.bad(rid, an.where(c.find("_init_reset") or c.find("assert_reset")), "no coroutine watches the reset signal")
        return
    wf = an.coro_func(watch[0][2].args[0])
    wps = an.walk(c, wf, noinline=(hook,))
    known = {local}
    allset = set()
    for p in wps:
        for s in p.sets():
            if s.recv.op == "self":
                allset.add(s.name)
    # the state attribute is the one whose stored value is also passed to the hook
    state = None
    for p in list(wps)+an.walk(c, "assert_reset", noinline=(hook,)):
        for h in p.calls(hook):
            cand = {s.name for s in p.sets() if s.recv.op == "self" and s.value is h.args[-1] and s.name != local}
            state = cand if state is None else state & cand
    state = state or set()
    ext = allset-state-{local}
    if len(state) != 1 or len(ext) != 1:
        # the state may never be recorded: that is a violation when a hook call exists without it
        if not state:
            rep.bad(rid, an.where(wf), "the reset state passed to the component is not remembered")
            return
        rep.unk(rid, an.where(wf), "reset state attributes not recognised")
        return
    state, ext = state.pop(), ext.pop()

    def cur(p, name, upto):
        """value of the attribute before event index upto, and as seen at the end"""
        v = None
        for e in p.events[:upto]:
            if e.kind == "set" and e.recv is so and e.name == name:
                v = e.value
        return v

    def read(p, name):
        """term by which the path reads the attribute before any write"""
        for t, v, _ in p.order:
            for x in find_sub(t, lambda x: is_self_attr(x, name)):
                return x
        for e in p.events:
            for v in (e.value,)+tuple(e.args):
                if isinstance(v, tm.Term):
                    for x in find_sub(v, lambda x: is_self_attr(x, name)):
                        return x
        return None

    def verify(p, f, what):
        # skip paths that end in an exception, or that change neither request
        trig = [i for i, e in enumerate(p.events) if e.kind == "set" and e.recv is so and e.name in (local, ext)]
        if not trig:
            for e in p.calls(hook):
                rep.bad(rid, f"{e.where} {f.qual}", "the component is told about a reset change that did not happen")
            return
        i = trig[-1]
        isb = lambda x: is_self_attr(x) and x.args[1] in (local, ext, state)
        isb2 = lambda x: isb(x) or (x.op == "param" and x.args[0] == wf.qual)
        lits = boolify(p.lits, isb2)
        lv = cur(p, local, len(p.events)) or read(p, local) or T("mattr", so, local, -1)
        evv = cur(p, ext, len(p.events)) or read(p, ext) or T("mattr", so, ext, -1)
        new = boolterm(tm.or_(lv, evv), isb2)
        old = read(p, state)
        if cur(p, state, i) is not None:
            old = cur(p, state, i)
        where = f"{p.events[i].where} {f.qual}"
        hooks = [e for e in p.events[i:] if e.kind == "call" and e.name == hook]
        if old is None:
            # never compared with the remembered state
            rep.bad(rid, where, "the remembered reset state is not consulted, so the component may be told twice or not at all")
            return
        if hooks:
            h = hooks[0]
            rep.check(rid, where, len(hooks) == 1 and not [e for e in p.events[:i] if e.kind == "call" and e.name == hook],
                      "one change is reported more than once")
            rep.check(rid, where, equal_under(lits, tm.truthy(boolterm(h.args[-1], isb2)), new), f"the level reported is not (local or external): {h.args[-1]}")
            ns = [s for s in p.events if s.kind == "set" and s.recv is so and s.name == state]
            rep.check(rid, where, bool(ns) and equal_under(lits, tm.truthy(boolterm(ns[-1].value, isb2)), new) and ns[-1].idx < h.idx,
                      "the reported state is not remembered before the component is told")
            same = tm.eq(tm.truthy(old), new)
            rep.check(rid, where, not possible(lits, [(new, True), (tm.truthy(old), True)]) and
                      not possible(lits, [(new, False), (tm.truthy(old), False)]), "an unchanged state is reported as a change")
        else:
            bad = possible(lits, [(new, True), (tm.truthy(old), False)]) or possible(lits, [(new, False), (tm.truthy(old), True)])
            rep.check(rid, where, not bad, "a change of the effective reset is not reported to the component")
            ns = [s for s in p.events if s.kind == "set" and s.recv is so and s.name == state]
            for s in ns:
                rep.check(rid, where, equal_under(lits, tm.truthy(boolterm(s.value, isb2)), tm.truthy(old)), "the remembered state changes without telling the component")

    af = c.find("assert_reset")
    val = T("param", "Reset.assert_reset", "val")
    for p in finals(an.walk(c, af, noinline=(hook,))):
        if p.holds(tm.isnone(val), False):
            verify(p, af, "assert_reset")
            for s in p.sets(ext):
                rep.bad(rid, f"{s.where} {af.qual}", "assert_reset changes the external request")
            last = [s for s in p.sets(local)]
            rep.check(rid, an.where(af), bool(last) and equal_under(p.lits, tm.truthy(last[-1].value), tm.truthy(val)), "assert_reset does not record the requested level")
        else:
            pulse = [e.args[0] if e.args else None for e in p.calls("assert_reset")]
            seq = [TRUE if tm.truthy(x) is TRUE else FALSE for x in pulse if x is not None]
            if not seq:
                seq = [tm.truthy(s.value) for s in p.sets(local)]
            rep.check("pulse", an.where(af), seq == [TRUE, FALSE], "assert_reset() without a value does not assert and then release the local reset")
    rep.rule("pulse", "assert_reset() with no value asserts then releases the local reset")

    # watcher
    rep.rule("watch", "the watcher wakes on every edge of the reset signal, ignores unresolvable values, and otherwise sets external = (level == active level)")
    params = [a.arg for a in wf.node.args.args][1:]
    start = watch[0][2]
    info = Walker.coro_table[start.args[0]]
    sigp = None
    for p in wps:
        for e in p.events:
            if e.kind == "await" and e.recv.op == "call" and e.recv.args[0] in ("Edge", "RisingEdge", "FallingEdge", "First"):
                if e.recv.args[0] == "Edge":
                    sigp = e.recv.args[1][0]
                    rep.ok("watch", f"{e.where} {wf.qual}", "wakes on both edges")
                elif e.recv.args[0] == "First":
                    names = {x.args[0] for x in e.recv.args[1] if x.op == "call"}
                    rep.check("watch", f"{e.where} {wf.qual}", {"RisingEdge", "FallingEdge"} <= names or "Edge" in names, "only one edge of the reset is observed")
                    for x in e.recv.args[1]:
                        if x.op == "call" and x.args[1]:
                            sigp = x.args[1][0]
                else:
                    rep.bad("watch", f"{e.where} {wf.qual}", "only one edge of the reset signal is observed")
                    sigp = e.recv.args[1][0]
    ends = [p for p in wps if p.kind not in ("backedge",) and not (p.kind == "raise" and p.value is not None and p.value.op == "mayraise")]
    for p in ends:
        rep.bad("watch", an.where(wf), "the watcher stops watching the reset signal")
    level = None
    polarity = None
    nset = 0
    for p in wps:
        if p.kind != "backedge":
            continue
        aw = [e for e in p.events if e.kind == "await"]
        rep.check("watch", an.where(wf), bool(aw), "the watcher can iterate without waiting for an edge")
        s = [e for e in p.sets(ext)]
        conv = [e for e in p.events if e.kind == "toint"]
        exc = [e for e in p.events if e.kind == "except"]
        if exc:
            rep.check("watch", an.where(wf), not s and not list(p.calls(hook)) and not list(p.sets(state)), "an unresolvable reset value changes the reset state")
            continue
        if not s:
            if not exc and aw:
                rep.bad("watch", an.where(wf), "an edge of the reset signal is ignored")
            continue
        nset += 1
        rep.check("watch", an.where(wf), any(e.guarded for e in conv) or None if any(e.guarded for e in conv) else False,
                  "an unresolvable reset value is not filtered out")
        vals = {x for t, v, _ in p.order for x in find_sub(t, lambda x: x.op == "val")} | \
               {x for x in find_sub(s[-1].value, lambda x: x.op == "val")}
        if len(vals) != 1:
            rep.unk("watch", an.where(wf), "reset level sample not recognised")
            continue
        v = vals.pop()
        if sigp is not None:
            rep.check("watch", an.where(wf), v.args[0] is sigp, "the level sampled is not that of the watched signal")
        rep.check("watch", an.where(wf), v.args[1] > aw[-1].step, "the level is sampled before the edge")
        # active level: a parameter of the watcher or an attribute
        cand = [T("param", wf.qual, n) for n in params if T("param", wf.qual, n) is not v.args[0]]
        okv = False
        for a in cand:
            want = tm.eq(tm.truthy(v), tm.truthy(a))
            ib = lambda x: x.op == "param" and x.args[0] == wf.qual
            if equal_under(boolify(p.lits, ib), tm.truthy(boolterm(s[-1].value, ib)), boolterm(want, ib)):
                okv = True
                polarity = a
        rep.check("watch", f"{s[-1].where} {wf.qual}", okv if cand else None, f"the external reset is not (level == active level): {s[-1].value}")
        verify(p, wf, "watch")
        for x in p.sets(local):
            rep.bad(rid, f"{x.where} {wf.qual}", "the watcher changes the local request")
    rep.check("watch", an.where(wf), nset > 0, "no path of the watcher updates the external reset")

    # initialisation
    rep.rule("init", "initialisation starts the watcher on the given signal with the given polarity exactly when a signal is given, starts with no request, and "
                     "tells the component that it is out of reset")
    done = set()
    for f, p, e in watch:
        _, (cargs, ckw), _, _, _ = Walker.coro_table[e.args[0]]
        bound = dict(an.walker().bind_params(St(), wf, cargs, ckw))
        fp = {a.arg for a in f.node.args.args}
        if polarity is not None:
            b = bound.get(polarity.args[1])
            pr = [x for x in find_sub(b, lambda x: x.op == "param")] if b is not None else []
            ok = b is not None and len(pr) == 1 and (tm.truthy(b) is tm.truthy(pr[0]))
            dflt = _default(f, pr[0].args[1]) if pr else None
            rep.check("init", f"{e.where} {f.qual}", ok, f"the polarity handed to the watcher is not the one given: {b}")
            if dflt is not None:
                rep.check("init", an.where(f), dflt is True, "the default polarity is not active high")
        if sigp is not None and sigp.op == "param":
            b = bound.get(sigp.args[1])
            rep.check("init", f"{e.where} {f.qual}", b is not None and b.op == "param" and b.args[0] == f.qual, "the watcher does not watch the given signal")
            if b is not None:
                rep.check("init", f"{e.where} {f.qual}", p.holds(tm.isnone(b), False) , "the watcher is started without a reset signal")
                for q in finals(an.walk(c, f, noinline=(hook,))):
                    if not any(an.is_start(x) for x in q.events) and not q.holds(tm.isnone(b), True):
                        rep.bad("init", an.where(f), "a given reset signal is not watched")
        done.add(f)
    for f in done:
        for q in finals(an.walk(c, f, noinline=(hook,))):
            h = list(q.calls(hook))
            rep.check("init", an.where(f), len(h) == 1 and tm.truthy(h[0].args[-1]) is FALSE, "initialisation does not tell the component it is out of reset")
            fin = {s.name: tm.truthy(s.value) for s in q.sets() if s.recv is so}
            rep.check("init", an.where(f), fin.get(local) is FALSE and fin.get(ext) is FALSE and fin.get(state) is FALSE, "the initial request or state is wrong")


def _default(f, name):
    a = f.node.args
    pos = a.posonlyargs+a.args
    d = dict(zip([x.arg for x in pos[len(pos)-len(a.defaults):]], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    if name in d and isinstance(d[name], ast.Constant):
        return d[name].value
    return None


def init_func(c):
    return c.find("__init__")


def param_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs+a.args+a.kwonlyargs]


def configured_classes(an):
    """package classes whose constructor takes a reset and its polarity"""
    out = []
    for c in an.pkg.classes.values():
        f = init_func(c)
        if f is not None and all(x in param_names(f) for x in RST_PARAMS) and c.node is not None:
            out.append(c)
    return out


@prop("C04")
def forwarding(an, rep):
    rep.rule("forward", "every constructor that takes clock, reset and reset_active_level hands exactly those to each sub-component that takes them, and to the "
                        "reset watcher; the default polarity is active high")
    cl = configured_classes(an)
    rep.check("forward", "cocotbext/axi", len(cl) >= 12, "fewer components than expected take a reset")
    watch_f = {f for f, _, _ in _watchers(an)}
    for c in cl:
        f = init_func(c)
        d = _default(f, "reset_active_level")
        rep.check("forward", an.where(f), d is True, "the default polarity is not active high")
        isreset = c.is_sub("Reset")
        for p in finals(an.walk(c, f, noinline=tuple(w.name for w in watch_f))):
            ini = [e for e in p.events if e.kind == "call" and e.recv is not None and e.recv.op == "self" and e.name in {w.name for w in watch_f}]
            pr = {n: T("param", f.qual, n) for n in param_names(f)}
            if isreset:
                rep.check("forward", an.where(f), len(ini) == 1, "the reset watcher is not started exactly once")
                for e in ini:
                    w = next(w for w in watch_f if w.name == e.name)
                    b = an.walker().bind_params(St(), w, [NONE]+list(e.args), dict(e.kwargs))[1:]
                    vals = [v for _, v in b]
                    rep.check("forward", f"{e.where} {c.name}", pr["reset"] in vals and pr["reset_active_level"] in vals and
                              vals.index(pr["reset"]) < vals.index(pr["reset_active_level"]), "the reset or its polarity is not handed on")
            for e in p.events:
                if e.kind != "new":
                    continue
                k = an.pkg.classes.get(e.name)
                kf = init_func(k) if k else None
                if kf is None or "reset_active_level" not in param_names(kf):
                    continue
                b = dict(an.walker().bind_params(St(), kf, [NONE]+list(e.args), dict(e.kwargs)))
                for n in RST_PARAMS+(("clock",) if "clock" in pr else ()):
                    rep.check("forward", f"{e.where} {c.name}", b.get(n) is pr[n], f"{n} is not handed to {e.name} unchanged (it gets {b.get(n)})")
