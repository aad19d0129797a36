"""Received user values (C32), pausing (C33) and frame time stamps (C34)."""

from . import prop, assume
from ..core import *
from .masters import masters, event_field, stage_units, taken, completions, RECV
from .streams import Roles, stream_components, worker_paths, is_clock_wait, outer_backedge, iteration_events, clock_step, queue_gets, queue_puts, qattr, \
    reads_of, pause_attr, _epoch_at, pause_generator
from .slaves import apb_slaves

assume("C32", "a received transaction object carries the values sampled for its own transfer (C06)")
assume("C33", "the pause flag is changed by the test only through the pause property or a pause generator")
assume("C34", "get_sim_time() returns the current simulation time")

MUTATE = ("append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse", "appendleft", "add")


# ------------------------------------------------------------------ C32

def _arms(lits, t):
    """[(literals, value)] of a conditional value"""
    if t.op == "ite":
        out = []
        for v, x in ((True, t.args[1]), (False, t.args[2])):
            L = lits.copy()
            if L.assume(t.args[0], v):
                out += _arms(L, x)
        return out
    if t.op in ("vand", "vor") and len(t.args) == 2:
        out = []
        for v, x in ((t.op == "vand", t.args[1]), (t.op != "vand", t.args[0])):
            L = lits.copy()
            if L.assume(tm.truthy(t.args[0]), v):
                out += _arms(L, x)
        return out
    return [(lits, t)]


def _lits_atoms(lits, p, pred):
    out = []
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if pred(x) and x not in out:
                out.append(x)
    return out


def _list_of(t):
    """the list object behind copies of it"""
    while True:
        if t.op == "call" and t.args[0] in ("list", "tuple") and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == "meth" and t.args[1] == "copy":
            t = t.args[0]
        elif t.op == "slice" and t.args[1] in (NONE, ZERO) and t.args[2] is NONE:
            t = t.args[0]
        else:
            return t


@prop("C32")
def user_values(an, rep):
    rep.rule("each", "every response received for an operation adds exactly its own user value to the list reported, in order of arrival")
    rep.rule("report", "the list is what the caller gets when the signal is connected, and None when it is not")
    n = 0
    for c in masters(an):
        ev = event_field(an, c)
        for f, ps, kind in stage_units(an, c):
            lists = set()
            names = {str(x.args[1].args[0]) if x.op == "getattr" else x.args[1] for p in ps for e in p.calls(RECV) for m in p.events
                     if m.kind == "call" and m.name in MUTATE and m.args for a in m.args for x in tm.subterms(a)
                     if (x.op == "getattr" and x.args[1].op == "const" or x.op in ("attr", "mattr")) and x.args[0] is e.result}
            names = {x for x in names if x.endswith("user")}
            ispres = lambda x: x.op == "hasattr" and x.args[1].op == "const" and \
                (str(x.args[1].args[0]) in names if names else str(x.args[1].args[0]).endswith("user"))
            for p in ps:
                pres = _lits_atoms(p.lits, p, ispres)
                for g, x in taken(p, kind):
                    for e in completions(p, x, ev):
                        a = e.arg(0, "data")
                        if a is None or a.op != "nt" or "user" not in dict(a.args[1]):
                            continue
                        w = f"{e.where} {f.qual} [{c.name}]"
                        v = dict(a.args[1])["user"]
                        more = [y for y in tm.subterms(v) if ispres(y)]
                        for L, y in _arms(p.lits, v):
                            n += 1
                            hs = pres+more
                            y = _list_of(y)
                            if y is NONE:
                                if any(entails(L, h, False) for h in hs):
                                    rep.ok("report", w)
                                elif any(tm.truthy(z) is not None and z.op == "truthy" and z.args[0].op == "new" for z, _, _ in p.order):
                                    rep.unk("report", w, "None is reported depending on the values received")
                                else:
                                    rep.bad("report", w, "no user values are reported although the signal may be connected")
                            elif y.op == "new" and y.args[0] == "list":
                                lists.add(y)
                                rep.check("report", w, bool(hs) and any(entails(L, h) for h in hs), "user values are reported without the signal being connected")
                            elif y.op == "list" and not y.args or y.op == "const":
                                rep.bad("report", w, "a fixed value is reported instead of the user values received")
                            elif y.op == "slice" and y.args[0].op == "new":
                                rep.bad("report", w, "only part of the user values received is reported")
                            elif y.op == "sub" and y.args[0].op == "new":
                                rep.bad("report", w, "a single user value is reported instead of all")
                            elif y.op == "mu" and _restarted(ps, y):
                                rep.bad("each", w, "the list of user values is started anew while responses are still being received")
                            else:
                                rep.unk("report", w, "origin of the user values not recognised")
            if not lists:
                continue
            for p in ps:
                muts = [m for m in p.events if m.kind == "call" and m.recv is not None and m.recv in lists and m.name in MUTATE]
                if p.kind == "backedge":
                    lp = p.end[1]
                    rec = [e for e in p.calls(RECV) if e.loops and e.loops[-1] == lp]
                    mine = [m for m in muts if m.loops and m.loops[-1] == lp]
                    if not rec:
                        for m in mine:
                            n += 1
                            rep.bad("each", f"{m.where} {f.qual} [{c.name}]", "user values are recorded other than once per response received")
                        continue
                    pres = _lits_atoms(p.lits, p, ispres)
                    if any(entails(p.lits, h, False) for h in pres):
                        continue
                    n += 1
                    w = f"{rec[0].where} {f.qual} [{c.name}]"
                    front = [m for m in mine if m.name == "appendleft" or m.name == "insert" and m.args and m.args[0] is ZERO]
                    if front:
                        rep.bad("each", f"{front[0].where} {f.qual} [{c.name}]", "user values are recorded out of order")
                        continue
                    if len(rec) != 1 or any(m.name != "append" and m.name != "extend" for m in mine):
                        rep.unk("each", w, "how user values are recorded is not recognised")
                        continue
                    rep.check("each", w, len(mine) == 1, "a received user value is recorded more than once" if mine else "a received user value is not recorded")
                    for m in mine[:1]:
                        v = m.args[0] if m.args else None
                        if m.name == "extend":
                            v = v.args[0] if v is not None and v.op == "list" and len(v.args) == 1 else None
                        if v is None:
                            rep.unk("each", w, "the value recorded is not recognised")
                            continue
                        if v.op == "ite":
                            for L, y in _arms(p.lits, v):
                                _value(rep, f, c, m, y, rec[0])
                        else:
                            _value(rep, f, c, m, v, rec[0])
                elif p.kind in ("return", "fall"):
                    for m in muts:
                        if not m.loops:
                            n += 1
                            rep.bad("each", f"{m.where} {f.qual} [{c.name}]", "the user values received are altered before they are reported")
    if n < 8:
        raise AnalysisError("reporting of user values not found")


def _restarted(ps, y):
    return any(p.kind == "backedge" and p.end[1] == y.args[0] and p.end[2].get(y.args[1]) is not None and
               (p.end[2][y.args[1]].op == "new" or p.end[2][y.args[1]].op == "mu" and p.end[2][y.args[1]].args[0] != y.args[0] and
                any(q.linit.get(p.end[2][y.args[1]].args[0], {}).get(y.args[1]) is not None and q.linit[p.end[2][y.args[1]].args[0]][y.args[1]].op == "new" for q in ps))
               for p in ps)


def _value(rep, f, c, m, v, rec):
    w = f"{m.where} {f.qual} [{c.name}]"
    v = _strip(v)
    if v.op == "getattr" and v.args[0] is rec.result and v.args[1].op == "const":
        rep.check("each", w, str(v.args[1].args[0]).endswith("user"), "something other than the user signal is recorded")
    elif v.op in ("attr", "mattr") and v.args[0] is rec.result:
        rep.check("each", w, v.args[1].endswith("user"), "something other than the user signal is recorded")
    elif any(x is rec.result for x in tm.subterms(v)):
        rep.bad("each", w, "the user value received is altered")
    elif v.op == "mu" or any(x.op == "mu" for x in tm.subterms(v)):
        rep.bad("each", w, "the value recorded is not the one of the response just received")
    elif v.op in ("const", "enum"):
        rep.bad("each", w, "a fixed value is recorded instead of the user value received")
    else:
        rep.unk("each", w, "the value recorded is not recognised")


def _strip(t):
    while t.op == "call" and t.args[0] in ("int",) and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


# ------------------------------------------------------------------ C33

def pausable(an):
    """components with a pause property that have workers"""
    out = [c for kind, c in stream_components(an) if c.prop("pause")]
    seen = {c.name for c in out}
    for c in masters(an)+[c for c, f, ps in apb_slaves(an)]:
        if c.prop("pause") and c.name not in seen:
            seen.add(c.name)
            out.append(c)
    if len(out) < 4:
        raise AnalysisError("components that can be paused not found")
    return out


def _since(p, e):
    """epoch of the last clock edge before event e"""
    ck = [x for x in p.events if is_clock_wait(x) and x.idx < e.idx]
    t = _epoch_at(p, clock_step(p, ck[-1])) if ck else None
    for x in p.events:
        # earlier passes of a loop around e may have waited, too
        if x.kind == "loop" and x.idx < e.idx and x.name in e.loops:
            t = max(t or 0, x.epoch)
    return t


def _unpaused(p, e, pa, lits=None):
    """the pause flag was found false after the last clock edge before event e: True / False / None (never looked at)"""
    t0 = _since(p, e)
    rds = [x for x in reads_of(p, pa) if x.op == "mattr" and (t0 is None or x.args[2] >= t0) and x.args[2] <= e.epoch]
    if not rds:
        return None
    return any(entails(lits or p.lits, tm.truthy(x), False) for x in rds)


@prop("C33")
def paused(an, rep):
    rep.rule("source", "a source puts a new item (or beat) on the bus only in a cycle in which it found itself not paused")
    rep.rule("sink", "a sink raises ready only if it found itself not paused")
    rep.rule("apb", "the APB master starts a transfer, and the APB slave answers one, only if it found itself not paused since the last clock edge")
    n = 0
    for kind, c in stream_components(an):
        pa = pause_attr(an, c) if c.prop("pause") else None
        if pa is None:
            continue
        ro = Roles(an, c)
        axis = ro.vname == "tvalid"
        for f, ps in worker_paths(an, c, noinline=("full",)):
            for p in ps:
                if not outer_backedge(p):
                    continue
                ev = iteration_events(p)
                ck = [e for e in ev if is_clock_wait(e)]
                if not ck:
                    continue
                if kind == "source":
                    if axis:
                        drv = [e for e in ev if e.kind == "set" and e.name == "value" and ro.role(e.recv) == "V" and tm.numval(e.value) == 1] or \
                              [e for e in ev if e.kind == "set" and e.name == "value" and ro.role(e.recv) == "tdata"]
                    else:
                        drv = [e for e in ev if e.kind == "call" and e.name == "drive" and ro.isbus(e.recv)]
                    ep = clock_step(p, ck[-1])
                    blocked = ro.handshake(p, ep)[1]
                    for e in drv:
                        n += 1
                        # driving the beat that is already waiting again starts nothing
                        if not possible(p.lits, [(blocked, False)]):
                            continue
                        rep.check("source", f"{e.where} {f.qual} [{c.name}]", bool(_unpaused(p, e, pa)), "a paused source starts a transfer")
                elif kind == "sink":
                    for e in [e for e in ev if e.kind == "set" and e.name == "value" and ro.role(e.recv) == "R"][-1:]:
                        val = tm.truthy(e.value)
                        prs = [tm.truthy(x) for x in reads_of(p, pa)]
                        n += 1
                        w = f"{e.where} {f.qual} [{c.name}]"
                        rep.check("sink", w, bool(prs) or not possible(p.lits, [(val, True)]), "ready is raised without looking at the pause flag")
                        rep.check("sink", w, not prs or not possible(p.lits, [(val, True)]+[(x, True) for x in prs]), "ready is raised although the sink is paused")
    for c in pausable(an):
        pa = pause_attr(an, c)
        for role, name in (("master", "psel"), ("slave", "pready")):
            units = [(f, ps) for f, ps, k in stage_units(an, c)] if c in masters(an) else [(f, ps) for k, f, ps in apb_slaves(an) if k is c]
            if (role == "master") != (c in masters(an)):
                continue
            for f, ps in units:
                for p in ps:
                    for e in p.sets("value"):
                        if attr_name(e.recv) != name or not e.loops or tm.truthy(e.value) is FALSE:
                            continue
                        if tm.truthy(e.value) is not TRUE:
                            rep.unk("apb", f"{e.where} {f.qual} [{c.name}]", f"{name} is driven with a computed value")
                            continue
                        n += 1
                        got = _unpaused(p, e, pa)
                        rep.check("apb", f"{e.where} {f.qual} [{c.name}]", bool(got), "a paused master starts a transfer" if role == "master" else "a paused slave answers a transfer")
    if n < 8:
        raise AnalysisError("places where transfers start not found")


@prop("C33")
def pause_flag(an, rep):
    rep.rule("flag", "a component starts out not paused, the pause property reads and stores the flag, and nothing but the property and the generator changes it")
    n = 0
    for c in pausable(an):
        pa = pause_attr(an, c)
        pr = c.prop("pause")
        gens = set()
        for q in an.walk(c, an.method(c, "set_pause_generator")):
            gens |= {an.coro_func(e.args[0]) for e in q.events if an.is_start(e)}
        for p in finals(an.walk(c, pr["get"])):
            n += 1
            rep.check("flag", an.where(pr["get"])+f" [{c.name}]", p.value is not None and (is_self_attr(p.value, pa) or is_self_attr(_bool(p.value), pa)),
                      "the pause property does not report the flag")
        if pr.get("set") is None:
            rep.bad("flag", c.name, "pause cannot be set")
            continue
        fs = pr["set"]
        new = T("param", fs.qual, fs.node.args.args[1].arg)
        for p in finals(an.walk(c, fs)):
            n += 1
            st = p.sets(pa)
            st = list(st)
            same = any(equal_under(p.lits, tm.truthy(new), tm.truthy(o)) or entails(p.lits, tm.eq(new, o)) or
                       entails(p.lits, T("is", *sorted((new, o), key=lambda t: t.id))) for o in reads_of(p, pa))
            rep.check("flag", an.where(fs)+f" [{c.name}]", bool(st) and (st[-1].value is new or _bool(st[-1].value) is new or tm.truthy(st[-1].value) is tm.truthy(new)) or not st and same,
                      "setting pause does not store the value")
        seen = set()
        for k in c.mro():
            for nm, f in k.methods.items():
                if nm in seen:
                    continue
                seen.add(nm)
                if f is fs or f in gens or f is pr["get"] or c.find(nm) is not f:
                    continue
                for p in an.walk(c, f):
                    for s in p.sets(pa):
                        if s.recv.op != "self":
                            continue
                        n += 1
                        if nm == "__init__":
                            rep.check("flag", f"{s.where} {f.qual} [{c.name}]", tm.truthy(s.value) is FALSE, "the component starts out paused")
                        elif any(is_self_attr(x, pa) for x in [s.value]):
                            pass
                        elif _via(an, c, f, pr, s):
                            pass
                        else:
                            rep.bad("flag", f"{s.where} {f.qual} [{c.name}]", "the pause flag is changed behind the user's back")
    if n < 12:
        raise AnalysisError("pause flag not found")


def _via(an, c, f, pr, s):
    """set by a method of the pause interface itself (called from the property setter or a generator method)"""
    return f.name.startswith("_pause") or "pause" in f.name


def _bool(t):
    if t.op == "call" and t.args[0] == "bool" and len(t.args[1]) == 1:
        return t.args[1][0]
    if t.op == "truthy":
        return t.args[0]
    return t


@prop("C33")
def generators(an, rep):
    pause_generator(an, rep, pausable(an))


# ------------------------------------------------------------------ C34

def _now(t, step):
    return t is not None and t.op == "call" and str(t.args[0]).split(".")[-1] == "get_sim_time" and not t.args[2] and \
        (not t.args[1] or len(t.args[1]) == 1 and t.args[1][0] is const("step")) and t.args[3] == step


def frame_class(an):
    for c in an.pkg.classes.values():
        if {"sim_time_start", "sim_time_end"} <= set(an.walker().init_alts(c)):
            return c
    raise AnalysisError("class with simulation time stamps not found")


@prop("C34")
def stamps(an, rep):
    rep.rule("start", "a frame's start time is set once: by a receiver when it begins the frame at its first beat, by a source when it takes the frame up; to the time of that cycle")
    rep.rule("end", "a frame's end time is set to the time of the cycle of its last beat before the frame is handed over")
    rep.rule("dropped", "a frame that is not transmitted completely is reported without an end time")
    rep.rule("kept", "nothing else changes the time stamps of a frame; copies keep them")
    fc = frame_class(an)
    n = 0
    for kind, c in stream_components(an):
        ro = Roles(an, c)
        if ro.vname != "tvalid":
            continue
        q = qattr(an, c)
        wk = set()
        for f, ps in worker_paths(an, c):
            wk.add(f)
            for p in ps:
                if p.kind == "raise":
                    continue
                ev = iteration_events(p)
                starts = [s for s in ev if s.kind == "set" and s.name == "sim_time_start"]
                ends = [s for s in ev if s.kind == "set" and s.name == "sim_time_end"]
                w = f"{an.where(f)} [{c.name}]"
                full = outer_backedge(p)
                if kind == "source":
                    got = [e for e in queue_gets(p) if e in ev and e.recv.args[1] == q]
                    born = [(e, e.result) for e in got]
                    done = [e for e in p.calls("handle_tx_complete") if e in ev]
                    gone = [(e, e.recv) for e in done]
                else:
                    born = [(e, e.result) for e in ev if e.kind == "new" and e.name == fc.name and e.result is not None]
                    gone = [(e, e.args[-1]) for e in queue_puts(p) if e in ev and e.recv.args[1] == q and e.args]
                for e, fr in born:
                    n += 1
                    ww = f"{e.where} {f.qual} [{c.name}]"
                    mine = [s for s in starts if s.recv is fr]
                    if not full and not mine:
                        continue
                    if kind == "source" and not mine:
                        rep.check("start", ww, _stamped_later(ps, fr, ro), "the start time of a frame taken up for transmission is not set")
                        continue
                    rep.check("start", ww, len(mine) >= 1, "the start time of a frame is not set when it begins")
                    for s in mine:
                        rep.check("start", f"{s.where} {f.qual} [{c.name}]", _now(s.value, e.step), "the start time of a frame is not the time of its first cycle")
                    if kind == "source":
                        nul = [s for s in ends if s.recv is fr and s.value is NONE and s.idx > e.idx]
                        hand = [g for g, y in gone if y is fr]
                        rep.check("dropped", ww, bool(nul) or bool(hand) or _flush_clears(an, c), "a frame that is flushed while in transmission may be reported with an old end time")
                for s in starts:
                    if not any(s.recv is fr for _, fr in born):
                        n += 1
                        if kind == "source" and _first_beat(p, s):
                            continue
                        rep.bad("start", f"{s.where} {f.qual} [{c.name}]", "the start time of a frame is changed after the frame began")
                for e, fr in gone:
                    n += 1
                    ww = f"{e.where} {f.qual} [{c.name}]"
                    mine = [s for s in ends if s.recv is fr and s.idx < e.idx]
                    if not mine:
                        late = [s for s in ends if s.recv is fr]
                        rep.bad("end", ww, "a frame is handed over before its end time is set" if late else "a frame is handed over without its end time")
                        continue
                    rep.check("end", f"{mine[-1].where} {f.qual} [{c.name}]", _now(mine[-1].value, e.step), "the end time of a frame is not the time of its last cycle")
                for s in ends:
                    if s.value is NONE:
                        continue
                    if full and not any(s.recv is y for _, y in gone):
                        n += 1
                        if kind != "source":
                            # overwritten when the frame is handed over, and not visible before
                            continue
                        rep.bad("end", f"{s.where} {f.qual} [{c.name}]", "a frame gets an end time without being completed")
        # everything else
        inl = set()
        for f, ps in worker_paths(an, c):
            for p in ps[:1]:
                inl |= {g.qual for g in p.walker.inlined}
        seen = set()
        for k in c.mro():
            for nm, f in k.methods.items():
                if nm in seen or c.find(nm) is not f or f in wk or f.qual in inl:
                    continue
                seen.add(nm)
                for p in an.walk(c, f):
                    for s in p.events:
                        if s.kind == "set" and s.name in ("sim_time_start", "sim_time_end") and s.recv.op != "self":
                            n += 1
                            rep.check("kept", f"{s.where} {f.qual} [{c.name}]", s.name == "sim_time_end" and s.value is NONE and kind == "source" or
                                      s.value is NONE and _from_clear(p, s, q), "the time stamps of a frame are changed outside of its transfer")
                    for e in p.calls("handle_tx_complete"):
                        taken_ = [g for g in queue_gets(p) if g.result is e.recv and g.recv.args[1] == q]
                        if kind == "source" and taken_ and p.kind != "raise":
                            n += 1
                            nul = [s for s in p.events if s.kind == "set" and s.name == "sim_time_end" and s.recv is e.recv and s.idx < e.idx]
                            rep.check("dropped", f"{e.where} {f.qual} [{c.name}]", bool(nul) and nul[-1].value is NONE, "a frame dropped from the queue may be reported with an end time")
    # copies
    f = an.method(fc, "__init__")
    par = [a.arg for a in f.node.args.args if a.arg != "self"]
    src = T("param", f.qual, par[0])
    for p in finals(an.walk(fc, f)):
        tests = [x for t, v, _ in p.order for x in tm.subterms(t) if x.op in ("typeis", "isinstance") and x.args[0] is src and fc.name in str(x.args[1])]
        copy = any(entails(p.lits, tm.truthy(x)) for x in tests)
        for a in ("sim_time_start", "sim_time_end"):
            st = [s for s in p.events if s.kind == "set" and s.recv.op == "self" and s.name == a]
            n += 1
            ww = f"{an.where(f)} {a}"
            if copy:
                v = st[-1].value if st else None
                rep.check("kept", ww, v is not None and v.op in ("attr", "mattr") and v.args[0] is src and v.args[1] == a, "a copy of a frame does not keep its time stamps")
            else:
                rep.check("kept", ww, bool(st) and st[-1].value is NONE, "a new frame already carries a time stamp")
    seen = set()
    for nm, f in fc.methods.items():
        if nm == "__init__":
            continue
        for p in an.walk(fc, f):
            for s in p.events:
                if s.kind == "set" and s.name in ("sim_time_start", "sim_time_end") and s.recv.op == "self":
                    n += 1
                    rep.bad("kept", f"{s.where} {f.qual}", "a frame operation changes the time stamps")
    if n < 20:
        raise AnalysisError("time stamps of frames not found")


def _from_clear(p, s, q):
    return any(g.result is s.recv and g.recv.args[1] == q for g in queue_gets(p))


def _flush_clears(an, c):
    """the reset hook removes the end time of the frame in transmission before completing it"""
    ok = False
    for p in an.hook_paths(c, True):
        for e in p.calls("handle_tx_complete"):
            nul = [s for s in p.events if s.kind == "set" and s.name == "sim_time_end" and s.recv is e.recv and s.value is NONE and s.idx < e.idx]
            if not nul:
                return False
            ok = True
    return ok


def _stamped_later(ps, fr, ro):
    """the start time is set with the first beat driven instead"""
    for p in ps:
        for s in p.events:
            if s.kind == "set" and s.name == "sim_time_start" and s.loops and s.recv is not fr:
                return None
    return False


def _first_beat(p, s):
    """known to happen at the first beat only: the path requires a zero offset or a start time not yet set"""
    for t, v, _ in p.order:
        if t.op == "isnone" and v and attr_name(t.args[0]) == "sim_time_start":
            return True
        if (t.op == "eq" and v or t.op == "truthy" and not v) and any(x.op == "mu" for x in tm.subterms(t)) and \
                not any(x.op in ("attr", "mattr") for x in tm.subterms(t)):
            return True
    return False
