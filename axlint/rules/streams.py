"""Stream components (generic channel sources / sinks / monitors and AXI stream ones): C05 C06 C07 C08 C29 and their part of C02 C03."""

from . import prop, assume
from ..core import *
from .. import eqv

AXIS_SIG = ("tdata", "tvalid", "tready", "tlast", "tkeep", "tid", "tdest", "tuser")


class Roles:
    """bus roles of a stream component class"""

    def __init__(self, an, cls):
        self.an, self.cls = an, cls
        st = getattr(cls, "stream", None)
        for c in cls.mro():
            st = st or getattr(c, "stream", None)
        if st:
            self.vname, self.rname = st["valid"], st["ready"]
            self.payload = list(st["payload"])
            self.optional = set(st["optional"])
        else:
            va = cls.class_attr("_valid_signal")
            if va:
                w = an.walker()
                g = lambda n: w._class_attr(St(), cls, n)
                self.vname = g("_valid_signal").args[0]
                self.rname = g("_ready_signal").args[0]
                sigs = [x.args[0] for n in ("_signals", "_optional_signals") for x in g(n).args]
                self.payload = [s for s in sigs if s not in (self.vname, self.rname)]
                self.optional = set()
            else:
                self.vname, self.rname = "tvalid", "tready"
                self.payload = [s for s in AXIS_SIG if s not in ("tvalid", "tready")]
                self.optional = {s for s in AXIS_SIG if s != "tdata"}
        # attributes aliasing a signal (self.valid = getattr(self.bus, ...))
        self.alias = {}
        for a, vs in an.walker().init_alts(cls).items():
            for v in vs:
                if v is not None and v.op in ("attr",) and self.isbus(v.args[0]) and v.args[1] in [self.vname, self.rname]+self.payload:
                    self.alias[a] = v.args[1]

    def isbus(self, t):
        if t.op in ("attr", "mattr", "param") and "bus" in str(t.args[1]):
            return True
        return False

    def signame(self, t):
        """bus signal name a signal term denotes"""
        if t is None:
            return None
        if t.op in ("attr", "mattr"):
            if t.args[0].op == "self" and t.args[1] in self.alias:
                return self.alias[t.args[1]]
            if self.isbus(t.args[0]):
                return t.args[1]
        return None

    def role(self, t):
        n = self.signame(t)
        if n is None:
            return None
        return "V" if n == self.vname else "R" if n == self.rname else n

    def present(self, t):
        """formula: the signal denoted by term t exists"""
        if t.args[0].op == "self" and t.args[1] in self.alias:
            return tm.not_(tm.isnone(t))
        return T("hasattr", t.args[0], const(t.args[1]))

    def samples(self, p):
        """{role: {epoch: (val term, presence formula)}} over the literals, events of a path"""
        out = {}
        seen = set()
        for t, v, _ in p.order:
            for x in tm.subterms(t, seen):
                if x.op == "val":
                    r = self.role(x.args[0])
                    if r:
                        out.setdefault(r, {})[x.args[1]] = (x, self.present(x.args[0]))
        for e in p.events:
            for v in (e.value, e.recv)+tuple(e.args):
                if isinstance(v, tm.Term):
                    for x in tm.subterms(v, seen):
                        if x.op == "val":
                            r = self.role(x.args[0])
                            if r:
                                out.setdefault(r, {})[x.args[1]] = (x, self.present(x.args[0]))
        return out

    def handshake(self, p, ep):
        """(accepted, blocked, v, r) formulas for the samples of epoch ep on path p"""
        s = self.samples(p)
        hv, hr = self.presence(p)
        v = s.get("V", {}).get(ep)
        r = s.get("R", {}).get(ep)
        vt = tm.truthy(v[0]) if v else T("unsampled", "valid", ep)
        rt = tm.truthy(r[0]) if r else T("unsampled", "ready", ep)
        v_eff = tm.or_(tm.not_(hv), vt)
        r_eff = tm.or_(tm.not_(hr), rt)
        return tm.and_(v_eff, r_eff), tm.and_(v_eff, tm.not_(r_eff)), v_eff, r_eff

    def presence(self, p):
        """presence formulas of the valid and ready signal as the path spells them"""
        hv = hr = None
        for t, v, _ in p.order:
            for x in tm.subterms(t):
                f = None
                if x.op == "hasattr" and self.isbus(x.args[0]) and x.args[1].op == "const":
                    n, f = x.args[1].args[0], x
                elif x.op == "isnone" and self.signame(x.args[0]):
                    n, f = self.signame(x.args[0]), tm.not_(x)
                if f is not None:
                    if n == self.vname:
                        hv = hv or f
                    elif n == self.rname:
                        hr = hr or f
        bus = T("attr", T("self", self.cls.name), "bus")
        if hv is None:
            hv = TRUE if self.vname not in self.optional else T("hasattr", bus, const(self.vname))
        if hr is None:
            hr = TRUE if self.rname not in self.optional else T("hasattr", bus, const(self.rname))
        return hv, hr


def is_clock_wait(e):
    """await of an edge of the clock"""
    if e.kind != "await":
        return False
    r = e.recv
    if r.op == "call" and r.args[0] in ("RisingEdge", "FallingEdge", "Edge", "ClockCycles"):
        x = r.args[1][0] if r.args[1] else None
        return x is not None and x.op in ("attr", "mattr", "param") and x.args[1] == "clock"
    return False


def event_of(t):
    """event object a wait/trigger term waits for"""
    if t.op == "meth" and t.args[1] == "wait":
        return t.args[0]
    return None


def qname(t):
    return attr_name(t)


def groups(an, base, pred=lambda c: True):
    """concrete classes below base, one per distinct implementation (same resolved methods)"""
    seen = {}
    for c in an.pkg.classes.values():
        if not c.is_sub(base) or not pred(c):
            continue
        sig = tuple(sorted({(n, id(c.find(n).node)) for k in c.mro() for n in k.methods}))
        # prefer manufactured stream classes: their signal names are concrete
        if sig not in seen or (getattr(c, "stream", None) and not getattr(seen[sig], "stream", None)):
            seen[sig] = c
    return sorted(seen.values(), key=lambda c: c.name)


def stream_components(an):
    out = []
    for c in groups(an, "Reset", lambda c: c.find("count") is not None and c.find("empty") is not None and c.find("clear") is not None):
        if c.name in ("StreamBase", "AxiStreamBase"):
            continue
        kind = "source" if c.find("send_nowait") else "sink" if c.prop("pause") else "monitor"
        out.append((kind, c))
    return out


def worker_paths(an, cls, noinline=()):
    ws = an.workers(cls)
    if not ws:
        raise AnalysisError(f"{cls.name}: no worker coroutine is started when reset is released")
    res = []
    for f, attr in ws:
        res.append((f, an.walk(cls, f, noinline=noinline)))
    return res


def outer_backedge(p):
    return p.kind == "backedge" and len(p.linit) >= 1 and p.end[1] == next(iter(p.linit))


def iteration_events(p):
    """events of the (generic) iteration of the outer loop"""
    return [e for e in p.events if e.loops]


def last_clock(events):
    c = None
    for e in events:
        if is_clock_wait(e):
            c = e
    return c


def clock_step(p, e):
    """time step right after a wait event e"""
    i = p.events.index(e)
    for x in p.events[i+1:]:
        if x.step != e.step:
            return x.step
    return p.step


def queue_gets(p):
    for e in p.calls(("get_nowait", "get", "popleft", "pop")):
        if e.recv is not None and is_self_attr(e.recv):
            yield e


def queue_puts(p):
    for e in p.calls(("put_nowait", "put", "append")):
        if e.recv is not None and is_self_attr(e.recv):
            yield e


def qattr(an, cls):
    """the queue attribute: the receiver whose emptiness empty() reports"""
    for p in finals(an.walk(cls, "empty")):
        if p.value is not None:
            for x in tm.subterms(p.value):
                if x.op in ("attr", "mattr") and x.args[0].op == "self":
                    return x.args[1]
    raise AnalysisError(f"{cls.name}.empty() does not look at a queue")


# ------------------------------------------------------------------ C05

@prop("C05")
def source_hold(an, rep):
    rep.rule("hold", "a source changes its outputs or takes the next item only in a cycle in which valid was low or ready was high at the sampled clock edge")
    rep.rule("present", "an item taken from the queue is put on the bus with valid high in the same step, each exactly once; with nothing to send valid is driven low")
    rep.rule("rate", "the source acts once per clock edge: handshake samples and driven values belong to the step right after a clock edge")
    n = 0
    for kind, c in stream_components(an):
        if kind != "source":
            continue
        ro = Roles(an, c)
        axis = ro.vname == "tvalid"
        q = qattr(an, c)
        for f, ps in worker_paths(an, c):
            w = an.where(f)+f" [{c.name}]"
            for p in ps:
                if p.kind == "raise":
                    continue
                if p.kind in ("return", "fall"):
                    rep.bad("rate", w, "the transmit coroutine ends")
                    continue
                ev = iteration_events(p)
                ck = [e for e in ev if is_clock_wait(e)]
                if not ck:
                    if outer_backedge(p):
                        rep.bad("rate", w, "an iteration does not wait for the clock")
                    continue
                if len(ck) > 1 and outer_backedge(p):
                    rep.bad("rate", w, "an iteration spans several clock edges, so outputs are not reconsidered each cycle")
                ep = clock_step(p, ck[-1])
                acc, blocked, v, r = ro.handshake(p, ep)
                gets = [e for e in queue_gets(p) if e in ev and e.recv.args[1] == q]
                touch = list(gets)
                drives = []
                vsets = []
                for e in ev:
                    if e.kind == "set" and e.name == "value":
                        role = ro.role(e.recv)
                        if role == "V":
                            vsets.append(e)
                            touch.append(e)
                        elif role == "R":
                            rep.bad("hold", f"{e.where} {f.qual}", "a source drives ready")
                        elif role:
                            drives.append(e)
                            touch.append(e)
                    elif e.kind == "call" and e.name == "drive" and ro.isbus(e.recv):
                        drives.append(e)
                        touch.append(e)
                n += 1
                for e in touch:
                    where = f"{e.where} {f.qual} [{c.name}]"
                    if e.kind == "set" and tm.numval(e.value) == 1 and e in vsets and not drives and not gets:
                        # keeping valid high while blocked is harmless
                        if not possible(p.lits, [(blocked, False)]):
                            continue
                    stale = e.step != ep
                    if stale:
                        rep.bad("rate", where, "outputs change in a step other than the one that sampled the handshake")
                    else:
                        rep.check("hold", where, not possible(p.lits, [(blocked, True)]),
                                  "outputs change (or the next item is taken) while a valid transfer waits for ready")
                if not outer_backedge(p):
                    continue
                if not possible(p.lits, [(blocked, False)]):
                    continue
                unblocked = not possible(p.lits, [(blocked, True)])
                hv = ro.presence(p)[0]
                if not axis:
                    dr = [e for e in drives if e.kind == "call"]
                    if gets:
                        rep.check("present", f"{gets[0].where} {f.qual} [{c.name}]", len(gets) == 1 and len(dr) == 1 and dr[0].args and dr[0].args[0] is gets[0].result,
                                  "an item taken from the queue is not put on the bus exactly once")
                        lastv = vsets[-1].value if vsets else None
                        rep.check("present", f"{gets[0].where} {f.qual} [{c.name}]", not possible(p.lits, [(hv, True)]) or (lastv is not None and tm.truthy(lastv) is TRUE),
                                  "an item is put on the bus without raising valid")
                    elif dr:
                        rep.bad("present", f"{dr[0].where} {f.qual} [{c.name}]", "something other than a queued item is put on the bus")
                if unblocked:
                    lastv = vsets[-1].value if vsets else None
                    driven = bool(drives) if axis else bool(gets)
                    if axis:
                        driven = any(ro.role(e.recv) == "tdata" for e in drives if e.kind == "set")
                        if driven:
                            rep.check("present", f"{drives[0].where} {f.qual} [{c.name}]", not possible(p.lits, [(hv, True)]) or
                                      (lastv is not None and tm.truthy(lastv) is TRUE), "a beat is driven without raising valid")
                    if not driven and possible(p.lits, [(hv, True)]):
                        # valid must not stay high after its beat has been accepted
                        vlow = not possible(p.lits, [(v, True), (hv, True)])
                        rep.check("present", f"{(vsets[-1].where if vsets else w)} {f.qual} [{c.name}]",
                                  vlow and lastv is None or (lastv is not None and not possible(p.lits, [(tm.truthy(lastv), True)])),
                                  "with nothing to send after an accepted beat valid is not lowered (the beat would transfer twice)")
                        if not possible(p.lits, [(acc, False)]) and lastv is None and not vlow:
                            rep.bad("present", w, "an accepted beat stays on the bus")
                        # nothing to send means no queued item, or paused
                        reasons = _idle_reasons(p, q)
                        rep.check("present", w, reasons, "the source leaves a queued item unsent although it is neither paused nor blocked")
    if n < 4:
        raise AnalysisError("source worker paths not found")


def _idle_reasons(p, q):
    """on a path that sends nothing: the queue was empty or the pause flag was set"""
    forms = []
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if x.op == "truthy" and x.args[0].op == "call" and x.args[0].args[0] == "qsize":
                forms.append((x, True))
            if x.op == "truthy" and x.args[0].op == "mattr" and "pause" in x.args[0].args[1]:
                forms.append((x, False))
    if not forms:
        return None
    if any(e.name == "normalize" for e in p.events if e.kind == "call"):
        return True     # an empty frame was completed in this cycle
    return not possible(p.lits, forms)


@prop("C05")
def provenance(an, rep):
    rep.rule("fresh", "what a source transmits descends, through everything carried from one iteration to the next, only from items taken from the queue since the last "
                      "reset: state that outlives the transmit coroutine is forgotten by reset on every path")
    n = 0
    for kind, c in stream_components(an):
        if kind != "source":
            continue
        ro = Roles(an, c)
        q = qattr(an, c)
        for f, ps in worker_paths(an, c):
            w = an.where(f)+f" [{c.name}]"
            nxt = {}
            init = {}
            gets = set()
            for p in ps:
                gets |= {e.result for e in queue_gets(p) if e.recv.args[1] == q}
                for lid, d in p.linit.items():
                    for k, v in d.items():
                        if isinstance(v, tm.Term):
                            init.setdefault((lid, k), set()).add(v)
                if p.kind == "backedge":
                    for k, v in p.end[2].items():
                        if isinstance(v, tm.Term):
                            nxt.setdefault((p.end[1], k), set()).add(v)
            todo = []
            for p in ps:
                for e in iteration_events(p):
                    if e.kind == "call" and e.name == "drive" and ro.isbus(e.recv) and e.args:
                        todo.append((e.args[0], f"{e.where} {f.qual} [{c.name}]"))
                    elif e.kind == "set" and e.name == "value" and ro.role(e.recv) not in (None, "V", "R"):
                        for x in tm.subterms(e.value):
                            o = x.args[0] if x.op in ("attr", "mattr") else None
                            if o is not None and o.op != "self" and not ro.isbus(o) and o.op not in ("attr", "global", "module"):
                                todo.append((o, f"{e.where} {f.qual} [{c.name}]"))
                            elif o is not None and o.op == "attr" and o.args[0].op == "self" and o.args[1] in _assigned(c):
                                todo.append((o, f"{e.where} {f.qual} [{c.name}]"))
            seen = set()
            while todo:
                t, where = todo.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t in gets or t.op == "const" or tm.truthy(t) is tm.FALSE:
                    n += t in gets
                    continue
                if t.op == "mu" or t.op == "mattr" and t.args[0].op == "self" and any(k == f"self.{t.args[1]}" for _, k in nxt):
                    for key in set(init) | set(nxt):
                        if t.op == "mu" and key == (t.args[0], t.args[1]) or t.op == "mattr" and key[1] == f"self.{t.args[1]}":
                            for v in init.get(key, ()) | nxt.get(key, ()) if key in init else nxt.get(key, ()):
                                todo.append((v, where))
                    if t.op == "mu":
                        continue
                if t.op in ("attr", "mattr") and t.args[0].op == "self":
                    _forgotten(an, rep, c, t.args[1], where)
                    continue
                if any(x in gets for x in tm.subterms(t)):
                    n += 1
                    continue
                rep.unk("fresh", where, f"origin of {tm.show(t)[:80]} not decided")
            rep.check("fresh", w, n > 0 or None, "no queued item reaches the bus", "traced")
    if not n:
        raise AnalysisError("no source transmits queued items")


@prop("C03", "C06")
def received_fresh(an, rep):
    rep.rule("begun", "what a receiver queues was begun by the receive coroutine itself since the last reset: no partly received item outlives a reset")
    n = 0
    for kind, c in stream_components(an):
        if kind == "source":
            continue
        q = qattr(an, c)
        for f, ps in worker_paths(an, c):
            init, nxt = {}, {}
            todo = []
            for p in ps:
                for lid, d in p.linit.items():
                    for k, v in d.items():
                        if isinstance(v, tm.Term):
                            init.setdefault((lid, k), set()).add(v)
                if p.kind == "backedge":
                    for k, v in p.end[2].items():
                        if isinstance(v, tm.Term):
                            nxt.setdefault((p.end[1], k), set()).add(v)
                for e in iteration_events(p):
                    if e in queue_puts(p) and e.recv.args[1] == q and e.args:
                        todo.append((e.args[0], f"{e.where} {f.qual} [{c.name}]"))
            seen = set()
            while todo:
                t, where = todo.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.op == "new" or t.op == "const" or tm.truthy(t) is tm.FALSE:
                    n += 1
                    rep.ok("begun", where)
                    continue
                if t.op == "mu":
                    key = (t.args[0], t.args[1])
                    vs = init.get(key, set()) | nxt.get(key, set())
                    todo += [(v, where) for v in vs]
                    continue
                if t.op in ("attr", "mattr") and t.args[0].op == "self":
                    _forgotten(an, rep, c, t.args[1], where, "begun", f"an item begun before a reset is kept in self.{t.args[1]} across the reset and completed with data received after it")
                    # and what else is stored there
                    for key, vs in nxt.items():
                        if key[1] == f"self.{t.args[1]}":
                            todo += [(v, where) for v in vs]
                    continue
                if t.op == "ite":
                    todo += [(x, where) for x in t.args[1:]]
                    continue
                rep.unk("begun", where, f"origin of {tm.show(t)[:80]} not decided")
    if not n:
        raise AnalysisError("no receiver queues items it has begun")


def _assigned(c):
    """attributes of self assigned outside the constructors"""
    s = set()
    for k in c.mro():
        for m in k.methods.values():
            if m.node.name != "__init__":
                for nd in ast.walk(m.node):
                    if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and isinstance(nd.value, ast.Name) and nd.value.id == "self":
                        s.add(nd.attr)
    return s


def _forgotten(an, rep, c, attr, where, rid="fresh", msg=None):
    """self.<attr>, from which the source transmits (or a receiver continues), is forgotten on every path of the reset handler"""
    g = an.method(c, "_handle_reset")
    st = T("param", g.qual, g.node.args.args[1].arg)
    me = T("self", c.name)
    for p in finals(an.walk(c, g)):
        if not possible(p.lits, [(tm.truthy(st), True)]):
            continue
        v = p.heap.get((me, attr))
        if v is None:
            old = [x for t, _, _ in p.order for x in tm.subterms(t) if x.op in ("attr", "mattr") and x.args[0] is me and x.args[1] == attr]
            ok = any(not possible(p.lits, [(tm.truthy(x), True)]) for x in old)
        else:
            ok = not possible(p.lits, [(tm.truthy(v), True)])
        rep.check(rid, where, ok, msg or f"self.{attr}, from which the source transmits, is kept across a reset on some path of {an.where(g)}, so part of a flushed item is sent again")


@prop("C05")
def fifo(an, rep):
    rep.rule("fifo", "submitted items enter one first-in first-out queue exactly once on every path that accepts them and leave it only from the front")
    for kind, c in stream_components(an):
        if kind != "source":
            continue
        q = qattr(an, c)
        ec = {v.args[0] for v in an.walker().init_alts(c).get(q, ()) if v is not None and v.op == "new"}
        rep.check("fifo", f"{c.name}.{q}", ec and ec <= {"Queue", "deque"} , f"the queue is not first-in first-out ({sorted(ec)})")
        for m in ("send", "send_nowait"):
            f = an.method(c, m)
            for p in finals(an.walk(c, f)):
                item = T("param", f.qual, f.node.args.args[1].arg)
                puts = [e for e in queue_puts(p) if e.recv.args[1] == q]
                ok = len(puts) == 1 and puts[0].args and tm.contains(puts[0].args[0], item)
                rep.check("fifo", an.where(f)+f" [{c.name}]", ok, "an accepted item is not queued exactly once")
        for k in c.mro():
            for fn in k.methods.values():
                for nd in ast.walk(fn.node):
                    if isinstance(nd, ast.Attribute) and isinstance(nd.value, ast.Attribute) and nd.value.attr == q and nd.attr in ("appendleft", "insert", "pop", "rotate", "_queue"):
                        if nd.attr == "_queue":
                            continue
                        rep.bad("fifo", f"{an.where(fn, nd)}", f"the queue order is disturbed by {nd.attr}")


# ------------------------------------------------------------------ C06

def accept_marks(an, c, ro, ps):
    """events that record an accepted beat: bus.sample(...) calls, or loops whose body appends lane data to the frame"""
    loops = set()
    for p in ps:
        if p.kind == "backedge" and not outer_backedge(p):
            for e in p.calls(("append", "extend")):
                if not (e.loops and e.loops[-1] == p.end[1] and e.recv is not None):
                    continue
                xs = [x for a in e.args for x in tm.subterms(a)]
                # a value carried round the loop: what it starts from
                xs += [y for x in xs if x.op == "mu" and x.args[0] == p.end[1] for i in (p.linit.get(x.args[0], {}).get(x.args[1]),) if i is not None for y in tm.subterms(i)]
                if any(x.op == "val" and ro.role(x.args[0]) == "tdata" for x in xs):
                    loops.add(p.end[1])
    def marks(p, ev):
        out = []
        for e in ev:
            if e.kind == "call" and e.name == "sample" and e.recv is not None and ro.isbus(e.recv):
                out.append(e)
            elif e.kind == "loop" and e.name in loops:
                out.append(e)
            elif e.kind == "call" and e.name in ("append", "extend") and len(e.loops) == 1 and e.args and any(
                    x.op == "val" and ro.role(x.args[0]) == "tdata" or x.op == "compgen" for a in e.args for x in tm.subterms(a)):
                out.append(e)
        # several lane-wise extends of one beat count once
        ext = [e for e in out if e.kind == "call" and e.name in ("append", "extend")]
        return [e for e in out if e not in ext]+ext[:1]
    return marks


def last_formula(ro, p, ep):
    """(no last signal) or last sampled high"""
    s = ro.samples(p).get("tlast", {})
    hl = None
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if x.op == "hasattr" and x.args[1].op == "const" and x.args[1].args[0] == "tlast":
                hl = x
    if hl is None:
        hl = T("hasattr", T("attr", T("self", ro.cls.name), "bus"), const("tlast"))
    lt = tm.truthy(s[ep][0]) if ep in s else T("unsampled", "last", ep)
    return tm.or_(tm.not_(hl), lt)


@prop("C06")
def sink_accept(an, rep):
    rep.rule("accept", "a beat is recorded exactly when valid and ready (where present) were both high at the sampled clock edge, once per edge, with all signals "
                       "sampled in that same step")
    rep.rule("deliver", "a recorded transaction is queued once, unmodified, and waiting receivers are woken; a stream frame is queued when its last beat arrives and not before")
    rep.rule("recv", "recv and recv_nowait return exactly the items taken from the front of the queue")
    n = 0
    for kind, c in stream_components(an):
        if kind == "source":
            continue
        ro = Roles(an, c)
        axis = ro.vname == "tvalid"
        q = qattr(an, c)
        for f, ps in worker_paths(an, c):
            w = an.where(f)+f" [{c.name}]"
            marks = accept_marks(an, c, ro, ps)
            for p in ps:
                if p.kind in ("return", "fall"):
                    rep.bad("accept", w, "the receive coroutine ends")
                if not outer_backedge(p):
                    continue
                ev = iteration_events(p)
                ck = [e for e in ev if is_clock_wait(e)]
                if len(ck) != 1:
                    rep.bad("accept", w, "an iteration does not span exactly one clock edge")
                    continue
                ep = clock_step(p, ck[0])
                acc, blocked, v, r = ro.handshake(p, ep)
                ms = marks(p, ev)
                n += 1
                if ms:
                    where = f"{ms[0].where} {f.qual} [{c.name}]"
                    rep.check("accept", where, entails(p.lits, acc), "a beat is recorded in a cycle without a valid and ready handshake")
                    rep.check("accept", where, len(ms) == 1, "one beat is recorded more than once")
                    rep.check("accept", where, all(m.step == ep for m in ms), "payload is sampled in a different step than the handshake")
                else:
                    rep.check("accept", w, not possible(p.lits, [(acc, True)]), "a transferred beat is not recorded")
                puts = [e for e in queue_puts(p) if e in ev and e.recv.args[1] == q]
                act = [e for e in p.calls("set") if e in ev and e.recv is not None and _is_active_event(an, c, e.recv)]
                if axis:
                    lf = last_formula(ro, p, ep)
                    if puts:
                        where = f"{puts[0].where} {f.qual} [{c.name}]"
                        rep.check("deliver", where, bool(ms) and entails(p.lits, lf), "a frame is delivered before its last beat")
                        rep.check("deliver", where, len(puts) == 1, "a frame is delivered more than once")
                        rep.check("deliver", where, bool(act), "waiting receivers are not woken")
                        # the frame in progress is forgotten
                        fr = puts[0].args[0] if puts[0].args else None
                        keep = [k for k, v in p.end[2].items() if v is fr and "." not in k]
                        rep.check("deliver", where, not keep, "a delivered frame keeps growing")
                        _frame_ok(an, rep, c, p, ro, fr, ms, where)
                    elif ms:
                        rep.check("deliver", w, not possible(p.lits, [(lf, True)]), "the last beat of a frame does not deliver it")
                        lost = all(v is NONE for k, v in p.end[2].items() if k in _frame_vars(p))
                        rep.check("deliver", w, not (lost and _frame_vars(p)), "a frame in progress is dropped")
                else:
                    if ms and ms[0].kind == "call":
                        obj = ms[0].args[0] if ms[0].args else None
                        where = f"{ms[0].where} {f.qual} [{c.name}]"
                        ok = len(puts) == 1 and puts[0].args and puts[0].args[0] is obj and obj is not None and obj.op == "new"
                        rep.check("deliver", where, ok, "a sampled transaction is not queued exactly once")
                        made = [e for e in p.events if e.kind == "new" and e.result is obj]
                        rep.check("deliver", where, not made or made[-1] in ev, "the same object is recorded for every transfer")
                        rep.check("deliver", where, bool(act), "waiting receivers are not woken")
                        tamper = [e for e in ev if e.kind == "set" and e.recv is obj]
                        rep.check("deliver", where, not tamper, "a sampled transaction is modified")
                    elif puts:
                        rep.bad("deliver", f"{puts[0].where} {f.qual} [{c.name}]", "an item is queued without a transfer")
        for m in ("recv", "recv_nowait"):
            f = an.method(c, m)
            for p in finals(an.walk(c, f)):
                g = [e for e in queue_gets(p) if e.recv.args[1] == q]
                rep.check("recv", an.where(f)+f" [{c.name}]", len(g) == 1 and p.value is g[0].result, "the value returned is not the item taken from the queue")
    if n < 6:
        raise AnalysisError("receive paths not found")


def _frame_vars(p):
    return [k for k, v in p.end[2].items() if "." not in k and "frame" in k.lower()]


def _frame_ok(an, rep, c, p, ro, fr, ms, where):
    pass


def _is_active_event(an, c, t):
    """event awaited by wait()"""
    return attr_name(t) in _wait_events(an, c)


def _wait_events(an, c):
    key = ("waitev", c.name)
    if key not in an.cache:
        s = set()
        for p in finals(an.walk(c, "wait")):
            for e in p.events:
                if e.kind == "await":
                    for x in tm.subterms(e.recv):
                        if x.op == "meth" and x.args[1] == "wait" and attr_name(x.args[0]):
                            s.add(attr_name(x.args[0]))
        an.cache[key] = s
    return an.cache[key]


@prop("C06")
def passive(an, rep):
    rep.rule("passive", "a monitor never drives a signal; a sink drives ready only")
    n = 0
    for kind, c in stream_components(an):
        if kind == "source":
            continue
        ro = Roles(an, c)
        funcs = {}
        for k in c.mro():
            for nm, f in k.methods.items():
                funcs.setdefault(nm, c.find(nm))
        for nm, f in sorted(funcs.items()):
            if nm in ("from_entity", "from_prefix") or "classmethod" in f.deco:
                continue
            for p in an.walk(c, f):
                for e in p.events:
                    bad = None
                    if e.kind == "set" and e.name == "value":
                        r = ro.role(e.recv)
                        if r and not (kind == "sink" and r == "R"):
                            bad = r
                    elif e.kind == "call" and e.name in ("setimmediatevalue", "drive") and e.recv is not None and (ro.role(e.recv) or ro.isbus(e.recv)):
                        r = ro.role(e.recv) or "the bus"
                        if not (kind == "sink" and r == "R"):
                            bad = r
                    elif e.kind == "call" and e.name == "setimmediatevalue" and e.recv is not None and e.recv.op in ("getattr",):
                        bad = "a bus signal"
                    if bad:
                        rep.bad("passive", f"{e.where} {f.qual} [{c.name}]", f"a {kind} drives {bad}")
            n += 1
            rep.ok("passive", an.where(f)+f" [{c.name}]")
    if n < 20:
        raise AnalysisError("sink and monitor methods not found")


# ------------------------------------------------------------------ C07

def pause_reads(t):
    return {x for x in tm.subterms(t) if x.op in ("mattr", "attr") and is_self_attr(x) and "pause" in x.args[1] and "gen" not in x.args[1] and "cr" not in x.args[1]}


def pause_attr(an, c):
    """attribute behind the pause property"""
    p = c.prop("pause")
    if not p:
        return None
    for q in finals(an.walk(c, p["get"])):
        for x in tm.subterms(q.value):
            if is_self_attr(x):
                return x.args[1]
    return None


def reads_of(p, name):
    """all reads (terms) of self.<name> on the path"""
    out = set()
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if is_self_attr(x, name):
                out.add(x)
    vals = [v for e in p.events for v in (e.value, e.recv)+tuple(e.args)]
    if p.kind == "return":
        vals.append(p.value)
    for v in vals:
        if isinstance(v, tm.Term):
            for x in tm.subterms(v):
                if is_self_attr(x, name):
                    out.add(x)
    return out


@prop("C07")
def sink_ready(an, rep):
    rep.rule("ready", "a sink with a ready signal drives it every cycle: high exactly when it is neither full (counting the beat just taken) nor paused")
    rep.rule("sleep", "a receiver sleeps only when no beat can be offered to it before it is woken: valid is low, or it is holding ready low, or (a monitor) no transfer "
                      "took place; and the pause state it acted on is still current")
    n = 0
    for kind, c in stream_components(an):
        if kind == "source":
            continue
        ro = Roles(an, c)
        pa = pause_attr(an, c)
        for f, ps in worker_paths(an, c, noinline=("full",)):
            w = an.where(f)+f" [{c.name}]"
            for p in ps:
                if not outer_backedge(p):
                    continue
                ev = iteration_events(p)
                ck = [e for e in ev if is_clock_wait(e)]
                if len(ck) != 1:
                    continue
                ep = clock_step(p, ck[0])
                acc, blocked, v, r = ro.handshake(p, ep)
                hv, hr = ro.presence(p)
                driven = [e for e in ev if e.kind == "set" and e.name == "value" and ro.role(e.recv) == "R"]
                sleeps = [e for e in ev if e.kind == "await" and not is_clock_wait(e)]
                fulls = [e for e in p.calls("full")]
                if kind == "sink":
                    if possible(p.lits, [(hr, True)]):
                        rep.check("ready", w, bool(driven) or not possible(p.lits, [(hr, True)]), "ready is not driven in a cycle")
                    if driven:
                        d = driven[-1]
                        where = f"{d.where} {f.qual} [{c.name}]"
                        val = tm.truthy(d.value)
                        fr = [tm.truthy(x.result) for x in fulls]
                        prs = [tm.truthy(x) for x in sorted(reads_of(p, pa), key=lambda t: t.id)]
                        # stalled must imply full or paused, and full or paused must imply stalled
                        ok = not possible(p.lits, [(val, False)]+[(x, False) for x in fr+prs])
                        rep.check("ready", where, ok, "ready is held low although the sink is neither full nor paused")
                        if fr:
                            rep.check("ready", where, not possible(p.lits, [(val, True), (fr[-1], True)]), "ready is raised although the sink is full")
                            late = [e for e in queue_puts(p) if e in ev and e.idx > fulls[-1].idx]
                            rep.check("ready", where, not late, "fullness is judged before the beat just taken is counted")
                        else:
                            # full was not consulted: only fine when paused anyway
                            rep.check("ready", where, not possible(p.lits, [(val, True)]), "ready is raised without checking for fullness")
                        rep.check("ready", where, bool(prs) or not possible(p.lits, [(val, True)]), "ready is raised without checking for pause")
                        for x in prs:
                            if possible(p.lits, [(val, True), (x, True)] + [(y, True) for y in prs]):
                                rep.bad("ready", where, "ready is raised although the sink is paused")
                        n += 1
                for s in sleeps:
                    where = f"{s.where} {f.qual} [{c.name}]"
                    n += 1
                    if s.step != ep:
                        rep.bad("sleep", where, "the decision to sleep is stale: other coroutines may have run since it was made")
                        continue
                    if kind == "sink":
                        held = tm.and_(hr, tm.not_(tm.truthy(driven[-1].value))) if driven else FALSE
                        safe = tm.or_(tm.not_(v), held)
                        rep.check("sleep", where, entails(p.lits, safe), "the sink sleeps while valid is high and it is offering ready, so a transfer would be missed")
                        if driven and pa:
                            rds = sorted(reads_of(p, pa), key=lambda t: t.id)
                            old = [x for x in rds if x.op == "mattr" and x.args[2] < _epoch_at(p, ep)]
                            new = [x for x in rds if x.op == "mattr" and x.args[2] >= _epoch_at(p, ep)]
                            if old:
                                rep.check("sleep", where, any(equal_under(p.lits, tm.truthy(o), tm.truthy(x)) for o in old for x in new),
                                          "the sink sleeps on an outdated pause state (a change during the clock wait would be lost)")
                    else:
                        rep.check("sleep", where, not possible(p.lits, [(acc, True)]), "the monitor sleeps in a cycle in which a transfer took place")
    if n < 6:
        raise AnalysisError("sink ready paths not found")


def _epoch_at(p, step):
    for e in p.events:
        if e.step == step:
            return e.epoch
    return p.epoch


@prop("C07")
def wakeups(an, rep):
    rep.rule("wake", "everything that can end a receiver's reason to sleep wakes it: a rising edge of valid (and of ready for a monitor), a change of pause, "
                     "removal of an item and clear")
    n = 0
    for kind, c in stream_components(an):
        if kind == "source":
            continue
        ro = Roles(an, c)
        q = qattr(an, c)
        evs = set()
        for f, ps in worker_paths(an, c, noinline=("full",)):
            for p in ps:
                for e in p.events:
                    if e.kind == "await" and not is_clock_wait(e):
                        x = event_of(e.recv)
                        if x is not None and attr_name(x):
                            evs.add(attr_name(x))
        if not evs:
            rep.ok("wake", c.name, "never sleeps")
            continue
        setsE = lambda p: {attr_name(e.recv) for e in p.calls("set") if e.recv is not None}
        for E in sorted(evs):
            # edges
            need = {"V": False, "R": kind == "sink"}
            for role in ("V", "R"):
                if role == "R" and kind == "sink":
                    continue
                found = None
                for p in finals(an.walk(c, "__init__")):
                    started = []
                    for e in p.events:
                        if an.is_start(e):
                            g = an.coro_func(e.args[0])
                            for gp in an.walk(c, g):
                                for x in gp.events:
                                    if x.kind == "await" and x.recv.op == "call" and x.recv.args[0] in ("RisingEdge", "Edge") and x.recv.args[1] and \
                                            ro.role(x.recv.args[1][0]) == role:
                                        started.append((g, gp))
                    hv, hr = ro.presence(p)
                    pres = hv if role == "V" else hr
                    if started:
                        found = True
                        for g, gp in started:
                            if gp.kind == "backedge":
                                rep.check("wake", an.where(g)+f" [{c.name}]", E in setsE(gp), f"an edge of the {'valid' if role == 'V' else 'ready'} signal does not wake the receiver")
                            elif gp.kind in ("return", "fall"):
                                rep.bad("wake", an.where(g)+f" [{c.name}]", "the edge watcher ends")
                    elif found is None:
                        found = False
                    if not started and possible(p.lits, [(pres, True)]):
                        rep.bad("wake", f"{c.name}", f"nothing watches the {'valid' if role == 'V' else 'ready'} signal")
                n += 1
                rep.check("wake", f"{c.name} {role}", bool(found), f"nothing watches the {'valid' if role == 'V' else 'ready'} signal")
            # pause
            pr = c.prop("pause")
            if pr and kind == "sink":
                pa = pause_attr(an, c)
                fs = pr.get("set")
                if fs is None:
                    rep.bad("wake", c.name, "pause cannot be set")
                else:
                    for p in finals(an.walk(c, fs)):
                        new = T("param", fs.qual, fs.node.args.args[1].arg)
                        old = [x for x in reads_of(p, pa)]
                        st = [s for s in p.sets(pa)]
                        same = any(entails(p.lits, tm.eq(new, o)) or entails(p.lits, T("is", *sorted((new, o), key=lambda t: t.id))) or
                                   equal_under(p.lits, tm.truthy(new), tm.truthy(o)) for o in old)
                        rep.check("wake", an.where(fs)+f" [{c.name}]", E in setsE(p) or same, "a change of pause does not wake the sink")
                        rep.check("wake", an.where(fs)+f" [{c.name}]", (bool(st) and (st[-1].value is new or tm.truthy(st[-1].value) is tm.truthy(new))) or same,
                                  "setting pause does not store the value")
                        n += 1
            # removal
            for m in ("recv", "recv_nowait", "clear"):
                f = an.method(c, m)
                for p in finals(an.walk(c, f)):
                    removes = any(e.recv.args[1] == q for e in queue_gets(p)) or m == "clear"
                    if removes and kind == "sink":
                        idx = [e.idx for e in p.calls("set") if attr_name(e.recv) == E]
                        # while paused space is of no use: the end of the pause wakes the sink
                        paused = pr is not None and any(entails(p.lits, tm.truthy(x)) for x in reads_of(p, pause_attr(an, c)))
                        rep.check("wake", an.where(f)+f" [{c.name}]", bool(idx) or paused, f"{m} frees space without waking the sink")
                        n += 1
    if n < 8:
        raise AnalysisError("wake-up sites not found")


@prop("C07")
def pause_generator(an, rep, comps=None):
    rep.rule("pausegen", "a pause generator applies one value per clock edge in order; installing another one (or none) stops the previous one")
    n = 0
    for c in [c for kind, c in stream_components(an)] if comps is None else comps:
        if not c.prop("pause"):
            continue
        pa = pause_attr(an, c)
        f = an.method(c, "set_pause_generator")
        gp = T("param", f.qual, f.node.args.args[1].arg)
        for p in finals(an.walk(c, f)):
            started = [e for e in p.events if an.is_start(e)]
            kills = [e for e in p.calls("kill")]
            given = not possible(p.lits, [(tm.isnone(gp), True)])
            none = not possible(p.lits, [(tm.isnone(gp), False)])
            w = an.where(f)+f" [{c.name}]"
            if given or none:
                rep.check("pausegen", w, bool(started) == given, "the pause generator given is not started")
            # previous task killed when there was one
            ta = None
            for q in an.walk(c, f):
                for s in q.sets():
                    if s.value is not None and s.value.op == "call" and "start" in str(s.value.args[0]):
                        ta = s.name
            if ta:
                rds = [x for x in reads_of(p, ta)]
                running = not any(entails(p.lits, tm.isnone(x)) or entails(p.lits, tm.truthy(x), False) for x in rds)
                rep.check("pausegen", w, bool(kills) or not running, "a previous pause generator keeps running")
            n += 1
            for e in started:
                g = an.coro_func(e.args[0])
                for q in an.walk(c, g):
                    for s in q.sets(pa):
                        own = not s.loops or s.value is not None and s.value.op == "const" and tm.truthy(s.value) is s.value
                        # on a path that tells what the value supplied was, that value may be spelled out
                        rep.check("pausegen", f"{s.where} {g.qual} [{c.name}]", not own or bool(s.loops) and any(not any(is_self_attr(y, pa) for y in tm.subterms(t)) for t, v, _ in q.order) or False,
                                  "the pause flag is changed to a value the generator did not supply")
                    if q.kind == "backedge":
                        sets = [s for s in q.events if s.kind == "set" and s.name == pa and s.loops]
                        cks = [x for x in q.events if is_clock_wait(x) and x.loops]
                        rep.check("pausegen", an.where(g)+f" [{c.name}]", bool(sets) or _same_pause(q, pa), "a generated value is not applied")
                        rep.check("pausegen", an.where(g)+f" [{c.name}]", len(cks) == 1, "the pause generator does not advance once per clock edge")
    if n < 4:
        raise AnalysisError("set_pause_generator not found")


def _same_pause(q, pa):
    return True if reads_of(q, pa) else False


@prop("C07", "C05")
def source_sleep(an, rep):
    rep.rule("srcsleep", "a source sleeps only with nothing queued or in progress and valid low, on an event that every submission sets; blocked senders are woken "
                         "whenever an item leaves the queue")
    n = 0
    for kind, c in stream_components(an):
        if kind != "source":
            continue
        ro = Roles(an, c)
        q = qattr(an, c)
        evs = set()
        fullw = set()
        for f, ps in worker_paths(an, c):
            for p in ps:
                if not outer_backedge(p):
                    continue
                ev = iteration_events(p)
                ck = [e for e in ev if is_clock_wait(e)]
                if len(ck) != 1:
                    continue
                ep = clock_step(p, ck[0])
                for s in ev:
                    if s.kind == "await" and not is_clock_wait(s):
                        where = f"{s.where} {f.qual} [{c.name}]"
                        n += 1
                        E = event_of(s.recv)
                        if E is not None and attr_name(E):
                            evs.add(attr_name(E))
                        rep.check("srcsleep", where, s.step == ep, "the decision to sleep is stale")
                        nonempty = [x for t, v, _ in p.order for x in tm.subterms(t) if x.op == "truthy" and x.args[0].op == "call" and x.args[0].args[0] == "qsize"]
                        gets = [e for e in queue_gets(p) if e in ev]
                        last = [x for x in nonempty if not gets or x.args[0].args[3] != nonempty[0].args[0].args[3] or x is not nonempty[0]]
                        ok = any(p.holds(x, False) for x in last)
                        rep.check("srcsleep", where, ok, "the source goes to sleep with items queued")
                        for k, v in p.end[2].items():
                            if "." not in k and v is not NONE and v.op in ("meth", "mu") and _holds_item(p, k, ps):
                                rep.check("srcsleep", where, entails(p.lits, tm.truthy(v), False), "the source goes to sleep with a frame in progress")
                        hv = ro.presence(p)[0]
                        vs = [e for e in ev if e.kind == "set" and e.name == "value" and ro.role(e.recv) == "V"]
                        rep.check("srcsleep", where, not possible(p.lits, [(hv, True)]) or (bool(vs) and tm.truthy(vs[-1].value) is FALSE), "the source sleeps with valid raised")
        for E in evs:
            for m in ("send", "send_nowait"):
                f = an.method(c, m)
                for p in finals(an.walk(c, f)):
                    puts = [e for e in queue_puts(p) if e.recv.args[1] == q]
                    st = [e for e in p.calls("set") if attr_name(e.recv) == E]
                    if puts:
                        rep.check("srcsleep", an.where(f)+f" [{c.name}]", bool(st), f"{m} does not wake the source")
                        clr = [e for e in p.calls("clear") if attr_name(e.recv) == E]
                        rep.check("srcsleep", an.where(f)+f" [{c.name}]", not clr or clr[-1].idx < st[-1].idx if st else None, f"{m} cancels its own wake-up")
            # the wake event may only be cleared when the queue is known to be empty
            for k in c.mro():
                for nm, f in k.methods.items():
                    if c.find(nm) is not f:
                        continue
        # blocked senders
        fs = an.method(c, "send")
        D = set()
        for p in an.walk(c, fs):
            for e in p.events:
                if e.kind == "await":
                    x = event_of(e.recv)
                    if x is not None and attr_name(x):
                        D.add(attr_name(x))
                        # the wait is inside a loop that re-tests
                        rep.check("srcsleep", f"{e.where} {fs.qual} [{c.name}]", bool(e.loops), "send does not re-check for space after waiting")
                        clears = [y for y in p.calls("clear") if y.recv is x and y.idx < e.idx]
                        rep.check("srcsleep", f"{e.where} {fs.qual} [{c.name}]", bool(clears) and all(y.step == e.step for y in clears[-1:]),
                                  "send waits on an event that may still be set (or was cleared too early)")
        for d in D:
            for f, ps in worker_paths(an, c):
                for p in ps:
                    g = [e for e in queue_gets(p) if e.recv.args[1] == q]
                    if g and outer_backedge(p):
                        st = [e for e in p.calls("set") if attr_name(e.recv) == d]
                        rep.check("srcsleep", f"{g[0].where} {f.qual} [{c.name}]", bool(st), "taking an item does not wake a blocked sender")
            f = an.method(c, "clear")
            for p in finals(an.walk(c, f)):
                st = [e for e in p.calls("set") if attr_name(e.recv) == d]
                rep.check("srcsleep", an.where(f)+f" [{c.name}]", bool(st), "clear does not wake a blocked sender")
    if n < 2:
        raise AnalysisError("source sleep paths not found")


def _holds_item(p, k, ps):
    """loop variable k holds a queue item on some path"""
    for q in ps:
        if outer_backedge(q):
            v = q.end[2].get(k)
            if v is not None and v.op == "meth" and v.args[1] in ("get_nowait", "get"):
                return True
    return False
