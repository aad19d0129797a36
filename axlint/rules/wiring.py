"""C31: bus definitions, encodings and signal wiring are those of the AMBA specifications."""

import ast

from . import prop
from ..core import *
from ..constprop import Const, ClassVal, Ref, Unknown

# AMBA AXI4 / AXI4-Lite / AXI4-Stream / APB4: signals of each channel (mandatory, optional) and the signals of fixed width
AX = lambda p: ([p+x for x in ("id", "addr", "len", "size", "burst", "valid", "ready")], [p+x for x in ("lock", "cache", "prot", "qos", "region", "user")],
                {p+"len": 8, p+"size": 3, p+"burst": 2, p+"lock": 1, p+"cache": 4, p+"prot": 3, p+"qos": 4, p+"region": 4})
LX = lambda p: ([p+x for x in ("addr", "valid", "ready")], [p+"prot"], {p+"prot": 3})
CHANNELS = {
    "AxiAW": AX("aw"), "AxiAR": AX("ar"),
    "AxiW": (["wdata", "wlast", "wvalid", "wready"], ["wstrb", "wuser"], {"wlast": 1}),
    "AxiB": (["bid", "bvalid", "bready"], ["bresp", "buser"], {"bresp": 2}),
    "AxiR": (["rid", "rdata", "rlast", "rvalid", "rready"], ["rresp", "ruser"], {"rresp": 2, "rlast": 1}),
    "AxiLiteAW": LX("aw"), "AxiLiteAR": LX("ar"),
    "AxiLiteW": (["wdata", "wvalid", "wready"], ["wstrb"], {}),
    "AxiLiteB": (["bvalid", "bready"], ["bresp"], {"bresp": 2}),
    "AxiLiteR": (["rdata", "rvalid", "rready"], ["rresp"], {"rresp": 2}),
}
ROLES = {"Source": "StreamSource", "Sink": "StreamSink", "Monitor": "StreamMonitor"}
PLAIN = {
    "AxiStreamBus": (["tdata"], ["tvalid", "tready", "tlast", "tkeep", "tid", "tdest", "tuser"]),
    "AxiStreamBase": (["tdata"], ["tvalid", "tready", "tlast", "tkeep", "tid", "tdest", "tuser"]),
    "ApbBus": (["paddr", "psel", "penable", "pwrite", "pwdata", "pstrb", "pready", "prdata"], ["pprot", "pslverr"]),
}
ENUMS = {
    "AxiBurstType": dict(FIXED=0, INCR=1, WRAP=2),
    "AxiBurstSize": {f"SIZE_{2**k}": k for k in range(8)},
    "AxiLockType": dict(NORMAL=0, EXCLUSIVE=1),
    "AxiCacheBit": dict(B=1, M=2, RA=4, WA=8),
    "AxiProt": dict(PRIVILEGED=1, NONSECURE=2, INSTRUCTION=4),
    "AxiResp": dict(OKAY=0, EXOKAY=1, SLVERR=2, DECERR=3),
}
CACHE = {
    "DEVICE_NON_BUFFERABLE": (0, 0), "DEVICE_BUFFERABLE": (1, 1), "NORMAL_NON_CACHEABLE_NON_BUFFERABLE": (2, 2),
    "NORMAL_NON_CACHEABLE_BUFFERABLE": (3, 3), "WRITE_THROUGH_NO_ALLOC": (0b1010, 0b0110), "WRITE_THROUGH_READ_ALLOC": (0b1110, 0b0110),
    "WRITE_THROUGH_WRITE_ALLOC": (0b1010, 0b1110), "WRITE_THROUGH_READ_AND_WRITE_ALLOC": (0b1110, 0b1110),
    "WRITE_BACK_NO_ALLOC": (0b1011, 0b0111), "WRITE_BACK_READ_ALLOC": (0b1111, 0b0111), "WRITE_BACK_WRITE_ALLOC": (0b1011, 0b1111),
    "WRITE_BACK_READ_AND_WRITE_ALLOC": (0b1111, 0b1111),
}
COMPOSITE = {
    "AxiWriteBus": dict(aw="AxiAWBus", w="AxiWBus", b="AxiBBus"), "AxiReadBus": dict(ar="AxiARBus", r="AxiRBus"),
    "AxiBus": dict(write="AxiWriteBus", read="AxiReadBus"),
    "AxiLiteWriteBus": dict(aw="AxiLiteAWBus", w="AxiLiteWBus", b="AxiLiteBBus"), "AxiLiteReadBus": dict(ar="AxiLiteARBus", r="AxiLiteRBus"),
    "AxiLiteBus": dict(write="AxiLiteWriteBus", read="AxiLiteReadBus"),
}


@prop("C31")
def wiring(an, rep):
    rep.rule("channel", "each channel declares exactly the specified signals, mandatory or optional, with the specified fixed widths")
    rep.rule("roles", "transaction, source, sink and monitor of a channel use that channel's payload, handshake, bus and transaction, and are what their name says")
    rep.rule("bind", "bus objects look up exactly the declared signals in the entity and prefix given")
    rep.rule("enum", "encodings have the specified values")
    rep.rule("bus", "composite buses hold each channel's bus under its name")
    rep.rule("component", "masters and slaves attach the right kind of endpoint to each channel of the bus given")
    rep.rule("export", "the package exports every name as the object of that name")
    channels(an, rep)
    plain(an, rep)
    binding(an, rep)
    encodings(an, rep)
    buses(an, rep)
    components(an, rep)
    exports(an, rep)


def channels(an, rep):
    for ch, (mand, opt, widths) in CHANNELS.items():
        cl = {}
        for r in ("Bus", "Transaction", "Source", "Sink", "Monitor"):
            cl[r] = an.cls(ch+r)     # AnalysisError when the channel is gone
        def val(c, a):
            o = c.lookup_attr(a) if hasattr(c, "lookup_attr") else None
            return _class_value(an, c, a)
        where = f"{cl['Bus'].module.rel} {ch}"
        for r in ("Bus", "Source", "Sink", "Monitor"):
            s, o = val(cl[r], "_signals"), val(cl[r], "_optional_signals")
            if s is None or o is None:
                rep.unk("channel", f"{where}{r}", "the declared signals are not constant")
                continue
            for t, w, g in (("mandatory", mand, s), ("optional", opt, o)):
                miss, extra = sorted(set(w)-set(g)), sorted(set(g)-set(w))
                rep.check("channel", f"{where}{r}", not miss and not extra and len(g) == len(set(g)),
                          f"the {t} signals of {ch}{r} are not the specified ones" + (f": {', '.join(miss)} missing" if miss else "") +
                          (f"{',' if miss else ':'} {', '.join(extra)} not specified as {t}" if extra else ""), f"{t} signals")
        valid, ready = [x for x in mand if x.endswith("valid")][0], [x for x in mand if x.endswith("ready")][0]
        for r, base in ROLES.items():
            w = val(cl[r], "_signal_widths")
            if isinstance(w, dict):
                want = dict(widths, **{valid: 1, ready: 1})
                d = sorted(k for k in set(w) | set(want) if w.get(k) != want.get(k))
                rep.check("channel", f"{where}{r}", not d, f"{ch}{r} has the wrong width for {', '.join(map(str, d))}", "widths")
            else:
                rep.unk("channel", f"{where}{r}", "the widths are not constant")
            rep.check("roles", f"{where}{r}", cl[r].is_sub(base), f"{ch}{r} is not a {base}")
            for a, want in (("_valid_signal", valid), ("_ready_signal", ready)):
                g = val(cl[r], a)
                rep.check("roles", f"{where}{r}", None if g is None else g == want, f"{ch}{r} uses {g!r} as its {a[1:].replace('_', ' ')}, not {want}", a)
            for a, want in (("_bus_obj", "Bus"), ("_transaction_obj", "Transaction")):
                g = val(cl[r], a)
                rep.check("roles", f"{where}{r}", None if g is None else g is cl[want], f"{ch}{r} does not use {ch}{want}", a)
        p = val(cl["Transaction"], "_signals")
        want = [x for x in mand+opt if x not in (valid, ready)]
        if p is None:
            rep.unk("roles", where, "the payload is not constant")
        else:
            rep.check("roles", f"{where}Transaction", sorted(p) == sorted(want), f"a {ch} transaction carries {', '.join(p)} instead of {', '.join(want)}", "payload")
            for x in want:
                d = val(cl["Transaction"], x)
                rep.check("roles", f"{where}Transaction", None if d is None else d == 0, f"the default of {x} is {d!r}, not 0", "default of "+x)
        rep.check("roles", f"{where}Transaction", cl["Transaction"].is_sub("StreamTransaction"), f"{ch}Transaction is not a StreamTransaction")
        rep.check("roles", f"{where}Bus", cl["Bus"].is_sub("StreamBus"), f"{ch}Bus is not a StreamBus")


def _class_value(an, c, a):
    for k in c.mro():
        if a in k.values:
            return k.values[a]
        if a in k.attrs:
            try:
                return Const(an.pkg, k.module).ev(k.attrs[a], {x: None for x in ()})
            except Unknown:
                # a class attribute given in terms of another one of the same class
                env = {}
                for n, e in k.attrs.items():
                    try:
                        env[n] = Const(an.pkg, k.module).ev(e, env)
                    except Unknown:
                        pass
                return env.get(a)
    return None


def plain(an, rep):
    for n, (mand, opt) in PLAIN.items():
        c = an.cls(n)
        for k in [c]+(an.subclasses(n) if n != "ApbBus" else []):
            s, o = _class_value(an, k, "_signals"), _class_value(an, k, "_optional_signals")
            where = f"{k.module.rel} {k.name}"
            if s is None or o is None:
                rep.unk("channel", where, "the declared signals are not constant")
                continue
            rep.check("channel", where, sorted(s) == sorted(mand) and sorted(o) == sorted(opt),
                      f"{k.name} declares {', '.join(s)} (mandatory) and {', '.join(o)} (optional) instead of {', '.join(mand)} and {', '.join(opt)}")


def _value_of(t):
    """literal list a term denotes"""
    if t.op == "list":
        return [x.args[0] if x.op == "const" else None for x in t.args]
    if t.op == "new" and t.args[0] == "list":
        return []
    if t.op == "const":
        return t.args[0]
    return None


def binding(an, rep):
    names = [c+"Bus" for c in CHANNELS]+["AxiStreamBus", "ApbBus"]
    for n in names:
        c = an.cls(n)
        f = c.find("__init__")
        where = f"{c.module.rel} {n}"
        if f is None:
            rep.unk("bind", where, "no constructor")
            continue
        ps = [p for p in an.walk(c, f) if p.kind in ("return", "fall")]
        a = [x.arg for x in f.node.args.args][1:]
        P = lambda x: T("param", f.qual, x)
        for p in ps:
            e = [x for x in p.events if x.kind == "call" and x.name == "__init__" and x.recv is not None and x.recv.op == "super"]
            e = e or [x for x in p.events if x.kind == "call" and isinstance(x.name, str) and x.name.endswith("__init__")]
            if len(e) != 1:
                rep.unk("bind", an.where(f), "the way the signals are looked up is not recognised")
                continue
            e = e[0]
            kw = dict(e.kwargs or ())
            g = dict(zip(("entity", "name", "signals", "optional_signals"), e.args))
            g.update({k: v for k, v in kw.items() if k in ("entity", "name", "signals", "optional_signals")})
            for k, prm in (("entity", 0), ("name", 1)):
                v = g.get(k)
                rep.check("bind", an.where(f, e.node), v is not None and len(a) > prm and v is P(a[prm]), f"the signals of {n} are not looked up with the {k} given", k)
            for k, at in (("signals", "_signals"), ("optional_signals", "_optional_signals")):
                v = g.get(k)
                want = _class_value(an, c, at)
                if v is None:
                    rep.bad("bind", an.where(f, e.node), f"{n} does not look up its {k.replace('_', ' ')}")
                elif is_self_attr(v, at):
                    rep.ok("bind", an.where(f, e.node), k)
                else:
                    g2 = _value_of(v)
                    rep.check("bind", an.where(f, e.node), None if g2 is None else sorted(map(str, g2)) == sorted(want), f"{n} looks up other {k.replace('_', ' ')} than it declares", k)
            rep.check("bind", an.where(f, e.node), "**" in kw, f"{n} drops the caller's options for the signal lookup", "options")
        for m in ("from_entity", "from_prefix"):
            g = c.find(m)
            if g is None:
                rep.bad("bind", where, f"{n} has no {m}")
                continue
            _factory(an, rep, c, g, n, m)
    # transactions take their fields by name
    for ch in CHANNELS:
        c = an.cls(ch+"Transaction")
        f = c.find("__init__")
        payload = c.values.get("_signals") or []
        if f.node.args.kwarg is None:
            rep.unk("bind", an.where(f), "the fields are not taken by name")
            continue
        ps = [p for p in an.walk(c, f) if p.kind in ("return", "fall")]
        vals = {x: set() for x in payload}
        for p in ps:
            got = {}
            for s in p.sets():
                if s.recv.op == "self":
                    got[s.name] = s.value
            for x in payload:
                if x in got:
                    vals[x].add(got[x])
        for x in payload:
            taken = False
            for v in vals[x]:
                if v.op == "const":
                    rep.check("bind", an.where(f), v is ZERO, f"the default of {x} in {c.name} is {v}", f"default {x}")
                    continue
                k = [y.args[0] for y in tm.subterms(v) if y.op == "const" and isinstance(y.args[0], str)]
                taken = taken or x in k
                if k and x not in k:
                    rep.bad("bind", an.where(f), f"field {x} of {c.name} takes the argument {k[-1]}")
            rep.check("bind", an.where(f), True if taken else None, f"how {c.name} takes the value of {x} is not recognised", f"{c.name}.{x}")


def _factory(an, rep, c, g, n, m):
    f = c.find("__init__")
    a = [x.arg for x in f.node.args.args][1:]
    b = [x.arg for x in g.node.args.args][1:]
    Q = lambda x: T("param", g.qual, x)
    for p in an.walk(c, g):
        if p.kind not in ("return", "fall"):
            continue
        e = [x for x in p.events if x.kind == "new" and x.result is p.value]
        if len(e) != 1:
            rep.unk("bind", an.where(g), "the object made is not recognised")
            continue
        e = e[0]
        nm = e.name
        rep.check("bind", an.where(g, e.node), nm == c.name or nm == g.cls.name if g.cls else nm == c.name, f"{m} makes a {nm}", "class")
        kw = dict(e.kwargs or ())
        got = dict(zip(a, e.args))
        got.update({k: v for k, v in kw.items() if k != "**"})
        v = got.get(a[0])
        rep.check("bind", an.where(g, e.node), v is Q(b[0]), f"{m} of {n} does not pass on the entity", "entity")
        v = got.get(a[1])
        if len(b) > 1:
            rep.check("bind", an.where(g, e.node), v is Q(b[1]), f"{m} of {n} does not pass on the prefix", "prefix")
        else:
            rep.check("bind", an.where(g, e.node), v is None or v is NONE, f"{m} of {n} uses a prefix", "prefix")
        rep.check("bind", an.where(g, e.node), "**" in kw, f"{m} of {n} drops the caller's options", "options")


def encodings(an, rep):
    for n, want in ENUMS.items():
        c = an.cls(n)
        cp = Const(an.pkg, c.module)
        env = {}
        for k, e in c.attrs.items():
            try:
                env[k] = cp.ev(e, env)
                if isinstance(env[k], tuple) and len(env[k]) == 1:
                    env[k] = env[k][0]
            except Unknown:
                env[k] = None
        where = f"{c.module.rel}:{c.node.lineno} {n}"
        for k, v in want.items():
            if k not in env:
                rep.bad("enum", where, f"{n}.{k} is missing")
            elif env[k] is None:
                rep.unk("enum", where, f"the value of {n}.{k} is not constant")
            else:
                rep.check("enum", where, env[k] == v, f"{n}.{k} is {env[k]}, specified as {v}", k)
        if not any(b in ("IntEnum", "IntFlag") for k in c.mro() for b in k.ext_bases):
            rep.bad("enum", where, f"the members of {n} are not integers")
    m = an.cls("AxiResp").module
    cp = Const(an.pkg, m)
    for k, (r, w) in CACHE.items():
        for pre, v in (("ARCACHE_", r), ("AWCACHE_", w)):
            if pre+k not in m.names:
                rep.bad("enum", f"{m.rel} {pre}{k}", f"{pre}{k} is missing")
                continue
            try:
                g = cp.lookup(pre+k, {})
            except Unknown:
                rep.unk("enum", f"{m.rel} {pre}{k}", "not constant")
                continue
            rep.check("enum", f"{m.rel} {pre}{k}", g == v, f"{pre}{k} is {g}, specified as {v}")


def _bind_args(f, e):
    a = [x.arg for x in f.node.args.args][1:]
    got = dict(zip(a, e.args))
    kw = dict(e.kwargs or ())
    got.update({k: v for k, v in kw.items() if k != "**"})
    return got, "**" in kw


def buses(an, rep):
    for n, parts in COMPOSITE.items():
        c = an.cls(n)
        init = c.find("__init__")
        P = lambda x: T("param", init.qual, x)
        attr = {}       # constructor parameter -> attribute
        for p in an.walk(c, init):
            if p.kind not in ("return", "fall"):
                continue
            vals = {}
            for s in p.sets():
                if s.recv.op == "self":
                    vals[s.name] = s.value
            for x in parts:
                v = vals.get(x)
                if v is None:
                    rep.bad("bus", an.where(init), f"{n} does not keep its channel {x}")
                elif v.op == "param":
                    attr[v.args[1]] = x
                    rep.check("bus", an.where(init), v.args[1] == x or v.args[1] not in parts, f"{n}.{x} is given the bus passed as {v.args[1]}", x)
                else:
                    rep.unk("bus", an.where(init), f"the value of {n}.{x} is not recognised")
        for m in ("from_entity", "from_prefix"):
            f = c.find(m)
            if f is None:
                rep.bad("bus", f"{c.module.rel} {n}", f"{n} has no {m}")
                continue
            b = [x.arg for x in f.node.args.args][1:]
            Q = lambda x: T("param", f.qual, x)
            for p in an.walk(c, f, noinline=("from_entity", "from_prefix", "from_channels"), key="noinl"):
                if p.kind not in ("return", "fall"):
                    continue
                ev = {e.result: e for e in p.events if e.kind in ("new", "call") and e.result is not None}
                root = ev.get(p.value)
                got = _made(an, c, root, ev)
                if got is None:
                    rep.unk("bus", an.where(f), "the bus made is not recognised")
                    continue
                for par, x in attr.items():
                    want = parts[x]
                    v = got.get(par)
                    e = ev.get(v)
                    if e is None:
                        rep.check("bus", an.where(f), None if v is not None and v is not NONE else False, f"{m} of {n} does not set the channel {x}")
                        continue
                    k = None
                    args, kw = list(e.args), dict(e.kwargs or ())
                    if e.kind == "new":
                        k = e.name
                        if m == "from_prefix" and len(args) < 2 and "prefix" not in kw:
                            rep.bad("bus", an.where(f, e.node), f"{m} of {n} does not pass on the prefix for {x}")
                    else:
                        k = _called_class(e)
                        if k is not None and e.name.split(".")[-1] != m:
                            rep.bad("bus", an.where(f, e.node), f"{m} of {n} finds the channel {x} with {e.name}")
                            continue
                    if k is None:
                        rep.unk("bus", an.where(f, e.node), f"how the channel {x} is found is not recognised")
                        continue
                    rep.check("bus", an.where(f, e.node), k == want, f"{m} of {n} makes a {k} for the channel {x}", f"{m} {x}")
                    allv = args+[v2 for k2, v2 in kw.items()]
                    rep.check("bus", an.where(f, e.node), bool(args) and args[0] is Q(b[0]) or kw.get("entity") is Q(b[0]), f"{m} of {n} does not pass on the entity for {x}", "entity")
                    if m == "from_prefix":
                        rep.check("bus", an.where(f, e.node), Q(b[1]) in allv, f"{m} of {n} does not pass on the prefix for {x}", "prefix")
                    rep.check("bus", an.where(f, e.node), "**" in kw, f"{m} of {n} drops the caller's options for {x}", "options")
        f = c.find("from_channels")
        if f is None:
            rep.bad("bus", f"{c.module.rel} {n}", f"{n} has no from_channels")
            continue
        for p in an.walk(c, f):
            if p.kind not in ("return", "fall"):
                continue
            ev = {e.result: e for e in p.events if e.kind == "new"}
            want = {ch: ch for ch in ("aw", "w", "b", "ar", "r")}
            bad = _channels_of(an, ev, p.value, f, n)
            if bad is None:
                rep.unk("bus", an.where(f), "the bus made is not recognised")
            else:
                leaf = set(bad)
                exp = set(_leaves(n))
                rep.check("bus", an.where(f), leaf == exp, f"from_channels of {n} puts its arguments in the wrong place: " + ", ".join(sorted(f"{b} as {a}" for a, b in leaf-exp)), "from_channels")


def _leaves(n):
    out = []
    for x, k in COMPOSITE[n].items():
        if k in COMPOSITE:
            out += _leaves(k)
        else:
            out.append((x, x))
    return out


def _channels_of(an, ev, t, f, n):
    e = ev.get(t)
    if e is None or e.name not in COMPOSITE:
        return None
    if e.name != n:
        return [("?", e.name)]
    init = an.cls(n).find("__init__")
    got, _ = _bind_args(init, e)
    out = []
    for p in an.walk(an.cls(n), init):
        if p.kind not in ("return", "fall"):
            continue
        for s in p.sets():
            if s.recv.op == "self" and s.name in COMPOSITE[n] and s.value.op == "param":
                v = got.get(s.value.args[1])
                k = COMPOSITE[n][s.name]
                if k in COMPOSITE:
                    r = _channels_of(an, ev, v, f, k) if v is not None else None
                    if r is None:
                        return None
                    out += r
                elif v is not None and v.op == "param":
                    out.append((s.name, v.args[1]))
                else:
                    return None
    return out


def _made(an, c, e, ev):
    """{constructor parameter: value} of the object of class c made by event e (directly or through from_channels)"""
    if e is None:
        return None
    if e.kind == "new" and e.name == c.name:
        return _bind_args(c.find("__init__"), e)[0]
    if e.kind == "call" and e.name.split(".")[-1] == "from_channels" and c.name not in ("AxiBus", "AxiLiteBus"):
        f = c.find("from_channels")
        a = [x.arg for x in f.node.args.args][1:]
        got = dict(zip(a, e.args))
        got.update({k: v for k, v in dict(e.kwargs or ()).items() if k != "**"})
        # position in from_channels is the channel itself (checked separately)
        return got
    return None


def _called_class(e):
    r = e.recv
    if r is not None and r.op == "cls":
        return r.args[0] if isinstance(r.args[0], str) else getattr(r.args[0], "name", None)
    if isinstance(e.name, str) and "." in e.name:
        return e.name.split(".")[0]
    return None


def components(an, rep):
    """masters drive AW, W and AR and receive B and R; slaves the other way round"""
    for fam in ("Axi", "AxiLite"):
        for comp, bus, chans in ((f"{fam}MasterWrite", f"{fam}WriteBus", dict(aw="Source", w="Source", b="Sink")),
                                 (f"{fam}MasterRead", f"{fam}ReadBus", dict(ar="Source", r="Sink")),
                                 (f"{fam}SlaveWrite", f"{fam}WriteBus", dict(aw="Sink", w="Sink", b="Source")),
                                 (f"{fam}SlaveRead", f"{fam}ReadBus", dict(ar="Sink", r="Source"))):
            c = an.cls(comp)
            f = c.find("__init__")
            a = [x.arg for x in f.node.args.args][1:]
            P = lambda x: T("param", f.qual, x)
            ps = an.walk(c, f)
            seen = {}
            for p in ps:
                for e in p.events:
                    if e.kind != "new":
                        continue
                    k = an.pkg.classes.get(e.name)
                    if k is None or not (k.is_sub("StreamBase")):
                        continue
                    b = e.args[0] if e.args else dict(e.kwargs or ()).get("bus")
                    attr = [s.name for s in p.sets() if s.value is e.result and s.recv.op == "self"]
                    seen[e.node.lineno, e.name, b, tuple(attr)] = e
            got = {}
            for (ln, name, b, attr), e in seen.items():
                ch = b.args[1] if b is not None and b.op in ("attr", "mattr") and (b.args[0] is P(a[0]) or is_self_attr(b.args[0], "bus")) else None
                if ch is None:
                    rep.unk("component", an.where(f, e.node), f"the bus given to {name} is not recognised")
                    continue
                if ch not in chans:
                    rep.bad("component", an.where(f, e.node), f"{comp} attaches {name} to {ch}, which its bus does not have")
                    continue
                want = f"{fam}{ch.upper()}{chans[ch]}"
                rep.check("component", an.where(f, e.node), name == want, f"{comp} attaches {name} to the channel {ch} of its bus instead of {want}", ch)
                got.setdefault(ch, []).append((e, attr))
            for ch in chans:
                if ch not in got:
                    rep.check("component", an.where(f), None if len(got) < len(seen) else False, f"{comp} attaches nothing to the channel {ch}")
                elif len(got[ch]) > 1:
                    rep.bad("component", an.where(f), f"{comp} attaches two endpoints to the channel {ch}")
    # the composites hand the halves of their bus to the right component
    for fam in ("Axi", "AxiLite"):
        for comp, parts in ((f"{fam}Master", dict(write=f"{fam}MasterWrite", read=f"{fam}MasterRead")), (f"{fam}Slave", dict(write=f"{fam}SlaveWrite", read=f"{fam}SlaveRead")),
                            (f"{fam}Ram", dict(write=f"{fam}RamWrite", read=f"{fam}RamRead"))):
            c = an.cls(comp)
            f = c.find("__init__")
            a = [x.arg for x in f.node.args.args][1:]
            P = lambda x: T("param", f.qual, x)
            for p in an.walk(c, f):
                if p.kind not in ("return", "fall"):
                    continue
                for half, want in parts.items():
                    es = [e for e in p.events if e.kind == "new" and e.name == want]
                    if len(es) != 1:
                        rep.check("component", an.where(f), False if not es and any(e.kind == "new" for e in p.events) else None, f"{comp} has no {want}")
                        continue
                    b = es[0].args[0] if es[0].args else dict(es[0].kwargs or ()).get("bus")
                    ok = b is not None and b.op in ("attr", "mattr") and b.args[0] is P(a[0])
                    rep.check("component", an.where(f, es[0].node), b.args[1] == half if ok else None, f"{comp} gives the {b.args[1] if ok else '?'} half of its bus to {want}", half)


def exports(an, rep):
    m = an.pkg.modules.get("__init__")
    if m is None:
        raise AnalysisError("package __init__ not found")
    k = 0
    for n, v in m.names.items():
        if v[0] != "import":
            continue
        r = an.pkg.resolve(m, n)
        if r is None or r[0] == "ext":
            rep.bad("export", f"{m.rel} {n}", f"{n} is not defined in {v[1]}")
        elif r[0] in ("class", "func"):
            k += 1
            rep.check("export", f"{m.rel} {n}", r[1].name == n, f"{n} is exported as {r[1].name}")
    for ch in list(CHANNELS)+["AxiStream", "Apb"]:
        rep.check("export", f"{m.rel} {ch}Bus", an.pkg.resolve(m, ch+"Bus") is not None, f"{ch}Bus is not exported")
