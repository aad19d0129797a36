"""Bus geometry (C35): widths, lane counts and masks derived from the connected signals, mismatched buses refused."""

from . import prop, assume
from ..core import *
from .. import eqv
from .bursts import Ev
from .masters import masters
from .streams import groups, stream_components, Roles

assume("C35", "len() of a signal handle is the width of the signal in bits")

DATA = ("wdata", "rdata", "pwdata", "prdata", "tdata")
STRB = ("wstrb", "pstrb")
WIDTHS = (8, 16, 32, 64, 128, 256, 512, 1024)
ODD = (4, 12, 20, 36, 60, 100)
# widths fixed by the AXI4 and AXI4-Lite specifications
SPEC = {"awlen": 8, "awsize": 3, "awburst": 2, "awlock": 1, "awcache": 4, "awprot": 3, "awqos": 4, "awregion": 4,
        "arlen": 8, "arsize": 3, "arburst": 2, "arlock": 1, "arcache": 4, "arprot": 3, "arqos": 4, "arregion": 4,
        "wlast": 1, "rlast": 1, "bresp": 2, "rresp": 2, "awvalid": 1, "awready": 1, "wvalid": 1, "wready": 1, "bvalid": 1, "bready": 1,
        "arvalid": 1, "arready": 1, "rvalid": 1, "rready": 1}


def _len_of(t):
    """name of the signal whose length the term is"""
    if t.op == "call" and t.args[0] == "len" and len(t.args[1]) == 1:
        return attr_name(t.args[1][0])
    return None


def _lens(ts):
    """{signal name: [len terms]}"""
    out = {}
    seen = set()
    for t in ts:
        for x in tm.subterms(t, seen):
            n = _len_of(x)
            if n:
                out.setdefault(n, [])
                if x not in out[n]:
                    out[n].append(x)
    return out


def _conds(p):
    """[(term, value)] everything known to hold when the path is taken"""
    out = [(t, v) for t, v, _ in p.order]
    for e in p.events:
        if e.kind == "assert" and e.value is not None:
            out.append((e.value, True))
    return out


def _final(p, name):
    s = [e for e in p.sets(name) if e.recv.op == "self"]
    return s[-1].value if s else None


def _holds(conds, env):
    """(True if no condition is false, True if some condition could not be evaluated)"""
    open_ = False
    for t, v in conds:
        g = env.get(t)
        if g is Ellipsis or isinstance(g, type):
            open_ = True
        elif bool(g) != v:
            return False, False
    return True, open_


def _relevant(conds, terms):
    """conditions about the given terms; second: some of them mention something else, too"""
    ts = set(terms)
    out = []
    for t, v in conds:
        sub = set(tm.subterms(t))
        if sub & ts:
            out.append((t, v))
    return out


def components(an):
    out = []
    for c in an.subclasses("Reset"):
        if c.find("__init__") is None:
            continue
        if not ({"byte_lanes", "width", "byte_size"} <= set(an.walker().init_alts(c))):
            continue
        out.append(c)
    best = {}
    for c in out:
        f = tuple(sorted({id(k.methods["__init__"].node) for k in c.mro() if "__init__" in k.methods}))
        if any(d is not c and d.is_sub(c.name) for d in out):
            continue
        best[c.name] = c
    if len(best) < 8:
        raise AnalysisError("components with a data width not found")
    return [best[k] for k in sorted(best)]


@prop("C35")
def derive(an, rep):
    rep.rule("derive", "the data width is that of the data signal and divides exactly into the lanes: width = lanes * byte size, 8-bit lanes on memory-mapped buses; masks cover exactly the lanes or bits")
    rep.rule("refuse", "a component is not created on a bus whose data width does not divide into lanes, or whose strobe or ID signals have the wrong width")
    rep.rule("accept", "a bus with consistent widths is not refused")
    n = 0
    for c in components(an):
        f = c.find("__init__")
        w = f"{an.where(f)} [{c.name}]"
        axis = "byte_mask" in an.walker().init_alts(c)
        ps = an.walk(c, "__init__")
        done = set()
        for p in ps:
            conds = _conds(p)
            vals = {a: _final(p, a) for a in ("width", "byte_size", "byte_lanes", "strb_mask", "byte_mask", "id_width", "address_width")}
            if p.kind not in ("return", "fall", "raise"):
                continue
            if axis:
                n += _axis_path(an, rep, c, f, p, conds, vals, w, done)
                continue
            key = (p.kind, tuple((t, v) for t, v in conds), tuple(vals.items()))
            if key in done:
                continue
            done.add(key)
            n += _mm_path(an, rep, c, f, p, conds, vals, w)
    if n < 30:
        raise AnalysisError("constructors of components not found")


def _present(p, name):
    """True / False / None: the optional signal is known to be present on the path"""
    hs = [x for t, v, _ in p.order for x in tm.subterms(t) if x.op == "hasattr" and x.args[1].op == "const" and x.args[1].args[0] == name]
    for h in hs:
        if entails(p.lits, h):
            return True
        if entails(p.lits, h, False):
            return False
    return None


def _mm_path(an, rep, c, f, p, conds, vals, w):
    lens = _lens([t for t, _ in conds]+[v for v in vals.values() if v is not None])
    dn = [x for x in DATA if x in lens]
    if not dn:
        if p.kind in ("return", "fall"):
            rep.bad("derive", w, "the data width is not taken from the data signal")
            return 1
        return 0
    W, S, L, M = vals["width"], vals["byte_size"], vals["byte_lanes"], vals["strb_mask"]
    D = [x for d in dn for x in lens[d]]
    # every data signal mentioned has its own width; the one the component uses decides
    main = [d for d in dn if W is not None and any(x in lens[d] for x in tm.subterms(W))] or dn[:1]
    D = lens[main[0]]
    N = [x for s in STRB for x in lens.get(s, [])]
    ids = {s: x for s, x in lens.items() if s in ("awid", "bid", "arid", "rid")}
    rel = _relevant(conds, D+N+[x for xs in ids.values() for x in xs])
    if p.kind in ("return", "fall"):
        bad = {}
        for d in WIDTHS+ODD:
            for ns in ((d//8, d//8+1, max(d//8-1, 0), 2*(d//8)) if N else (None,)):
                for ia, ib in (((3, 3), (3, 4), (4, 3)) if ids else ((3, 3),)):
                    fix = {x: d for x in D}
                    fix.update({x: ns for x in N})
                    for s, xs in ids.items():
                        fix.update({x: ia if s.startswith("a") else ib for x in xs})
                    env = Ev(fix)
                    ok, op = _holds(rel, env)
                    if not ok:
                        continue
                    got = {a: env.get(v) if v is not None else Ellipsis for a, v in (("W", W), ("S", S), ("L", L), ("M", M))}
                    if any(isinstance(g, type) for g in got.values()):
                        if d in WIDTHS and (not N or ns == d//8) and ia == ib:
                            bad.setdefault("derive", f"no masks or lanes can be computed for a data width of {d} bits")
                        continue
                    legal = d % 8 == 0 and (not N or ns == d//8)
                    if op and not (legal and ia == ib):
                        bad.setdefault("?", "whether the widths are checked is not recognised")
                        continue
                    if not legal:
                        bad.setdefault("refuse", "a bus is accepted whose %s" % ("strobe width does not match its data width" if d % 8 == 0 else "data width does not divide into bytes"))
                    elif ia != ib:
                        bad.setdefault("refuse", "a bus is accepted whose response ID width differs from the request ID width")
                    if d % 8 == 0 and d in WIDTHS:
                        for a, want in (("W", d), ("S", 8), ("L", d//8), ("M", 2**(d//8)-1)):
                            if got[a] is not Ellipsis and got[a] != want:
                                bad.setdefault("derive", {"W": "the data width is not that of the data signal", "S": "the byte size is not 8 bits", "L": "the number of byte lanes is not the data width in bytes",
                                                          "M": "the full strobe mask does not cover exactly the byte lanes"}[a])
        # widths never looked at
        if main[0][0] != "r" and main[0] != "prdata" and not N and not any(_present(p, x) is False for x in STRB):
            bad.setdefault("refuse", "the width of the strobe signal is not checked")
        if any(x in an.walker().init_alts(c) for x in ("id_width",)) and not ({"awid", "bid"} <= set(ids) or {"arid", "rid"} <= set(ids)):
            bad.setdefault("refuse", "the widths of the ID signals are not compared")
        if vals["id_width"] is not None:
            nm = _len_of(vals["id_width"])
            rep.check("derive", w, None if nm is None else nm in ("awid", "arid"), "the ID width is not that of the request ID signal")
        if vals["address_width"] is not None:
            nm = _len_of(vals["address_width"])
            rep.check("derive", w, None if nm is None else nm in ("awaddr", "araddr", "paddr"), "the address width is not that of the address signal")
        for r in ("derive", "refuse"):
            if r in bad:
                rep.bad(r, w, bad[r])
            elif "?" in bad and r == "refuse":
                rep.unk(r, w, bad["?"])
            elif None in (W, L):
                rep.unk(r, w, "width or lane count not recognised")
            else:
                rep.ok(r, w)
        # the asserts themselves must hold for consistent widths
        for d in WIDTHS:
            fix = {x: d for x in D}
            fix.update({x: d//8 for x in N})
            for xs in ids.values():
                fix.update({x: 4 for x in xs})
            env = Ev(fix)
            for e in p.events:
                if e.kind == "assert" and e.value is not None and env.get(e.value) is False:
                    rep.bad("accept", f"{e.where} [{c.name}]", f"a bus with a data width of {d} bits is refused")
        rep.ok("accept", w)
        return 1
    # refused
    if p.kind == "raise" and rel:
        last = conds[-1]
        if last in rel:
            for d in WIDTHS:
                fix = {x: d for x in D}
                fix.update({x: d//8 for x in N})
                for xs in ids.values():
                    fix.update({x: 4 for x in xs})
                ok, op = _holds(rel, Ev(fix))
                if ok and not op:
                    rep.bad("accept", w, f"a bus with a data width of {d} bits is refused")
                    return 1
        rep.ok("accept", w)
        return 1
    return 0


def _present_any(p, names):
    return any(_present(p, x) for x in names)


def _axis_path(an, rep, c, f, p, conds, vals, w, done):
    W, S, L, M = vals["width"], vals["byte_size"], vals["byte_lanes"], vals["byte_mask"]
    pool = [t for t, _ in conds]+[v for v in vals.values() if v is not None]
    par = {}
    for t in pool:
        for x in tm.subterms(t):
            if x.op == "param" and x.args[1] in ("byte_size", "byte_lanes"):
                par[x.args[1]] = x
    lens = _lens(pool)
    D, K = lens.get("tdata", []), lens.get("tkeep", [])
    keep = _present(p, "tkeep")
    if not D:
        if p.kind in ("return", "fall"):
            rep.bad("derive", w, "the data width is not taken from tdata")
            return 1
        return 0
    if keep is None:
        if p.kind in ("return", "fall"):
            rep.bad("derive", w, "the lane count does not depend on tkeep being connected")
            return 1
        return 0
    rel = _relevant(conds, D+K+list(par.values()))
    if p.kind == "raise" and (not conds or conds[-1] not in rel):
        return 0
    key = (c.name, p.kind, keep, tuple(sorted(set((str(t), v) for t, v in rel))), (W, S, L, M))
    if key in done:
        return 0
    done.add(key)
    bad = {}
    for d in (8, 16, 24, 32, 64, 20, 36):
        for k in ((1, 2, 3, 4, 8) if keep else (None,)):
            for bs in (None, 8, 1, 4, 10) if "byte_size" in par or p.kind != "raise" else (None,):
                for bl in (None, 1, 2, 3, 4) if "byte_lanes" in par or p.kind != "raise" else (None,):
                    fix = {x: d for x in D}
                    fix.update({x: k for x in K})
                    for nm, v in (("byte_size", bs), ("byte_lanes", bl)):
                        if nm in par:
                            fix[par[nm]] = v
                    if not keep and bs is not None and d//bs == 0:
                        continue    # no lanes at all: the division by the lane count fails
                    env = Ev(fix)
                    ok, op = _holds(rel, env)
                    if not ok:
                        continue
                    both = bs is not None and bl is not None
                    if keep:
                        lanes, legal = k, bs is None and bl is None
                    elif bl is not None:
                        lanes, legal = bl, bs is None
                    else:
                        lanes, legal = (d//bs if bs is not None else d//8), True
                    legal = legal and lanes > 0 and d % lanes == 0
                    if p.kind == "raise":
                        if legal and not op:
                            bad.setdefault("accept", "a stream whose data width divides evenly into its lanes is refused")
                        continue
                    got = {a: env.get(v) if v is not None else Ellipsis for a, v in (("W", W), ("S", S), ("L", L), ("M", M))}
                    if any(isinstance(g, type) for g in got.values()):
                        continue    # fails anyway
                    if not legal:
                        if op:
                            bad.setdefault("?", "whether the widths are checked is not recognised")
                        else:
                            bad.setdefault("refuse", "conflicting lane settings are accepted" if keep and (bs, bl) != (None, None) or both else "a data width that does not divide into lanes is accepted")
                        continue
                    for a, want in (("W", d), ("S", d//lanes), ("L", lanes), ("M", 2**(d//lanes)-1)):
                        if got[a] is not Ellipsis and got[a] != want:
                            bad.setdefault("derive", {"W": "the data width is not that of tdata", "S": "the byte size is not the data width divided by the lanes",
                                                      "L": "the number of lanes is not the one given by tkeep, byte_lanes or byte_size (8-bit lanes by default)",
                                                      "M": "the byte mask does not cover exactly one byte"}[a])
    if p.kind == "raise":
        rep.check("accept", w, "accept" not in bad, bad.get("accept", ""))
        return 1
    for r in ("derive", "refuse"):
        if r in bad:
            rep.bad(r, w, bad[r])
        elif "?" in bad and r == "refuse":
            rep.unk(r, w, bad["?"])
        elif None in (W, S, L):
            rep.unk(r, w, "width or lane count not recognised")
        else:
            rep.ok(r, w)
    return 1


@prop("C35")
def signal_widths(an, rep):
    rep.rule("signals", "a channel component is not created when a signal with a specified width has another width, and is when all have theirs")
    n = 0
    seen = set()
    for c in an.subclasses("Reset"):
        st = None
        for k in c.mro():
            st = st or getattr(k, "stream", None)
        if not st or c.find("__init__") is None:
            continue
        f = c.find("__init__")
        w = f"{an.where(f)} [{c.name}]"
        done = set()
        for p in finals(an.walk(c, "__init__")):
            asserts = [e.value for e in p.events if e.kind == "assert" and e.value is not None]
            lens = _lens(asserts+[t for t, _, _ in p.order])
            want = {s: v for s, v in SPEC.items() if s in st["signals"]+st["optional"]}
            for s, width in {**st["widths"], **want}.items():
                if s not in st["signals"]+st["optional"]:
                    continue
                pres = _present(p, s)
                if pres is False:
                    continue
                key = (s, tuple(lens.get(s, ())), tuple(a for a in asserts if any(x in tm.subterms(a) for x in lens.get(s, ()))))
                if key in done:
                    continue
                done.add(key)
                n += 1
                xs = lens.get(s, [])
                if not xs:
                    rep.bad("signals", w, f"the width of {s} is not checked")
                    continue
                conds = [(t, v) for t, v in _conds(p) if any(x in tm.subterms(t) for x in xs)]
                for v in (width-1, width+1, width, 0, 64):
                    ok, op = _holds(conds, Ev({x: v for x in xs}))
                    if ok and v != width:
                        if op:
                            rep.unk("signals", w, f"how the width of {s} is checked is not recognised")
                        else:
                            rep.bad("signals", w, f"{s} is accepted with the wrong width")
                    elif not ok and v == width:
                        rep.bad("signals", w, f"{s} is refused with the right width")
                    else:
                        rep.ok("signals", w)
    if n < 10:
        raise AnalysisError("width checks of channel components not found")
