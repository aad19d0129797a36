"""Address spaces (C21), windows and pools (C22), range checks (C23), sparse memory (C24), RAM models (C30)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .loops import *
from .words import unbytes, meth_call

NEG = ([-3, -2, -1, 0, 1, 2, 3, 4, 5], [-1, 0, 1, 2, 3], [0, 1, 2, 3, 4, 5, 6], [-4, 0, 4, 7, 8, 9, 16], [0, 1, 2, 3])
POS = ([0, 1, 2, 3, 4, 5, 6, 7, 8], [0, 1, 2, 3], [0, 1, 2, 4, 8, 16, 32], [1, 5, 9, 13, 17, 21, 40], [0, 3, 4, 4, 5, 8])
BLK = ([0, 1, 5, 4000, 4095, 4096, 4097, 8191, 8192, 10000], [0, 1, 2, 3, 4, 8], [0, 4090, 4096, 100, 3996, 5000], [1, 2, 4095, 4096, 4097, 12288, 20000], [0, 1, 2, 3, 100, 255, 256, 1000, 1024, 4000])


def list_calls(p, name):
    return list(p.calls(name))


def arith_lits(p, upto=None):
    o = p.order if upto is None else p.order[:upto]
    return [(norm(t), v) for t, v, _ in o]


def fparam(f, i):
    return T("param", f.qual, [a.arg for a in f.node.args.args][i])


def self_size(an, c, f):
    """term for the size of the object of class c as read in its methods"""
    g = c.prop("size")
    me = T("self", c.name)
    if g and g.get("get") is not None:
        for p in finals(an.walk(c, g["get"])):
            if p.value is not None:
                return norm(p.value)
    return self_attr(an, c, "size")


def self_attr(an, c, name):
    """an attribute of self as the walker reads it: the constructor argument it is always set from, or the attribute"""
    d = an.walker().init_summary(c).get(name)
    if d is not None:
        return norm(d)
    return T("attr", T("self", c.name), name)


def length_term(f, i):
    n = [a.arg for a in f.node.args.args][i]
    pt = T("param", f.qual, n)
    return T("call", "len", (pt,), (), 0) if n in ("data", "value") else pt


def relevant(lits, atoms):
    """literals over the given quantities only"""
    return [(t, v) for t, v in lits if eqv.atoms(t) <= atoms]


def in_range(a, l, s):
    return tm.and_(tm.not_(tm.lt(a, ZERO)), tm.not_(tm.lt(l, ZERO)), tm.not_(tm.lt(s, tm.add(a, l))))


# ------------------------------------------------------------------ C23

def effect_at(p, names):
    """first event of the path that reads or writes memory: (event, number of literals known)"""
    for e in p.events:
        if e.kind in ("setitem", "delitem") or e.kind == "call" and (e.name in names):
            return e
    return None


def guards(an, rep, c, f, ai, li, names, what, sized=None):
    w = an.where(f)+f" [{c.name}]"
    S = sized or self_size(an, c, f)
    a = fparam(f, ai)
    l = length_term(f, li) if isinstance(li, int) else li
    la = {a, S} | ({x for x in eqv.atoms(l)})
    ps = an.walk(c, f, noinline=names)
    n = 0
    pos = [(tm.lt(ZERO, S), True)]
    if any(x.op == "call" and x.args[0] == "len" for x in tm.subterms(l)):
        pos.append((tm.lt(l, ZERO), False))
    base = in_range(a, l, S)
    for p in ps:
        if any(k == "noexc" for k in ()):
            continue
        lits = arith_lits(p)
        e = effect_at(p, names)
        if e is not None or p.kind in ("return", "fall"):
            n += 1
            G = relevant([(norm(t), v) for t, v, _ in (p.order[:e.nlits] if e is not None and isinstance(e.nlits, int) else p.order)], la)+pos
            r = eqv.implies(G, base, n=1500, domains=NEG)
            rep.check("before", w, r, f"{what} is reached with an access outside the range")
        elif p.kind == "raise" and not any(x.kind == "except" for x in p.events):
            if any(x.op in ("mu",) for t, v in lits for x in tm.subterms(t)):
                continue
            rel = relevant(lits, la)
            if len(rel) != len(lits):
                continue
            n += 1
            # an empty access right at the end may go either way
            r = eqv.implies(rel+pos+[(tm.lt(a, S), True)], tm.not_(base), n=1500, domains=NEG)
            if r is None:
                r = True    # never taken for an access that starts inside
            rep.check("refuse", w, r, "an access within the range is refused")
    if not n:
        rep.unk("before", w, "no path analysed")


@prop("C23")
def ranges(an, rep):
    rep.rule("before", "every path to a read or write of the memory behind (and every normal return) has established 0 <= start, start+length <= size")
    rep.rule("refuse", "an access is refused by the range check only when it is out of range")
    mi = an.cls("MemoryInterface")
    sm = an.cls("SparseMemory")
    for c in [x for x in an.pkg.classes.values() if (x is mi or x.is_sub(mi.name)) and x.module is mi.module]:
        for m, nm in (("read", ("_read",)), ("write", ("_write",))):
            f = c.find(m)
            if f is None:
                continue
            asp = f.cls is not mi and f.cls is not None if hasattr(f, "cls") else m in c.methods and c is not mi
            names = nm
            if m in c.methods and c is not mi:
                names = (m, nm[0])
            elif c is not mi and any(m in k.methods for k in an.pkg.classes.values() if k is not mi and c.is_sub(k.name)):
                names = (m, nm[0])
            guards(an, rep, c, f, 1, 2, names, f"the {m}")
        for m in ("get_absolute_address", "get_parent_address"):
            f = c.methods.get(m)
            if f is None:
                continue
            S = self_size(an, c, f)
            a = fparam(f, 1)
            w = an.where(f)
            for p in an.walk(c, f):
                lits = relevant(arith_lits(p), {a, S})+[(tm.lt(ZERO, S), True)]
                inr = tm.and_(tm.not_(tm.lt(a, ZERO)), tm.lt(a, S))
                if p.kind == "raise":
                    rep.check("refuse", w, eqv.implies(lits, tm.not_(inr), n=1500, domains=NEG) is not False, "an address within the range is refused")
                elif p.value is not None and p.value is not NONE:
                    rep.check("before", w, eqv.implies(lits, inr, n=1500, domains=NEG), "an address outside the range is translated")
        for m in ("create_window", "create_window_pool", "create_pool"):
            f = c.methods.get(m)
            if f is None:
                continue
            w = an.where(f)
            S = self_size(an, c, f)
            for p in finals(an.walk(c, f, noinline=("register_region",))):
                cr = [e for e in p.events if e.kind in ("call", "new") and len(e.args) >= 3 and e.args[0].op == "self" and
                      (e.kind == "new" or e.name in ("()", "__call__") or e.recv is not None and e.recv.op in ("vor", "cls", "param", "attr", "mattr"))]
                if not cr:
                    rep.unk("before", w, "construction of the window not found")
                    continue
                e = cr[0]
                a, l = norm(e.args[1]), norm(e.args[2])
                at = eqv.atoms(a) | eqv.atoms(l) | {S}
                G = relevant(arith_lits(p), at)+[(tm.lt(ZERO, S), True)]
                rep.check("before", w, eqv.implies(G, in_range(a, l, S), n=2000, domains=NEG), "a window outside the range is created")
    for m in ("read", "write"):
        f = an.method(sm, m)
        guards(an, rep, sm, f, 1, 2, ("extend", "append"), f"the {m}")
    f = an.method("AddressSpace", "find_regions")
    guards(an, rep, an.cls("AddressSpace"), f, 1, 2, ("append",), "the search")


@prop("C22", "C23")
def entries(an, rep):
    rep.rule("entry", "every other access method (word, byte access, ...) reaches the raw access of the interface only through its range check")
    mi = an.cls("MemoryInterface")
    n = 0
    for c in [x for x in an.pkg.classes.values() if (x is mi or x.is_sub(mi.name)) and x.module is mi.module]:
        for m, f in sorted(c.methods.items()):
            if m.startswith("_") or m in ("read", "write") or m in c.props:
                continue
            ps = an.walk(c, f, noinline=("read", "write", "_read", "_write"))
            hit = False
            for p in ps:
                for e in p.events:
                    if e.kind != "call" or e.recv is None or e.recv.op != "self":
                        continue
                    if e.name in ("read", "write") and not hit:
                        n += 1
                        hit = True
                        rep.ok("entry", an.where(f))
                    if e.name in ("_read", "_write") and len(e.args) >= 2:
                        n += 1
                        S = self_size(an, c, None)
                        a = norm(e.args[0])
                        L = norm(e.args[1]) if e.name == "_read" else None
                        w = f"{e.where} {f.qual} [{c.name}]"
                        if L is None:
                            d = e.args[1]
                            lens = [x for t, v, _ in p.order for x in tm.subterms(norm(t)) if x.op == "call" and x.args[0] == "len" and x.args[1][0] is d]
                            L = lens[0] if lens else T("call", "len", (d,), (), 0)
                        at = eqv.atoms(a) | eqv.atoms(L) | {S}
                        G = relevant(arith_lits(p), at)+[(tm.lt(ZERO, S), True)]
                        if e.name == "_write":
                            G.append((tm.lt(L, ZERO), False))
                        rep.check("entry", w, eqv.implies(G, in_range(a, L, S), n=2000, domains=NEG), f"{m} reaches {e.name} without checking that the whole access is in range")
                    # accesses of the parent that do not go through this interface's own read or write
                L = None
                for e in p.events:
                    if e.kind == "call" and e.recv is not None and is_self_attr(e.recv) and "parent" in e.recv.args[1] and e.args:
                        L = _extent(an, e, p)
                        if L is None:
                            continue
                        n += 1
                        S = self_size(an, c, None)
                        offs = [x for x in eqv.atoms(norm(e.args[0])) if x.op in ("attr", "mattr", "param") and "offset" in x.args[1] and not (x.op == "param" and x.args[0] == f.qual)]
                        a = norm(tm.sub_(e.args[0], offs[0]) if offs else e.args[0])
                        L = norm(L)
                        at = eqv.atoms(a) | eqv.atoms(L) | {S}
                        G = relevant(arith_lits(p), at)+[(tm.lt(ZERO, S), True), (tm.lt(L, ZERO), False)]
                        rep.check("entry", f"{e.where} {f.qual} [{c.name}]", eqv.implies(G, in_range(a, L, S), n=2000, domains=NEG),
                                  f"{m} reaches the parent's {e.name} without checking that the whole access is inside")
    if not n:
        rep.unk("entry", mi.name, "access methods not found")


def _extent(an, e, p):
    """bytes covered by a call of an access method of a memory interface; None when it is no access"""
    import re
    m = re.fullmatch(r"_?(read|write)(?:_(byte|word|dword|qword)(s)?)?(_nowait)?", e.name or "")
    if not m or len(e.args) < (1 if m.group(2) and not m.group(3) and m.group(1) == "read" else 2):
        return None
    d, u, many = m.group(1), m.group(2), m.group(3)
    lenof = lambda x: ([y for t, v, _ in p.order for y in tm.subterms(norm(t)) if y.op == "call" and y.args[0] == "len" and y.args[1][0] is x] or [T("call", "len", (x,), (), 0)])[0]
    if u is None:
        return e.args[1] if d == "read" else lenof(e.args[1])
    cnt = ONE
    if many:
        cnt = e.args[1] if d == "read" else lenof(e.args[1])
    ws = {"byte": 1, "dword": 4, "qword": 8}.get(u)
    if ws is None:
        i = 3 if many or d == "write" else 2
        ws = e.arg(i, "ws")
        if ws is None:
            ws = const(2)
    else:
        ws = const(ws)
    return tm.mul(cnt, ws)


# ------------------------------------------------------------------ C22

@prop("C22")
def windows(an, rep):
    rep.rule("offset", "an access through a window is one access of the parent at offset+address, with the same length or data and arguments, and its result is returned")
    rep.rule("inside", "the parent is reached only with 0 <= address and address+length <= size of the window")
    rep.rule("create", "a window is created over the offset and size asked for (the rest of the parent by default), as a child of this interface")
    rep.rule("base", "the absolute base of a window is that of the parent plus the offset; it is unknown only when the parent's is")
    rep.rule("pool", "a pool allocates from exactly its own size and hands out a window or region at the address allocated, of the size asked for")
    mi = an.cls("MemoryInterface")
    wins = [c for c in an.pkg.classes.values() if c.module is mi.module and "get_parent_address" in {m for k in c.mro() for m in k.methods}] \
        if hasattr(mi, "mro") and callable(getattr(mi, "mro")) else [c for c in an.pkg.classes.values() if c.module is mi.module and c.find("get_parent_address")]
    if not wins:
        raise AnalysisError("window class not found")
    for c in wins:
        me = T("self", c.name)
        # constructor
        f = c.find("__init__")
        w = an.where(f)+f" [{c.name}]"
        names = [a.arg for a in f.node.args.args]
        for p in finals(an.walk(c, f)):
            st = {s.name: s.value for s in p.sets() if s.recv.op == "self"}
            for i, nm in ((1, "parent"), (2, "offset"), (3, "size")):
                if i < len(names):
                    v = T("param", f.qual, names[i])
                    rep.check("create", w, any(x is v for k, x in st.items() if nm in k), f"the {nm} of the window is not kept")
            bp = [n for n in names if n == "base"]
            if bp:
                rep.check("base", w, any(x is T("param", f.qual, "base") for k, x in st.items() if "base" in k), "the base of the window is not kept")
        f = c.find("__init__")
        # attribute that holds the offset / parent
        offs = {k for p in finals(an.walk(c, f)) for k, v in ((s.name, s.value) for s in p.sets() if s.recv.op == "self")
                if v is T("param", f.qual, names[2])}
        pars = {k for p in finals(an.walk(c, f)) for k, v in ((s.name, s.value) for s in p.sets() if s.recv.op == "self")
                if v is T("param", f.qual, names[1])}
        S = self_size(an, c, f)
        for m in ("read", "write"):
            f = an.method(c, m)
            w = an.where(f)+f" [{c.name}.{m}]"
            a, x = fparam(f, 1), fparam(f, 2)
            L = length_term(f, 2)
            for p in an.walk(c, f):
                cs = [e for e in p.events if e.kind == "call" and e.recv is not None and attr_name(e.recv) in pars | {"parent", "_parent"}]
                if p.kind == "raise":
                    rep.check("inside", w, not cs, "the parent is accessed before the access is refused")
                    continue
                if p.kind not in ("return", "fall"):
                    continue
                if len(cs) != 1:
                    rep.bad("offset", w, f"{len(cs)} accesses of the parent are made")
                    continue
                e = cs[0]
                ad = norm(e.arg(0, "address")) if e.arg(0, "address") is not None else None
                want = [tm.add(a, self_attr(an, c, o)) for o in offs]+[tm.add(a, T("attr", me, o)) for o in offs]
                rep.check("offset", w, e.name == m and ad in want, f"the parent is accessed by {e.name} at {tm.show(ad) if ad is not None else None}")
                d = e.arg(1, "length" if m == "read" else "data")
                rep.check("offset", w, d is not None and (d is x or unbytes(d) is x), "another length or other data is passed to the parent")
                rep.check("offset", w, any(k == "**" for k, _ in e.kwargs), "keyword arguments are not passed on")
                if m == "read":
                    rep.check("offset", w, p.value is not None and (p.value is e.result or unbytes(p.value) is e.result), "the data read is not returned")
                G = relevant(arith_lits(p), {a, S} | eqv.atoms(L))+[(tm.lt(ZERO, S), True)]
                if m == "write":
                    G.append((tm.lt(L, ZERO), False))
                rep.check("inside", w, eqv.implies(G, in_range(a, L, S), n=1500, domains=NEG), "the parent is accessed outside the window")
    # creation
    for c in [k for k in an.pkg.classes.values() if k.module is mi.module]:
        me = T("self", c.name)
        S = self_size(an, c, None)
        for m in ("create_window", "create_window_pool"):
            f = c.methods.get(m)
            if f is None:
                continue
            w = an.where(f)
            off, sz = fparam(f, 1), fparam(f, 2)
            for p in finals(an.walk(c, f)):
                cr = [e for e in p.events if e.kind in ("call", "new") and e.args and len(e.args)+len(e.kwargs) >= 3 and e.result is p.value]
                if len(cr) != 1:
                    cr = [e for e in p.events if e.kind in ("call", "new") and e.args and e.args[0].op == "self" and len(e.args) >= 2]
                if len(cr) != 1:
                    rep.unk("create", w, "construction of the window not found")
                    continue
                e = cr[0]
                pa = e.arg(0, "parent")
                rep.check("create", w, None if pa is None else pa is me, f"the window accesses {tm.show(pa)[:50] if pa is not None else None} instead of this interface")
                o, s = e.arg(1, "offset"), e.arg(2, "size")
                if o is None or s is None:
                    rep.unk("create", w, "offset or size of the window not found")
                    continue
                rep.check("create", w, p.value is e.result, "another object than the window is returned")
                rep.check("create", w, o is off or o is ZERO and p.lits.truth(tm.isnone(off)) is True, f"the window starts at {tm.show(o)}")
                rest = tm.sub_(S, norm(o))
                sn = norm(s)
                if sn is sz or sn is norm(sz):
                    rep.ok("create", w)
                else:
                    # default: only when no (positive) size is given
                    G = relevant(arith_lits(p), {sz, S, norm(o)} | eqv.atoms(norm(o)))
                    given = p.lits.truth(tm.isnone(sz)) is True or p.lits.truth(tm.truthy(sz)) is False or \
                        eqv.implies(G, tm.not_(tm.lt(ZERO, sz)), n=800, domains=NEG) is not False
                    rep.check("create", w, sn is rest and given, f"the window has size {tm.show(sn)[:60]}")
                b = e.arg(3, "base")
                if b is None:
                    rep.bad("base", w, "the base of the window is not given")
                    continue
                pb = T("attr", me, "_base")
                bt = norm(b)
                unknown = [x for x, v, _ in p.order if x.op == "isnone" and norm(x.args[0]) is pb]
                isn = p.lits.truth(unknown[0]) if unknown else None
                if b is NONE:
                    rep.check("base", w, isn is True or None if isn is None else isn, "the base of the window is lost")
                else:
                    rep.check("base", w, bt is tm.add(pb, norm(o)), f"base of the window is {tm.show(bt)[:60]}")
    # pools
    for c in [k for k in an.pkg.classes.values() if k.module is mi.module]:
        for m in ("alloc_window", "alloc_region"):
            f = c.methods.get(m)
            if f is None:
                continue
            w = an.where(f)
            sz = fparam(f, 1)
            for p in finals(an.walk(c, f, noinline=("alloc", "create_window", "register_region"))):
                al = list_calls(p, "alloc")
                if len(al) != 1:
                    rep.bad("pool", w, f"{len(al)} allocations are made")
                    continue
                rep.check("pool", w, al[0].args[:1] == (sz,) , "another size is allocated than asked for")
                got = al[0].result
                if m == "alloc_window":
                    cw = list_calls(p, "create_window")
                    ok = len(cw) == 1 and cw[0].arg(0, "offset") is got and cw[0].arg(1, "size") is sz and p.value is cw[0].result
                    rep.check("pool", w, ok, "the window handed out is not the block allocated")
                else:
                    rg = list_calls(p, "register_region")
                    ok = len(rg) == 1 and rg[0].arg(1, "base") is got and p.value is rg[0].arg(0, "region")
                    rep.check("pool", w, ok, "the region handed out is not at the block allocated")
                    if ok:
                        o4 = rg[0].arg(3, "offset")
                        rep.check("pool", w, o4 in (None, ZERO), "the region is registered with an offset")
                        s3 = rg[0].arg(2, "size")
                        rep.check("pool", w, s3 is None or s3 is NONE or s3 is sz, "the region is registered with another size")
                        nw = [e for e in p.events if e.kind in ("new", "call") and e.result is p.value]
                        rep.check("pool", w, bool(nw) and nw[0].arg(0, "size") is sz, "the region has another size than asked for")
            g = c.find("__init__")
            gw = an.where(g)
            for p in finals(an.walk(c, g)):
                st = [s for s in p.sets("allocator")]
                v = st[-1].value if st else None
                args = None
                for e in p.events:
                    if e.result is v and e.kind in ("new", "call") and v is not None:
                        args = e.args
                sp = T("param", g.qual, "size")
                if v is None:
                    rep.bad("pool", gw, "the pool has no allocator")
                elif args is None and v.op == "call":
                    args = v.args[1]
                rep.check("pool", gw, None if args is None else args[:1] == (sp,), "the allocator does not manage exactly the pool")


# ------------------------------------------------------------------ C21

def region_columns(an, c):
    """meaning of the columns of the region table: index -> base/size/offset/region"""
    f = an.method(c, "register_region")
    cols = None
    for p in finals(an.walk(c, f, noinline=("find_regions",))):
        for e in p.events:
            if e.kind == "call" and e.name == "append" and attr_name(e.recv) == "regions" and e.args[0].op == "tuple":
                cols = e.args[0].args
    return f, cols


@prop("C21")
def registration(an, rep):
    rep.rule("register", "a region is entered with its base, size and offset exactly when the address range is valid and no registered region overlaps it; afterwards it knows its parent and absolute base")
    c = an.cls("AddressSpace")
    f, cols = region_columns(an, c)
    w = an.where(f)
    P = {n: T("param", f.qual, n) for n in [a.arg for a in f.node.args.args]}
    me = T("self", c.name)
    for p in an.walk(c, f, noinline=("find_regions",)):
        fr = list_calls(p, "find_regions")
        ap = [e for e in p.events if e.kind == "call" and e.name == "append" and attr_name(e.recv) == "regions"]
        other = [e for e in p.events if e.kind == "call" and attr_name(e.recv) == "regions" and e.name not in ("append", "sort")]
        if p.kind == "raise":
            rep.check("register", w, not ap, "a region is entered although it is refused")
            continue
        if p.kind not in ("return", "fall"):
            continue
        if other:
            rep.unk("register", w, f"region table changed by {other[0].name}")
            continue
        if len(ap) != 1:
            rep.bad("register", w, f"the region is entered {len(ap)} times")
            continue
        t = ap[0].args[0]
        sz = P["size"] if p.lits.truth(tm.isnone(P["size"])) is not True else T("attr", P["region"], "size")
        if t.op != "tuple":
            rep.unk("register", w, "entry of the region table not recognised")
            continue
        vals = [norm(x) for x in t.args]
        okk = {norm(P["base"]), norm(sz), norm(P["offset"]), norm(P["region"])} == set(vals) and len(vals) == 4
        rep.check("register", w, okk, f"region entered as {tm.show(t)[:100]}")
        over = any(p.lits.truth(tm.truthy(e.result)) is False and e.arg(0, "address") is P["base"] and norm(e.arg(1, "length")) is norm(sz) for e in fr) \
            if fr and all(e.arg(1, "length") is not None for e in fr) else False
        rep.check("register", w, over, "the range of the region is not checked for overlap")
        st = {(s.name): s for s in p.sets() if s.recv is P["region"]}
        rep.check("register", w, "_parent" in st and st["_parent"].value.op == "self", "the region does not know its parent")
        b = st.get("_base")
        if b is None:
            rep.bad("register", w, "the absolute base of the region is not set")
            continue
        off = P["offset"]
        z = p.lits.truth(tm.eq(off, ZERO))
        if z is None:
            z = p.lits.truth(tm.truthy(off))
            z = None if z is None else not z
        pb = T("attr", me, "_base")
        if b.value is NONE:
            nb = [x for x, v, _ in p.order if x.op == "isnone" and norm(x.args[0]) is pb]
            rep.check("register", w, z is False or bool(nb) and p.lits.truth(nb[0]) is True or (None if z is None else False), "the absolute base of the region is lost")
        else:
            rep.check("register", w, norm(b.value) is tm.add(pb, P["base"]) and z is not False, "the absolute base of the region is wrong")


@prop("C21")
def search(an, rep):
    rep.rule("find", "the regions found for an access are all registered regions whose range overlaps it, and no other, in address order")
    c = an.cls("AddressSpace")
    rf, cols = region_columns(an, c)
    f = an.method(c, "find_regions")
    w = an.where(f)
    if cols is None:
        rep.unk("find", w, "region table not recognised")
        return None
    names = [x.args[-1] if x.op == "param" else "size" for x in cols]
    a, l = fparam(f, 1), fparam(f, 2)
    ps = an.walk(c, f)
    regs = T("attr", T("self", c.name), "regions")
    n = 0
    nets = set()
    for p in ps:
        if p.kind == "backedge":
            L = p.end[1]
            it = p.linit[L].get("#iter")
            if it is None or norm(it) is not regs:
                rep.unk("find", w, "loop over the registered regions not recognised")
                continue
            row = T("sub", regs, T("mu", L, "#"))
            ap = [e for e in p.events if e.kind == "call" and e.loops and e.name in ("append", "insert", "add")]
            b, s = T("sub", row, const(names.index("base"))), T("sub", row, const(names.index("size")))
            _overlap(rep, w, [(norm(t), v) for t, v, _ in p.order], a, l, b, s, bool(ap), c)
            n += 1
            for e in ap:
                v = norm(e.args[0])
                same = v is row or v.op == "tuple" and [x for x in v.args] == [T("sub", row, const(i)) for i in range(len(names))]
                rep.check("find", w, same or (None if v.op != "tuple" else False), "a found region is not reported with its own entry")
        elif p.kind in ("return", "fall"):
            v = p.value
            if v is None:
                rep.bad("find", w, "no regions are returned")
                continue
            srt = any(e.kind == "call" and e.name == "sort" and e.recv is v and not e.kwargs for e in p.events) or v.op == "call" and v.args[0] == "sorted" and not v.args[2]
            ins = any(e.kind == "call" and e.name == "sort" for e in p.events) or any(x.op == "call" and x.args[0] == "sorted" for x in tm.subterms(v))
            rep.check("find", w, srt and names[0] == "base" or (None if ins else False), "the regions are not in address order")
            t = v
            while t.op == "call" and t.args[0] in ("sorted", "list") and t.args[1]:
                t = t.args[1][0]
            if t.op == "comp":
                dom, conds = t.args[2][0]
                bnd = [x for x in tm.subterms(T("tuple", t.args[1][0], *conds)) if x.op == "bound"]
                if norm(dom) is not regs or not bnd:
                    rep.unk("find", w, "loop over the registered regions not recognised")
                    continue
                row = T("sub", regs, bnd[0])
                el = norm(t.args[1][0])
                rep.check("find", w, el is row or el.op == "tuple" and list(el.args) == [T("sub", row, const(i)) for i in range(len(names))] or None, "entry")
                b, s = T("sub", row, const(names.index("base"))), T("sub", row, const(names.index("size")))
                G = [(norm(x), True) for x in conds]
                _overlap(rep, w, [(norm(x), v2) for x, v2, _ in p.order]+G, a, l, b, s, True, c)
                for q in conds:
                    pass
                neg = tm.and_(*[norm(x) for x in conds]) if conds else TRUE
                _overlap(rep, w, [(norm(x), v2) for x, v2, _ in p.order]+[(neg, False)], a, l, b, s, False, c)
                n += 1
    rep.check("find", w, True if n else None, "search not recognised")


def _overlap(rep, w, lits, a, l, b, s, found, c):
    G = [(t, v) for t, v in lits if eqv.atoms(t) <= eqv.atoms(tm.add(tm.add(a, l), tm.add(b, s))) | eqv.atoms(b) | eqv.atoms(s)]
    G += [(tm.lt(ZERO, s), True), (tm.lt(b, ZERO), False), (tm.lt(l, ZERO), False), (tm.lt(a, ZERO), False)]
    ov = tm.and_(tm.lt(a, tm.add(b, s)), tm.lt(b, tm.add(a, tm.mnmx("max", (l, ONE)))))
    r = eqv.implies(G, ov if found else tm.not_(ov), n=3000, domains=POS)
    rep.check("find", w, r, "a region is reported that does not overlap the access" if found else "a region that overlaps the access is not reported")


@prop("C21")
def routing(an, rep):
    rep.rule("route", "piece after piece of the access goes to the region covering it, at its address minus the region's base plus the region's offset (the address itself without an offset)")
    rep.rule("cover", "the pieces are consecutive, end at the end of their region or of the access, and together make up the access; an unmapped byte raises")
    rep.rule("data", "data read is put together in address order; data written is split at the same places")
    c = an.cls("AddressSpace")
    rf, cols = region_columns(an, c)
    if cols is None:
        rep.unk("route", an.where(rf), "region table not recognised")
        return
    names = [x.args[-1] if x.op == "param" else "size" for x in cols]
    for m in ("read", "write"):
        f = an.method(c, m)
        w = an.where(f)
        a = fparam(f, 1)
        x = fparam(f, 2)
        LEN = length_term(f, 2)
        ps = an.walk(c, f, noinline=("find_regions", "read", "write"))
        backs = {}
        loops = set()
        for p in ps:
            if p.kind != "backedge":
                continue
            cs = [e for e in p.events if e.kind == "call" and e.name in ("read", "write") and e.loops]
            loops.add(p.end[1])
            if len(cs) == 1 and cs[0].name == m:
                backs[p] = cs[0]
            elif cs:
                rep.bad("route", w, "a piece is accessed more than once or in the wrong direction")
            else:
                rep.bad("cover", w, "a region that was found is skipped")
        if len(loops) != 1 or not backs:
            rep.unk("route", w, "loop over the regions not recognised")
            continue
        L = loops.pop()
        steps = {}
        for p, e in backs.items():
            if m == "read":
                D = e.arg(1, "length")
            else:
                dv = e.arg(1, "data")
                D = tm.sub_(dv.args[2], dv.args[1] if dv.args[1] is not NONE else ZERO) if dv is not None and dv.op == "slice" and dv.args[2] is not NONE else None
            if D is None:
                rep.unk("cover", w, "length of a piece not recognised")
                steps = None
                break
            steps[p] = D
        if not steps:
            continue
        p0 = next(iter(steps))
        pg = Progress(ps, p0, L, steps)
        pv = pg.P

        def cond(t):
            t = norm(pg.sub(t))
            y = t.args[0] if t.op == "truthy" else None
            if y is not None and y.op == "slice" and y.args[0] is x and y.args[2] is NONE:
                # bytes of the data left
                return tm.lt(ZERO if y.args[1] is NONE else y.args[1], LEN)
            return t
        for p, e in backs.items():
            fr = list_calls(p, "find_regions")
            ok = len(fr) == 1 and norm(fr[0].arg(0, "address")) is a and norm(fr[0].arg(1, "length")) is LEN
            rep.check("route", w, ok, "the regions are not looked up for exactly the access")
            it = p.linit[L].get("#iter")
            if not ok or it is not fr[0].result:
                rep.unk("route", w, "loop over the regions not recognised")
                continue
            col = lambda n: T("sub", T("sub", fr[0].result, T("mu", L, "#")), const(names.index(n)))
            colj = lambda n: pg.sub(col(n))
            rep.check("route", w, e.recv is col("region"), "the piece goes to another object than the region")
            rep.check("route", w, any(k == "**" for k, _ in e.kwargs), "keyword arguments are not passed on")
            ad = norm(pg.sub(e.arg(0, "address")))
            D = norm(pg.sub(steps[p]))
            cur = tm.add(a, pv)
            if any(y.op == "mu" for y in list(tm.subterms(ad))+list(tm.subterms(D))):
                rep.unk("route", w, "address of a piece not recognised")
                continue
            base, size, off = norm(colj("base")), norm(colj("size")), norm(colj("offset"))
            isn = p.lits.truth(tm.isnone(col("offset")))
            want = cur if isn is True else tm.add(tm.sub_(cur, base), off)
            okA = ad is want or eqv.equal(ad, want, n=500) is True
            if isn is None:
                # both cases on one path: conditional expression
                want = tm.ite(tm.isnone(off), cur, tm.add(tm.sub_(cur, base), off))
                okA = ad is want or eqv.equal(ad, want, n=500) is True
            rep.check("route", w, okA, f"a piece is accessed at {tm.show(ad)[:80]}")
            lits = [(cond(t), v) for t, v, _ in p.order]
            lits = [(t, v) for t, v in lits if not any(y.op == "mu" for y in tm.subterms(t)) and any(y.op in ("lt0", "eq") for y in tm.subterms(t))]
            G = lits+[(tm.lt(pv, ZERO), False), (tm.lt(LEN, pv), False), (tm.lt(ZERO, size), True), (tm.lt(cur, tm.add(base, size)), True)]
            # the region was found, so it is not before the access
            g2 = [(t, v) for t, v in G if not (t.op == "lt0" and any(y.op == "iter" for y in eqv.atoms(t)))]
            r = eqv.implies(G, tm.not_(tm.lt(cur, base)), n=3000, domains=POS)
            rep.check("cover", w, r, "bytes before the region are sent to it: a gap between regions is not noticed")
            wantD = tm.mnmx("min", (tm.sub_(tm.add(base, size), cur), tm.sub_(LEN, pv)))
            r = eqv.equal(D, wantD, given=G, n=3000, domains=POS)
            rep.check("cover", w, r, f"length of a piece is {tm.show(D)[:80]}")
            if m == "read":
                ex = [y for y in p.events if y.kind == "call" and y.loops and y.name in ("extend", "append") and y.recv is not None and y.recv.op == "new"]
                ok = len(ex) == 1 and ex[0].name == "extend" and unbytes(ex[0].args[0]) is e.result
                if len(ex) == 1 and ex[0].name == "append":
                    ok = None
                rep.check("data", w, ok if ex else None, "the data of a piece is not appended exactly once")
            else:
                dv = norm(pg.sub(e.arg(1, "data")))
                lo = dv.args[1]
                rep.check("data", w, dv.args[0] is x and (lo is pv or eqv.equal(lo, pv) is True), "a piece is written from other bytes of the data")
        for p in finals(ps):
            lits = [(cond(t), v) for t, v, _ in p.order]
            if L not in p.linit:
                rep.bad("cover", w, "an access returns without reaching any region")
                continue
            lits = [(t, v) for t, v in lits if not any(y.op == "mu" for y in tm.subterms(t)) and any(y.op in ("lt0", "eq") for y in tm.subterms(t))]
            extra = [y for y in p.events if y.kind == "call" and y.loops and y.name == m]
            done = pv
            if extra:
                done = None
            if done is None:
                rep.unk("cover", w, "loop left from within")
            else:
                r = eqv.implies(lits+[(tm.lt(pv, ZERO), False), (tm.lt(LEN, pv), False)], tm.not_(tm.lt(pv, LEN)), n=2000, domains=POS)
                rep.check("cover", w, r, "an access past the last region returns as if it were complete")
            if m == "read":
                v = p.value
                rep.check("data", w, v is not None and unbytes(v).op == "new" or None, "the data read is not returned")
        for p in ps:
            if p.kind == "raise" and not any(y.kind == "except" for y in p.events):
                lits = [(cond(t), v) for t, v, _ in p.order]
                fr = list_calls(p, "find_regions")
                if L in p.linit and fr:
                    base = norm(pg.sub(T("sub", T("sub", fr[0].result, T("mu", L, "#")), const(names.index("base")))))
                    inl = [e for e in p.events if e.kind == "raise" and e.loops]
                    ll = [(t, v) for t, v in lits if not any(y.op == "mu" for y in tm.subterms(t)) and any(y.op in ("lt0", "eq") for y in tm.subterms(t))]
                    G = ll+[(tm.lt(pv, ZERO), False), (tm.lt(LEN, pv), False)]
                    if inl:
                        r = eqv.implies(G, tm.lt(tm.add(a, pv), base), n=2000, domains=POS)
                        rep.check("cover", w, r is not False, "a mapped byte is refused")
                    else:
                        r = eqv.implies(G, tm.lt(pv, LEN), n=2000, domains=POS)
                        rep.check("cover", w, r is not False, "a complete access is refused")


# ------------------------------------------------------------------ C24

def is_zero_block(t):
    """length of an all-zero bytes value, None otherwise"""
    if t.op == "rep":
        for x, n in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if x.op == "const" and isinstance(x.args[0], bytes) and not any(x.args[0]):
                return tm.mul(n, const(len(x.args[0])))
            if x.op in ("list", "tuple") and all(y is ZERO for y in x.args):
                return tm.mul(n, const(len(x.args)))
        return None
    if t.op == "call" and t.args[0] in ("bytes", "bytearray") and len(t.args[1]) == 1:
        x = t.args[1][0]
        if tm.numval(x) is not None or x.op in ("lin", "min", "attr", "param", "mul", "pow2", "max"):
            return x
        return is_zero_block(x)
    if t.op == "const" and isinstance(t.args[0], bytes) and not any(t.args[0]):
        return const(len(t.args[0]))
    return None


def is_nonzero_block(t):
    """a literal block with a byte other than zero"""
    t = unbytes(t)
    if t.op == "rep":
        return any(is_nonzero_block(x) for x in t.args)
    if t.op == "const" and isinstance(t.args[0], bytes):
        return any(t.args[0])
    if t.op in ("list", "tuple"):
        return any(tm.numval(x) not in (None, 0) for x in t.args)
    return False


def seg_key(t, seg):
    """(key, kind) when t is a lookup in the segment dictionary"""
    if t.op == "sub" and attr_name(t.args[0]) == seg:
        return t.args[1], "sub"
    if t.op == "meth" and t.args[1] in ("get", "setdefault") and attr_name(t.args[0]) == seg:
        return t.args[2][0], t.args[1]
    return None


@prop("C24")
def sparse(an, rep):
    rep.rule("place", "byte `a` lives at position a-key(a) of the segment key(a); reading and writing agree on key() and on the segment size, and never leave the segment")
    rep.rule("steps", "an access is divided into consecutive pieces that together make up exactly the access")
    rep.rule("zero", "a missing segment reads as zeros; it is created zero-filled only when written")
    rep.rule("content", "a piece read is appended in order; a piece written takes the bytes at the same position of the data")
    rep.rule("index", "indexing and slicing access exactly the bytes indexed")
    c = an.cls("SparseMemory")
    # the segment dictionary
    init = c.find("__init__")
    segs = {s.name for p in finals(an.walk(c, init)) for s in p.sets() if s.recv.op == "self" and (s.value.op in ("dict",) or s.value.op == "new" and s.value.args[0] in ("dict", "defaultdict"))}
    if len(segs) != 1:
        rep.unk("place", an.where(init), "segment dictionary not recognised")
        return
    seg = segs.pop()
    keys = {}
    # the size of the memory only limits the access as a whole (C23)
    big = {self_attr(an, c, "size"): 1 << 20, T("attr", T("self", c.name), "size"): 1 << 20}
    blocksizes = []
    sym = T("sym", "a")
    for m in ("read", "write"):
        f = an.method(c, m)
        w = an.where(f)
        a, x = fparam(f, 1), fparam(f, 2)
        LEN = length_term(f, 2)
        ps = an.walk(c, f)
        loops = {p.end[1] for p in ps if p.kind == "backedge"}
        if len(loops) != 1:
            rep.unk("steps", w, "loop over the segments not recognised")
            continue
        L = loops.pop()
        info = {}
        for p in [q for q in ps if q.kind == "backedge" or q.kind in ("return", "fall") and any(e.loops and e.kind in ("setitem",) or e.loops and e.name in ("extend", "append") for e in q.events)]:
            r = _piece(an, rep, c, p, m, seg, w)
            if r is None:
                info = None
                break
            info[p] = r
        if not info:
            continue
        steps = {p: r["len"] for p, r in info.items() if p.kind == "backedge"}
        p0 = next(iter(steps))
        pg = Progress(ps, p0, L, steps)
        pv = pg.P
        for p, r in info.items():
            key = norm(pg.sub(r["key"])) if r["key"] is not None else None
            lo, ln = norm(pg.sub(r["lo"])) if r["lo"] is not None else None, norm(pg.sub(r["len"]))
            if any(y.op == "mu" and y.args[0] == L for z in (key, lo, ln) if z is not None for y in tm.subterms(z)):
                rep.unk("steps", w, "position of a piece not recognised")
                continue
            lits = [(norm(pg.sub(t)), v) for t, v, _ in p.order]
            lits = [(t, v) for t, v in lits if not any(y.op in ("mu", "in", "meth", "isinstance") for y in tm.subterms(t)) and any(y.op in ("lt0", "eq") for y in tm.subterms(t))]
            G = lits+[(tm.lt(pv, ZERO), False), (tm.lt(LEN, pv), False), (tm.lt(a, ZERO), False), (tm.lt(LEN, ZERO), False)]
            cur = tm.add(a, pv)
            rep.check("steps", w, eqv.equal(tm.lt(pv, LEN), TRUE, given=G, n=4000, domains=BLK, fixed=big), "a piece is accessed although nothing is left")
            rep.check("steps", w, eqv.implies(G, tm.and_(tm.lt(ZERO, ln), tm.not_(tm.lt(LEN, tm.add(pv, ln)))), n=4000, domains=BLK, fixed=big), "a piece is empty or extends past the end of the access")
            if key is not None and lo is not None:
                okp = eqv.equal(tm.add(key, lo), cur, given=G, n=3000, domains=BLK, fixed=big)
                if okp is not True:
                    # keys may count segments instead of bytes
                    vals = {tm.numval(y) for z in (key, lo) for y in tm.subterms(z)}
                    for bs in sorted({v+d for v in vals if isinstance(v, int) and not isinstance(v, bool) and v > 1 for d in (0, 1)} | {1 << v for v in vals if isinstance(v, int) and 1 < v < 32}):
                        if eqv.equal(tm.add(tm.mul(key, const(bs)), lo), cur, given=G, n=3000, domains=BLK, fixed=big) is True:
                            okp = True
                            break
                rep.check("place", w, okp, "a byte is accessed at another address")
                k = tm.subst(key, lambda y: tm.sub_(sym, pv) if y is a else None)
                keys.setdefault(m, set()).add(k)
                r["G"], r["lo2"], r["hi2"], r["cur"] = G, lo, tm.add(lo, ln), cur
            if r.get("block2") is not None and "G" not in r and lo is not None:
                rep.check("zero", w, eqv.implies(G, tm.not_(tm.lt(norm(r["block2"]), tm.add(lo, ln))), n=4000, domains=BLK, fixed=big), "the zeros read for a missing segment are fewer than asked for")
            if r.get("block") is not None:
                blocksizes.append(r["block"])
            if m == "write":
                o = norm(pg.sub(r["src"])) if r["src"] is not None else None
                rep.check("content", w, None if o is None else r["data"] is x and eqv.equal(o, pv, given=G, n=800), "a piece is written from other bytes of the data")
        sizes = {tm.numval(b) for b in blocksizes}
        if m == "write":
            if len(sizes) != 1 or None in sizes:
                rep.check("place", w, None if None in sizes or not sizes else False, "segments are created with different sizes")
        keys[m+"#"] = info
        for p in finals(ps):
            if p in info:
                pe = tm.add(pv, info[p]["len"])
            else:
                pe = pv
            lits = [(norm(pg.sub(t)), v) for t, v, _ in p.order]
            lits = [(t, v) for t, v in lits if not any(y.op in ("mu", "in", "meth", "isinstance") for y in tm.subterms(t)) and any(y.op in ("lt0", "eq") for y in tm.subterms(t))]
            if L not in p.linit:
                r = eqv.implies(lits+[(tm.lt(LEN, ZERO), False)], tm.eq(LEN, ZERO), n=3000, domains=BLK, fixed=big)
                rep.check("steps", w, r, "an access returns without accessing anything")
                continue
            G = lits+[(tm.lt(pv, ZERO), False), (tm.lt(LEN, pv), False), (tm.lt(LEN, ZERO), False)]
            rep.check("steps", w, eqv.implies(G, tm.not_(tm.lt(norm(pg.sub(pe)), LEN)), n=4000, domains=BLK, fixed=big), "an access ends before all of it is done")
            if m == "read":
                rep.check("content", w, p.value is not None and unbytes(p.value).op == "new" or None, "the data read is not returned")
    kr, kw_ = keys.get("read", set()), keys.get("write", set())
    if kr and kw_:
        w = an.where(an.method(c, "read"))+" / write"
        x = next(iter(kw_))
        for k in kr | kw_:
            rep.check("place", w, eqv.equal(k, x, given=[(tm.lt(sym, ZERO), False)], n=3000, domains=BLK, fixed=big), "reading and writing disagree about where a byte lives")
        for m in ("read", "write"):
            # every byte of a piece lives in the segment of its first byte
            for r in (keys.get(m+"#") or {}).values():
                if "G" in r and r.get("cur") is not None:
                    last = tm.sub_(tm.add(r["cur"], tm.sub_(r["hi2"], r["lo2"])), ONE)
                    there = tm.subst(x, lambda y: last if y is sym else None)
                    here = tm.subst(x, lambda y: r["cur"] if y is sym else None)
                    rep.check("place", an.where(an.method(c, m)), eqv.equal(norm(there), norm(here), given=r["G"], n=4000, domains=BLK, fixed=big), "the last byte of a piece lives in another segment")
    sizes = {tm.numval(b) for b in blocksizes} - {None}
    if len(sizes) == 1:
        N = const(sizes.pop())
        for m in ("read", "write"):
            w = an.where(an.method(c, m))
            for p, r in (keys.get(m+"#") or {}).items():
                if "G" in r:
                    rep.check("place", w, eqv.implies(r["G"], tm.and_(tm.not_(tm.lt(r["lo2"], ZERO)), tm.not_(tm.lt(N, r["hi2"]))), n=4000, domains=BLK, fixed=big),
                              "a piece leaves its segment")
    elif not sizes:
        rep.unk("place", an.where(an.method(c, "write")), "size of new segments not recognised")
    _sparse_index(an, rep, c)
    f = c.methods.get("clear")
    if f is not None:
        for p in finals(an.walk(c, f)):
            ok = any(e.kind == "call" and e.name == "clear" and attr_name(e.recv) == seg for e in p.events) or \
                any(s.name == seg and s.value.op in ("dict", "new") for s in p.sets())
            rep.check("zero", an.where(f), ok, "clearing leaves old contents")


def _missing(p, key, seg):
    """is it known on this path that the segment does not exist?"""
    if any(e.kind == "except" for e in p.events):
        return True
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if x.op == "in" and attr_name(x.args[1]) == seg:
                tv = p.lits.truth(x)
                if tv is False:
                    return True
                if tv is True:
                    return False
            if x.op == "isnone" and seg_key(x.args[0], seg):
                tv = p.lits.truth(x)
                if tv is not None:
                    return tv
            if x.op == "truthy" and seg_key(x.args[0], seg):
                tv = p.lits.truth(x)
                if tv is not None:
                    return not tv
    return None


def _piece(an, rep, c, p, m, seg, w):
    """the piece accessed in one iteration: key, offset in the segment, length"""
    r = {"key": None, "lo": None, "len": None, "block": None}
    stores = [e for e in p.events if e.kind == "setitem" and e.loops]
    puts = [e for e in stores if attr_name(e.recv) == seg]
    ex = [e for e in p.events if e.kind == "call" and e.loops and e.name in ("extend", "append", "insert") and e.recv is not None and e.recv.op == "new"]
    sd = [e for e in p.events if e.kind == "call" and e.loops and e.name in ("setdefault", "__setitem__", "pop", "update") and attr_name(e.recv) == seg]
    if m == "read":
        rep.check("zero", w, not puts and not sd, "reading creates segments")
        if len(ex) != 1 or ex[0].name != "extend":
            rep.check("content", w, None if len(ex) <= 1 else False, "a piece read is not appended exactly once")
            return None
        v = unbytes(ex[0].args[0])
        if v.op == "slice":
            X = v.args[0]
            X2 = unbytes(X)
            lo = v.args[1] if v.args[1] is not NONE else ZERO
            if v.args[2] is NONE:
                rep.unk("steps", w, "end of a piece not recognised")
                return None
            r["lo"], r["len"] = lo, tm.sub_(v.args[2], lo)
            k = seg_key(X2, seg)
            if k:
                r["key"] = k[0]
                if k[1] == "get":
                    d = X2.args[2][1] if len(X2.args[2]) > 1 else None
                    z = is_zero_block(d) if d is not None else None
                    if d is None:
                        rep.check("zero", w, _missing(p, k[0], seg) is False or None, "a missing segment is read")
                    else:
                        rep.check("zero", w, z is not None, "a missing segment does not read as zeros")
                elif k[1] == "sub" and _missing(p, k[0], seg) is True and not any(e.kind == "except" for e in p.events):
                    rep.bad("zero", w, "a missing segment is read")
                else:
                    rep.ok("zero", w)
                return r
            z = is_zero_block(X)
            if z is None and is_nonzero_block(X):
                rep.bad("zero", w, f"a missing segment reads as {tm.show(X)[:40]}")
            rep.check("zero", w, z is not None and _missing(p, None, seg) is True or (None if z is None else (False if _missing(p, None, seg) is False else None)),
                      "a missing segment does not read as zeros")
            if z is not None and tm.numval(z) is not None:
                r["block2"] = z
            if z is None:
                return None
            return r
        z = is_zero_block(ex[0].args[0])
        if z is not None:
            r["len"] = z
            rep.check("zero", w, _missing(p, None, seg) is True or (False if _missing(p, None, seg) is False else None), "zeros are read from a segment that exists")
            return r
        rep.unk("content", w, "piece read not recognised")
        return None
    data = [e for e in stores if e not in puts and e.name is not None and isinstance(e.name, tm.Term) and e.name.op == "sl"]
    if len(data) != 1:
        rep.check("content", w, None if not data else False, "a piece is not written exactly once")
        return None
    e = data[0]
    lo = e.name.args[0] if e.name.args[0] is not NONE else ZERO
    hi = e.name.args[1]
    if hi is NONE:
        rep.unk("steps", w, "end of a piece not recognised")
        return None
    r["lo"], r["len"] = lo, tm.sub_(hi, lo)
    v = unbytes(e.value)
    if v.op == "slice" and v.args[2] is not NONE:
        o = v.args[1] if v.args[1] is not NONE else ZERO
        ln = tm.sub_(v.args[2], o)
        rep.check("content", w, ln is r["len"] or eqv.equal(ln, r["len"], n=500), "the data written has another length than the place it is written to")
        d = v.args[0]
        r["src"], r["data"] = o, (d if d.op == "param" else d)
        if d.op == "mu":
            r["data"] = T("param", "?", "?")
            # a shrinking remainder of the data
            r["src"] = None
    else:
        r["src"], r["data"] = None, None
    X = e.recv
    k = seg_key(X, seg)
    for x in puts:
        rep.check("zero", w, not (unbytes(x.value).op in ("attr", "mattr") and x.value.op in ("attr", "mattr")), "one block serves as several segments")
    if k:
        r["key"] = k[0]
        if k[1] == "setdefault":
            d = X.args[2][1] if len(X.args[2]) > 1 else None
            z = is_zero_block(d) if d is not None else None
            rep.check("zero", w, z is not None, "a new segment is not zero-filled")
            r["block"] = z
        elif k[1] == "get":
            rep.check("zero", w, _missing(p, k[0], seg) is False or None, "a missing segment is written")
        else:
            pu = [x for x in puts if x.name is k[0]]
            for x in pu:
                z = is_zero_block(x.value)
                rep.check("zero", w, z is not None and _missing(p, k[0], seg) is True or (None if z is not None and _missing(p, k[0], seg) is None else False),
                          "a segment that exists is replaced")
                r["block"] = z
        return r
    pu = [x for x in puts if x.value is X]
    if not pu:
        rep.bad("content", w, "a piece is written into a block that is not kept")
        return None
    z = is_zero_block(X)
    rep.check("zero", w, (False if is_nonzero_block(X) else None) if z is None else True, "a new segment is not recognised as zero-filled")
    rep.check("zero", w, _missing(p, None, seg) is not False, "a segment that exists is replaced")
    r["key"], r["block"] = pu[0].name, z
    return r


def _sparse_index(an, rep, c):
    for m, tgt in (("__getitem__", "read"), ("__setitem__", "write")):
        f = c.methods.get(m)
        if f is None:
            continue
        w = an.where(f)
        key = fparam(f, 1)
        for p in finals(an.walk(c, f, noinline=(tgt,))):
            cs = [e for e in p.events if e.kind == "call" and e.name == tgt and e.recv is not None and e.recv.op == "self"]
            isint = p.lits.truth(T("isinstance", key, T("cls", "int")))
            if isint is None:
                isint = p.lits.truth(T("isinstance", key, T("ext", "int")))
            if not cs:
                if isint:
                    rep.bad("index", w, "an index is not accessed")
                continue
            if len(cs) != 1:
                rep.bad("index", w, f"{len(cs)} accesses are made")
                continue
            e = cs[0]
            ad, x = e.args[0], e.args[1]
            if isint:
                if m == "__getitem__":
                    rep.check("index", w, ad is key and x is ONE and p.value is not None and p.value.op == "sub" and unbytes(p.value.args[0]) is e.result and p.value.args[1] is ZERO,
                              "indexing does not read exactly the byte indexed")
                else:
                    v = fparam(f, 2)
                    rep.check("index", w, ad is key and unbytes(x).op in ("list", "tuple") and unbytes(x).args == (v,), "indexing does not write exactly the byte indexed")
                continue
            ind = [y for y in tm.subterms(ad) if y.op == "meth" and y.args[1] == "indices" and y.args[0] is key]
            if not ind:
                if ad.op == "attr" and ad.args[1] == "start" and ad.args[0] is key or ad is key:
                    rep.bad("index", w, "slice bounds are used as they are, although they may be missing or negative")
                else:
                    rep.unk("index", w, "slice bounds not recognised")
                continue
            i = ind[0]
            rep.check("index", w, norm(i.args[2][0]) in (self_attr(an, c, "size"), T("attr", T("self", c.name), "size"), T("call", "len", (T("self", c.name),), (), 0)), "slice bounds are not taken for the size of the memory")
            st, sp, step = (T("sub", i, const(k)) for k in range(3))
            rep.check("index", w, ad is st, "a slice does not start where asked for")
            rep.check("index", w, p.lits.truth(tm.eq(step, ONE)) is True, "a slice with a step is accessed as if it had none")
            if m == "__getitem__":
                d = tm.sub_(sp, st)
                okl = x is d or x is tm.mnmx("max", (d, ZERO)) or eqv.equal(tm.mnmx("max", (x, ZERO)), tm.mnmx("max", (d, ZERO)), n=400) is True
                rep.check("index", w, okl, "a slice reads another number of bytes")
                rep.check("index", w, p.value is not None and unbytes(p.value) is e.result, "the data read is not returned")
            else:
                v = fparam(f, 2)
                rep.check("index", w, unbytes(x) is v, "other data is written")
                ln = T("call", "len", (unbytes(x),), (), 0)
                G = [(norm(t), vv) for t, vv, _ in p.order]
                rs = [eqv.implies([(t, vv)], tm.eq(tm.sub_(sp, st), ln), n=1000) for t, vv in G if tm.contains(t, ln)]
                same = True if True in rs else None if None in rs else False
                rep.check("index", w, same, "a slice is assigned data of another length")


# ------------------------------------------------------------------ C30

def mem_ops(p):
    """[(kind, object, start, length, data)] of direct memory accesses on the path"""
    out = []
    for e in p.events:
        if e.kind == "setitem" and isinstance(e.name, tm.Term) and e.name.op == "sl" and e.recv is not None and is_self_attr(e.recv):
            lo = e.name.args[0] if e.name.args[0] is not NONE else ZERO
            out.append(("w", e.recv, lo, tm.sub_(e.name.args[1], lo) if e.name.args[1] is not NONE else None, e.value))
        elif e.kind == "setitem" and e.recv is not None and is_self_attr(e.recv):
            out.append(("w1", e.recv, e.name, ONE, e.value))
        elif e.kind == "call" and e.name in ("read", "write") and e.recv is not None and is_self_attr(e.recv):
            if e.name == "read":
                out.append(("r", e.recv, e.arg(0, "address"), e.arg(1, "length"), e.result))
            else:
                d = e.arg(1, "data")
                out.append(("w", e.recv, e.arg(0, "address"), T("call", "len", (d,), (), 0) if d is not None else None, d))
    return out


def read_of(p):
    """the memory read returned by the path"""
    v = unbytes(p.value) if p.value is not None else None
    if v is None:
        return None
    if v.op == "slice" and is_self_attr(v.args[0]):
        lo = v.args[1] if v.args[1] is not NONE else ZERO
        return (v.args[0], lo, tm.sub_(v.args[2], lo) if v.args[2] is not NONE else None)
    for o in mem_ops(p):
        if o[0] == "r" and o[4] is v:
            return (o[1], o[2], o[3])
    return None


def _acc(an, rep, c, rd, wr, wrap, rid):
    me = T("self", c.name)
    mem = T("attr", me, "mem")
    size = T("attr", me, "size")
    for m, kind in ((rd, "r"), (wr, "w")):
        f = c.find(m) if m else None
        if f is None:
            continue
        w = an.where(f)+f" [{c.name}]"
        a = fparam(f, 1)
        x = fparam(f, 2)
        want = tm.mod(a, size) if wrap else a
        L = length_term(f, 2) if kind == "w" else x
        for p in finals(an.walk(c, f)):
            ws = [o for o in mem_ops(p) if o[0] in ("w", "w1")]
            if kind == "r":
                r = read_of(p)
                rep.check(rid, w, not ws, "a read changes the memory")
                if r is None:
                    rep.unk(rid, w, "memory access not recognised")
                    continue
                obj, lo, ln = norm(r[0]), norm(r[1]), norm(r[2]) if r[2] is not None else None
            else:
                if len(ws) != 1 or ws[0][0] != "w":
                    rep.check(rid, w, None if not ws or ws[0][0] == "w1" else False, "memory access not recognised")
                    continue
                _, obj, lo, ln, d = ws[0]
                obj, lo, ln = norm(obj), norm(lo), norm(ln) if ln is not None else None
                rep.check(rid, w, unbytes(d) is x, "other data is written")
            rep.check(rid, w, obj is mem, "another object than the memory is accessed")
            rep.check(rid, w, lo is want or eqv.equal(lo, want, n=400) is True, f"the memory is accessed at {tm.show(lo)[:60]}")
            rep.check(rid, w, ln is not None and (ln is L or eqv.equal(ln, L, n=400) is True), "another number of bytes is accessed")


@prop("C30")
def rams(an, rep):
    rep.rule("direct", "direct reads and writes act on the memory at exactly the bytes addressed")
    rep.rule("bus", "bus reads and writes act on the same memory at the address modulo the memory size")
    rep.rule("storage", "the memory is the object supplied, or a new one of the size asked for; the size used for wrapping is that of the memory")
    rep.rule("share", "the write and read interfaces of a RAM work on the RAM's own memory")
    mm = an.cls("Memory")
    _acc(an, rep, mm, "read", "write", False, "direct")
    rams = [c for c in an.pkg.classes.values() if c.is_sub(mm.name) and c is not mm]
    if len(rams) < 4:
        raise AnalysisError("RAM models not found")
    f = an.method(mm, "__init__")
    w = an.where(f)
    me = T("self", mm.name)
    mp, sp = T("param", f.qual, "mem"), T("param", f.qual, "size")
    for p in finals(an.walk(mm, f)):
        st = {}
        for s in p.sets():
            if s.recv.op == "self":
                st[s.name] = s.value
        m = st.get("mem")
        none = p.lits.truth(tm.isnone(mp))
        if m is None:
            rep.bad("storage", w, "no memory is kept")
            continue
        if none is True:
            cr = [e for e in p.events if e.result is m and e.kind in ("new", "call")]
            rep.check("storage", w, bool(cr) and cr[0].args[:1] == (sp,) or m.op == "call" and m.args[1][:1] == (sp,), "the new memory does not have the size asked for")
        elif none is False:
            rep.check("storage", w, m is mp, "the memory supplied is not used")
        else:
            rep.check("storage", w, m is mp or (None if m.op in ("ite", "vor") else False), "the memory supplied is not used")
        sz = st.get("size")
        if sz is None:
            rep.bad("storage", w, "the size of the memory is not kept")
            continue
        ok = sz.op in ("attr", "mattr") and sz.args[0] is m and sz.args[1] == "size" or sz.op == "call" and sz.args[0] == "len" and sz.args[1][0] is m or \
            sz is sp and none is True
        rep.check("storage", w, ok or (None if sz.op in ("ite", "vor", "meth", "call") and tm.contains(sz, m) else False), f"the size used is {tm.show(sz)[:60]}, not that of the memory")
        isl = p.lits.truth(T("isinstance", m, T("cls", "SparseMemory")))
        if sz.op == "call" and sz.args[0] == "len":
            rep.check("storage", w, isl is not True and none is not True, "len() of a large sparse memory fails")
    for c in rams:
        if c.find("_read") is not None or c.find("_write") is not None:
            _acc(an, rep, c, "_read" if c.find("_read") else None, "_write" if c.find("_write") else None, True, "bus")
            # the memory arguments reach Memory.__init__
        g = c.methods.get("__init__")
        if g is None:
            rep.unk("storage", c.name, "no constructor")
            continue
        w = an.where(g)
        mp, sp = T("param", g.qual, "mem"), T("param", g.qual, "size")
        seen = set()
        for p in finals(an.walk(c, g)):
            st = {}
            for s in p.sets():
                if s.recv.op == "self":
                    st[s.name] = s.value
            m = st.get("mem")
            none = p.lits.truth(tm.isnone(mp))
            if m is None:
                rep.bad("storage", w, "the memory is not set up")
                continue
            if none is False:
                rep.check("storage", w, m is mp, "the memory supplied is not used")
            elif none is True:
                cr = [e for e in p.events if e.result is m and e.kind in ("new", "call")]
                rep.check("storage", w, bool(cr) and cr[0].args[:1] == (sp,), "the new memory does not have the size asked for")
            sub = [e for e in p.events if e.kind == "new" and e.result is not None and e.result.op == "new" and e.result.args[0] in an.pkg.classes and
                   an.pkg.classes[e.result.args[0]].is_sub(mm.name)]
            for e in sub:
                v = dict(e.kwargs).get("mem")
                if v is None:
                    fi = an.pkg.classes[e.result.args[0]].find("__init__")
                    nm = [a.arg for a in fi.node.args.args][1:]
                    if "mem" in nm and nm.index("mem") < len(e.args):
                        v = e.args[nm.index("mem")]
                ok = v is not None and (v is m or is_self_attr(v, "mem"))
                rep.check("share", w, ok, f"{e.result.args[0]} works on another memory")
                at = [s.name for s in p.sets() if s.value is e.result]
                bus = e.arg(0, "bus")
                k = an.pkg.classes[e.result.args[0]]
                want = "write" if k.find("_write") is not None else "read"
                rep.check("share", w, bus is not None and attr_name(bus) == want, f"{e.result.args[0]} is connected to the wrong half of the bus")
            if any(k in st for k in ("write_if", "read_if")):
                rep.check("share", w, len(sub) >= 2, "an interface of the RAM is missing")
    # memory regions
    for c in an.pkg.classes.values():
        if c.is_sub("Region") and c.find("__init__") is not None and "mem" in [a.arg for a in c.find("__init__").node.args.args]:
            _acc(an, rep, c, "_read", "_write", False, "direct")
            g = c.find("__init__")
            for p in finals(an.walk(c, g)):
                st = {s.name: s.value for s in p.sets() if s.recv.op == "self"}
                mp, sp = T("param", g.qual, "mem"), T("param", g.qual, "size")
                m = st.get("mem")
                none = p.lits.truth(tm.isnone(mp))
                if none is False or none is None:
                    rep.check("storage", an.where(g), m is mp or (None if m is not None and m.op in ("ite", "vor") else False), "the memory supplied is not used")
                else:
                    cr = [e for e in p.events if e.result is m and e.kind in ("new", "call")]
                    rep.check("storage", an.where(g), m is not None and (bool(cr) and sp in cr[0].args or m.op == "call" and sp in m.args[1]), "the new memory does not have the size asked for")
                rep.check("storage", an.where(g), any(v is sp for k, v in st.items() if "size" in k), "the size of the region is not the size given")
