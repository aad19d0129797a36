"""C26: word access helpers are one access of exactly their bytes, in the byte order asked for."""

from . import prop
from ..core import *
from .. import eqv
from .loops import *

WS = {"words": None, "word": None, "dwords": 4, "dword": 4, "qwords": 8, "qword": 8, "byte": 1}


def parts(ps, p, acc):
    """what an accumulator (list / bytearray object) is built from on path p: [("one"|"loop", "append"|"extend", value, loop)], None if unclear"""
    out = []
    done = set()
    for e in p.events:
        if e.kind == "loop":
            L = [l for l in p.linit if l not in done]
            if not L:
                continue
            L = L[0]
            done.add(L)
            bs = [b for b in loop_paths(ps, L)]
            forms = set()
            for b in bs:
                inside = False
                mine = []
                for x in b.events:
                    if x.kind == "call" and x.recv is acc and x.loops:
                        mine.append((x.name, x.args[0] if x.args else None))
                    elif x.kind in ("setitem", "delitem") and x.recv is acc:
                        return None
                forms.add(tuple(mine))
            if len(forms) > 1:
                return None
            for f in forms:
                for n, v in f:
                    out.append(("loop", n, v, L))
        elif e.kind == "call" and e.recv is acc and not e.loops:
            out.append(("one", e.name, e.args[0] if e.args else None, None))
        elif e.kind in ("setitem", "delitem") and e.recv is acc:
            return None
    return out


def meth_call(t, name):
    """(receiver, args, kwargs) of a call of a pure method"""
    if t.op == "meth" and t.args[1] == name:
        return t.args[0], t.args[2], dict(t.args[3] or ())
    if t.op == "call" and t.args[0] == "int."+name:
        return None, t.args[1], dict(t.args[2] or ())
    return None


def unbytes(t):
    while t.op == "call" and t.args[0] in ("bytes", "bytearray", "memoryview", "list", "tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def conv(t, name):
    """(value, word size, byte order) of int.to_bytes / from_bytes; None when it is something else; False when signed"""
    m = meth_call(t, name)
    if m is None:
        return None
    r, a, k = m
    a = list(a)
    if name == "to_bytes":
        v = r
        if r is None and a:
            v = a.pop(0)
        ws = a[0] if a else k.get("length", ONE)
        bo = a[1] if len(a) > 1 else k.get("byteorder", const("big"))
    else:
        if not a:
            return None
        v = a[0]
        ws = None
        bo = a[1] if len(a) > 1 else k.get("byteorder", const("big"))
    if k.get("signed", FALSE) is not FALSE:
        return False
    return v, ws, bo


@prop("C26")
def words(an, rep):
    rep.rule("one", "a helper makes exactly one read or write, at the address given, with the remaining keyword arguments passed on")
    rep.rule("size", "the access covers word size x number of words bytes")
    rep.rule("conv", "word k is converted from or to bytes k*size .. (k+1)*size, unsigned, in the byte order given, little endian by default")
    rep.rule("order", "words are converted in order, each exactly once")
    n = 0
    for c in an.pkg.classes.values():
        for nm, fixed in WS.items():
            for d in ("read", "write"):
                f = c.methods.get(f"{d}_{nm}")
                if f is None or "read" not in c.methods and c.find("read") is None:
                    continue
                n += 1
                _helper(an, rep, c, f, d, nm, fixed)
    if n < 10:
        raise AnalysisError("word access helpers not found")


def defaults(f):
    a = f.node.args
    names = [x.arg for x in a.args]
    out = {}
    for nme, dv in zip(names[len(names)-len(a.defaults):], a.defaults):
        out[nme] = getattr(dv, "value", dv)
    for x, dv in zip(a.kwonlyargs, a.kw_defaults):
        if dv is not None:
            out[x.arg] = getattr(dv, "value", dv)
    return out


def _helper(an, rep, c, f, d, nm, fixed):
    w = an.where(f)
    names = [a.arg for a in f.node.args.args][1:]+[a.arg for a in f.node.args.kwonlyargs]
    kw = f.node.args.kwarg is not None
    df = defaults(f)
    P = lambda x: T("param", f.qual, x)
    many = nm.endswith("s")
    if nm != "byte":
        rep.check("conv", w, df.get("byteorder", None) == "little" if "byteorder" in names else False, "little endian is not the default")
    if fixed is None:
        rep.check("size", w, df.get("ws") == 2 if "ws" in names else False, "two bytes is not the default word size")
    ws = const(fixed) if fixed is not None else P("ws")
    bo = P("byteorder")
    addr = P("address")
    cnt = P("count") if "count" in names else ONE
    ps = an.walk(c, f, noinline=(d,))
    fs = finals(ps)
    if not fs:
        rep.unk("one", w, "no path returns")
    for p in ps:
        if p.kind not in ("return", "fall"):
            continue
        acc = [e for e in p.events if e.kind == "call" and e.name in ("read", "write", "_read", "_write") and e.recv is not None and e.recv.op == "self"]
        if len(acc) != 1 or acc[0].name != d:
            rep.bad("one", w, f"{len(acc)} accesses are made instead of one {d}")
            continue
        e = acc[0]
        rep.check("one", w, not e.loops and (e.arg(0, "address") is addr), "the access is not at the address given")
        if kw:
            rep.check("one", w, any(k == "**" for k, _ in e.kwargs), "keyword arguments are not passed on")
        extra = [k for k, v in e.kwargs if k not in ("**", "address", "length", "data")]
        if extra:
            rep.unk("one", w, f"extra arguments {extra}")
        if d == "write":
            _write_data(an, rep, w, ps, p, e.arg(1, "data"), ws, bo, P("data"), many, nm)
        else:
            ln = e.arg(1, "length")
            want = tm.mul(cnt, ws)
            rep.check("size", w, ln is not None and (ln is want or eqv.equal(ln, want) is True), f"length read is {tm.show(ln)[:60] if ln is not None else None}")
            _read_data(an, rep, w, ps, p, e.result, ws, bo, cnt, many, nm)


def _write_data(an, rep, w, ps, p, data, ws, bo, src, many, nm):
    if data is None:
        rep.bad("conv", w, "no data is written")
        return
    t = unbytes(data)
    if nm == "byte":
        if t.op in ("list", "tuple") and len(t.args) == 1:
            rep.check("conv", w, t.args[0] is src, "another value is written")
        elif conv(t, "to_bytes"):
            v, s, o = conv(t, "to_bytes")
            rep.check("conv", w, v is src and s is ONE, "another value is written")
        else:
            rep.unk("conv", w, "value written not recognised")
        return
    ms = None
    if t.op == "new":
        ms = parts(ps, p, t)
    elif t.op == "meth" and t.args[1] == "join" and t.args[0] is const(b""):
        x = t.args[2][0]
        if x.op == "comp":
            ms = [("comp", "extend", x, None)]
        elif x.op in ("list", "tuple"):
            ms = [("one", "extend", y, None) for y in x.args]
    elif conv(t, "to_bytes") is not None:
        ms = [("one", "extend", t, None)]
    if ms is None:
        rep.unk("conv", w, "data written not recognised")
        return
    if len(ms) != 1:
        rep.check("order", w, False if not ms or many or len(ms) > 1 else None, f"data written is built from {len(ms)} conversions")
        return
    kind, how, v, L = ms[0]
    if how != "extend":
        rep.unk("conv", w, "data written not recognised")
        return
    if kind == "loop":
        back = loop_paths(ps, L)
        b = back[0]
        cl = Closed(ps, b, L)
        v = cl.sub(v)
        it = b.linit[L].get("#iter")
        rep.check("order", w, None if it is None else it is src and many or it is src, "the words written are not the words given, in order")
        el = T("sub", src, J(L))
    elif kind == "comp":
        x = v
        if len(x.args[1]) != 1 or len(x.args[2]) != 1 or x.args[2][0][1]:
            rep.check("order", w, False if x.args[2] and x.args[2][0][1] else None, "not every word given is written")
            return
        it = x.args[2][0][0]
        rep.check("order", w, it is src, "the words written are not the words given, in order")
        v = x.args[1][0]
        bs = [y for y in tm.subterms(v) if y.op == "bound"]
        el = T("sub", src, bs[0]) if bs else src
    else:
        el = src
        if many:
            rep.bad("order", w, "only one word is written")
            return
    cv = conv(v, "to_bytes")
    if cv is None:
        rep.unk("conv", w, "conversion not recognised")
        return
    rep.check("conv", w, cv is not False, "words are converted as signed numbers")
    if cv:
        rep.check("conv", w, cv[0] is el, "another value is written than the word given")
        rep.check("conv", w, cv[2] is bo, "byte order given is not used")
        rep.check("size", w, cv[1] is ws, "a word is written with another size")


def _read_data(an, rep, w, ps, p, res, ws, bo, cnt, many, nm):
    v = p.value
    if v is None or res is None:
        rep.bad("conv", w, "nothing is returned")
        return
    if nm != "byte" and _words_of(ps, v, res, ws, bo, cnt, many) is False:
        rep.bad("conv", w, "a word returned is not the conversion of its own bytes in the byte order asked for")
        return
    if nm == "byte":
        ok = v.op == "sub" and unbytes(v.args[0]) is res and v.args[1] is ZERO
        cv = conv(v, "from_bytes") if not ok else None
        if not ok and cv:
            ok = unbytes(cv[0]) is res
        rep.check("conv", w, ok or (None if not tm.contains(v, res) or v.op not in ("sub",) else False), "another value is returned than the byte read")
        return
    if not many:
        if v.op == "sub" and v.args[0].op in ("new", "list", "tuple") and v.args[1] is ZERO:
            o = v.args[0]
            if o.op == "new":
                ms = parts(ps, p, o)
                if ms and ms[0][0] == "one" and ms[0][1] == "append":
                    v = ms[0][2]
            elif o.args:
                v = o.args[0]
        elif v.op == "sub" and v.args[0].op in ("new", "list"):
            rep.bad("conv", w, "another word is returned")
            return
        _conv_read(rep, w, v, res, ws, bo, ZERO, None)
        return
    t = v
    while t.op == "call" and t.args[0] in ("list", "tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "comp":
        x = t
        if len(x.args[1]) != 1 or len(x.args[2]) != 1:
            rep.unk("order", w, "result not recognised")
            return
        if x.args[2][0][1]:
            rep.bad("order", w, "not every word is returned")
            return
        it = x.args[2][0][0]
        el = x.args[1][0]
        bs = [y for y in tm.subterms(el) if y.op == "bound"]
        idx = bs[0] if bs else None
        ok = None
        if it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 1:
            ok = it.args[1][0] is cnt
            _conv_read(rep, w, el, res, ws, bo, idx, None)
        elif it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 3:
            lo, hi, st = it.args[1]
            ok = lo is ZERO and st is ws and (hi is tm.mul(cnt, ws) or (None if hi.op == "call" and hi.args[0] == "len" else False))
            el = tm.subst(el, lambda y: None if y.op != "sub" or y.args[0] is not it else tm.mul(ws, y.args[1]))
            _conv_read(rep, w, el, res, ws, bo, idx, None)
        rep.check("order", w, ok, "not as many words as asked for are returned")
        return
    if t.op != "new":
        rep.unk("order", w, "result not recognised")
        return
    ms = parts(ps, p, t)
    if ms is None or len(ms) != 1:
        rep.check("order", w, None if ms is None else False, "not every word is returned exactly once")
        return
    kind, how, x, L = ms[0]
    if kind != "loop" or how != "append":
        rep.check("order", w, False if kind == "one" else None, "result not recognised")
        return
    b = loop_paths(ps, L)[0]
    cl = Closed(ps, b, L)
    hi, st = cl.init.get("#hi"), cl.init.get("#step")
    ok = None
    if hi is not None and st is not None and cl.init.get("#") is not None:
        span = tm.sub_(hi, cl.init["#"])
        wantspan = tm.mul(cnt, st)
        ns = [y for y in (hi,) if y.op == "call" and y.args[0] == "nsteps"]
        if ns and cl.init["#"] is ZERO:
            # range(lo, hi, step) walked by index
            lo2, hi2, st2 = ns[0].args[1]
            span, wantspan = tm.sub_(hi2, lo2), tm.mul(cnt, st2)
        ok = span is wantspan or eqv.equal(span, wantspan) is True
        if not ok and any(y.op == "call" and y.args[0] == "len" for y in tm.subterms(span)):
            ok = None
    rep.check("order", w, ok, "not as many words as asked for are returned")
    _conv_read(rep, w, cl.sub(x), res, ws, bo, J(L), None)


def element(ps, t, j):
    """term of element j of the list a term stands for; None when not known"""
    while t.op == "call" and t.args[0] in ("list", "tuple", "iter") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op in ("list", "tuple") and tm.numval(j) is not None and 0 <= tm.numval(j) < len(t.args):
        return t.args[tm.numval(j)]
    if t.op == "slice3" and tm.numval(t.args[3]) is not None and tm.numval(t.args[3]) > 0:
        lo = ZERO if t.args[1] is NONE else t.args[1]
        return element(ps, t.args[0], tm.add(lo, tm.mul(t.args[3], j)))
    if t.op == "slice" and len(t.args) == 3:
        return element(ps, t.args[0], tm.add(ZERO if t.args[1] is NONE else t.args[1], j))
    if t.op == "call" and t.args[0] == "range":
        a = t.args[1]
        return j if len(a) == 1 else tm.add(a[0], tm.mul(a[2] if len(a) > 2 else ONE, j))
    if t.op == "call" and t.args[0] == "zip":
        x = [element(ps, y, j) for y in t.args[1]]
        return None if None in x else T("tuple", *x)
    if t.op == "comp" and len(t.args[1]) == 1 and len(t.args[2]) == 1 and not t.args[2][0][1]:
        v = t.args[1][0]
        bs = [y for y in tm.subterms(v) if y.op == "bound"]
        v = tm.subst(v, lambda y: j if y.op == "bound" else None) if bs else v
        return spell(ps, v)
    if t.op == "new":
        for p in ps:
            if p.kind not in ("return", "fall"):
                continue
            ms = parts(ps, p, t)
            if ms and all(m[0] == "one" and m[1] == "append" for m in ms) and tm.numval(j) is not None and 0 <= tm.numval(j) < len(ms):
                return spell(ps, ms[tm.numval(j)][2])
            if ms and len(ms) == 1 and ms[0][0] == "loop" and ms[0][1] == "append":
                cl = Closed(ps, loop_paths(ps, ms[0][3])[0], ms[0][3])
                v = cl.sub(ms[0][2])
                return spell(ps, tm.subst(v, lambda y: j if y is J(ms[0][3]) else None))
    return None


def spell(ps, t):
    """elements of lists written out"""
    def f(x):
        if x.op == "sub" and len(x.args) == 2 and x.args[0].op in ("slice3", "slice", "new", "comp", "list", "tuple"):
            return element(ps, x.args[0], spell(ps, x.args[1]))
        if x.op == "sub" and len(x.args) == 2 and x.args[0].op == "call" and x.args[0].args[0] in ("list", "tuple", "range"):
            return element(ps, x.args[0], spell(ps, x.args[1]))
        return None
    return tm.subst(t, f)


def _words_of(ps, v, res, ws, bo, cnt, many):
    """the words returned compared, term by term, with the conversion of their own bytes: True / False / None (not decided)"""
    got = False
    for order in ("little", "big"):
        for w in ((tm.numval(ws),) if tm.numval(ws) is not None else (1, 2, 3, 5)):
            n = 3 if many else 1
            raw = bytes((37*i+11) % 251 for i in range(n*w))
            for j in range(n):
                t = element(ps, v, const(j)) if many else spell(ps, v)
                if t is None:
                    return None
                env = eqv.Env(0, [0], {cnt: n, bo: order, ws: w} if tm.numval(ws) is None and tm.numval(cnt) is None else {bo: order, **({cnt: n} if tm.numval(cnt) is None else {}), **({ws: w} if tm.numval(ws) is None else {})})
                try:
                    t = tm.subst(t, lambda y: _number(env, y, res, raw))
                    if eqv.atoms(t)-set(env.fixed):
                        return None
                    x = env.ev(t)
                except (eqv.Undef, TypeError, ValueError):
                    return None
                if not isinstance(x, int):
                    return None
                got = True
                if x != int.from_bytes(raw[j*w:(j+1)*w], order):
                    return False
    return got or None


def _number(env, y, res, raw):
    c = conv(y, "from_bytes")
    if not c:
        return None
    b = _raw(env, unbytes(c[0]), res, raw)
    o = c[2].args[0] if c[2].op == "const" else env.ev(c[2])
    if b is None or o not in ("little", "big"):
        raise eqv.Undef()
    return const(int.from_bytes(b, o))


def _raw(env, t, res, raw):
    t = unbytes(t)
    if t is res:
        return raw
    if t.op == "slice":
        b = _raw(env, t.args[0], res, raw)
        if b is None:
            return None
        lo, hi = (None if x is NONE else env.num(x) for x in t.args[1:3])
        return b[lo:hi]
    return None


def _conv_read(rep, w, v, res, ws, bo, j, _):
    cv = conv(v, "from_bytes")
    if cv is None:
        rep.unk("conv", w, "conversion not recognised")
        return
    rep.check("conv", w, cv is not False, "words are converted as signed numbers")
    if not cv:
        return
    b, _, o = cv
    rep.check("conv", w, o is bo, "byte order given is not used")
    b = unbytes(b)
    if j is ZERO and b is res:
        rep.ok("size", w)
        return
    if b.op != "slice" or unbytes(b.args[0]) is not res or j is None:
        rep.check("conv", w, None if b.op == "slice" or not tm.contains(b, res) else None, "bytes converted not recognised")
        return
    lo, hi = b.args[1], b.args[2]
    lo = ZERO if lo is NONE else lo
    want = tm.mul(ws, j)
    rep.check("conv", w, lo is want or eqv.equal(lo, want) is True, "a word is converted from other bytes")
    rep.check("size", w, (j is ZERO and hi is NONE) or hi is not NONE and (tm.sub_(hi, lo) is ws or eqv.equal(tm.sub_(hi, lo), ws) is True), "a word is converted from another number of bytes")


@prop("C26")
def as_bytes(an, rep):
    rep.rule("bytes", "a read response converted to bytes is exactly the data read, so that the helpers see it")
    n = 0
    for c in an.pkg.classes.values():
        f = c.methods.get("__bytes__")
        if f is None:
            continue
        n += 1
        for p in finals(an.walk(c, f)):
            v = unbytes(p.value) if p.value is not None else None
            nm = attr_name(v) if v is not None and is_self_attr(v) else None
            rep.check("bytes", an.where(f), nm in ("data", "tdata", "mem") or (None if v is not None and v.op == "meth" else False),
                      f"conversion to bytes gives {tm.show(p.value)[:60] if p.value is not None else None}")
    if not n:
        rep.unk("bytes", "package", "no conversion to bytes found")
