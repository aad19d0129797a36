"""Hex dumps (C36): which bytes a dump shows, how they are labelled and laid out."""

from . import prop, assume
from ..core import *
from .. import eqv
from ..terms import T, Term
from .bursts import Ev, Unknown

assume("C36", "read(address, length) and slices of the storage return the bytes stored there (C23, C24)")

NAMES = ("hexdump", "hexdump_lines", "hexdump_str")


class SEv(Ev):
    """evaluation of text"""

    def _ev(self, t):
        a = t.args
        if t.op == "fstr":
            if len(a) <= 3:
                raise Unknown()
            return "".join(self.text(x) for x in a[3:])
        if t.op == "concat":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) and isinstance(y, str):
                return x+y
        if t.op == "call" and a[0] in ("chr", "str") and len(a[1]) == 1 and not (len(a) > 2 and a[2]):
            v = self.ev(a[1][0])
            if a[0] == "str" and isinstance(v, str):
                return v
            if isinstance(v, int) and 0 <= v < 0x110000:
                return chr(v) if a[0] == "chr" else str(v)
            raise Unknown()
        if t.op == "meth" and a[1] == "join" and len(a[2]) == 1:
            s, x = self.ev(a[0]), self.ev(a[2][0])
            if isinstance(s, str) and isinstance(x, list) and all(isinstance(y, str) for y in x):
                return s.join(x)
            raise Unknown()
        if t.op == "meth" and a[1] == "ljust" and len(a[2]) == 1:
            s, n = self.ev(a[0]), self.ev(a[2][0])
            if isinstance(s, str) and isinstance(n, int):
                return s.ljust(n)
            raise Unknown()
        if t.op == "call" and a[0] == "nsteps" and len(a[1]) == 3:
            lo, hi, st = (self.ev(x) for x in a[1])
            if all(isinstance(x, int) for x in (lo, hi, st)) and st:
                return len(range(lo, hi, st))
            raise Unknown()
        if t.op == "meth" or t.op == "call" and a[0] not in ("len", "min", "max", "range", "list", "bytes", "bytearray", "int", "bool"):
            raise Unknown()
        return super()._ev(t)

    def text(self, t):
        if t.op == "fmt":
            v, s = self.ev(t.args[0]), self.ev(t.args[1])
            if not isinstance(v, (int, str)) or isinstance(v, bool) or not isinstance(s, str):
                raise Unknown()
            return format(v, s)
        v = self.ev(t)
        if not isinstance(v, str):
            raise Unknown()
        return v


def _hex(row):
    return "".join("%02x " % x for x in row)


def _txt(row):
    return "".join(chr(x) if 32 < x < 127 else "." for x in row)


def _line(prefix, label, row, size):
    return prefix+"%08x: " % label+_hex(row).ljust(3*size)+" "+_txt(row)


def _data(n):
    return [(x*29+0x30) % 256 for x in range(n)]


def _points():
    for n, start, length, size in ((0, 0, None, 16), (1, 0, None, 16), (16, 0, None, 16), (17, 0, None, 16), (37, 0, None, 16), (37, 3, None, 16), (37, 3, 20, 16), (37, 3, 16, 16),
                                   (37, 3, 100, 16), (37, 0, 1, 16), (37, 5, 34, 8), (37, 5, 7, 4), (40, 36, None, 4), (40, 40, 4, 4), (40, 50, 4, 4), (300, 0, None, 32), (21, 1, 20, 5)):
        for prefix, offset in (("", 0), ("> ", 0x1000), ("", 0x123456789)):
            yield n, start, length, size, prefix, offset


PN = ("data", "start", "length", "row_size", "prefix", "offset")


def _params(p, f):
    out = {}
    pool = [t for t, _, _ in p.order]+[x for e in p.events for x in e.args or () if isinstance(x, Term)]
    for li in p.linit.values():
        pool += [v for v in li.values() if isinstance(v, Term)]
    seen = set()
    for t in pool:
        for x in tm.subterms(t, seen):
            if x.op == "param":
                out[x.args[1]] = x
    return out


@prop("C36")
def rows(an, rep):
    rep.rule("rows", "a dump has one row for every row_size bytes from start up to start+length or the end of the data, the last one as long as what is left, and no other row")
    rep.rule("layout", "a row is the prefix, the address (position plus offset) in 8 hexadecimal digits, the bytes in two digits each, padded to the row size, and their printable characters, with dots for all others")
    mods = [m for m in an.pkg.modules.values() if any(n in m.names and m.names[n][0] == "func" and m.names[n][1].module is m for n in NAMES)]
    if not mods:
        raise AnalysisError("hexdump functions not found")
    n = 0
    for m in mods:
        for name in NAMES:
            if name not in m.names:
                raise AnalysisError(f"{name} not found")
            n += 1
            _function(an, rep, name, m.names[name][1])
    if n < 3:
        raise AnalysisError("hexdump functions not found")


def _function(an, rep, name, f):
    ps = an.walk(None, f)
    w = an.where(f)
    # where the rows go
    sinks = set()
    for p in finals(ps):
        v = p.value
        if name == "hexdump":
            sinks.add("print")
        elif name == "hexdump_str" and v is not None and v.op == "meth" and v.args[1] == "join" and v.args[0].op == "const" and len(v.args[2]) == 1:
            rep.check("rows", w, v.args[0].args[0] == "\n", "the rows of a dump are not separated by line ends")
            sinks.add(v.args[2][0])
        else:
            sinks.add(v)
    if len(sinks) != 1:
        rep.unk("rows", w, "where the rows are collected is not recognised")
        return
    sink = sinks.pop()
    if sink is None or sink == tm.NONE or sink != "print" and sink.op == "const":
        rep.bad("rows", w, "the dump is not returned")
        return

    def emits(p):
        if sink == "print":
            return [e for e in p.events if e.kind == "print"]
        return [e for e in p.events if e.kind == "call" and e.name in ("append", "extend", "insert") and e.recv == sink]

    outs = [(p, e) for p in ps for e in emits(p)]
    loops = {e.loops for _, e in outs}
    if not outs:
        rep.unk("rows", w, "where the rows are collected is not recognised")
        return
    if any(len(l) != 1 for l in loops) or len(loops) != 1 or any(e.kind == "call" and e.name != "append" or len(e.args) != 1 for _, e in outs):
        rep.unk("rows", w, "how rows are produced is not recognised")
        return
    L = loops.pop()[0]
    steps = [p for p in ps if p.kind == "backedge" and p.end[1] == L]
    other = [p for p in ps if p not in steps and p.kind in ("return", "fall", "raise")]
    for p in ps:
        if p not in steps and any(True for e in emits(p) if p.kind in ("return", "fall")):
            rep.unk("rows", w, "how rows are produced is not recognised")
            return
    for p in steps:
        if p.end[2].get("#") is None:
            rep.unk("rows", w, "how rows are produced is not recognised")
            return
    IX = T("mu", L, "#")
    bad = {}
    roles = None
    for n, start, length, size, prefix, offset in _points():
        data = _data(n)
        stop = n if length is None else min(start+length, n)
        for r in range(0, 12):
            k = start+r*size
            taken = []
            und = False
            for p in steps:
                fix = {IX: r}
                for nm, x in _params(p, f).items():
                    v = dict(data=data, start=start, length=length, row_size=size, prefix=prefix, offset=offset).get(nm, Ellipsis)
                    if v is not Ellipsis:
                        fix[x] = v
                env = SEv(fix)
                ok = True
                for t, v, _ in p.order:
                    g = env.get(t)
                    if g is Ellipsis or isinstance(g, type):
                        if not any(x.op == "mu" and x.args[0] != L for x in tm.subterms(t)):
                            ok = None
                    elif bool(g) != v:
                        ok = False
                        break
                if ok is None:
                    bad.setdefault("?", "the condition for a row is not recognised")
                    und = True
                if ok:
                    taken.append((p, env, fix))
            if und:
                break
            if k < stop and not taken:
                bad.setdefault("rows", f"the row at {k:#x} is missing in a dump of {n} bytes (start={start}, length={length}, row_size={size})")
            if k >= stop and taken:
                bad.setdefault("rows", f"a dump of {n} bytes has a row at {k:#x} (start={start}, length={length}, row_size={size})")
            if k >= stop or not taken:
                break
            row = data[k:min(k+size, stop)]
            for p, env, fix in taken:
                es = emits(p)
                if len(es) != 1:
                    bad.setdefault("rows", "a row is "+("left out" if not es else "shown more than once"))
                    continue
                v = es[0].args[0]
                want = _line(prefix, k+offset, row, size)
                ms = sorted({x for x in tm.subterms(v) if x.op == "mu" and x.args[0] != L and x.args[1][:1] != "#"}, key=str)
                il = {x.args[0] for x in ms}
                if len(il) > 1 or len(ms) > 2:
                    bad.setdefault("?l", "how a row is put together is not recognised")
                    continue
                if not ms:
                    g = env.get(v)
                    if g is Ellipsis or isinstance(g, type):
                        bad.setdefault("?l", "how a row is put together is not recognised")
                    elif g != want:
                        bad.setdefault("layout", f"the row at {k+offset:#x} reads {g!r} instead of {want!r}")
                    continue
                I = il.pop()
                seq = env.get(p.linit[I]["#iter"]) if "#iter" in p.linit[I] else Ellipsis
                if not isinstance(seq, list):
                    bad.setdefault("?l", "how a row is put together is not recognised")
                    continue
                if seq != row:
                    bad.setdefault("rows", f"the row at {k:#x} shows {len(seq)} other bytes than the {len(row)} there")
                    continue
                fns = (_hex, _txt) if len(ms) == 2 else None
                alts = [(_hex, _txt), (_txt, _hex)] if len(ms) == 2 else [(_hex,), (_txt,)]
                hit, und = None, False
                for alt in ([roles[2]] if roles and roles[0] == p.end[1] and roles[1] == tuple(ms) else alts):
                    e2 = SEv({**fix, **{m: g(row) for m, g in zip(ms, alt)}})
                    g = e2.get(v)
                    if g is Ellipsis or isinstance(g, type):
                        und = True
                    elif g == want:
                        hit = alt
                        break
                if hit is None:
                    if und:
                        bad.setdefault("?l", "how a row is put together is not recognised")
                    else:
                        bad.setdefault("layout", f"a row is not put together from its address, bytes and characters as documented (row at {k+offset:#x})")
                    continue
                roles = (p.end[1], tuple(ms), hit)
                _inner(ps, L, I, fix, ms, hit, row, bad)
    for r, q in (("rows", "?"), ("layout", "?l")):
        if r in bad:
            rep.bad(r, w, bad[r])
        elif q in bad or "?" in bad:
            rep.unk(r, w, bad.get(q) or bad["?"])
        else:
            rep.ok(r, w)


def _inner(ps, L, I, fix, ms, alt, row, bad):
    """the text of a row grows by exactly one byte at a time"""
    back = [p for p in ps if p.kind == "backedge" and p.end[1] == I]
    if not back:
        return
    for m, g in zip(ms, alt):
        i = back[0].linit[I].get(m.args[1])
        if i is None or i.op != "const":
            bad.setdefault("?l", "how a row is put together is not recognised")
            return
        if i.args[0] != "":
            bad.setdefault("layout", "a row does not start out empty")
    IX = T("mu", I, "#")
    for j in range(len(row)):
        hit = False
        for p in back:
            env = SEv({**fix, IX: j, **{m: g(row[:j]) for m, g in zip(ms, alt)}})
            ok = True
            for t, v, _ in p.order:
                x = env.get(t)
                if x is Ellipsis or isinstance(x, type):
                    ok = None
                elif bool(x) != v:
                    ok = False
                    break
            if ok is False:
                continue
            if ok is None:
                bad.setdefault("?l", "how a row is put together is not recognised")
                continue
            hit = True
            for m, g in zip(ms, alt):
                nx = p.end[2].get(m.args[1])
                x = env.get(nx) if nx is not None else Ellipsis
                if not isinstance(x, str):
                    bad.setdefault("?l", "how a row is put together is not recognised")
                elif x != g(row[:j+1]):
                    bad.setdefault("layout", f"byte {row[j]:#04x} is shown wrongly")
        if not hit and "?l" not in bad:
            bad.setdefault("layout", f"byte {row[j]:#04x} is left out")


@prop("C36")
def methods(an, rep):
    rep.rule("content", "the dump methods of memories and regions show exactly the bytes at address..address+length-1, labelled with their addresses, with the prefix given, and return the result")
    seen = set()
    n = 0
    for c in sorted(an.pkg.classes.values(), key=lambda c: c.name):
        for name in NAMES:
            f = c.find(name)
            if f is None or id(f.node) in seen:
                continue
            seen.add(id(f.node))
            n += 1
            w = an.where(f)
            for p in finals(an.walk(c, f, noinline=NAMES+("read",))):
                _method(an, rep, c, name, f, p, w)
    if n < 6:
        raise AnalysisError("dump methods not found")


def _bind(f, args, kw):
    a = f.node.args
    names = [x.arg for x in a.args]
    out = dict(zip(names, args))
    out.update(kw)
    for x, d in zip(names[len(names)-len(a.defaults):], a.defaults):
        if x not in out and isinstance(d, __import__("ast").Constant):
            out[x] = const(d.value)
    return out


def _method(an, rep, c, name, f, p, w):
    par = {x: T("param", f.qual, x) for x in ("address", "length", "prefix")}
    pool = [x for e in p.events for x in list(e.args or ())+[v for _, v in e.kwargs] if isinstance(x, Term)]
    for t in pool:
        for x in tm.subterms(t):
            if x.op == "param":
                par[x.args[1]] = x
    calls = [e for e in p.events if e.kind == "call" and e.name in NAMES]
    if len(calls) != 1:
        rep.check("content", w, False if not calls and p.value in (None, tm.NONE) else None, "no dump is produced" if not calls else "how the dump is produced is not recognised")
        return
    e = calls[0]
    if e.name != name:
        rep.unk("content", w, "how the dump is produced is not recognised")
        return
    if name != "hexdump":
        res = e.result
        rep.check("content", w, p.value == res if res is not None and (p.value is None or p.value == tm.NONE or p.value == res) else None, "the dump is not returned")
    A, N = par["address"], par["length"]
    kw = dict(e.kwargs or {})
    if e.recv is not None:
        # delegated to the storage object
        b = dict(zip(("address", "length", "prefix"), e.args))
        b.update(kw)
        for k in ("address", "length", "prefix"):
            v = b.get(k)
            rep.check("content", w, False if v is None and k != "prefix" else v == par[k] if v is not None and (v == par[k] or v.op in ("param", "const", "lin")) else False if v is None else None, f"the {k} of the dump is not the one requested")
        return
    m = [m for m in an.pkg.modules.values() if name in m.names and m.names[name][0] == "func" and m.names[name][1].module is m]
    b = _bind(m[0].names[name][1], e.args, kw)
    bad, und = None, False
    d = b.get("data")
    for addr, ln in ((0, 16), (3, 5), (0x100, 64), (0x1fe, 1)):
        env = Ev({A: addr, N: ln})
        got = {k: env.get(b[k]) if k in b else Ellipsis for k in ("offset", "start", "length", "row_size")}
        if got["offset"] is Ellipsis:
            und = True
        elif got["offset"] != addr:
            bad = bad or "the dump is not labelled with the addresses of the bytes"
        lo, hi = None, None
        x = d
        while x is not None and x.op == "call" and x.args[0] in ("bytes", "bytearray", "list") and len(x.args[1]) == 1:
            x = x.args[1][0]
        if x is not None and x.op == "slice":
            lo, hi = env.get(x.args[1]), env.get(x.args[2])
        else:
            r = [q for q in p.events if q.kind == "call" and q.name == "read" and q.result == x]
            if r:
                q = r[0]
                k = dict(zip(("address", "length"), q.args))
                k.update(q.kwargs or {})
                if {"address", "length"} <= set(k):
                    lo, ll = env.get(k["address"]), env.get(k["length"])
                    hi = lo+ll if isinstance(lo, int) and isinstance(ll, int) else None
        if not isinstance(lo, int) or not isinstance(hi, int):
            und = True
        else:
            s0 = got["start"] if isinstance(got["start"], int) else 0
            l0 = got["length"] if isinstance(got["length"], int) and got["length"] else hi-lo-s0
            if (lo+s0, min(l0, hi-lo-s0)) != (addr, ln):
                bad = bad or "the dump does not show exactly the bytes requested"
        if got["row_size"] is not Ellipsis and got["row_size"] != 16:
            bad = bad or "a dump has not 16 bytes in a row"
    pf = b.get("prefix")
    if pf is None or pf.op == "const":
        bad = bad or "the prefix is not passed on"
    elif pf != par["prefix"]:
        und = True
    rep.check("content", w, False if bad else None if und else True, bad or "how the dump is produced is not recognised")
