"""Bus masters: legality and coverage of the bursts they generate (C16), byte lanes and strobes (C17).

The loop over the beats of an operation is analysed as a transition relation over its loop variables (terms recovered from the source).  The variables
are given closed forms over the position in the operation (beat number, length of the current burst, beats of it done); a form is accepted when it holds
on entry and every way round the loop preserves it (induction over the beats), on a finite grid of operations and bus configurations.  What the body puts on the bus
is then compared, as a term, with what the protocol assigns to the beat."""

import itertools

from . import prop, assume
from ..core import *
from .. import eqv
from .masters import masters, stage_units, sends, stream_of, channels, _prefix, taken, accepted, event_field, handoffs, fields, strip_conv, completions
from .loops import has_mu

assume("C16", "operations and configurations are represented by a finite grid of addresses, lengths, beat sizes, bus widths and burst limits; unaligned fixed bursts and wrapping bursts are not included")
assume("C17", "operations and configurations are represented by a finite grid of addresses, lengths, beat sizes and bus widths; unaligned fixed bursts and wrapping bursts are not included")

GETR = ("get_resp", "get_resp_nowait")
RECV = ("recv", "recv_nowait")+GETR
Term = tm.Term


def sy(n):
    return T("sym", n)


class Unknown(eqv.Undef):
    pass


class Ev(eqv.Env):
    """strict evaluation: a term that is not determined by the given values raises Unknown"""

    def __init__(self, fixed, hook=None):
        super().__init__(0, [0], fixed)
        self.strict = True
        self.hook = hook

    def leaf(self, t, key=None):
        if t in self.fixed:
            return self.fixed[t]
        if self.hook is not None and t.op == "mu":
            return self.hook(t)
        raise Unknown()

    def _ev(self, t):
        a = t.args
        if t.op == "meth" and a[1] == "to_bytes":
            n = self._arg(a, 0, "length")
            o = self._arg(a, 1, "byteorder")
            try:
                return list(self.num(a[0]).to_bytes(n, o))
            except (OverflowError, TypeError, ValueError):
                raise eqv.Fails()
        if t.op == "call" and a[0] == "int.from_bytes":
            x = self.ev(a[1][0])
            o = self.ev(a[1][1]) if len(a[1]) > 1 else dict(a[2]).get("byteorder") if len(a) > 2 and a[2] else None
            if isinstance(o, Term):
                o = self.ev(o)
            if not isinstance(x, list) or o not in ("little", "big"):
                raise Unknown()
            return int.from_bytes(bytes(x), o)
        if t.op in ("and", "vand"):
            # one false conjunct decides
            und = None
            for x in a:
                try:
                    if not self.ev(x):
                        return False
                except eqv.Undef as ex:
                    und = ex
            if und:
                raise und
            return True
        return super()._ev(t)

    def _arg(self, a, i, name):
        v = a[2][i] if len(a[2]) > i else dict(a[3]).get(name) if len(a) > 3 and a[3] else None
        if v is None:
            raise Unknown()
        return self.ev(v)

    def get(self, t):
        """value or Ellipsis"""
        try:
            return self.ev(t)
        except eqv.Fails:
            return Fail
        except (eqv.Undef, TypeError, OverflowError, ValueError):
            return Ellipsis


class Fail:
    """the evaluation raises an exception"""


class Op:
    """one operation on one bus configuration"""
    __slots__ = ("lanes", "addr", "len", "size", "burst", "mbl", "nb", "al", "cyc", "data", "bl", "has_burst")

    def __init__(self, lanes, addr, ln, size=None, burst=1, mbl=256, has_burst=True):
        self.lanes, self.addr, self.len, self.burst, self.mbl, self.has_burst = lanes, addr, ln, burst, mbl, has_burst
        self.size = size if size is not None else lanes.bit_length()-1
        self.nb = 1 << self.size
        self.al = addr//self.nb*self.nb
        self.cyc = (addr-self.al+ln+self.nb-1)//self.nb
        self.data = [(7*i+i//256*31+1) % 256 for i in range(min(ln, 9200))]
        self.bl = []
        k = 0
        while k < self.cyc:
            b = self.limit(k)
            self.bl.append(b)
            k += b
            if len(self.bl) > 300:
                break

    def full(self, k):
        """address the protocol assigns to beat k"""
        if self.burst == 0 or k == 0:
            return self.addr
        return self.al+k*self.nb

    def limit(self, k):
        """longest legal burst starting at beat k"""
        if not self.has_burst:
            return 1
        b = min(self.cyc-k, min(max(self.mbl, 1), 256))
        if self.burst == 0:
            b = min(b, 16)
        else:
            b = min(b, (0x1000-(self.full(k) & 0xfff)+self.nb-1)//self.nb)
        return max(b, 1)

    def lo(self, k):
        """first lane that carries data in beat k"""
        return self.full(k) % self.lanes

    def hi(self, k):
        base = self.full(k)//self.nb*self.nb % self.lanes
        if k < self.cyc-1:
            return base+self.nb
        done = self.done(k)
        return self.lo(k)+self.len-done

    def done(self, k):
        """bytes carried before beat k"""
        if k == 0:
            return 0
        return min(k*self.nb - (self.addr-self.al), self.len)

    def __str__(self):
        s = f"address={self.addr:#x}, {self.len} bytes, {self.lanes} lanes"
        if self.has_burst:
            s += f", size={self.size}, burst={self.burst}, limit={self.mbl}"
        return s


class St:
    """position in an operation: k beats done, in a burst of B beats of which r are done (burst number i)"""
    __slots__ = ("k", "B", "r", "i")

    def __init__(self, k, B, r, i=0):
        self.k, self.B, self.r, self.i = k, B, r, i


CANDS = {
    "index": lambda o, s: s.k,
    "index+1": lambda o, s: s.k+1,
    "index-1": lambda o, s: s.k-1,
    "left": lambda o, s: o.cyc-s.k,
    "left-1": lambda o, s: o.cyc-s.k-1,
    "burst length": lambda o, s: s.B,
    "burst length-1": lambda o, s: s.B-1,
    "done": lambda o, s: s.r,
    "done-1": lambda o, s: max(s.r-1, 0),
    "to do": lambda o, s: s.B-s.r,
    "burst number": lambda o, s: s.i,
    "burst start": lambda o, s: s.k-s.r,
    "next burst": lambda o, s: s.k-s.r+s.B,
    "address": lambda o, s: o.full(s.k),
    "aligned": lambda o, s: o.full(s.k)//o.nb*o.nb,
    "word": lambda o, s: o.full(s.k)//o.lanes*o.lanes,
    "word linear": lambda o, s: o.addr//o.lanes*o.lanes+s.k*o.lanes,
    "linear": lambda o, s: o.addr+s.k*o.nb*(o.burst != 0),
    "aligned linear": lambda o, s: o.al+s.k*o.nb*(o.burst != 0),
    "always linear": lambda o, s: o.addr+s.k*o.nb,
    "always aligned linear": lambda o, s: o.al+s.k*o.nb,
    "start": lambda o, s: o.addr,
    "start aligned": lambda o, s: o.al,
    "offset": lambda o, s: o.done(s.k),
    "offset linear": lambda o, s: s.k*o.nb,
    "bytes left": lambda o, s: o.len-o.done(s.k),
    "lane base": lambda o, s: o.full(s.k)//o.nb*o.nb % o.lanes,
    "lane base linear": lambda o, s: (o.al+s.k*o.nb) % o.lanes,
    "lane": lambda o, s: o.full(s.k) % o.lanes,
    "lane unwrapped": lambda o, s: o.al % o.lanes + s.k*o.nb,
    "first": lambda o, s: s.k == 0,
    "not first": lambda o, s: s.k != 0,
    "last": lambda o, s: s.k >= o.cyc-1,
    "burst address": lambda o, s: o.full(s.k-s.r),
    "true": lambda o, s: True,
    "false": lambda o, s: False,
    "none": lambda o, s: None,
    "data left": lambda o, s: o.data[o.done(s.k):],
}


def same_value(x, y):
    if isinstance(x, bool) != isinstance(y, bool):
        return False
    return x == y


class Job:
    """the loop over the beats of one worker, for operations of one direction"""

    def __init__(self, an, c, f, ps, kind, write, role, prim, sec, loop, outer=None, nest=None):
        self.an, self.c, self.f, self.kind, self.write = an, c, f, kind, write
        self.loop, self.outer, self.nest = loop, outer, nest
        self.prim, self.sec = prim, sec
        self.w = f"{an.where(f)} [{c.name}]"
        self.role = role
        self.ps = [p for p in ps if self.fits(p)]
        self.items = {x for p in ps for g, x in taken(p, "per-id" if kind == "per-id" else "worker")}
        self.burst = self.bursts = False
        self.stage, self.bl = "req", set()
        self.cache = {}
        self.syc = {}
        self.evc = {}
        self.pre = None

    def fits(self, p):
        """does the path belong to this direction (components that handle both)?"""
        for t, v, _ in p.order:
            d = self.direction(t)
            if d is not None and d != (v == self.write):
                return False
        return True

    def direction(self, t):
        """literal that tells writes from reads: True if it says 'write'"""
        if t.op == "isinstance" and t.args[1].op == "cls" and t.args[1].args[0] in self.role:
            return self.role[t.args[1].args[0]] == "write"
        return None

    def sym(self, t):
        r = self.syc.get(t)
        if r is None:
            r = self.syc[t] = tm.subst(t, self._s)
        return r

    def _s(self, x):
        if x.op in ("attr", "mattr") and x.args[0] in self.items:
            n = x.args[1]
            if n in self.prim:
                return sy(self.prim[n])
            if n in self.sec:
                return self.sec[n]
            return None
        if x.op == "call" and x.args[0] == "len" and isinstance(x.args[1], tuple) and len(x.args[1]) == 1:
            n = attr_name(x.args[1][0])
            if n is not None and n.endswith("data") and x.args[1][0].args[0].op != "self" and x.args[1][0] not in self.items and x.args[1][0].args[0] not in self.items:
                return sy("W")
        if x.op in ("attr", "mattr") and x.args[1] == "rdata" or x.op == "val" and attr_name(x.args[0]) == "prdata":
            return sy("rdata")
        if x.op == "getattr" and isinstance(x.args[1], Term) and x.args[1].op == "const" and x.args[1].args[0] == "rdata":
            return sy("rdata")
        if x.op == "param" and x.args[-1] == "max_burst_len" or x.op in ("attr", "mattr") and x.args[1] == "max_burst_len":
            return sy("mbl")
        if x.op == "call" and len(x.args[1]) == 1 and isinstance(x.args[0], str) and (x.args[0] in ("bytes", "bytearray", "int") or x.args[0] in self.an.pkg.classes and
                                                                                     self.an.pkg.classes[x.args[0]].kind == "enum"):
            return self.sym(x.args[1][0])
        return None

    def count(self, o):
        """passes an operation takes: its beats, or its bursts where the responses are one per burst"""
        return len(o.bl) if self.stage == "resp" and self.write and self.bursts else o.cyc

    def fixed(self, o):
        return {sy("address"): o.addr, sy("data"): o.data, sy("length"): o.len, sy("size"): o.size, sy("burst"): o.burst, sy("mbl"): o.mbl, sy("W"): 8*o.lanes,
                sy("bl"): o.bl, sy("rdata"): rdata(o)}


def rdata(o):
    return int.from_bytes(bytes((17*i+5) % 251 for i in range(o.lanes)), "little")


class Machine:
    """loop heads, their variables' closed forms and the steps between them"""

    def __init__(self, job, ops, outs, deep):
        self.j, self.ops, self.deep = job, ops, deep
        self.loop, self.nest = job.loop, job.nest
        self.outs = outs            # path -> [terms needed]
        self.forms = {}             # (loop, name) -> candidate function
        self.failed = {}            # (loop, name) -> True
        self.paths = {}
        self.inner = {}
        ps = job.ps
        self.entry = []
        heads = [self.loop]+([self.nest] if self.nest else [])
        self.heads = heads
        for p in ps:
            if p.kind == "raise":
                continue
            if self.loop not in p.linit:
                continue
            self.paths.setdefault(self.where(p), []).append(p)

    def where(self, p):
        """what the path does: 'step' a pass of the beat loop, 'next' from the end of a burst to the next, 'exit' leaves, 'inner' a pass of a loop inside"""
        if p.kind != "backedge":
            return "exit"
        l = p.end[1]
        if l == self.loop:
            return "step"
        if self.nest and l == self.nest:
            return "next"
        if l == self.j.outer:
            return "exit"
        return "inner:"+l

    # -- variables that matter
    def needed(self):
        """loop variables that the outputs and the conditions of the loop depend on"""
        todo = []
        for kind in ("step", "exit", "next"):
            for p in self.paths.get(kind, ()):
                todo += [self.j.sym(t) for t in self.outs(p)]
                todo += [t for t, _ in self.lits(p)]
        seen, done = set(), set()
        inner = [p for k, v in self.paths.items() if k.startswith("inner:") for p in v]
        while todo:
            t = todo.pop()
            if t in done:
                continue
            done.add(t)
            for x in tm.subterms(t):
                if x.op == "mu" and x not in seen:
                    seen.add(x)
                    lp, nm = x.args
                    for ps in self.paths.values():
                        for p in ps:
                            if not self.deep and lp not in self.heads:
                                continue
                            if lp in p.linit and nm in p.linit[lp]:
                                todo.append(self.j.sym(p.linit[lp][nm]))
                            if p.kind == "backedge" and p.end[1] == lp and nm in p.end[2]:
                                todo.append(self.j.sym(p.end[2][nm]))
                    for p in inner:
                        if p.end[1] == lp and self.deep:
                            todo += [t2 for t2, _ in self.lits(p)]
        return sorted({x.args for x in seen if x.args[0] in self.heads})

    # -- evaluation at a state
    def env(self, o, s, head, forms=None, extra=None):
        fx = dict(self.j.fixed(o))
        for (lp, nm), cf in (forms if forms is not None else self.forms).items():
            if lp == head or lp == self.nest:
                if cf is not None:
                    fx[T("mu", lp, nm)] = cf(o, s if lp == head else self.outer_state(s))
        if extra:
            fx.update(extra)
        return fx

    def outer_state(self, s):
        """the state at the head of the loop over the bursts while inside burst s.i"""
        return St(s.k-s.r, 0, 0, s.i)

    def lits(self, p):
        r = self.j.cache.get(("l", p, self.deep))
        if r is None:
            r = []
            for t, v, _ in p.order:
                t = self.j.sym(t)
                xs = list(tm.subterms(t))
                if any(x.op in ("sym", "mu") for x in xs) and not any(x.op in ("hasattr", "meth", "mattr", "new") for x in xs) and \
                        (self.deep or not any(x.op == "mu" and x.args[0] not in self.heads for x in xs)):
                    r.append((t, v))
            self.j.cache[("l", p, self.deep)] = r
        return r

    def overlay(self, p, fx):
        """evaluation on path p with loops inside it summarised"""
        if not self.deep:
            return Ev(fx)
        loops = [l for l in p.linit if l not in self.heads and l != self.j.outer]
        memo = {}

        def hook(t):
            lp, nm = t.args
            if lp not in loops or ("inner:"+lp) not in self.paths:
                raise Unknown()
            if lp not in memo:
                memo[lp] = self.summary(p, lp, fx, memo)[0]
            if nm not in memo[lp] or memo[lp][nm] is Ellipsis:
                raise Unknown()
            return memo[lp][nm]
        return Ev(fx, hook)

    def summary(self, p, lp, fx, memo=None, collect=None):
        """values of the variables of an inner loop when it is left, from the recurrence its passes define (and what the passes collect)"""
        ini = p.linit[lp]
        e = self.overlay_outer(p, lp, fx)
        cur = {}
        for nm, t in ini.items():
            if nm.startswith("#") and nm != "#":
                continue
            v = e.get(self.j.sym(t))
            cur[nm] = v
        qs = self.inner_paths(lp)
        got = []
        for n in range(4300):
            fx2 = dict(fx)
            for nm, v in cur.items():
                if v is not Ellipsis:
                    fx2[T("mu", lp, nm)] = v
            ev = Ev(fx2)
            new = None
            items = None
            for lits, nxt, q in qs:
                if not self.feasible(lits, ev):
                    continue
                vals = {nm: ev.get(t) for nm, t in nxt.items()}
                if Fail in vals.values():
                    raise eqv.Fails()
                its = [ev.get(t) for t in (collect(q) if collect else ())]
                if new is None:
                    new, items = vals, its
                else:
                    if its != items:
                        raise Unknown()
                    for nm in new:
                        if new[nm] != vals.get(nm):
                            new[nm] = Ellipsis
            if new is None:
                return cur, got
            if "#" in new and new["#"] is Ellipsis or n > 4200:
                raise Unknown()
            nc = dict(cur)
            nc.update(new)
            if nc == cur:
                # nothing that is known changes: a loop that waits
                return {k: Ellipsis for k in cur}, got
            got += items
            cur = nc
        raise Unknown()

    def overlay_outer(self, p, lp, fx):
        loops = list(p.linit)
        before = [l for l in loops[:loops.index(lp)] if l not in self.heads and l != self.j.outer]
        memo = {}

        def hook(t):
            l, nm = t.args
            if l not in before or ("inner:"+l) not in self.paths:
                raise Unknown()
            if l not in memo:
                memo[l] = self.summary(p, l, fx)[0]
            if memo[l].get(nm, Ellipsis) is Ellipsis:
                raise Unknown()
            return memo[l][nm]
        return Ev(fx, hook)

    def inner_paths(self, lp):
        k = ("ip", lp)
        if k not in self.j.cache:
            out = {}
            for q in self.paths.get("inner:"+lp, ()):
                l = tuple(x for x in self.lits(q) if not any(y.op == "mu" and y.args[0] not in self.heads and y.args[0] != lp for y in tm.subterms(x[0])))
                nx = {nm: self.j.sym(t) for nm, t in q.end[2].items()}
                key = (l, tuple(sorted(nx.items())), tuple(e.args for e in q.events if e.kind == "call" and e.name in ("append", "extend")))
                out.setdefault(key, (l, nx, q))
            self.j.cache[k] = list(out.values())
        return self.j.cache[k]

    def feasible(self, lits, ev):
        for t, v in lits:
            x = ev.get(t)
            if x is Ellipsis or x is Fail:
                continue
            if bool(x) != v:
                return False
        return True

    def live(self, kind, fx):
        """paths of the kind that can be taken with these values, with their evaluation"""
        base = Ev(fx)
        out = []
        for p in self.paths.get(kind, ()):
            ls = self.lits(p)
            if not self.feasible(ls, base):
                continue
            ev = self.overlay(p, fx)
            if self.deep and any(l not in self.heads and l != self.j.outer for l in p.linit) and not self.feasible(ls, ev):
                continue
            out.append((p, ev))
        return out

    # -- closed forms
    def resolve(self):
        """closed forms: chosen by the values in the first passes of some operations, then proved for all (entry and every step)"""
        need = self.needed()
        self.need = need
        self.dedupe(need)
        dom = {x: list(CANDS) for x in need}
        n = len(self.ops)
        few = self.ops if n <= 90 else self.ops[::n//45]
        for o in few:
            for head, s, vals, _ in self.trace(o, 10):
                for x in need:
                    if x[0] != head:
                        continue
                    v = vals.get(x[1], Ellipsis)
                    if v is Ellipsis:
                        continue
                    dom[x] = [c for c in dom[x] if v is not Fail and same_value(CANDS[c](o, s), v)]
        for x in need:
            if not dom[x]:
                self.failed[x] = "values"
        pick = {x: 0 for x in need if dom[x]}
        for rnd in range(40):
            forms = {x: CANDS[dom[x][i]] for x, i in pick.items()}
            bad = self.check(forms, set(forms))
            if not bad:
                break
            moved = False
            for x in bad:
                if pick[x]+1 < len(dom[x]):
                    pick[x] += 1
                    moved = True
                    break
            if not moved:
                for x in bad:
                    self.failed[x] = "step"
                break
        self.names = {x: dom[x][pick[x]] if x in pick else None for x in need}
        self.forms = {x: CANDS[v] for x, v in self.names.items() if v is not None}
        # what rests on a form that does not hold
        while self.failed:
            forms = {x: f for x, f in self.forms.items() if x not in self.failed}
            bad = self.check(forms, set(forms))
            if not bad:
                break
            for x in bad:
                self.failed[x] = "step"
        return need

    def trace(self, o, passes):
        """[(loop head, state, values of the variables there, values of those of the outer loop)] from the start of the operation"""
        first = self.nest or self.loop
        e = Ev(self.j.fixed(o))
        pts = []
        for kind, ps in self.paths.items():
            if kind.startswith("inner:"):
                continue
            for p in ps:
                if first in p.linit and self.feasible(self.before(p), e):
                    v = {n: e.get(self.j.sym(p.linit[first][n])) for l, n in self.need if l == first and n in p.linit[first]}
                    if not any(w == v for _, _, w, _ in pts):
                        pts.append((first, St(0, 0, 0, 0), v, {}))
        for depth in range(passes+1):
            new = []
            for head, s, vals, outer in pts:
                yield head, s, vals, outer
                if depth == passes:
                    continue
                fx = self.at_values(o, head, vals, outer)
                mine = {T("mu", head, n): v for n, v in vals.items() if v is not Ellipsis and v is not Fail}
                for dh, ds, v, sure in self.steps(o, s, head, fx):
                    if sure:
                        new.append((dh, ds, v, {} if dh == self.nest or not self.nest else mine if head == self.nest else outer))
            seen = []
            for x in new:
                if not any(x[0] == y[0] and x[2] == y[2] for y in seen):
                    seen.append(x)
            pts = seen[:3]

    def before(self, p):
        """conditions of the path that do not depend on loop variables"""
        r = self.j.cache.get(("bf", p))
        if r is None:
            r = self.j.cache[("bf", p)] = [(t, v) for t, v in self.lits(p) if not any(x.op == "mu" for x in tm.subterms(t))]
        return r

    def at_values(self, o, head, vals, outer):
        fx = dict(self.j.fixed(o))
        fx.update(outer)
        fx.update({T("mu", head, n): v for n, v in vals.items() if v is not Ellipsis and v is not Fail})
        return fx

    def check(self, forms, xs):
        """variables among xs whose form some step does not preserve (or no step determines)"""
        bad = set()
        for o in self.ops:
            for head, s, vals, _ in self.trace(o, 0):
                for x in xs:
                    if x[0] == head:
                        v = vals.get(x[1], Ellipsis)
                        if v is Ellipsis or v is Fail or not same_value(v, forms[x](o, s)):
                            bad.add(x)
            for head, s in self.states(o):
                fx = self.env(o, s, head, forms)
                for dh, ds, vals, sure in self.steps(o, s, head, fx):
                    for x in xs:
                        if x[0] != dh:
                            continue
                        v = vals.get(x[1], Ellipsis)
                        if v is Ellipsis or v is Fail or not same_value(v, forms[x](o, ds)):
                            bad.add(x)
            if bad:
                return bad
        return bad

    def states(self, o, bl=None):
        """[(loop head, state)] of the operation, sampled (with bursts of the given lengths)"""
        bl = bl or o.bl
        out = []
        burst = self.j.burst
        if self.nest:
            k = 0
            for i, b in enumerate(bl):
                if i < 4 or i >= len(o.bl)-2:
                    out.append((self.nest, St(k, 0, 0, i)))
                    for r in sample(b+1):
                        out.append((self.loop, St(k+r, b, r, i)))
                k += b
            out.append((self.nest, St(k, 0, 0, len(o.bl))))
            return out
        ks = set(sample(self.j.count(o)+1))
        if burst:
            k = 0
            B = 0
            pos = {0: (0, 0)}
            for i, b in enumerate(bl):
                for r in range(1, b+1):
                    pos[k+r] = (b, r)
                if i < 4 or i >= len(o.bl)-2:
                    ks |= {k, k+1, k+b-1, k+b}
                k += b
            for k in sorted(ks):
                if k in pos:
                    out.append((self.loop, St(k, *pos[k])))
        else:
            for k in sorted(ks):
                out.append((self.loop, St(k, 1 if k else 0, 1 if k else 0)))
        return out

    def steps(self, o, s, head, fx):
        """[(destination head, destination state, {variable: value})]"""
        out = []
        if self.nest:
            if head == self.nest:
                if s.i >= len(o.bl):
                    return out
                ps = [p for k in ("step", "next") for p in self.paths.get(k, ()) if self.loop in p.linit]
                seen = set()
                ev = Ev(fx)
                for p in ps:
                    if not self.feasible([(t, v) for t, v in self.lits(p) if not any(x.op == "mu" and x.args[0] != self.nest for x in tm.subterms(t))], ev):
                        continue
                    ini = p.linit[self.loop]
                    key = tuple(sorted((n, t) for n, t in ini.items()))
                    if key in seen:
                        continue
                    seen.add(key)
                    out.append((self.loop, St(s.k, o.bl[s.i], 0, s.i), {n: ev.get(self.j.sym(t)) for n, t in ini.items() if n == "#" or not n.startswith("#")}, True))
                return out
            if s.r < s.B:
                for p, ev in self.live("step", fx):
                    out.append((self.loop, St(s.k+1, s.B, s.r+1, s.i), self.next(p, ev), self.sure(p, ev)))
            else:
                for p, ev in self.live("next", fx):
                    out.append((self.nest, St(s.k, 0, 0, s.i+1), self.next(p, ev), self.sure(p, ev)))
            return out
        if s.k >= self.j.count(o):
            return out
        for p, ev in self.live("step", fx):
            if self.j.burst and s.r >= s.B:
                B = self.announced(p, ev)
                if B is None:
                    B = Ellipsis
                if B is Ellipsis or not isinstance(B, int) or B < 1:
                    continue
                d = St(s.k+1, B, 1, s.i+1)
            elif self.j.burst:
                d = St(s.k+1, s.B, s.r+1, s.i)
            else:
                d = St(s.k+1, 1, 1)
            out.append((self.loop, d, self.next(p, ev), self.sure(p, ev)))
        return out

    def sure(self, p, ev):
        """are the conditions of the path that depend on the loop's variables determined?"""
        return not self.stateful(p) and not any(ev.get(t) is Ellipsis for t, v, h in self.lits3(p) if h)

    def stateful(self, p):
        """does the path depend on the contents of an object filled along the way?"""
        r = self.j.cache.get(("st", p))
        if r is None:
            r = self.j.cache[("st", p)] = any(x.op == "new" and x.args[0] in ("list", "bytearray", "dict", "set", "deque") for t, _, _ in p.order for x in tm.subterms(t))
        return r

    def lits3(self, p):
        r = self.j.cache.get(("l3", p, self.deep))
        if r is None:
            r = self.j.cache[("l3", p, self.deep)] = [(t, v, any(x.op == "mu" and x.args[0] in self.heads for x in tm.subterms(t))) for t, v in self.lits(p)]
        return r

    def dedupe(self, need):
        for kind, ps in self.paths.items():
            if kind.startswith("inner:"):
                continue
            seen = {}
            for p in ps:
                sym = self.j.sym
                key = (frozenset(self.lits(p)), kind == "exit" or tuple(sym(p.end[2][n]) if n in p.end[2] else None for l, n in need if l == p.end[1]),
                       passes(self.j, p).shape(), tuple(sym(t) for t in self.outs(p)),
                       tuple(sorted((l, n, sym(t)) for l in p.linit if l not in (self.j.outer, self.loop) for n, t in p.linit[l].items())) if self.deep else None)
                seen.setdefault(key, p)
            self.paths[kind] = list(seen.values())

    def next(self, p, ev):
        lp = p.end[1]
        return {nm: ev.get(self.j.sym(p.end[2].get(nm, T("mu", lp, nm)))) for nm in p.linit[lp] if nm == "#" or not nm.startswith("#")}

    def announced(self, p, ev):
        """length of the burst the path announces"""
        t = self.j.announce(p)
        if t is None:
            return None
        v = ev.get(self.j.sym(t))
        return v+1 if isinstance(v, int) else Ellipsis


def sample(n):
    """positions to look at among 0..n-1"""
    if n <= 12:
        return range(n)
    return sorted({0, 1, 2, 3, n//2, n-4, n-3, n-2, n-1})


# ------------------------------------------------------------------ the workers

ROLES = ("address", "data", "length", "size", "burst")


def jobs(an):
    if ("jobs",) in an.cache:
        return an.cache[("jobs",)]
    out = []
    for c in masters(an):
        ev = event_field(an, c)
        role, prim = {}, {}
        for m, f, p, puts in accepted(an, c):
            for e in puts:
                nt = e.args[-1]
                role[nt.args[0]] = "write" if "write" in m else "read"
                for k, v in fields(nt).items():
                    v = strip_conv(v, an)
                    names = {x.args[-1] for x in tm.subterms(v) if x.op == "param"} if v.op != "param" else {v.args[-1]}
                    names &= set(ROLES)
                    if len(names) == 1:
                        prim[k] = names.pop()
        units = stage_units(an, c)
        sec = {}
        lists = {}
        made = []
        for f, ps, kind in units:
            if kind != "worker":
                continue
            for wr in (True, False):
                if (("write" if wr else "read") not in role.values()):
                    continue
                loops = {}
                for p in ps:
                    for e in request_events(an, c, p):
                        if len(e.loops) >= 2:
                            loops[e.loops[1]] = e.loops[0]
                if len(loops) != 1:
                    continue
                loop, outer = next(iter(loops.items()))
                j = Job(an, c, f, ps, kind, wr, role, prim, {}, loop, outer)
                if not j.ps:
                    continue
                j.bursts = j.burst = any(_prefix(stream_of(k)) and any(s.endswith("len") for s in vals) for p in j.ps for e, k, vals, _ in sends(an, c, p))
                j.announce = lambda p, j=j: announce(an, j.c, p)
                made.append(j)
                # what is handed to the next stage
                for p in ps:
                    for g, x in taken(p, kind):
                        for e in handoffs(p, x, ev):
                            if e.args[-1].op != "nt":
                                continue
                            for k, v in fields(e.args[-1]).items():
                                v = j.sym(v)
                                if v.op == "new" and v.args[0] == "list":
                                    lists.setdefault(k, set()).add(v)
                                    sec.setdefault(k, set()).add(sy("bl"))
                                else:
                                    sec.setdefault(k, set()).add(v)
        sec = {k: next(iter(v)) for k, v in sec.items() if len(v) == 1}
        for j in made:
            j.stage, j.bl = "req", {v for s in lists.values() for v in s}
            out.append(j)
        for f, ps, kind in units:
            if any(j.f is f for j in made):
                continue
            ls = {e.loops for p in ps for e in p.events if e.kind == "call" and e.name in RECV and e.loops}
            wr = "write" in role.values()
            if len(role) != 1 or not ls:
                continue
            deepest = max(ls, key=len)
            base = 1 if kind == "worker" else 0
            if len(deepest) == base+1:
                j = Job(an, c, f, ps, kind, wr, role, {}, sec, deepest[-1], deepest[0] if base else None)
            elif len(deepest) == base+2:
                j = Job(an, c, f, ps, kind, wr, role, {}, sec, deepest[-1], deepest[0] if base else None, nest=deepest[-2])
            else:
                continue
            j.bursts = any(x.bursts for x in made)
            j.prim = {k: v for k, v in prim.items() if k not in sec}
            j.announce = lambda p: None
            j.stage, j.bl = "resp", set()
            out.append(j)
    if len(out) < 5:
        raise AnalysisError("beat loops of the masters not found")
    an.cache[("jobs",)] = out
    return out


def request_events(an, c, p):
    """events that put a transfer on the bus: transactions sent on a channel, or the address driven directly"""
    out = [e for e, k, vals, _ in sends(an, c, p)]
    out += [s for s in p.sets("value") if attr_name(s.recv) == "paddr"]
    return out


def announce(an, c, p):
    for e, k, vals, _ in sends(an, c, p):
        pre = _prefix(stream_of(k))
        if pre in ("aw", "ar") and pre+"len" in vals:
            return vals[pre+"len"]
    return None


# ------------------------------------------------------------------ what a pass puts on the bus

class Pass:
    """what one pass of the beat loop does: addresses put on the bus, data beats, responses taken, burst lengths noted"""

    def __init__(self, j, p):
        an, c, lp = j.an, j.c, j.loop
        self.addr, self.data, self.noted, self.taken, self.deep = [], [], [], [], False

        def inside(e):
            return lp in e.loops

        bus = {}
        for e, k, vals, _ in sends(an, c, p):
            if not inside(e):
                continue
            if e.loops[-1] != lp:
                self.deep = True
            pre = _prefix(stream_of(k))
            (self.addr if pre in ("aw", "ar") else self.data).append((e, {n[len(pre):] if n.startswith(pre) else n: v for n, v in vals.items()}))
        for s in p.sets("value"):
            n = attr_name(s.recv)
            if n in ("paddr", "pwdata", "pstrb") and inside(s):
                bus[n[1:]] = (s, s.value)
        if "addr" in bus:
            self.addr.append((bus["addr"][0], {"addr": bus["addr"][1]}))
            if j.write and "wdata" in bus:
                self.data.append((bus["wdata"][0], {"data": bus["wdata"][1], "strb": bus["strb"][1] if "strb" in bus else None}))
            elif "strb" in bus:
                self.addr[0][1]["strb"] = bus["strb"][1]
        for e in p.events:
            if e.kind == "call" and inside(e):
                if e.name == "append" and e.recv in j.bl and e.args:
                    self.noted.append((e, e.args[0]))
                elif e.name in RECV and j.stage == "resp":
                    self.taken.append((e, e.result))
                    if e.loops[-1] != lp:
                        self.deep = True

    def shape(self):
        return len(self.addr), len(self.data), len(self.noted), len(self.taken), self.deep

    def terms(self):
        out = []
        for _, v in self.addr:
            out += [v[x] for x in ("addr", "len", "size", "burst") if v.get(x) is not None]
        for _, v in self.data:
            if v.get("last") is not None:
                out.append(v["last"])
        return out+[v for _, v in self.noted]


def passes(j, p):
    r = j.cache.get(("pass", p))
    if r is None:
        r = j.cache[("pass", p)] = Pass(j, p)
    return r


def grid16(j, tier):
    out = []
    if not j.bursts:
        for lanes in (1, 4, 8):
            for a in (0, 1, 3, 4, 6, 0xffe, 0x1000-lanes):
                for n in (1, 2, 4, 5, 9, 16, 17, 40):
                    if n > 17 and a > 3:
                        continue
                    out.append(Op(lanes, a, n, has_burst=False))
            # nothing to transfer: no request and no response awaited
            out += [Op(lanes, a, 0, has_burst=False) for a in (0, 3*lanes)]
        return out
    out += [Op(lanes, a, 0, size, 1, m) for lanes, size in ((4, 2), (4, 1), (8, 3)) for a in (0, 2*lanes, 0x1000-lanes) for m in (1, 256)]
    for lanes, size in ((4, 2), (4, 1), (4, 0), (8, 3), (1, 0), (8, 1)):
        nb = 1 << size
        for a in (0, 1, 3, 5):
            for n in (1, nb, nb+1, 3*nb, 7*nb+2):
                for m in (1, 2, 3, 256):
                    if (lanes == 8 or lanes == 1) and m in (1, 3):
                        continue
                    out.append(Op(lanes, a, n, size, 1, m))
        for a in (0xfff, 0x1000-2*nb, 0x1000-3*nb-1, 0x1000-5*nb, 0x1ff8, 0x2000):
            for n in (1, 4, 7*nb+1):
                for m in (2, 3, 256):
                    out.append(Op(lanes, a, n, size, 1, m))
        for a, n, m in ((0, 257*nb, 256), (2*nb+1, 300*nb, 256), (0, 256*nb, 256), (0, 520*nb, 300), (5, 40*nb, 16), (0, 3*nb, 0), (0, 270*nb, 1)):
            out.append(Op(lanes, a, n, size, 1, m))
        for a, n, m in ((0, 40*nb, 256), (2*nb, 17*nb, 256), (nb, 16*nb, 256), (0, 5*nb, 2), (3*nb, nb, 256), (0, 2*nb-1, 256)):
            out.append(Op(lanes, a, n, size, 0, m))
    if tier == "thorough":
        for lanes, size in ((1, 0), (2, 1), (4, 2), (4, 0), (8, 3), (8, 2), (16, 4), (16, 1), (32, 5), (64, 6), (128, 7), (128, 3)):
            nb = 1 << size
            for a in sorted({0, 1, nb-1, nb, nb+1, lanes-1, 0xff0, 0x1000-nb, 0xfff, 0xfe1, 0x1000-16*nb, 0x1001-16*nb, 0x7ffc, 0xfffff001}):
                if a < 0:
                    continue
                for n in sorted({1, 2, nb, nb+1, 2*nb-1, 4*nb, 15*nb+1, 16*nb, 16*nb+1, 33*nb}):
                    for m in (1, 2, 4, 7, 16, 255, 256, 1000):
                        if (m in (1, 7, 255, 1000)) and n < 4*nb:
                            continue
                        out.append(Op(lanes, a, n, size, 1, m))
            for a in (0, nb, 5*nb):
                for n in (1, 15*nb, 16*nb, 17*nb, 33*nb, 49*nb-1):
                    for m in (1, 5, 16, 17, 256):
                        out.append(Op(lanes, a, n, size, 0, m))
    out.append(Op(64, 0xf00, 4200, 6, 1, 256))
    out.append(Op(32, 0x7f0, 3000, 5, 1, 256))
    out.append(Op(32, 0xf84, 9000, 5, 1, 256))
    out.append(Op(8, 0xff4, 4300, 3, 1, 256))
    out.append(Op(4, 3, 1600, 2, 1, 300))
    out.append(Op(16, 0, 4100, 4, 1, 256))
    return out


class Judge:
    """compares what the passes put on the bus with what the protocol assigns to the beats"""

    def __init__(self, rep, j, ops, deep, outs, judge):
        self.rep, self.j, self.ops, self.one = rep, j, ops, judge
        self.m = Machine(j, ops, outs, deep)
        self.n = 0
        self.unk = {}
        self.said = set()
        self.need = ()

    def bad(self, rule, e, msg):
        where = f"{self.j.w}:{e.line}" if e is not None and getattr(e, "line", None) else self.j.w
        if (rule, where) not in self.said:
            self.said.add((rule, where))
            self.rep.bad(rule, where, msg)

    def run(self):
        m = self.m
        self.need = m.resolve()
        sure = {x: m.forms[x] for x in self.need if x in m.forms and x not in m.failed}
        for o in self.ops:
            for head, s in m.states(o, self.chain(o, sure)):
                self.at(o, head, s, m.env(o, s, head, sure))
        if m.failed and not self.said:
            self.chase()
            if not self.said:
                for (l, n), why in sorted(m.failed.items()):
                    self.unknown("form", f"no closed form for {n}")
        if self.unk:
            for rule, why in sorted(self.unk.items()):
                self.rep.unk(rule, self.j.w, why)
        return self

    def unknown(self, rule, why):
        self.unk.setdefault(rule, why)

    def chain(self, o, forms):
        """[length] of the bursts as announced, if they can be followed"""
        m, j = self.m, self.j
        if not j.burst:
            return None
        k, out, B = 0, [], 0
        while k < o.cyc:
            fx = m.env(o, St(k, B, B, len(out)), m.loop, forms)
            got = {m.announced(p, ev) for p, ev in m.live("step", fx)+m.live("exit", fx) if m.sure(p, ev)}
            if len(got) != 1:
                return None
            b = got.pop()
            if not isinstance(b, int) or isinstance(b, bool) or b < 1 or len(out) > 600:
                return None
            out.append(b)
            k, B = k+b, b
        return out

    def at(self, o, head, s, fx):
        m = self.m
        for kind in ("step", "next", "exit"):
            for p, ev in m.live(kind, fx):
                if head == m.nest and m.loop in p.linit and s.i < len(o.bl):
                    continue
                self.n += 1
                self.one(self, o, head, s, kind, p, ev, not m.sure(p, ev))

    def chase(self, passes=20):
        """a closed form that does not hold counts against the code only if what breaks it reaches the bus: follow the values of the loop's variables from the start"""
        m = self.m
        first = m.nest or m.loop
        late = 0
        for o in self.some():
            if late < 12 and o.cyc > passes and all(x in m.forms for x in self.need) and not self.agrees(o):
                late += 1
                self.follow(o)
                if self.said:
                    return
            for head, x, vals, outer in m.trace(o, passes):
                self.at(o, head, x, m.at_values(o, head, vals, outer))
                if self.said:
                    return

    def agrees(self, o):
        """do the closed forms hold at the sampled positions of the operation?"""
        m = self.m
        for head, s in m.states(o):
            for dh, ds, vals, sure in m.steps(o, s, head, m.env(o, s, head)):
                if self.differs(o, dh, ds, vals):
                    return False
        return True

    def differs(self, o, dh, ds, vals):
        for l, n in self.need:
            if l == dh:
                v = vals.get(n, Ellipsis)
                if v is Ellipsis or v is Fail or not same_value(v, self.m.forms[l, n](o, ds)):
                    return True
        return False

    def follow(self, o, passes=20):
        """the closed forms hold up to some beat: from there on, follow the actual values"""
        m = self.m
        if m.nest:
            return
        s, n = St(0, 0, 0, 0), 0
        while s.k < o.cyc and n < 1200:
            n += 1
            nxt = [(dh, ds, v) for dh, ds, v, sure in m.steps(o, s, m.loop, m.env(o, s, m.loop)) if sure]
            if not nxt:
                return
            if any(self.differs(o, *x) for x in nxt):
                break
            s = nxt[0][1]
        else:
            return
        for depth in range(280):
            new = []
            for dh, ds, vals in nxt[:2]:
                fx = dict(self.j.fixed(o))
                fx.update({T("mu", dh, k): v for k, v in vals.items() if v is not Ellipsis and v is not Fail})
                self.at(o, dh, ds, fx)
                new += [(h, d, v) for h, d, v, sure in m.steps(o, ds, dh, fx) if sure]
            if self.said:
                return
            nxt = new

    def some(self):
        n = len(self.ops)
        return self.ops if n <= 400 else self.ops[::2]


def judge16(J, o, head, s, kind, p, ev, unsure):
    j, m = J.j, J.m
    P = passes(j, p)

    def say(rule, e, msg):
        if unsure:
            J.unknown(rule, "conditions not determined")
        else:
            J.bad(rule, e, f"{msg} ({o}; beat {s.k})")

    if P.deep:
        J.unknown("form", "loop inside the loop over the beats")
        return
    cnt = j.count(o)
    if j.stage == "resp":
        left = s.i < len(o.bl) if head == m.nest else s.r < s.B if m.nest else s.k < cnt
        n = len(P.taken)
        if kind == "step" or n:
            if not left:
                say("count", P.taken[0][0] if n else None, "more responses are awaited than the requests call for")
            elif n != 1:
                say("count", P.taken[0][0] if n else None, f"{n} responses are taken for one beat")
            elif kind != "step" and not (s.r+1 == s.B if m.nest else s.k+1 == cnt):
                say("count", P.taken[0][0], "fewer responses are awaited than the requests call for")
        elif left:
            say("count", None, "fewer responses are awaited than the requests call for")
        return
    left = s.k < cnt
    if not (kind == "step" or P.addr or P.data):
        if left:
            say("cover", None, "the operation ends before all its beats have been requested")
        return
    e0 = (P.addr+P.data)[0][0] if P.addr or P.data else None
    if not left:
        say("cover", e0, "a beat is requested past the end of the operation")
        return
    if kind == "exit" and s.k+1 < cnt:
        say("cover", e0, "the operation ends before all its beats have been requested")
    need = 1 if not j.burst or s.r >= s.B else 0
    B = s.B
    if len(P.addr) != need:
        say("cover", e0, f"{len(P.addr)} address transfers where {need} is due")
        return
    if need:
        e, v = P.addr[0]
        a = ev.get(j.sym(v["addr"])) if v.get("addr") is not None else Ellipsis
        if a is Ellipsis:
            J.unknown("address", "address not determined")
        elif a is Fail or a != o.full(s.k):
            say("address", e, f"the address of beat {s.k} is {show(a)}, not {o.full(s.k):#x}")
        B = 1
        if j.burst:
            L = m.announced(p, ev)
            if L is None or L is Ellipsis:
                J.unknown("length", "length not determined")
                return
            B = L
            lim = min(max(o.mbl, 1), 256)
            nb = o.nb
            for x, want in (("size", o.size), ("burst", o.burst)):
                g = ev.get(j.sym(v[x])) if v.get(x) is not None else Ellipsis
                if g is not Ellipsis and (g is Fail or g != want):
                    say("length", e, f"burst announced with {x} {show(g)} instead of {want}")
            if L < 1 or L > 256 or o.burst == 0 and L > 16:
                say("length", e, f"a burst of {L} beats is announced")
            elif L > lim:
                say("length", e, f"a burst of {L} beats is announced with the limit set to {o.mbl}")
            elif L > o.cyc-s.k:
                say("length", e, f"a burst of {L} beats is announced with {o.cyc-s.k} to go")
            elif o.burst == 1:
                f = o.full(s.k)//nb*nb
                if f//4096 != (f+L*nb-1)//4096:
                    say("boundary", e, f"burst of {L} beats from {o.full(s.k):#x} crosses a 4 KB boundary")
            for e, t in P.noted:
                g = ev.get(j.sym(t))
                if g is Ellipsis:
                    J.unknown("list", "length noted for the responses not determined")
                elif g != L:
                    say("list", e, f"a burst of {L} beats is noted as {show(g)} beats for the responses")
            if j.bl and len(P.noted) != 1:
                say("list", e, f"a burst is noted {len(P.noted)} times for the responses")
    elif P.noted:
        say("list", P.noted[0][0], "a burst is noted for the responses without being requested")
    if j.write:
        if len(P.data) != 1:
            say("cover", e0, f"{len(P.data)} data beats for one beat of the operation")
            return
        e, v = P.data[0]
        if j.burst:
            x = ev.get(j.sym(v["last"])) if v.get("last") is not None else Ellipsis
            r = 1 if need else s.r+1
            if x is Ellipsis:
                J.unknown("last", "last flag not determined")
            elif x is Fail or bool(x) != (r == B):
                say("last", e, f"the last flag is {show(x)} on beat {r} of a burst of {B}")


def show(v):
    return "an exception" if v is Fail else hex(v) if isinstance(v, int) and not isinstance(v, bool) and v > 9 else str(v)


@prop("C16")
def legality(an, rep):
    tier = getattr(an, "tier", "quick")
    rep.rule("cover", "every pass of the loop over the beats requests exactly the next beat of the operation, and the loop ends exactly when all have been requested")
    rep.rule("address", "a burst starts at the address the protocol assigns to its first beat: the given address for the first, aligned to the beat size for the others")
    rep.rule("length", "a burst has between 1 and 256 beats (16 if fixed), not more than configured nor than remain")
    rep.rule("boundary", "an incrementing burst does not cross a 4 KB boundary")
    rep.rule("last", "the last flag is set on the last beat of the announced burst and on no other")
    rep.rule("list", "the burst lengths noted for the response stage are those announced, in order")
    rep.rule("count", "the response stage awaits exactly as many responses as the requests call for")
    rep.rule("form", "the variables of the loop over the beats follow a closed form in the position within the operation")
    for j in jobs(an):
        J = Judge(rep, j, grid16(j, tier), False, lambda p, j=j: passes(j, p).terms(), judge16).run()
        for rule in rep.rules:
            if rule in ("list", "last", "boundary", "length") and not j.burst or rule == "last" and not j.write or rule == "form" or \
                    (rule == "count") != (j.stage == "resp"):
                continue
            if rule not in J.unk and rule not in {r for r, w in J.said}:
                rep.ok(rule, j.w, f"{len(J.ops)} operations, {J.n} passes")
        names = {n: m for (l, n), m in J.m.names.items()}
        if not J.m.failed:
            rep.ok("form", j.w, ", ".join(f"{n} = {v}" for n, v in sorted(names.items())))


# ------------------------------------------------------------------ byte lanes

def grid17(j, tier):
    out = []
    if not j.bursts:
        for lanes in (1, 2, 4, 8, 16):
            for a in sorted({0, 1, lanes-1, lanes//2, lanes+1, 5, 0x1000-lanes}):
                for n in sorted({1, 2, lanes-1, lanes, lanes+1, 2*lanes, 3*lanes+1, 5*lanes-1}):
                    if n > 0:
                        out.append(Op(lanes, a, n, has_burst=False))
                if a % lanes:
                    # nothing to transfer, but a beat if the code makes one: it must not write or return anything
                    out.append(Op(lanes, a, 0, has_burst=False))
        return out
    out += [Op(lanes, a, 0, size, 1, 256) for lanes, size in ((4, 2), (8, 3), (8, 1)) for a in (1, lanes-1, lanes+3) if a % (1 << size)]
    for lanes, size in ((1, 0), (2, 1), (2, 0), (4, 2), (4, 1), (4, 0), (8, 3), (8, 1), (16, 4), (16, 2), (16, 0), (32, 5)):
        nb = 1 << size
        for a in sorted({0, 1, nb-1, nb+1, lanes-1, lanes-nb, lanes+nb+1, 0x1000-nb}):
            for n in sorted({1, nb, nb+1, 2*nb, 3*nb-1, lanes+1, min(5*nb+1, lanes*2+1)}):
                for m in (256, 2) if n > 2*nb else (256,):
                    out.append(Op(lanes, a, n, size, 1, m))
        for a in sorted({0, nb, lanes-nb}):
            for n in sorted({1, nb, 2*nb, 3*nb-1}):
                out.append(Op(lanes, a, n, size, 0, 256))
    if tier == "thorough":
        for lanes in (4, 8, 16, 32):
            for size in range(lanes.bit_length()):
                nb = 1 << size
                for a in range(0, lanes+3, 1 if lanes < 9 else 3):
                    for n in sorted({1, 2, nb, nb+1, 2*nb-1, 2*nb+1, lanes, lanes+1, 3*nb}):
                        out.append(Op(lanes, a, n, size, 1, 3))
    return out


def buffers(j):
    """objects that collect the bytes read, and the terms in which they are returned: [(event, data term, path)]"""
    an, c = j.an, j.c
    ev = event_field(an, c)
    bufs, res = set(), []
    for p in j.ps:
        for g, x in taken(p, "per-id" if j.kind == "per-id" else "worker"):
            for e in completions(p, x, ev):
                if not e.args or e.args[-1].op != "nt":
                    continue
                for k, v in fields(e.args[-1]).items():
                    if k == "data":
                        res.append((e, v, p))
                        for t in tm.subterms(v):
                            if t.op == "new" and t.args[0] in ("bytearray", "list"):
                                bufs.add(t)
    return bufs, res


def grown(e, bufs):
    """terms appended to a buffer by the event: ('one', t) / ('many', t)"""
    if e.kind == "call" and e.recv in bufs and e.args:
        if e.name == "append":
            return "one", e.args[0]
        if e.name in ("extend", "__iadd__"):
            return "many", e.args[0]
        return "other", e.args[0]
    return None


class Lanes:
    def __init__(self, j):
        self.j = j
        self.bufs, self.res = buffers(j) if not j.write else (set(), [])
        self.m = None

    def collect(self, l):
        def f(q):
            out = []
            for e in q.events:
                if e.kind == "call" and e.loops and e.loops[-1] == l:
                    g = grown(e, self.bufs)
                    if g:
                        out.append(self.j.sym(g[1]))
            return out
        return f

    def outs(self, p):
        P = passes(self.j, p)
        out = []
        for _, v in P.data:
            out += [v[x] for x in ("data", "strb") if v.get(x) is not None]
        if not self.j.write:
            for _, v in P.addr:
                if v.get("strb") is not None:
                    out.append(v["strb"])
            for e in p.events:
                g = grown(e, self.bufs) if e.kind == "call" and self.j.loop in e.loops else None
                if g:
                    out.append(g[1])
            for l in p.linit:
                if l not in self.m.heads and l != self.j.outer:
                    for q in self.m.paths.get("inner:"+l, ()):
                        out += self.collect(l)(q)
                        if self.collect(l)(q):
                            out += [t for t, v in self.m.lits(q)]
        return out

    def read(self, p, ev, fx):
        """bytes added to the buffer by a pass: list / Ellipsis / Fail"""
        direct = [(e, grown(e, self.bufs)) for e in p.events if e.kind == "call" and e.loops and e.loops[-1] == self.j.loop and grown(e, self.bufs)]
        inner = [l for l in p.linit if l not in self.m.heads and l != self.j.outer and any(self.collect(l)(q) for q in self.m.paths.get("inner:"+l, ()))]
        if direct and inner or len(inner) > 1:
            return Ellipsis
        out = []
        for e, (how, t) in direct:
            v = ev.get(self.j.sym(t))
            if v is Ellipsis or v is Fail:
                return v
            if how == "one":
                out.append(v)
            elif how == "many" and isinstance(v, list):
                out += v
            else:
                return Ellipsis
        for l in inner:
            try:
                _, got = self.m.summary(p, l, fx, None, self.collect(l))
            except eqv.Fails:
                return Fail
            except eqv.Undef:
                return Ellipsis
            for x in got:
                if x is Ellipsis or x is Fail:
                    return x
            out += got
        return out


def judge17(L):
    def one(J, o, head, s, kind, p, ev, unsure):
        j, m = J.j, J.m
        P = passes(j, p)

        def say(rule, e, msg):
            if unsure:
                J.unknown(rule, "conditions not determined")
            else:
                J.bad(rule, e, f"{msg} ({o}; beat {s.k})")

        if P.deep:
            J.unknown("form", "loop inside the loop over the beats")
            return
        if head == m.nest or kind != "step" and not (P.addr or P.data or P.taken):
            return
        if s.k >= o.cyc or m.nest and s.r >= s.B:
            return
        lo, hi = o.lo(s.k), o.hi(s.k)
        if j.write:
            if len(P.data) != 1:
                J.unknown("lanes", "no single data beat")
                return
            e, v = P.data[0]
            want = ((1 << hi)-1) & ~((1 << lo)-1)
            x = ev.get(j.sym(v["strb"])) if v.get("strb") is not None else Ellipsis
            if x is Ellipsis:
                J.unknown("strobes", "strobes not determined")
            elif x is Fail or x != want:
                say("strobes", e, f"the strobes are {show(x)}, not {want:#x}")
            x = ev.get(j.sym(v["data"])) if v.get("data") is not None else Ellipsis
            if x is Ellipsis:
                J.unknown("lanes", "write data not determined")
            elif x is Fail or not isinstance(x, int):
                say("lanes", e, f"the write data is {show(x)}")
            else:
                d = o.done(s.k)
                got = [(x >> 8*i) & 0xff for i in range(lo, hi)]
                if got != o.data[d:d+hi-lo]:
                    say("lanes", e, f"lanes {lo} to {hi-1} carry {got}, not bytes {d} to {d+hi-lo-1} of the data, {o.data[d:d+hi-lo]}")
                elif x >> 8*o.lanes or x < 0:
                    say("lanes", e, "the write data has more bits than the bus")
            return
        if j.stage == "req" and P.addr and P.addr[0][1].get("strb") is not None:
            x = ev.get(j.sym(P.addr[0][1]["strb"]))
            if x is Ellipsis:
                J.unknown("strobes", "strobes not determined")
            elif x is Fail or x != 0:
                say("strobes", P.addr[0][0], f"the strobes are {show(x)} in a read transfer")
        if not L.bufs:
            return
        fx = ev.fixed
        got = L.read(p, ev, fx)
        if got is Ellipsis:
            J.unknown("lanes", "bytes collected not determined")
            return
        rd = [(rdata(o) >> 8*i) & 0xff for i in range(o.lanes)]
        e0 = P.taken[0][0] if P.taken else P.addr[0][0] if P.addr else None
        last = s.k == o.cyc-1
        if got is Fail or got != rd[lo:hi] and not (last and L.cut and got == rd[lo:o.full(s.k)//o.nb*o.nb % o.lanes+o.nb]):
            say("lanes", e0, f"the bytes taken from the beat are {got if got is not Fail else 'an exception'}, not those of lanes {lo} to {hi-1}")
    return one


def returned(J, L):
    """is what is returned the collected bytes, at the length asked for?"""
    j = J.j
    seen = set()
    for e, t, p in L.res:
        t = j.sym(t)
        bufs = [x for x in tm.subterms(t) if x in L.bufs]
        if t in seen:
            continue
        seen.add(t)
        if len(bufs) != 1:
            J.unknown("returned", "data returned not identified")
            continue
        for o in J.ops:
            full = [(7*i+3) % 253 for i in range(o.len)]
            for extra in ((), (251, 252)) if L.cut else ((),):
                fx = dict(j.fixed(o))
                fx[bufs[0]] = full+list(extra)
                v = Ev(fx).get(t)
                if v is Ellipsis:
                    J.unknown("returned", "data returned not determined")
                    break
                if v != full:
                    J.bad("returned", e, f"what is returned is not the {o.len} bytes collected ({o})")
                    break


def cuts(L):
    """are surplus bytes cut off before the data is returned?"""
    ok = bool(L.res)
    for e, t, p in L.res:
        t = L.j.sym(t)
        bufs = [x for x in tm.subterms(t) if x in L.bufs]
        if len(bufs) != 1:
            return False
        o = Op(4, 0, 5, 2)
        fx = dict(L.j.fixed(o))
        fx[bufs[0]] = list(range(9))
        v = Ev(fx).get(t)
        ok = ok and v == list(range(5))
    return ok


@prop("C17")
def lanes(an, rep):
    tier = getattr(an, "tier", "quick")
    rep.rule("strobes", "the strobes of a beat are high on exactly the lanes that carry data of the operation in it")
    rep.rule("lanes", "the lanes of a beat that belong to the operation carry its next bytes in order; exactly those lanes are taken from a read beat, in address order")
    rep.rule("returned", "a read returns the bytes collected, as many as asked for")
    rep.rule("form", "the variables of the loop over the beats follow a closed form in the position within the operation")
    for j in jobs(an):
        L = Lanes(j)
        if j.write and j.stage == "resp" or not j.write and j.stage == "req" and not L.bufs:
            continue
        if not j.write and not L.bufs:
            rep.unk("lanes", j.w, "buffer for the data read not found")
            continue
        L.cut = not j.write and cuts(L)
        J = Judge(rep, j, grid17(j, tier), True, L.outs, judge17(L))
        L.m = J.m
        J.run()
        before = set(J.unk)
        if not j.write:
            returned(J, L)
        for r in set(J.unk)-before:
            rep.unk(r, j.w, J.unk[r])
        for rule in rep.rules:
            if rule == "form" or rule == "strobes" and not j.write and j.stage == "resp" or rule == "returned" and j.write:
                continue
            if rule not in J.unk and rule not in {r for r, w in J.said}:
                rep.ok(rule, j.w, f"{len(J.ops)} operations, {J.n} passes")
        if not J.m.failed:
            rep.ok("form", j.w, ", ".join(f"{n} = {v}" for (l, n), v in sorted(J.m.names.items())))
