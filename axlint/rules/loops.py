"""Closed forms of loop variables: what a variable of a loop is worth in iteration J, from its initial value and the value every back edge
gives it (unchanged, stepped by a fixed amount, or recomputed from such variables)."""

from ..core import *
from .. import eqv


def J(loop):
    return T("iter", loop)


def norm(t):
    """forget when attributes, signals and lengths were read"""
    def f(x):
        if x.op == "mattr":
            return T("attr", norm(x.args[0]), x.args[1])
        if x.op == "val":
            return T("val", norm(x.args[0]), 0)
        if x.op == "call" and x.args[0] in ("len", "list", "bytes", "bytearray", "qsize", "tuple", "int"):
            a = x.args[1] if isinstance(x.args[1], tuple) else (x.args[1],)
            return T("call", x.args[0], tuple(norm(y) for y in a), (), 0)
        return None
    return tm.subst(t, f) if isinstance(t, tm.Term) else t


def loop_paths(ps, loop):
    return [p for p in ps if p.kind == "backedge" and p.end[1] == loop]


def has_mu(t, loop):
    return any(x.op == "mu" and x.args[0] == loop for x in tm.subterms(t))


class Closed:
    """closed forms for one loop as entered on path p"""

    def __init__(self, ps, p, loop):
        self.loop = loop
        self.back = [b for b in loop_paths(ps, loop) if b.func is p.func]
        self.init = p.linit.get(loop, {})
        self.map = {}
        self.kind = {}
        self.step = {}
        self.var = {}
        names = [k for k in self.init if not (k.startswith("#") and k != "#")]
        mus = {k: T("mu", loop, k) for k in names}
        self.mus = mus
        j = J(loop)
        todo = set(names)
        for k in names:
            nx = {b.end[2].get(k, mus[k]) for b in self.back}
            if all(v is mus[k] for v in nx):
                self.map[mus[k]] = self.init[k]
                self.kind[k] = "same"
                todo.discard(k)
        changed = True
        while changed:
            changed = False
            for k in sorted(todo):
                nx = {b.end[2].get(k, mus[k]) for b in self.back}
                nx = {tm.subst(v, lambda x: self.map.get(x) if x.op == "mu" else None) for v in nx}
                if len(nx) != 1:
                    continue
                v = nx.pop()
                try:
                    d = tm.sub_(v, mus[k])
                except Exception:
                    continue
                if not has_mu(d, loop) and not tm.contains(d, j):
                    self.map[mus[k]] = tm.add(self.init[k], tm.mul(d, j))
                    self.kind[k] = "step"
                    self.step[k] = d
                    todo.discard(k)
                    changed = True
        for k in sorted(todo):
            # shifted by a fixed amount every iteration
            nx = {tm.subst(b.end[2].get(k, mus[k]), lambda x: self.map.get(x) if x.op == "mu" else None) for b in self.back}
            if len(nx) == 1:
                v = next(iter(nx))
                d = shift_amount(v, mus[k])
                if d is not None and not has_mu(d, loop) and not tm.contains(d, j):
                    self.map[mus[k]] = tm.shr(self.init[k], tm.mul(d, j))
                    self.kind[k] = "shift"
                    self.step[k] = d
                    todo.discard(k)
        for k in todo:
            nx = {self.sub(b.end[2].get(k, mus[k])) for b in self.back}
            self.var[k] = nx
            if len(nx) == 1:
                v = next(iter(nx))
                if not tm.contains(v, mus[k]):
                    self.kind[k] = "last"
                elif v.op in ("bor", "lin") and (mus[k] in v.args or v.op == "lin"):
                    self.kind[k] = "acc"

    def sub(self, t):
        return tm.subst(t, lambda x: self.map.get(x) if x.op == "mu" else None)

    def contrib(self, k):
        """what iteration J adds to accumulator k"""
        (v,) = self.var[k]
        return split_acc(v, self.mus[k])

    def at(self, t, n):
        """t with the iteration number n"""
        j = J(self.loop)
        return tm.subst(t, lambda x: n if x is j else None)

    def before(self, t):
        """value of t (over mus) at the start of iteration J >= 1 in terms of iteration J-1, for 'last' variables"""
        j = J(self.loop)
        def f(x):
            if x.op == "mu" and x.args[0] == self.loop and self.kind.get(x.args[1]) == "last":
                (v,) = self.var[x.args[1]]
                return self.at(self.sub(v), tm.sub_(j, ONE))
            return None
        return self.sub(tm.subst(t, f))


def shift_amount(v, m):
    """v == m >> d  ->  d"""
    if v.op == "shr" and v.args[0] is m:
        return v.args[1]
    if v.op == "floordiv" and v.args[0] is m:
        n = tm.numval(v.args[1])
        if n is not None and n > 0 and n & (n-1) == 0:
            return const(n.bit_length()-1)
        if v.args[1].op == "pow2":
            return v.args[1].args[0]
    return None


def split_acc(v, m):
    """v == m | x or m + x  ->  x"""
    if v is m:
        return ZERO
    if v.op == "bor" and m in v.args:
        r = [x for x in v.args if x is not m]
        if any(tm.contains(x, m) for x in r):
            return None
        out = r[0]
        for x in r[1:]:
            out = tm.bor(out, x)
        return out
    try:
        d = tm.sub_(v, m)
    except Exception:
        return None
    return None if tm.contains(d, m) else d


def loops_of(p):
    return list(p.linit)


class Progress:
    """closed forms of variables that advance by multiples of one quantity D per iteration (D may differ between iterations): init + k*P, where P is
    what has been advanced so far"""

    def __init__(self, ps, p, loop, steps):
        """steps: {back path: D}"""
        self.loop = loop
        self.P = T("prog", loop)
        self.init = p.linit.get(loop, {})
        self.map = {}
        self.bad = []
        names = [k for k in self.init if not (k.startswith("#") and k != "#")]
        for k in names:
            m = T("mu", loop, k)
            ks = set()
            for b, D in steps.items():
                v = b.end[2].get(k, m)
                try:
                    d = tm.sub_(v, m)
                except Exception:
                    ks.add(None)
                    continue
                if d is ZERO:
                    ks.add(0)
                elif d is D:
                    ks.add(1)
                elif d is tm.neg(D):
                    ks.add(-1)
                elif k == "#":
                    ks.add("#")
                elif v.op == "slice" and v.args[0] is m and v.args[1] is D and v.args[2] is NONE:
                    ks.add("tail")
                else:
                    r = 1 if eqv.equal(d, D, n=200) is True else -1 if eqv.equal(d, tm.neg(D), n=200) is True else None
                    ks.add(r)
            if len(ks) != 1 or None in ks:
                if self.init[k] is not NONE:
                    self.bad.append(k)
                continue
            q = ks.pop()
            if q == "#":
                self.map[m] = tm.add(self.init[k], tm.mul(self.init.get("#step") or ONE, J(loop)))
            elif q == "tail":
                self.map[m] = T("slice", self.init[k], self.P, NONE)
            else:
                self.map[m] = tm.add(self.init[k], tm.mul(const(q), self.P)) if q else self.init[k]

    def sub(self, t):
        def f(x):
            if x.op == "mu":
                return self.map.get(x)
            return None
        r = tm.subst(t, f)

        def g(x):
            # slice of a tail of the data
            if x.op == "slice" and x.args[0].op == "slice" and x.args[0].args[2] is NONE and x.args[2] is not NONE:
                o = x.args[0].args[1]
                return T("slice", x.args[0].args[0], tm.add(x.args[1] if x.args[1] is not NONE else ZERO, o), tm.add(x.args[2], o))
            if x.op == "call" and x.args[0] == "len" and x.args[1] and x.args[1][0].op == "slice" and x.args[1][0].args[1] is self.P and x.args[1][0].args[2] is NONE:
                return tm.sub_(T("call", "len", (x.args[1][0].args[0],), (), 0), self.P)
            return None
        return tm.subst(r, g)


def iterations(ps, p, loop):
    """number of iterations after which path p leaves the loop, as (count, True when the last one is walked on p itself), or None"""
    init = p.linit.get(loop, {})
    inside = any(loop in e.loops for e in p.events)
    if "#hi" in init and not inside:
        st = init.get("#step") or ONE
        if st is ONE:
            return tm.sub_(init["#hi"], init["#"]), False
    cl = Closed(ps, p, loop)
    j = J(loop)
    for t, v, _ in p.order:
        if not has_mu(t, loop):
            continue
        s = cl.sub(t)
        if has_mu(s, loop) or not tm.contains(s, j):
            continue
        e, add = None, 0
        if s.op == "lt0":
            e = s.args[0]
        elif s.op == "eq" and v:
            e = tm.sub_(s.args[0], s.args[1])
        elif s.op == "truthy" and not v:
            e = s.args[0]
        if e is None:
            continue
        rest = tm.subst(e, lambda x: ZERO if x is j else None)
        k = tm.numval(tm.sub_(tm.subst(e, lambda x: ONE if x is j else None), rest))
        if k not in (1, -1) or tm.contains(tm.sub_(tm.sub_(e, rest), tm.mul(const(k), j)), j):
            continue
        if s.op == "lt0":
            # k=-1: leaves when rest-J < 0 (v) ; k=1: leaves when rest+J >= 0 (not v)
            if k == -1 and v:
                n = tm.add(rest, ONE)
            elif k == 1 and not v:
                n = tm.neg(rest)
            else:
                continue
        else:
            n = rest if k == -1 else tm.neg(rest)
        return (tm.add(n, ONE), True) if inside else (n, False)
    return None
