"""Comparison of two value terms: identical normal form, or (when the forms differ) agreement at every point of a small grid with every
non-arithmetic subterm read as an uninterpreted function.  Used to tell a different spelling from a different value."""

import random
import zlib

from . import terms as tm
from .terms import Term, T


class Undef(Exception):
    pass


class Fails(Undef):
    """the operation raises an exception (strict evaluation only)"""


ARITH = {"lin", "mul", "pow2", "floordiv", "mod", "shr", "band", "bor", "bxor", "min", "max", "ite", "lt0", "eq", "not", "and", "truthy",
         "const", "enum", "isnone", "vor", "vand", "slice", "concat", "rep", "list", "tuple"}


def _h(seed, key, dom):
    return dom[zlib.crc32(repr((seed, key)).encode()) % len(dom)]


def _key(v):
    if isinstance(v, (list, bytearray)):
        return ("L",)+tuple(_key(x) for x in v)
    if isinstance(v, tuple):
        return tuple(_key(x) for x in v)
    return v


def atoms(t):
    """leaf terms (no arithmetic structure)"""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            if x.op in ARITH or (x.op == "call" and x.args[0] in ("int", "len", "bool", "abs", "bytes", "list", "bytearray")) or \
                    (x.op == "sub" and True) or x.op == "meth" and x.args[1] == "bit_length":
                stack.extend(a for a in x.args if isinstance(a, (Term, tuple)))
            else:
                out.add(x)
    return out


class Env:
    def __init__(self, seed, dom, fixed=None, lists=()):
        self.seed = seed
        self.dom = dom
        self.fixed = dict(fixed or {})
        self.lists = set(lists)
        self.memo = {}
        self.strict = False

    def leaf(self, t, key=None):
        if t in self.fixed:
            return self.fixed[t]
        if t in self.lists:
            r = random.Random(self.seed*100003+t.h)
            v = [r.randrange(256) for _ in range(r.choice((0, 1, 2, 3, 5)))]
            self.fixed[t] = v
            return v
        return _h(self.seed, key if key is not None else ("t", t.h), self.dom)

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.fixed or t in self.lists:
            return self.leaf(t)
        v = self._ev(t)
        self.memo[t] = v
        return v

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise Undef()
        return v

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "const":
            return a[0]
        if op == "enum":
            return a[2]
        if op == "lin":
            return a[0]+sum(k*self.num(x) for x, k in a[1])
        if op == "mul":
            r = 1
            for x in a:
                r *= self.num(x)
            return r
        if op == "pow2":
            e = self.num(a[0])
            if e < 0 or e > 4000:
                raise Undef()
            return 1 << e
        if op in ("floordiv", "mod"):
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise Undef()
            return x//y if op == "floordiv" else x % y
        if op == "shr":
            x, y = self.num(a[0]), self.num(a[1])
            if y < 0 or y > 4000:
                raise Undef()
            return x >> y
        if op in ("band", "bor", "bxor"):
            r = self.num(a[0])
            for x in a[1:]:
                y = self.num(x)
                r = r & y if op == "band" else r | y if op == "bor" else r ^ y
            return r
        if op in ("min", "max"):
            vs = [self.num(x) for x in a]
            return min(vs) if op == "min" else max(vs)
        if op == "ite":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if op == "lt0":
            return self.num(a[0]) < 0
        if op == "eq":
            return self.ev(a[0]) == self.ev(a[1])
        if op == "not":
            return not self.ev(a[0])
        if op == "and":
            return all(self.ev(x) for x in a)
        if op == "vor":
            return self.ev(a[0]) or self.ev(a[1])
        if op == "vand":
            return self.ev(a[0]) and self.ev(a[1])
        if op == "truthy":
            return bool(self.ev(a[0]))
        if op == "isnone":
            return self.ev(a[0]) is None
        if op == "call" and a[0] in ("int", "bool") and len(a[1]) == 1:
            v = self.ev(a[1][0])
            if a[0] == "bool":
                return bool(v)
            if isinstance(v, (int, bool)):
                return int(v)
            raise Undef()
        if op == "call" and a[0] == "abs":
            return abs(self.num(a[1][0]))
        if op == "call" and a[0] == "len" and len(a[1]) == 1:
            v = self.ev(a[1][0])
            if isinstance(v, (list, bytes, bytearray, tuple)):
                return len(v)
            self._notlist(v)
            return abs(_h(self.seed, ("len", _key(v)), [1, 2, 3, 4, 8, 16]))
        if op == "call" and a[0] in ("list", "bytes", "bytearray", "tuple") and len(a[1]) == 1:
            v = self.ev(a[1][0])
            if isinstance(v, (list, bytes, bytearray, tuple)):
                return list(v)
            return _h(self.seed, (a[0], _key(v)), self.dom)
        if op in ("list", "tuple"):
            return [self.ev(x) for x in a]
        if op == "concat":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, list) and isinstance(y, list):
                return x+y
            raise Undef()
        if op == "rep":
            x, n = self.ev(a[0]), self.num(a[1])
            if isinstance(x, list):
                return x*min(n, 1000)
            raise Undef()
        if op == "slice":
            x = self.ev(a[0])
            if isinstance(x, list):
                lo = self.ev(a[1])
                hi = self.ev(a[2])
                return x[lo:hi]
            self._notlist(x)
            return _h(self.seed, ("slice", _key(x), _key(self.ev(a[1])), _key(self.ev(a[2]))), self.dom)
        if op == "sub":
            x = self.ev(a[0])
            k = self.ev(a[1])
            if isinstance(x, list) and isinstance(k, int):
                if not -len(x) <= k < len(x):
                    raise Fails()
                return x[k]
            self._notlist(x)
            return _h(self.seed, ("sub", _key(x), _key(k)), self.dom)
        if op == "call" and a[0] in ("range", "zip", "enumerate", "reversed", "sum", "all", "any", "sorted", "max", "min") and isinstance(a[1], tuple) and \
                (len(a) < 3 or not a[2]):
            vs = [self.ev(x) for x in a[1]]
            if a[0] == "range":
                if all(isinstance(v, int) for v in vs) and vs:
                    if len(vs) == 3 and vs[2] == 0:
                        raise Undef()
                    return list(range(*vs))[:2000]
                raise Undef()
            if all(isinstance(v, list) for v in vs) and vs:
                if a[0] == "zip":
                    return [list(x) for x in zip(*vs)]
                if len(vs) == 1:
                    v = vs[0]
                    if a[0] == "enumerate":
                        return [list(x) for x in enumerate(v)]
                    if a[0] == "reversed":
                        return v[::-1]
                    try:
                        return {"sum": sum, "all": all, "any": any, "sorted": sorted, "max": max, "min": min}[a[0]](v)
                    except (ValueError, TypeError):
                        raise Undef()
        if op == "meth" and a[1] in ("count", "copy") and isinstance(a[2], tuple) and len(a[2]) == (a[1] == "count"):
            v = self.ev(a[0])
            if isinstance(v, list):
                return v.count(self.ev(a[2][0])) if a[1] == "count" else list(v)
        if op == "call" and a[0] in ("set", "frozenset") and len(a[1]) == 1:
            v = self.ev(a[1][0])
            if isinstance(v, list) and not any(isinstance(x, list) for x in v):
                return list(dict.fromkeys(v))
        if op == "meth" and a[1] == "bit_length" and not a[2]:
            return self.num(a[0]).bit_length()
        if op == "typeis" and isinstance(a[1], Term) and a[1].op in ("ext", "cls"):
            v = self.ev(a[0])
            n = a[1].args[0]
            if v is None or isinstance(v, (bool, int, list, str, bytes, float)):
                return type(v).__name__ == n
        if op == "isinstance" and isinstance(a[1], Term) and a[1].op in ("ext", "cls"):
            v = self.ev(a[0])
            n = a[1].args[0]
            if v is None or isinstance(v, (bool, int, list, str, bytes)):
                return n in [k.__name__ for k in type(v).__mro__]
        if op == "comp" and a[0] in ("list", "gen", "tuple", "set") and len(a[1]) == 1 and all(d[0].op != "opaque" for d in a[2] if isinstance(d, tuple)) and \
                all(isinstance(d, tuple) and len(d) == 2 for d in a[2]):
            out = []
            self._comp(a[1][0], list(a[2]), 0, {}, out)
            return out
        # uninterpreted
        if any(isinstance(x, (Term, tuple)) for x in a):
            parts = []
            for x in a:
                parts.append(self._deep(x))
            return self.leaf(t, (op,)+tuple(parts))
        return self.leaf(t)

    def _notlist(self, v):
        if self.strict and (v is None or isinstance(v, (int, bool))):
            raise Fails()

    def _comp(self, elt, doms, i, bind, out):
        e = Env(self.seed, self.dom, {**self.fixed, **bind}, self.lists)
        e.strict = self.strict
        if i == len(doms):
            out.append(e.ev(elt))
            return
        it, conds = doms[i]
        bs = {x for t in (elt,)+tuple(c for _, cs in doms for c in cs)+tuple(d for d, _ in doms) for x in tm.subterms(t) if x.op == "bound" and x.args[1] == i}
        if len(bs) > 1:
            raise Undef()
        v = e.ev(it)
        if not isinstance(v, list):
            raise Undef()
        one = it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 1
        for n in range(len(v)):
            nb = dict(bind)
            for b in bs:
                nb[b] = v[n] if one else n
            f = Env(self.seed, self.dom, {**self.fixed, **nb}, self.lists)
            f.strict = self.strict
            if all(f.ev(c) for c in conds):
                self._comp(elt, doms, i+1, nb, out)

    def _deep(self, x):
        if isinstance(x, Term):
            return _key(self.ev(x))
        if isinstance(x, tuple):
            return tuple(self._deep(y) for y in x)
        return x


DOMS = ([0, 1, 2, 3, 4, 5, 7, 8], [1, 2, 4, 8, 16], [0, 1], [1, 3, 6, 11, 13, 17, 255, 256, 4095], [2, 4, 8, 12, 16, 20])


def equal(a, b, given=(), n=400, lists=(), fixed=None, domains=None):
    """True / False / None (cannot tell): do terms a and b have the same value whenever the (term, bool) formulas in `given` hold?"""
    if a is b:
        return True
    if not isinstance(a, Term) or not isinstance(b, Term):
        return None
    ck = None
    if not lists and not fixed and not domains:
        ck = (a, b, frozenset(given), n)
        if ck in CACHE:
            return CACHE[ck]
    r = _equal(a, b, given, n, lists, fixed, domains)
    if ck is not None:
        CACHE[ck] = r
    return r


CACHE = {}


def _equal(a, b, given, n, lists, fixed, domains):
    hits = 0
    und = 0
    doms = domains or DOMS
    for i in range(4*n):
        if i >= n and (hits >= 8 or und > i//2):
            break
        e = Env(i, doms[i % len(doms)], fixed, lists)
        try:
            if any(bool(e.ev(t)) != v for t, v in given):
                continue
            x, y = e.ev(a), e.ev(b)
        except Undef:
            und += 1
            continue
        except (TypeError, OverflowError, MemoryError):
            und += 1
            continue
        hits += 1
        if isinstance(x, bool) or isinstance(y, bool):
            x, y = int(bool(x)) if isinstance(x, (bool, int)) else x, int(bool(y)) if isinstance(y, (bool, int)) else y
        if x != y:
            return False
    if hits < 8:
        return None
    return True


def implies(given, t, n=400, lists=(), fixed=None, domains=None):
    """does the formula t hold on every grid point where the given ones do?  -> True / False / None"""
    return equal(tm.truthy(t), tm.TRUE, given=given, n=n, lists=lists, fixed=fixed, domains=domains)
