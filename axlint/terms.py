"""Hash-consed value terms with arithmetic and boolean canonicalisation.

A term describes a value as the source computes it.  Two expressions that are equal modulo the identities
below (linear arithmetic, floor division / modulo by the same divisor, powers of two, comparison direction,
negation, truthiness) intern to the same object, so rules compare values by identity whatever the spelling.
"""

import zlib

_table = {}


class Term:
    __slots__ = ("op", "args", "id", "h", "_lin")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def _key(v):
    if isinstance(v, (bool, int, float, complex, str, bytes, type(None), type(Ellipsis))):
        return (type(v).__name__, v)
    if isinstance(v, tuple):
        return tuple(_key(x) for x in v)
    return v


def _hkey(v):
    if isinstance(v, Term):
        return v.h
    if isinstance(v, (tuple, list)):
        return [_hkey(x) for x in v]
    if isinstance(v, (bool, int, float, complex, str, bytes, type(None))):
        return (type(v).__name__, v)
    return type(v).__name__


def T(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_table)
        # hash of the structure: the same in every run, whatever else was analysed before
        t.h = zlib.crc32(repr((op, _hkey(args))).encode())
        t._lin = None
        _table[k] = t
    return t


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "const"


def is_num(t):
    return (t.op == "const" and isinstance(t.args[0], (int, bool))) or t.op == "enum"


def numval(t):
    if t.op == "const" and isinstance(t.args[0], (int, bool)):
        return int(t.args[0])
    if t.op == "enum":
        return t.args[2]
    return None


# ---------------------------------------------------------------- linear arithmetic

def lin_of(t):
    """(const, {atom: coeff})"""
    if t._lin is not None:
        return t._lin
    v = numval(t)
    if v is not None:
        r = (v, {})
    elif t.op == "lin":
        r = (t.args[0], dict(t.args[1]))
    else:
        r = (0, {t: 1})
    t._lin = r
    return r


def mk_lin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T("lin", c, items)


def add(a, b, sb=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0)+sb*k
    return _fold_div(ca+sb*cb, d)


def _fold_div(c, d):
    """n*(a//n) -> a - a%n, for every product atom in the sum."""
    changed = True
    while changed:
        changed = False
        for x, k in list(d.items()):
            if not k:
                continue
            if x.op == "mul":
                for i, f in enumerate(x.args):
                    if f.op == "floordiv" and f.args[1] in x.args[:i]+x.args[i+1:]:
                        rest = list(x.args)
                        rest.pop(i)
                        rest.remove(f.args[1])
                        rep = add(f.args[0], mod(f.args[0], f.args[1]), -1)
                        for r in rest:
                            rep = mul(rep, r)
                        del d[x]
                        cr, dr = lin_of(rep)
                        c += k*cr
                        for y, ky in dr.items():
                            d[y] = d.get(y, 0)+k*ky
                        changed = True
                        break
                if changed:
                    break
            elif x.op == "floordiv" and numval(x.args[1]) and k % numval(x.args[1]) == 0:
                n = numval(x.args[1])
                q = k//n
                rep = add(x.args[0], mod(x.args[0], x.args[1]), -1)
                del d[x]
                cr, dr = lin_of(rep)
                c += q*cr
                for y, ky in dr.items():
                    d[y] = d.get(y, 0)+q*ky
                changed = True
                break
    return mk_lin(c, d)


def sub_(a, b):
    return add(a, b, -1)


def neg(a):
    return add(ZERO, a, -1)


def mul(a, b):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    c = ca*cb
    d = {}
    for x, k in da.items():
        if cb:
            d[x] = d.get(x, 0)+k*cb
    for x, k in db.items():
        if ca:
            d[x] = d.get(x, 0)+k*ca
    for x, k in da.items():
        for y, l in db.items():
            p = _mulatom(x, y)
            d[p] = d.get(p, 0)+k*l
    return _fold_div(c, d)


def _mulatom(x, y):
    fs = []
    for t in (x, y):
        if t.op == "mul":
            fs.extend(t.args)
        else:
            fs.append(t)
    # combine powers of two
    e = None
    rest = []
    for f in fs:
        if f.op == "pow2":
            e = f.args[0] if e is None else add(e, f.args[0])
        else:
            rest.append(f)
    if e is not None:
        rest.append(pow2(e))
    rest.sort(key=lambda t: t.id)
    if len(rest) == 1:
        return rest[0]
    return T("mul", *rest)


def pow2(e):
    v = numval(e)
    if v is not None and v >= 0 and v < 4096:
        return const(2**v)
    return T("pow2", e)


def _divisible(c, d, n):
    return c % n == 0 and all(k % n == 0 for k in d.values())


def floordiv(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb:
        return const(va//vb)
    if vb == 1:
        return a
    if a is b:
        return ONE
    ca, da = lin_of(a)
    if vb and vb > 0:
        # pull out multiples
        qc = ca//vb
        d1, d2 = {}, {}
        for x, k in da.items():
            q, r = divmod(k, vb)
            if q:
                d1[x] = q
            if r:
                d2[x] = r
        rem = mk_lin(ca-qc*vb, d2)
        if numval(rem) is not None:
            return mk_lin(qc+numval(rem)//vb, d1)
        base = T("floordiv", rem, b)
        d1[base] = d1.get(base, 0)+1
        return mk_lin(qc, d1)
    # symbolic divisor: pull out c*n
    k = da.get(b, 0)
    extra = k
    d = {x: v for x, v in da.items() if x is not b}
    # products containing the divisor
    outer = {}
    for x in list(d):
        if x.op == "mul" and b in x.args:
            rest = list(x.args)
            rest.remove(b)
            t = ONE
            for r in rest:
                t = mul(t, r)
            outer[t] = outer.get(t, 0)+d.pop(x)
        elif x.op == "pow2" and b.op == "pow2" and False:
            pass
    rem = mk_lin(ca, d)
    res = const(extra)
    for t, kk in outer.items():
        res = add(res, mul(t, const(kk)))
    if rem is ZERO:
        return res
    if rem.op == "mod" and rem.args[1] is b:
        return res
    # canonical sign: floor(-x/n) = -floor((x-1)/n) - 1
    _, dr = lin_of(rem)
    if dr and min(dr.items(), key=lambda x: x[0].id)[1] < 0:
        pos = add(neg(rem), ONE, -1)
        return add(res, add(neg(T("floordiv", pos, b)), ONE, -1))
    return add(res, T("floordiv", rem, b))


def mod(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb:
        return const(va % vb)
    if vb == 1:
        return ZERO
    if a is b:
        return ZERO
    ca, da = lin_of(a)
    d = {}
    c = ca
    for x, k in da.items():
        if x is b:
            continue
        if x.op == "mul" and b in x.args:
            continue
        if x.op == "mod" and x.args[1] is b:
            cx, dx = lin_of(x.args[0])
            c += k*cx
            for y, ky in dx.items():
                d[y] = d.get(y, 0)+k*ky
            continue
        d[x] = d.get(x, 0)+k
    if vb and vb > 0:
        c %= vb
        d = {x: k % vb for x, k in d.items()}
    elif b in d:
        del d[b]
    r = mk_lin(c, d)
    if numval(r) is not None and vb:
        return const(numval(r) % vb)
    if r is ZERO:
        return ZERO
    return T("mod", r, b)


def shl(a, b):
    return mul(a, pow2(b))


def shr(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return const(va >> vb)
    if vb == 0:
        return a
    return T("shr", a, b)


def is_pow2_minus1(t):
    """returns n when t is structurally n-1 with n a power of two"""
    v = numval(t)
    if v is not None:
        return const(v+1) if v > 0 and (v & (v+1)) == 0 else None
    c, d = lin_of(t)
    if c == -1 and len(d) == 1:
        (x, k), = d.items()
        if k == 1 and x.op == "pow2":
            return x
    return None


def band(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return const(va & vb)
    for x, y in ((a, b), (b, a)):
        if numval(y) == 0:
            return ZERO
        n = is_pow2_minus1(y)
        if n is not None:
            return mod(x, n)
    fs = []
    for t in (a, b):
        if t.op == "band":
            fs.extend(t.args)
        else:
            fs.append(t)
    fs = sorted(set(fs), key=lambda t: t.id)
    if len(fs) == 1:
        return fs[0]
    return T("band", *fs)


def bor(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return const(va | vb)
    fs = []
    for t in (a, b):
        if t.op == "bor":
            fs.extend(t.args)
        elif numval(t) == 0:
            pass
        else:
            fs.append(t)
    fs = sorted(set(fs), key=lambda t: t.id)
    if not fs:
        return ZERO
    if len(fs) == 1:
        return fs[0]
    return T("bor", *fs)


def bxor(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return const(va ^ vb)
    return T("bxor", *sorted((a, b), key=lambda t: t.id))


def mnmx(op, args):
    fs = []
    for t in args:
        if t.op == op:
            fs.extend(t.args)
        else:
            fs.append(t)
    nums = [numval(t) for t in fs if numval(t) is not None]
    fs = sorted({t for t in fs if numval(t) is None}, key=lambda t: t.id)
    if nums:
        fs.append(const(min(nums) if op == "min" else max(nums)))
    if len(fs) == 1:
        return fs[0]
    return T(op, *fs)


# ---------------------------------------------------------------- booleans

STR_LIKE = ("concat",)


def bool_valued(t):
    return t.op in ("not", "and", "or", "lt0", "eq", "isnone", "hasattr", "isinstance", "in", "truthy", "is", "callable") or \
        (t.op == "const" and isinstance(t.args[0], bool)) or (t.op == "ite" and bool_valued(t.args[1]) and bool_valued(t.args[2]))


def truthy(t):
    """canonical boolean term for the truth value of t"""
    if t.op == "const":
        return TRUE if t.args[0] else FALSE
    if t.op == "enum":
        return TRUE if t.args[2] else FALSE
    if t.op in ("call",) and t.args[0] in ("bool", "int", "len") and len(t.args[1]) == 1:
        return truthy(t.args[1][0])
    if t.op in ("not", "and", "or"):
        return t
    if bool_valued(t):
        return t
    if t.op == "ite":
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op == "vand":
        return and_(t.args[0], t.args[1])
    if t.op == "vor":
        return or_(t.args[0], t.args[1])
    if t.op in ("new", "newobj", "fn", "bound", "cls", "self", "nt", "coro"):
        if t.op in ("new",) and t.args[0] in ("list", "dict", "bytearray"):
            return T("truthy", t)
        if t.op == "new":
            return T("truthy", t)
        return TRUE
    if t.op in ("tuple", "list"):
        return TRUE if t.args else FALSE
    if t.op == "lin":
        return not_(eq(t, ZERO))
    return T("truthy", t)


def not_(t):
    t = truthy(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def and_(*ts):
    out = []
    for t in ts:
        t = truthy(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.id)
    for t in out:
        if not_(t) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def lt(a, b):
    """a < b over the integers"""
    d = sub_(a, b)
    c, m = lin_of(d)
    if not m:
        return TRUE if c < 0 else FALSE
    lead = min(m.items(), key=lambda x: x[0].id)
    if lead[1] < 0:
        # e < 0  <=>  not (e >= 0)  <=>  not (-e-1 < 0) ... negate so that the leading coefficient is positive
        e = sub_(neg(d), ONE)
        # d < 0 <=> -d > 0 <=> -d >= 1 <=> not(-d < 1) <=> not(-d-1 < 0)
        return T("not", T("lt0", e))
    return T("lt0", d)


def eq(a, b):
    if a is b:
        return TRUE
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return TRUE if va == vb else FALSE
    if a.op == "const" and b.op == "const":
        try:
            return TRUE if a.args[0] == b.args[0] else FALSE
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            return isnone(x)
        if y.op == "const" and isinstance(y.args[0], bool) and bool_valued(x):
            return x if y.args[0] else not_(x)
    # boolean == boolean
    if bool_valued(a) and bool_valued(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == "const" and not isinstance(a.args[0], (int, bool)) or b.op == "const" and not isinstance(b.args[0], (int, bool)):
        x, y = sorted((a, b), key=lambda t: t.id)
        return T("eq", x, y)
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    numeric = lambda t: t.op in ("lin", "mul", "pow2", "floordiv", "mod", "shr", "band", "bor", "min", "max") or numval(t) is not None \
        or (t.op == "call" and t.args[0] in ("len", "int"))
    if numeric(a) or numeric(b):
        d = sub_(a, b)
        c, m = lin_of(d)
        if not m:
            return TRUE if c == 0 else FALSE
        if len(m) == 1 and c == 0:
            (x, k), = m.items()
            return T("not", truthy(x)) if truthy(x).op != "not" else truthy(x).args[0]
        lead = min(m.items(), key=lambda x: x[0].id)
        if lead[1] < 0:
            d = neg(d)
        return T("eq", d, ZERO)
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("eq", x, y)


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op in ("const", "enum", "new", "nt", "tuple", "list", "lin", "self", "cls", "fn", "bound", "coro", "floordiv", "mod", "mul", "pow2") or bool_valued(t):
        return FALSE
    if t.op == "attr" and t.args[0].op in ("attr", "param") and t.args[0].args[1] == "bus":
        return FALSE
    if t.op == "call" and t.args[0] in ("len", "int", "bytes", "list", "bool", "bytearray", "RisingEdge", "Edge"):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    return T("isnone", t)


def ite(c, a, b):
    c = truthy(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if bool_valued(a) and bool_valued(b):
        return or_(and_(c, a), and_(not_(c), b))
    return T("ite", c, a, b)


# ---------------------------------------------------------------- traversal

def subterms(t, seen=None):
    """all terms inside t, t included"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, x):
    return any(y is x for y in subterms(t))


_REBUILD = {}


def rebuild(t, args):
    op = t.op
    if op == "lin":
        c, items = args
        r = const(c)
        for a, k in items:
            r = add(r, mul(a, const(k)))
        return r
    if op == "mul":
        r = ONE
        for a in args:
            r = mul(r, a)
        return r
    f = {"floordiv": floordiv, "mod": mod, "shr": shr, "pow2": pow2, "truthy": truthy, "not": not_,
         "isnone": isnone, "eq": eq, "ite": ite}.get(op)
    if f:
        return f(*args)
    if op == "band":
        r = args[0]
        for a in args[1:]:
            r = band(r, a)
        return r
    if op == "bor":
        r = args[0]
        for a in args[1:]:
            r = bor(r, a)
        return r
    if op in ("min", "max"):
        return mnmx(op, args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "vor" and bool_valued(args[0]) and bool_valued(args[1]):
        return or_(*args)
    if op == "vand" and bool_valued(args[0]) and bool_valued(args[1]):
        return and_(*args)
    return T(op, *args)


def subst(t, m, memo=None):
    """replace terms by terms (m: dict or callable returning a term or None), renormalising"""
    get = m.get if isinstance(m, dict) else m
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        r = get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else rebuild(x, na)
        memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth+1)
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op == "enum":
        return f"{a[0]}.{a[1]}"
    if op == "lin":
        parts = []
        for x, k in a[1]:
            parts.append(("" if k == 1 else "-" if k == -1 else f"{k}*")+s(x))
        if a[0]:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")"
    if op == "mul":
        return "*".join(s(x) for x in a)
    if op == "pow2":
        return f"2**{s(a[0])}"
    if op in ("floordiv", "mod", "shr"):
        return f"({s(a[0])} {dict(floordiv='//', mod='%', shr='>>')[op]} {s(a[1])})"
    if op in ("band", "bor"):
        return "(" + (" & " if op == "band" else " | ").join(s(x) for x in a) + ")"
    if op == "param":
        return a[1]
    if op == "self":
        return "self"
    if op in ("attr",):
        return f"{s(a[0])}.{a[1]}"
    if op == "mattr":
        return f"{s(a[0])}.{a[1]}@{a[2]}"
    if op == "truthy":
        return f"?{s(a[0])}"
    if op == "not":
        return f"!{s(a[0])}"
    if op == "and":
        return "(" + " && ".join(s(x) for x in a) + ")"
    if op == "lt0":
        return f"{s(a[0])}<0"
    if op == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if op == "isnone":
        return f"{s(a[0])} is None"
    if op == "hasattr":
        return f"has({s(a[0])}.{s(a[1])})"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "mu":
        return f"{a[1]}~{a[0]}"
    if op == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return f"{s(a[0])}[{s(a[1])}:{s(a[2])}]"
    if op == "call":
        return f"{a[0]}({', '.join(s(x) for x in a[1])})" + (f"#{a[3]}" if len(a) > 3 and a[3] else "")
    if op == "meth":
        return f"{s(a[0])}.{a[1]}({', '.join(s(x) for x in a[2])})" + (f"#{a[4]}" if a[4] else "")
    if op == "new":
        return f"<{a[0]}#{a[1]}>"
    if op == "nt":
        return f"{a[0]}({', '.join(f'{k}={s(v)}' for k, v in a[1])})"
    if op in ("tuple", "list"):
        return ("(" if op == "tuple" else "[") + ", ".join(s(x) for x in a) + (")" if op == "tuple" else "]")
    return f"{op}<{', '.join(s(x) if isinstance(x, Term) else str(x) for x in a)}>"
