"""Constant propagation through module level definitions and the class factory they call.

A value is propagated only if every operand is known; anything else raises Unknown (the obligation stays undecided)."""

import ast


class Unknown(Exception):
    pass


class ClassVal:
    """a class built by type(name, bases, attributes)"""
    def __init__(self, name, bases, attrs):
        self.name, self.bases, self.attrs = name, bases, attrs


class Ref:
    """a name of the package (class, function) or of another library"""
    def __init__(self, kind, obj):
        self.kind, self.obj = kind, obj

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.kind, self.obj) == (o.kind, o.obj)

    def __hash__(self):
        return hash((self.kind, id(self.obj)))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


STR = {"lower", "upper", "endswith", "startswith", "strip", "lstrip", "rstrip", "split", "join", "replace", "format", "capitalize", "title", "casefold", "removeprefix", "removesuffix"}
LIST = {"append", "extend", "insert", "remove", "pop", "index", "copy", "count", "reverse", "sort"}
DICT = {"get", "setdefault", "update", "items", "keys", "values", "pop", "copy"}
SET = {"add", "union", "update", "discard", "copy", "difference", "intersection"}
BUILTIN = {"list": list, "dict": dict, "tuple": tuple, "set": set, "frozenset": frozenset, "len": len, "str": str, "int": int, "bool": bool, "sorted": sorted,
           "range": range, "zip": zip, "enumerate": enumerate, "min": min, "max": max, "any": any, "all": all, "reversed": reversed,
           "sum": sum, "isinstance": isinstance, "next": next, "iter": iter}
OPS = {ast.Add: lambda a, b: a+b, ast.Sub: lambda a, b: a-b, ast.Mult: lambda a, b: a*b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
       ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.Pow: lambda a, b: a**b,
       ast.FloorDiv: lambda a, b: a//b, ast.Mod: lambda a, b: a % b}
CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
       ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
       ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


class Const:
    def __init__(self, pkg, module, funcs=None):
        self.pkg = pkg
        self.m = module
        self.steps = 0
        self.cache = {}

    # ---- names
    def lookup(self, name, env):
        if name in env:
            return env[name]
        if name in self.cache:
            v = self.cache[name]
            if v is self:
                raise Unknown(name)
            return v
        r = self.pkg.resolve(self.m, name)
        if r is None:
            if name in BUILTIN or name == "type" or name == "super":
                return Ref("builtin", name)
            raise Unknown(name)
        if r[0] == "expr":
            self.cache[name] = self
            c = self if r[1] is self.m else Const(self.pkg, r[1])
            v = c.ev(r[2], {})
            self.cache[name] = v
            return v
        if r[0] == "tupexpr":
            key = ("tup", id(r[2]))
            if key not in self.cache:
                c = self if r[1] is self.m else Const(self.pkg, r[1])
                self.cache[key] = list(c.ev(r[2], {}))
            return self.cache[key][r[3]]
        if r[0] in ("class", "func"):
            return Ref(r[0], r[1])
        return Ref(r[0], r[1])

    # ---- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown("too long")
        try:
            return self._ev(e, env)
        except (Unknown, _Return, _Break, _Continue):
            raise
        except RecursionError:
            raise
        except Exception as x:
            raise Unknown(f"{type(x).__name__} in {ast.unparse(e)[:60]}")

    def _ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.lookup(e.id, env)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.ev(x.value, env))
                else:
                    out.append(self.ev(x, env))
            return out if isinstance(e, ast.List) else tuple(out) if isinstance(e, ast.Tuple) else set(out)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(self.ev(v, env))
                else:
                    d[self.ev(k, env)] = self.ev(v, env)
            return d
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if type(e.op) not in OPS:
                raise Unknown("operator")
            return OPS[type(e.op)](a, b)
        if isinstance(e, ast.UnaryOp):
            a = self.ev(e.operand, env)
            return not a if isinstance(e.op, ast.Not) else -a if isinstance(e.op, ast.USub) else ~a if isinstance(e.op, ast.Invert) else +a
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env)
                if bool(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.Compare):
            a = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                b = self.ev(r, env)
                if not CMP[type(op)](a, b):
                    return False
                a = b
            return True
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.ev(e.test, env) else e.orelse, env)
        if isinstance(e, ast.JoinedStr):
            s = ""
            for x in e.values:
                if isinstance(x, ast.Constant):
                    s += x.value
                elif x.format_spec is None and x.conversion in (-1, 115):
                    s += str(self.ev(x.value, env))
                else:
                    raise Unknown("format")
            return s
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                return b[slice(*(self.ev(x, env) if x else None for x in (e.slice.lower, e.slice.upper, e.slice.step)))]
            return b[self.ev(e.slice, env)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            def gen(i, en):
                if i == len(e.generators):
                    out.append((self.ev(e.key, en), self.ev(e.value, en)) if isinstance(e, ast.DictComp) else self.ev(e.elt, en))
                    return
                g = e.generators[i]
                for x in list(self.ev(g.iter, en)):
                    n = dict(en)
                    self.bind(g.target, x, n)
                    if all(self.ev(c, n) for c in g.ifs):
                        gen(i+1, n)
            gen(0, dict(env))
            return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if isinstance(b, Ref) and b.kind == "class" and e.attr in b.obj.attrs:
                return Const(self.pkg, b.obj.module).ev(b.obj.attrs[e.attr], {})
            raise Unknown("attribute "+e.attr)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        raise Unknown(type(e).__name__)

    def call(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            ok = STR if isinstance(b, str) else LIST if isinstance(b, list) else DICT if isinstance(b, dict) else SET if isinstance(b, (set, frozenset)) else ()
            if f.attr not in ok:
                if isinstance(b, Ref) and b.kind == "module":
                    r = self.pkg.resolve(b.obj, f.attr)
                    if r and r[0] == "func":
                        return Const(self.pkg, r[1].module).apply(r[1].node, args, kw)
                raise Unknown("method "+f.attr)
            return getattr(b, f.attr)(*args, **kw)
        t = self.ev(f, env)
        if isinstance(t, Ref):
            if t.kind == "builtin":
                if t.obj == "type" and len(args) == 3 and isinstance(args[2], dict):
                    return ClassVal(args[0], args[1], dict(args[2]))
                if t.obj in BUILTIN:
                    if any(isinstance(x, (Ref, ClassVal)) for x in args):
                        raise Unknown("call")
                    r = BUILTIN[t.obj](*args, **kw)
                    return list(r) if t.obj in ("zip", "enumerate", "reversed", "range") else r
            if t.kind == "func":
                return Const(self.pkg, t.obj.module).apply(t.obj.node, args, kw)
        if isinstance(t, tuple) and t and t[0] == "localfunc":
            return self.apply(t[1], args, kw, t[2])
        raise Unknown("call of "+ast.unparse(f)[:40])

    def apply(self, node, args, kw, env=None):
        a = node.args
        en = dict(env or {})
        names = [x.arg for x in a.posonlyargs+a.args]
        for n, d in zip(names[len(names)-len(a.defaults):], a.defaults):
            en[n] = self.ev(d, {})
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                en[x.arg] = self.ev(d, {})
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                raise Unknown("arguments")
            en[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            en[a.vararg.arg] = ()
        given = set()
        for n, v in zip(names, args):
            en[n] = v
            given.add(n)
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in given:
                    raise Unknown("arguments")
                en[k] = kw.pop(k)
                given.add(k)
        if kw:
            if a.kwarg is None:
                raise Unknown("arguments")
            en[a.kwarg.arg] = kw
        elif a.kwarg is not None:
            en[a.kwarg.arg] = {}
        for n in names+[x.arg for x in a.kwonlyargs]:
            if n not in en:
                raise Unknown("missing argument "+n)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, en)
        try:
            self.block(node.body, en)
        except _Return as r:
            return r.v
        return None

    # ---- statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            if len(vs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown("unpack")
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)[self.ev(t.slice, env)] = v
        else:
            raise Unknown("target")

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                o = self.lookup(s.target.id, env)
                if isinstance(o, list) and isinstance(s.op, ast.Add):
                    o += list(v)
                    env[s.target.id] = o
                elif isinstance(o, (dict, set)) and isinstance(s.op, ast.BitOr):
                    o |= v
                    env[s.target.id] = o
                else:
                    env[s.target.id] = OPS[type(s.op)](o, v)
            elif isinstance(s.target, ast.Subscript):
                b, k = self.ev(s.target.value, env), self.ev(s.target.slice, env)
                b[k] = OPS[type(s.op)](b[k], v)
            else:
                raise Unknown("target")
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.ev(s.test, env) else s.orelse, env)
        elif isinstance(s, ast.For):
            done = False
            for x in list(self.ev(s.iter, env)):
                self.bind(s.target, x, env)
                try:
                    self.block(s.body, env)
                except _Break:
                    done = True
                    break
                except _Continue:
                    pass
            if not done:
                self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            n = 0
            while self.ev(s.test, env):
                n += 1
                if n > 10000:
                    raise Unknown("loop")
                try:
                    self.block(s.body, env)
                except _Break:
                    break
                except _Continue:
                    pass
        elif isinstance(s, ast.Return):
            raise _Return(self.ev(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assert):
            if not self.ev(s.test, env):
                raise Unknown("assertion")
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ("localfunc", s, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    del self.ev(t.value, env)[self.ev(t.slice, env)]
                else:
                    raise Unknown("del")
        else:
            raise Unknown(type(s).__name__)
