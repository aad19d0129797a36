#!/usr/bin/env python3
"""Behaviour-preserving rewrites applied mechanically to the whole package (or one file / function): every check must stay quiet.
mutate.py KIND OUTDIR [-f FILE] [-m FUNC]   writes a rewritten copy of /repo to OUTDIR"""
import ast, argparse, copy, os, shutil, glob

class Fn(ast.NodeTransformer):
    only = None
    def visit_FunctionDef(self, n):
        if self.only and n.name not in self.only:
            # nested functions of other functions still visited
            self.generic_visit(n)
            return n
        return self.func(n)
    visit_AsyncFunctionDef = visit_FunctionDef
    def func(self, n):
        return n

def names_bound(fn):
    s = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            s.add(x.id)
    return s

class Rename(Fn):
    """local variables renamed"""
    def func(self, fn):
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(fn) if x is not fn):
            return fn
        a = {x.arg for x in fn.args.args+fn.args.kwonlyargs+fn.args.posonlyargs}
        if fn.args.vararg: a.add(fn.args.vararg.arg)
        if fn.args.kwarg: a.add(fn.args.kwarg.arg)
        loc = names_bound(fn)-a
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "v_"+x.id[::-1]
            elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "v_"+x.name[::-1]
        return fn

class Flip(Fn):
    """if c: A else: B  ->  if not c: B else: A"""
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, ast.If) and x.orelse:
                x.test = ast.UnaryOp(ast.Not(), x.test)
                x.body, x.orelse = x.orelse, x.body
        return fn

class Cmp(Fn):
    """a < b -> b > a; a == const -> const == a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in self.M:
                if any(isinstance(y, (ast.Call, ast.Await)) for y in ast.walk(x)) :
                    pass
                x.left, x.comparators, x.ops = x.comparators[0], [x.left], [self.M[type(x.ops[0])]()]
        return fn

class NotCmp(Fn):
    """a < b -> not a >= b"""
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    def func(self, fn):
        class V(ast.NodeTransformer):
            def visit_Compare(s, x):
                s.generic_visit(x)
                if len(x.ops) == 1 and type(x.ops[0]) in NotCmp.M:
                    return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [NotCmp.M[type(x.ops[0])]()], x.comparators))
                return x
        fn.body = [V().visit(b) for b in fn.body]
        return fn

def blocks(fn):
    for x in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(x, (ast.ClassDef, ast.Module)):
                yield x, f, b

class TestVar(Fn):
    """if cond: -> t = cond; if t:"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.If) and not (f == "orelse" and isinstance(x, ast.If) and len(b) == 1):
                    n += 1
                    v = f"cond{n}"
                    out.append(ast.Assign([ast.Name(v, ast.Store())], s.test))
                    s.test = ast.Name(v, ast.Load())
                out.append(s)
            b[:] = out
        return fn

class Early(Fn):
    """if c: ...return/raise/continue/break ; rest -> if c: ... else: rest"""
    def func(self, fn):
        def term(b):
            return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
        def do(b):
            for i, s in enumerate(b):
                for f in ("body", "orelse", "finalbody"):
                    y = getattr(s, f, None)
                    if isinstance(y, list) and y and isinstance(y[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        do(y)
                if isinstance(s, ast.Try):
                    for h in s.handlers: do(h.body)
                if isinstance(s, ast.If) and not s.orelse and term(s.body) and i+1 < len(b):
                    rest = b[i+1:]
                    do(rest)
                    s.orelse = rest
                    del b[i+1:]
                    return
        do(fn.body)
        return fn

class AndNest(Fn):
    """if a and b: X (no else) -> if a: if b: X"""
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
                first, rest = x.test.values[0], x.test.values[1:]
                inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), x.body, [])
                x.test, x.body = first, [inner]
        return fn

class DeMorgan(Fn):
    """a and b -> not (not a or not b), in if tests only"""
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, (ast.If, ast.While)) and isinstance(x.test, ast.BoolOp):
                o = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
                x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in x.test.values]))
        return fn

class WhileTrue(Fn):
    """while c: B -> while True: if not c: break; B"""
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, ast.While) and not x.orelse and not (isinstance(x.test, ast.Constant) and x.test.value is True):
                x.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Break()], []))
                x.test = ast.Constant(True)
        return fn

class ForWhile(Fn):
    """for k in range(a, b): B -> k = a-1 style while, only where B has no continue"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) \
                        and not any(isinstance(y, ast.Continue) for y in ast.walk(s)):
                    n += 1
                    lo = ast.Constant(0) if len(s.iter.args) == 1 else s.iter.args[0]
                    hi = s.iter.args[-1]
                    i, h = f"idx{n}", f"end{n}"
                    out.append(ast.Assign([ast.Name(i, ast.Store())], lo))
                    out.append(ast.Assign([ast.Name(h, ast.Store())], hi))
                    s = ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]),
                                  [ast.Assign([s.target], ast.Name(i, ast.Load()))]+s.body+[ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])
                out.append(s)
            b[:] = out
        return fn

class AugExp(Fn):
    """x += c -> x = x + c for local names, self counters with constant or len() operands"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub, ast.BitOr, ast.LShift, ast.RShift, ast.Mult)):
                    num = isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) or isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "len" \
                        or isinstance(s.op, (ast.BitOr, ast.LShift, ast.RShift))
                    if not num:
                        continue
                    l = copy.deepcopy(s.target)
                    for y in ast.walk(l):
                        if hasattr(y, "ctx"): y.ctx = ast.Load()
                    s.target.ctx = ast.Store()
                    b[i] = ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
        return fn

class RetVar(Fn):
    """return expr -> result = expr; return result"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                    out.append(ast.Assign([ast.Name("result_", ast.Store())], s.value))
                    s.value = ast.Name("result_", ast.Load())
                out.append(s)
            b[:] = out
        return fn

class ArgVars(Fn):
    """arguments of expression-statement calls and returned calls computed into locals first (pure arithmetic args only)"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
                if isinstance(v, ast.Await): v = v.value
                if isinstance(v, ast.Call) and not getattr(v.func, "id", "") == "super":
                    for i, a in enumerate(v.args):
                        if isinstance(a, (ast.BinOp,)) and not any(isinstance(y, (ast.Call, ast.Await)) for y in ast.walk(a)):
                            n += 1
                            out.append(ast.Assign([ast.Name(f"arg{n}", ast.Store())], a))
                            v.args[i] = ast.Name(f"arg{n}", ast.Load())
                out.append(s)
            b[:] = out
        return fn

class SelfVar(Fn):
    """bus = self.bus at the head of a method; self.bus.x -> bus.x"""
    def func(self, fn):
        if not fn.args.args or fn.args.args[0].arg != "self" or fn.name == "__init__":
            return fn
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr == "bus"]
        if any(isinstance(x.ctx, ast.Store) for x in uses) or not uses or fn.decorator_list:
            return fn
        class V(ast.NodeTransformer):
            def visit_Attribute(s, x):
                s.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr == "bus":
                    return ast.Name("bus_", ast.Load())
                return x
        fn.body = [V().visit(b) for b in fn.body]
        k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, ast.Assign([ast.Name("bus_", ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), "bus", ast.Load())))
        return fn

class Extract(Fn):
    """the body of each outermost `if` without control transfer, await or assignment to locals becomes a method"""
    def __init__(self):
        self.new = []
        self.n = 0
    def visit_ClassDef(self, c):
        self.new = []
        self.cname = c.name
        self.generic_visit(c)
        c.body.extend(self.new)
        return c
    def func(self, fn):
        if not fn.args.args or fn.args.args[0].arg != "self" or fn.decorator_list or fn.name.startswith("__"):
            return fn
        if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
            return fn
        args = [a.arg for a in fn.args.args+fn.args.kwonlyargs]+([fn.args.kwarg.arg] if fn.args.kwarg else [])
        locs = names_bound(fn) | set(args)
        for x in list(ast.walk(fn)):
            if isinstance(x, ast.If) and len(x.body) >= 2:
                bad = any(isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Await, ast.Yield, ast.Raise)) or isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) or
                          isinstance(y, ast.Call) and getattr(y.func, "id", "") == "super" or isinstance(y, (ast.ListComp, ast.GeneratorExp)) for s in x.body for y in ast.walk(s))
                if bad:
                    continue
                used = []
                for s in x.body:
                    for y in ast.walk(s):
                        if isinstance(y, ast.Name) and y.id in locs and y.id not in used and y.id != "self":
                            used.append(y.id)
                self.n += 1
                nm = f"_part{self.n}_{self.cname.lower()}"
                self.new.append(ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg("self")]+[ast.arg(u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                body=x.body, decorator_list=[], type_params=[]))
                x.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
        return fn

class Tern(Fn):
    """if c: x = a else: x = b -> x = a if c else b"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                        and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                    b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return fn

class Untern(Fn):
    """x = a if c else b -> if c: x = a else: x = b"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return fn

class PassAll(Fn):
    """a statement that does nothing at the head and the end of every block"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            b.insert(0, ast.Pass())
        fn.body.append(ast.Pass())
        return fn

class LogAll(Fn):
    """a debug message at the head of every method that has a logger"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            if isinstance(x, (ast.If, ast.While, ast.For)) and "self" in {a.arg for a in fn.args.args} and any(isinstance(y, ast.Attribute) and y.attr == "log" for y in ast.walk(fn)):
                b.insert(0, ast.parse("self.log.debug('step')").body[0])
        return fn

class Getter(Fn):
    """augmented condition: `x is not None` -> `not (x is None)`; `not x` -> `bool(x) is False` left alone"""
    def func(self, fn):
        class V(ast.NodeTransformer):
            def visit_UnaryOp(s, x):
                s.generic_visit(x)
                if isinstance(x.op, ast.Not) and not isinstance(x.operand, (ast.Compare, ast.BoolOp)):
                    return ast.UnaryOp(ast.Not(), ast.Call(ast.Name("bool", ast.Load()), [x.operand], []))
                return x
        fn.body = [V().visit(b) for b in fn.body]
        return fn

class LocalFns(Fn):
    """attribute chains of called methods taken into a local first: self.q.put_nowait(x) -> m = self.q; m.put_nowait(x)"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                v = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
                if isinstance(v, ast.Await): v = v.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Attribute) and isinstance(v.func.value.value, ast.Name) and v.func.value.value.id == "self" \
                        and v.func.value.attr != "log":
                    n += 1
                    out.append(ast.Assign([ast.Name(f"obj{n}", ast.Store())], v.func.value))
                    v.func.value = ast.Name(f"obj{n}", ast.Load())
                out.append(s)
            b[:] = out
        return fn

class Swap(Fn):
    """adjacent assignments with constant values to different plain targets are exchanged"""
    def func(self, fn):
        def simple(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, (ast.Constant,)) and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
                not any(isinstance(y, (ast.Call, ast.Subscript)) for y in ast.walk(s))
        for x, f, b in list(blocks(fn)):
            i = 0
            while i+1 < len(b):
                if simple(b[i]) and simple(b[i+1]) and ast.dump(b[i].targets[0]) != ast.dump(b[i+1].targets[0]) and fn.name != "__init__":
                    b[i], b[i+1] = b[i+1], b[i]
                    i += 2
                else:
                    i += 1
        return fn

class Kw(Fn):
    """shifts as powers: 1 << n -> 2**n ; x // 2**n etc. left; x * 2 -> 2 * x; a + b -> b + a for non-calls"""
    def func(self, fn):
        class V(ast.NodeTransformer):
            def visit_BinOp(s, x):
                s.generic_visit(x)
                if isinstance(x.op, ast.Mult) and not any(isinstance(y, (ast.List, ast.Tuple, ast.Await, ast.Call)) for y in ast.walk(x)) and not isinstance(x.left, ast.Constant):
                    x.left, x.right = x.right, x.left
                elif isinstance(x.op, (ast.BitAnd, ast.BitOr)) and not any(isinstance(y, (ast.Await, ast.Call)) for y in ast.walk(x)):
                    x.left, x.right = x.right, x.left
                elif isinstance(x.op, ast.LShift) and isinstance(x.left, ast.Constant) and x.left.value == 1:
                    return ast.BinOp(ast.Constant(2), ast.Pow(), x.right)
                return x
        fn.body = [V().visit(b) for b in fn.body]
        return fn

class Split(Fn):
    """with `if A or B: X` -> same X via flag; loops' heads get local copies of self attributes read in arithmetic"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and isinstance(s.value.left, ast.BinOp):
                    n += 1
                    out.append(ast.Assign([ast.Name(f"tmp{n}", ast.Store())], s.value.left))
                    s.value.left = ast.Name(f"tmp{n}", ast.Load())
                out.append(s)
            b[:] = out
        return fn


class Calc(Fn):
    """x = <arithmetic or boolean expression over locals and self> -> x = self._calcN(...)"""
    module = False
    def __init__(self):
        self.n = 0
        self.funcs = []
    def visit_Module(self, m):
        self.generic_visit(m)
        if self.funcs:
            k = max([i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1)+1
            m.body[k:k] = self.funcs
        return m
    def visit_ClassDef(self, c):
        self.new = []
        self.cname = c.name
        self.generic_visit(c)
        c.body.extend(self.new)
        return c
    def func(self, fn):
        if not fn.args.args or fn.args.args[0].arg != "self" or fn.decorator_list or fn.name == "__init__":
            return fn
        if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
            return fn
        locs = names_bound(fn) | {a.arg for a in fn.args.args+fn.args.kwonlyargs}
        for x, f, b in list(blocks(fn)):
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.BoolOp, ast.Compare, ast.IfExp)) and \
                        not any(isinstance(y, (ast.Await, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.NamedExpr)) or isinstance(y, ast.Name) and y.id == "super" for y in ast.walk(s.value)):
                    used = []
                    for y in ast.walk(s.value):
                        if isinstance(y, ast.Name) and y.id in locs and y.id not in used:
                            used.append(y.id)
                    if self.module and "self" in used:
                        continue
                    if not self.module and "self" not in used:
                        used.insert(0, "self")
                    used.sort(key=lambda u: u != "self")
                    self.n += 1
                    nm = f"_calc{self.n}_{self.cname.lower()}"
                    d = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                        body=[ast.Return(s.value)], decorator_list=[], type_params=[])
                    (self.funcs if self.module else self.new).append(d)
                    s.value = ast.Call(ast.Name(nm, ast.Load()) if self.module else ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()),
                                       [ast.Name(u, ast.Load()) for u in used if u != "self"], [])
        return fn

class CalcFn(Calc):
    """the same with module-level functions, for expressions over locals only"""
    module = True
    def visit_FunctionDef(self, n):
        return self.func(n)
    visit_AsyncFunctionDef = visit_FunctionDef

class Conds(Calc):
    """conditions of if and while become methods"""
    def func(self, fn):
        if not fn.args.args or fn.args.args[0].arg != "self" or fn.decorator_list or fn.name == "__init__":
            return fn
        if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
            return fn
        locs = names_bound(fn) | {a.arg for a in fn.args.args+fn.args.kwonlyargs}
        for s in ast.walk(fn):
            if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, (ast.BoolOp, ast.Compare, ast.UnaryOp)) and not any(isinstance(y, (ast.Await, ast.ListComp, ast.GeneratorExp, ast.NamedExpr)) for y in ast.walk(s.test)):
                used = ["self"]
                for y in ast.walk(s.test):
                    if isinstance(y, ast.Name) and y.id in locs and y.id not in used:
                        used.append(y.id)
                self.n += 1
                nm = f"_cond{self.n}_{self.cname.lower()}"
                self.new.append(ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                body=[ast.Return(s.test)], decorator_list=[], type_params=[]))
                s.test = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used[1:]], [])
        return fn

class Tuples(Fn):
    """a = x; b = y -> a, b = x, y for locals that do not depend on each other"""
    def func(self, fn):
        def nm(s):
            return s.targets[0].id if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not isinstance(s.value, (ast.Await, ast.Yield)) else None
        for x, f, b in list(blocks(fn)):
            i = 0
            while i+1 < len(b):
                p, q = nm(b[i]), nm(b[i+1])
                if p and q and p != q and p not in {y.id for y in ast.walk(b[i+1].value) if isinstance(y, ast.Name)} and not any(isinstance(y, ast.Await) for s in b[i:i+2] for y in ast.walk(s)):
                    b[i:i+2] = [ast.Assign([ast.Tuple([b[i].targets[0], b[i+1].targets[0]], ast.Store())], ast.Tuple([b[i].value, b[i+1].value], ast.Load()))]
                i += 1
        return fn

class Ann(Fn):
    """annotated assignments, walrus-free"""
    def func(self, fn):
        for x, f, b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    b[i] = ast.AnnAssign(target=s.targets[0], annotation=ast.Name("object", ast.Load()), value=s.value, simple=1)
        return fn

class Consts(Fn):
    """numbers 4096, 0xfff, 256, 16 as module constants"""
    M = {4096: "PAGE_", 0xfff: "PAGE_MASK_", 256: "MAX_BEATS_", 16: "MAX_FIXED_", 8: "BYTE_"}
    def visit_Module(self, m):
        used = set()
        class V(ast.NodeTransformer):
            def visit_Constant(s, x):
                if type(x.value) is int and x.value in Consts.M:
                    used.add(x.value)
                    return ast.Name(Consts.M[x.value], ast.Load())
                return x
            def visit_FunctionDef(s, n):
                n.body = [s.visit(b) for b in n.body]
                return n
            visit_AsyncFunctionDef = visit_FunctionDef
        for c in m.body:
            if isinstance(c, (ast.ClassDef, ast.FunctionDef)):
                V().visit(c)
        k = max([i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1)+1
        m.body[k:k] = [ast.Assign([ast.Name(Consts.M[v], ast.Store())], ast.Constant(v)) for v in sorted(used)]
        return m

class ElseRet(Fn):
    """if c: return a else: return b / if c: return a; return b -> single exit"""
    def func(self, fn):
        b = fn.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-2], ast.If) and not b[-2].orelse and len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.Return) \
                and b[-1].value is not None and b[-2].body[0].value is not None:
            b[-2:] = [ast.Return(ast.IfExp(b[-2].test, b[-2].body[0].value, b[-1].value))]
        return fn

class TryFin(Fn):
    """whole body of plain methods in try: ... finally: pass"""
    def func(self, fn):
        if fn.name.startswith("__") or fn.decorator_list:
            return fn
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        if fn.body[k:]:
            fn.body[k:] = [ast.Try(body=fn.body[k:], handlers=[], orelse=[], finalbody=[ast.Pass()])]
        return fn

class ListCopy(Fn):
    """for x in self.<list>: over a copy"""
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Attribute):
                x.iter = ast.Call(ast.Name("list", ast.Load()), [x.iter], [])
        return fn

class Enum(Fn):
    """for k in range(len(x)) -> for k, _ in enumerate(x); for k in range(n) -> for k in list(range(n))"""
    def func(self, fn):
        for x in ast.walk(fn):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and getattr(x.iter.func, "id", "") == "range" and len(x.iter.args) == 1:
                a = x.iter.args[0]
                if isinstance(a, ast.Call) and getattr(a.func, "id", "") == "len":
                    x.iter = ast.Call(ast.Name("enumerate", ast.Load()), [a.args[0]], [])
                    x.target = ast.Tuple([x.target, ast.Name("_unused", ast.Store())], ast.Store())
                else:
                    x.iter.args.insert(0, ast.Constant(0))
        return fn

class QGet(Fn):
    """x = await self.q.get() -> item = await q.get(); x = item ; nested awaits split"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Await):
                    n += 1
                    out.append(ast.Assign([ast.Name(f"got{n}", ast.Store())], s.value))
                    s.value = ast.Name(f"got{n}", ast.Load())
                out.append(s)
            b[:] = out
        return fn

class AwaitVar(Fn):
    """await f(x) -> c = f(x); await c"""
    def func(self, fn):
        n = 0
        for x, f, b in list(blocks(fn)):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Await) and isinstance(s.value.value, ast.Call):
                    n += 1
                    out.append(ast.Assign([ast.Name(f"aw{n}", ast.Store())], s.value.value))
                    s.value.value = ast.Name(f"aw{n}", ast.Load())
                out.append(s)
            b[:] = out
        return fn

KINDS = {}
def _all(c):
    for k in c.__subclasses__():
        KINDS[k.__name__.lower()] = k
        _all(k)
_all(Fn)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("kind"); ap.add_argument("out"); ap.add_argument("-f"); ap.add_argument("-m")
    a = ap.parse_args()
    d = os.path.join(a.out, "cocotbext/axi")
    shutil.copytree("/repo/cocotbext", os.path.join(a.out, "cocotbext"), dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
    for f in sorted(glob.glob(d+"/*.py")):
        if a.f and os.path.basename(f) != a.f or os.path.basename(f) == "version.py":
            continue
        t = ast.parse(open(f).read())
        for k in a.kind.split("+"):
            v = KINDS[k]()
            v.only = set(a.m.split(",")) if a.m else None
            t = v.visit(t)
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        compile(s, f, "exec")
        open(f, "w").write(s+"\n")

if __name__ == "__main__":
    main()
