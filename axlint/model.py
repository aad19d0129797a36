"""Front end: parses the package, resolves names, classes, method resolution order and the stream classes
that define_stream() manufactures."""

import ast
import os

PKG = "cocotbext/axi"


class AnalysisError(Exception):
    """the analysis cannot find what it is anchored in (an error exit, never a verdict)"""


class Func:
    __slots__ = ("name", "node", "module", "cls", "kind", "deco")

    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.deco = []
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Name):
                self.deco.append(d.id)
            elif isinstance(d, ast.Attribute):
                self.deco.append(d.attr)
            else:
                self.deco.append("?")

    @property
    def is_async(self):
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def qual(self):
        return (self.cls.name+"." if self.cls else "")+self.name

    def __repr__(self):
        return f"<{self.module.name}:{self.qual}>"


class Class:
    def __init__(self, name, module, node=None, bases=()):
        self.name = name
        self.module = module
        self.node = node
        self.base_exprs = list(bases)
        self.bases = []
        self.ext_bases = []
        self.methods = {}
        self.props = {}      # name -> {"get": Func, "set": Func}
        self.attrs = {}      # class-level assignments: name -> ast expr (evaluated in module scope)
        self.values = {}     # class-level values given directly (define_stream)
        self.fields = []     # NamedTuple fields (name, default expr)
        self.kind = "plain"
        self._mro = None

    def __repr__(self):
        return f"<class {self.name}>"

    def mro(self):
        if self._mro is None:
            self._mro = [self]+_merge([list(b.mro()) for b in self.bases]+[list(self.bases)])
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        m = self.mro()
        i = m.index(cls)+1 if cls in m else 0
        for c in m[i:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.attrs or name in c.values:
                return None
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.values:
                return c, ("value", c.values[name])
            if name in c.attrs:
                return c, ("expr", c.attrs[name])
        return None

    def is_sub(self, name):
        return any(c.name == name for c in self.mro()) or name in self.all_ext()

    def all_ext(self):
        out = set()
        for c in self.mro():
            out.update(c.ext_bases)
        return out

    def own_methods(self):
        for n, f in self.methods.items():
            yield f
        for p in self.props.values():
            for f in p.values():
                yield f


def _merge(seqs):
    out = []
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AnalysisError("inconsistent class hierarchy")
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.names = {}   # name -> ("class", Class) | ("func", Func) | ("import", module, name) | ("ext", dotted) | ("expr", ast)

    @property
    def rel(self):
        return PKG+"/"+os.path.basename(self.path)


class Package:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.streams = {}
        d = os.path.join(root, PKG)
        files = []
        for dp, dns, fns in os.walk(d):
            dns[:] = sorted(x for x in dns if x != "__pycache__")
            for f in sorted(fns):
                if f.endswith(".py"):
                    files.append(os.path.join(dp, f))
        if not files:
            raise AnalysisError("no package sources found")
        for p in files:
            src = open(p).read()
            try:
                tree = ast.parse(src, p)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {p}: {e}")
            name = os.path.relpath(p, d)[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            self.modules[name] = Module(name, p, tree, src)
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for m in self.modules.values():
            for n, v in list(m.names.items()):
                if v[0] == "class":
                    self._bases(v[1])
        for m in self.modules.values():
            self._define_streams(m)
        self._assigned()

    # ---- scanning
    def _scan(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if s.level:
                        m.names[a.asname or a.name] = ("import", (s.module or "__init__"), a.name)
                    elif (s.module or "").startswith("cocotbext.axi"):
                        m.names[a.asname or a.name] = ("import", s.module[len("cocotbext.axi"):].lstrip(".") or "__init__", a.name)
                    else:
                        m.names[a.asname or a.name] = ("ext", f"{s.module}.{a.name}")
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.names[s.name] = ("func", Func(s.name, s, m))
            elif isinstance(s, ast.ClassDef):
                m.names[s.name] = ("class", self._class(m, s))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("expr", s.value)
                    elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                        for i, e in enumerate(t.elts):
                            m.names[e.id] = ("tupexpr", s.value, i)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.names[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.Try):
                self._scan(m, s.body)
                for h in s.handlers:
                    self._scan(m, [x for x in h.body if not isinstance(x, ast.Pass)])
            elif isinstance(s, ast.If):
                self._scan(m, s.body)
                self._scan(m, s.orelse)

    def _class(self, m, node):
        c = Class(node.name, m, node, node.bases)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s.name, s, m, c)
                if "property" in f.deco or "cached_property" in f.deco:
                    c.props.setdefault(s.name, {})["get"] = f
                elif "setter" in f.deco:
                    c.props.setdefault(s.name, {})["set"] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        # alias of a method defined above
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[t.id] = c.methods[s.value.id]
                        # property(fget, fset)
                        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "property":
                            p = {}
                            for k, a in zip(("get", "set"), s.value.args):
                                if isinstance(a, ast.Name) and a.id in c.methods:
                                    p[k] = c.methods[a.id]
                            c.props[t.id] = p
                            c.attrs.pop(t.id)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.fields.append((s.target.id, s.value))
                if s.value is not None:
                    c.attrs[s.target.id] = s.value
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            if (isinstance(n, ast.Name) and n.id == "dataclass") or (isinstance(n, ast.Attribute) and n.attr == "dataclass"):
                c.kind = "dataclass"
        self.classes.setdefault(node.name, c)
        return c

    def _bases(self, c):
        for b in c.base_exprs:
            r = self.resolve_expr(c.module, b)
            if r and r[0] == "class":
                c.bases.append(r[1])
            else:
                name = ast.unparse(b).split(".")[-1]
                c.ext_bases.append(name)
                if name == "NamedTuple":
                    c.kind = "namedtuple"
                elif name in ("IntEnum", "Enum", "IntFlag", "Flag"):
                    c.kind = "enum"
        for b in c.bases:
            if b.kind != "plain" and c.kind == "plain":
                c.kind = b.kind

    def resolve(self, module, name, depth=0):
        """-> ("class", C) | ("func", F) | ("expr", module, ast) | ("ext", dotted) | ("tupexpr", module, ast, i) | None"""
        if depth > 10:
            return None
        v = module.names.get(name)
        if v is None:
            return None
        if v[0] == "import":
            mod = self.modules.get(v[1].lstrip("."))
            if v[1] == "__init__" and v[2] in self.modules:
                return ("module", self.modules[v[2]])
            if mod is None:
                return ("ext", f"{v[1]}.{v[2]}")
            r = self.resolve(mod, v[2], depth+1)
            if r is None and v[2] in self.modules:
                return ("module", self.modules[v[2]])
            return r
        if v[0] == "expr":
            return ("expr", module, v[1])
        if v[0] == "tupexpr":
            return ("tupexpr", module, v[1], v[2])
        return v

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            if r and r[0] == "module":
                return self.resolve(r[1], e.attr)
            if r and r[0] == "ext":
                return ("ext", r[1]+"."+e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(module, e.value)
        return None

    # ---- define_stream
    def _factory_classes(self, m):
        """classes made by a class factory, found by constant propagation through the factory; {} when nothing is found"""
        from .constprop import Const, ClassVal, Ref, Unknown
        c = Const(self, m)
        vals = {}
        for n, v in m.names.items():
            if v[0] not in ("expr", "tupexpr"):
                continue
            try:
                x = c.lookup(n, {})
            except (Unknown, RecursionError):
                continue
            if isinstance(x, ClassVal) and all(isinstance(b, Ref) and b.kind == "class" for b in x.bases):
                vals[n] = x
        made = {}
        def mk(x, n):
            if id(x) in made:
                return made[id(x)]
            k = Class(n, m)
            k.bases.extend(b.obj for b in x.bases)
            k.kind = "plain"
            k.values = {}
            k.factory = x
            made[id(x)] = k
            for a, v in x.attrs.items():
                k.values[a] = mk(v, v.name) if isinstance(v, ClassVal) else v
            return k
        for n, x in vals.items():
            k = mk(x, n)
            k.name = n
            m.names[n] = ("class", k)
            self.classes[n] = k
        for n, x in vals.items():
            a = x.attrs
            b, t = a.get("_bus_obj"), a.get("_transaction_obj")
            if not isinstance(b, ClassVal) or not isinstance(t, ClassVal) or id(b) not in made:
                continue
            bn = made[id(b)].name
            if bn in self.streams:
                made[id(x)].stream = self.streams[bn]
                self.streams[bn]["names"].append(n)
                continue
            sig, opt = list(b.attrs.get("_signals") or []), list(b.attrs.get("_optional_signals") or [])
            valid, ready = a.get("_valid_signal"), a.get("_ready_signal")
            line = next((s.lineno for s in m.tree.body if isinstance(s, ast.Assign) and any(isinstance(y, ast.Name) and y.id == n for z in s.targets for y in ast.walk(z))), 1)
            info = dict(signals=sig, optional=opt, valid=valid, ready=ready, widths=dict(a.get("_signal_widths") or {}),
                        payload=[y for y in sig+opt if y not in (valid, ready)], names=[bn, made[id(t)].name, n], line=line, module=m, stream=bn[:-3])
            self.streams[bn] = info
            for k in (made[id(b)], made[id(t)], made[id(x)]):
                k.stream = info
        return vals

    def _define_streams(self, m):
        if self._factory_classes(m):
            return
        for s in m.tree.body:
            if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call)):
                continue
            r = self.resolve_expr(m, s.value.func)
            if not r or r[0] != "func" or r[1].name != "define_stream":
                continue
            t = s.targets[0]
            if not (isinstance(t, ast.Tuple) and len(t.elts) == 5 and all(isinstance(e, ast.Name) for e in t.elts)):
                continue
            names = [e.id for e in t.elts]
            pn = ("name", "signals", "optional_signals", "valid_signal", "ready_signal", "signal_widths")
            kw = {}
            for i, a in enumerate(s.value.args):
                kw[pn[i]] = a
            for k in s.value.keywords:
                kw[k.arg] = k.value
            vals = {k: self._literal(m, v) for k, v in kw.items()}
            sig = list(vals.get("signals") or [])
            opt = list(vals.get("optional_signals") or [])
            allsig = sig+opt
            valid = vals.get("valid_signal")
            ready = vals.get("ready_signal")
            if valid is None:
                for x in allsig:
                    if x.lower().endswith("valid"):
                        valid = x
            if ready is None:
                for x in allsig:
                    if x.lower().endswith("ready"):
                        ready = x
            widths = dict(vals.get("signal_widths") or {})
            widths.setdefault(valid, 1)
            widths.setdefault(ready, 1)
            payload = [x for x in allsig if x not in (valid, ready)]
            base = r[1].module
            def mk(n, b, attrs):
                c = Class(n, m)
                rb = self.resolve(base, b)
                if rb and rb[0] == "class":
                    c.bases.append(rb[1])
                c.values = attrs
                c.kind = "plain"
                m.names[n] = ("class", c)
                self.classes[n] = c
                return c
            bus = mk(names[0], "StreamBus", {"_signals": sig, "_optional_signals": opt})
            tr = mk(names[1], "StreamTransaction", dict({x: 0 for x in payload}, _signals=payload))
            common = {"_signals": sig, "_optional_signals": opt, "_signal_widths": widths, "_ready_signal": ready,
                      "_valid_signal": valid, "_transaction_obj": tr, "_bus_obj": bus}
            cl = [mk(names[2], "StreamSource", dict(common)), mk(names[3], "StreamSink", dict(common)),
                  mk(names[4], "StreamMonitor", dict(common))]
            info = dict(signals=sig, optional=opt, valid=valid, ready=ready, widths=widths, payload=payload, names=names,
                        line=s.lineno, module=m, stream=vals.get("name"))
            for c in [bus, tr]+cl:
                c.stream = info
            self.streams[names[0]] = info

    def _literal(self, m, e):
        try:
            return ast.literal_eval(e)
        except Exception:
            pass
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            if r and r[0] == "expr":
                return self._literal(r[1], r[2])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self._literal(m, e.left), self._literal(m, e.right)
            if isinstance(a, list) and isinstance(b, list):
                return a+b
        if isinstance(e, ast.List):
            return [self._literal(m, x) for x in e.elts]
        if isinstance(e, ast.Dict):
            return {self._literal(m, k): self._literal(m, v) for k, v in zip(e.keys, e.values)}
        return None

    # ---- where attributes are stored
    def _assigned(self):
        """attribute name -> set of function names that store it (excluding 'self.x' in __init__)"""
        self.stores = {}
        self.funcs = []
        for m in self.modules.values():
            for c in [v[1] for v in m.names.values() if v[0] == "class"]:
                if c.module is not m or c.node is None:
                    continue
                for f in c.own_methods():
                    self._stores_in(f)
            for v in m.names.values():
                if v[0] == "func" and v[1].module is m:
                    self._stores_in(v[1])

    def _stores_in(self, f):
        self.funcs.append(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                owner = isinstance(n.value, ast.Name) and n.value.id == "self"
                if f.name == "__init__" and owner:
                    continue
                self.stores.setdefault(n.attr, set()).add(f.qual)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                if len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                    self.stores.setdefault(n.args[1].value, set()).add(f.qual)

    def mutable(self, attr):
        return attr in self.stores

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisError(f"class {name} not found")
        return self.classes[name]
