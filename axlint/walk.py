"""Path walker: a syntax-directed abstract interpreter over the package sources.

It enumerates the control-flow paths of a function between cut points (loop heads), numbering values
with the terms of terms.py.  Methods of the same object, nested functions, module helpers and awaited
coroutine methods are inlined; loops are entered with every variable the body assigns replaced by a fresh
'mu' symbol (initial and next values are recorded), so one generic iteration stands for all of them.
Nothing of the analysed package is executed or imported and no solver is involved: branches are decided only
by literals already on the path.
"""

import ast

from . import terms as tm
from .terms import T, const, NONE, TRUE, FALSE, Term, ZERO, ONE
from .model import AnalysisError, Func

MAX_STATES = 60000
MAX_DEPTH = 14

PURE_BUILTINS = {"len", "int", "bool", "abs", "range", "bytes", "isinstance", "hasattr", "getattr", "list", "tuple", "sorted",
                 "set", "frozenset", "sum", "all", "any", "enumerate", "zip", "reversed", "str", "repr", "type", "callable", "divmod",
                 "chr", "ord", "format", "dict", "id", "min", "max", "bytearray", "iter", "memoryview", "float", "slice", "round", "pow",
                 "hash", "vars", "map", "filter", "object", "bin", "hex"}
MUTABLE_CTORS = {"Queue", "Event", "Counter", "deque", "defaultdict", "OrderedDict", "Lock", "list", "dict", "set", "bytearray",
                 "PriorityQueue", "LifoQueue"}
TRIGGERS = {"RisingEdge", "FallingEdge", "Edge", "Timer", "First", "Combine", "ReadOnly", "ReadWrite", "NextTimeStep", "ClockCycles", "with_timeout"}
PURE_METHODS = {"to_bytes", "from_bytes", "bit_length", "isEnabledFor", "lower", "upper", "endswith", "startswith", "join", "indices",
                "keys", "items", "values", "is_set", "strip", "split", "wait", "hex", "format", "index", "most_common", "ljust", "rjust",
                "integer", "bit_count", "removeprefix", "removesuffix", "total", "get_sim_time", "done"}

def is_self_field(t):
    """a field of the object itself, however often it was assigned"""
    return t.op in ("attr", "mattr") and t.args[0].op == "self" or t.op == "mu" and str(t.args[1]).startswith("self.")


QUEUE_READS = {"empty", "qsize", "full", "count", "copy", "get_count"}
QUEUE_CLASSES = {"Queue", "PriorityQueue", "LifoQueue", "deque"}
PURE_EXT = {"cocotb.utils.get_sim_time", "logging.getLogger", "inspect.isawaitable", "inspect.iscoroutine", "asyncio.iscoroutine",
            "inspect.iscoroutinefunction", "inspect.isasyncgen", "itertools.chain"}


FACTS = {"hasattr", "isnone", "and", "or"}     # literals remembered with each event (paths are merged later)


class Event:
    __slots__ = ("kind", "node", "func", "recv", "name", "args", "kwargs", "result", "awaited", "loops", "nlits", "stack", "value", "idx",
                 "epoch", "guarded", "step", "facts", "trys")

    def __init__(self, kind, node, func):
        self.kind = kind
        self.node = node
        self.func = func
        self.recv = self.name = self.result = self.value = None
        self.args = ()
        self.kwargs = ()
        self.awaited = False
        self.guarded = False

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return f"{self.func.module.rel}:{self.line}"

    def arg(self, i, name=None):
        for k, v in self.kwargs:
            if k == name:
                return v
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def __repr__(self):
        s = f"{self.line}:{self.kind}"
        if self.kind == "call":
            s += f" {self.recv}.{self.name}{self.args}{dict(self.kwargs) or ''}" + (" AWAITED" if self.awaited else "")
        elif self.kind in ("set", "setitem"):
            s += f" {self.recv} [{self.name}] = {self.value}"
        else:
            s += f" {self.recv if self.recv is not None else ''} {self.value if self.value is not None else ''}"
        return s


class Lits:
    """literals that hold on a path, with unit propagation over and/not and simple bounds"""
    __slots__ = ("d", "comp", "order", "bounds", "neq")

    def __init__(self):
        self.d = {}
        self.comp = ()
        self.order = ()
        self.bounds = {}
        self.neq = {}

    def copy(self):
        n = Lits()
        n.d = dict(self.d)
        n.comp = self.comp
        n.order = self.order
        n.bounds = dict(self.bounds)
        n.neq = dict(self.neq)
        return n

    @staticmethod
    def _shape(lin):
        """-> (shape, const, scale): lin = scale*shape + const with leading coefficient of shape 1"""
        c, d = tm.lin_of(lin)
        items = tuple(sorted(d.items(), key=lambda x: x[0].id))
        lead = items[0][1]
        if lead in (1, -1):
            return tuple((a, k*lead) for a, k in items), c, lead
        return items, c, 1

    def truth(self, t):
        t = tm.truthy(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t in self.d:
            return self.d[t]
        op = t.op
        if op == "not":
            v = self.truth(t.args[0])
            return None if v is None else not v
        if op == "and":
            vs = [self.truth(x) for x in t.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
            # contained in / contains a known compound
            for c, val in self.comp:
                if c.op == "and" and not val and set(c.args) <= set(t.args):
                    return False
            return None
        if op == "isnone":
            if self.d.get(tm.truthy(t.args[0])) is True:
                return False
            x = t.args[0]
            if self.d.get(T("hasattr", *x.args)) is True if x.op == "attr" and len(x.args) == 2 else False:
                return None
            return None
        if op == "truthy":
            x = t.args[0]
            if self.d.get(T("isnone", x)) is True:
                return False
            b = self.bounds.get(((x, 1),))
            if b is not None:
                lo, hi = b
                if lo is not None and hi is not None and lo == hi == 0:
                    return False
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return True
            return None
        if op == "lt0":
            sh, c, s = self._shape(t.args[0])
            lo, hi = self.bounds.get(sh, (None, None))
            if len(sh) == 1 and self.d.get(T("truthy", sh[0][0])) is False:
                lo = hi = 0
            # s*v + c < 0
            if s == 1:
                if hi is not None and hi+c < 0:
                    return True
                if lo is not None and lo+c >= 0:
                    return False
            else:
                if lo is not None and -lo+c < 0:
                    return True
                if hi is not None and -hi+c >= 0:
                    return False
            return None
        if op == "eq":
            a, b = t.args
            if b is ZERO:
                sh, c, s = self._shape(a)
                v = -c*s
                lo, hi = self.bounds.get(sh, (None, None))
                if len(sh) == 1 and self.d.get(T("truthy", sh[0][0])) is False:
                    lo = hi = 0
                if lo is not None and lo == hi:
                    return lo == v
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    return False
                if v in self.neq.get(sh, ()):
                    return False
            else:
                for x, y in ((a, b), (b, a)):
                    if y.op == "const":
                        for k, val in self.d.items():
                            if val and k.op == "eq" and k is not t:
                                p, q = k.args
                                for u, w in ((p, q), (q, p)):
                                    if u is x and w.op == "const" and w is not y:
                                        return False
            return None
        if op == "ite":
            c = self.truth(t.args[0])
            if c is True:
                return self.truth(t.args[1])
            if c is False:
                return self.truth(t.args[2])
            a, b = self.truth(t.args[1]), self.truth(t.args[2])
            if a is not None and a == b:
                return a
        return None

    def assume(self, t, val, node=None):
        """False when contradictory"""
        t = tm.truthy(t)
        while t.op == "not":
            t, val = t.args[0], not val
        k = self.truth(t)
        if k is not None:
            return k == val
        self.order = self.order+((t, val, node),)
        return self._add(t, val)

    def _add(self, t, val):
        while t.op == "not":
            t, val = t.args[0], not val
        k = self.truth(t)
        if k is not None:
            return k == val
        if t.op == "and":
            if val:
                for x in t.args:
                    if not self._add(x, True):
                        return False
                return self._prop()
            un = [x for x in t.args if self.truth(x) is None]
            if len(un) == 1:
                return self._add(un[0], False)
            self.d[t] = False
            self.comp = self.comp+((t, False),)
            return self._prop()
        self.d[t] = val
        if t.op == "lt0":
            sh, c, s = self._shape(t.args[0])
            lo, hi = self.bounds.get(sh, (None, None))
            # s*v + c < 0 (val) or >= 0
            if (s == 1) == val:
                b = -c-1 if s == 1 else -c  # s==1,val: v < -c ; s==-1,not val: -v+c>=0 -> v <= c
                if s == -1:
                    b = c
                hi = b if hi is None else min(hi, b)
            else:
                b = -c if s == 1 else c+1   # s==1,not val: v >= -c ; s==-1,val: v > c
                lo = b if lo is None else max(lo, b)
            if lo is not None and hi is not None and lo > hi:
                return False
            ne = self.neq.get(sh, ())
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.bounds[sh] = (lo, hi)
        elif t.op == "eq" and t.args[1] is ZERO:
            sh, c, s = self._shape(t.args[0])
            v = -c*s
            if val:
                self.bounds[sh] = (v, v)
            else:
                self._ne(sh, v)
        elif t.op == "truthy":
            sh = ((t.args[0], 1),)
            if val:
                self._ne(sh, 0)
        return self._prop()

    def _ne(self, sh, v):
        self.neq[sh] = self.neq.get(sh, ())+(v,)
        lo, hi = self.bounds.get(sh, (None, None))
        if lo is not None and lo == v:
            lo += 1
        if hi is not None and hi == v:
            hi -= 1
        if (lo, hi) != (None, None):
            self.bounds[sh] = (lo, hi)

    def _prop(self):
        for c, val in self.comp:
            un = []
            falsified = False
            for x in c.args:
                v = self.truth(x)
                if v is None:
                    un.append(x)
                elif v is False:
                    falsified = True
            if falsified:
                continue
            if not un:
                return False
            if len(un) == 1:
                if not self._add(un[0], False):
                    return False
        for sh, (lo, hi) in self.bounds.items():
            if lo is not None and hi is not None and lo > hi:
                return False
        return True

    def holds(self, t, val=True):
        return self.truth(t) == val


class St:
    __slots__ = ("frames", "heap", "lits", "ev", "nev", "ver", "epoch", "loops", "stop", "n", "linit", "fresh", "trys", "stack", "vbase", "step")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.lits = Lits()
        self.ev = None
        self.nev = 0
        self.ver = {}
        self.epoch = 0
        self.loops = ()
        self.stop = None
        self.n = 0
        self.linit = {}
        self.fresh = frozenset()
        self.trys = ()
        self.stack = ()
        self.vbase = 0
        self.step = 0

    def version(self, k):
        return self.ver.get(k, self.vbase)

    def fork(self):
        s = St.__new__(St)
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.lits = self.lits.copy()
        s.ev = self.ev
        s.nev = self.nev
        s.ver = dict(self.ver)
        s.epoch = self.epoch
        s.loops = self.loops
        s.stop = self.stop
        s.n = self.n
        s.linit = self.linit
        s.fresh = self.fresh
        s.trys = self.trys
        s.stack = self.stack
        s.vbase = self.vbase
        s.step = self.step
        return s

    def uid(self):
        self.n += 1
        return self.n


class Path:
    def __init__(self, st, walker):
        self.end = st.stop
        self.lits = st.lits
        self.order = st.lits.order
        self.linit = st.linit
        self.heap = st.heap
        ev = []
        e = st.ev
        while e is not None:
            e, x = e
            ev.append(x)
        ev.reverse()
        self.events = ev
        self.epoch = st.epoch
        self.step = st.step
        self.env = st.frames[0] if st.frames else {}
        self.state = st

    @property
    def kind(self):
        return self.end[0] if self.end else "fall"

    @property
    def value(self):
        return self.end[1] if self.end and len(self.end) > 1 else None

    def holds(self, t, val=True):
        return self.lits.truth(t) == val

    def calls(self, name=None, recv=None):
        for e in self.events:
            if e.kind == "call" and (name is None or e.name == name or (isinstance(name, (set, tuple, frozenset)) and e.name in name)):
                if recv is None or e.recv is recv:
                    yield e

    def sets(self, name=None, recv=None):
        for e in self.events:
            if e.kind == "set" and (name is None or e.name == name) and (recv is None or e.recv is recv):
                yield e

    def dump(self):
        print("PATH end=", self.end and self.end[0], self.end[1] if self.end and self.end[0] in ("return", "raise") else "")
        for t, v, _ in self.order:
            print("   lit", "" if v else "NOT", t)
        for e in self.events:
            print("   ", e, "L" if e.loops else "")
        if self.end and self.end[0] == "backedge":
            for k, v in self.end[2].items():
                print("    next", k, "=", v, " init", self.linit.get(self.end[1], {}).get(k))


class Fn:
    """closure / bound method description carried inside a term via id table"""
    table = []

    def __init__(self, func, frame=None, selfobj=None, cls=None):
        self.func = func
        self.frame = frame
        self.selfobj = selfobj
        self.cls = cls


class Walker:
    def __init__(self, pkg, inline=None, noinline=(), expand=True, max_states=MAX_STATES):
        self.pkg = pkg
        self.fn_table = {}
        self.inline_hook = inline
        self.noinline = set(noinline)
        self.init_cache = pkg.__dict__.setdefault("_init_cache", {})
        self.expand = expand
        self.states = 0
        self.max_states = max_states
        self.inlined = set()
        self.assigned_cache = {}
        self.side = []

    # ------------------------------------------------------------------ entry
    def selfterm(self, cls):
        return T("self", cls.name)

    def run(self, func, cls=None, args=None, st=None, selfobj=None):
        """walk a function from its entry; parameters are symbolic unless given in args"""
        st = st or St()
        cls = cls or func.cls
        env = {}
        a = func.node.args
        params = [x.arg for x in a.posonlyargs+a.args]
        args = args or {}
        static = "staticmethod" in func.deco
        clsm = "classmethod" in func.deco
        for i, p in enumerate(params):
            if i == 0 and func.cls is not None and not static:
                env[p] = T("cls", cls.name) if clsm else (selfobj or self.selfterm(cls))
            else:
                env[p] = args.get(p, T("param", func.qual, p))
        for x in a.kwonlyargs:
            env[x.arg] = args.get(x.arg, T("param", func.qual, x.arg))
        if a.vararg:
            env[a.vararg.arg] = T("varargs", (), T("param", func.qual, "*"+a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = T("varkw", (), T("param", func.qual, "**"+a.kwarg.arg))
        st.frames.append(env)
        ctx = Ctx(func, cls, 0, env.get(params[0]) if params and func.cls is not None and not static else None)
        st.stack = (func,)
        outs = self.block(func.node.body, st, ctx)
        paths = []
        for s in outs:
            if s.stop is None:
                s.stop = ("return", NONE)
            paths.append(Path(s, self))
        for s in self.side:
            paths.append(Path(s, self))
        self.side = []
        return paths

    # ------------------------------------------------------------------ class summaries
    def init_summary(self, cls):
        """attr -> defining term (over the constructor parameters) for attributes with one defining term"""
        if cls.name in self.init_cache:
            return self.init_cache[cls.name]
        self.init_cache[cls.name] = {}
        f = cls.find("__init__")
        res = {}
        if f is not None:
            w = Walker(self.pkg, inline=self.inline_hook, expand=True)
            w.in_init = cls.name
            try:
                paths = w.run(f, cls)
            except AnalysisError:
                paths = []
            so = self.selfterm(cls)
            vals = {}
            normal = [p for p in paths if p.kind in ("return", "fall")]
            for p in normal:
                for (o, a), v in p.heap.items():
                    if o is so:
                        vals.setdefault(a, set()).add(v)
                for a in list(vals):
                    if (so, a) not in p.heap:
                        vals[a].add(None)
            for a, vs in vals.items():
                vs = {v for v in vs}
                if len(vs) == 1 and None not in vs:
                    v = next(iter(vs))
                    if v.op == "const" and not a.startswith("_"):
                        # a public attribute with a literal default is the user's to change
                        continue
                    res[a] = v
            # attributes conditionally set (None by default): keep every alternative for typing
            self.pkg.__dict__.setdefault("_init_alts", {})[cls.name] = vals
        self.init_cache[cls.name] = res
        return res

    def init_alts(self, cls):
        self.init_summary(cls)
        return self.pkg.__dict__.get("_init_alts", {}).get(cls.name, {})

    def define(self, t):
        """defining term of an attribute term, when it is an immutable attribute of a known object"""
        if t.op in ("attr", "mattr"):
            c = self.typeof(t.args[0])
            if c is None:
                return None
            d = self.init_summary(c).get(t.args[1])
            if d is None:
                return None
            return self._inst(d, t.args[0], c)
        return None

    def _inst(self, d, base, c):
        """instantiate a summary term for a particular object"""
        so = self.selfterm(c)
        m = {}
        if base is not so:
            m[so] = base
        new = base if base.op == "new" else self.define(base)
        if new is not None and new.op == "new" and len(new.args) > 2:
            for k, v in new.args[2]:
                init = c.find("__init__")
                if init is not None:
                    m[T("param", init.qual, k)] = v
        return tm.subst(d, m) if m else d

    def typeof(self, t):
        if t.op == "self":
            return self.pkg.classes.get(t.args[0])
        if t.op == "new":
            return self.pkg.classes.get(t.args[0])
        if t.op in ("attr", "mattr"):
            c = self.typeof(t.args[0])
            if c is not None:
                d = self.init_summary(c).get(t.args[1])
                if d is not None and d is not t:
                    return self.typeof(d)
                alts = [v for v in self.init_alts(c).get(t.args[1], ()) if v is not None and v is not NONE]
                ts = {self.typeof(v) for v in alts}
                if len(ts) == 1:
                    return ts.pop()
        if t.op == "param" and t.args[1] == "self":
            return None
        return None

    def extclass(self, t):
        """external class name of a container-like value ('Queue', 'Event', 'list', ...)"""
        if t.op == "new":
            return t.args[0]
        if t.op in ("attr", "mattr"):
            c = self.typeof(t.args[0])
            if c is not None:
                d = self.init_summary(c).get(t.args[1])
                if d is not None and d.op == "new":
                    return d.args[0]
                alts = [v for v in self.init_alts(c).get(t.args[1], ()) if v is not None and v is not NONE]
                if alts and all(v.op == "new" for v in alts):
                    return alts[0].args[0]
        if t.op in ("list",):
            return "list"
        if t.op == "call" and t.args[0] in ("list", "bytearray", "dict", "set"):
            return t.args[0]
        return None

    # ------------------------------------------------------------------ events and heap
    def event(self, st, kind, node, ctx, **kw):
        e = Event(kind, node, ctx.func)
        for k, v in kw.items():
            setattr(e, k, v)
        e.loops = st.loops
        e.nlits = len(st.lits.order)
        e.stack = st.stack
        e.idx = st.nev
        e.epoch = st.epoch
        e.step = st.step
        e.trys = st.trys
        e.facts = tuple((t, v) for t, v, _ in st.lits.order if t.op in FACTS)
        st.ev = (st.ev, e)
        st.nev += 1
        return e

    def bump(self, st):
        st.epoch = st.uid()

    def invalidate(self, st):
        """another coroutine may have run"""
        self.bump(st)
        st.step = st.uid()
        for k in list(st.heap):
            o, a = k
            if o in st.fresh:
                continue
            if self.pkg.mutable(a) or o.op not in ("self", "new", "attr"):
                del st.heap[k]

    def read_attr(self, st, ctx, base, name, node):
        """-> list of (state, term)"""
        k = (base, name)
        if k in st.heap:
            return [(st, st.heap[k])]
        if base.op == "nt":
            for f, v in base.args[1]:
                if f == name:
                    return [(st, v)]
        if base.op == "cls":
            c = self.pkg.classes.get(base.args[0])
            if c is not None:
                if c.kind == "enum":
                    v = self._enum(c, name)
                    if v is not None:
                        return [(st, v)]
                r = self._class_attr(st, c, name)
                if r is not None:
                    return [(st, r)]
                f = c.find(name)
                if f is not None:
                    return [(st, self.fnterm(f, None, base if "classmethod" in f.deco else None, c))]
            return [(st, T("attr", base, name))]
        if base.op == "ext":
            return [(st, T("ext", base.args[0]+"."+name))]
        if base.op == "enum" and name == "value":
            return [(st, const(base.args[2]))]
        c = self.typeof(base)
        if c is not None:
            p = c.prop(name)
            if p and "get" in p and not self._instance_attr(c, name):
                return self.call_func(st, ctx, p["get"], [base], {}, node, selfobj=base, cls=c)
            in_init = getattr(self, "in_init", None) == c.name and base is self.selfterm(c)
            if not in_init and not self.pkg.mutable(name):
                d = self.init_summary(c).get(name)
                if d is not None:
                    if self.expand and self.value_like(d):
                        return [(st, self._inst(d, base, c))]
                    return [(st, T("attr", base, name))]
            if not self._instance_attr(c, name):
                f = c.find(name)
                if f is not None:
                    return [(st, self.fnterm(f, None, base, c))]
                r = self._class_attr(st, c, name)
                if r is not None:
                    return [(st, r)]
            elif in_init:
                r = self._class_attr(st, c, name)
                if r is not None and (base, name) not in st.heap:
                    return [(st, r)]
            if self.pkg.mutable(name):
                return [(st, T("mattr", base, name, st.epoch))]
            return [(st, T("attr", base, name))]
        if name in ("value",) and self.is_signal(base):
            return [(st, T("val", base, st.step))]
        if name == "data" and base.op in ("new", "param", "attr", "call", "ite") and self._eventlike(base):
            return [(st, T("mattr", base, "data", st.epoch))]
        if name in ("_signals", "_optional_signals"):
            k = self._bus_class(base, ctx)
            r = self._class_attr(st, k, name) if k is not None else None
            if r is not None:
                return [(st, r)]
        if base.op in ("attr", "mattr", "param") and "bus" in str(base.args[1]):
            return [(st, T("attr", base, name))]
        if base.op in ("new", "mu") or (self.pkg.mutable(name) and base.op in ("param", "attr", "mattr") and self._frame_like(name)):
            return [(st, T("mattr", base, name, st.version(k)))]
        return [(st, T("attr", base, name))]

    def _bus_class(self, base, ctx):
        """the bus class `self.bus` denotes in a component whose bus class is fixed"""
        if base.op == "param" and base.args[1] == "bus":
            c = ctx.cls
        elif base.op in ("attr", "mattr") and base.args[1] == "bus" and base.args[0].op == "self":
            c = self.typeof(base.args[0])
        else:
            return None
        if c is None:
            return None
        n = "AxiStreamBus" if c.is_sub("AxiStreamBase") else "ApbBus" if c.name in ("ApbMaster", "ApbSlave", "ApbMonitor") else None
        return self.pkg.classes.get(n)

    def _frame_like(self, name):
        return name in ("tdata", "tkeep", "tid", "tdest", "tuser", "sim_time_start", "sim_time_end", "tx_complete", "_base", "_parent")

    def _eventlike(self, base):
        return self.extclass(base) == "Event"

    def is_signal(self, t):
        return t.op in ("attr", "mattr", "call", "param", "mu", "sub", "getattr", "ite")

    def value_like(self, d):
        """definition that is a plain value (not an object with identity)"""
        if d.op in ("new", "nt", "fn", "bound", "coro") or d.op == "call" and d.args[0] == "bytearray":
            return False
        for x in tm.subterms(d):
            if x.op in ("mattr", "mu", "val") or (x.op in ("call", "meth") and len(x.args) > 3 and x.args[-1]):
                return False
        return True

    def _instance_attr(self, c, name):
        """assigned on instances somewhere (so the class attribute / method is only a default)"""
        if name in c.__dict__.setdefault("_inst_cache", {}):
            return c._inst_cache[name]
        r = False
        for k in c.mro():
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and \
                            isinstance(n.value, ast.Name) and n.value.id == "self" and not (c.prop(name) and "set" in c.prop(name)):
                        r = True
        c._inst_cache[name] = r
        return r

    def _class_attr(self, st, c, name):
        r = c.class_attr(name)
        if r is None:
            return None
        owner, (k, v) = r
        if k == "value":
            return self.pyterm(v)
        if isinstance(v, ast.Name) and v.id in owner.methods:
            return None
        return self.const_expr(owner.module, v)

    def pyterm(self, v):
        from .model import Class
        if isinstance(v, Class):
            return T("cls", v.name)
        if isinstance(v, (list,)):
            return T("list", *[self.pyterm(x) for x in v])
        if isinstance(v, tuple):
            return T("tuple", *[self.pyterm(x) for x in v])
        if isinstance(v, dict):
            return T("dictlit", tuple((self.pyterm(a), self.pyterm(b)) for a, b in v.items()))
        return const(v)

    def _enum(self, c, name):
        if name in c.attrs:
            t = self.const_expr(c.module, c.attrs[name])
            if tm.is_const(t) and isinstance(t.args[0], int):
                return T("enum", c.name, name, t.args[0])
            if t.op == "enum":
                return t
        return None

    def const_expr(self, module, e):
        """evaluate a module / class level expression"""
        key = (id(e))
        cache = self.pkg.__dict__.setdefault("_const_cache", {})
        if key in cache:
            return cache[key]
        cache[key] = T("opaque", module.name, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))
        f = Func("<module>", ast.parse("def f(): pass").body[0], module)
        st = St()
        st.frames.append({})
        try:
            r = self.ev(e, st, Ctx(f, None, 0, None))
            if len(r) == 1 and r[0][0].stop is None:
                cache[key] = r[0][1]
        except AnalysisError:
            pass
        return cache[key]

    def fnterm(self, func, frame, selfobj, cls):
        t = T("fn", func.module.name+":"+func.qual+f":{func.node.lineno}:{func.node.col_offset}", frame, selfobj, cls.name if cls else None)
        self.fn_table[t] = (func, frame, selfobj, cls)
        self.pkg.__dict__.setdefault("_fn_table", {})[t] = (func, frame, selfobj, cls)
        return t

    def fninfo(self, t):
        return self.pkg.__dict__.get("_fn_table", {}).get(t)

    def write_attr(self, st, ctx, base, name, val, node):
        """-> list of states"""
        c = self.typeof(base)
        if c is not None:
            p = c.prop(name)
            if p and "set" in p:
                return [s for s, _ in self.call_func(st, ctx, p["set"], [base, val], {}, node, selfobj=base, cls=c)]
        self.event(st, "set", node, ctx, recv=base, name=name, value=val)
        st.heap[(base, name)] = val
        st.ver[(base, name)] = st.version((base, name))+1
        if name == "value":
            # driving a signal does not change what a sample in the same step sees
            del st.heap[(base, name)]
        return [st]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y in self.stmt(s, x, ctx):
                    (done if y.stop is not None else nxt).append(y)
            cur = nxt
            self.states += len(nxt)
            if self.states > self.max_states:
                raise AnalysisError(f"too many paths in {ctx.func.qual}")
            if not cur:
                break
        return done+cur

    def stmt(self, s, st, ctx):
        m = getattr(self, "s_"+type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"{ctx.func.module.rel}:{s.lineno}: unsupported statement {type(s).__name__}")
        return m(s, st, ctx)

    def s_Pass(self, s, st, ctx):
        return [st]

    def s_Import(self, s, st, ctx):
        for a in s.names:
            st.frames[ctx.frame][a.asname or a.name.split(".")[0]] = T("ext", a.name)
        return [st]

    def s_ImportFrom(self, s, st, ctx):
        for a in s.names:
            st.frames[ctx.frame][a.asname or a.name] = T("ext", f"{s.module}.{a.name}")
        return [st]

    def s_Global(self, s, st, ctx):
        return [st]

    def s_Nonlocal(self, s, st, ctx):
        ctx.nonlocals.update(s.names)
        return [st]

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [x for x, _ in self.ev(s.value, st, ctx)]

    def s_FunctionDef(self, s, st, ctx):
        f = Func(s.name, s, ctx.func.module, None)
        t = self.fnterm(f, ctx.frame, ctx.selfobj, ctx.cls)
        st.frames[ctx.frame][s.name] = t
        return [st]

    s_AsyncFunctionDef = s_FunctionDef

    def s_Return(self, s, st, ctx):
        if s.value is None:
            st.stop = ("return", NONE, s)
            return [st]
        out = []
        for x, v in self.ev(s.value, st, ctx):
            if x.stop is None:
                x.stop = ("return", v, s)
            out.append(x)
        return out

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            st.stop = ("raise", T("reraise"), s)
            return [st]
        out = []
        e = s.exc
        cls = e.func if isinstance(e, ast.Call) else e
        name = ast.unparse(cls)
        t = T("exc", name.split(".")[-1])
        self.event(st, "raise", s, ctx, value=t)
        st.stop = ("raise", t, s)
        out.append(st)
        return out

    def s_Assert(self, s, st, ctx):
        out = []
        for x, v in self.ev(s.test, st, ctx):
            if x.stop is not None:
                out.append(x)
                continue
            e = self.event(x, "assert", s, ctx, value=tm.truthy(v))
            known = x.lits.truth(v)
            if known is False:
                x.stop = ("raise", T("exc", "AssertionError"), s)
                out.append(x)
                continue
            if x.lits.assume(v, True, s):
                out.append(x)
        return out

    def s_Assign(self, s, st, ctx):
        out = []
        for x, v in self.ev(s.value, st, ctx):
            if x.stop is not None:
                out.append(x)
                continue
            cur = [x]
            for t in s.targets:
                nxt = []
                for y in cur:
                    nxt.extend(self.assign(t, v, y, ctx, s))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return [st]
        out = []
        for x, v in self.ev(s.value, st, ctx):
            out.extend([x] if x.stop is not None else self.assign(s.target, v, x, ctx, s))
        return out

    def frame_of(self, name, st, ctx):
        if name in ctx.nonlocals:
            c = ctx.closure
            while c is not None and c < len(st.frames):
                if name in st.frames[c]:
                    return c
                break
        return ctx.frame

    def assign(self, t, v, st, ctx, node):
        if isinstance(t, ast.Name):
            st.frames[self.frame_of(t.id, st, ctx)][t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, ctx):
                out.extend([x] if x.stop is not None else self.write_attr(x, ctx, b, t.attr, v, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, ctx):
                if x.stop is not None:
                    out.append(x)
                    continue
                for y, k in self.ev_index(t.slice, x, ctx):
                    if y.stop is None:
                        self.event(y, "setitem", node, ctx, recv=b, name=k, value=v)
                        y.ver[b] = y.version(b)+1
                        y.heap[(b, ("item", k))] = v
                        for kk in [q for q in y.heap if q[0] is b and isinstance(q[1], tuple) and q[1][0] == "item" and q[1][1] is not k]:
                            del y.heap[kk]
                    out.append(y)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e2, val = e.value, T("slice", v, const(i), NONE)
                elif v.op in ("tuple", "list") and not star and len(v.args) == len(t.elts):
                    e2, val = e, v.args[i]
                elif v.op == "nt" and len(v.args[1]) == len(t.elts):
                    e2, val = e, v.args[1][i][1]
                else:
                    e2, val = e, T("sub", v, const(i))
                nxt = []
                for x in cur:
                    nxt.extend(self.assign(e2, val, x, ctx, node))
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx, node)
        raise AnalysisError(f"unsupported assignment target {type(t).__name__}")

    def s_AugAssign(self, s, st, ctx):
        out = []
        if isinstance(s.target, ast.Name):
            for x, a in self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st, ctx):
                for y, b in ([(x, None)] if x.stop is not None else self.ev(s.value, x, ctx)):
                    if y.stop is None:
                        if isinstance(s.op, ast.Add) and self.extclass(a) in ("list", "bytearray"):
                            self.event(y, "call", s, ctx, recv=a, name="extend", args=(b,))
                            y.ver[a] = y.version(a)+1
                        else:
                            y.frames[self.frame_of(s.target.id, y, ctx)][s.target.id] = self.binop(s.op, a, b)
                    out.append(y)
            return out
        if isinstance(s.target, ast.Attribute):
            for x, base in self.ev(s.target.value, st, ctx):
                if x.stop is not None:
                    out.append(x)
                    continue
                for y, a in self.read_attr(x, ctx, base, s.target.attr, s):
                    for z, b in ([(y, None)] if y.stop is not None else self.ev(s.value, y, ctx)):
                        if z.stop is not None:
                            out.append(z)
                        else:
                            out.extend(self.write_attr(z, ctx, base, s.target.attr, self.binop(s.op, a, b), s))
            return out
        if isinstance(s.target, ast.Subscript):
            for x, base in self.ev(s.target.value, st, ctx):
                if x.stop is not None:
                    out.append(x)
                    continue
                for y, k in self.ev_index(s.target.slice, x, ctx):
                    if y.stop is not None:
                        out.append(y)
                        continue
                    a = self.subscript(y, base, k)
                    for z, b in self.ev(s.value, y, ctx):
                        if z.stop is None:
                            v = self.binop(s.op, a, b)
                            self.event(z, "setitem", s, ctx, recv=base, name=k, value=v)
                            z.ver[base] = z.version(base)+1
                        out.append(z)
            return out
        raise AnalysisError("unsupported augmented assignment")

    def s_Delete(self, s, st, ctx):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.frames[ctx.frame].pop(t.id, None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, b in self.ev(t.value, x, ctx):
                        if y.stop is not None:
                            nxt.append(y)
                            continue
                        for z, k in self.ev_index(t.slice, y, ctx):
                            if z.stop is None:
                                self.event(z, "delitem", s, ctx, recv=b, name=k)
                                z.ver[b] = z.version(b)+1
                                for kk in [q for q in z.heap if q[0] is b and isinstance(q[1], tuple)]:
                                    del z.heap[kk]
                            nxt.append(z)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x, ctx):
                        if y.stop is None:
                            self.event(y, "delattr", s, ctx, recv=b, name=t.attr)
                            y.heap.pop((b, t.attr), None)
                        nxt.append(y)
                else:
                    raise AnalysisError("unsupported del")
            cur = nxt
        return cur

    def s_If(self, s, st, ctx):
        out = []
        for x, c in self.ev(s.test, st, ctx, truth=True):
            if x.stop is not None:
                out.append(x)
                continue
            k = x.lits.truth(c)
            if k is not None:
                out.extend(self.block(s.body if k else s.orelse, x, ctx))
                continue
            a = x.fork()
            b = x.fork()
            ra = self.block(s.body, a, ctx) if a.lits.assume(c, True, s) else []
            rb = self.block(s.orelse, b, ctx) if b.lits.assume(c, False, s) else []
            if len(ra) == 1 and len(rb) == 1 and self.same(ra[0], rb[0]):
                m = ra[0]
                m.lits = x.lits
                out.append(m)
            else:
                out.extend(ra)
                out.extend(rb)
        return out

    def same(self, a, b):
        return a.stop is None and b.stop is None and a.ev is b.ev and a.epoch == b.epoch and a.frames == b.frames and a.heap == b.heap \
            and a.ver == b.ver and len(a.lits.order) == len(b.lits.order)

    # ---- loops
    def assigned_in(self, stmts, ctx, seen=None, depth=0):
        """(local names, attribute names, has_await) assigned by the statements, calls to own methods included"""
        key = tuple(id(x) for x in stmts)
        top = seen is None
        if top and (key, ctx.cls) in self.assigned_cache:
            return self.assigned_cache[(key, ctx.cls)]
        seen = set() if seen is None else seen
        names, attrs, aw = set(), set(), False
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    attrs.add(n.attr)
                elif isinstance(n, (ast.Await, ast.Yield)):
                    aw = True
                elif isinstance(n, ast.NamedExpr):
                    names.add(n.target.id)
                elif isinstance(n, ast.Call):
                    f = None
                    nm = None
                    if isinstance(n.func, ast.Attribute) and ctx.cls is not None:
                        nm = n.func.attr
                        f = ctx.cls.find(nm)
                    elif isinstance(n.func, ast.Name):
                        nm = n.func.id
                        r = self.pkg.resolve(ctx.func.module, n.func.id)
                        if r and r[0] == "func":
                            f = r[1]
                        if nm == "setattr":
                            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                                attrs.add(n.args[1].value)
                    if f is not None and f not in seen and depth < 6:
                        seen.add(f)
                        _, a2, w2 = self.assigned_in(f.node.body, ctx, seen, depth+1)
                        attrs |= a2
                        aw = aw or w2
        r = (names, attrs, aw)
        if top:
            self.assigned_cache[(key, ctx.cls)] = r
        return r

    def loop_enter(self, node, body, st, ctx, extra=(), testnode=None):
        lid = f"{ctx.func.module.name}:{node.lineno}:{node.col_offset}" + (f"@{len(st.stack)}" if len(st.stack) > 1 else "")
        if lid in st.loops:
            lid += "'"
        names, attrs, aw = self.assigned_in(body, ctx)
        if testnode is not None:
            n2, a2, w2 = self.assigned_in([ast.Expr(testnode)], ctx)
            names, attrs, aw = names | n2, attrs | a2, aw or w2
        init = {}
        for n in names:
            f = self.frame_of(n, st, ctx)
            if n in st.frames[f] and n not in extra:
                init[n] = st.frames[f][n]
                st.frames[f][n] = T("mu", lid, n)
        # closures assigned through inlined nested functions are covered because nested bodies are walked above
        before = st.step
        if aw:
            self.invalidate(st)
        else:
            so = ctx.selfobj
            if so is not None and so.op == "self":
                for a in sorted(attrs):
                    if (so, a) not in st.heap and self.pkg.mutable(a):
                        st.heap[(so, a)] = T("mattr", so, a, st.epoch)
        for k in list(st.heap):
            o, a = k
            if isinstance(a, tuple):
                del st.heap[k]
            elif a in attrs:
                init[f"{tm.show(o)}.{a}"] = st.heap[k]
                st.heap[k] = T("mu", lid, f"{tm.show(o)}.{a}")
            elif aw and o not in st.fresh and self.pkg.mutable(a):
                del st.heap[k]
        st.vbase += 1000
        for k in list(st.ver):
            st.ver[k] += 1000
        st.linit = dict(st.linit)
        st.linit[lid] = init
        self.event(st, "loop", node, ctx, name=lid, value=before)
        return lid

    def loop_next(self, st, ctx, lid):
        nxt = {}
        for n in st.linit[lid]:
            if n in st.frames[ctx.frame]:
                nxt[n] = st.frames[ctx.frame][n]
            else:
                for (o, a), v in st.heap.items():
                    if not isinstance(a, tuple) and f"{tm.show(o)}.{a}" == n:
                        nxt[n] = v
        return nxt

    def loop_body(self, body, st, ctx, lid, step=None):
        """walk one generic iteration -> (ended states, break states)"""
        saved = st.loops
        st.loops = st.loops+(lid,)
        ended, brk = [], []
        for x in self.block(body, st, ctx):
            if x.stop is None or x.stop == ("continue",):
                x.stop = None
                if step:
                    step(x)
                x.stop = ("backedge", lid, self.loop_next(x, ctx, lid))
                ended.append(x)
            elif x.stop == ("break",):
                x.stop = None
                x.loops = saved
                brk.append(x)
            else:
                ended.append(x)
        return ended, brk

    def s_While(self, s, st, ctx):
        out = []
        lid = self.loop_enter(s, s.body, st, ctx, testnode=s.test)
        for x, c in self.ev(s.test, st, ctx, truth=True):
            if x.stop is not None:
                out.append(x)
                continue
            k = x.lits.truth(c)
            a = x.fork()
            if k is not False and a.lits.assume(c, True, s):
                ended, brk = self.loop_body(s.body, a, ctx, lid)
                out.extend(ended)
                out.extend(brk)
            if k is not True:
                b = x.fork()
                if b.lits.assume(c, False, s):
                    out.extend(self.block(s.orelse, b, ctx) if s.orelse else [b])
        return out

    def s_For(self, s, st, ctx):
        out = []
        for x, it in self.ev(s.iter, st, ctx):
            if x.stop is not None:
                out.append(x)
                continue
            out.extend(self.for_over(s, it, x, ctx))
        return out

    def merge(self, states, entry, ctx):
        """join states of an unrolled loop that agree on everything defined before the loop; their common literals survive and the
        joined-away ones are kept as finished paths of kind 'merged'"""
        groups = {}
        base = {i: set(f) for i, f in enumerate(entry.frames)}
        for x in states:
            fr = tuple(tuple(sorted(((k, v.id if isinstance(v, Term) else id(v)) for k, v in f.items() if k in base.get(i, ())), key=str))
                       for i, f in enumerate(x.frames))
            for k in [k for k in x.heap if k not in entry.heap and k[0].op != "self"]:
                del x.heap[k]
            hp = tuple(sorted(((o.id, str(a), v.id if isinstance(v, Term) else id(v)) for (o, a), v in x.heap.items())))
            groups.setdefault((fr, hp, x.loops), []).append(x)
        out = []
        for g in groups.values():
            r = g[0]
            if len(g) > 1:
                common = set.intersection(*[{(t, v) for t, v, _ in x.lits.order} for x in g])
                L = Lits()
                for t, v, n in r.lits.order:
                    if (t, v) in common:
                        L.assume(t, v, n)
                for x in g[1:]:
                    x.stop = ("merged",)
                    self.side.append(x)
                m = r.fork()
                r.stop = ("merged",)
                self.side.append(r)
                m.lits = L
                m.n = max(x.n for x in g)
                m.epoch = m.uid()
                r = m
            out.append(r)
        return out

    def literal_items(self, it):
        if it.op in ("tuple", "list") and len(it.args) <= 24:
            return list(it.args)
        if it.op == "dictlit" and len(it.args[0]) <= 24:
            return [k for k, v in it.args[0]]
        if it.op == "meth" and it.args[1] == "items" and it.args[0].op == "dictlit":
            return [T("tuple", k, v) for k, v in it.args[0].args[0]]
        if it.op == "call" and it.args[0] == "zip":
            ls = [self.literal_items(x) for x in it.args[1]]
            if ls and all(l is not None for l in ls):
                return [T("tuple", *z) for z in zip(*ls)]
        if it.op == "call" and it.args[0] == "enumerate" and len(it.args[1]) == 1:
            l = self.literal_items(it.args[1][0])
            if l is not None:
                return [T("tuple", const(i), v) for i, v in enumerate(l)]
        if it.op == "call" and it.args[0] in ("list", "tuple", "reversed") and len(it.args[1]) == 1:
            l = self.literal_items(it.args[1][0])
            if l is not None:
                return l[::-1] if it.args[0] == "reversed" else l
        if it.op == "call" and it.args[0] == "range":
            vs = [tm.numval(a) for a in it.args[1]]
            if all(v is not None for v in vs) and len(range(*vs)) <= 8:
                return [const(i) for i in range(*vs)]
        if it.op == "concat":
            a, b = self.literal_items(it.args[0]), self.literal_items(it.args[1])
            if a is not None and b is not None:
                return a+b
        return None

    def for_over(self, s, it, st, ctx):
        items = self.literal_items(it)
        if items is not None and len(items) <= 24:
            cur, out = [st], []
            for v in items:
                nxt = []
                for x in cur:
                    for y in self.assign(s.target, v, x, ctx, s):
                        for z in self.block(s.body, y, ctx):
                            if z.stop is None or z.stop == ("continue",):
                                z.stop = None
                                nxt.append(z)
                            elif z.stop == ("break",):
                                z.stop = None
                                out.append(z)
                            else:
                                out.append(z)
                cur = self.merge(nxt, st, ctx) if len(nxt) > 40 else nxt
            for x in cur:
                out.extend(self.block(s.orelse, x, ctx) if s.orelse else [x])
            return out
        if it.op == "gen":
            return self.for_generator(s, it, st, ctx)
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        lid = self.loop_enter(s, s.body, st, ctx, extra=names)
        mu = T("mu", lid, "#")
        st.linit[lid] = dict(st.linit[lid])
        lo, hi, val, step = ZERO, None, None, 1
        def bare(t):
            # iterating over a copy of a sequence
            while t.op == "call" and t.args[0] in ("list", "tuple", "iter") and len(t.args[1]) == 1:
                t = t.args[1][0]
            return t
        it = bare(it)
        base = it
        enum = None
        if it.op == "call" and it.args[0] == "enumerate":
            base = bare(it.args[1][0])
            enum = it.args[1][1] if len(it.args[1]) > 1 else ZERO
            for k, v in (it.args[2] if len(it.args) > 2 else ()):
                if k == "start":
                    enum = v
        if base.op == "call" and base.args[0] == "range":
            a = base.args[1]
            stp = tm.numval(a[2]) if len(a) > 2 else 1
            lo = a[0] if len(a) > 1 else ZERO
            hi = a[1] if len(a) > 1 else a[0]
            if stp is None:
                # symbolic positive step
                val = tm.add(lo, tm.mul(mu, a[2]))
                lo0 = lo
                lo = ZERO
                hi = T("call", "nsteps", (lo0, hi, a[2]))
            else:
                step = stp
                val = mu
        elif base.op == "call" and base.args[0] == "reversed" and base.args[1][0].op == "call" and base.args[1][0].args[0] == "range" \
                and len(base.args[1][0].args[1]) <= 2:
            a = base.args[1][0].args[1]
            lo0 = a[0] if len(a) > 1 else ZERO
            hi0 = a[-1]
            lo, hi, step, val = tm.sub_(hi0, ONE), tm.sub_(lo0, ONE), -1, mu
        else:
            hi = T("call", "len", (base,), (), 0)
            if base.op == "call" and base.args[0] == "zip":
                val = T("tuple", *[T("sub", b, mu) for b in base.args[1]])
                hi = T("call", "len", (base.args[1][0],), (), 0)
            elif base.op == "slice" and base.args[1] in (NONE, ZERO) and False:
                val = T("sub", base.args[0], mu)
            else:
                val = T("sub", base, mu)
        if enum is not None:
            val = T("tuple", tm.add(mu, enum), val)
        st.linit[lid]["#"] = lo
        st.linit[lid]["#hi"] = hi
        st.linit[lid]["#step"] = const(step)
        st.linit[lid]["#iter"] = it
        cond = tm.lt(mu, hi) if step > 0 else tm.lt(hi, mu)
        out = []
        # the first-iteration index is lo; a later one is past it
        a = st.fork()
        if a.lits.assume(cond, True, s):
            lows = tm.lt(mu, lo) if step > 0 else tm.lt(lo, mu)
            a.lits._add(lows, False)
            def fin(x, lid=lid):
                pass
            states = self.assign(s.target, val, a, ctx, s)
            for y in states:
                ended, brk = self.loop_body(s.body, y, ctx, lid)
                for z in ended:
                    if z.stop and z.stop[0] == "backedge" and z.stop[1] == lid:
                        nx = dict(z.stop[2])
                        nx["#"] = tm.add(mu, const(step))
                        for kk in ("#hi", "#step", "#iter"):
                            nx.pop(kk, None)
                        z.stop = ("backedge", lid, nx)
                out.extend(ended)
                out.extend(brk)
        b = st.fork()
        if b.lits.assume(cond, False, s):
            for n in names:
                b.frames[ctx.frame][n] = T("mu", lid, n+"$last")
            out.extend(self.block(s.orelse, b, ctx) if s.orelse else [b])
        return out

    def for_generator(self, s, it, st, ctx):
        """inline a generator: its body runs with the consumer's loop body at every yield"""
        func, argterms, selfobj, cls, frame = self.gen_table[it]
        out = []

        def on_yield(y, v, gctx):
            res = []
            for z in self.assign(s.target, v, y, ctx, s):
                for q in self.block(s.body, z, ctx):
                    if q.stop is None or q.stop == ("continue",):
                        q.stop = None
                        res.append(q)
                    elif q.stop == ("break",):
                        q.stop = ("genbreak", id(it))
                        res.append(q)
                    elif q.stop[0] == "return":
                        q.stop = ("genreturn", id(it), q.stop)
                        res.append(q)
                    else:
                        res.append(q)
            return res
        for x, _ in self.exec_func(st, ctx, func, argterms, s, selfobj, cls, frame, on_yield=(on_yield, s.body, ctx)):
            if x.stop == ("genbreak", id(it)):
                x.stop = None
            elif x.stop and x.stop[0] == "genreturn" and x.stop[1] == id(it):
                x.stop = x.stop[2]
            out.append(x)
        return out

    def s_AsyncFor(self, s, st, ctx):
        raise AnalysisError("async for")

    def s_With(self, s, st, ctx):
        cur = [st]
        for i in s.items:
            nxt = []
            for x in cur:
                for y, v in self.ev(i.context_expr, x, ctx):
                    if y.stop is None and i.optional_vars is not None:
                        nxt.extend(self.assign(i.optional_vars, v, y, ctx, s))
                    else:
                        nxt.append(y)
            cur = nxt
        out = []
        for x in cur:
            out.extend([x] if x.stop is not None else self.block(s.body, x, ctx))
        return out

    s_AsyncWith = s_With

    def s_Break(self, s, st, ctx):
        st.stop = ("break",)
        return [st]

    def s_Continue(self, s, st, ctx):
        st.stop = ("continue",)
        return [st]

    def s_Match(self, s, st, ctx):
        out = []
        for x, v in self.ev(s.subject, st, ctx):
            if x.stop is not None:
                out.append(x)
                continue
            cur = x
            for case in s.cases:
                p = case.pattern
                conds = []
                def pat(p):
                    if isinstance(p, ast.MatchValue):
                        r = self.ev(p.value, cur, ctx)
                        conds.append(tm.eq(self.numstrip(v), self.numstrip(r[0][1])))
                    elif isinstance(p, ast.MatchSingleton):
                        conds.append(tm.eq(v, const(p.value)))
                    elif isinstance(p, ast.MatchAs) and p.pattern is None:
                        if p.name:
                            cur.frames[ctx.frame][p.name] = v
                        conds.append(TRUE)
                    elif isinstance(p, ast.MatchOr):
                        n0 = len(conds)
                        for q in p.patterns:
                            pat(q)
                        c = tm.or_(*conds[n0:])
                        del conds[n0:]
                        conds.append(c)
                    elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                        conds.append(T("isinstance", v, T("cls", ast.unparse(p.cls))))
                    else:
                        raise AnalysisError("unsupported match pattern")
                pat(p)
                c = tm.and_(*conds)
                if case.guard is not None:
                    r = self.ev(case.guard, cur, ctx)
                    c = tm.and_(c, r[0][1])
                a = cur.fork()
                if a.lits.assume(c, True, case.pattern):
                    out.extend(self.block(case.body, a, ctx))
                if not cur.lits.assume(c, False, case.pattern):
                    cur = None
                    break
            if cur is not None:
                out.append(cur)
        return out

    def s_Try(self, s, st, ctx):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("BaseException")
            elif isinstance(h.type, ast.Tuple):
                names.extend(ast.unparse(e).split(".")[-1] for e in h.type.elts)
            else:
                names.append(ast.unparse(h.type).split(".")[-1])
        saved = st.trys
        st.trys = st.trys+(frozenset(names),)
        depth = len(st.frames)
        res = self.block(s.body, st, ctx)
        out = []
        for x in res:
            if x.stop and x.stop[0] == "raise":
                h = self.handler(s, x.stop[1])
                if h is None:
                    x.trys = saved
                    out.append(x)
                    continue
                exc = x.stop[1]
                x.stop = None
                x.trys = saved
                del x.frames[max(depth, ctx.frame+1):]
                x.stack = x.stack[:len(st.stack)] if len(x.stack) > len(st.stack) else x.stack
                x.loops = st.loops if len(x.loops) > len(st.loops) else x.loops
                self.event(x, "except", h, ctx, value=exc)
                if h.name:
                    x.frames[ctx.frame][h.name] = exc
                out.extend(self.block(h.body, x, ctx))
            else:
                x.trys = saved
                if x.stop is None and s.orelse:
                    out.extend(self.block(s.orelse, x, ctx))
                else:
                    out.append(x)
        if s.finalbody:
            fin = []
            for x in out:
                keep = x.stop
                x.stop = None
                for y in self.block(s.finalbody, x, ctx):
                    if y.stop is None:
                        y.stop = keep
                    fin.append(y)
            out = fin
        return out

    s_TryStar = s_Try

    EXC_KIND = {"sub": {"KeyError", "IndexError", "LookupError", "Exception", "BaseException", "TypeError"},
                "remove": {"ValueError", "KeyError", "LookupError", "Exception", "BaseException"},
                "name": {"NameError", "Exception", "BaseException"}}

    def handler(self, s, exc):
        kind = exc.args[0] if exc.args else None
        for h in s.handlers:
            if h.type is None:
                return h
            ns = [ast.unparse(e).split(".")[-1] for e in h.type.elts] if isinstance(h.type, ast.Tuple) else [ast.unparse(h.type).split(".")[-1]]
            for n in ns:
                if exc.op == "exc":
                    if n in ("Exception", "BaseException") or n == kind:
                        return h
                elif exc.op == "mayraise":
                    if self.catches(n, kind):
                        return h
        return None

    def catches(self, name, kind):
        if kind in self.EXC_KIND:
            return name in self.EXC_KIND[kind]
        return name not in ("NameError", "KeyError", "IndexError", "LookupError", "ImportError", "KeyboardInterrupt")

    def may_raise(self, st, kind, node):
        if not st.trys:
            return []
        if any(self.catches(n, kind) for hs in st.trys for n in hs):
            x = st.fork()
            x.stop = ("raise", T("mayraise", kind, getattr(node, "lineno", 0)), node)
            return [x]
        return []

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, ctx, truth=False):
        m = getattr(self, "e_"+type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"{ctx.func.module.rel}:{getattr(e, 'lineno', 0)}: unsupported expression {type(e).__name__}")
        return m(e, st, ctx)

    def evs(self, es, st, ctx):
        """evaluate a sequence -> list of (state, [terms])"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                if x.stop is not None:
                    nxt.append((x, vs))
                    continue
                for y, v in self.ev(e, x, ctx):
                    nxt.append((y, vs+[v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st, ctx):
        return [(st, const(e.value))]

    def e_Name(self, e, st, ctx):
        f = ctx.frame
        if e.id in st.frames[f]:
            return [(st, st.frames[f][e.id])]
        c = ctx.closure
        if c is not None and c < len(st.frames) and e.id in st.frames[c]:
            return [(st, st.frames[c][e.id])]
        return [(x, v) for x, v in [(st, self.global_name(e.id, ctx.func.module))]] + \
            [(y, NONE) for y in self.may_raise_name(st, e, ctx)]

    def may_raise_name(self, st, e, ctx):
        r = self.pkg.resolve(ctx.func.module, e.id)
        if r and r[0] == "ext" and any("NameError" in hs for hs in st.trys):
            return self.may_raise(st, "name", e)
        return []

    def global_name(self, name, module):
        r = self.pkg.resolve(module, name)
        if r is None:
            return T("ext", name)
        if r[0] == "class":
            return T("cls", r[1].name)
        if r[0] == "func":
            return self.fnterm(r[1], None, None, None)
        if r[0] == "expr":
            return self.const_expr(r[1], r[2])
        if r[0] == "tupexpr":
            v = self.const_expr(r[1], r[2])
            if v.op in ("tuple", "list") and r[3] < len(v.args):
                return v.args[r[3]]
            return T("sub", v, const(r[3]))
        if r[0] == "module":
            return T("ext", "module:"+r[1].name)
        return T("ext", r[1])

    def e_Attribute(self, e, st, ctx):
        out = []
        for x, b in self.ev(e.value, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
                continue
            if b.op == "ext" and b.args[0].startswith("module:"):
                out.append((x, self.global_name(e.attr, self.pkg.modules[b.args[0][7:]])))
                continue
            out.extend(self.read_attr(x, ctx, b, e.attr, e))
        return out

    def e_NamedExpr(self, e, st, ctx):
        out = []
        for x, v in self.ev(e.value, st, ctx):
            if x.stop is None:
                x.frames[ctx.frame][e.target.id] = v
            out.append((x, v))
        return out

    def e_Tuple(self, e, st, ctx):
        return self._seq("tuple", e, st, ctx)

    def e_List(self, e, st, ctx):
        if not e.elts:
            t = T("new", "list", st.uid())
            st.fresh = st.fresh | {t}
            return [(st, t)]
        return self._seq("list", e, st, ctx)

    def e_Set(self, e, st, ctx):
        return self._seq("setlit", e, st, ctx)

    def _seq(self, op, e, st, ctx):
        out = []
        for x, vs in self.evs([q.value if isinstance(q, ast.Starred) else q for q in e.elts], st, ctx):
            flat = []
            for q, v in zip(e.elts, vs):
                if isinstance(q, ast.Starred):
                    li = self.literal_items(v)
                    flat.extend(li if li is not None else [T("star", v)])
                else:
                    flat.append(v)
            out.append((x, T(op, *flat)))
        return out

    def e_Dict(self, e, st, ctx):
        if not e.keys:
            t = T("new", "dict", st.uid())
            st.fresh = st.fresh | {t}
            return [(st, t)]
        out = []
        if any(k is None for k in e.keys):
            for x, vs in self.evs(list(e.values), st, ctx):
                out.append((x, T("opaque", ctx.func.module.name, e.lineno, e.col_offset)))
            return out
        for x, vs in self.evs(list(e.keys)+list(e.values), st, ctx):
            n = len(e.keys)
            out.append((x, T("dictlit", tuple(zip(vs[:n], vs[n:]))) if len(vs) == 2*n else NONE))
        return out

    def e_JoinedStr(self, e, st, ctx):
        if all(isinstance(v, ast.Constant) or isinstance(v.value, (ast.Name, ast.Attribute)) and v.format_spec is None and v.conversion == -1 for v in e.values):
            txt = ""
            for v in e.values:
                t = const(v.value) if isinstance(v, ast.Constant) else self.ev(v.value, st, ctx)[0][1]
                if t.op != "const" or not isinstance(t.args[0], (str, int)):
                    txt = None
                    break
                txt += str(t.args[0])
            if txt is not None:
                return [(st, const(txt))]
        parts = None
        if any(not isinstance(v, ast.Constant) and v.format_spec is not None for v in e.values):
            parts = self.fparts(e, st, ctx)
        return [(st, T("fstr", ctx.func.module.name, e.lineno, e.col_offset, *(parts or ())))]

    def fparts(self, e, st, ctx):
        """pieces of a formatted string whose values are plain locals and arithmetic on them"""
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(const(v.value))
                continue
            if v.conversion != -1 or not all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)) for x in ast.walk(v.value)):
                return None
            r = self.ev(v.value, st, ctx)
            if len(r) != 1:
                return None
            spec = const("")
            if v.format_spec is not None:
                sp = self.fparts(v.format_spec, st, ctx)
                if sp is None:
                    return None
                spec = sp[0] if len(sp) == 1 and sp[0].op == "const" else T("fstr", ctx.func.module.name, v.format_spec.lineno, v.format_spec.col_offset, *sp)
            out.append(T("fmt", r[0][1], spec))
        return out

    def e_Lambda(self, e, st, ctx):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e.body)], decorator_list=[], lineno=e.lineno,
                               col_offset=e.col_offset)
        f = Func("<lambda>", node, ctx.func.module, None)
        return [(st, self.fnterm(f, ctx.frame, ctx.selfobj, ctx.cls))]

    def e_Starred(self, e, st, ctx):
        return [(x, T("star", v)) for x, v in self.ev(e.value, st, ctx)]

    def e_UnaryOp(self, e, st, ctx):
        out = []
        for x, v in self.ev(e.operand, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
            elif isinstance(e.op, ast.Not):
                out.append((x, tm.not_(v)))
            elif isinstance(e.op, ast.USub):
                out.append((x, tm.neg(v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((x, v))
            else:
                out.append((x, tm.sub_(tm.neg(v), ONE)))
        return out

    def seqlike(self, t):
        return t.op in ("list", "tuple", "concat", "rep", "slice", "fstr") or (t.op == "const" and isinstance(t.args[0], (str, bytes))) \
            or (t.op == "call" and t.args[0] in ("list", "bytes", "bytearray", "tuple", "str", "sorted", "chr", "hex", "repr")) \
            or (t.op == "meth" and t.args[1] in ("to_bytes", "join", "lower")) or self.extclass(t) in ("list", "bytearray")

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if self.seqlike(a) or self.seqlike(b):
                if a.op == "list" and b.op == "list":
                    return T("list", *(a.args+b.args))
                if a.op == "tuple" and b.op == "tuple":
                    return T("tuple", *(a.args+b.args))
                if a.op == "const" and b.op == "const" and type(a.args[0]) is type(b.args[0]):
                    return const(a.args[0]+b.args[0])
                return T("concat", a, b)
            return tm.add(a, b)
        if isinstance(op, ast.Sub):
            return tm.sub_(a, b)
        if isinstance(op, ast.Mult):
            if self.seqlike(a):
                return T("rep", a, b)
            if self.seqlike(b):
                return T("rep", b, a)
            return tm.mul(a, b)
        if isinstance(op, ast.FloorDiv):
            return tm.floordiv(a, b)
        if isinstance(op, ast.Mod):
            if self.seqlike(a):
                return T("fmt", a, b)
            return tm.mod(a, b)
        if isinstance(op, ast.Pow):
            if tm.numval(a) == 2:
                return tm.pow2(b)
            return T("pow", a, b)
        if isinstance(op, ast.LShift):
            return tm.shl(a, b)
        if isinstance(op, ast.RShift):
            return tm.shr(a, b)
        if isinstance(op, ast.BitAnd):
            return tm.band(a, b)
        if isinstance(op, ast.BitOr):
            return tm.bor(a, b)
        if isinstance(op, ast.BitXor):
            return tm.bxor(a, b)
        return T("bin", type(op).__name__, a, b)

    def e_BinOp(self, e, st, ctx):
        out = []
        for x, vs in self.evs([e.left, e.right], st, ctx):
            out.append((x, self.binop(e.op, *vs) if x.stop is None else NONE))
        return out

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        cur = [(st, None)]
        for i, sub in enumerate(e.values):
            nxt = []
            for x, acc in cur:
                if x.stop is not None:
                    nxt.append((x, NONE))
                    continue
                if acc is not None:
                    k = x.lits.truth(acc)
                    if k is not None and k != isand:
                        nxt.append((x, acc))
                        continue
                    # evaluate the rest under the assumption that it is reached
                    y = x.fork()
                    y.lits._add(acc, isand) if k is None else True
                    n0 = x.nev
                    res = self.ev(sub, y, ctx)
                    if len(res) == 1 and res[0][0].nev == n0 and res[0][0].stop is None and res[0][0].frames == x.frames \
                            and res[0][0].epoch == x.epoch:
                        v = res[0][1]
                        x.n = res[0][0].n
                        if k is not None:
                            nxt.append((x, v))
                        else:
                            nxt.append((x, self.bool2(isand, acc, v)))
                    else:
                        # side effects or forks: split on acc
                        if k is None:
                            z = x.fork()
                            if z.lits.assume(acc, not isand, e):
                                nxt.append((z, acc))
                            if x.lits.assume(acc, isand, e):
                                for q, v in self.ev(sub, x, ctx):
                                    nxt.append((q, v))
                        else:
                            for q, v in self.ev(sub, x, ctx):
                                nxt.append((q, v))
                else:
                    nxt.extend(self.ev(sub, x, ctx))
            cur = nxt
        return cur

    def bool2(self, isand, a, b):
        """value of 'a and b' / 'a or b'"""
        if tm.bool_valued(a) and tm.bool_valued(b):
            return tm.and_(a, b) if isand else tm.or_(a, b)
        if isand:
            if tm.bool_valued(a):
                # value is False or b
                return T("vand", a, b) if not tm.bool_valued(b) else tm.and_(a, b)
            return T("vand", a, b)
        return T("vor", a, b)

    def numstrip(self, t):
        while t.op == "call" and len(t.args[1]) == 1 and (t.args[0] in ("int", "bool") or self.is_enum_name(t.args[0])):
            t = t.args[1][0]
        return t

    def is_enum_name(self, n):
        c = self.pkg.classes.get(n)
        return c is not None and c.kind == "enum"

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is NONE or a is NONE:
                r = tm.isnone(a if b is NONE else b)
            elif b.op == "const" and isinstance(b.args[0], bool):
                r = tm.eq(a, b)
            elif a is b:
                r = TRUE
            elif a.op in ("cls", "ext") and b.op in ("cls", "ext"):
                r = FALSE
            elif a.op == "call" and a.args[0] == "type":
                r = T("typeis", a.args[1][0], b)
            elif (a.op == "enum" or b.op == "enum"):
                r = tm.eq(self.numstrip(a), self.numstrip(b))
            else:
                r = T("is", *sorted((a, b), key=lambda t: t.id))
            return tm.not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            items = self.literal_items(b)
            if items is None and b.op == "setlit":
                items = list(b.args)
            if items is not None:
                if a.op == "call" and a.args[0] == "type":
                    r = tm.or_(*[T("typeis", a.args[1][0], i) for i in items])
                else:
                    r = tm.or_(*[self._eq(a, i) for i in items])
            else:
                v = (st.version(b), st.epoch) if self.extclass(b) or b.op == "mattr" else 0
                r = T("in", a, b, v)
            return tm.not_(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self._eq(a, b)
            return tm.not_(r) if isinstance(op, ast.NotEq) else r
        a, b = self.numstrip(a), self.numstrip(b)
        if isinstance(op, ast.Lt):
            r = tm.lt(a, b)
        elif isinstance(op, ast.Gt):
            r = tm.lt(b, a)
        elif isinstance(op, ast.LtE):
            r = tm.not_(tm.lt(b, a))
        else:
            r = tm.not_(tm.lt(a, b))
        return self._len_norm(r)

    def _eq(self, a, b):
        if a.op == "call" and a.args[0] == "type" and b.op in ("cls", "ext"):
            return T("typeis", a.args[1][0], b)
        for x, y in ((a, b), (b, a)):
            if y.op == "new" and y.args[0] in ("list", "dict") and len(y.args) == 2:
                return tm.not_(T("truthy", x))
            if y.op == "const" and y.args[0] in (b"", "") :
                return tm.not_(T("truthy", x))
        return self._len_norm(tm.eq(self.numstrip(a), self.numstrip(b)))

    def _len_norm(self, r):
        """len(x) > 0, len(x) >= 1, len(x) < 1, qsize() ... -> truthiness"""
        neg = False
        t = r
        if t.op == "not":
            neg, t = True, t.args[0]
        if t.op == "lt0":
            c, d = tm.lin_of(t.args[0])
            if len(d) == 1:
                (x, k), = d.items()
                if x.op == "call" and x.args[0] in ("len", "qsize"):
                    # k*x + c < 0 with x >= 0
                    nz = T("truthy", x.args[1][0]) if x.args[0] == "len" else T("truthy", x)
                    if k == 1 and c == -1:
                        res = tm.not_(nz)
                    elif k == -1 and c == 0:
                        res = nz
                    elif k == 1 and c == 0:
                        res = FALSE
                    else:
                        return r
                    return tm.not_(res) if neg else res
        return r

    def e_Compare(self, e, st, ctx):
        out = []
        for x, vs in self.evs([e.left]+e.comparators, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
                continue
            rs = [self.compare(x, op, vs[i], vs[i+1]) for i, op in enumerate(e.ops)]
            out.append((x, tm.and_(*rs) if len(rs) > 1 else rs[0]))
        return out

    def e_IfExp(self, e, st, ctx):
        out = []
        for x, c in self.ev(e.test, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
                continue
            k = x.lits.truth(c)
            if k is not None:
                out.extend(self.ev(e.body if k else e.orelse, x, ctx))
                continue
            a, b = x.fork(), x
            if a.lits.assume(c, True, e):
                out.extend(self.ev(e.body, a, ctx))
            if b.lits.assume(c, False, e):
                out.extend(self.ev(e.orelse, b, ctx))
        return out

    def ev_index(self, s, st, ctx):
        if isinstance(s, ast.Slice):
            out = []
            parts = [s.lower, s.upper, s.step]
            es = [p if p is not None else ast.Constant(None) for p in parts]
            for x, vs in self.evs(es, st, ctx):
                out.append((x, T("sl", *vs) if len(vs) == 3 else NONE))
            return out
        return self.ev(s, st, ctx)

    def subscript(self, st, b, k):
        if k.op == "sl":
            lo, hi, step = k.args
            if lo is NONE:
                lo = ZERO
            if step is NONE or step is ONE:
                ec = self.extclass(b)
                if ec in ("list", "bytearray") or b.op in ("mattr", "new"):
                    return T("slice", b, lo, hi, (st.version(b), 0))
                return T("slice", b, lo, hi)
            return T("slice3", b, lo, hi, step)
        if (b, ("item", k)) in st.heap:
            return st.heap[(b, ("item", k))]
        if b.op in ("tuple", "list") and tm.numval(k) is not None:
            i = tm.numval(k)
            if -len(b.args) <= i < len(b.args):
                return b.args[i]
        if b.op == "nt" and tm.numval(k) is not None and tm.numval(k) < len(b.args[1]):
            return b.args[1][tm.numval(k)][1]
        if b.op == "dictlit":
            for kk, v in b.args[0]:
                if kk is k:
                    return v
        if b.op == "slice" and len(b.args) == 3 and b.args[1] is not NONE and tm.numval(k) is not None and tm.numval(k) >= 0:
            return T("sub", b.args[0], tm.add(b.args[1], k))
        if self.extclass(b):
            return T("sub", b, k, (st.version(b), st.epoch))
        return T("sub", b, k)

    def e_Subscript(self, e, st, ctx):
        out = []
        for x, b in self.ev(e.value, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
                continue
            for y, k in self.ev_index(e.slice, x, ctx):
                if y.stop is None:
                    if st.trys and not isinstance(e.slice, ast.Slice):
                        pre = self.may_raise(y, "sub", e)
                        if pre and k.op == "mu" and k.args[1] == "#" and b.op in ("attr", "param") and not self.extclass(b) and \
                                not any({"KeyError", "LookupError", "TypeError", "Exception", "BaseException"} & hs for hs in y.trys):
                            # only IndexError is caught: a counter is past the end of the sequence
                            r = tm.lt(k, T("call", "len", (b,), (), 0))
                            pre = [z for z in pre if z.lits.assume(r, False, e)]
                            if not y.lits.assume(r, True, e):
                                out.extend((z, NONE) for z in pre)
                                continue
                        out.extend((z, NONE) for z in pre)
                    c = self.typeof(b)
                    if c is not None and c.find("__getitem__") is not None and b.op != "self":
                        ev = self.event(y, "call", e, ctx, recv=b, name="__getitem__", args=(k,))
                        ev.result = T("meth", b, "__getitem__", (k,), (), y.uid())
                        out.append((y, ev.result))
                    else:
                        r = self.subscript(y, b, k)
                        if r.op == "slice" and (is_self_field(b)):
                            self.event(y, "slice", e, ctx, recv=b).result = r
                        out.append((y, r))
                else:
                    out.append((y, NONE))
        return out

    def e_Slice(self, e, st, ctx):
        return self.ev_index(e, st, ctx)

    def e_Await(self, e, st, ctx):
        out = []
        n0 = st.nev
        for x, v in self.ev(e.value, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
                continue
            out.extend(self.await_(x, v, e, ctx))
        return out

    def await_(self, st, v, node, ctx):
        if v.op == "coro":
            func, argterms, selfobj, cls, frame = self.coro_table[v]
            return self.exec_func(st, ctx, func, argterms, node, selfobj, cls, frame)
        # mark the call event that produced v as awaited
        e = st.ev
        hit = None
        steps = 0
        while e is not None and steps < 4:
            if e[1].kind == "call" and e[1].result is v:
                hit = e[1]
                break
            e = e[0]
            steps += 1
        if hit is not None and not hit.awaited:
            hit.awaited = True
        res = []
        res.extend((y, NONE) for y in self.may_raise(st, "call", node))
        self.event(st, "await", node, ctx, recv=v)
        self.invalidate(st)
        r = T("res", v, st.uid()) if not (v.op in ("meth", "call") and v.args[-1]) else v
        res.append((st, r))
        return res

    def e_Yield(self, e, st, ctx):
        if e.value is None:
            vs = [(st, NONE)]
        else:
            vs = self.ev(e.value, st, ctx)
        out = []
        for x, v in vs:
            if x.stop is not None:
                out.append((x, NONE))
            elif ctx.on_yield is not None:
                for y in ctx.on_yield[0](x, v, ctx):
                    out.append((y, NONE))
            else:
                self.event(x, "yield", e, ctx, value=v)
                self.invalidate(x)
                out.append((x, NONE))
        return out

    def e_YieldFrom(self, e, st, ctx):
        out = []
        for x, v in self.ev(e.value, st, ctx):
            if x.stop is None:
                self.event(x, "yield", e, ctx, value=T("from", v))
            out.append((x, NONE))
        return out

    # ---- comprehensions
    def comp(self, e, st, ctx, kind):
        """comprehension as a value: element terms over a bound index"""
        gens = e.generators
        x = st.fork()
        frame = x.frames[ctx.frame]
        doms = []
        ok = True
        for i, g in enumerate(gens):
            r = self.ev(g.iter, x, ctx)
            if len(r) != 1 or r[0][0].stop is not None:
                ok = False
                break
            x, it = r[0]
            items = self.literal_items(it)
            if items is not None and i == 0 and len(gens) == 1 and kind in ("list", "set", "tuple", "gen", "dict"):
                return self.comp_unroll(e, items, st, ctx, kind)
            mu = T("bound", f"{ctx.func.module.name}:{e.lineno}:{e.col_offset}", i)
            if it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 1:
                val = mu
            elif it.op == "call" and it.args[0] == "enumerate":
                val = T("tuple", mu, T("sub", it.args[1][0], mu))
            elif it.op == "call" and it.args[0] == "zip":
                val = T("tuple", *[T("sub", b, mu) for b in it.args[1]])
            else:
                val = T("sub", it, mu)
            rr = self.assign(g.target, val, x, ctx, e)
            x = rr[0]
            conds = []
            for c in g.ifs:
                r = self.ev(c, x, ctx)
                if len(r) != 1:
                    ok = False
                    break
                conds.append(tm.truthy(r[0][1]))
            doms.append((it, tuple(conds)))
        if ok:
            n0 = x.nev
            elts = [e.key, e.value] if kind == "dict" else [e.elt]
            r = self.evs(elts, x, ctx)
            if len(r) == 1 and r[0][0].stop is None and r[0][0].nev == n0:
                return [(st, T("comp", kind, tuple(r[0][1]), tuple(doms)))]
        # not a pure value: opaque, but keep its events as if in a loop
        lid = f"comp:{ctx.func.module.name}:{e.lineno}:{e.col_offset}"
        saved = st.loops
        st.loops = st.loops+(lid,)
        cur = [st]
        for g in gens:
            nxt = []
            for s in cur:
                for y, it in self.ev(g.iter, s, ctx):
                    if y.stop is None:
                        nxt.extend(self.assign(g.target, T("sub", it, T("mu", lid, "#")), y, ctx, e))
                    else:
                        nxt.append(y)
            cur = nxt
        out = []
        for s in cur:
            if s.stop is not None:
                out.append((s, NONE))
                continue
            for y, vs in self.evs([e.key, e.value] if kind == "dict" else [e.elt], s, ctx):
                y.loops = saved
                out.append((y, T("comp", kind, tuple(vs), (T("opaque", lid, 0, 0),))))
        return out

    def comp_unroll(self, e, items, st, ctx, kind):
        g = e.generators[0]
        cur = [(st, [])]
        for v in items:
            nxt = []
            for x, acc in cur:
                if x.stop is not None:
                    nxt.append((x, acc))
                    continue
                for y in self.assign(g.target, v, x, ctx, e):
                    states = [y]
                    for c in g.ifs:
                        n2 = []
                        for z in states:
                            for q, cv in self.ev(c, z, ctx):
                                k = q.lits.truth(cv)
                                if k is None:
                                    w = q.fork()
                                    if w.lits.assume(cv, False, e):
                                        nxt.append((w, acc))
                                    if q.lits.assume(cv, True, e):
                                        n2.append(q)
                                elif k:
                                    n2.append(q)
                                else:
                                    nxt.append((q, acc))
                        states = n2
                    for z in states:
                        if kind == "dict":
                            for q, vs in self.evs([e.key, e.value], z, ctx):
                                nxt.append((q, acc+[tuple(vs)]))
                        else:
                            for q, ev in self.ev(e.elt, z, ctx):
                                nxt.append((q, acc+[ev]))
            cur = nxt
        out = []
        for x, acc in cur:
            if kind == "dict":
                out.append((x, T("dictlit", tuple(acc))))
            else:
                out.append((x, T("tuple" if kind in ("gen", "tuple") else "list", *acc)))
        return out

    def e_ListComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "list")

    def e_SetComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "set")

    def e_GeneratorExp(self, e, st, ctx):
        return self.comp(e, st, ctx, "gen")

    def e_DictComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "dict")

    # ------------------------------------------------------------------ calls
    def is_log(self, e):
        """self.log.xxx(...) and logging.xxx(...): no effect on behaviour"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            names = []
            x = e.func
            while isinstance(x, ast.Attribute):
                names.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                names.append(x.id)
            return e.func.attr in ("debug", "info", "warning", "error", "critical", "exception", "log") and \
                any(n in ("log", "logger", "logging", "_log", "_logger") for n in names[1:])
        return False

    def e_Call(self, e, st, ctx):
        if self.is_log(e):
            return [(st, NONE)]
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            out = []
            for x, args, kw in self.callargs(e, st, ctx):
                if x.stop is None:
                    self.event(x, "print", e, ctx, args=tuple(args))
                out.append((x, NONE))
            return out
        # super().m(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) \
                and e.func.value.func.id == "super":
            return self.super_call(e, st, ctx)
        out = []
        if isinstance(e.func, ast.Attribute):
            for x, b in self.ev(e.func.value, st, ctx):
                if x.stop is not None:
                    out.append((x, NONE))
                    continue
                for y, args, kw in self.callargs(e, x, ctx):
                    if y.stop is not None:
                        out.append((y, NONE))
                        continue
                    out.extend(self.method_call(y, ctx, b, e.func.attr, args, kw, e))
            return out
        for x, f in self.ev(e.func, st, ctx):
            if x.stop is not None:
                out.append((x, NONE))
                continue
            for y, args, kw in self.callargs(e, x, ctx):
                if y.stop is not None:
                    out.append((y, NONE))
                    continue
                out.extend(self.call_value(y, ctx, f, args, kw, e))
        return out

    def callargs(self, e, st, ctx):
        """-> list of (state, [terms], [(name, term)]); '**' rest is kept under key '**'"""
        es = [a.value if isinstance(a, ast.Starred) else a for a in e.args]+[k.value for k in e.keywords]
        out = []
        for x, vs in self.evs(es, st, ctx):
            if x.stop is not None:
                out.append((x, [], []))
                continue
            args, kw = [], []
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    li = self.literal_items(v)
                    if v.op == "varargs":
                        args.extend(v.args[0])
                        args.append(T("star", v.args[1]))
                    elif v.op == "nt":
                        args.extend(q for _, q in v.args[1])
                    elif li is not None:
                        args.extend(li)
                    else:
                        args.append(T("star", v))
                else:
                    args.append(v)
            for k, v in zip(e.keywords, vs[len(e.args):]):
                if k.arg is None:
                    if v.op == "varkw":
                        kw.extend(v.args[0])
                        if v.args[1] is not T("tuple"):
                            kw.append(("**", v.args[1]))
                    elif v.op == "dictlit" and all(q.op == "const" for q, _ in v.args[0]):
                        kw.extend((q.args[0], z) for q, z in v.args[0])
                    else:
                        kw.append(("**", v))
                else:
                    kw.append((k.arg, v))
            out.append((x, args, kw))
        return out

    def super_call(self, e, st, ctx):
        out = []
        name = e.func.attr
        for y, args, kw in self.callargs(e, st, ctx):
            if y.stop is not None:
                out.append((y, NONE))
                continue
            cls = ctx.cls
            owner = ctx.func.cls or ctx.defcls
            f = cls.find_after(owner, name) if cls is not None and owner is not None else None
            if f is None:
                if name != "__init__":
                    self.event(y, "call", e, ctx, recv=T("super", owner.name if owner else ""), name=name, args=tuple(args), kwargs=tuple(kw))
                    if not (self.pkg and name.startswith("__")):
                        pass
                else:
                    self.event(y, "call", e, ctx, recv=T("super", owner.name if owner else ""), name=name, args=tuple(args), kwargs=tuple(kw))
                r = T("meth", T("super", owner.name if owner else ""), name, tuple(args), tuple(kw), y.uid())
                out.append((y, r))
                continue
            if f.is_async:
                out.append((y, self.coro(f, args, kw, ctx.selfobj, cls, None, y)))
            else:
                out.extend(self.call_func(y, ctx, f, [ctx.selfobj]+args, kw, e, selfobj=ctx.selfobj, cls=cls))
        return out

    coro_table = {}
    gen_table = {}

    def coro(self, f, args, kw, selfobj, cls, frame, st):
        t = T("coro", f.module.name+":"+f.qual+f":{f.node.lineno}", tuple(args), tuple(kw), selfobj, st.uid())
        Walker.coro_table[t] = (f, (list(([selfobj] if f.cls is not None and "staticmethod" not in f.deco else []))+list(args), kw), selfobj, cls, frame)
        return t

    def is_generator(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def can_inline(self, f, st, selfobj=None):
        if len(st.stack) > MAX_DEPTH or f in st.stack:
            return False
        if f.qual in self.noinline or f.name in self.noinline:
            return False
        if self.inline_hook is not None:
            r = self.inline_hook(f, st, selfobj)
            if r is not None:
                return r
        return True

    def method_call(self, st, ctx, b, name, args, kw, node):
        pkg = self.pkg
        # class-qualified: Cls.method(self, ...) or cls(...)-style constructors / classmethods
        if b.op == "cls":
            c = pkg.classes.get(b.args[0])
            if c is not None:
                f = c.find(name)
                if f is not None and self.can_inline(f, st):
                    if "classmethod" in f.deco:
                        return self.call_func(st, ctx, f, [b]+args, kw, node, selfobj=b, cls=c)
                    if "staticmethod" in f.deco:
                        return self.call_func(st, ctx, f, args, kw, node, selfobj=None, cls=c)
                    if args:
                        so = args[0]
                        if f.is_async:
                            return [(st, self.coro(f, args[1:], kw, so, self.typeof(so) or c, None, st))]
                        return self.call_func(st, ctx, f, args, kw, node, selfobj=so, cls=self.typeof(so) or c)
        if b.op == "ext" and b.args[0].startswith("module:"):
            return self.call_value(st, ctx, self.global_name(name, pkg.modules[b.args[0][7:]]), args, kw, node)
        if b.op == "ext":
            return self.call_value(st, ctx, T("ext", b.args[0]+"."+name), args, kw, node)
        c = self.typeof(b)
        if c is not None:
            r = None
            if (b, name) in st.heap:
                r = st.heap[(b, name)]
            elif c.find(name) is not None and not self._instance_attr(c, name):
                f = c.find(name)
                own = b.op == "self" or (b.op == "new" and c.kind == "plain" and b in st.fresh)
                if (own or self.inline_hook is not None) and self.can_inline(f, st, b):
                    if "staticmethod" in f.deco:
                        return self.call_func(st, ctx, f, args, kw, node, selfobj=None, cls=c)
                    if f.is_async:
                        return [(st, self.coro(f, args, kw, b, c, None, st))]
                    if self.is_generator(f):
                        return [(st, self.gen(f, args, kw, b, c, None, st))]
                    return self.call_func(st, ctx, f, [b]+args, kw, node, selfobj=b, cls=c)
                return self.opaque_method(st, ctx, b, name, args, kw, node)
            else:
                ca = self._class_attr(st, c, name) if not self._instance_attr(c, name) else None
                if ca is not None:
                    r = ca
                elif self._instance_attr(c, name):
                    rr = self.read_attr(st, ctx, b, name, node)
                    if len(rr) == 1:
                        r = rr[0][1]
            if r is not None:
                return self.call_value(st, ctx, r, args, kw, node)
        if b.op == "nt":
            c = pkg.classes.get(b.args[0])
            if c is not None and c.find(name) is not None:
                return self.call_func(st, ctx, c.find(name), [b]+args, kw, node, selfobj=b, cls=c)
        return self.opaque_method(st, ctx, b, name, args, kw, node)

    def qterm(self, st, b):
        return T("call", "qsize", (b,), (), (st.version(b), st.epoch))

    def opaque_method(self, st, ctx, b, name, args, kw, node):
        ec = self.extclass(b)
        own = self.typeof(b)
        own = own is not None and own.find(name) is not None
        if not own and name in ("empty", "qsize") and not args:
            q = self.qterm(st, b)
            return [(st, tm.not_(T("truthy", q)) if name == "empty" else q)]
        if not own and (name in PURE_METHODS or (name in QUEUE_READS and not args)):
            v = 0
            if name == "is_set" or name in QUEUE_READS or name == "items":
                v = (st.version(b), st.epoch)
            return [(st, T("meth", b, name, tuple(args), tuple(kw), v))]
        if name == "get" and (b.op == "dictlit" or ec in ("dict", "Counter", "defaultdict")):
            return [(st, T("meth", b, "get", tuple(args), tuple(kw), (st.version(b), st.epoch)))]
        out = [(y, NONE) for y in self.may_raise(st, "remove" if name in ("remove", "index") else "sub" if name == "pop" else "call", node)]
        if out and name in ("remove", "index") and len(args) == 1:
            # the search fails exactly when there is no such element
            r = T("in", args[0], b, (st.version(b), st.epoch) if self.extclass(b) or b.op == "mattr" else 0)
            out = [(y, x) for y, x in out if y.lits.assume(r, False, node)]
            if not st.lits.assume(r, True, node):
                return out
        e = self.event(st, "call", node, ctx, recv=b, name=name, args=tuple(args), kwargs=tuple(kw))
        r = T("meth", b, name, tuple(args), tuple(kw), st.uid())
        e.result = r
        st.ver[b] = st.version(b)+1
        for kk in [q for q in st.heap if q[0] is b and isinstance(q[1], tuple)]:
            del st.heap[kk]
        out.append((st, r))
        return out

    def gen(self, f, args, kw, selfobj, cls, frame, st):
        t = T("gen", f.qual, tuple(args), tuple(kw), selfobj, st.uid())
        Walker.gen_table[t] = (f, (([selfobj] if f.cls is not None and "staticmethod" not in f.deco else [])+list(args), kw), selfobj, cls, frame)
        return t

    def call_value(self, st, ctx, f, args, kw, node):
        if f.op == "fn":
            func, frame, selfobj, cls = self.fninfo(f)
            if func.name == "define_stream" or not self.can_inline(func, st, selfobj):
                return self.opaque_call(st, ctx, func.name, args, kw, node)
            if func.cls is not None and selfobj is not None:
                args = [selfobj]+args
            if func.is_async:
                return [(st, self.coro(func, args if func.cls is None else args[1:], kw, selfobj, cls, frame, st))]
            if self.is_generator(func):
                return [(st, self.gen(func, args if func.cls is None else args[1:], kw, selfobj, cls, frame, st))]
            return self.call_func(st, ctx, func, args, kw, node, selfobj=selfobj, cls=cls, frame=frame)
        if f.op == "cls":
            return self.construct(st, ctx, self.pkg.classes[f.args[0]], args, kw, node)
        if f.op == "ext":
            return self.ext_call(st, ctx, f.args[0], args, kw, node)
        e = self.event(st, "call", node, ctx, recv=f, name="()", args=tuple(args), kwargs=tuple(kw))
        r = T("call", f, tuple(args), tuple(kw), st.uid())
        e.result = r
        return [(y, NONE) for y in self.may_raise(st, "call", node)]+[(st, r)]

    def opaque_call(self, st, ctx, name, args, kw, node):
        pre = [(y, NONE) for y in self.may_raise(st, "call", node)]
        e = self.event(st, "call", node, ctx, name=name, args=tuple(args), kwargs=tuple(kw))
        r = T("call", name, tuple(args), tuple(kw), st.uid())
        e.result = r
        return pre+[(st, r)]

    def construct(self, st, ctx, c, args, kw, node):
        if c.kind in ("namedtuple", "dataclass") and c.find("__init__") is None:
            fields = []
            for k in reversed(c.mro()):
                fields.extend(k.fields)
            vals = []
            kwd = dict(kw)
            for i, (n, d) in enumerate(fields):
                if i < len(args):
                    vals.append((n, args[i]))
                elif n in kwd:
                    vals.append((n, kwd[n]))
                elif d is not None:
                    vals.append((n, self.const_expr(c.module, d)))
                else:
                    vals.append((n, T("missing", n)))
            e = self.event(st, "construct", node, ctx, name=c.name, value=T("nt", c.name, tuple(vals)))
            e.args, e.kwargs = tuple(args), tuple(kw)
            return [(st, T("nt", c.name, tuple(vals)))]
        if c.kind == "enum":
            if len(args) == 1:
                a = args[0]
                if a.op == "enum" and a.args[0] == c.name:
                    return [(st, a)]
                v = tm.numval(a)
                if v is not None:
                    for n in c.attrs:
                        t = self._enum(c, n)
                        if t is not None and t.args[2] == v:
                            return [(st, t)]
                e = self.event(st, "convert", node, ctx, name=c.name, args=tuple(args))
                return [(st, T("call", c.name, tuple(args), (), 0))]
        bound = []
        init = c.find("__init__")
        if init is not None:
            bound = self.bind_params(st, init, [NONE]+list(args), kw, defaults=True)[1:]
        t = T("new", c.name, f"{ctx.func.module.name}:{node.lineno}:{node.col_offset}:{len(st.stack)}", tuple(bound),
              st.uid() if st.loops or not self._in_init(ctx) else 0)
        st.fresh = st.fresh | {t}
        e = self.event(st, "new", node, ctx, name=c.name, args=tuple(args), kwargs=tuple(kw), result=t)
        if self.ctor_inline(c) and init is not None and self.can_inline(init, st, t):
            out = []
            for x, _ in self.call_func(st, ctx, init, [t]+list(args), kw, node, selfobj=t, cls=c):
                out.append((x, t))
            return out
        return [(st, t)]

    def _in_init(self, ctx):
        return getattr(self, "in_init", None) is not None

    def ctor_inline(self, c):
        return c.name in getattr(self, "ctor_inline_set", ())

    def ext_call(self, st, ctx, dotted, args, kw, node):
        name = dotted.split(".")[-1]
        if dotted in PURE_BUILTINS:
            return self.builtin(st, ctx, dotted, args, kw, node)
        if dotted == "setattr" and len(args) == 3 and args[1].op == "const":
            return [(s, NONE) for s in self.write_attr(st, ctx, args[0], args[1].args[0], args[2], node)]
        if dotted == "setattr":
            self.event(st, "set", node, ctx, recv=args[0], name=args[1] if len(args) > 1 else None, value=args[2] if len(args) > 2 else None)
            return [(st, NONE)]
        if dotted == "delattr" and len(args) == 2 and args[1].op == "const":
            self.event(st, "delattr", node, ctx, recv=args[0], name=args[1].args[0])
            return [(st, NONE)]
        if name in TRIGGERS:
            return [(st, T("call", name, tuple(args), tuple(kw), 0))]
        if name in MUTABLE_CTORS and dotted != name or name in ("Queue", "Event", "Counter", "deque", "defaultdict", "Lock"):
            t = T("new", name, st.uid(), tuple(args))
            st.fresh = st.fresh | {t}
            return [(st, t)]
        if dotted in PURE_EXT or name in ("get_sim_time", "getLogger", "isawaitable", "iscoroutine"):
            v = st.step if name == "get_sim_time" else 0
            return [(st, T("call", name, tuple(args), tuple(kw), v))]
        if dotted.startswith("int.") and name == "from_bytes":
            return [(st, T("call", "int.from_bytes", tuple(args), tuple(kw), 0))]
        if dotted.startswith(("int.", "bytes.", "math.", "operator.", "str.")):
            return [(st, T("call", dotted, tuple(args), tuple(kw), 0))]
        return self.opaque_call(st, ctx, dotted, args, kw, node)

    def builtin(self, st, ctx, name, args, kw, node):
        a = args
        if any(x.op == "star" for x in a):
            return [(st, T("call", name, tuple(a), tuple(kw), 0))]
        if name == "len" and len(a) == 1:
            x = a[0]
            if x.op in ("tuple", "list") and not any(y.op == "star" for y in x.args):
                return [(st, const(len(x.args)))]
            if x.op == "const" and isinstance(x.args[0], (bytes, str)):
                return [(st, const(len(x.args[0])))]
            if x.op == "call" and x.args[0] in ("bytes", "bytearray", "list", "tuple", "sorted") and len(x.args[1]) == 1 and \
                    not (x.args[0] in ("bytes", "bytearray") and tm.numval(x.args[1][0]) is not None):
                y = x.args[1][0]
                if y.op in ("tuple", "list"):
                    return [(st, const(len(y.args)))]
                if y.op == "lin":
                    return [(st, y)]
                return [(st, T("call", "len", (y,), (), 0))]
            c = self.typeof(x)
            if c is not None and c.find("__len__") is not None and x.op in ("self",):
                f = c.find("__len__")
                if self.can_inline(f, st):
                    return self.call_func(st, ctx, f, [x], {}, node, selfobj=x, cls=c)
            if self.extclass(x) or x.op == "mattr":
                return [(st, T("call", "len", (x,), (), (st.version(x), st.epoch)))]
            if x.op == "meth" and st.ver.get(x, 0):
                # an object taken out of a container whose own methods were called since
                return [(st, T("call", "len", (x,), (), ("m", st.ver[x])))]
            return [(st, T("call", "len", (x,), (), 0))]
        if name == "isinstance" and len(a) == 2:
            x, k = a
            ks = list(k.args) if k.op == "tuple" else [k]
            r = FALSE
            for q in ks:
                r = tm.or_(r, self.isinst(x, q))
            return [(st, r)]
        if name == "hasattr" and len(a) == 2:
            if a[1].op == "const":
                if (a[0], a[1].args[0]) in st.heap:
                    return [(st, TRUE)]
                if a[1] is NONE:
                    return [(st, FALSE)]
            return [(st, T("hasattr", a[0], a[1]))]
        if name == "getattr" and len(a) >= 2:
            if a[1].op == "const" and isinstance(a[1].args[0], str):
                if len(a) == 2:
                    return self.read_attr(st, ctx, a[0], a[1].args[0], node)
                k = st.lits.truth(T("hasattr", a[0], a[1]))
                if k is True or (a[0], a[1].args[0]) in st.heap:
                    return self.read_attr(st, ctx, a[0], a[1].args[0], node)
                if k is False:
                    return [(st, a[2])]
                return [(st, T("getattr", a[0], a[1], a[2]))]
            return [(st, T("getattr", *a))]
        if name in ("min", "max") and len(a) >= 2 and not kw:
            return [(st, tm.mnmx(name, a))]
        if name == "abs":
            return [(st, T("call", "abs", tuple(a), (), 0))]
        if name == "bool" and len(a) == 1:
            t = tm.truthy(a[0])
            return [(st, t)]
        if name == "int" and len(a) == 1:
            x = a[0]
            if tm.numval(x) is not None:
                return [(st, const(tm.numval(x)))]
            if x.op == "lin" or (x.op == "call" and x.args[0] == "int"):
                return [(st, x)]
            pre = []
            if any(y.op == "val" for y in tm.subterms(x)):
                # an X/Z value does not convert
                pre = [(y, NONE) for y in self.may_raise(st, "call", node)]
                e = self.event(st, "toint", node, ctx, value=x)
                e.guarded = bool(pre)
            return pre+[(st, T("call", "int", (x,), (), 0))]
        if name == "bytes" and len(a) == 1 and a[0].op == "call" and a[0].args[0] == "bytes":
            return [(st, a[0])]
        if name == "callable" and len(a) == 1:
            return [(st, T("callable", a[0]))]
        if name in ("list", "dict", "set", "bytearray") and not a and not kw:
            t = T("new", name, st.uid())
            st.fresh = st.fresh | {t}
            return [(st, t)]
        if name == "range":
            return [(st, T("call", "range", tuple(self.numstrip(x) for x in a), (), 0))]
        if name == "pow" and len(a) == 2 and tm.numval(a[0]) == 2:
            return [(st, tm.pow2(a[1]))]
        if name == "divmod" and len(a) == 2:
            return [(st, T("tuple", tm.floordiv(a[0], a[1]), tm.mod(a[0], a[1])))]
        if name in ("all", "any", "sum") and len(a) == 1 and a[0].op in ("tuple", "list"):
            if name == "all":
                return [(st, tm.and_(*a[0].args))]
            if name == "any":
                return [(st, tm.or_(*a[0].args))]
            r = ZERO
            for x in a[0].args:
                r = tm.add(r, x)
            return [(st, r)]
        v = 0
        if name in ("list", "bytes", "bytearray", "tuple", "sorted", "sum", "any", "all") and a and (self.extclass(a[0]) or a[0].op == "mattr"):
            v = (st.version(a[0]), st.epoch)
        return [(st, T("call", name, tuple(a), tuple(kw), v))]

    def isinst(self, x, k):
        kn = k.args[0].split(".")[-1] if k.op in ("cls", "ext") else None
        if kn is not None:
            if x.op == "new":
                c = self.pkg.classes.get(x.args[0])
                if c is not None:
                    return TRUE if c.is_sub(kn) else FALSE
                return TRUE if x.args[0] == kn else FALSE
            if x.op == "nt":
                c = self.pkg.classes.get(x.args[0])
                return TRUE if (c is not None and c.is_sub(kn)) or kn == "tuple" else FALSE
            if x.op == "const":
                v = x.args[0]
                n = type(v).__name__
                if kn in ("int", "str", "bytes", "list", "bool", "Event", "bytearray", "tuple"):
                    return TRUE if n == kn or (n == "bool" and kn == "int") else FALSE
        return T("isinstance", x, T("cls", kn) if kn else k)

    # ---- function bodies
    def bind_params(self, st, func, args, kw, defaults=True):
        """-> list of (name, term) for the declared parameters (varargs / kwargs last)"""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs+a.args]
        out = []
        args = list(args)
        kwd = {}
        rest = None
        for k, v in (kw.items() if isinstance(kw, dict) else kw):
            if k == "**":
                rest = v
            else:
                kwd[k] = v
        dflt = dict(zip(pos[len(pos)-len(a.defaults):], a.defaults))
        star = None
        if args and args[-1].op == "star":
            star = args.pop().args[0]
        for i, p in enumerate(pos):
            if i < len(args):
                out.append((p, args[i]))
            elif p in kwd:
                out.append((p, kwd.pop(p)))
            elif p in dflt:
                out.append((p, self.const_expr(func.module, dflt[p])))
            else:
                out.append((p, T("missing", p)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwd:
                out.append((x.arg, kwd.pop(x.arg)))
            elif d is not None:
                out.append((x.arg, self.const_expr(func.module, d)))
            else:
                out.append((x.arg, T("missing", x.arg)))
        if a.vararg:
            out.append((a.vararg.arg, T("varargs", tuple(args[len(pos):]), star if star is not None else T("tuple"))))
        if a.kwarg:
            out.append((a.kwarg.arg, T("varkw", tuple(kwd.items()), rest if rest is not None else T("tuple"))))
        elif kwd:
            out.append(("!extra", T("tuple", *[const(k) for k in kwd])))
        return out

    def call_func(self, st, ctx, func, args, kw, node, selfobj=None, cls=None, frame=None):
        if func in st.stack and func.cls is not None and func.name != "__init__" and st.stack.count(func) >= 2 or len(st.stack) > MAX_DEPTH:
            return self.opaque_call(st, ctx, func.qual, args, kw, node)
        return self.exec_func(st, ctx, func, (args, kw), node, selfobj, cls, frame)

    def exec_func(self, st, ctx, func, argterms, node, selfobj, cls, frame, on_yield=None):
        args, kw = argterms
        self.inlined.add(func)
        env = dict(self.bind_params(st, func, args, kw))
        n = len(st.frames)
        saved_stack = st.stack
        st.frames.append(env)
        st.stack = st.stack+(func,)
        c = Ctx(func, cls, n, selfobj)
        c.closure = frame
        c.defcls = ctx.defcls or ctx.func.cls
        c.on_yield = on_yield
        loops = st.loops
        out = []
        for x in self.block(func.node.body, st, c):
            v = NONE
            if x.stop is not None and x.stop[0] == "return":
                v = x.stop[1]
                x.stop = None
            elif x.stop is not None and x.stop[0] in ("break", "continue"):
                raise AnalysisError("loop control escaped a function")
            if x.stop is None or x.stop[0] in ("raise", "genbreak", "genreturn"):
                del x.frames[n:]
                x.stack = saved_stack
                if x.stop is None:
                    x.loops = loops
            out.append((x, v))
        return out


class Ctx:
    __slots__ = ("func", "cls", "frame", "selfobj", "closure", "nonlocals", "defcls", "on_yield")

    def __init__(self, func, cls, frame, selfobj):
        self.func = func
        self.cls = cls
        self.frame = frame
        self.selfobj = selfobj
        self.closure = None
        self.nonlocals = set()
        self.defcls = func.cls
        self.on_yield = None
