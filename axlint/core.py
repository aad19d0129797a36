"""Obligation bookkeeping, cached walks and role discovery shared by the rules."""

import ast
import json
import os
import time

from . import terms as tm
from .terms import T, const, NONE, TRUE, FALSE, ZERO, ONE
from .model import Package, AnalysisError, Func, Class
from .walk import Walker, Lits, St, Path


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.items = []      # (rule, construct, status, message)
        self.rules = {}
        self.undecided = []
        self.walked = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, where, what=""):
        self.items.append((rid, str(where), "ok", what))

    def bad(self, rid, where, msg):
        it = (rid, str(where), "bad", msg)
        if it not in self.items:
            self.items.append(it)

    def unk(self, rid, where, why):
        self.items.append((rid, str(where), "unknown", why))

    def check(self, rid, where, cond, msg, what=""):
        """cond: True / False / None (not decided)"""
        if cond is None:
            self.unk(rid, where, msg)
        elif cond:
            self.ok(rid, where, what)
        else:
            self.bad(rid, where, msg)

    def count(self, status, rid=None):
        return sum(1 for r, _, s, _ in self.items if s == status and (rid is None or r == rid))


class An:
    """analysis context: one package, cached walks"""

    def __init__(self, root):
        self.pkg = Package(root)
        self.cache = {}
        self.npaths = 0
        self.nfuncs = set()
        self._hook = None

    def cls(self, name):
        return self.pkg.cls(name)

    def subclasses(self, name, concrete=True):
        out = []
        for c in self.pkg.classes.values():
            if c.is_sub(name) and c.name != name:
                out.append(c)
        return out

    def method(self, cls, name):
        if isinstance(cls, str):
            cls = self.cls(cls)
        f = cls.find(name)
        if f is None:
            p = cls.prop(name)
            if p:
                f = p.get("get")
        if f is None:
            raise AnalysisError(f"{cls.name}.{name} not found")
        return f

    def walk(self, cls, func, args=None, noinline=(), inline=None, key=None, max_states=None, ctor_inline=()):
        """paths of a method (name or Func) of a class (name or Class or None)"""
        if isinstance(cls, str):
            cls = self.cls(cls)
        if isinstance(func, str):
            func = self.method(cls, func)
        k = (cls.name if cls else None, id(func.node), tuple(sorted((args or {}).items(), key=lambda x: x[0])) if args else None,
             tuple(sorted(noinline)), key if inline is not None else None, tuple(sorted(ctor_inline)))
        if k in self.cache:
            return self.cache[k]
        w = Walker(self.pkg, inline=inline, noinline=noinline)
        if ctor_inline:
            w.ctor_inline_set = ctor_inline
        if max_states:
            w.max_states = max_states
        ps = w.run(func, cls, args=dict(args) if args else None)
        for p in ps:
            p.func = func
            p.cls = cls
            p.walker = w
        self.cache[k] = ps
        self.npaths += len(ps)
        self.nfuncs |= {f.module.name+":"+f.qual for f in w.inlined} | {func.module.name+":"+func.qual}
        return ps

    def walker(self):
        if not hasattr(self, "_w"):
            self._w = Walker(self.pkg)
        return self._w

    # ---- roles
    def reset_hook(self):
        """name of the method through which Reset tells a component about a reset change"""
        if self._hook is None:
            r = self.cls("Reset")
            best = None
            for n, f in r.methods.items():
                if n.startswith("__"):
                    continue
                k = sum(1 for c in self.subclasses("Reset") if n in c.methods)
                if k >= 3 and (best is None or k > best[0]):
                    best = (k, n)
            if best is None:
                raise AnalysisError("reset hook of class Reset not found")
            self._hook = best[1]
        return self._hook

    def hook_paths(self, cls, state):
        f = self.method(cls, self.reset_hook())
        ps = f.node.args.args[-1].arg
        return [p for p in self.walk(cls, f, args={ps: const(bool(state))}) if p.kind in ("return", "fall")]

    def is_start(self, e):
        return e.kind == "call" and isinstance(e.name, str) and e.name.split(".")[-1] in ("start_soon", "start", "fork", "create_task") and \
            e.args and e.args[0].op == "coro"

    def coro_func(self, t):
        return Walker.coro_table[t][0]

    def workers(self, cls):
        """[(Func, attr)] coroutines (re)started by the reset hook, with the attribute the task is kept in"""
        if isinstance(cls, str):
            cls = self.cls(cls)
        key = ("workers", cls.name)
        if key in self.cache:
            return self.cache[key]
        out = {}
        for p in self.hook_paths(cls, False):
            for e in p.events:
                if self.is_start(e):
                    f = self.coro_func(e.args[0])
                    attr = None
                    for s in p.sets():
                        if s.value is e.result and s.recv.op == "self":
                            attr = s.name
                    if f not in out or attr:
                        out[f] = attr
        res = sorted(out.items(), key=lambda x: (x[0].module.name, x[0].node.lineno))
        self.cache[key] = res
        return res

    def where(self, f, node=None):
        return f"{f.module.rel}:{(node or f.node).lineno} {f.qual}"


# ------------------------------------------------------------------ propositional helpers over path literals

def possible(lits, forms):
    """can the literals and the given (term, value) formulas hold together? (case splitting on path atoms)"""
    L = lits.copy()
    for t, v in forms:
        if not L.assume(t, v):
            return False
    return _sat(L, 0)


def _sat(L, depth):
    if depth > 40:
        return True
    for c, val in L.comp:
        vals = [L.truth(x) for x in c.args]
        if any(v is False for v in vals):
            continue
        un = [x for x, v in zip(c.args, vals) if v is None]
        if not un:
            return False
        x = un[0]
        for v in (False, True):
            M = L.copy()
            if M.assume(x, v) and _sat(M, depth+1):
                return True
        return False
    for t, v in list(L.d.items()):
        if t.op == "ite" or t.op == "or":
            pass
    return True


def entails(lits, t, v=True):
    return not possible(lits, [(t, not v)])


def equal_under(lits, a, b):
    """boolean terms a and b agree under the literals"""
    return not possible(lits, [(a, True), (b, False)]) and not possible(lits, [(a, False), (b, True)])


def finals(paths):
    return [p for p in paths if p.kind in ("return", "fall")]


def find_sub(t, pred):
    for x in tm.subterms(t):
        if pred(x):
            yield x


def attr_name(t):
    """name of the attribute a term reads, for attr/mattr terms"""
    if t is not None and t.op in ("attr", "mattr"):
        return t.args[1]
    return None


def is_self_attr(t, name=None):
    return t is not None and t.op in ("attr", "mattr") and t.args[0].op == "self" and (name is None or t.args[1] == name)


def strip_epoch(t):
    """identify reads of the same attribute / signal at different times"""
    def f(x):
        if x.op == "mattr":
            return T("attr", strip_epoch(x.args[0]), x.args[1])
        if x.op == "val":
            return T("val", strip_epoch(x.args[0]), 0)
        return None
    return tm.subst(t, f)


def boolify(lits, pred):
    """literals with the terms matching pred read as booleans"""
    def m(x):
        return T("truthy", x) if x.op in ("mattr", "attr", "param", "mu") and pred(x) else None
    L = Lits()
    for t, v, n in lits.order:
        if not L.assume(tm.subst(t, m), v, n):
            break
    return L


def boolterm(t, pred):
    return tm.subst(t, lambda x: T("truthy", x) if x.op in ("mattr", "attr", "param", "mu") and pred(x) else None)
