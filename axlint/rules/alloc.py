"""Buddy allocator (C25): blocks as resources.  Every straight piece of alloc and free is checked to hand on exactly the blocks it takes: a block leaves
one free list and either becomes an allocation or is replaced by its two halves; a freed block enters one free list or is joined with its buddy."""

from . import prop, assume
from ..core import *
from .. import eqv
from .loops import *
from .spaces import self_attr

SMALL = ([0, 1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3, 4], [0, 1, 2, 3, 5, 8, 9, 16, 17], [1, 4, 5, 7, 16, 31, 32, 33], [2, 3, 6, 12, 20])


class Heap:
    """the attributes of the allocator and accesses to them"""

    def __init__(self, an, c):
        self.an, self.c = an, c
        self.me = T("self", c.name)
        ini = c.find("__init__")
        self.ini = ini
        names = {"lists": None, "allocs": None}
        st = {}
        for p in finals(an.walk(c, ini)):
            for s in p.sets():
                if s.recv.op == "self":
                    st[s.name] = s.value
        for k, v in st.items():
            if v.op == "dict" or v.op == "new" and v.args[0] in ("dict", "defaultdict"):
                names["allocs"] = k
            elif v.op in ("comp", "list", "rep", "concat") or v.op == "new" and v.args[0] == "list":
                names["lists"] = k
        if None in names.values():
            raise AnalysisError("free lists or allocations of the allocator not recognised")
        self.fl, self.al = names["lists"], names["allocs"]
        self.FL = T("attr", self.me, self.fl)
        self.AL = T("attr", self.me, self.al)
        d = an.walker().init_summary(c)
        self.m = {}
        for n, t in ((self.fl, self.FL), (self.al, self.AL)):
            if d.get(n) is not None:
                self.m[d[n]] = t
                self.m[norm(d[n])] = t
        self.S = self_attr(an, c, "size")
        self.MIN = self_attr(an, c, "min_alloc")

    def n(self, t):
        t = tm.subst(t, lambda x: self.m.get(x))
        t = norm(t)
        return tm.subst(t, lambda x: self.m.get(x))

    def list_of(self, t):
        """bucket term when t is one of the free lists"""
        if t.op == "sub" and t.args[0] is self.FL:
            return t.args[1]
        return None

    def effects(self, p):
        """[(kind, bucket or None, block, event)] in order: take / put on the free lists, claim / release in the allocations; None if not understood"""
        out = []
        for e in p.events:
            if e.recv is None:
                continue
            r = self.n(e.recv)
            b = self.list_of(r)
            if b is not None and e.kind == "call":
                if e.name == "remove":
                    out.append(("take", b, self.n(e.args[0]), e))
                elif e.name == "pop":
                    out.append(("take", b, self.n(e.result), e))
                elif e.name == "append":
                    out.append(("put", b, self.n(e.args[0]), e))
                elif e.name == "insert":
                    out.append(("put", b, self.n(e.args[1]), e))
                elif e.name in ("sort", "index", "count", "reverse"):
                    pass
                elif e.name == "clear":
                    out.append(("lose", b, NONE, e))
                else:
                    return None
            elif b is not None and e.kind == "delitem":
                out.append(("take", b, T("sub", r, self.n(e.name)), e))
            elif b is not None and e.kind == "setitem":
                return None
            elif r is self.AL and e.kind == "setitem":
                out.append(("claim", self.n(e.value), self.n(e.name), e))
            elif r is self.AL and e.kind == "delitem":
                out.append(("release", None, self.n(e.name), e))
            elif r is self.AL and e.kind == "call" and e.name == "pop":
                out.append(("release", None, self.n(e.args[0]), e))
            elif r is self.AL and e.kind == "call" and e.name not in ("get", "keys", "items", "values"):
                return None
            elif r is self.FL and e.kind in ("call", "setitem", "delitem") and e.name not in ("index",):
                return None
            elif e.kind == "set" and r.op == "self" and e.name in (self.fl, self.al):
                return None
        return out

    def lits(self, p):
        return [(self.n(t), v) for t, v, _ in p.order]


def arith(lits):
    """literals a small grid can decide"""
    return [(t, v) for t, v in lits if not any(x.op in ("in", "comp", "isinstance", "meth") and not (x.op == "meth" and x.args[1] == "bit_length") for x in tm.subterms(t))]


def sub_mu(t, loop, m):
    return tm.subst(t, lambda x: m.get(x.args[1]) if x.op == "mu" and x.args[0] == loop else None)


def facts_about(X, FLB):
    """conditions known of a block picked from a filtered list: [(cond over X, True)]"""
    out = []
    for t in tm.subterms(X):
        if t.op == "comp" and len(t.args[2]) == 1 and isinstance(t.args[2][0], tuple):
            it, conds = t.args[2][0]
            el = t.args[1][0]
            if it is FLB and el.op == "sub" and el.args[0] is it:
                for cnd in conds:
                    out.append((tm.subst(cnd, lambda x: X if x is el else None), True))
    return out


@prop("C25")
def buddy(an, rep):
    rep.rule("init", "the free lists start with exactly one block, at 0 in the last list, whose size covers the managed range; every list is its own object")
    rep.rule("alloc", "a block is handed out only after it was taken from a free list; it is recorded with its list, starts where returned, covers the size asked for and ends inside the range")
    rep.rule("split", "splitting a block keeps one half and puts the other half on the next smaller list; the block kept is never smaller than asked for")
    rep.rule("search", "allocation fails only when no list holds a block that fits, and changes nothing when it fails")
    rep.rule("free", "only an allocated block is freed, exactly once; it is joined with its buddy as long as that is free, and put on the list of its size otherwise")
    c = an.cls("BuddyAllocator")
    h = Heap(an, c)
    _init(an, rep, c, h)
    _alloc(an, rep, c, h)
    _free(an, rep, c, h)


def _init(an, rep, c, h):
    w = an.where(h.ini)
    sp = T("param", h.ini.qual, "size")
    for p in finals(an.walk(c, h.ini)):
        v = None
        for s in p.sets():
            if s.recv.op == "self" and s.name == h.fl:
                v = s.value
        if v is None:
            rep.bad("init", w, "the free lists are not set up")
            continue
        # number of empty lists, then the list of the whole range
        cnt = None
        own = True
        whole = None
        base = v
        if base.op == "concat":
            base, tail = base.args
            if tail.op == "list" and len(tail.args) == 1:
                whole = tail.args[0]
        if base.op == "comp" and len(base.args[2]) == 1 and not base.args[2][0][1] and len(base.args[1]) == 1:
            el = base.args[1][0]
            it = base.args[2][0][0]
            if it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 1 and (el.op == "new" or el.op == "list" and not el.args):
                cnt = it.args[1][0]
        elif base.op == "rep":
            own = False
            cnt = base.args[1]
        elif base.op == "list" and not base.args or base.op == "new":
            cnt = ZERO
        if cnt is None:
            rep.unk("init", w, "construction of the free lists not recognised")
            continue
        rep.check("init", w, own, "all free lists are one and the same list object")
        n = 0
        other = 0
        for e in p.events:
            if e.kind == "call" and e.recv is v and e.name == "append" and not e.loops:
                if whole is None and n == 0:
                    whole = e.args[0]
                n += 1
            elif e.recv is not None and tm.contains(e.recv, v):
                if e.kind == "call" and e.name == "append" and e.recv.op == "sub" and e.args[0] is ZERO and whole is None and not n:
                    # block put on the last of the lists
                    i = e.recv.args[1]
                    last = i is const(-1) or norm(i) is norm(tm.sub_(cnt, ONE))
                    rep.check("init", w, last, "the whole range is not on the last list")
                    whole = T("list", ZERO)
                    cnt = tm.sub_(cnt, ONE)
                else:
                    other += 1
        if other or n > 1 or whole is None:
            rep.check("init", w, None if other or whole is not None else False, "the free lists are not set up with one block")
            continue
        z = whole
        rep.check("init", w, z.op == "list" and z.args == (ZERO,) or (None if z.op not in ("list",) else False), f"the first free block is {tm.show(z)}")
        cnt = norm(cnt)
        r = eqv.implies([(tm.lt(ZERO, sp), True)], tm.not_(tm.lt(tm.pow2(cnt), sp)), n=600, domains=SMALL)
        rep.check("init", w, r, f"the last list holds blocks of 2**{tm.show(cnt)} bytes, less than the range")


def _alloc(an, rep, c, h):
    f = an.method(c, "alloc")
    w = an.where(f)
    req = T("param", f.qual, f.node.args.args[1].arg)
    ps = an.walk(c, f)
    S = h.S
    need = [(tm.lt(ZERO, S), True), (tm.lt(h.MIN, ONE), False)]
    fs = finals(ps)
    if not fs:
        rep.unk("alloc", w, "no allocation path")
        return
    for p in ps:
        ef = h.effects(p)
        if ef is None:
            rep.unk("alloc", w, "change of the free lists not recognised")
            return
        if p.kind == "raise":
            rep.check("search", w, not ef, "a failing allocation takes or splits blocks")
    splits = {}
    for p in ps:
        if p.kind != "backedge":
            continue
        own = [x for x in h.effects(p) if x[3].loops and x[3].loops[-1] == p.end[1]]
        for x in own:
            splits.setdefault(p.end[1], {})[p] = [y for y in own]
    for p in fs:
        ef = h.effects(p)
        takes = [x for x in ef if x[0] == "take"]
        claims = [x for x in ef if x[0] == "claim"]
        if len(takes) != 1:
            rep.bad("alloc", w, f"{len(takes)} blocks are taken from the free lists for one allocation")
            continue
        if len(claims) != 1:
            rep.bad("alloc", w, f"an allocation is recorded {len(claims)} times")
            continue
        if any(x[0] in ("release",) for x in ef):
            rep.bad("alloc", w, "another allocation is released")
            continue
        _, B, X, te = takes[0]
        _, V, K, ce = claims[0]
        FLB = T("sub", h.FL, B)
        # taken block comes from that list
        lits = h.lits(p)
        rep.check("alloc", w, h.n(p.value) is K, "the address returned is not that of the block recorded")
        facts = facts_about(X, FLB)
        al = arith([(tm.subst(t, lambda x: T("sym", "X") if x is X else None), v) for t, v in lits+facts])
        Xs = T("sym", "X")
        r = eqv.implies(al+need+[(tm.lt(Xs, ZERO), False)], tm.and_(tm.not_(tm.lt(Xs, ZERO)), tm.not_(tm.lt(S, tm.add(Xs, req)))), n=3000, domains=SMALL)
        rep.check("alloc", w, r, "a block is handed out that ends past the managed range")
        r = eqv.implies([(t, v) for t, v in al if eqv.atoms(t) <= {req, S, h.MIN}]+need, tm.and_(tm.lt(ZERO, req), tm.not_(tm.lt(S, req))), n=1500, domains=SMALL)
        rep.check("alloc", w, r, "a size outside 1..size is accepted")
        # loops: search and split
        L2 = [l for l in splits if l in p.linit and any(x[0] == "put" for ys in splits[l].values() for x in ys)]
        puts = [x for x in ef if x[0] == "put"]
        if len(L2) > 1 or puts:
            rep.unk("split", w, "splitting not recognised")
            continue
        # list the search ends with
        lo = _search(an, rep, w, h, ps, p, B, X, req, need)
        if lo is None:
            rep.unk("split", w, "search not recognised")
            continue
        if not L2:
            rep.check("split", w, V is B and K is X, "a block is recorded with another list or address than it was taken with")
            r = eqv.implies(arith(lits)+need+[(tm.lt(ZERO, req), True)], tm.not_(tm.lt(tm.pow2(lo), req)), n=1500, domains=SMALL)
            rep.check("split", w, r, "the block is smaller than asked for")
            continue
        L2 = L2[0]
        bp = splits[L2]
        allb = [q for q in loop_paths(ps, L2)]
        init = {k: h.n(v) for k, v in p.linit[L2].items()}
        first = next(iter(bp))
        for q in allb:
            ys = bp.get(q, [])
            if len(ys) != 1 or ys[0][0] != "put":
                rep.bad("split", w, "a split does not put exactly one half back")
                continue
            _, b1, y, _e = ys[0]
            H = tm.add(b1, ONE)                      # list of the block held when the iteration starts
            nx = {k: h.n(v) for k, v in q.end[2].items()}
            mus = {k: nx.get(k, T("mu", L2, k)) for k in init}
            rep.check("split", w, sub_mu(H, L2, init) is B, "splitting starts from another list than the block was taken from")
            rep.check("split", w, sub_mu(H, L2, mus) is b1, "after a split the block kept is not taken as half its size")
            K0 = sub_mu(K, L2, init)
            rep.check("split", w, K0 is X, "splitting starts from another block than the one taken")
            Kn = sub_mu(K, L2, mus)
            half = tm.pow2(b1)
            ok = Kn is K and y is tm.add(K, half) or Kn is tm.add(K, half) and y is K
            if not ok:
                ok = eqv.equal(T("tuple", Kn, y), T("tuple", K, tm.add(K, half)), n=400, domains=SMALL) is True or \
                    eqv.equal(T("tuple", y, Kn), T("tuple", K, tm.add(K, half)), n=400, domains=SMALL) is True
            rep.check("split", w, ok, f"the halves of a split block are {tm.show(Kn)[-30:]} and {tm.show(y)[-30:]}")
            # stays large enough: no split below the size asked for
            lq = arith(h.lits(q))
            r = eqv.implies([(t, v) for t, v in lq if not any(z.op == "comp" for z in tm.subterms(t))]+need+[(tm.lt(ZERO, req), True), (tm.lt(b1, ZERO), False)],
                            tm.not_(tm.lt(tm.pow2(b1), req)), n=3000, domains=SMALL)
            rep.check("split", w, r, "a block is split although its half is smaller than asked for")
            if q is first or True:
                lx = [(t, v) for t, v in arith(lits) if not any(z.op == "comp" for z in tm.subterms(t))]
                # the block held never gets smaller than where the search started
                hold = [(tm.lt(H, lo), False)]
                r = eqv.implies(lx+need+[(tm.lt(ZERO, req), True)]+hold, tm.eq(V, H), n=3000, domains=SMALL)
                rep.check("alloc", w, r, "the block is recorded with another list than that of its size")
        r = eqv.implies([(tm.lt(ZERO, req), True)]+need, tm.not_(tm.lt(tm.pow2(lo), req)), n=1500, domains=SMALL)
        rep.check("split", w, r, "the search starts with blocks smaller than asked for")


def _search(an, rep, w, h, ps, p, B, X, req, need):
    """the list the search starts from, after checking that it looks at every larger list until a block fits"""
    mus = [x for x in tm.subterms(B) if x.op == "mu"]
    if len(mus) != 1:
        return None
    L, k = mus[0].args
    m = mus[0]
    backs = loop_paths(ps, L)
    init = h.n(p.linit[L][k])
    if k == "#" and p.linit[L].get("#step") not in (None, ONE):
        return None
    lo = tm.subst(B, lambda x: init if x is m else None)
    for q in backs:
        nx = h.n(q.end[2].get(k, m))
        d = tm.sub_(nx, m)
        eff = [x for x in h.effects(q) if x[3].loops and x[3].loops[0] == L]
        if eff:
            rep.bad("search", w, "looking for a block changes the free lists")
        Bn = tm.subst(B, lambda x: nx if x is m else None)
        rep.check("search", w, tm.sub_(Bn, B) is ONE, "a list is left out of the search")
        # skipped only if nothing in it fits
        lq = h.lits(q)
        ok = None
        FLB = T("sub", h.FL, B)
        for t, v in lq:
            for x in tm.subterms(t):
                if x.op == "comp" and len(x.args[2]) == 1 and x.args[2][0][0] is FLB:
                    tv = q.lits.truth(_raw(q, h, x))
                    conds = x.args[2][0][1]
                    el = x.args[1][0]
                    sym = T("sym", "X")
                    cs = [tm.subst(cn, lambda z: sym if z is el else None) for cn in conds]
                    # a filter may only leave out blocks that do not fit
                    fit = tm.not_(tm.lt(h.S, tm.add(sym, tm.mnmx("max", (req, h.MIN)))))
                    g = need+[(tm.lt(ZERO, req), True), (tm.lt(sym, ZERO), False)]
                    good = all(eqv.implies(g+[(fit, True)], cn, n=2500, domains=SMALL) is True for cn in cs)
                    if not v and t.op == "truthy" and t.args[0] is x or v and t.op == "not":
                        ok = good
        if ok is None:
            for t, v in lq:
                if t.op == "truthy" and t.args[0] is FLB and v is False or t.op == "isnone" and v:
                    ok = True if t.op == "truthy" else None
        rep.check("search", w, ok, "a list holding a block that fits is passed over")
    for q in ps:
        if q.kind == "raise" and L in q.linit:
            lq = [(t, v) for t, v in h.lits(q)]
            n = T("call", "len", (h.FL,), (), 0)
            more = tm.lt(B, n)
            ok = (more, False) in lq or (tm.not_(more), True) in lq or any(v is True and t.op == "eq" and tm.contains(t, n) for t, v in lq)
            rep.check("search", w, ok or (None if not any(tm.contains(t, n) for t, v in lq) else False), "allocation fails before every list was looked at")
    return lo


def _raw(q, h, x):
    for t, v, _ in q.order:
        for y in tm.subterms(t):
            if h.n(y) is x:
                return T("truthy", y)
    return T("truthy", x)


def _free(an, rep, c, h):
    f = an.method(c, "free")
    w = an.where(f)
    addr = T("param", f.qual, f.node.args.args[1].arg)
    ps = an.walk(c, f)
    for p in ps:
        ef = h.effects(p)
        if ef is None:
            rep.unk("free", w, "change of the free lists not recognised")
            return
        unknown = p.kind == "raise" and (any(t.op == "in" and t.args[1] is h.AL and not v for t, v in h.lits(p)) or any(e.kind == "except" for e in p.events))
        if unknown:
            rep.check("free", w, not ef or all(x[0] == "release" and any(e.kind == "except" for e in p.events) for x in ef), "freeing an unknown block changes the free lists")
    for p in [q for q in ps if q.kind in ("return", "fall", "backedge")]:
        ef = h.effects(p)
        rel = [x for x in ef if x[0] == "release"]
        if len(rel) != 1:
            rep.bad("free", w, f"an allocation is released {len(rel)} times by one free")
            continue
        e = rel[0][3]
        rep.check("free", w, rel[0][2] is addr, "another allocation is released")
        known = any(t.op == "in" and t.args[0] is addr and t.args[1] is h.AL and v for t, v in h.lits(p))
        if e.kind == "call" and len(e.args) > 1 and not known:
            known = any(t.op == "isnone" and t.args[0] is h.n(e.result) and v is False for t, v in h.lits(p))
            rep.check("free", w, known, "a block that is not allocated is freed")
        else:
            rep.ok("free", w)
        if any(x[0] == "claim" for x in ef):
            rep.bad("free", w, "freeing records an allocation")
    loops = {q.end[1] for q in ps if q.kind == "backedge"}
    if len(loops) != 1:
        rep.unk("free", w, "loop over the lists not recognised")
        return
    L = loops.pop()
    AL0 = None
    for p in [q for q in ps if q.kind in ("return", "fall", "backedge")]:
        if L not in p.linit:
            rep.unk("free", w, "block freed without joining not recognised")
            continue
        ef = [x for x in h.effects(p) if x[0] in ("take", "put")]
        lits = h.lits(p)
        init = {k: h.n(v) for k, v in p.linit[L].items()}
        # which variables hold the block: from the paths that put it back
        held = None
        for q in finals(ps):
            qs = [x for x in h.effects(q) if x[0] == "put"]
            if len(qs) == 1:
                held = (qs[0][1], qs[0][2])
        if held is None:
            rep.bad("free", w, "the freed block is not put on a free list")
            return
        Bk, A = held
        rel = [x for x in h.effects(p) if x[0] == "release"]
        got = {h.n(rel[0][3].result)} if rel and rel[0][3].result is not None else set()
        B0, A0 = sub_mu(Bk, L, init), sub_mu(A, L, init)
        rep.check("free", w, B0 in got or B0.op == "sub" and B0.args[0] is h.AL and B0.args[1] is addr, "the freed block is taken for one of another size")
        rep.check("free", w, A0 is addr, "another block is freed")
        half = tm.pow2(Bk)
        k = T("sym", "k")
        al = lambda t: tm.subst(t, lambda x: tm.mul(k, half) if x is A else None)
        bud = tm.bxor(al(A), half) if hasattr(tm, "bxor") else None
        dom = ([0, 1, 2, 3, 4, 5, 6, 7],)
        G = [(al(t), v) for t, v in arith(lits) if tm.contains(t, A) or tm.contains(t, Bk)]
        G = [(t, v) for t, v in G if not any(x.op == "call" and x.args[0] == "len" for x in tm.subterms(t))]
        if eqv.equal(ZERO, ONE, given=G, n=400, domains=dom) is None:
            continue    # no aligned block satisfies the conditions of this path
        ins = [(t, v) for t, v in lits if t.op == "in" and h.list_of(t.args[1]) is not None]
        good = [(t, v) for t, v in ins if h.list_of(t.args[1]) is Bk and eqv.equal(al(t.args[0]), bud, given=G, n=400, domains=dom) is True]
        if ins and not good:
            rep.bad("free", w, f"the buddy of a block is taken to be {tm.show(ins[0][0].args[0])[:60]}")
            continue
        if p.kind == "backedge":
            if len(ef) != 1 or ef[0][0] != "take":
                rep.bad("free", w, "joining does not take exactly the buddy from its list")
                continue
            rep.check("free", w, bool(good) and good[0][1] is True or (None if any(e.kind == "except" for e in p.events) else False), "a block is joined although its buddy is not free")
            ok = ef[0][1] is Bk and (eqv.equal(al(ef[0][2]), bud, given=G, n=400, domains=dom) is True)
            rep.check("free", w, ok, "another block than the buddy is taken from the free lists")
            nx = {kk: h.n(p.end[2].get(kk, T("mu", L, kk))) for kk in init}
            rep.check("free", w, tm.sub_(sub_mu(Bk, L, nx), Bk) is ONE, "the joined block is not taken as twice the size")
            want = tm.mnmx("min", (al(A), bud))
            rep.check("free", w, eqv.equal(al(sub_mu(A, L, nx)), want, given=G, n=400, domains=dom), "the joined block does not start at the lower of the two")
        else:
            if len(ef) != 1 or ef[0][0] != "put":
                rep.bad("free", w, f"the freed block is put back {len([x for x in ef if x[0] == 'put'])} times")
                continue
            rep.check("free", w, ef[0][1] is Bk and ef[0][2] is A, "the block is put on another list than that of its size")
            n = T("call", "len", (h.FL,), (), 0)
            top = any(tm.contains(t, n) and not (t.op == "lt0" and v) for t, v in lits)
            rep.check("free", w, bool(good) and good[0][1] is False or (True if top else None if any(e.kind == "except" for e in p.events) else False),
                      "a block is put back without looking for its free buddy")
