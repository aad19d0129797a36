"""AXI stream frames: serialisation and reassembly (C27), normal form, compaction and comparison (C28), completion signalling (C29)."""

from . import prop, assume
from ..core import *
from .. import eqv
from .loops import *
from .streams import (Roles, stream_components, worker_paths, is_clock_wait, outer_backedge, iteration_events, queue_gets, queue_puts, qattr,
                      clock_step)

SIDE = ("tid", "tdest", "tuser")
N = 6000


def axis_parts(an):
    out = []
    for kind, c in stream_components(an):
        if Roles(an, c).vname == "tvalid":
            out.append((kind, c))
    if not any(k == "source" for k, _ in out) or not any(k != "source" for k, _ in out):
        raise AnalysisError("AXI stream components not found")
    return out


def geometry(an, rep, c):
    """byte_mask == 2**byte_size-1 and byte_lanes*byte_size == width at the end of every constructor path"""
    f = c.find("__init__")
    w = an.where(f)+f" [{c.name}]"
    n = 0
    for p in finals(an.walk(c, f)):
        last = {}
        for s in p.sets():
            if s.recv.op == "self":
                last[s.name] = s.value
        need = ("byte_mask", "byte_size", "byte_lanes")
        if not all(k in last for k in need):
            rep.unk("geometry", w, "byte_size / byte_lanes / byte_mask are not set by the constructor")
            continue
        n += 1
        m, s, l = (last[k] for k in need)
        rep.check("geometry", w, eqv.equal(norm(m), norm(tm.sub_(tm.pow2(s), ONE)), n=300) is not False,
                  "byte_mask does not cover exactly byte_size bits")
        wd = None
        for x in tm.subterms(tm.add(norm(l), norm(s))):
            if x.op == "call" and x.args[0] == "len" and attr_name(x.args[1][0]) == "tdata":
                wd = x
        if wd is None:
            rep.unk("geometry", w, "width of tdata not used")
            continue
        G = [(norm(t), v) for t, v, _ in p.order if arith(t)]
        r = eqv.equal(tm.mul(norm(l), norm(s)), wd, given=G, n=N)
        rep.check("geometry", w, r is not False, "a configuration is accepted whose byte lanes do not exactly make up tdata")
    return n


def arith(t):
    return any(x.op in ("lt0", "eq", "mod", "floordiv") for x in tm.subterms(t))


def demask(an, c, t):
    """byte_mask in terms of byte_size"""
    def f(x):
        if x.op in ("attr", "mattr") and x.args[0].op == "self" and x.args[1] == "byte_mask":
            return tm.sub_(tm.pow2(T("attr", x.args[0], "byte_size")), ONE)
        return None
    return tm.subst(t, f)


def index_of(t, f, name):
    """index k when t (normalised) reads f.name[k] somewhere"""
    for x in tm.subterms(t):
        if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == name and x.args[0].args[0] is f:
            return x.args[1]
    return None


def frame_of(t, name):
    for x in tm.subterms(t):
        if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == name:
            return x.args[0].args[0]
    return None


def drives(p, ro):
    """bus values the path sets in the generic iteration"""
    out = {}
    for e in iteration_events(p):
        if e.kind == "set" and e.name == "value":
            n = ro.signame(e.recv)
            if n:
                out[n] = e
    return out


@prop("C27")
def serialise(an, rep):
    rep.rule("geometry", "the lane geometry a stream end computes is consistent: byte_mask covers byte_size bits and lanes x size make up tdata")
    rep.rule("lanes", "byte k0+j of the frame, masked to a lane, is what lane j of the beat carries, for the lanes loaded and no other")
    rep.rule("keep", "keep is bit 0 of the byte's keep value on its own lane and zero on lanes not loaded")
    rep.rule("sideband", "ID, destination and user value driven with a beat are those of a byte of that beat")
    rep.rule("count", "a beat takes as many bytes as there are lanes or bytes left; the next beat continues at the next byte, a new frame at byte 0")
    rep.rule("last", "last is driven high exactly on the beat that carries the last byte")
    n = 0
    for kind, c in axis_parts(an):
        geometry(an, rep, c)
        if kind != "source":
            continue
        ro = Roles(an, c)
        for f, ps in worker_paths(an, c):
            w = an.where(f)+f" [{c.name}]"
            for p in ps:
                if not outer_backedge(p):
                    continue
                d = drives(p, ro)
                v = d.get(ro.vname)
                if "tdata" not in d:
                    if v is not None and v.value is not ZERO and tm.truthy(v.value) is not FALSE:
                        rep.bad("lanes", w, "valid is driven high without data")
                    continue
                n += _beat(an, rep, c, ro, p, ps, d, w)
    if not n:
        raise AnalysisError("no transmit path found")


class Beat:
    """number of bytes a beat loads and the formula 'this is the last beat', with the path's knowledge about them"""
    pass


def _beat(an, rep, c, ro, p, ps, d, w, info=None):
    V = d["tdata"].value
    # lane loop: the loop whose variables feed tdata
    outer = next(iter(p.linit))
    L = None
    for x in tm.subterms(V):
        if x.op == "mu" and x.args[0] != outer:
            L = x.args[0]
    if L is None:
        for l in p.linit:
            if l != outer and any(tm.contains(V, T("mu", l, k)) for k in p.linit[l]):
                L = l
    if L is None:
        rep.unk("lanes", w, "tdata is not accumulated in a loop over lanes")
        return 1
    cl = Closed(ps, p, L)
    j = J(L)
    acc = [k for k in cl.var if tm.contains(V, cl.mus[k])]
    if len(acc) != 1:
        rep.unk("lanes", w, "tdata accumulator not recognised")
        return 1
    a = acc[0]
    if len(cl.var[a]) != 1:
        rep.unk("lanes", w, "tdata accumulator has several forms")
        return 1
    rep.check("lanes", w, cl.init[a] is ZERO, "lanes are accumulated on top of old data")
    X = cl.contrib(a)
    if X is None:
        rep.unk("lanes", w, "tdata accumulator not recognised")
        return 1
    # does the path leave inside an iteration (the accumulator is updated once more) or by exhaustion?
    inside = V is not cl.mus[a]
    if inside:
        X2 = split_acc(V, cl.mus[a])
        rep.check("lanes", w, None if X2 is None else cl.sub(X2) is X or eqv.equal(norm(cl.sub(X2)), norm(X)) is True,
                  "the last lane of a frame is not loaded like the others")
    Xn = demask(an, c, norm(X))
    F = frame_of(Xn, "tdata")
    if F is None:
        rep.unk("lanes", w, "byte of the frame not recognised")
        return 1
    k = index_of(Xn, F, "tdata")
    me = T("self", c.name)
    size = T("attr", me, "byte_size")
    lanes = T("attr", me, "byte_lanes")
    byte = T("sub", T("attr", F, "tdata"), k)
    want = tm.mul(tm.band(byte, tm.sub_(tm.pow2(size), ONE)), tm.pow2(tm.mul(size, j)))
    rep.check("lanes", w, eqv.equal(Xn, want, n=800), f"lane j carries {tm.show(Xn)[:120]}", "lane value")
    k0 = cl.at(k, ZERO)
    rep.check("count", w, tm.sub_(k, k0) is j, "consecutive lanes do not carry consecutive bytes")
    # number of lanes loaded
    flen = T("call", "len", (T("attr", F, "tdata"),), (), 0)
    def fl(t):
        # len(frame) is len(frame.tdata)
        return tm.subst(norm(t), lambda x: flen if x.op == "call" and x.args[0] == "len" and x.args[1] and x.args[1][0] is F else
                        tm.not_(tm.eq(flen, ZERO)) if x.op == "truthy" and x.args[0] is F else None)
    G = [(fl(cl.sub(t)), v) for t, v, _ in p.order if arith(cl.sub(t)) and not _strange(fl(cl.sub(t)), F, lanes, flen, j, k0)]
    G += [(tm.lt(k0, flen), True), (tm.lt(ZERO, lanes), True)]
    if k0 is not ZERO:
        G += [(tm.lt(k0, ZERO), False)]
    G += [(tm.lt(flen, ZERO), False)]
    ind = []
    for b in cl.back:
        ind.append([(fl(cl.sub(t)), v) for t, v, _ in b.order
                    if has_mu(t, L) and arith(t) and not _strange(fl(cl.sub(t)), F, lanes, flen, j, k0)])
    hi = cl.init.get("#hi")
    if inside:
        nl = tm.add(j, ONE)
        prev = tm.sub_(j, ONE)
        zero = tm.eq(j, ZERO)
        for g in ind[:1]:
            G += [(tm.or_(zero, cl.at(t, prev)) if v else tm.or_(zero, tm.not_(cl.at(t, prev))), True) for t, v in g]
        G += [(tm.lt(j, ZERO), False)]
    else:
        if hi is None:
            rep.unk("count", w, "bound of the lane loop not recognised")
            return 1
        nl = fl(hi)
        prev = tm.sub_(nl, ONE)
        for g in ind[:1]:
            G += [(cl.at(t, prev), v) for t, v in g]
        G = [(cl.at(t, nl), v) for t, v in G]
    left = tm.sub_(flen, k0)
    r = eqv.equal(nl, tm.mnmx("min", (lanes, left)), given=G, n=N)
    rep.check("count", w, r, "a beat does not load as many bytes as there are lanes or bytes left", "lanes loaded")
    # last
    lv = d.get("tlast")
    lastf = tm.not_(tm.lt(tm.add(k0, nl), flen))
    if info is not None:
        info.F, info.G, info.last, info.nl, info.k0, info.cl = F, G, lastf, nl, k0, cl
        return 1
    if lv is not None:
        t = lv.value
        t = fl(cl.before(t) if not inside else cl.sub(t))
        if any(x.op == "mu" and x.args[0] == L for x in tm.subterms(t)):
            rep.unk("last", w, "value of tlast not recognised")
        else:
            t = cl.at(t, nl) if not inside else t
            r = eqv.equal(tm.truthy(t), lastf, given=G, n=N)
            rep.check("last", w, r, "last is not driven high exactly on the beat with the last byte of the frame", "tlast")
    else:
        h = _has(p, ro, "tlast")
        rep.check("last", w, h is False, "a beat is driven without last")
    for nm in ("tkeep",)+SIDE:
        e = d.get(nm)
        rid = "keep" if nm == "tkeep" else "sideband"
        if e is None:
            rep.check(rid, w, _has(p, ro, nm) is False, f"{nm} is not driven although the signal exists")
            continue
        if nm == "tkeep":
            ks = [q for q in cl.var if tm.contains(e.value, cl.mus[q])]
            if len(ks) != 1 or len(cl.var[ks[0]]) != 1 or cl.contrib(ks[0]) is None:
                rep.unk(rid, w, "keep accumulator not recognised")
                continue
            rep.check(rid, w, cl.init[ks[0]] is ZERO, "keep is accumulated on top of old bits")
            if (e.value is cl.mus[ks[0]]) == inside:
                rep.bad(rid, w, "keep does not cover the lanes loaded")
            K = norm(cl.contrib(ks[0]))
            if inside and e.value is not cl.mus[ks[0]]:
                K2 = split_acc(e.value, cl.mus[ks[0]])
                rep.check(rid, w, None if K2 is None else eqv.equal(norm(cl.sub(K2)), K) is True, "keep of the last lane differs")
            kb = T("sub", T("attr", F, "tkeep"), k)
            r = eqv.equal(K, tm.mul(tm.band(kb, ONE), tm.pow2(j)), given=[(tm.lt(kb, const(2)), True), (tm.lt(kb, ZERO), False)], n=2000)
            rep.check(rid, w, r, f"keep bit of lane j is {tm.show(K)[:100]}", "keep bit")
        else:
            t = e.value
            t = norm(cl.before(t)) if not inside else norm(cl.sub(t))
            if not inside:
                t = cl.at(t, nl)
            g = frame_of(t, nm)
            ok = t.op == "sub" and t.args[0] is T("attr", F, nm)
            if not ok:
                if any(x.op == "mu" and x.args[0] == L for x in tm.subterms(t)):
                    rep.unk(rid, w, f"value of {nm} not recognised")
                else:
                    rep.bad(rid, w, f"{nm} driven is {tm.show(t)[:80]}, not the value of a byte of the beat")
                continue
            lastk = tm.sub_(tm.add(k0, nl), ONE)
            r = t.args[1] is k0 or eqv.equal(fl(t.args[1]), lastk, given=G, n=N) is not False
            rep.check(rid, w, r, f"{nm} driven with a beat belongs to a byte of another beat", nm)
    # continuation
    ov = None
    if k0.op == "mu" and k0.args[0] == outer:
        ov = k0.args[1]
    elif k0 is ZERO or k0.op == "const":
        for q, v in p.end[2].items():
            vv = fl(cl.sub(v))
            if not inside:
                vv = cl.at(vv, nl)
            if vv is tm.add(k0, nl):
                ov = q
    else:
        rep.unk("count", w, "start of the beat not recognised")
        return 1
    newf = bool([g for g in queue_gets(p) if g.result is not None and norm(g.result) is F])
    rep.check("count", w, newf == (k0 is ZERO) , "a new frame does not start at its first byte" if newf else "a frame in progress does not continue where it stopped")
    held = [q for q, v in p.end[2].items() if norm(cl.sub(v)) is F]
    if held:
        nx = [fl(cl.sub(v)) for q, v in p.end[2].items()]
        if not inside:
            nx = [cl.at(v, nl) for v in nx]
        want = tm.add(k0, nl)
        rs = [eqv.equal(v, want, given=G, n=2000) for v in nx if isinstance(v, tm.Term)]
        rep.check("count", w, True if True in rs else None if None in rs and any(v.op != "const" for v in nx if isinstance(v, tm.Term)) else False,
                  "the next beat does not continue after the bytes loaded", "continuation")
    return 1


def _has(p, ro, sig):
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if x.op == "hasattr" and ro.isbus(x.args[0]) and x.args[1].op == "const" and x.args[1].args[0] == sig:
                return p.lits.truth(x)
    return None


def _strange(t, F, lanes, flen, j, k0):
    """does t mention anything but the quantities the lane count depends on?"""
    for x in eqv.atoms(t):
        if x in (lanes, flen, j, k0) or x.op in ("mu",):
            continue
        if x.op == "attr" and x is T("attr", F, "tdata"):
            continue
        return True
    return False


@prop("C27")
def new_frame_offset(an, rep):
    """a frame taken from the queue but not started yet begins at byte 0"""
    rep.rule("start", "taking a frame from the queue rewinds the position within the frame; waiting leaves frame and position unchanged")
    for kind, c in axis_parts(an):
        if kind != "source":
            continue
        ro = Roles(an, c)
        for f, ps in worker_paths(an, c):
            w = an.where(f)+f" [{c.name}]"
            # the position variable of the outer loop: indexes frame bytes
            pos = set()
            for p in ps:
                if not p.linit:
                    continue
                outer = next(iter(p.linit))
                for l in p.linit:
                    if l == outer:
                        continue
                    cl = Closed(ps, p, l)
                    for k in cl.var:
                        for v in cl.var[k]:
                            for x in tm.subterms(v):
                                if x.op == "sub" and attr_name(x.args[0]) == "tdata":
                                    for y in tm.subterms(x.args[1]):
                                        if y.op == "mu" and y.args[0] == outer:
                                            pos.add(y.args[1])
            if len(pos) != 1:
                rep.unk("start", w, "position variable not found")
                continue
            pv = pos.pop()
            for p in ps:
                if not outer_backedge(p):
                    continue
                outer = next(iter(p.linit))
                if len(p.linit) > 1 and "tdata" in drives(p, ro):
                    continue
                g = list(queue_gets(p))
                nv = p.end[2].get(pv, T("mu", outer, pv))
                kept = any(x.result in p.end[2].values() for x in g)
                if kept:
                    rep.check("start", w, nv is ZERO, "a frame taken from the queue does not start at its first byte")
                elif not g:
                    same = all(v is T("mu", outer, q) for q, v in p.end[2].items() if q == pv or "frame" in q)
                    rep.check("start", w, same, "the frame in progress changes without a beat")


@prop("C27")
def reassemble(an, rep):
    rep.rule("unlanes", "lane j of an accepted beat, masked, is appended to the frame, for j over all lanes in order, exactly once")
    rep.rule("unkeep", "keep bit j of an accepted beat is appended for each lane when the signal exists")
    rep.rule("unside", "ID, destination and user value of an accepted beat are appended once per lane when the signals exist")
    rep.rule("wide", "lanes wider than 8 bits are collected in a list, since a byte array cannot hold them")
    n = 0
    for kind, c in axis_parts(an):
        if kind == "source":
            continue
        ro = Roles(an, c)
        me = T("self", c.name)
        size, lanes = T("attr", me, "byte_size"), T("attr", me, "byte_lanes")
        for f, ps in worker_paths(an, c):
            w = an.where(f)+f" [{c.name}]"
            seen = {}
            for p in ps:
                if not (p.linit and len(p.linit) > 1):
                    continue
                outer = next(iter(p.linit))
                ap = {}
                other = []
                for e in iteration_events(p):
                    if e.kind == "call" and e.name in ("append", "extend", "insert") and e.recv is not None and attr_name(e.recv) in ("tdata", "tkeep")+SIDE:
                        ap.setdefault(attr_name(e.recv), []).append(e)
                if p.kind == "backedge" and p.end[1] != outer:
                    L = p.end[1]
                    if "tdata" not in ap:
                        rep.bad("unlanes", w, "a lane is skipped")
                        continue
                    cl = Closed(ps, p, L)
                    j = J(L)
                    n += 1
                    hi = cl.init.get("#hi")
                    if "#" in cl.mus:
                        cnt = cl.map.get(cl.mus["#"])
                        rep.check("unlanes", w, None if hi is None else (cnt is j and norm(hi) is lanes and numstep(cl) == 1),
                                  "the loop does not run over all lanes in order")
                    G = [(tm.lt(j, ZERO), False), (tm.lt(size, ONE), False)]
                    val = lambda s: T("intval", s)
                    want = {"tdata": tm.mod(tm.shr(val("tdata"), tm.mul(size, j)), tm.pow2(size)),
                            "tkeep": tm.mod(tm.shr(val("tkeep"), j), const(2)),
                            "tid": val("tid"), "tdest": val("tdest"), "tuser": val("tuser")}
                    for nm in ("tdata", "tkeep")+SIDE:
                        es = ap.get(nm, [])
                        rid = "unlanes" if nm == "tdata" else "unkeep" if nm == "tkeep" else "unside"
                        h = True if nm == "tdata" else _has(p, ro, nm)
                        if h is None:
                            if es:
                                rep.bad(rid, w, f"{nm} is used without knowing that the signal exists")
                            else:
                                rep.unk(rid, w, f"presence of {nm} is not tested in the lane loop")
                            continue
                        if h is False:
                            rep.check(rid, w, all(not any(y.op == "val" and ro.signame(y.args[0]) == nm for y in tm.subterms(x.args[0]))
                                                  for x in es), f"{nm} is read although it does not exist")
                            continue
                        if len(es) != 1 or es[0].name != "append":
                            rep.check(rid, w, None if es and es[0].name == "extend" else False, f"{nm} of a lane is recorded {len(es)} times")
                            continue
                        v = demask(an, c, norm(cl.sub(es[0].args[0])))
                        if has_mu(v, L):
                            rep.unk(rid, w, f"value of {nm} recorded for a lane not recognised")
                            continue
                        r = eqv.equal(unint(v, ro), want[nm], given=G, n=1500)
                        rep.check(rid, w, r, f"{nm} recorded for a lane is {tm.show(v)[:100]}", nm)
                # wide
                for e in p.events:
                    if e.kind == "new" and e.recv is not None and e.recv.op == "new":
                        pass
                for t in {x for e in p.events for y in (e.recv,)+tuple(e.args) if isinstance(y, tm.Term) for x in tm.subterms(y) if x.op == "new"}:
                    al = ctor_args(an, p, t)
                    if al and "tdata" in al:
                        td = al["tdata"]
                        isba = td.op == "new" and td.args[0] == "bytearray" or td.op == "call" and td.args[0] in ("bytearray", "bytes") or \
                            td.op == "const" and isinstance(td.args[0], bytes)
                        if isba:
                            sz = T("attr", me, "byte_size")
                            ent = any(eqv.implies([(norm(t2), v2)], tm.eq(sz, const(8)) if False else tm.lt(sz, const(9)), n=300) is True
                                      for t2, v2, _ in p.order if tm.contains(norm(t2), sz))
                            rep.check("wide", w, ent, "lanes of any width are collected in a byte array")
            rep.check("unlanes", w, n > 0 or None, "lane loop not found")


def numstep(cl):
    s = cl.init.get("#step")
    return tm.numval(s) if s is not None else None


def unint(t, ro):
    """int(x) of a sampled value is the value"""
    def f(x):
        if x.op == "call" and x.args[0] == "int" and x.args[1][0].op == "val" and ro.signame(x.args[1][0].args[0]):
            return T("intval", ro.signame(x.args[1][0].args[0]))
        if x.op == "meth" and x.args[1] == "integer" or x.op == "attr" and x.args[1] == "integer":
            if x.args[0].op == "val" and ro.signame(x.args[0].args[0]):
                return T("intval", ro.signame(x.args[0].args[0]))
        if x.op == "val" and ro.signame(x.args[0]):
            return T("intval", ro.signame(x.args[0]))
        return None
    return tm.subst(t, f)


def ctor_args(an, p, t):
    for e in p.events:
        if e.kind == "new" and e.result is t:
            cn = t.args[0]
            try:
                f = an.cls(cn).find("__init__")
            except AnalysisError:
                return None
            if f is None:
                return None
            names = [a.arg for a in f.node.args.args][1:]
            out = dict(zip(names, e.args))
            out.update(dict(e.kwargs))
            return out
    return None


@prop("C27")
def receive_api(an, rep):
    rep.rule("api", "recv removes the bytes not kept (unless told not to); read returns the data of whole frames in order; write sends its data as one frame")
    for kind, c in axis_parts(an):
        if kind == "source":
            for m, tgt in (("write", "send"), ("write_nowait", "send_nowait")):
                f = an.method(c, m)
                for p in finals(an.walk(c, f, noinline=(tgt,))):
                    es = [e for e in p.calls(tgt)]
                    ok = len(es) == 1 and es[0].args and _wraps(es[0].args[0], [a.arg for a in f.node.args.args][1])
                    rep.check("api", an.where(f)+f" [{c.name}]", ok, f"{m} does not send exactly its data")
            continue
        for m in ("recv", "recv_nowait"):
            f = an.method(c, m)
            pn = [a.arg for a in f.node.args.args][1:]
            df = f.node.args.defaults
            dv = df[-1].value if df and hasattr(df[-1], "value") else None
            rep.check("api", an.where(f)+f" [{c.name}]", pn[-1:] == ["compact"] and dv is True or None, "compact is not the default")
            for cv in (True, False):
                for p in finals(an.walk(c, f, args={"compact": const(cv)})):
                    if p.value is None:
                        continue
                    k = [e for e in p.calls("compact") if e.recv is p.value]
                    rep.check("api", an.where(f)+f" [{c.name}]", len(k) == (1 if cv else 0),
                              "the frame returned is not compacted" if cv else "the frame returned is compacted although the caller asked for the raw frame")
    return


def _wraps(t, pn):
    if t.op == "param" and t.args[1] == pn or t.op == "param" and t.args[0] == pn:
        return True
    if t.op == "call" and t.args[0] in ("bytes", "bytearray", "list"):
        return _wraps(t.args[1][0], pn)
    return t.op == "new"


# ------------------------------------------------------------------ C29

def frame_class(an):
    for c in an.pkg.classes.values():
        f = c.find("__init__")
        if f is not None and any(a.arg == "tx_complete" for a in f.node.args.args):
            return c
    raise AnalysisError("frame class with a completion handler not found")


def completer(an, fc):
    """method of the frame class that signals completion"""
    for n, f in fc.methods.items():
        if n.startswith("__"):
            continue
        for p in an.walk(fc, f):
            for e in p.events:
                if e.kind == "call" and e.name == "set" and attr_name(e.recv) == "tx_complete":
                    return f
    raise AnalysisError("completion method of frames not found")


def comps(p, name):
    return [e for e in p.events if e.kind == "call" and e.name == name]


@prop("C29")
def completion(an, rep):
    rep.rule("signal", "signalling a frame sets its completion event with the frame or calls its completion callable with the frame, once, and does nothing else")
    rep.rule("carry", "copying a frame keeps its completion handler unless another one is given; sending copies the frame whole")
    rep.rule("once", "a frame taken from the queue is signalled exactly once, at the step in which the source lets go of it, and never while it is still held")
    rep.rule("when", "a frame is signalled with the beat that carries its last byte (or when it has no bytes), not before and not later")
    rep.rule("held", "the frame recorded as being sent is the one the source holds, at every wait, so that reset signals exactly it")
    rep.rule("clear", "clearing signals every frame removed from the queue once; reset signals the frame being sent once and forgets it")
    fc = frame_class(an)
    H = completer(an, fc)
    w = an.where(H)
    tx = None
    for p in finals(an.walk(fc, H)):
        sets = [e for e in p.events if e.kind == "call"]
        me = T("self", fc.name)
        ev = [e for e in sets if e.name == "set" and attr_name(e.recv) == "tx_complete"]
        ca = [e for e in sets if e.name == "()" and attr_name(e.recv) == "tx_complete"]
        aw = [e for e in p.events if e.kind == "set"]
        isev = iscall = None
        evt = None
        for t, v, _ in p.order:
            for x in tm.subterms(t):
                if x.op == "isinstance" and attr_name(x.args[0]) == "tx_complete":
                    isev = p.lits.truth(x)
                    evt = x
                if x.op == "callable" or x.op == "call" and x.args[0] == "callable":
                    iscall = p.lits.truth(x) if p.lits.truth(x) is not None else p.lits.truth(tm.truthy(x))
                if x.op == "isnone" and attr_name(x.args[0]) == "tx_complete" and p.lits.truth(x):
                    isev = iscall = False
        if isev is None and evt is not None and not ev and not ca and possible(p.lits, [(evt, True)]):
            rep.bad("signal", w, "a completion event is not set although it was given")
            continue
        if isev is None and iscall is None:
            rep.unk("signal", w, "kind of handler not tested")
            continue
        if isev:
            rep.check("signal", w, len(ev) == 1 and not ca and len(ev[0].args) == 1 and ev[0].args[0] is me, "a completion event is not set once with the frame")
        elif iscall:
            rep.check("signal", w, len(ca) == 1 and not ev and len(ca[0].args) == 1 and ca[0].args[0] is me, "a completion callable is not called once with the frame")
        elif isev is False and iscall is False:
            rep.check("signal", w, not ev and not ca, "an object that is no handler is called")
        else:
            rep.check("signal", w, not ev and (not ca or iscall is not False), "handler not recognised")
            if iscall is None and isev is False and not ca:
                rep.bad("signal", w, "a completion callable is not called")
    # copy
    f = fc.find("__init__")
    w = an.where(f)
    src = [a.arg for a in f.node.args.args][1]
    pt = T("param", "tx_complete") if False else None
    for p in finals(an.walk(fc, f)):
        last = None
        for s in p.sets("tx_complete"):
            if s.recv.op == "self":
                last = s.value
        iscopy = None
        given = None
        for t, v, _ in p.order:
            for x in tm.subterms(t):
                if x.op in ("typeis", "isinstance") and x.args[0].op == "param" and x.args[0].args[-1] == src and x.args[1].op == "cls":
                    iscopy = p.lits.truth(x)
                if x.op == "isnone" and x.args[0].op == "param" and x.args[0].args[-1] == "tx_complete":
                    k = p.lits.truth(x)
                    given = None if k is None else not k
                if x.op == "truthy" and x.args[0].op == "param" and x.args[0].args[-1] == "tx_complete":
                    k = p.lits.truth(x)
                    given = k if given is None else given
        if last is None:
            rep.bad("carry", w, "a frame is created without a completion attribute")
            continue
        fromparam = last.op == "param" and last.args[-1] == "tx_complete"
        fromsrc = attr_name(last) == "tx_complete" and last.args[0].op == "param"
        if given:
            rep.check("carry", w, fromparam, "the completion handler given is not kept")
        elif iscopy and given is False:
            rep.check("carry", w, fromsrc, "copying a frame loses its completion handler")
        elif given is False:
            rep.check("carry", w, last is NONE or fromparam, "a frame gets a completion handler nobody gave")
        elif iscopy is False:
            rep.check("carry", w, fromparam, "the completion handler given is not kept")
        else:
            rep.check("carry", w, None if last.op in ("ite", "vor", "vand") else False, "a handler given together with a frame to copy is not kept")
    n = 0
    for kind, c in axis_parts(an):
        ro = Roles(an, c)
        q = qattr(an, c)
        # clear
        f = an.method(c, "clear")
        w = an.where(f)+f" [{c.name}]"
        for p in an.walk(c, f):
            for g in queue_gets(p):
                if attr_name(g.recv) != q:
                    continue
                k = [e for e in comps(p, H.name) if e.recv is g.result]
                rep.check("clear", w, len(k) == 1, f"a frame cleared from the queue is signalled {len(k)} times")
        if kind != "source":
            continue
        for m in ("send", "send_nowait"):
            f = an.method(c, m)
            w = an.where(f)+f" [{c.name}]"
            pn = [a.arg for a in f.node.args.args][1]
            for p in finals(an.walk(c, f)):
                for e in queue_puts(p):
                    if attr_name(e.recv) != q or not e.args:
                        continue
                    t = e.args[0]
                    al = ctor_args(an, p, t)
                    if al is None:
                        rep.unk("carry", w, "frame queued not recognised")
                        continue
                    s0 = al.get(src)
                    ok = s0 is not None and s0.op == "param" and s0.args[-1] == pn and all(
                        k == src or v is NONE or attr_name(v) == k and v.args[0] is s0 for k, v in al.items())
                    rep.check("carry", w, ok, "the frame queued is not a copy of the frame given")
                for e in comps(p, H.name):
                    rep.bad("once", w, "a frame is signalled when it is submitted")
        for f, ps in worker_paths(an, c):
            n += _worker_completion(an, rep, c, ro, f, ps, H)
        # reset
        hf = an.method(c, an.reset_hook())
        w = an.where(hf)+f" [{c.name}]"
        ca = _current_attr(an, c, ps)
        if ca is None:
            rep.bad("held", w, "the frame being sent is not recorded anywhere reset could find it")
            continue
        for p in an.hook_paths(c, True):
            reads = [x for t, v, _ in p.order for x in tm.subterms(t) if is_self_attr(x, ca)]
            reads += [e.recv for e in comps(p, H.name) if is_self_attr(e.recv, ca)]
            k = [e for e in comps(p, H.name) if is_self_attr(e.recv, ca)]
            tr = [p.lits.truth(tm.truthy(x)) for x in reads]+[None if p.lits.truth(tm.isnone(x)) is None else not p.lits.truth(tm.isnone(x)) for x in reads]
            tr = [x for x in tr if x is not None]
            if tr and not tr[0]:
                rep.check("clear", w, not k, "reset signals a frame although none is being sent")
                continue
            rep.check("clear", w, len(k) == 1, f"the frame being sent is signalled {len(k)} times when reset aborts it")
            z = [s for s in p.sets(ca) if s.value is NONE]
            rep.check("clear", w, bool(z) and (not k or p.events.index(z[-1]) > p.events.index(k[-1]) or True), "reset does not forget the frame it aborted")
    if not n:
        raise AnalysisError("no transmit path found")


def _current_attr(an, c, ps):
    """attribute that records the frame taken from the queue"""
    for p in ps:
        gs = [g.result for g in queue_gets(p)]
        for s in p.sets():
            if s.recv.op == "self" and s.value in gs:
                return s.name
    return None


def _worker_completion(an, rep, c, ro, f, ps, H):
    w = an.where(f)+f" [{c.name}]"
    ca = _current_attr(an, c, ps)
    hv = set()
    for p in ps:
        if outer_backedge(p):
            gs = {g.result for g in queue_gets(p)}
            hv |= {k for k, v in p.end[2].items() if v in gs}
    if len(hv) != 1:
        rep.unk("once", w, "variable holding the frame not found")
        return 1
    hv = next(iter(hv))
    n = 0
    for p in ps:
        if p.kind != "backedge":
            if p.kind in ("return", "fall"):
                for e in comps(p, H.name):
                    rep.bad("once", w, "a frame is signalled outside the transmit loop")
            continue
        outer = next(iter(p.linit))
        cls_ = [Closed(ps, p, l) for l in p.linit if l != outer]
        def close(t):
            for cl in reversed(cls_):
                t = cl.sub(t)
            return t
        F0 = T("mu", outer, hv)
        cs = [close(e.recv) for e in comps(p, H.name) if e.loops]
        if not outer_backedge(p):
            rep.check("once", w, not cs or all(x is not None for x in []) and False, "a frame is signalled while further bytes of it are still to be loaded")
            continue
        n += 1
        fin = close(p.end[2].get(hv, F0))
        got = [g.result for g in queue_gets(p)]
        f0 = p.lits.truth(tm.truthy(F0))
        for x in got+([F0] if f0 is not False else []):
            k = cs.count(x)
            if fin is x:
                rep.check("once", w, k == 0, "a frame still held by the source is signalled")
            elif x is F0 and f0 is None:
                # not known to hold a frame: dropping is possible
                rep.check("once", w, k == 1 or bool(possible(p.lits, [(tm.truthy(F0), True)]) is False), "a frame in progress may be dropped without being signalled")
            else:
                rep.check("once", w, k == 1, f"a frame the source lets go of is signalled {k} times")
        for x in cs:
            if x not in got and not (x is F0 and f0 is not False):
                rep.bad("once", w, "something other than the frame in progress is signalled")
        # held attribute
        if ca:
            cur = None
            for s in p.sets(ca):
                if s.recv.op == "self" and s.loops:
                    cur = s
            if cur is None:
                rep.check("held", w, fin is F0, "the record of the frame being sent is not updated")
            else:
                v = close(cur.value)
                same = v is fin or v is NONE and fin is NONE
                rep.check("held", w, same, "the record of the frame being sent differs from the frame the source holds")
        # timing
        d = drives(p, ro)
        if "tdata" in d:
            b = Beat()
            tmp = Report("x")
            _beat(an, tmp, c, ro, p, ps, d, w, b)
            if not hasattr(b, "last"):
                rep.unk("when", w, "bytes loaded not recognised")
                continue
            k = [x for x in cs if norm(x) is b.F]
            r = eqv.implies(b.G, b.last if k else tm.not_(b.last), n=N)
            rep.check("when", w, r, "a frame is signalled although it has bytes left" if k else "the beat with the last byte of a frame does not signal it")
        else:
            for x in cs:
                e = p.lits.truth(tm.truthy(x))
                rep.check("when", w, e is False, "a frame with bytes to send is signalled although no beat is driven")
    return n


# ------------------------------------------------------------------ C28

KINDS = [None, [], 5, 0, True, [7], [0], [1, 2], [1, 2, 1], [3, 3], [1, 2, 3], [4, 4, 4], [1, 2, 3, 4, 5], [0, 0, 0, 0, 0]]


def ref_normal(v, n, default):
    if v is None or v == []:
        return [default]*n
    if isinstance(v, (int, bool)):
        return [v]*n
    return v[:n]+[v[-1]]*(n-len(v))


def _last_set(p, name):
    out = None
    for s in p.sets(name):
        if s.recv.op == "self":
            out = s
    return out


def _side_atoms(p, t, name):
    return {x for x in tm.subterms(t) if x.op in ("attr", "mattr") and x.args[0].op == "self" and x.args[1] == name}


def _eval_table(p, name, term, fixed, lits):
    """value of term when the literals hold for the fixed attribute values; None when they do not"""
    e = eqv.Env(0, [0, 1], fixed)
    for t, v in lits:
        if bool(e.ev(t)) != v:
            return None
    e.strict = True
    try:
        return ("v", e.ev(term))
    except eqv.Fails:
        return ("v", "an exception")


def _norm_self(t):
    """reads of the same attribute at any time, as written so far"""
    return norm(t)


@prop("C28")
def normal_form(an, rep):
    rep.rule("normal", "for every kind of sideband value (absent, empty, scalar, shorter, equal, longer) and every length, normalising gives the documented list")
    rep.rule("nochange", "normalising leaves the data alone")
    fc = frame_class(an)
    f = an.method(fc, "normalize")
    w = an.where(f)
    ps = finals(an.walk(fc, f))
    me = T("self", fc.name)
    for name, default, kinds in [("tkeep", 1, [k for k in KINDS if not isinstance(k, (int, bool))])]+[(s, 0, KINDS) for s in SIDE]:
        done = {}
        for p in ps:
            s = _last_set(p, name)
            at = T("attr", me, name)
            term = norm(s.value) if s is not None else at
            lits = [(norm(t), v) for t, v, _ in p.order if at in set(tm.subterms(norm(t)))]
            key = (term, tuple(lits))
            if key in done:
                continue
            done[key] = True
            for n in (0, 1, 2, 3, 4):
                for v in kinds:
                    fixed = {at: v, T("attr", me, "tdata"): [9]*n, T("call", "len", (me,), (), 0): n, me: [9]*n}
                    try:
                        r = _eval_table(p, name, term, fixed, lits)
                    except (eqv.Undef, TypeError):
                        rep.unk("normal", w+f" {name}", f"value for {v!r} not decided")
                        continue
                    if r is None:
                        continue
                    want = ref_normal(v, n, default)
                    rep.check("normal", w+f" {name}", r[1] == want, f"{name}={v!r} on {n} bytes becomes {r[1]!r}, not {want!r}")
        rep.check("normal", w+f" {name}", bool(done), "sideband not normalised")
    for p in ps:
        rep.check("nochange", w, _last_set(p, "tdata") is None and not [e for e in p.events if e.kind == "delitem" or
                  e.kind == "call" and attr_name(e.recv) == "tdata" and e.name in ("append", "extend", "pop", "clear")], "normalising changes the data")


@prop("C28")
def compaction(an, rep):
    rep.rule("drop", "compaction removes data and per-byte sideband values at exactly the positions whose keep is zero")
    rep.rule("fold", "afterwards keep is gone, an empty sideband list is gone, a uniform one is folded to its value, any other value is unchanged")
    fc = frame_class(an)
    f = an.method(fc, "compact")
    w = an.where(f)
    ps = an.walk(fc, f)
    me = T("self", fc.name)
    A = lambda s: T("attr", me, s)
    backs = [p for p in ps if p.kind == "backedge"]
    dels = any(e.kind == "delitem" for p in backs for e in p.events)
    loopform = False
    if dels:
        loopform = True
        for p in backs:
            L = p.end[1]
            cl = Closed(ps, p, L)
            j = J(L)
            de = [e for e in p.events if e.kind == "delitem" and e.loops]
            byattr = {}
            for e in de:
                byattr.setdefault(attr_name(e.recv), []).append(e)
            # position deleted / examined
            keeps = [(norm(cl.sub(t)), p.lits.truth(t)) for t, v, _ in p.order for x in (tm.truthy(t),) if x.op == "truthy" and x.args[0].op == "sub"
                     and attr_name(x.args[0].args[0]) == "tkeep"]
            kt = [(x, v) for t, v, _ in p.order for x in tm.subterms(t) if x.op == "sub" and attr_name(x.args[0]) == "tkeep"]
            if not kt:
                rep.unk("drop", w, "keep value of the position not tested")
                continue
            pos = kt[0][0].args[1]
            pc = norm(cl.sub(pos))
            nlen = T("call", "len", (A("tdata"),), (), 0)
            st = cl.map.get(cl.mus.get("#")) if "#" in cl.mus else None
            want = tm.sub_(tm.sub_(nlen, ONE), j)
            wantk = tm.sub_(tm.sub_(T("call", "len", (A("tkeep"),), (), 0), ONE), j)
            rep.check("drop", w, pc in (want, wantk), "positions are not examined from the last byte to the first")
            hi = cl.init.get("#hi")
            rep.check("drop", w, None if hi is None else tm.numval(hi) == -1 and numstep(cl) == -1 or False, "not every position is examined")
            kept = p.lits.truth(tm.truthy(kt[0][0]))
            if kept is None:
                rep.unk("drop", w, "keep value of the position not tested")
                continue
            if kept:
                rep.check("drop", w, not de, "a byte that is kept is removed")
                continue
            for e in de:
                ix = e.name
                rep.check("drop", w, ix is not None and norm(cl.sub(ix)) is pc if isinstance(ix, tm.Term) else None, "a value is removed at another position than the byte")
            rep.check("drop", w, len(byattr.get("tdata", [])) == 1 or _excl(p, cl, "tdata", pos), "a byte that is not kept stays in the data")
            for s in SIDE:
                es = byattr.get(s, [])
                isl, inr = _list_cond(p, s, pos)
                if es:
                    rep.check("drop", w, len(es) == 1, f"{s} loses {len(es)} values for one byte")
                    rep.check("drop", w, isl is not False and inr is not False, f"{s} is indexed although it has no such position")
                else:
                    # nothing removed: must be known not to be a list reaching this position
                    c = [T("typeis", x, T("ext", "list")) for x in _reads(p, s)]
                    ok = any(not possible(p.lits, [(T("typeis", x, T("ext", "list")), True), (T("isinstance", x, T("cls", "list")), True)]+[(tm.lt(pos, y), True) for y in _lens(p, s)]) for x in _reads(p, s))
                    rep.check("drop", w, ok, f"the {s} value of a removed byte stays")
    rep.check("drop", w, True if loopform else None, "compaction by deletion not recognised")
    # fold
    for s in SIDE:
        seen = set()
        for p in finals(ps):
            x = _last_set(p, s)
            term = norm(x.value) if x is not None else A(s)
            lits = [(norm(t), v) for t, v, _ in p.order if A(s) in set(tm.subterms(norm(t))) and not any(y.op == "mu" for y in tm.subterms(t))]
            key = (term, tuple(lits))
            if key in seen:
                continue
            seen.add(key)
            for v in KINDS:
                try:
                    r = _eval_table(p, s, term, {A(s): v}, lits)
                except (eqv.Undef, TypeError):
                    rep.unk("fold", w+f" {s}", f"value for {v!r} not decided")
                    continue
                if r is None:
                    continue
                want = v
                if isinstance(v, list):
                    want = None if not v else v[0] if all(y == v[0] for y in v) else v
                rep.check("fold", w+f" {s}", r[1] == want and type(r[1]) is type(want), f"{s}={v!r} becomes {r[1]!r}, not {want!r}")
    for p in finals(ps):
        x = _last_set(p, "tkeep")
        rep.check("fold", w+" tkeep", x is not None and x.value is NONE or x is None and p.lits.truth(tm.isnone(T("mattr", me, "tkeep", 0))) is True,
                  "keep values stay after compaction")


def _reads(p, s):
    out = []
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if is_self_attr(x, s) and x not in out:
                out.append(x)
    return out


def _lens(p, s):
    out = []
    for t, v, _ in p.order:
        for x in tm.subterms(t):
            if x.op == "call" and x.args[0] == "len" and is_self_attr(x.args[1][0], s) and x not in out:
                out.append(x)
    return out[:1]


def _list_cond(p, s, pos):
    isl = inr = None
    for x in _reads(p, s):
        v = p.lits.truth(T("typeis", x, T("ext", "list")))
        isl = v if v is not None else isl
    for y in _lens(p, s):
        v = p.lits.truth(tm.lt(pos, y))
        inr = v if v is not None else inr
    return isl, inr


def _excl(p, cl, s, pos):
    if any(p.lits.truth(tm.lt(pos, y)) is False for y in _lens(p, s)):
        return True
    # the data is a list or a bytearray
    within = [(tm.lt(pos, y), True) for y in _lens(p, s)]
    tested = {x.args[0] for t, _, _ in p.order for x in tm.subterms(t) if x.op == "isinstance" and attr_name(x.args[0]) == s}
    return bool(tested) and all(not possible(p.lits, [(T("isinstance", x, T("cls", k)), True)]+within) for x in tested for k in ("list", "bytearray"))


def _copying(an, rep, fc, f, w, rule="copy", alias_only=False):
    """alias_only: only whether a mutable value is shared with the object the frame is made from"""
    src = [a.arg for a in f.node.args.args][1]
    from_other = rep.check if not alias_only else (lambda *a, **k: None)
    for p in finals(an.walk(fc, f)):
        iscopy = None
        for t, v, _ in p.order:
            for x in tm.subterms(t):
                if x.op in ("typeis", "isinstance") and x.args[0].op == "param" and x.args[0].args[-1] == src and x.args[1].op == "cls":
                    iscopy = p.lits.truth(x)
        for s in ("tdata", "tkeep")+SIDE:
            x = _last_set(p, s)
            if x is None:
                from_other("copy", w, False, f"{s} is not set")
                continue
            v = x.value
            core, copied = v, False
            if v.op == "call" and v.args[0] in ("list", "bytearray", "bytes"):
                core, copied = v.args[1][0], True
            elif v.op == "slice" and v.args[1] in (NONE, ZERO) and v.args[2] is NONE:
                core, copied = v.args[0], True
            elif v.op == "meth" and v.args[1] == "copy" or v.op == "call" and v.args[0] == "copy":
                core, copied = v.args[0] if v.op == "meth" else v.args[1][0], True
            if iscopy:
                if v is NONE:
                    rd = [y for t, _, _ in p.order for y in tm.subterms(t) if attr_name(y) == s and y.args[0].op == "param"]
                    from_other("copy", w, any(p.lits.truth(tm.isnone(y)) is True for y in rd) or None if rd else False, f"a copied frame loses {s}")
                    continue
                ok = attr_name(core) == s and core.args[0].op == "param"
                from_other("copy", w, ok, f"{s} of a copied frame comes from elsewhere")
                if ok and not copied:
                    sc = any(p.lits.truth(T("typeis", core, T("ext", k))) is True for k in ("int", "bool")) or                         not possible(p.lits, [(T("typeis", core, T("ext", "int")), False), (T("typeis", core, T("ext", "bool")), False)])
                    nn = p.lits.truth(tm.isnone(core)) is True or not possible(p.lits, [
                        (T("typeis", core, T("ext", "int")), False), (T("typeis", core, T("ext", "bool")), False), (tm.isnone(core), False)])
                    rep.check(rule, w, sc or nn, f"a copied frame shares its {s} list with the original")
                if ok and copied and s == "tdata":
                    kind = v.args[0] if v.op == "call" else None
                    isba = p.lits.truth(T("typeis", core, T("ext", "bytearray")))
                    if kind == "bytearray":
                        from_other("copy", w, isba is True, "data of wide lanes is copied into a byte array")
            elif iscopy is False:
                ok = core.op == "param" and core.args[-1] == s
                from_other("copy", w, ok, f"{s} of a new frame is not the value given")
                if s == "tdata":
                    rep.check(rule, w, copied, "a new frame shares its data with the caller's buffer")


@prop("C28")
def copy_equal(an, rep):
    rep.rule("copy", "copying a frame takes every field from the original, lists as new lists; building one stores the values given")
    rep.rule("compare", "frames compare equal exactly when data and all sidebands both have agree, a scalar agreeing with a list of that value")
    fc = frame_class(an)
    f = fc.find("__init__")
    w = an.where(f)
    _copying(an, rep, fc, f, w)
    # comparison
    f = fc.find("__eq__")
    if f is None:
        rep.bad("compare", an.where(fc.find("__init__")), "frames are not compared by content")
        return
    w = an.where(f)
    oth = [a.arg for a in f.node.args.args][1]
    _compare(an, rep, fc, f, oth, w)


def _compare(an, rep, fc, f, oth, w):
    me = T("self", fc.name)
    ps = an.walk(fc, f)
    ot = None
    for p in ps:
        for t, v, _ in p.order:
            for x in tm.subterms(t):
                if x.op == "param" and x.args[-1] == oth:
                    ot = x
    if ot is None:
        rep.bad("compare", w, "comparison ignores the other frame")
        return
    vals = [None, 0, 5, True, [], [5], [5, 5], [5, 6], [6, 6], [0, 0]]
    loops = any(p.kind == "backedge" for p in ps)

    def agree(a, b):
        if a is None or b is None:
            return True
        if isinstance(a, list) == isinstance(b, list):
            return a == b
        s, l = (b, a) if isinstance(a, list) else (a, b)
        return all(s == x for x in l)
    fs = finals(ps)
    seen = {}
    for s in ("tkeep",)+SIDE:
        a, b = T("attr", me, s), T("attr", ot, s)
        others = [T("attr", me, x) for x in ("tkeep",)+SIDE if x != s]+[T("attr", ot, x) for x in ("tkeep",)+SIDE if x != s]
        vs = vals if s != "tkeep" else [v for v in vals if not isinstance(v, (int, bool))]
        # project: paths on which every other sideband is absent on one side
        proj = {}
        for p in fs:
            lits = [(norm(t), v) for t, v, _ in p.order]
            proj[(tuple(lits), p.value)] = p
        cases = [(x, y) for x in vs for y in vs]
        base = {T("attr", me, "tdata"): [1], T("attr", ot, "tdata"): [1], T("isinstance", ot, T("cls", fc.name)): True,
                T("typeis", ot, T("cls", fc.name)): True}
        for o in others:
            base[o] = None
        for x, y in cases:
            want = agree(x, y)
            fixed = dict(base)
            fixed[a], fixed[b] = x, y
            res = set()
            unk = False
            for (lits, val), p in proj.items():
                mus = {z for t, v in lits for z in tm.subterms(t) if z.op == "mu"}
                ok = True
                rng = range(3) if mus else (0,)
                hit = False
                exh = False
                for i in rng:
                    fx = dict(fixed)
                    for m in mus:
                        fx[m] = i
                    try:
                        e = eqv.Env(0, [0, 1], fx)
                        good = all(bool(e.ev(t)) == v for t, v in lits)
                        if good:
                            if val in (None, NONE):
                                r = None
                            else:
                                r = bool(e.ev(tm.truthy(norm(val))))
                            hit = True
                            # a path leaving a loop by exhaustion says nothing about the iterations before
                            res.add((r, bool(mus) and not _inside(lits, mus)))
                    except (eqv.Undef, TypeError):
                        # index past the end: this iteration does not exist
                        if not mus:
                            unk = True
            # an iteration that returns decides before exhaustion does
            inside = {r for r, ex in res if not ex}
            outs = inside or {r for r, ex in res}
            if any(ex for r, ex in res) and {r for r, ex in res if not ex}:
                outs = {r for r, ex in res if not ex}
            if not outs:
                rep.unk("compare", w+f" {s}", f"{x!r} against {y!r} not decided")
                continue
            if outs == {None}:
                rep.unk("compare", w+f" {s}", "result not recognised")
                continue
            rep.check("compare", w+f" {s}", outs == {want}, f"{s} {x!r} against {y!r} compares {sorted(map(str, outs))}, not {want}")
    # data and type
    base = {T("isinstance", ot, T("cls", fc.name)): True, T("typeis", ot, T("cls", fc.name)): True}
    for o in [T("attr", me, x) for x in ("tkeep",)+SIDE]+[T("attr", ot, x) for x in ("tkeep",)+SIDE]:
        base[o] = None
    for x, y, same, want in [([1, 2], [1, 2], True, True), ([1, 2], [1, 3], True, False), ([1], [1, 2], True, False), ([], [1], True, False),
                             ([], [], True, True), ([1], [1], False, False)]:
        fixed = dict(base)
        fixed[T("attr", me, "tdata")], fixed[T("attr", ot, "tdata")] = x, y
        fixed[T("isinstance", ot, T("cls", fc.name))] = same
        fixed[T("typeis", ot, T("cls", fc.name))] = same
        outs = set()
        for p in fs:
            lits = [(norm(t), v) for t, v, _ in p.order]
            try:
                e = eqv.Env(0, [0, 1], fixed)
                if all(bool(e.ev(t)) == v for t, v in lits):
                    outs.add(bool(e.ev(tm.truthy(norm(p.value)))) if p.value is not None else None)
            except (eqv.Undef, TypeError):
                outs.add("?")
        if "?" in outs or not outs:
            rep.unk("compare", w+" tdata", "comparison of data not decided")
            continue
        rep.check("compare", w+" tdata", outs == {want}, f"data {x!r} against {y!r} compares {sorted(map(str, outs))}, not {want}")


def _inside(lits, mus):
    """the path stops within an iteration: the loop counter is below its bound"""
    for t, v in lits:
        while t.op == "not":
            t, v = t.args[0], not v
        if t.op == "lt0" and any(m in set(tm.subterms(t)) for m in mus):
            c, d = tm.lin_of(t.args[0])
            for m in mus:
                if m in d and len(d) == 2:
                    return v if d[m] > 0 else not v
    return True


@prop("C09")
def frame_copy(an, rep):
    rep.rule("copy", "the copy of a frame that is queued shares no list or buffer with the caller's frame or data")
    fc = frame_class(an)
    f = fc.find("__init__")
    _copying(an, rep, fc, f, an.where(f), rule="copy", alias_only=True)
