"""Models of builtins, numpy and the third-party libraries used by sleplet."""
from __future__ import annotations

import math
import re

from .terms import *  # noqa: F403
from .terms import (DIVIDE, P, Poly, Atom, atom, fresh, sym, mk_binder, b_ite, b_eq, b_lt, b_le, b_or, b_atom, ONE, ZERO, num,
                    sum_, simp, re_, im_, abs_, conj, exp_, log_, sqrt_, pow_, subst, nonneg_poly, fromfloat)
from .values import *  # noqa: F403
from . import values as V

PI = None
IMAG = P(IA)


def pi_():
    return P(atom("pi", (), "real", True))


# ---------------------------------------------------------------- array helpers


def ret(I, a: Arr, **kw):
    if a.shape == ():
        return a.elem(())
    return I.alloc(a, **kw)


def bounded(I, vs, fn):
    """evaluate fn() knowing lo <= v < hi for every (v, lo, hi)"""
    st = I.st
    old = st.ctx
    c = old.copy()
    for v, lo, hi in vs:
        c.cons = c.cons + [P(v) - lo, P(hi) - 1 - P(v)]
    st.ctx = c
    try:
        return fn()
    finally:
        st.ctx = old


def opq(I, name, args, shape, dt="complex", nonneg=False, unm=False):
    """array-valued uninterpreted operation (canonical in its arguments)"""
    node = atom("app", (name,) + tuple(args), "other", unm=unm)
    if isinstance(shape, int):
        shape = tuple(P(atom("dim", (node, i), "int", True)) for i in range(shape))
    return node_arr2(node, tuple(P(s) for s in shape), dt, nonneg)


def node_arr2(node, shape, dt, nonneg=False):
    note_shape(node, shape, dt, nonneg)
    sort = {"bool": "int"}.get(dt, dt)

    def elem(idx):
        if dt == "bool":
            return P(atom("ind", ("b", "sel", node) + tuple(idx), "int", True, unm=node.unm))
        return P(atom("sel", (node,) + tuple(idx), sort, nonneg, unm=node.unm))

    return Arr(shape, elem, dt, {"node": node})


def lamof(I, v):
    return I.node_of(I.arr(v) if not isinstance(v, Poly) else v)


def ew1(f, dt=None):
    def m(I, x, *a, **k):
        if k.get("where") is not None or k.get("out") is not None:
            raise Unsupported("ufunc out/where")
        v = I.resolve_ite(x) if isinstance(x, IteV) and not _num(x) else x
        if isinstance(v, OpaqueV):
            nm = show(f(P(sym("$x", "complex"))))
            return OpaqueV(atom("app", ("map", nm, v.node), "other", unm=True))
        if isinstance(v, Poly):
            return f(v)
        y = I.arr(v)
        d = dt or y.dt
        if d in ("int", "bool") and dt is None:
            d = "real"
        return ret(I, Arr(y.shape, lambda idx: f(y.elem(idx)), d)) if y.shape is not None else OpaqueV(
            atom("app", ("map", show(f(P(sym("$x", "complex")))), y.tags["node"]), "other", unm=True))

    return m


def _num(v):
    if isinstance(v, IteV):
        return _num(v.a) and _num(v.b)
    return isinstance(v, (Poly, ARef, Arr))


def ew2(f, dt=None):
    def m(I, x, y, **k):
        if k.get("where") is not None or k.get("out") is not None:
            raise Unsupported("ufunc out/where")
        if isinstance(x, Poly) and isinstance(y, Poly):
            return f(x, y)
        return I.broadcast2(f, I.arr(x), I.arr(y), dt)

    return m


def fn1(name, sort="real", nonneg=False):
    def f(x):
        return P(atom("app", (name, x), sort if x.sort != "complex" or sort == "int" else "complex", nonneg))

    return f


def floor_(x):
    c = x.const()
    if c is not None:
        return num(math.floor(c))
    if x.sort == "int":
        return x
    return P(atom("app", ("floor", x), "int", nonneg_poly(x)))


def trunc_(x):
    c = x.const()
    if c is not None:
        return num(int(c))
    if x.sort == "int":
        return x
    if nonneg_poly(x):
        return floor_(x)
    return P(atom("app", ("trunc", x), "int"))


def sin_(x):
    return _trig("sin", x)


def cos_(x):
    return _trig("cos", x)


def _trig(name, x):
    x = canon(x)
    if x == ZERO:
        return ZERO if name == "sin" else ONE
    neg = primitive_sign(x)
    y = -x if neg else x
    r = P(atom("app", (name, y), "real" if x.sort != "complex" else "complex"))
    return -r if (neg and name == "sin") else r


def primitive_sign(x):
    """canonical sign choice"""
    from .terms import _mkey

    ms = sorted(x.t.items(), key=lambda z: _mkey(z[0]))
    return bool(ms) and ms[0][1] < 0


def min2(a, b):
    if a == b:
        return a
    return b_ite(b_lt(b - a), b, a)


def max2(a, b):
    if a == b:
        return a
    return b_ite(b_lt(a - b), b, a)


def getdt(v, default="real"):
    if v is None:
        return default
    n = getattr(v, "name", "")
    if not isinstance(n, str):
        return default
    n = n.split(".")[-1]
    if n.startswith("complex") or n in ("cdouble",):
        return "complex"
    if n.startswith(("int", "uint")):
        return "int"
    if n.startswith("bool"):
        return "bool"
    if n.startswith(("float", "double")):
        return "real"
    if isinstance(v, OpaqueV) and isinstance(v.node, Atom) and v.node.kind == "dtype":
        return v.node.args[0]
    return default


def width(v):
    """bytes per element of a dtype, None when it is not known"""
    if v is None:
        return 8
    if isinstance(v, OpaqueV) and isinstance(v.node, Atom) and v.node.kind == "dtype":
        return {"complex": 16, "bool": 1, "real": 8, "int": 8}.get(v.node.args[0])
    n = getattr(v, "name", v if isinstance(v, str) else "")
    n = n.split(".")[-1].rstrip("_") if isinstance(n, str) else ""
    return {"complex": 16, "complex128": 16, "cdouble": 16, "complex64": 8, "csingle": 8, "float": 8, "float64": 8, "double": 8, "int": 8, "int64": 8,
            "uint64": 8, "intp": 8, "float32": 4, "single": 4, "int32": 4, "uint32": 4, "float16": 2, "half": 2, "int16": 2, "uint16": 2, "int8": 1,
            "uint8": 1, "bool": 1}.get(n)


def mkshape(I, s):
    if isinstance(s, IteV):
        s = I.resolve_ite(s) if not _num(s) else I.arr(s).elem(())
    if isinstance(s, Poly):
        return (s,)
    if isinstance(s, (tuple, LRef)):
        out = []
        for x in I.concrete_items(s):
            x = I.arr(x).elem(()) if not isinstance(x, Poly) else x
            out.append(x)
        return tuple(out)
    if isinstance(s, (ARef, Arr)):
        a = I.arr(s)
        if a.shape == ():
            return (a.elem(()),)
    raise Unsupported(f"shape {s!r}")


# ---------------------------------------------------------------- indexing


def norm_index(I, shape, i):
    items = list(i) if isinstance(i, tuple) else [i]
    items = [I.resolve_ite(x) if isinstance(x, IteV) and not _num(x) else x for x in items]
    items = [I.arr(x).elem(()) if isinstance(x, IteV) else x for x in items]
    out = []
    # expand ellipsis
    ncons = 0
    for x in items:
        if isinstance(x, Special) and x.kind == "ellipsis":
            continue
        if x is None or (isinstance(x, ExtV) and x.name == "numpy.newaxis"):
            continue
        if isinstance(x, (ARef, Arr, LRef)) and I.arr(x).dt == "bool":
            ncons += len(I.arr(x).shape)
        else:
            ncons += 1
    rest = len(shape) - ncons
    if rest < 0:
        I.raise_if(ONE, "IndexError")
    seen_ell = any(isinstance(x, Special) and x.kind == "ellipsis" for x in items)
    if not seen_ell:
        items = items + [Special("ellipsis")]
    ax = 0
    for x in items:
        if isinstance(x, Special) and x.kind == "ellipsis":
            for _ in range(rest):
                out.append(("sl", ZERO, shape[ax], ONE))
                ax += 1
            continue
        if x is None or (isinstance(x, ExtV) and x.name == "numpy.newaxis"):
            out.append(("new",))
            continue
        if isinstance(x, SliceV):
            out.append(norm_slice(I, x, shape[ax]))
            ax += 1
            continue
        if isinstance(x, Poly):
            if isbool_(x) and x.const() is None:
                raise Unsupported(f"boolean scalar index {x}")
            c = x.const()
            if I.guarded and x.fv & I.guarded:
                # an index the obligation is about: outside the axis it is an error
                I.raise_if(b_or(b_not(b_lt(x - shape[ax])), b_lt(x + shape[ax])), "IndexError")
            if c is not None and c < 0:
                x = shape[ax] + x
            out.append(("int", x))
            ax += 1
            continue
        if isinstance(x, (ARef, Arr, LRef, RangeV)):
            a = I.arr(x)
            if a.dt == "bool":
                if len(a.shape) == 1:
                    if I.mask_lengths:
                        I.raise_if(simp(b_not(b_eq(P(a.shape[0]) - shape[ax])), I.ctx), "IndexError")
                    out.append(("nz", a, ax))
                else:
                    out.append(("mask", a, ax))
                ax += len(a.shape)
            elif a.tags.get("nonzero") is not None and len(a.tags["nonzero"].shape) == 1:
                m = a.tags["nonzero"]
                if I.mask_lengths and simp(P(m.shape[0]) - shape[ax], I.ctx) != ZERO:
                    # positions listed beyond the end of the axis
                    v = fresh("n", "int", True)
                    over = sum_(v, P(shape[ax]), P(m.shape[0]), bounded(I, [(v, P(shape[ax]), P(m.shape[0]))], lambda: m.elem((P(v),))))
                    I.raise_if(simp(b_lt(-over), I.ctx), "IndexError")
                out.append(("nz", m, ax))
                ax += 1
            elif a.shape == ():
                out.append(("int", a.elem(())))
                ax += 1
            else:
                m = moved_nonzero(I, a, shape[ax])
                out.append(("idx", a) if m is None else ("nz", m, ax))
                ax += 1
            continue
        if isinstance(x, OpaqueV):
            raise Unsupported("opaque index")
        raise Unsupported(f"index {x!r}")
    return out


def moved_nonzero(I, a, n):
    """mask of the positions listed by the index array a = positions of a mask, all moved by the same amount"""
    if len(a.shape) != 1 or not I.nz_masks:
        return None
    v = fresh("z", "int", True)
    body = bounded(I, [(v, ZERO, a.shape[0])], lambda: canon(a.elem((P(v),))))
    at = [x for mono in body.t for x, e in mono if x.kind == "sel" and x.args[0] in I.nz_masks and x.args[1] == P(v)]
    if len(at) != 1 or len(I.nz_masks[at[0].args[0]].shape) != 1:
        return None
    d = body - P(at[0])
    if v in d.fv or d.sort != "int":
        return None
    m = I.nz_masks[at[0].args[0]]

    def elem(idx):
        i = idx[0] - d
        inside = simp(b_le(-i) * b_lt(i - m.shape[0]), I.ctx)
        return inside * under(I, inside, lambda: m.elem((i,))) if inside != ZERO else ZERO
    return Arr((n,), elem, "bool")


def isbool_(x):
    from .interp import isbool

    return isbool(x) and bool(x.t)


def norm_slice(I, s, n):
    def val(v):
        if v is None or (isinstance(v, ExtV) and v.name == "numpy.newaxis"):
            return None
        if isinstance(v, IteV):
            if not _num(v):
                v = I.resolve_ite(v)
                if v is None or (isinstance(v, ExtV) and v.name == "numpy.newaxis"):
                    return None
            else:
                v = I.arr(v).elem(())
        if isinstance(v, (ARef, Arr)):
            v = I.arr(v).elem(())
        if not isinstance(v, Poly):
            raise Unsupported("slice bound")
        c = v.const()
        if c is not None:
            return n + v if c < 0 else v
        if I.cond_simplify(b_lt(-v)) == ZERO:
            # never positive: counts from the end unless it is zero
            neg = I.cond_simplify(b_lt(v))
            if neg == ONE:
                return n + v
            if neg != ZERO:
                raise Split(I.pick(neg))
        return v

    step = ONE if s.step is None else s.step
    if isinstance(step, (ARef, IteV)):
        step = I.arr(step).elem(())
    if not isinstance(step, Poly):
        raise Unsupported("slice step")
    lo, hi = val(s.lo), val(s.hi)
    if step == ONE:
        lo = ZERO if lo is None else lo
        hi = n if hi is None else clamp(I, hi, n)
        return ("sl", lo, hi - lo, ONE)
    if step == num(-1):
        lo = n - 1 if lo is None else lo
        hi = num(-1) if hi is None else hi
        return ("sl", lo, lo - hi, step)
    lo = ZERO if lo is None else lo
    hi = n if hi is None else clamp(I, hi, n)
    d = hi - lo
    c, k = d.const(), step.const()
    if c is not None and k:
        ln = num(max(0, math.ceil(c / k)))
    else:
        ln = P(atom("ceildiv", (d, step), "int", True))
    return ("sl", lo, ln, step)


def clamp(I, hi, n):
    """min(hi, n) when the current facts decide it, hi otherwise"""
    r = I.cond_simplify(b_lt(n - hi))
    if r == ONE:
        return n
    if r != ZERO:
        I.assumed_shapes.add(("slice end", show(hi, 60), show(n, 60)))
    return hi


def index_view(I, shape, i):
    """-> (result shape, imap, kinds) for basic/gather indexing, or None when a mask is involved"""
    ax = norm_index(I, shape, i)
    if any(a[0] in ("mask", "nz") for a in ax):
        return None, ax
    idxarrs = [a[1] for a in ax if a[0] == "idx"]
    out, plan = [], []
    nidx = len(idxarrs)
    bshape = None
    placed = None
    maps = []
    if nidx:
        sh = idxarrs[0].shape
        for a in idxarrs[1:]:
            sh, _, _ = I.bshape(sh, a.shape)
        bshape = sh
    k = 0
    pos = []
    # numpy: adjacent advanced indices stay in place, otherwise first
    advpos = [j for j, a in enumerate(ax) if a[0] in ("idx", "int")] if nidx else []
    contiguous = not advpos or advpos == list(range(advpos[0], advpos[-1] + 1))
    if nidx and not contiguous:
        out += list(bshape)
        placed = 0
        k = len(bshape)
    for a in ax:
        if a[0] == "int":
            plan.append(("c", a[1]))
        elif a[0] == "new":
            out.append(ONE)
            k += 1
        elif a[0] == "sl":
            plan.append(("s", a[1], a[3], k))
            out.append(a[2])
            k += 1
        elif a[0] == "idx":
            if placed is None:
                placed = k
                out += list(bshape)
                k += len(bshape)
            plan.append(("g", a[1]))
    nb = len(bshape) if bshape is not None else 0

    def imap(idx):
        r = []
        for p in plan:
            if p[0] == "c":
                r.append(p[1])
            elif p[0] == "s":
                r.append(p[1] + idx[p[3]] if p[2] == ONE else p[1] + idx[p[3]] * p[2])
            else:
                a = p[1]
                bi = idx[placed:placed + nb]
                d = nb - len(a.shape)
                sub = tuple(ZERO if a.shape[q] == ONE and bshape[q + d] != ONE else bi[q + d] for q in range(len(a.shape)))
                r.append(a.elem(sub))
        return tuple(r)

    return (tuple(out), imap, bool(nidx)), ax


def kept_tags(o):
    """properties of a view that its own views inherit"""
    return {} if o.view is None else {k: v for k, v in o.view.tags.items() if k in ("handle", "part")}


def part_view(I, o, part):
    """real or imaginary part: shares the memory of the array"""
    if not isinstance(o, ARef):
        return None
    a = I.arr(o)
    if a.shape is None:
        return None
    if a.dt != "complex":
        return o if part == "re" else None
    tags = kept_tags(o)
    tags["part"] = part
    return ARef(o.cid, View(tuple(a.shape), o.view.imap if o.view is not None else lambda idx: tuple(idx), tags))


def view_tags(I, o, ax):
    """tags describing strided/reversed one-dimensional views"""
    tags = {}
    if isinstance(o, ARef):
        tags.update(kept_tags(o))
    if "part" in tags:
        return tags
    if isinstance(o, ARef) and len(ax) == 1 and ax[0][0] == "sl":
        _, lo, n, step = ax[0]
        base = o.view.tags.get("seg") if o.view is not None else ("seg", o.cid, ZERO, I.arr(o).shape[0], ONE)
        if base is not None:
            _, cid, blo, bn, bstep = base
            if bstep == ONE:
                tags["seg"] = ("seg", cid, blo + lo, n, step)
            elif bstep == num(-1) and step == num(-1) and n == bn:
                tags["seg"] = ("seg", cid, blo - lo, n, ONE)
        if step != ONE and step != num(-1):
            ms = I.arr(o).tags.get("multiset")
            if ms is not None:
                tags["stride"] = (ms, lo, step)
        elif n == I.arr(o).shape[0]:
            ms = I.arr(o).tags.get("multiset")
            if ms is not None:
                tags["multiset"] = ms
    return tags


def getitem(I, o, i):
    if isinstance(o, IteV):
        if _num(o):
            o = I.alloc(I.arr(o))
        else:
            o = I.resolve_ite(o)
    if isinstance(o, (tuple,)):
        return seq_get(I, o, i)
    if isinstance(o, LRef):
        c = I.st.heap[o.lid]
        if isinstance(c, DictC):
            return dict_get(I, o, c, i)
        if "ite" in c.info:
            raise Split(I.pick(I.cond_simplify(c.info["ite"][0])))
        if c.sym is None:
            return seq_get(I, c.items, i)
        if not c.items and isinstance(i, Poly):
            k = i.const()
            if k is not None and k < 0:
                i = c.sym.hi - c.sym.lo + i
            return c.sym.elem(i + c.sym.lo)
        raise Unsupported("index into symbolic list")
    if isinstance(o, (str,)) and isinstance(i, Poly) and i.const() is not None:
        return o[int(i.const())]
    if isinstance(o, RangeV) and isinstance(i, Poly):
        return o.lo + i * o.step
    if isinstance(o, (str, SStr)):
        if isinstance(o, str) and isinstance(i, SliceV):
            f = lambda v: None if v is None else int(v.const())
            return o[f(i.lo):f(i.hi):f(i.step)]
        return mkstr([("fmt", atom("app", ("strindex", o if isinstance(o, str) else o.pieces, I.node_of(i)), "other"), "")])
    if isinstance(o, OpaqueV):
        return OpaqueV(atom("item", (o.node, I.node_of(i)), "other", unm=o.node.unm))
    if isinstance(o, (ARef, Arr)):
        a = I.arr(o)
        if a.shape is None:
            return OpaqueV(atom("item", (a.tags["node"], I.node_of(i)), "other", unm=True))
        r, ax = index_view(I, a.shape, i)
        if r is None:
            return mask_get(I, a, ax)
        shape, imap, adv = r
        if shape == () :
            return a.elem(imap(()))
        if isinstance(o, Arr) or adv:
            return I.alloc(Arr(shape, lambda idx: a.elem(imap(idx)), a.dt))
        if o.view is None:
            nm = imap
        else:
            vm = o.view.imap
            nm = lambda idx: vm(imap(idx))
        return ARef(o.cid, View(shape, nm, view_tags(I, o, ax)))
    if isinstance(o, Special):
        if o.kind == "args":
            return o.data["fn"](i)
        raise Unsupported(f"item of {o!r}")
    if isinstance(o, (ExtV, ClassV)):
        return OpaqueV(atom("ext", ("subscripted type",), "other"))
    if o is None:
        I.raise_if(ONE, "TypeError")
    raise Unsupported(f"item of {o!r}")


def single_hit(I, m):
    """the only position a mask [i == t] can select, or None"""
    vs = [fresh("h", "int", True) for _ in m.shape]
    body = bounded(I, [(v, ZERO, s) for v, s in zip(vs, m.shape)], lambda: m.elem(tuple(P(v) for v in vs)))
    out = []
    for v, s in zip(vs, m.shape):
        if s == ONE:
            out.append(ZERO)
            body = subst(body, {v: ZERO})
            continue
        # [v==t] shows up as one delta term
        t = delta_target(v, body)
        if t is None:
            return None
        out.append(t)
    return tuple(out)


def delta_target(v, body):
    if len(body.t) == 1:
        (mm, c), = body.t.items()
        cand = [a for a, e in mm if a.kind == "ind" and a.args[0] == "eq" and v in a.fv] if c == 1 else []
    elif len(body.t) == 2:
        ms = [set(m) for m in body.t]
        cand = [a for a, e in (ms[0] ^ ms[1]) if a.kind == "ind" and a.args[0] == "lt" and v in a.fv]
        if len(cand) != 2 or sum(body.t.values()) != 0 or cand[0].args[1] != cand[1].args[1] or abs((cand[0].args[2] - cand[1].args[2]).const() or 0) != 1:
            return None
        cand = [max(cand, key=lambda a: a.args[2].const() or 0)]
        q = cand[0].args[1] - cand[0].args[2] + 1
        cv = q.t.get(((v, Fr(1)),))
        if cv not in (1, -1):
            return None
        t = -(q - P(v) * num(cv)) * num(cv)
        return None if v in t.fv else t
    else:
        return None
    for a in cand:
        q = a.args[1] - a.args[2]
        cv = q.t.get(((v, Fr(1)),))
        if cv in (1, -1):
            t = -(q - P(v) * num(cv)) * num(cv)
            if v not in t.fv:
                return t
    return None


def mask_get(I, a, ax):
    masks = [x for x in ax if x[0] in ("mask", "nz")]
    if len(masks) != 1:
        raise Unsupported("several masks")
    others = [x for x in ax if x[0] not in ("mask", "nz")]
    m, pos = masks[0][1], masks[0][2]
    full = all(x[0] == "sl" and x[1] == ZERO and x[3] == ONE for x in others)
    nd = len(m.shape)
    if full:
        pre = pos
        rest = a.shape[pos + nd:]
        node = atom("app", ("compress", pos, lam_tail(I, a, nd, pos), m.lam()), "other")
        n = simp(count(I, m), I.ctx)
        shape = tuple(a.shape[:pre]) + (n,) + tuple(rest)
        dt = a.dt
        one = single_hit(I, m)
        if one is not None:
            return I.alloc(Arr(shape, lambda idx: a.elem(tuple(idx[:pre]) + one + tuple(idx[pre + 1:])), dt, {"compress": (a, m, pos), "node": node} if pos == 0 and False else {"compress": (a, m, pos)}))

        place = hit_place(I, m)
        if place is not None:
            return I.alloc(Arr(shape, lambda idx: a.elem(tuple(idx[:pre]) + (place(idx[pre]),) + tuple(idx[pre + 1:])), dt, {"compress": (a, m, pos)}))

        def elem(idx):
            return P(atom("sel", (node,) + tuple(idx), {"bool": "int"}.get(dt, dt)))

        return I.alloc(Arr(shape, elem, dt, {"compress": (a, m, pos), "node": node}))
    # x[i, mask] style: fix the scalar axes first
    if all(x[0] in ("int", "sl") for x in others):
        # order of axes follows ax
        idx0, k = [], 0
        for x in ax:
            if x[0] == "int":
                idx0.append(("int", x[1]))
            elif x[0] == "sl":
                idx0.append(("sl", x[1], x[2], x[3]))
            else:
                for d in range(len(x[1].shape)):
                    idx0.append(("m", x[1].shape[d]))
        def imap(idx):
            r, k = [], 0
            for x in idx0:
                if x[0] == "int":
                    r.append(x[1])
                elif x[0] == "sl":
                    r.append(x[1] + idx[k] * x[3])
                    k += 1
                else:
                    r.append(idx[k])
                    k += 1
            return tuple(r)
        shape = tuple(x[2] if x[0] == "sl" else x[1] for x in idx0 if x[0] != "int")
        b = Arr(shape, lambda idx: a.elem(imap(idx)), a.dt)
        ax2, npos = [], 0
        for x in ax:
            if x[0] == "sl":
                ax2.append(("sl", ZERO, x[2], ONE))
                npos += 1
            elif x[0] in ("mask", "nz"):
                ax2.append((x[0], x[1], npos))
                npos += len(x[1].shape)
        return mask_get(I, b, ax2)
    raise Unsupported("mixed mask index")


def lam_tail(I, a, nd, pos):
    return a.lam()


def count(I, m):
    vs = [fresh("n", "int", True) for _ in m.shape]
    body = bounded(I, [(v, ZERO, s) for v, s in zip(vs, m.shape)], lambda: m.elem(tuple(P(v) for v in vs)))
    for v, s in reversed(list(zip(vs, m.shape))):
        body = count_sum(v, ZERO, s, body)
    return body


def order_hits(v, lo, hi, body):
    """(c, bound): body selects the harmonic indices of order c below the index hi"""
    from .interp import emm_, lin_coeff

    e = emm_(P(v)) if v in body.fv and lo == ZERO else None
    if e is not None and len(e.t) == 1:
        (mono,), = [tuple(x) for x in e.t]
        ea = mono[0]
        for a in sorted(inds_of(body), key=repr):
            if a.kind != "ind" or a.args[0] != "lt":
                continue
            k = lin_coeff(a.args[1], ea)
            if k not in (1, -1):
                continue
            for d in (ZERO, ONE, -ONE):
                c = e - (a.args[1] - a.args[2]) * num(k) + d
                if v in c.fv or not is_zero(simp(body - b_eq(e - c), None)):
                    continue
                return c
    return None


def count_sum(v, lo, hi, body):
    """sum of an indicator; the harmonic indices of one order are counted in closed form"""
    from .interp import ind2elm

    c = order_hits(v, lo, hi, body)
    if c is None:
        return sum_(v, lo, hi, body)
    l, m = ind2elm(hi)
    n = l - abs_(c)
    return b_ite(b_lt(n), ZERO, n) + b_lt(c - m) * b_le(-n)


def hit_place(I, m):
    """k -> place of the k-th position selected by the 1-D mask, where it selects one order"""
    if len(m.shape) != 1:
        return None
    v = fresh("n", "int", True)
    body = bounded(I, [(v, ZERO, m.shape[0])], lambda: m.elem((P(v),)))
    c = order_hits(v, ZERO, m.shape[0], canon(simp(body, I.ctx)))
    if c is None:
        return None

    def place(k):
        l = abs_(c) + k
        return l * l + l + c
    return place


def world(I, name, fn, arg=None):
    """assumption on the environment fixed by the obligation, or a free indicator"""
    w = I.world.get(name)
    if w is None:
        return fn()
    if callable(w):
        return w(arg)
    return ONE if w else ZERO


def under(I, cond, fn):
    """evaluate fn() knowing cond"""
    st = I.st
    old = st.ctx
    c = old
    from .interp import implied_lits

    for a, v in implied_lits(cond):
        c = c.assume(a, v)
    st.ctx = c
    try:
        return fn()
    finally:
        st.ctx = old


def rank_of(I, m, ks, q, guard):
    """number of selected positions of mask m before position ks (row-major)"""
    def go():
        total = ZERO
        for d in range(len(ks)):
            vs = [fresh("n", "int", True) for _ in range(d, len(ks))]
            idx = tuple(ks[:d]) + tuple(P(v) for v in vs)
            bs = [(vs[0], ZERO, ks[d])] + [(v, ZERO, s) for v, s in zip(vs[1:], m.shape[d + 1:])]
            body = bounded(I, bs, lambda: m.elem(idx))
            for v, lo, hi in reversed(bs):
                body = count_sum(v, lo, hi, body)
            total = total + simp(body, I.ctx)
        return simp(total, I.ctx)
    return bounded(I, q, lambda: under(I, guard, go))


def seq_get(I, items, i):
    if isinstance(i, IteV):
        i = I.arr(i).elem(()) if _num(i) else I.resolve_ite(i)
    if isinstance(i, SliceV):
        f = lambda v: None if v is None else int(v.const())
        r = tuple(items)[f(i.lo):f(i.hi):f(i.step)]
        return r
    if isinstance(i, Poly):
        c = i.const()
        if c is not None:
            c = int(c)
            if not -len(items) <= c < len(items):
                I.raise_if(ONE, "IndexError")
            return items[c]
        return I.index_items(items, i)
    raise Unsupported("sequence index")


def dict_get(I, o, c, k):
    k = I.hkey(k)
    if isinstance(k, Poly) and k.const() is None:
        memo = c.info.get("memo", ())
        check_memo(I, c)
        for key, val in reversed(memo):
            if key == k:
                if c.info.get("shared"):
                    return OpaqueV(atom("app", ("stale-cache", o.lid[1], k), "other"))
                return val
        for key, val in reversed(memo):
            a = single_atom(key)
            if a is not None:
                return I.subst_val(I.st, val, {a: k})
        raise Unsupported("dict lookup with symbolic key")
    if isinstance(k, SStr) or isinstance(k, OpaqueV):
        if k in c.d:
            return c.d[k]
        if isinstance(k, SStr) and c.d and all(isinstance(x, str) for x in c.d):
            r = None
            for x, v in c.d.items():
                cond = I.streq(k, x)
                r = v if r is None else I.merge_val(cond, v, r)
            return r
        raise Unsupported("dict lookup with symbolic key")
    if k in c.d:
        v = c.d[k]
        if v is UNDEF:
            I.raise_if(ONE, "KeyError", k)
        return v
    if c.default is not None:
        return OpaqueV(atom("item", (c.default, I.node_of(k)), "other"))
    if c.info.get("memo"):
        for key, val in reversed(c.info["memo"]):
            a = single_atom(key)
            if a is not None and isinstance(k, Poly):
                return I.subst_val(I.st, val, {a: k})
    I.raise_if(ONE, "KeyError", k)


def single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def check_memo(I, c):
    memo = c.info.get("memo", ())
    if len(memo) < 2 or c.info.get("checked") == len(memo):
        return
    gen = [(single_atom(k), k, v) for k, v in memo]
    base = next(((a, k, v) for a, k, v in gen if a is not None), None)
    if base is None:
        return
    a0, k0, v0 = base
    n0 = I.node_of(v0)
    for a, k, v in gen:
        if I.node_of(v) != subst(n0, {a0: k}):
            I.event("memo-inconsistent", key=k)
    c.info["checked"] = len(memo)


def kept(I, c, v):
    """an object with a state of its own is put in a container of a module"""
    if isinstance(v, Special) and v.kind == "rng" and c.info.get("shared"):
        I.event("rng-kept", rng=v)


def setitem(I, o, i, v):
    if isinstance(o, LRef):
        c = I.st.heap[o.lid]
        kept(I, c, v)
        if isinstance(c, DictC):
            k = I.hkey(i)
            if isinstance(k, Poly) and k.const() is None:
                info = dict(c.info)
                info["memo"] = tuple(x for x in info.get("memo", ()) if x[0] != k) + ((k, v),)
                I.st.heap[o.lid] = DictC(c.d, c.default, info)
                return
            d = dict(c.d)
            d[k] = v
            I.st.heap[o.lid] = DictC(d, c.default, c.info)
            return
        i = I.resolve_ite(i)
        if isinstance(i, Poly) and i.const() is not None and c.sym is None:
            it = list(c.items)
            it[int(i.const())] = v
            I.st.heap[o.lid] = ListC(it, c.sym, c.kind, c.info)
            return
        raise Unsupported("list item assignment")
    if isinstance(o, ARef):
        a = I.arr(o)
        if a.shape is None:
            if I.st.heap[o.cid].origin is not None:
                I.event("store", cid=o.cid, origin=I.st.heap[o.cid].origin, store=None)
            raise Unsupported("store into opaque array")
        ax = norm_index(I, a.shape, i)
        store_ax(I, o, a, ax, v)
        return
    if isinstance(o, OpaqueV):
        I.event("opaque-store", node=o.node)
        raise Unsupported("store into opaque value")
    raise Unsupported(f"item assignment on {o!r}")


def plain_mask(ax):
    """one mask, whose values keep the mask's place among the axes"""
    kinds = [x[0] for x in ax]
    adv = [k for k, x in enumerate(kinds) if x in ("int", "nz", "mask", "idx")]
    return sum(k in ("nz", "mask", "idx") for k in kinds) == 1 and adv == list(range(adv[0], adv[-1] + 1))


def aug_masked(I, o, i, fn):
    """o[mask] op= scalar, elementwise; False when the index is of another form"""
    a = I.arr(o)
    if a.shape is None:
        return False
    ax = norm_index(I, a.shape, i)
    if not any(x[0] in ("nz", "mask") for x in ax) or any(x[0] in ("idx", "new") for x in ax):
        return False
    store_ax(I, o, a, ax, ONE, whole=I.arr(fn(o)))
    return True


def store_ax(I, o, a, ax, v, acc=False, whole=None):
    few = [k for k, x in enumerate(ax) if x[0] == "idx"]
    if len(few) == 1 and plain_mask(ax) and len(ax[few[0]][1].shape) == 1 and whole is None:
        n = ax[few[0]][1].shape[0].const()
        if n is not None and n <= 6:
            # a short list of positions: one store each
            k0, val = few[0], I.arr(v)
            d = sum(1 for x in ax[k0:] if x[0] != "int")  # axes of the value from this one to the end
            for j in range(int(n)):
                w = v
                if val.shape is not None and len(val.shape) >= d and val.shape[len(val.shape) - d] != ONE:
                    w = Arr(val.shape[:len(val.shape) - d] + val.shape[len(val.shape) - d + 1:],
                            lambda ix, j=j: val.elem(tuple(ix[:len(val.shape) - d]) + (num(j),) + tuple(ix[len(val.shape) - d:])), val.dt)
                elif val.shape is not None and len(val.shape) >= d:
                    w = Arr(val.shape[:len(val.shape) - d] + val.shape[len(val.shape) - d + 1:],
                            lambda ix: val.elem(tuple(ix[:len(val.shape) - d]) + (ZERO,) + tuple(ix[len(val.shape) - d:])), val.dt)
                store_ax(I, o, I.arr(o), ax[:k0] + [("int", ax[k0][1].elem((num(j),)))] + ax[k0 + 1:], w, acc)
            return
    cell = I.st.heap[o.cid]
    # multiset preservation for in-place permutations of a segment
    keep = None
    if len(ax) == 1 and ax[0][0] == "sl" and isinstance(v, ARef) and v.view is not None and v.cid == o.cid:
        t = v.view.tags.get("seg")
        dst = view_tags(I, o, ax).get("seg")
        if t is not None and dst is not None:
            tlo = t[2] if t[4] == ONE else t[2] - t[3] + 1
            dlo = dst[2] if dst[4] == ONE else dst[2] - dst[3] + 1
            keep = t[3] == dst[3] and tlo == dlo
    val = I.arr(v)
    q, idx, guard = [], [], ONE
    vidx = []  # index into the value's (broadcast) shape
    tshape = []
    joint = kind = None
    for x in ax:
        prev, kind = kind, x[0]
        if x[0] == "int":
            idx.append(x[1])
        elif x[0] == "sl":
            n = x[2].const()
            if n == 1:
                idx.append(x[1])
                vidx.append(ZERO)
                tshape.append(ONE)
                continue
            k = fresh("s", "int", True)
            q.append((k, ZERO, x[2]))
            idx.append(x[1] + P(k) * x[3])
            vidx.append(P(k))
            tshape.append(x[2])
        elif x[0] == "nz" or x[0] == "mask":
            m = x[1]
            ks = [fresh("s", "int", True) for _ in m.shape]
            for kk, s in zip(ks, m.shape):
                q.append((kk, ZERO, s))
                idx.append(P(kk))
            guard = guard * m.elem(tuple(P(kk) for kk in ks))
            vidx.append(("mask", tuple(P(kk) for kk in ks), m))
            tshape.append(("mask", m))
            maskq = (ks, m)
        elif x[0] == "idx":
            b = x[1]
            if joint is not None:
                # several index arrays select elements position by position
                if tuple(b.shape) != joint[0] or prev != "idx":
                    raise Unsupported("store through index arrays of different shapes")
                idx.append(b.elem(tuple(P(kk) for kk in joint[1])))
                continue
            ks = [fresh("s", "int", True) for _ in b.shape]
            joint = (tuple(b.shape), ks)
            for kk, s in zip(ks, b.shape):
                q.append((kk, ZERO, s))
            idx.append(b.elem(tuple(P(kk) for kk in ks)))
            vidx += [P(kk) for kk in ks]
            tshape += list(b.shape)
        else:
            raise Unsupported("newaxis store")
    own = tuple(idx)
    if o.view is not None:
        idx = list(o.view.imap(tuple(idx)))
    if whole is not None:
        elem = bounded(I, q, lambda: under(I, guard, lambda: whole.elem(own)))
    elif val.shape is None:
        if any(not isinstance(x, Poly) for x in vidx):
            raise Unsupported("opaque masked store")
    if whole is not None:
        pass
    elif val.shape is not None:
        off = len(vidx) - len(val.shape)
        if off < 0:
            # leading unit axes of the value are dropped
            extra = val.shape[:-off]
            if any(s != ONE for s in extra):
                I.raise_if(ONE, "ValueError")
            lead = tuple(ZERO for _ in extra)
            sub = vidx
            vsh = val.shape[-off:]
        else:
            lead, sub, vsh = (), vidx[off:], val.shape
        iv = []
        for s, x, ts in zip(vsh, sub, tshape[len(tshape) - len(vsh):]):
            if s == ONE:
                iv.append(ZERO)
            elif isinstance(x, Poly):
                iv.append(x)
            else:
                # value array is itself compressed with the same mask
                cm = val.tags.get("compress")
                if cm is not None and cm[1].lam() == x[2].lam():
                    src = cm[0]
                    iv = None
                    val = Arr((), lambda _: src.elem(x[1]), val.dt)
                    break
                if len(val.shape) == 1 and len(ax) == 1 or len(x[2].shape) == 1 and plain_mask(ax):
                    # the k-th selected position receives the k-th value
                    n = count(I, x[2])
                    if not is_zero(simp(canon(n - s), I.ctx)):
                        I.note("length of a masked store not proved")
                    iv.append(rank_of(I, x[2], x[1], q, guard))
                    continue
                raise Unsupported("masked store of an array")
        if iv is None:
            iv, lead = [], ()
        elem = bounded(I, q, lambda: under(I, guard, lambda: val.elem(tuple(lead) + tuple(iv))))
    else:
        elem = bounded(I, q, lambda: val.elem(tuple(vidx)))
    if not isinstance(elem, Poly):
        raise Unsupported("store of non-numeric element")
    part = o.view.tags.get("part") if o.view is not None else None
    if part is not None:
        old = bounded(I, q, lambda: under(I, guard, lambda: I.snapshot(cell).elem(tuple(idx))))
        if acc:
            elem = elem if part == "re" else elem * IMAG
        else:
            elem = elem + IMAG * im_(old) if part == "re" else re_(old) + IMAG * elem
    st = Store(tuple(q), guard, tuple(idx), elem, acc)
    I.add_store(o.cid, st)
    info = dict(I.st.heap[o.cid].info)
    ms = cell.base.tags.get("multiset")
    if ms is not None:
        c2 = I.st.heap[o.cid]
        if keep and (not cell.stores or info.get("keep_multiset")):
            info["keep_multiset"] = True
        else:
            info.pop("keep_multiset", None)
            info["lost_multiset"] = True
        I.st.heap[o.cid] = Cell(c2.base, c2.stores, c2.origin, info)


def clobber(I, ref, how):
    """contents changed in place in a way that is not followed"""
    if isinstance(ref, Poly) or not isinstance(ref, ARef):
        raise Unsupported(how)
    c = I.st.heap[ref.cid]
    I.event("store", cid=ref.cid, origin=c.origin, store=None)
    I.note(f"contents after {how}")
    b = c.base
    if b.shape is None:
        raise Unsupported(how)
    nm = f"overwritten{I.new('n')[1]}"
    I.st.heap[ref.cid] = Cell(sym_arr(nm, tuple(b.shape), b.dt, False), (), c.origin, c.info)


def ufunc_out(I, name, m, args, kw):
    kw = dict(kw)
    out, where = kw.pop("out"), kw.pop("where", None)
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    r = m(I, *args, **kw)
    if where is not None and where != ONE:
        if isinstance(where, Poly):
            clobber(I, out, name)
        else:
            setitem(I, out, where, getitem(I, r, where) if not isinstance(r, Poly) else r)
        return out
    if isinstance(r, Poly):
        r = Arr((), lambda idx, r=r: r, "complex")
    store_all(I, out, I.arr(r))
    return out


def np_copyto(I, dst, src, casting=None, where=None):
    if where is not None and where != ONE:
        return clobber(I, dst, "numpy.copyto")
    if isinstance(src, Poly):
        src = Arr((), lambda idx, src=src: src, "complex")
    store_all(I, dst, I.arr(src))


def inplace(name):
    def m(I, dst, *a, **k):
        return clobber(I, dst, name)
    return m


def store_all(I, ref, arr):
    a = I.arr(ref)
    if a.shape is None:
        I.event("store", cid=ref.cid, origin=I.st.heap[ref.cid].origin, store=None)
        raise Unsupported("in-place update of opaque array")
    store_ax(I, ref, a, [("sl", ZERO, s, ONE) for s in a.shape], I.alloc(arr) if arr.shape != () else arr.elem(()))


# ---------------------------------------------------------------- attributes


def array_attr(I, o, name):
    if name == "shape":
        a = I.arr(o)
        if a.shape is None:
            return OpaqueV(atom("attr", (a.tags["node"], "shape"), "other", unm=True))
        return tuple(a.shape)
    if name == "ndim":
        a = I.arr(o)
        return num(len(a.shape))
    if name == "size":
        a = I.arr(o)
        r = ONE
        for s in a.shape:
            r = r * s
        return r
    if name == "nbytes":
        a = I.arr(o)
        r = num({"complex": 16, "bool": 1}.get(a.dt, 8))
        for s in a.shape:
            r = r * s
        return r
    if name == "itemsize":
        return num({"complex": 16, "bool": 1}.get(I.arr(o).dt, 8))
    if name == "dtype":
        a = I.arr(o)
        return OpaqueV(atom("dtype", (a.dt,), "other"))
    if name in ("real", "imag"):
        v = part_view(I, o, name[:2])
        return v if v is not None else ew1(re_ if name == "real" else im_, "real")(I, o)
    if name == "T":
        return transpose(I, o)
    if name == "flat":
        return reshape(I, o, (num(-1),))
    if name == "numerator" or name == "denominator":
        if isinstance(o, Poly):
            c = o.const()
            if c is not None:
                return num(c.numerator if name == "numerator" else c.denominator)
    return NotImplemented


def transpose(I, o, axes=None):
    a = I.arr(o)
    if a.shape is None:
        return OpaqueV(atom("app", ("T", a.tags["node"]), "other", unm=True))
    n = len(a.shape)
    ax = list(reversed(range(n))) if axes is None else [int(P(x).const()) % n for x in axes]
    inv = [ax.index(k) for k in range(n)]
    shape = tuple(a.shape[k] for k in ax)
    f = lambda idx: tuple(idx[inv[k]] for k in range(n))
    if isinstance(o, ARef):
        if o.view is None:
            return ARef(o.cid, View(shape, f))
        vm = o.view.imap
        return ARef(o.cid, View(shape, lambda idx: vm(f(idx)), kept_tags(o)))
    return I.alloc(Arr(shape, lambda idx: a.elem(f(idx)), a.dt))


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def reshape(I, o, shape, copy=False):
    from .interp import floordiv, mod_

    a = I.arr(o)
    if a.shape is None:
        return OpaqueV(atom("app", ("reshape", a.tags["node"]) + tuple(shape), "other", unm=True))
    shape = list(shape)
    total = prod(a.shape)
    for k, s in enumerate(shape):
        if s == num(-1):
            rest = prod(x for j, x in enumerate(shape) if j != k)
            if rest == ONE:
                shape[k] = total
            else:
                shape[k] = canon(total / rest)
                if not shape[k].sort == "int":
                    shape[k] = P(atom("app", ("quot", total, rest), "int", True))
    shape = tuple(shape)
    src = a.shape
    # drop unit axes on both sides: same remaining axes -> plain relabelling
    s1 = [(k, s) for k, s in enumerate(src) if s != ONE]
    s2 = [(k, s) for k, s in enumerate(shape) if s != ONE]
    if len(s1) == len(s2) and all(x[1] == y[1] or is_zero(x[1] - y[1]) or len(s1) == 1 for x, y in zip(s1, s2)):
        def f(idx):
            r = [ZERO] * len(src)
            for (k, _), (j, _) in zip(s1, s2):
                r[k] = idx[j]
            return tuple(r)
    else:
        def f(idx):
            flat = ZERO
            for s, x in zip(shape, idx):
                flat = flat * s + x
            r = []
            rem = flat
            if len(src) == 1:
                return (flat,)
            # mixed radix
            for k in range(len(src)):
                st = prod(src[k + 1:])
                if k == len(src) - 1:
                    r.append(rem)
                else:
                    d = divide_flat(rem, st)
                    if d is None:
                        qd = floordiv(rem, st)
                        r.append(qd)
                        rem = mod_(rem, st)
                    else:
                        r.append(d[0])
                        rem = d[1]
            return tuple(r)
    tags = {}
    if a.tags.get("nonzero") is not None and len(shape) == 1:
        tags["nonzero"] = a.tags["nonzero"]
    if a.tags.get("multiset") is not None and len(shape) == 1:
        tags["multiset"] = a.tags["multiset"]
    if isinstance(o, ARef) and not copy and not tags:
        if o.view is None:
            return ARef(o.cid, View(shape, f))
        vm = o.view.imap
        return ARef(o.cid, View(shape, lambda idx: vm(f(idx)), kept_tags(o)))
    return I.alloc(Arr(shape, lambda idx: a.elem(f(idx)), a.dt, tags))


def divide_flat(flat, st, ctx=None):
    """flat = q*st + r recognised syntactically"""
    if st == ONE:
        return flat, ZERO
    if ctx is None:
        ctx = V.ENGINE.ctx
    tried = set()
    for lead in sorted(st.t, key=lambda m: (-len(m), show(Poly({m: 1}), 80))):
        lc = st.t[lead]
        q, r = {}, flat
        for _ in range(40):
            hit = None
            for m in r.t:
                d = dict(m)
                ok = True
                for a, e in lead:
                    if d.get(a, 0) < e:
                        ok = False
                        break
                    d[a] -= e
                if ok and lead:
                    hit = (m, tuple(sorted((a, e) for a, e in d.items() if e)))
                    break
            if hit is None:
                break
            t = Poly({hit[1]: r.t[hit[0]] / lc})
            q[hit[1]] = q.get(hit[1], 0) + r.t[hit[0]] / lc
            r = r - t * st
        qq = Poly({m: c for m, c in q.items() if c})
        if r in tried:
            continue
        for adj in (0, 1, -1):
            r2, q2 = r + st * num(adj), qq - num(adj)
            if (r2, q2) in tried:
                continue
            tried.add((r2, q2))
            if q2.sort != "int" or r2.sort != "int":
                continue
            if ge0(ctx, r2) and ge0(ctx, st - 1 - r2):
                return q2, r2
    return None


DIVIDE[0] = divide_flat


def ge0(ctx, p):
    """p >= 0 entailed (splitting on the sign under absolute values)"""
    if entails_lt(ctx, -p, ONE) is True:
        return True
    for m in p.t:
        for a, _ in m:
            if a.kind == "abs" and a.args[0].sort != "complex":
                x = a.args[0]
                for v, c in ((x, x), (-x, -x - (1 if x.sort == "int" else 0))):
                    c2 = ctx.copy()
                    c2.cons = c2.cons + [c]
                    if infeasible(c2.cons):
                        continue
                    c2.cons = [subst(k, {a: v}) if isinstance(k, Poly) else k for k in c2.cons]
                    if not ge0(c2, subst(p, {a: v})):
                        return False
                return True
    return False


def reduce_axes(I, a, axis):
    n = len(a.shape)
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, LRef)):
        return sorted(int(x.const()) % n for x in I.concrete_items(axis))
    return [int(P(axis).const()) % n]


def reduce_arr(I, o, axis, keepdims, f, dt=None):
    """f(vs [(v,lo,hi)], body) -> Poly"""
    a = I.arr(o)
    if a.shape is None:
        raise Unsupported("reduction of opaque array")
    axes = reduce_axes(I, a, axis)
    keep = [k for k in range(len(a.shape)) if k not in axes]
    kd = isinstance(keepdims, Poly) and keepdims == ONE
    shape = tuple(a.shape[k] for k in keep) if not kd else tuple(ONE if k in axes else a.shape[k] for k in range(len(a.shape)))

    def elem(idx):
        idx = list(idx)
        if kd:
            idx = [idx[k] for k in keep]
        vs = {k: fresh("r", "int", True) for k in axes}
        full = []
        it = iter(idx)
        for k in range(len(a.shape)):
            full.append(P(vs[k]) if k in axes else next(it))
        bs = [(vs[k], ZERO, a.shape[k]) for k in axes]
        body = bounded(I, bs, lambda: simp(a.elem(tuple(full)), I.ctx))
        return f(bs, body)

    return ret(I, Arr(shape, elem, dt or ("int" if a.dt == "bool" else a.dt)))


def do_sum(I, o, axis=None, keepdims=None, dtype=None, **kw):
    if isinstance(o, (LRef, tuple)) or (isinstance(o, Special) and o.kind == "guarded"):
        pass
    a = I.arr(o)
    if a.shape is None:
        return OpaqueV(atom("app", ("sum", a.tags["node"], I.node_of(axis)), "other", unm=True))
    cm = a.tags.get("compress")
    if cm is not None and (axis is None):
        src, m, pos = cm
        if len(src.shape) == len(m.shape):
            b = Arr(src.shape, lambda idx: src.elem(idx) * m.elem(idx), src.dt)
            return do_sum(I, b)

    def f(bs, body):
        for v, lo, hi in reversed(bs):
            body = sum_(v, lo, hi, body)
        return body

    return reduce_arr(I, o, axis, keepdims, f)


def do_prod(I, o, axis=None, **kw):
    def f(bs, body):
        for v, lo, hi in reversed(bs):
            body = P(mk_binder("prod", [v], (lo, hi, body), body.sort))
        return body

    return reduce_arr(I, o, axis, None, f)


def do_mean(I, o, axis=None, keepdims=None, **kw):
    a = I.arr(o)
    if a.shape is None:
        return OpaqueV(atom("app", ("mean", a.tags["node"]), "other", unm=True))
    s = do_sum(I, o, axis, keepdims)
    n = prod(a.shape[k] for k in reduce_axes(I, a, axis))
    return I.num2(ast_div(), s, n)


def ast_div():
    import ast

    return ast.Div()


def binred(name, dt=None, nonneg=False):
    def m(I, o, axis=None, keepdims=None, **kw):
        a = I.arr(o)
        if a.shape is None:
            return OpaqueV(atom("app", (name, a.tags["node"], I.node_of(axis)), "other", unm=True))

        def f(bs, body):
            lo_hi = tuple((lo, hi) for _, lo, hi in bs)
            if name in ("max", "min") and not any(v in body.fv for v, _, _ in bs):
                return body
            node = mk_binder("redb", [v for v, _, _ in bs], (lo_hi, canon(body)), "other")
            sort = dt or ("int" if a.dt == "bool" else a.dt)
            return P(atom("red", (name, node), {"bool": "int"}.get(sort, sort), nonneg or nonneg_poly(body)))

        return reduce_arr(I, o, axis, keepdims, f, dt)

    return m


def boolred(name):
    def m(I, o, axis=None, keepdims=None, **kw):
        a = I.arr(o)
        if a.shape is None:
            return P(atom("ind", ("b", name, a.tags["node"]), "int", True, unm=True))

        def f(bs, body):
            if not isbool_(body) and body not in (ONE, ZERO):
                body = ONE - b_eq(body)
            # small constant extents are expanded
            cs = [(hi - lo).const() for _, lo, hi in bs]
            if all(c is not None and c <= 4 for c in cs) and len(bs) == 1:
                v, lo, hi = bs[0]
                r = ONE if name == "all" else ZERO
                for k in range(int(cs[0])):
                    x = subst(body, {v: lo + k})
                    r = r * x if name == "all" else b_or(r, x)
                return r
            r = forall_(bs, ONE - body if name == "any" else body)
            return r if name == "all" else ONE - r

        return reduce_arr(I, o, axis, keepdims, f, "bool")

    return m


def argred(name):
    def m(I, o, axis=None, **kw):
        a = I.arr(o)
        if a.shape is None:
            return OpaqueV(atom("app", (name, a.tags["node"]), "other", unm=True))
        if axis is None or len(a.shape) == 1:
            return P(atom("app", (name, a.lam()), "int", True))
        raise Unsupported(name + " along axis")

    return m


def argsort(I, o, axis=None, kind=None, **kw):
    a = I.arr(o)
    if a.shape is None:
        return OpaqueV(atom("app", ("argsort", a.tags["node"]), "other", unm=True))
    if len(a.shape) != 1:
        raise Unsupported("argsort of matrix")
    v = fresh("a", "int", True)
    body = bounded(I, [(v, ZERO, a.shape[0])], lambda: canon(a.elem((P(v),))))
    neg = len(body.t) == 1 and next(iter(body.t.values())) < 0
    n = a.shape[0]
    if len(body.t) == 1 and abs(next(iter(body.t.values()))) == 1:
        (mono,), = [tuple(body.t)]
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "sel" and mono[0][0].args[1] == P(v) and mono[0][0].args[0].kind == "app" \
                and mono[0][0].args[0].args[0] == "eigh_w":
            # eigh returns its eigenvalues in ascending order
            return I.alloc(Arr((n,), lambda idx: n - 1 - idx[0] if neg else idx[0], "int", {"perm": n}))
    b = Arr(a.shape, lambda idx: -a.elem(idx), a.dt) if neg else a
    node = atom("app", ("argsort", b.lam()), "other")
    if neg:
        return I.alloc(Arr((n,), lambda idx: P(atom("sel", (node, n - 1 - idx[0]), "int", True)), "int", {"perm": n}))
    return I.alloc(node_arr2(node, (n,), "int", True))


def sort_(I, o, axis=None, **kw):
    a = I.arr(o)
    if a.shape is None:
        return OpaqueV(atom("app", ("sort", a.tags["node"]), "other", unm=True))
    tags = {k: v for k, v in a.tags.items() if k in ("multiset", "stride", "own")}
    fixed = all(P(n).const() is not None for n in a.shape)
    r = opq(I, "sort", (a.lam() if fixed or not tags.get("stride") else atom("special", ("strided",), "other"),), a.shape, a.dt)
    r.tags.update(tags)
    r.tags.pop("node", None)
    return I.alloc(r)


def matmul(I, x, y):
    a, b = I.arr(x), I.arr(y)
    if a.shape is None or b.shape is None:
        na = a.tags["node"] if a.shape is None else a.lam()
        nb = b.tags["node"] if b.shape is None else b.lam()
        return OpaqueV(atom("app", ("matmul", na, nb), "other", unm=True))
    if len(a.shape) == 0 or len(b.shape) == 0:
        import ast

        return I.num2(ast.Mult(), x, y)
    n = a.shape[-1]
    if len(b.shape) == 1:
        def elem(idx):
            k = fresh("k", "int", True)
            body = bounded(I, [(k, ZERO, n)], lambda: a.elem(tuple(idx) + (P(k),)) * b.elem((P(k),)))
            return sum_(k, ZERO, n, body)
        shape = a.shape[:-1]
    else:
        la = len(a.shape) - 1
        if len(b.shape) > 2 or len(a.shape) > 2:
            raise Unsupported("batched matmul")

        def elem(idx):
            k = fresh("k", "int", True)
            body = bounded(I, [(k, ZERO, n)], lambda: a.elem(tuple(idx[:la]) + (P(k),)) * b.elem((P(k),) + tuple(idx[la:])))
            return sum_(k, ZERO, n, body)
        shape = a.shape[:-1] + b.shape[1:]
    from .interp import lubdt

    return ret(I, Arr(shape, elem, lubdt(a.dt, b.dt)))


def einsum(I, spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if "->" not in spec:
        rhs = "".join(sorted(c for c in set(lhs) if c != "," and lhs.count(c) == 1))
    arrs = [I.arr(o) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        if "." in s or a.shape is None or len(s) != len(a.shape):
            raise Unsupported("einsum form")
        for c, d in zip(s, a.shape):
            dims.setdefault(c, d)
    summed = [c for c in dict.fromkeys("".join(ins)) if c not in rhs]

    def elem(idx):
        env = dict(zip(rhs, idx))
        vs = {c: fresh("k", "int", True) for c in summed}
        env.update({c: P(v) for c, v in vs.items()})

        def body():
            r = ONE
            for s, a in zip(ins, arrs):
                r = r * a.elem(tuple(env[c] for c in s))
            return r

        b = bounded(I, [(vs[c], ZERO, dims[c]) for c in summed], body)
        for c in reversed(summed):
            b = sum_(vs[c], ZERO, dims[c], b)
        return b

    dt = "int"
    from .interp import lubdt

    for a in arrs:
        dt = lubdt(dt, a.dt)
    return ret(I, Arr(tuple(dims[c] for c in rhs), elem, dt))


def concat_arrs(I, arrs, axis=0):
    from .interp import lubdt

    arrs = [a for a in arrs]
    if any(a.shape is None for a in arrs):
        raise Unsupported("concatenate opaque")
    n = len(arrs[0].shape)
    axis = axis % n
    out = arrs[0]
    parts = [arrs[0]]
    for b in arrs[1:]:
        out = concat2(out, b, axis)
        parts.append(b)
    out.parts = [a for a in parts] if axis == 0 and len(parts) == 2 else None
    return out


def concat2(a, b, axis):
    from .interp import lubdt

    n0 = a.shape[axis]
    if n0 == ZERO:
        r = Arr(b.shape, b.elem, lubdt(a.dt, b.dt))
        return r
    shape = tuple(s + b.shape[axis] if k == axis else s for k, s in enumerate(a.shape))

    def elem(idx):
        i = idx[axis]
        c = b_lt(i - n0)
        x = ZERO if c == ZERO else a.elem(idx)
        if c == ONE:
            return x
        y = b.elem(tuple(v - n0 if k == axis else v for k, v in enumerate(idx)))
        return b_ite(c, x, y)

    return Arr(shape, elem, lubdt(a.dt, b.dt))


def np_concatenate(I, seq, axis=ZERO, **kw):
    c = I.st.heap.get(seq.lid) if isinstance(seq, LRef) else None
    if isinstance(c, ListC) and c.sym is not None and not c.items and "each" in c.sym.tags and axis == ZERO:
        each, lo, hi = c.sym.tags["each"]
        k = fresh("k", "int")
        e = I.arr(each(P(k)))
        if e.shape is None:
            raise Unsupported("concatenate opaque")
        return I.alloc(I.concat_loop(Arr((ZERO,) + tuple(e.shape[1:]), lambda idx: ZERO, e.dt), e, k, lo, hi, {}))
    arrs = [I.arr(x) for x in I.concrete_items(seq)]
    if axis is None:
        arrs = [I.arr(reshape(I, I.alloc(a), (num(-1),))) for a in arrs]
        axis = ZERO
    return I.alloc(concat_arrs(I, arrs, int(P(axis).const())))


def np_append(I, a, b, axis=None):
    x, y = I.arr(a), I.arr(b)
    if axis is None:
        if len(x.shape) != 1:
            x = I.arr(reshape(I, I.alloc(x), (num(-1),)))
        if len(y.shape) == 0:
            v = y
            y = Arr((ONE,), lambda idx: v.elem(()), v.dt)
        elif len(y.shape) != 1:
            y = I.arr(reshape(I, I.alloc(y), (num(-1),)))
        axis = ZERO
    return I.alloc(concat_arrs(I, [x, y], int(P(axis).const())))


def np_insert(I, a, obj, values, axis=None):
    x = I.arr(a)
    if x.shape is None:
        raise Unsupported("insert opaque")
    ax = 0 if axis is None else int(P(axis).const()) % len(x.shape)
    if axis is None and len(x.shape) != 1:
        raise Unsupported("flat insert")
    if not isinstance(obj, Poly):
        raise Unsupported("insert at several positions")
    v = I.arr(values)
    n = x.shape[ax]
    p = obj
    c = p.const()
    if c is not None and c < 0:
        p = n + p
    cnt = ONE
    if v.shape == ():
        ve = lambda idx, j: v.elem(())
    elif len(v.shape) == len(x.shape) and ax == 0 or (len(x.shape) == 1 and len(v.shape) == 1):
        cnt = v.shape[ax]
        ve = lambda idx, j: v.elem(tuple(j if k == ax else (ZERO if v.shape[k] == ONE else i) for k, i in enumerate(idx)))
    elif len(v.shape) == len(x.shape) - 1:
        ve = lambda idx, j: v.elem(tuple((ZERO if v.shape[q] == ONE else i) for q, i in enumerate(idx[:ax] + idx[ax + 1:])))
    elif len(v.shape) == len(x.shape):
        # numpy moves axis 0 of values for scalar obj
        cnt = v.shape[ax]
        ve = lambda idx, j: v.elem(tuple(j if k == ax else (ZERO if v.shape[k] == ONE else i) for k, i in enumerate(idx)))
    else:
        raise Unsupported("insert shape")
    shape = tuple(s + cnt if k == ax else s for k, s in enumerate(x.shape))

    def elem(idx):
        idx = tuple(idx)
        i = idx[ax]
        before = b_lt(i - p)
        inside = b_lt(i - p - cnt)
        r2 = ZERO if inside == ONE else x.elem(tuple(i - cnt if k == ax else q for k, q in enumerate(idx)))
        mid = ve(idx, i - p) if inside != ZERO else ZERO
        r = b_ite(inside, mid, r2)
        if before == ZERO:
            return r
        return b_ite(before, x.elem(idx), r)

    from .interp import lubdt

    return I.alloc(Arr(shape, elem, x.dt))


def np_pad(I, a, pw, mode="constant", constant_values=ZERO, **kw):
    x = I.arr(a)
    if x.shape is None:
        raise Unsupported("pad opaque")
    if mode != "constant":
        raise Unsupported("pad mode")
    w = I.resolve_ite(pw) if isinstance(pw, IteV) else pw
    n = len(x.shape)

    def pair(v):
        if isinstance(v, Poly):
            return (v, v)
        it = I.concrete_items(v)
        return (it[0], it[1]) if len(it) == 2 else (it[0], it[0])

    if isinstance(w, Poly):
        ws = [(w, w)] * n
    else:
        it = I.concrete_items(w)
        if all(isinstance(q, Poly) for q in it):
            ws = [pair(w)] * n
        else:
            ws = [pair(q) for q in it]
            if len(ws) == 1:
                ws = ws * n
    cv = constant_values if isinstance(constant_values, Poly) else I.arr(constant_values).elem(())
    shape = tuple(s + b + e for s, (b, e) in zip(x.shape, ws))

    def elem(idx):
        g = ONE
        sub = []
        for i, s, (b, e) in zip(idx, x.shape, ws):
            j = i - b
            if b != ZERO:
                g = g * b_le(-j)
            if e != ZERO:
                g = g * b_lt(j - s)
            sub.append(j)
        return b_ite(g, x.elem(tuple(sub)), cv)

    return I.alloc(Arr(shape, elem, x.dt))


def np_where(I, c, a=None, b=None):
    cv = I.arr(c)
    if a is None:
        return np_nonzero(I, c)
    if isinstance(c, Poly) and isinstance(a, Poly) and isinstance(b, Poly):
        return b_ite(I.truth(c), a, b)
    x, y = I.arr(a), I.arr(b)
    if cv.shape is None or x.shape is None or y.shape is None:
        return OpaqueV(atom("app", ("where", I.node_of(c), I.node_of(a), I.node_of(b)), "other", unm=True))
    s1, m1, m2 = I.bshape(x.shape, y.shape)
    shape, mc, mv = I.bshape(cv.shape, s1)
    from .interp import lubdt

    def elem(idx):
        k = cv.elem(mc(idx))
        if not isbool_(k) and k not in (ONE, ZERO):
            k = ONE - b_eq(k)
        j = mv(idx)
        return b_ite(k, x.elem(m1(j)), y.elem(m2(j)))

    return ret(I, Arr(shape, elem, lubdt(x.dt, y.dt)))


def tobool(a):
    if a.dt == "bool":
        return a

    def elem(idx):
        v = a.elem(idx)
        return v if isbool_(v) else ONE - b_eq(v)

    return Arr(a.shape, elem, "bool")


def np_nonzero(I, c):
    m = tobool(I.arr(c))
    if m.shape is None:
        return OpaqueV(atom("app", ("nonzero", m.tags["node"]), "other", unm=True))
    out = []
    n = count(I, m)
    for ax in range(len(m.shape)):
        node = atom("app", ("nonzero", m.lam(), ax), "other")
        a = node_arr2(node, (n,), "int", True)
        a.tags["nonzero"] = m
        I.nz_masks[node] = m
        a.tags["nzaxis"] = ax
        out.append(I.alloc(a))
    return tuple(out)


def np_argwhere(I, c):
    m = tobool(I.arr(c))
    if m.shape is None:
        return OpaqueV(atom("app", ("argwhere", m.tags["node"]), "other", unm=True))
    n = count(I, m)
    nd = len(m.shape)

    def elem(idx):
        k = int(idx[1].const()) if idx[1].const() is not None else None
        if k is None:
            r = ZERO
            for q in range(nd):
                r = r + b_eq(idx[1] - q) * elem((idx[0], num(q)))
            return r
        return P(atom("sel", (atom("app", ("nonzero", m.lam(), k), "other"), idx[0]), "int", True))

    return I.alloc(Arr((n, num(nd)), elem, "int", {"nonzero": m} if nd == 1 else {}))


def np_isin(I, x, t, **kw):
    a, b = I.arr(x), I.arr(t)
    if a.shape is None or b.shape is None:
        return OpaqueV(atom("app", ("isin", I.node_of(x), I.node_of(t)), "other", unm=True))
    nz = b.tags.get("nonzero")
    if nz is not None and len(nz.shape) == 1:
        return ret(I, Arr(a.shape, lambda idx: nz.elem((a.elem(idx),)), "bool"))
    n = b.shape[0].const() if len(b.shape) == 1 else None
    if n is not None and n <= 8:
        def elem(idx):
            r = ZERO
            for k in range(int(n)):
                r = b_or(r, b_eq(a.elem(idx) - b.elem((num(k),))))
            return r
        return ret(I, Arr(a.shape, elem, "bool"))
    return ret(I, Arr(a.shape, lambda idx: b_atom("isin", a.elem(idx), b.lam()), "bool"))


def np_arange(I, *a, **kw):
    a = [I.arr(x).elem(()) for x in a]
    lo, hi, st = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, st = a[:3]
    if "step" in kw:
        st = kw["step"]
    n = hi - lo if st == ONE else I.range_len(RangeV(lo, hi, st))
    n = canon(n)
    sort = "int" if all(x.sort == "int" for x in (lo, hi, st)) else "real"
    tags = {"multiset": ("range", lo, hi)} if st == ONE and sort == "int" else {}
    return I.alloc(Arr((n,), lambda idx: lo + idx[0] * st, sort, tags))


def np_zeros(val):
    def m(I, shape, dtype=None, order=None, **kw):
        sh = mkshape(I, shape)
        dt = getdt(dtype)
        if val is None:
            uid = I.new("u")[1]
            site = I.loc
            return I.alloc(Arr(sh, lambda idx: P(atom("uninit", (site,) + tuple(idx), {"bool": "int"}.get(dt, dt))), dt), info={"uninit": True})
        return I.alloc(Arr(sh, lambda idx: num(val), dt), info={"init": val})

    return m


def np_full(I, shape, fill, dtype=None, **kw):
    sh = mkshape(I, shape)
    f = I.arr(fill)
    dt = getdt(dtype, f.dt)
    return I.alloc(Arr(sh, lambda idx: f.elem(tuple(idx)[len(idx) - len(f.shape):]), dt))


def np_like(val):
    def m(I, a, fill=None, dtype=None, **kw):
        x = I.arr(a)
        dt = getdt(dtype, x.dt)
        v = val
        if val == "full":
            f = I.arr(fill).elem(())
            return ret(I, Arr(x.shape, lambda idx: f, dt))
        if fill is not None and dtype is None:
            dt = getdt(fill, x.dt)
        if val is None:
            site = I.loc
            return I.alloc(Arr(x.shape, lambda idx: P(atom("uninit", (site,) + tuple(idx), {"bool": "int"}.get(dt, dt))), dt), info={"uninit": True})
        return ret(I, Arr(x.shape, lambda idx: num(v), dt))

    return m


def np_array(I, x, dtype=None, copy=ONE, ndmin=None, **kw):
    if copy != ONE and isinstance(x, ARef):
        return np_asarray(I, x, dtype)
    if isinstance(x, Special) and x.kind == "guarded":
        raise Unsupported("array of filtered list")
    a = I.arr(x)
    if a.shape is None:
        return x
    dt = getdt(dtype, a.dt)
    if a.shape == ():
        return a.elem(())
    return I.alloc(Arr(a.shape, a.elem, dt, {k: v for k, v in a.tags.items() if k in ("multiset", "own", "nonzero", "stride")}))


def np_asarray(I, x, dtype=None, **kw):
    if isinstance(x, ARef) and (dtype is None or I.arr(x).shape is not None and getdt(dtype, I.arr(x).dt) == I.arr(x).dt):
        return x  # the very same array: nothing to convert
    return np_array(I, x, dtype)


def ident(I, x, *a, **kw):
    return x


def np_linspace(I, a, b, n=num(50), endpoint=ONE, **kw):
    n = kw.get("num", n)
    d = (n - 1) if endpoint == ONE else n
    return I.alloc(Arr((n,), lambda idx: a + (b - a) * idx[0] / d, "real"))


def np_diff(I, x, n=ONE, axis=None, **kw):
    a = I.arr(x)
    if a.shape is None:
        raise Unsupported("diff opaque")
    if n != ONE:
        raise Unsupported("diff order")
    ax = (int(P(axis).const()) if axis is not None else -1) % len(a.shape)
    shape = tuple(s - 1 if k == ax else s for k, s in enumerate(a.shape))
    up = lambda idx: tuple(i + 1 if k == ax else i for k, i in enumerate(idx))
    return I.alloc(Arr(shape, lambda idx: a.elem(up(idx)) - a.elem(tuple(idx)), a.dt))


def np_tile(I, x, reps):
    a = I.arr(x)
    r = [reps] if isinstance(reps, Poly) else I.concrete_items(reps)
    n = max(len(r), len(a.shape))
    r = [ONE] * (n - len(r)) + list(r)
    sh = (ONE,) * (n - len(a.shape)) + tuple(a.shape)
    shape = tuple(s * t for s, t in zip(sh, r))
    from .interp import mod_

    off = n - len(a.shape)

    def elem(idx):
        return a.elem(tuple((idx[k + off] if r[k + off] == ONE else (ZERO if sh[k + off] == ONE else mod_(idx[k + off], sh[k + off]))) for k in range(len(a.shape))))

    return I.alloc(Arr(shape, elem, a.dt))


def np_triu_indices(I, n, k=ZERO, m=None, **kw):
    """row/column index arrays; tagged so that a joint store can be recognised"""
    tag = ("triu", n, k)
    r = node_arr2(atom("app", ("triu_r", n, k), "other"), (P(atom("app", ("triu_n", n, k), "int", True)),), "int", True)
    c = node_arr2(atom("app", ("triu_c", n, k), "other"), (P(atom("app", ("triu_n", n, k), "int", True)),), "int", True)
    return (I.alloc(r), I.alloc(c))


def np_eye(I, n, m=None, dtype=None, **kw):
    mm = n if m is None else m
    return I.alloc(Arr((n, mm), lambda idx: b_eq(idx[0] - idx[1]), getdt(dtype)))


def m_slice(I, *a):
    a = (None,) + a if len(a) == 1 else a
    return V.SliceV(*(tuple(a) + (None,) * (3 - len(a))))


def np_tensordot(I, a, b, axes=num(2)):
    x, y = I.arr(a), I.arr(b)
    if not isinstance(axes, Poly) or axes.const() is None or x.shape is None or y.shape is None:
        raise Unsupported("tensordot axes")
    from .interp import lubdt

    k = int(axes.const())
    keep = len(x.shape) - k
    inner = x.shape[keep:]

    def elem(idx):
        vs = [fresh("k", "int", True) for _ in inner]
        rng = [(v, ZERO, n) for v, n in zip(vs, inner)]
        js = tuple(P(v) for v in vs)
        body = bounded(I, rng, lambda: x.elem(tuple(idx[:keep]) + js) * y.elem(js + tuple(idx[keep:])))
        for v, lo, hi in reversed(rng):
            body = sum_(v, lo, hi, body)
        return body

    return ret(I, Arr(x.shape[:keep] + y.shape[k:], elem, lubdt(x.dt, y.dt)))


def np_column_stack(I, seq):
    arrs = [I.arr(x) for x in I.concrete_items(seq)]
    if any(a.shape is None for a in arrs):
        raise Unsupported("column_stack opaque")
    return np_concatenate(I, tuple(I.alloc(Arr((a.shape[0], ONE), lambda idx, a=a: a.elem((idx[0],)), a.dt)) if len(a.shape) == 1 else I.alloc(a) for a in arrs), axis=ONE)


def np_roll(I, a, shift, axis=None):
    x = I.arr(a)
    if x.shape is None or (axis is None and len(x.shape) != 1) or not isinstance(shift, Poly):
        raise Unsupported("roll")
    ax = 0 if axis is None else int(axis.const()) % len(x.shape)
    from .interp import mod_

    def elem(idx):
        i = list(idx)
        i[ax] = mod_(i[ax] - shift, P(x.shape[ax]))
        return x.elem(tuple(i))

    return I.alloc(Arr(x.shape, elem, x.dt))


def np_broadcast_to(I, a, shape, **kw):
    x = I.arr(a)
    sh = mkshape(I, shape)
    if x.shape is None:
        raise Unsupported("broadcast_to opaque")
    d = len(sh) - len(x.shape)
    one = [simp(P(n) - ONE, I.ctx) == ZERO for n in x.shape]
    return I.alloc(Arr(sh, lambda idx: x.elem(tuple(ZERO if o else i for o, i in zip(one, idx[d:]))), x.dt))


def np_repeat(I, a, n, axis=None):
    x = I.arr(a)
    if x.shape is None or not isinstance(n, Poly) or n.sort != "int" or (axis is None and len(x.shape) > 1):
        raise Unsupported("repeat")
    ax = 0 if axis is None else int(axis.const()) % max(len(x.shape), 1)
    if x.shape == ():
        return I.alloc(Arr((n,), lambda idx: x.elem(()), x.dt))
    from .interp import floordiv

    one = simp(P(x.shape[ax]) - ONE, I.ctx) == ZERO

    def elem(idx):
        i = list(idx)
        i[ax] = ZERO if one else floordiv(i[ax], n)
        return x.elem(tuple(i))

    sh = list(x.shape)
    sh[ax] = sh[ax] * n
    return I.alloc(Arr(tuple(sh), elem, x.dt))


def np_swapaxes(I, a, i, j):
    x = I.arr(a)
    n = len(x.shape)
    order = list(range(n))
    p, q = int(i.const()) % n, int(j.const()) % n
    order[p], order[q] = q, p
    return transpose(I, a, tuple(num(k) for k in order))


def np_average(I, a, axis=None, weights=None, **kw):
    if weights is None:
        return do_mean(I, a, axis=axis)
    import ast

    w = I.num2(ast.Mult(), a, weights)
    return I.num2(ast.Div(), do_sum(I, w, axis=axis), do_sum(I, weights, axis=axis))


def np_select(I, conds, vals, default=ZERO):
    r = default
    for c, v in reversed(list(zip(I.concrete_items(conds), I.concrete_items(vals)))):
        r = np_where(I, c, v, r)
    return r


def np_outer(I, a, b):
    x, y = I.arr(a), I.arr(b)
    from .interp import lubdt

    return I.alloc(Arr((x.shape[0], y.shape[0]), lambda idx: x.elem((idx[0],)) * y.elem((idx[1],)), lubdt(x.dt, y.dt)))


def np_trace(I, a, **kw):
    x = I.arr(a)
    if x.shape is None:
        return OpaqueV(atom("app", ("trace", x.tags["node"]), "other", unm=True))
    k = fresh("k", "int", True)
    return sum_(k, ZERO, x.shape[0], bounded(I, [(k, ZERO, x.shape[0])], lambda: x.elem((P(k), P(k)))))


def np_diag(I, a, k=ZERO, **kw):
    x = I.arr(a)
    if len(x.shape) == 1:
        n = x.shape[0]
        return I.alloc(Arr((n, n), lambda idx: b_ite(b_eq(idx[0] - idx[1]), x.elem((idx[0],)), ZERO), x.dt))
    return I.alloc(Arr((x.shape[0],), lambda idx: x.elem((idx[0], idx[0])), x.dt))


def np_flip(I, a, axis=None, **kw):
    x = I.arr(a)
    axes = reduce_axes(I, x, axis)
    return I.alloc(Arr(x.shape, lambda idx: x.elem(tuple(x.shape[k] - 1 - i if k in axes else i for k, i in enumerate(idx))), x.dt))


def np_stack(I, seq, axis=ZERO, **kw):
    if axis != ZERO:
        raise Unsupported("stack axis")
    return I.alloc(I.arr(I.new_list(I.concrete_items(seq))))


def np_vstack(I, seq, **kw):
    arrs = [I.arr(x) for x in I.concrete_items(seq)]
    arrs = [Arr((ONE,) + tuple(a.shape), (lambda b: lambda idx: b.elem(tuple(idx[1:])))(a), a.dt) if len(a.shape) == 1 else a for a in arrs]
    return I.alloc(concat_arrs(I, arrs, 0))


def np_hstack(I, seq, **kw):
    arrs = [I.arr(x) for x in I.concrete_items(seq)]
    return I.alloc(concat_arrs(I, arrs, 0 if len(arrs[0].shape) == 1 else 1))


def np_expand_dims(I, a, axis):
    x = I.arr(a)
    k = int(P(axis).const()) % (len(x.shape) + 1)
    shape = x.shape[:k] + (ONE,) + x.shape[k:]
    return I.alloc(Arr(shape, lambda idx: x.elem(tuple(idx[:k]) + tuple(idx[k + 1:])), x.dt))


def np_squeeze(I, a, axis=None, **kw):
    x = I.arr(a)
    return reshape(I, a, tuple(s for s in x.shape if s != ONE))


def np_allclose(I, a, b, *r, **kw):
    return b_atom("allclose", I.node_of(a), I.node_of(b))


def np_clip(I, x, lo, hi, **kw):
    r = x
    if lo is not None:
        r = ew2(max2)(I, r, lo)
    if hi is not None:
        r = ew2(min2)(I, r, hi)
    return r


def np_ptp(I, a, axis=None, **kw):
    import ast

    return I.num2(ast.Sub(), binred("max")(I, a, axis), binred("min")(I, a, axis))


def np_cumsum(I, a, axis=None, **kw):
    x = I.arr(a)
    if len(x.shape) != 1:
        raise Unsupported("cumsum")

    def elem(idx):
        k = fresh("k", "int", True)
        return sum_(k, ZERO, idx[0] + 1, bounded(I, [(k, ZERO, x.shape[0])], lambda: x.elem((P(k),))))

    return I.alloc(Arr(x.shape, elem, x.dt))


def np_array_split(I, a, n, axis=ZERO, **kw):
    x = I.arr(a)
    ms = x.tags.get("multiset")
    if not isinstance(n, Poly):
        raise Unsupported("array_split")
    size, parts = (simp(P(x.shape[0]), I.ctx).const() if x.shape is not None else None), n.const()
    if size is not None and parts is not None and len(x.shape) == 1 and parts > 0:
        q, r = divmod(int(size), int(parts))
        out, at = [], 0
        for i in range(int(parts)):
            k = q + (i < r)
            out.append(I.alloc(Arr((num(k),), lambda idx, at=at: x.elem((idx[0] + at,)), x.dt)))
            at += k
        return I.new_list(out)
    node = atom("app", ("array_split", x.lam(), n), "other")
    seq = SymSeq(ZERO, n, lambda k: I.alloc(node_arr2(atom("item", (node, P(k)), "other"), (P(atom("dim", (node, P(k)), "int", True)),), "int", True)), {"partition": ms})
    return I.new_list((), sym=seq, info={"seqtags": {"partition": ms}})


def np_save(I, path, a, **kw):
    v = I.arr(a)
    h = I.hooks.get("numpy.save")
    if h is not None:
        h(I, None, [path, a], kw)
    I.event("save", path=path, pieces=I.pieces(path), value=v, node=v.tags["node"] if v.shape is None else v.lam(), shape=v.shape)
    return None


def np_load(I, path, **kw):
    if isinstance(path, IteV):
        c = I.compare_is(path, None)
        I.raise_if(c, "TypeError")
        path = I.resolve_ite(strip_none(path))
    if path is None:
        I.raise_if(ONE, "TypeError")
    h = I.hooks.get("numpy.load")
    if h is not None:
        r = h(I, None, [path], kw)
        if r is not NotImplemented:
            return r
    I.event("load", path=path, pieces=I.pieces(path))
    return OpaqueV(atom("app", ("load",) + I.pieces(path), "other"))


def strip_none(v):
    if isinstance(v, IteV):
        a, b = strip_none(v.a), strip_none(v.b)
        if a is None:
            return b
        if b is None:
            return a
        return IteV(v.c, a, b)
    return v


def np_take(I, a, i, axis=None, **kw):
    x = I.arr(a)
    if axis is None:
        if len(x.shape) != 1:
            a = reshape(I, a, (num(-1),))
        return I.getitem(a, i)
    k = int(axis.const())
    k = k + len(x.shape) if k < 0 else k
    return I.getitem(a, tuple([SliceV(None, None, None)] * k + [i]))


def eigh(I, a, *r, **kw):
    x = I.arr(a)
    if "numpy.linalg.eigh" in I.hooks:
        a = I.hooks["numpy.linalg.eigh"](I, x)
        x = I.arr(a)
    I.event("eigh", matrix=x, ref=a, args=r, kw=kw)
    if x.shape is None:
        node = x.tags["node"]
        return (OpaqueV(atom("app", ("eigh_w", node), "other", unm=True)), OpaqueV(atom("app", ("eigh_v", node), "other", unm=True)))
    n = x.shape[0]
    l = x.lam()
    return (I.alloc(opq(I, "eigh_w", (l,), (n,), "real")), I.alloc(opq(I, "eigh_v", (l,), (n, n), "complex" if x.dt == "complex" else "real")))


def default_rng(I, seed=None, **kw):
    node = I.node_of(seed)
    if seed is None:
        I.event("rng-unseeded")
        node = ("entropy", I.new("r")[1])
    rid = I.new("r")
    return Special("rng", node=node, id=rid)


def draw(I, rng, kind, size):
    key = rng.data["id"]
    n = I.draws.get(key, 0)
    I.draws[key] = n + 1
    qs = tuple(P(k) for k, _, _ in I.quants)
    I.event("draw", rng=rng, dist=kind, size=size)
    node = atom("draw", (rng.data["node"], kind, n) + qs, "real")
    if size is None:
        return P(node)
    sh = mkshape(I, size)
    nd = atom("drawarr", (rng.data["node"], kind, n) + qs, "other")
    return I.alloc(node_arr2(nd, sh, "real"))


# ---------------------------------------------------------------- pyssht etc


def kwarg(kw, args, pos, name, default):
    if name in kw:
        return kw[name]
    if pos < len(args):
        return args[pos]
    return default


def shape_of(I, L, method):
    m = method
    if isinstance(m, IteV):
        m = I.resolve_ite(m)
    if isinstance(m, str):
        m2 = m.upper()
        if m2 in ("MW",):
            return (L, 2 * L - 1)
        if m2 == "MWSS":
            return (L + 1, 2 * L)
        if m2 == "GL":
            return (L, 2 * L - 1)
        if m2 == "DH":
            return (2 * L, 2 * L - 1)
        if m2 == "MW_POLE":
            return (L, 2 * L - 1)
    nd = I.node_of(m)
    return (P(atom("app", ("ssht_ntheta", L, nd), "int", True)), P(atom("app", ("ssht_nphi", L, nd), "int", True)))


def ssht_args(I, args, kw, names):
    """positional-or-keyword args after the first -> list"""
    out = []
    for p, (n, d) in enumerate(names):
        v = kwarg(kw, args, p, n, d)
        if isinstance(v, IteV):
            v = I.arr(v).elem(()) if _num(v) else I.resolve_ite(v)
        out.append(v)
    return out


TRANSFORM = [("L", None), ("Spin", ZERO), ("Method", "MW"), ("Reality", ZERO), ("backend", "SSHT")]


def reality_node(I, r):
    return I.truth(r)


def ssht_inverse(I, flm, *args, **kw):
    L, spin, method, reality, backend = ssht_args(I, args, kw, TRANSFORM)
    r = reality_node(I, reality)
    a = I.arr(flm)
    node = a.tags["node"] if a.shape is None else a.lam()
    I.event("transform", op="inverse", L=L, method=method, spin=spin, reality=r, arr=a, node=node)
    h = I.hooks.get("pyssht.inverse")
    if h is not None:
        v = h(I, a, L, spin, method, r)
        if v is not None:
            return v
    return I.alloc(opq(I, "ssht_inverse", (node, L, spin, I.node_of(method), r), shape_of(I, L, method), "real" if r == ONE else "complex", unm=False))


def ssht_forward(I, f, *args, **kw):
    L, spin, method, reality, backend = ssht_args(I, args, kw, TRANSFORM)
    r = reality_node(I, reality)
    a = I.arr(f)
    node = a.tags["node"] if a.shape is None else a.lam()
    I.event("transform", op="forward", L=L, method=method, spin=spin, reality=r, arr=a, node=node)
    return I.alloc(opq(I, "ssht_forward", (node, L, spin, I.node_of(method), r), (L * L,), "complex"))


def sample_positions(I, *args, **kw):
    L, method, grid = ssht_args(I, args, kw, [("L", None), ("Method", "MW"), ("Grid", ZERO)])
    m = I.node_of(method)
    sh = shape_of(I, L, method)
    I.event("samples", L=L, method=method)
    tn, pn = atom("app", ("theta", L, m), "other"), atom("app", ("phi", L, m), "other")
    g = I.truth(grid)
    if g == ONE:
        t = Arr(sh, lambda idx: P(atom("sel", (tn, idx[0]), "real", True)), "real")
        p = Arr(sh, lambda idx: P(atom("sel", (pn, idx[1]), "real", True)), "real")
    elif g == ZERO:
        t = node_arr2(tn, (sh[0],), "real", True)
        p = node_arr2(pn, (sh[1],), "real", True)
    else:
        raise Unsupported("symbolic Grid flag")
    return (I.alloc(t), I.alloc(p))


def sample_shape(I, *args, **kw):
    L, method = ssht_args(I, args, kw, [("L", None), ("Method", "MW")])
    return shape_of(I, L, method)


def elm2ind(I, el, m):
    import ast

    a = I.num2(ast.Add(), I.num2(ast.Mult(), el, el), el)
    return I.num2(ast.Add(), a, m)


def m_ind2elm(I, ind):
    from .interp import ind2elm

    if isinstance(ind, Poly):
        c = ind.const()
        if c is not None:
            l = math.isqrt(int(c))
            return (num(l), num(int(c) - l * l - l))
        l, m = ind2elm(ind)
        return (l, m)
    if isinstance(ind, (ARef, Arr)) and I.arr(ind).shape == ():
        return m_ind2elm(I, I.arr(ind).elem(()))
    a = I.arr(ind)
    return (I.alloc(Arr(a.shape, lambda idx: ind2elm(a.elem(idx))[0], "int")), I.alloc(Arr(a.shape, lambda idx: ind2elm(a.elem(idx))[1], "int")))


def create_ylm(I, *args, **kw):
    th, ph, L, spin, rec = ssht_args(I, args, kw, [("thetas", None), ("phis", None), ("L", None), ("Spin", ZERO), ("recursion", "Risbo")])
    nt, np_ = ONE, ONE
    h = I.hooks.get("pyssht.create_ylm")
    if h is not None:
        r = h(I, th, ph, L, spin)
        if r is not None:
            return r
    return I.alloc(opq(I, "ylm", (I.node_of(th), I.node_of(ph), L, spin), (L * L, nt, np_), "complex"))


def rotate_flms(I, flm, *args, **kw):
    al, be, ga, L = ssht_args(I, args, kw, [("alpha", None), ("beta", None), ("gamma", None), ("L", None)])
    ax = kw.get("Axisymmetric", ZERO)
    a = I.arr(flm)
    node = a.tags["node"] if a.shape is None else a.lam()
    return I.alloc(opq(I, "ssht_rotate", (node, al, be, ga, L, I.node_of(kw.get("M_in"))), (L * L,), "complex"))


def strong(name, ndim=0, dt="real", nonneg=False):
    def m(I, *args, **kw):
        nodes = tuple(I.node_of(a) for a in args) + tuple((k, I.node_of(v)) for k, v in sorted(kw.items()))
        if ndim == 0:
            return P(atom("app", (name,) + nodes, dt, nonneg))
        return I.alloc(opq(I, name, nodes, ndim, dt, nonneg))

    return m


def grid_index(name, axis):
    """sample index of an angle: a valid index of the grid of that scheme (anything else is an IndexError)"""
    base = strong(name, 0, "int", True)

    def m(I, angle, L, *args, **kw):

        method = args[0] if args else kw.get("Method", "MW")
        r = base(I, angle, L, Method=method)
        I.event("angle-index", name=name, angle=angle, L=L, Method=method)
        if method == "MWSS" and isinstance(L, Poly):
            n = (L + 1) if axis == 0 else 2 * L
            c = I.st.ctx.copy()
            c.cons = c.cons + [n - 1 - r]
            I.st.ctx = c
        return r

    return m


def strong_obj(name):
    def m(I, *args, **kw):
        nodes = tuple(I.node_of(a) for a in args) + tuple((k, I.node_of(v)) for k, v in sorted(kw.items()))
        I.event("ext-call", name=name, args=args, kw=kw)
        return OpaqueV(atom("app", (name,) + nodes, "other"))

    return m


def m_loadmat(I, *args, **kw):
    h = I.hooks.get("scipy.io.loadmat")
    if h is not None:
        I.event("ext-call", name="loadmat", args=args, kw=kw)
        return h(I, None, list(args), kw)
    return strong_obj("loadmat")(I, *args, **kw)


def gaussian_smoothing(I, flm, *args, **kw):
    L, sigma, bl = ssht_args(I, args, kw, [("L", None), ("sigma_in", None), ("bl_in", None)])
    a = I.arr(flm)
    node = a.tags["node"] if a.shape is None else a.lam()
    return I.alloc(opq(I, "ssht_smooth", (node, L, I.node_of(sigma), I.node_of(bl)), (L * L,), "complex"))


def axisym_wav_l(I, B, L, J_min, *a, **kw):
    J = P(atom("app", ("j_max", B, L, J_min), "int", True))
    kap = opq(I, "s2let_wav", (B, L, J_min), (L, J - J_min + 1), "real")
    k0 = opq(I, "s2let_scal", (B, L, J_min), (L,), "real")
    return (I.alloc(k0), I.alloc(kap))


def j_max(I, B, L, J_min, **kw):
    return P(atom("app", ("j_max", B, L, J_min), "int", True))


def generate_dl(I, beta, L, **kw):
    return I.alloc(opq(I, "ssht_dl", (I.node_of(beta), L), (L, 2 * L - 1, 2 * L - 1), "real"))


def s2_to_cart(I, t, p):
    a = I.arr(t)
    n = (I.node_of(t), I.node_of(p))
    if a.shape is None:
        return tuple(OpaqueV(atom("app", ("cart", k) + n, "other")) for k in "xyz")
    return tuple(ret(I, opq(I, "cart_" + k, n, a.shape, "real")) for k in "xyz")


def spherical_to_cart(I, r, t, p):
    a = I.arr(t)
    n = (I.node_of(r), I.node_of(t), I.node_of(p))
    if a.shape is None:
        return tuple(OpaqueV(atom("app", ("cartr", k) + n, "other")) for k in "xyz")
    return tuple(ret(I, opq(I, "cartr_" + k, n, a.shape, "real")) for k in "xyz")


def read_mesh(I, path=None, *a, **kw):
    path = kw.pop("filename", path)
    I.event("mesh-read", pieces=tuple(I.pieces(path)))
    n = atom("app", ("mesh", I.node_of(path)), "other")
    nv, nf = P(atom("dim", (n, "v"), "int", True)), P(atom("dim", (n, "f"), "int", True))
    return (I.alloc(node_arr2(atom("app", ("mesh_v", n), "other"), (nv, num(3)), "real")),
            I.alloc(node_arr2(atom("app", ("mesh_f", n), "other"), (nf, num(3)), "int", True)))


def igl_upsample(I, v, f, *a, **kw):
    times = a[0] if a else kw.get("number_of_subdivs", ONE)
    I.event("upsample", times=times)
    n = atom("app", ("upsample", I.node_of(v), I.node_of(f), I.node_of(times)), "other")
    nv, nf = P(atom("dim", (n, "v"), "int", True)), P(atom("dim", (n, "f"), "int", True))
    return (I.alloc(node_arr2(atom("app", ("mesh_v", n), "other"), (nv, num(3)), "real")),
            I.alloc(node_arr2(atom("app", ("mesh_f", n), "other"), (nf, num(3)), "int", True)))


def igl_avg(I, f, s, **kw):
    a = I.arr(f)
    b = I.arr(s)
    sh = (a.shape[0] if a.shape is not None else P(atom("dim", (I.node_of(f), 0), "int", True)),)
    if b.shape is not None:
        sh = sh + tuple(b.shape[1:])
    if a.shape is not None and b.shape is not None and len(b.shape) == 1:
        # mean of the three vertex values of every face
        third = num(1) / num(3)
        return I.alloc(Arr(sh, lambda idx: third * (b.elem((a.elem((idx[0], ZERO)),)) + b.elem((a.elem((idx[0], ONE)),)) + b.elem((a.elem((idx[0], num(2))),))), b.dt if b.dt == "complex" else "real"))
    return I.alloc(opq(I, "avg_faces", (I.node_of(f), I.node_of(s)), sh, "real"))


def igl_cot(I, v, f, **kw):
    a = I.arr(v)
    return I.alloc(opq(I, "cotmatrix", (I.node_of(v), I.node_of(f)), (a.shape[0], a.shape[0]), "real"))


def eigsh(I, A, k=num(6), M=None, sigma=None, which="LM", v0=None, **kw):
    a = I.arr(A)
    I.event("eigsh", v0=v0, kw=kw)
    rest = tuple((n, I.node_of(v)) for n, v in sorted(kw.items()))
    nodes = (I.node_of(A), k, I.node_of(M), I.node_of(sigma), which if isinstance(which, str) else I.node_of(which)) + rest
    return (I.alloc(opq(I, "eigsh_w", nodes, (k,), "real")), I.alloc(opq(I, "eigsh_v", nodes, (a.shape[0], k), "real")))


# ---------------------------------------------------------------- builtins


def b_len(I, x):
    x = I.resolve_ite(x) if isinstance(x, IteV) and not _num(x) else x
    if isinstance(x, (str, tuple)):
        return num(len(x))
    if isinstance(x, SStr):
        return P(atom("app", ("strlen", x.pieces), "int", True))
    if isinstance(x, LRef):
        c = I.st.heap[x.lid]
        if isinstance(c, DictC):
            if c.info.get("memo"):
                return P(atom("app", ("dictlen", x.lid[1]), "int", True))
            return num(len(c.d))
        if "ite" in c.info:
            raise Split(I.pick(I.cond_simplify(c.info["ite"][0])))
        n = num(len(c.items))
        return n if c.sym is None else n + c.sym.hi - c.sym.lo
    if isinstance(x, RangeV):
        return I.range_len(x)
    if isinstance(x, OpaqueV):
        return P(atom("dim", (x.node, 0), "int", True, unm=x.node.unm))
    if isinstance(x, Special) and x.kind == "guarded":
        r = ZERO
        for g, _ in x.data["items"]:
            r = r + g
        return r
    a = I.arr(x)
    if a.shape is None:
        return P(atom("dim", (a.tags["node"], 0), "int", True, unm=True))
    if a.shape == ():
        I.raise_if(ONE, "TypeError")
    return a.shape[0]


def type_names(I, t):
    t = I.resolve_ite(t)
    if isinstance(t, tuple):
        out = []
        for x in t:
            out += type_names(I, x)
        return out
    if isinstance(t, ExtV):
        return [t.name.split(".")[-1]]
    if isinstance(t, ClassV):
        return [t]
    if isinstance(t, FuncV):
        return ["func"]
    raise Unsupported("isinstance type")


def b_isinstance(I, v, t):
    if isinstance(v, IteV):
        c = I.cond_simplify(v.c)
        return b_ite(c, P(b_isinstance(I, v.a, t)), P(b_isinstance(I, v.b, t)))
    for n in type_names(I, t):
        if isinstance(n, ClassV):
            if isinstance(v, ObjRef):
                c = I.st.heap[v.oid].cls
                if isinstance(c, ClassV) and n in c.mro:
                    return ONE
            continue
        if n in ("int", "integer", "int64", "int_", "Integral"):
            if isinstance(v, Poly) and v.sort == "int":
                return ONE
        elif n in ("float", "float64", "floating", "Real"):
            if isinstance(v, Poly) and v.sort == "real":
                return ONE
        elif n in ("complex", "complex128"):
            if isinstance(v, Poly) and v.sort == "complex":
                return ONE
        elif n == "bool":
            from .interp import isbool

            if isinstance(v, Poly) and isbool(v):
                return ONE
        elif n == "str":
            if isinstance(v, (str, SStr)):
                return ONE
        elif n == "ndarray":
            if isinstance(v, ARef):
                return ONE
        elif n == "list":
            if isinstance(v, LRef) and isinstance(I.st.heap[v.lid], ListC) and I.st.heap[v.lid].kind == "list":
                return ONE
        elif n == "dict":
            if isinstance(v, LRef) and isinstance(I.st.heap[v.lid], DictC):
                return ONE
        elif n == "set":
            if isinstance(v, LRef) and isinstance(I.st.heap[v.lid], ListC) and I.st.heap[v.lid].kind == "set":
                return ONE
        elif n == "tuple":
            if isinstance(v, tuple):
                return ONE
        elif n in ("Path", "PathLike"):
            if isinstance(v, Special) and v.kind == "path":
                return ONE
        if isinstance(v, OpaqueV):
            return P(atom("ind", ("b", "isinstance", v.node, n), "int", True, unm=v.node.unm))
    return ZERO


def b_hasattr(I, o, name):
    o = I.resolve_ite(o)
    if isinstance(o, ObjRef):
        c = I.st.heap[o.oid]
        if name in c.fields:
            v = c.fields[name]
            if v is UNDEF:
                return ZERO
            if isinstance(v, IteV):
                return ONE - undef_cond(I, v)
            return ONE
        if isinstance(c.cls, ClassV):
            for k in c.cls.mro:
                if name in k.ns:
                    return ONE
        return ZERO
    if isinstance(o, (Poly, ARef)):
        return ONE if name in ("shape", "real", "imag", "conj") else ZERO
    if isinstance(o, ModV):
        fid = I.load(o.name)
        return ONE if name in I.st.heap[fid] else ZERO
    return P(atom("ind", ("b", "hasattr", I.node_of(o), name), "int", True, unm=True))


def undef_cond(I, v):
    if v is UNDEF:
        return ONE
    if isinstance(v, IteV):
        return b_ite(I.cond_simplify(v.c), undef_cond(I, v.a), undef_cond(I, v.b))
    return ZERO


def b_getattr(I, o, name, *d):
    if d:
        h = b_hasattr(I, o, name)
        if h == ZERO:
            return d[0]
    if not isinstance(name, str):
        raise Unsupported("getattr with symbolic name")
    return I.getattr(o, name)


def b_int(I, x=ZERO, *a):
    if isinstance(x, IteV):
        x = I.arr(x).elem(()) if _num(x) else I.resolve_ite(x)
    if isinstance(x, Poly):
        return trunc_(x)
    if isinstance(x, str):
        try:
            return num(int(x))
        except ValueError:
            I.raise_if(ONE, "ValueError")
    if isinstance(x, SStr):
        return P(atom("app", ("parse_int", x.pieces), "int", True))
    if isinstance(x, (ARef, Arr)):
        return trunc_(I.arr(x).elem(()))
    if x is None:
        I.raise_if(ONE, "TypeError")
    return P(atom("app", ("int", I.node_of(x)), "int", True, unm=True))


def b_float(I, x=ZERO):
    if isinstance(x, IteV):
        x = I.arr(x).elem(()) if _num(x) else I.resolve_ite(x)
    if isinstance(x, Poly):
        return x
    if isinstance(x, str):
        if x.lower() in ("inf", "nan", "-inf"):
            return P(atom("sym", (x.lower(),), "real"))
        return fromfloat(float(x))
    if isinstance(x, (ARef,)):
        return I.arr(x).elem(())
    return P(atom("app", ("float", I.node_of(x)), "real", unm=True))


def b_round(I, x, n=None):
    nn = num(0) if n is None else n

    def f(y):
        if y.sort == "int" and n is None:
            return y
        return P(atom("app", ("round", y, nn), "int" if n is None else "real", nonneg_poly(y)))

    return ew1(f, "real")(I, x) if not isinstance(x, Poly) else f(x)


def b_range(I, *a):
    a = [I.arr(x).elem(()) if not isinstance(x, Poly) else x for x in a]
    if len(a) == 1:
        return RangeV(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeV(a[0], a[1], ONE)
    return RangeV(*a)


def b_minmax(f, name):
    def m(I, *a, **kw):
        if kw.get("key") is not None:
            raise Unsupported("min/max key")
        if len(a) == 1:
            x = a[0]
            if isinstance(x, ARef):
                return binred(name)(I, x)
            it = I.concrete_items(x)
        else:
            it = list(a)
        r = it[0] if isinstance(it[0], Poly) else I.arr(it[0]).elem(())
        for y in it[1:]:
            y = y if isinstance(y, Poly) else I.arr(y).elem(())
            r = f(r, y)
        return r

    return m


def b_sum(I, x, start=ZERO):
    import ast

    if isinstance(x, Special) and x.kind == "guarded":
        r = start
        for g, v in x.data["items"]:
            r = I.num2(ast.Add(), r, I.num2(ast.Mult(), g, v))
        return r
    try:
        it = I.concrete_items(x) if not isinstance(x, ARef) else None
    except Unsupported:
        it = None
    if it is not None:
        r = start
        for v in it:
            r = I.binop(ast.Add(), r, v)
        return r
    if isinstance(x, ARef):
        r = do_sum(I, x, ZERO)
    else:
        s = I.as_symseq(x)
        k = fresh("k", "int", nonneg_poly(s.lo))
        e0 = I.arr(s.elem(P(k)))

        def elem(idx):
            body = bounded(I, [(k, s.lo, s.hi)], lambda: e0.elem(idx))
            return sum_(k, s.lo, s.hi, body)

        r = ret(I, Arr(e0.shape, elem, e0.dt))
    return I.num2(ast.Add(), start, r) if start != ZERO else r


def b_list(kind):
    def m(I, x=None):
        if x is None:
            return I.new_list((), kind) if kind != "tuple" else ()
        x = I.resolve_ite(x)
        if isinstance(x, Special) and x.kind == "mapresult":
            I.event("map-consumed", result=x)
            flush_worker(I, x)
            return I.new_list((), sym=I.as_symseq_quiet(x) if hasattr(I, "as_symseq_quiet") else SymSeq(ZERO, P(atom("dim", (atom("mapresult", (x.data["id"],), "other"), 0), "int", True)), lambda k: x.data["value"]))
        try:
            it = I.concrete_items(x) if not isinstance(x, (ARef, Arr)) else None
        except Unsupported:
            it = None
        if it is not None:
            if kind == "set":
                out = []
                for v in it:
                    if not any(v is w or (type(v) is type(w) and v == w) for w in out):
                        out.append(v)
                it = out
            return tuple(it) if kind == "tuple" else I.new_list(it, kind)
        if isinstance(x, LRef):
            c = I.st.heap[x.lid]
            if kind == "tuple":
                return x
            return I.new_list(c.items, kind, c.sym, c.info)
        s = I.as_symseq(x)
        return I.new_list((), kind if kind != "tuple" else "list", s)

    return m


def flush_worker(I, x):
    I.sinks[-1] += x.data.get("excs") or []
    x.data["excs"] = []
    if x.data.get("dead"):
        raise Dead


def b_any_all(name):
    def m(I, x):
        if isinstance(x, Special) and x.kind == "guarded":
            r = ZERO if name == "any" else ONE
            for g, v in x.data["items"]:
                t = I.truth(v)
                r = b_or(r, g * t) if name == "any" else r * b_or(ONE - g, t)
            return r
        try:
            it = I.concrete_items(x)
        except Unsupported:
            s = I.as_symseq(x)
            k = fresh("k", "int", nonneg_poly(s.lo))
            body = I.truth(s.elem(P(k)))
            if name == "any":
                body = ONE - body
            r = forall_([(k, s.lo, s.hi)], body)
            return r if name == "all" else ONE - r
        r = ZERO if name == "any" else ONE
        for v in it:
            t = I.truth(v)
            r = b_or(r, t) if name == "any" else r * t
        return r

    return m


def b_enumerate(I, x, start=ZERO):
    try:
        it = I.concrete_items(x) if not isinstance(x, ARef) else None
    except Unsupported:
        it = None
    if it is not None:
        return I.new_list([(start + k, v) for k, v in enumerate(it)])
    return Special("enumerate", seq=x, start=start)


def b_zip(I, *xs, **kw):
    try:
        its = [I.concrete_items(x) if not isinstance(x, ARef) else None for x in xs]
    except Unsupported:
        its = [None]
    if all(i is not None for i in its):
        return I.new_list([tuple(t) for t in zip(*its)])
    return Special("zip", seqs=list(xs))


def b_map(I, f, *xs):
    if len(xs) == 1:
        try:
            return I.new_list([I.call(f, [x], {}) for x in I.concrete_items(xs[0])])
        except Unsupported:
            s = I.as_symseq(xs[0])
            return I.new_list((), sym=SymSeq(s.lo, s.hi, lambda k: I.call(f, [s.elem(k)], {})))
    its = [I.concrete_items(x) for x in xs]
    return I.new_list([I.call(f, list(t), {}) for t in zip(*its)])


def b_sorted(I, x, key=None, reverse=ZERO):
    it = I.concrete_items(x)
    if key is None and all(isinstance(v, str) for v in it):
        return I.new_list(sorted(it, reverse=reverse == ONE))
    if key is None and all(isinstance(v, Poly) and v.const() is not None for v in it):
        return I.new_list(sorted(it, key=lambda v: v.const(), reverse=reverse == ONE))
    return OpaqueV(atom("app", ("sorted", I.node_of(x)), "other", unm=True))


def b_reversed(I, x):
    try:
        return I.new_list(list(reversed(I.concrete_items(x))))
    except Unsupported:
        s = I.as_symseq(x)
        return I.new_list((), sym=SymSeq(ZERO, s.hi - s.lo, lambda k: s.elem(s.hi - 1 - k)))


def b_abs(I, x):
    return ew1(abs_, "real")(I, x)


def b_next(I, x, *d):
    if isinstance(x, Special) and x.kind == "guarded":
        r = d[0] if d else UNDEF
        none = ONE
        for g, v in x.data["items"]:
            none = none * (ONE - g)
        if not d:
            I.raise_if(none, "StopIteration")
        for g, v in reversed(x.data["items"]):
            r = v if r is UNDEF else I.merge_val(g, v, r)
        return r
    try:
        it = I.concrete_items(x)
    except Unsupported:
        return OpaqueV(atom("app", ("next", I.node_of(x)), "other", unm=True))
    if not it:
        if d:
            return d[0]
        I.raise_if(ONE, "StopIteration")
    return it[0]


def b_type(I, x, *a):
    x = I.resolve_ite(x)
    if isinstance(x, ObjRef):
        return I.st.heap[x.oid].cls
    if isinstance(x, Poly):
        return ExtV("builtins." + {"int": "int", "real": "float", "complex": "complex"}.get(x.sort, "object"))
    if isinstance(x, (str, SStr)):
        return ExtV("builtins.str")
    return OpaqueV(atom("app", ("type", I.node_of(x)), "other", unm=True))


def b_super(I, *a):
    fr = I.frames[-1]
    fn = fr.fn
    if a:
        cls, self_ = a
    else:
        cls = fn.cls
        if cls is None and fn.closure is not None:
            raise Unsupported("super in nested function")
        first = fn.node.args.args[0].arg
        self_ = I.st.heap[fr.fid][first]
    return Special("super", cls=cls, self=self_)


def special_attr(I, o, name):
    k = o.kind
    if k == "super":
        self_ = I.resolve_ite(o.data["self"])
        cls = I.st.heap[self_.oid].cls if isinstance(self_, ObjRef) else self_
        mro = cls.mro
        i = mro.index(o.data["cls"])
        for c in mro[i + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, StaticM):
                    return v.fn
                if isinstance(v, FuncV):
                    return Bound(self_, v)
                return v
        if name in ("__post_init__", "__init__"):
            I.raise_if(ONE, "AttributeError", name)
        I.raise_if(ONE, "AttributeError", name)
    if k == "validinfo":
        if name == "data":
            return o.data["data"]
        return OpaqueV(atom("ext", ("validinfo", name), "other"))
    if k == "shm":
        if name == "name":
            return Special("shmname", block=o.data["block"], size=o.data["size"])
        if name == "buf":
            I.event("shm-buf", block=o.data["block"], handle=o.data["handle"])
            return Special("shmbuf", block=o.data["block"], handle=o.data["handle"])
        if name == "size":
            return P(atom("app", ("shmsize", P(o.data["size"])), "int", True))
    if k == "registry":
        if name == "registry":
            return Special("registry", files=True, **o.data)
        if name in ("path", "abspath"):
            return Special("path", node="<cache>")
    if k == "path":
        if name in ("stem", "name", "suffix"):
            p = I.pieces(o)
            if len(p) == 1 and isinstance(p[0], str):
                import pathlib

                return getattr(pathlib.PurePosixPath(p[0]), name)
            return mkstr([("fmt", atom("app", ("path" + name,) + tuple(p), "other"), "")])
        if name == "parent":
            p = I.pieces(o)
            if all(isinstance(x, str) for x in p):
                return Special("path", node=mkstr(("".join(p).rpartition("/")[0],)))
            return Special("path", node=mkstr([("fmt", atom("app", ("parent",) + tuple(I.pieces(o)), "other"), "")]))
    if k == "frac":
        x = o.data["x"]
        if name in ("numerator", "denominator"):
            c = x.const()
            if c is not None and c.denominator <= 10**6:
                return num(c.numerator if name == "numerator" else c.denominator)
            if x.sort == "int":
                return x if name == "numerator" else ONE
            # the fraction nearest to x with a denominator of at most a million: x = num / den, den >= 1
            if name == "numerator":
                return P(atom("app", ("fracnum", x), "int"))
            return ONE + P(atom("app", ("fracden", x), "int", True))
    if k == "namespace":
        return o.data["get"](name)
    if k == "excattr":
        return OpaqueV(atom("ext", ("exc",), "other"))
    return NotImplemented


def call_method(I, o, name, args, kw):
    if isinstance(o, Special):
        return special_call(I, o, name, args, kw)
    if isinstance(o, (str, SStr)):
        return str_call(I, o, name, args, kw)
    if isinstance(o, LRef):
        return coll_call(I, o, name, args, kw)
    if isinstance(o, tuple):
        if name == "index":
            for k, v in enumerate(o):
                if I.compare_eq(v, args[0]) == ONE:
                    return num(k)
        if name == "count":
            r = ZERO
            for v in o:
                r = r + I.compare_eq(v, args[0])
            return r
        raise Unsupported(f"tuple.{name}")
    if isinstance(o, RangeV):
        raise Unsupported(f"range.{name}")
    return arr_call(I, o, name, args, kw)


ARRM = {}


def arr_call(I, o, name, args, kw):
    a = I.arr(o) if not isinstance(o, Poly) else None
    if a is not None and a.shape is None:
        nodes = tuple(I.node_of(x) for x in args)
        return OpaqueV(atom("app", ("." + name, a.tags["node"]) + nodes, "other", unm=True))
    if name in ("conj", "conjugate"):
        return ew1(conj, a.dt if a is not None else None)(I, o)
    if name == "copy":
        if a is None:
            return o
        return I.alloc(Arr(a.shape, a.elem, a.dt, {k: v for k, v in a.tags.items() if k in ("node", "multiset", "own", "compress", "nonzero")}))
    if name == "item":
        return a.elem(tuple(ZERO for _ in a.shape)) if a is not None else o
    if name == "flatten":
        return reshape(I, o, (num(-1),), copy=True)
    if name == "ravel":
        return reshape(I, o, (num(-1),))
    if name == "reshape":
        sh = args[0] if len(args) == 1 and not isinstance(args[0], Poly) else tuple(args)
        return reshape(I, o, mkshape(I, sh))
    if name == "astype":
        dt = getdt(args[0] if args else kw.get("dtype"), a.dt if a is not None else "real")
        f = {"int": trunc_, "bool": lambda x: x if isbool_(x) or x in (ONE, ZERO) else ONE - b_eq(x)}.get(dt, lambda x: x)
        if a is None:
            return f(o)
        w = width(args[0] if args else kw.get("dtype"))
        if kw.get("copy") == ZERO and isinstance(o, ARef) and dt == a.dt:
            return o
        tags = {"narrow": w} if w is not None and w < {"complex": 16, "real": 8, "int": 8}.get(dt, 1) else {}
        return I.alloc(Arr(a.shape, lambda idx: f(a.elem(idx)), dt, tags))
    if name == "transpose":
        return transpose(I, o, args[0] if len(args) == 1 and not isinstance(args[0], Poly) else (args or None))
    if name == "fill":
        store_all(I, o, I.arr(args[0]))
        return None
    if name == "tolist":
        try:
            n = int(a.shape[0].const())
            return I.new_list([getitem(I, o, num(k)) for k in range(n)])
        except Exception:
            return I.new_list((), sym=I.as_symseq(o))
    if name == "dot":
        return matmul(I, o, args[0])
    if name in ("sort", "partition", "put", "itemset", "resize", "byteswap", "setfield"):
        if name == "byteswap" and not args and not kw:
            raise Unsupported(name)
        return clobber(I, o, "." + name)
    if name == "nonzero":
        return np_nonzero(I, o)
    if name == "std" or name == "var":
        return binred(name, "real", True)(I, o, *args, **kw)
    if name == "argsort":
        return argsort(I, o, *args, **kw)
    if name in ("sum", "prod", "mean", "max", "min", "any", "all", "argmin", "argmax", "trace", "ptp", "cumsum", "clip", "squeeze", "round", "diagonal"):
        f = I.models["numpy." + {"diagonal": "diag"}.get(name, name)]
        return f(I, o, *args, **kw)
    if name in ("is_integer",) and isinstance(o, Poly):
        if o.sort == "int":
            return ONE
        return b_atom("is_integer", o)
    if name in ("toarray", "todense", "tocsr", "tocsc"):
        return o
    raise Unsupported(f"array method {name}")


def special_call(I, o, name, args, kw):
    k = o.kind
    if k == "logger":
        return None if name != "getChild" else o
    if k == "rng":
        if name in ("standard_normal",):
            return draw(I, o, "normal", args[0] if args else kw.get("size"))
        if name in ("normal",):
            import ast

            loc = args[0] if args else kw.get("loc", ZERO)
            sc = args[1] if len(args) > 1 else kw.get("scale", ONE)
            d = draw(I, o, "normal", args[2] if len(args) > 2 else kw.get("size"))
            return I.num2(ast.Add(), loc, I.num2(ast.Mult(), sc, d))
        if name in ("uniform", "random", "integers", "permutation", "choice"):
            return draw(I, o, name, kw.get("size", args[-1] if args else None) if name in ("random",) else kw.get("size"))
        if name in ("shuffle",):
            return clobber(I, args[0], "rng.shuffle")
        raise Unsupported(f"rng.{name}")
    if k == "shm":
        I.event("shm-" + name, block=o.data["block"], handle=o.data["handle"])
        return None
    if k == "executor":
        if name == "map":
            return executor_map(I, o, args, kw)
        if name in ("shutdown",):
            wait = kw.get("wait", args[0] if args else ONE)
            if wait == ONE:
                I.event("executor-exit", ex=o)
            return None
        raise Unsupported(f"executor.{name}")
    if k == "registry":
        if name == "load_registry_from_doi":
            c = world(I, "unreachable", lambda: b_atom("registry-unreachable", I.new("n")[1]))
            I.event("registry-load", reg=o, ok=ONE - c)
            I.raise_if(c, "RequestsConnectionError")
            return None
        if name == "fetch":
            I.event("fetch", pieces=I.pieces(args[0]))
            return Special("path", node=mkstr([("fmt", atom("app", ("fetched",) + tuple(I.pieces(args[0])), "other"), "")]))
        if name == "load_registry":
            I.event("registry-load", reg=o, ok=ONE)
            return None
    if k == "path":
        if name == "exists" or name == "is_file":
            return world(I, "exists", lambda: b_atom("file-exists", I.pieces(o)), I.pieces(o))
        if name == "is_dir":
            ps = I.pieces(o)
            last = ps[-1] if ps else ""
            if isinstance(last, str) and "." in last.rsplit("/", 1)[-1]:
                world(I, "exists", lambda: ONE, ps)
                return ZERO  # a data file is not a directory
            return b_atom("is-dir", ps)
        if name in ("mkdir", "touch"):
            I.event("mkdir", pieces=I.pieces(o), call=name, args=args, kw=kw)
            return None
        if name in ("resolve", "absolute", "expanduser"):
            return o
        if name == "open":
            return OpaqueV(atom("app", ("open",) + tuple(I.pieces(o)), "other"))
        if name in ("glob", "iterdir", "rglob"):
            h = I.hooks.get("pathlib.Path." + name)
            if h:
                return h(I, o, args, kw)
            return OpaqueV(atom("app", (name,) + tuple(I.pieces(o)) + tuple(I.node_of(a) for a in args), "other"))
        if name == "joinpath":
            p = I.pieces(o)
            for a in args:
                p = p + ("/",) + I.pieces(a)
            return Special("path", node=mkstr(p))
        if name in ("rename", "replace", "unlink"):
            I.event("path-" + name, pieces=I.pieces(o), args=args)
            return None
        if name == "with_suffix" or name == "with_name":
            return Special("path", node=mkstr([("fmt", atom("app", (name,) + tuple(I.pieces(o)) + tuple(I.node_of(a) for a in args), "other"), "")]))
        if name == "as_posix":
            return o.data["node"]
    if k == "frac":
        if name == "limit_denominator":
            n = args[0] if args else kw.get("max_denominator")
            I.event("limit-denominator", limit=n)
            return Special("frac", x=o.data["x"], node=atom("app", ("limfrac", o.data["x"], I.node_of(args[0] if args else None)), "other"))
        if name == "as_integer_ratio":
            return (special_attr(I, o, "numerator"), special_attr(I, o, "denominator"))
    if k == "super":
        v = special_attr(I, o, name)
        return I.call(v, args, kw)
    if k == "parser":
        return parser_call(I, o, name, args, kw)
    if k == "mapresult" and name == "__next__":
        I.event("map-consumed", result=o)
        return o.data["value"]
    raise Unsupported(f"{k}.{name}")


def parser_call(I, o, name, args, kw):
    if name == "add_argument":
        o.data["args"].append((list(args), dict(kw), I.loc))
        I.event("add-argument", args=list(args), kw=dict(kw))
        return None
    if name == "parse_args":
        h = I.hooks.get("argparse.parse_args")
        if h is not None:
            return h(I, o, args, kw)
        return Special("namespace", get=lambda n: OpaqueV(atom("ext", ("cliarg", n), "other")))
    return OpaqueV(atom("ext", ("parser", name), "other"))


DBG = False


def executor_map(I, ex, args, kw):
    fn, its = args[0], args[1:]
    mid = I.new("m")[1]
    if len(its) != 1:
        raise Unsupported("executor.map with several iterables")
    chunks = I.resolve_ite(its[0])
    whole = None
    why = None
    c = I.st.heap[chunks.lid] if isinstance(chunks, LRef) else None
    if c is not None and isinstance(c, ListC) and c.sym is not None and not c.items:
        tags = dict(c.sym.tags)
        tags.update(c.info.get("seqtags", {}))
        if tags.get("partition") is not None:
            whole = tags["partition"]
        elif tags.get("elemtags") is not None:
            et = tags["elemtags"]
            if et.get("stride") is not None:
                ms, lo, step = et["stride"]
                rlo, rhi = tags["range"]
                if lo == P(tags["var"]) and rlo == ZERO and is_zero(rhi - step):
                    whole = ms
                else:
                    why = f"strided chunks start at {show(lo)} step {show(step)} over {show(rlo)}..{show(rhi)}"
            elif et.get("lost"):
                why = "index array is not a permutation"
        kind = "chunks"
    elif isinstance(chunks, RangeV) or (isinstance(chunks, ARef) and I.arr(chunks).tags.get("multiset")):
        kind = "items"
    else:
        kind = "chunks"
    I.event("map", id=mid, ex=ex, whole=whole, why=why, kindof=kind, fn=fn, chunks=chunks)
    h = I.hooks.get("executor.map")
    if h is not None:
        return h(I, ex, fn, chunks, mid)
    if kind == "items":
        seq = I.as_symseq(chunks)
        saved = I.sinks
        I.sinks = I.sinks + [[]]
        seq = SymSeq(seq.lo, seq.hi, seq.elem, {**seq.tags, "own": mid})
        I.in_worker = getattr(I, "in_worker", 0) + 1
        before, dead = I.st.copy(), False
        try:
            I.symloop(seq, lambda k: I.call(fn, [k], {}), parallel=True)
        except Dead:
            I.st, dead = before, True
        finally:
            I.in_worker -= 1
            sink = I.sinks[-1]
            I.sinks = saved
        return Special("mapresult", id=mid, value=None, excs=sink, dead=dead)
    if DBG: print("MAP", chunks, c and (c.sym.tags if c.sym else c.items), tags if c else None, why)
    if whole is None or whole[0] != "range":
        I.note("chunk list handed to the executor is not provably a partition")
        raise Unsupported("executor.map over unrecognised chunks" + (f" ({why})" if why else ""))
    arr = Arr((whole[2] - whole[1],), lambda idx: whole[1] + idx[0], "int", {"multiset": whole, "own": mid})
    ref = I.alloc(arr)
    saved = I.sinks
    I.sinks = I.sinks + [[]]
    I.in_worker = getattr(I, "in_worker", 0) + 1
    before, dead, v = I.st.copy(), False, None
    try:
        v = I.call(fn, [ref], {})
    except Dead:
        # every worker fails: the caller learns of it when it asks for the results
        I.st, dead = before, True
    finally:
        I.in_worker -= 1
        sink = I.sinks[-1]
        I.sinks = saved
    return Special("mapresult", id=mid, value=v, excs=sink, dead=dead)


def str_call(I, o, name, args, kw):
    cargs = [a for a in args]
    if isinstance(o, str) and all(isinstance(a, str) or (isinstance(a, Poly) and a.const() is not None) for a in cargs):
        conc = [a if isinstance(a, str) else int(a.const()) for a in cargs]
        if name in ("lower", "upper", "title", "capitalize", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "format", "swapcase", "casefold"):
            return getattr(o, name)(*conc)
        if name in ("startswith", "endswith", "isdigit", "isupper", "islower", "isalpha", "isnumeric"):
            return ONE if getattr(o, name)(*conc) else ZERO
        if name in ("split", "rsplit", "splitlines"):
            return I.new_list(getattr(o, name)(*conc))
        if name in ("partition", "rpartition"):
            return tuple(getattr(o, name)(*conc))
        if name in ("find", "count", "index"):
            return num(getattr(o, name)(*conc))
    if name == "join":
        it = I.concrete_items(args[0])
        out = ""
        for k, x in enumerate(it):
            if k:
                out = I.strcat(out, o)
            out = I.strcat(out, x)
        return out
    if name == "format" and isinstance(o, str):
        import string

        out = ""
        auto = 0
        for lit, fld, spec, _ in string.Formatter().parse(o):
            out = I.strcat(out, lit)
            if fld is not None:
                if fld == "":
                    v = args[auto]
                    auto += 1
                elif fld.isdigit():
                    v = args[int(fld)]
                elif fld in kw:
                    v = kw[fld]
                else:
                    raise Unsupported("format field")
                out = I.strcat(out, I.tostr(v, spec or ""))
        return out
    p = o if isinstance(o, str) else o.pieces
    if name in ("startswith", "endswith"):
        q = args[0]
        if isinstance(o, SStr) and isinstance(q, str):
            e = o.pieces[0 if name == "startswith" else -1]
            if isinstance(e, str) and len(e) >= len(q):
                return ONE if getattr(e, name)(q) else ZERO
        return b_atom(name, p, I.node_of(q))
    if name in ("isdigit", "isnumeric"):
        return b_atom(name, p)
    if name == "split" and isinstance(o, SStr) and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
        from .interp import charset

        cs = [None if isinstance(x, str) else charset(x) for x in o.pieces]
        if all(isinstance(x, str) or (c is not None and args[0] not in c) for x, c in zip(o.pieces, cs)):
            words, cur = [], []
            for x in o.pieces:
                if isinstance(x, str):
                    bits = x.split(args[0])
                    cur.append(bits[0])
                    for b in bits[1:]:
                        words.append(mkstr(cur))
                        cur = [b]
                else:
                    cur.append(x)
            words.append(mkstr(cur))
            return I.new_list(words)
    if name in ("split", "rsplit", "partition"):
        return OpaqueV(atom("app", (name, p) + tuple(I.node_of(a) for a in args), "other"))
    if name == "replace" and isinstance(o, SStr) and all(isinstance(a, str) for a in args):
        # literal pieces are rewritten; symbolic pieces keep a marker
        out = []
        for x in o.pieces:
            if isinstance(x, str):
                out.append(x.replace(*args))
            elif isinstance(x[1], Poly) and x[1].sort == "int" and not any(ch.isdigit() or ch == "-" for ch in args[0]):
                out.append(x)
            else:
                out.append(("fmt", atom("app", ("replace", (x,), args[0], args[1]), "other"), ""))
        return mkstr(out)
    if name in ("removeprefix",) and isinstance(args[0], str) and isinstance(o, SStr) and isinstance(o.pieces[0], str) and o.pieces[0].startswith(args[0]):
        return mkstr((o.pieces[0][len(args[0]):],) + o.pieces[1:])
    return mkstr([("fmt", atom("app", ("str." + name, p) + tuple(I.node_of(a) for a in args), "other"), "")])


def coll_call(I, o, name, args, kw):
    c = I.st.heap[o.lid]
    if isinstance(c, DictC):
        if name == "get":
            k = I.hkey(args[0])
            if isinstance(k, (str, Poly)) and k in c.d:
                return c.d[k]
            if isinstance(k, Poly) and k.const() is None and c.info.get("memo") and I.contains(o, k) == ONE:
                return dict_get(I, o, c, k)
            if c.default is None and not c.info.get("memo"):
                if isinstance(k, SStr):
                    return dict_get(I, o, c, k)
                return args[1] if len(args) > 1 else None
            raise Unsupported("dict.get")
        if name == "items":
            if c.default is not None:
                return OpaqueV(atom("app", ("items", c.default), "other"))
            return I.new_list([(k, v) for k, v in c.d.items()])
        if name == "keys":
            return I.new_list(list(c.d))
        if name == "values":
            return I.new_list(list(c.d.values()))
        if name == "update":
            d = dict(c.d)
            if args:
                d.update(I.st.heap[I.resolve_ite(args[0]).lid].d)
            d.update(kw)
            I.st.heap[o.lid] = DictC(d, c.default, c.info)
            return None
        if name == "copy":
            return I.new_dict(c.d, default=c.default, info=c.info)
        if name == "pop":
            d = dict(c.d)
            if args[0] in d:
                v = d.pop(args[0])
                I.st.heap[o.lid] = DictC(d, c.default, c.info)
                return v
            return args[1]
        if name == "setdefault":
            k = I.hkey(args[0])
            v = args[1] if len(args) > 1 else None
            if isinstance(k, Poly) and k.const() is None:
                if I.contains(o, k) == ONE:
                    return dict_get(I, o, c, k)
                if isinstance(v, Special) and v.kind == "rng" and c.info.get("shared"):
                    setitem(I, o, k, v)  # the event of setitem tells that the stream is continued
                    return v
                if isinstance(v, (Special, ObjRef, LRef)) and I.contains(o, k) != ZERO:
                    raise Unsupported("setdefault of a mutable value under a symbolic key")
                setitem(I, o, k, v)
                return v
            if k in c.d:
                return c.d[k]
            setitem(I, o, k, v)
            return v
        raise Unsupported(f"dict.{name}")
    if name == "append" or name == "add":
        kept(I, c, args[0])
        if "prev" in c.info or c.sym is None:
            if name == "add" and any(type(v) is type(args[0]) and v == args[0] for v in c.items):
                return None
            I.st.heap[o.lid] = ListC(c.items + (args[0],), c.sym, c.kind, c.info)
            return None
        if name == "append" and c.sym is not None:
            s = c.sym
            n = s.hi - s.lo
            x = args[0]
            seq = SymSeq(ZERO, n + 1, lambda k: I.merge_val(b_eq(P(k) - n), x, s.elem(P(k) + s.lo)))
            I.st.heap[o.lid] = ListC(c.items, seq, c.kind, {})
            return None
    if name == "extend":
        it = I.concrete_items(args[0])
        I.st.heap[o.lid] = ListC(c.items + tuple(it), c.sym, c.kind, c.info)
        return None
    if name == "copy":
        return I.new_list(c.items, c.kind, c.sym, c.info)
    if name == "index" and c.sym is None:
        eqs = []
        for k, v in enumerate(c.items):
            eqs.append(I.compare_eq(v, args[0]))
            if eqs[-1] == ONE and all(e == ZERO for e in eqs[:-1]):
                return num(k)
        if all(e == ZERO for e in eqs):
            I.raise_if(ONE, "ValueError")
    if name in ("union", "intersection", "difference") and c.sym is None:
        ys = I.concrete_items(args[0])
        if name == "union":
            return I.new_list(list(c.items) + [y for y in ys if y not in c.items], "set")
        if name == "intersection":
            return I.new_list([x for x in c.items if x in ys], "set")
        return I.new_list([x for x in c.items if x not in ys], "set")
    if name == "issubset":
        ys = I.concrete_items(args[0])
        return ONE if all(x in ys for x in c.items) else ZERO
    if name == "insert" and c.sym is None and args[0].const() is not None:
        it = list(c.items)
        it.insert(int(args[0].const()), args[1])
        I.st.heap[o.lid] = ListC(it, None, c.kind, c.info)
        return None
    if name == "pop" and c.sym is None:
        it = list(c.items)
        v = it.pop(int(args[0].const()) if args else -1)
        I.st.heap[o.lid] = ListC(it, None, c.kind, c.info)
        return v
    if name in ("reverse",) and c.sym is None:
        I.st.heap[o.lid] = ListC(tuple(reversed(c.items)), None, c.kind, c.info)
        return None
    raise Unsupported(f"list.{name}")


# ---------------------------------------------------------------- misc externals


def m_field(I, *a, **kw):
    d = kw.get("default", a[0] if a else ...)
    if isinstance(d, Special) and d.kind == "ellipsis":
        d = ...
    return Special("fieldspec", default=d, factory=kw.get("default_factory"), kw_only=kw.get("kw_only"),
                   init_var=kw.get("init_var"), init=kw.get("init"))


def m_dataclass(name):
    def m(I, *a, **kw):
        return Special("dataclass", name=name, kw=kw)

    return m


def m_validator(I, *fields, **kw):
    return Special("validator", fields=tuple(fields), mode=kw.get("mode", "after"))


def m_fraction(I, x=ZERO, d=None):
    if isinstance(x, IteV):
        x = I.arr(x).elem(())
    if isinstance(x, (ARef, Arr)):
        x = I.arr(x).elem(())
    if not isinstance(x, Poly):
        raise Unsupported("Fraction of non-number")
    if d is not None:
        x = x / d
    return Special("frac", x=canon(x), node=atom("app", ("frac", canon(x)), "other"))


def m_reduce(I, f, seq, *init):
    it = I.concrete_items(seq)
    acc = list(init) + list(it) if init else list(it)
    r = acc[0]
    for x in acc[1:]:
        r = I.call(f, [r, x], {})
    return r


def m_partial(I, f, *a, **kw):
    return Special("partial", fn=f, args=list(a), kw=kw)


def m_resub(I, pat, rep, s, *a, **kw):
    if all(isinstance(x, str) for x in (pat, rep, s)):
        return re.sub(pat, rep, s)
    return mkstr([("fmt", atom("app", ("re.sub", I.node_of(pat), I.node_of(rep), I.node_of(s)), "other"), "")])


def m_getenv(I, name, default=None):
    h = I.hooks.get("os.getenv")
    v = h(I, name, default) if h else None
    if v is not None:
        return v
    s = SStr((("fmt", atom("strsym", (f"env:{name if isinstance(name, str) else I.node_of(name)}:{default if isinstance(default, str) else ''}",), "other"), ""),))
    I.event("getenv", name=name, default=default)
    return s


def m_shm(I, *a, **kw):
    nm = kw.get("name", a[0] if a else None)
    create = kw.get("create", a[1] if len(a) > 1 else ZERO)
    h = I.new("h")[1]
    if isinstance(create, Poly) and create == ONE:
        b = I.new("b")[1]
        size = kw.get("size", a[2] if len(a) > 2 else ZERO)
        I.event("shm-create", block=b, handle=h, site=I.loc, size=size)
        return Special("shm", block=b, handle=h, size=size)
    if isinstance(nm, Special) and nm.kind == "shmname":
        I.event("shm-attach", block=nm.data["block"], handle=h)
        return Special("shm", block=nm.data["block"], handle=h, size=nm.data["size"])
    raise Unsupported("shared memory of unknown name")


def m_ndarray(I, shape, dtype=None, buffer=None, **kw):
    sh = mkshape(I, shape)
    if buffer is None:
        return np_zeros(None)(I, shape, dtype)
    if isinstance(buffer, Special) and buffer.kind == "shmbuf":
        b = buffer.data["block"]
        cells = I.__dict__.setdefault("shm_cells", {})
        if b not in cells or cells[b] not in I.st.heap:
            info = {"shm": b}
            r = I.alloc(Arr(sh, lambda idx: ZERO, getdt(dtype)), info=info)
            info["shm-cid"] = cells[b] = r.cid
            I.event("shm-view", block=b, handle=buffer.data["handle"], shape=sh, dt=getdt(dtype), width=width(dtype), first=True)
        else:
            old = I.st.heap[cells[b]].base.shape
            if old is not None and (len(old) != len(sh) or any(not is_zero(x - y) for x, y in zip(old, sh))):
                I.event("shm-shape-mismatch", block=b)
            I.event("shm-view", block=b, handle=buffer.data["handle"], shape=sh, dt=getdt(dtype), width=width(dtype), first=False)
        return ARef(cells[b], View(sh, lambda idx: tuple(idx), {"handle": buffer.data["handle"]}))
    raise Unsupported("ndarray over buffer")


def m_path(I, *a):
    if not a:
        return Special("path", node="")
    x = a[0]
    if isinstance(x, IteV):
        x = I.resolve_ite(x)
    if isinstance(x, Special) and x.kind == "path" and len(a) == 1:
        return x
    if x is None:
        I.raise_if(ONE, "TypeError")
    p = I.pieces(x)
    for y in a[1:]:
        p = p + ("/",) + I.pieces(y)
    return Special("path", node=mkstr(p))


def m_pathopen(I, p, *a, **kw):
    return OpaqueV(atom("app", ("open",) + tuple(I.pieces(p)), "other"))


def m_toml(I, f, **kw):
    h = I.hooks.get("tomli.load")
    if h:
        return h(I, f, (), kw)
    return OpaqueV(atom("app", ("toml", I.node_of(f)), "other"))


def user_dir(I, name, what, a, k):
    """a directory of the platform; arguments select a subdirectory"""
    s = "<" + name + ">"
    if k.keys() <= {"ensure_exists"} and all(isinstance(x, str) for x in a):
        s = "<" + ":".join((name, *a)) + ">"
        return Special("path", node=s) if what == "path" else s
    k = {n: v for n, v in k.items() if n != "ensure_exists"}
    if a or k:
        s = mkstr([("fmt", atom("app", (s,) + tuple(I.node_of(x) for x in a) + tuple((n, I.node_of(v)) for n, v in sorted(k.items())), "other"), "")])
    return Special("path", node=s) if what == "path" else s


def m_none(I, *a, **kw):
    return None


def m_logger(I, *a, **kw):
    return Special("logger")


def m_pooch(I, *a, **kw):
    rid = I.new("g")[1]
    I.event("registry-create", id=rid)
    return Special("registry", id=rid, node=atom("special", ("registry",), "other"))


def m_executor(I, *a, **kw):
    return Special("executor", id=I.new("e")[1], node=atom("special", ("executor",), "other"), kw=kw)


def m_parser(I, *a, **kw):
    return Special("parser", args=[], node=atom("special", ("parser",), "other"))


def m_dict(I, *a, **kw):
    d = {}
    if a:
        x = I.resolve_ite(a[0])
        if isinstance(x, LRef) and isinstance(I.st.heap[x.lid], DictC):
            d.update(I.st.heap[x.lid].d)
        else:
            for p in I.concrete_items(x):
                k, v = I.concrete_items(p)
                d[k] = v
    d.update(kw)
    return I.new_dict(d)


def m_bool(I, x=ZERO):
    return I.truth(x)


def m_str(I, x="", *a):
    return I.tostr(x)


def m_divmod(I, a, b):
    from .interp import floordiv, mod_

    return (floordiv(a, b), mod_(a, b))


def m_pow(I, a, b, *c):
    return pow_(a, b)


def m_complex(I, a=ZERO, b=ZERO):
    return a + P(atom("I", (), "complex")) * b


def m_setattr(I, o, n, v):
    I.setattr(I.resolve_ite(o), n, v)
    return None


def log10_(x):
    return log_(x) / log_(num(10))


def log2_(x):
    return log_(x) / log_(num(2))


def np_log(I, x, **kw):
    return ew1(log_)(I, x)


def factorial_(x):
    c = x.const()
    if c is not None and c.denominator == 1 and c >= 0:
        return num(math.factorial(int(c)))
    return exp_(gammaln_(x + 1)) if False else P(atom("app", ("factorial", x), "int", True))


def gammaln_(x):
    return P(atom("app", ("gammaln", x), "real"))


def np_angle(x):
    return P(atom("app", ("angle", x), "real"))


def np_round(I, x, decimals=ZERO, **kw):
    return b_round(I, x, decimals)


def np_meshgrid(I, a, b, **kw):
    x, y = I.arr(a), I.arr(b)
    ij = kw.get("indexing") == "ij"
    if ij:
        sh = (x.shape[0], y.shape[0])
        return (I.alloc(Arr(sh, lambda idx: x.elem((idx[0],)), x.dt)), I.alloc(Arr(sh, lambda idx: y.elem((idx[1],)), y.dt)))
    sh = (y.shape[0], x.shape[0])
    return (I.alloc(Arr(sh, lambda idx: x.elem((idx[1],)), x.dt)), I.alloc(Arr(sh, lambda idx: y.elem((idx[0],)), y.dt)))


def np_norm(I, a, ord=None, axis=None, **kw):
    x = I.arr(a)
    sq = I.alloc(Arr(x.shape, lambda idx: abs_(x.elem(idx)) ** 2 if False else x.elem(idx) * conj(x.elem(idx)), "real"))
    if ord is not None or (axis is None and len(x.shape) != 1):
        raise Unsupported("norm")
    return ew1(sqrt_)(I, do_sum(I, sq, axis))


def install(I):
    V.ENGINE = I
    I.models_builtin = {
        "len", "isinstance", "hasattr", "getattr", "setattr", "int", "float", "round", "range", "min", "max", "sum",
        "list", "tuple", "set", "dict", "any", "all", "enumerate", "zip", "map", "sorted", "reversed", "abs", "next",
        "iter", "type", "super", "bool", "str", "divmod", "pow", "complex", "print", "staticmethod", "classmethod",
        "property", "object", "open", "callable", "frozenset", "repr", "filter", "id", "vars", "slice", "bytes", "issubclass", "__import__",
        "hash", "ord", "chr", "input", "exit", "NotImplemented",
    }
    b = {
        "len": b_len, "isinstance": b_isinstance, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": m_setattr,
        "int": b_int, "float": b_float, "round": b_round, "range": b_range, "min": b_minmax(min2, "min"),
        "max": b_minmax(max2, "max"), "sum": b_sum, "list": b_list("list"), "tuple": b_list("tuple"),
        "set": b_list("set"), "frozenset": b_list("set"), "dict": m_dict, "any": b_any_all("any"), "all": b_any_all("all"),
        "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "sorted": b_sorted, "reversed": b_reversed,
        "abs": b_abs, "next": b_next, "iter": ident, "type": b_type, "super": b_super, "bool": m_bool, "str": m_str,
        "slice": m_slice, "divmod": m_divmod, "pow": m_pow, "complex": m_complex, "print": m_none, "repr": m_str,
    }
    M = {"builtins." + k: v for k, v in b.items()}
    np_ = {
        "zeros": np_zeros(0), "ones": np_zeros(1), "empty": np_zeros(None), "full": np_full,
        "zeros_like": np_like(0), "ones_like": np_like(1), "empty_like": np_like(None), "full_like": np_like("full"),
        "array": np_array, "asarray": np_asarray, "ascontiguousarray": np_asarray, "copy": lambda I, x, **k: arr_call(I, x, "copy", [], {}),
        "arange": np_arange, "linspace": np_linspace, "abs": ew1(abs_, "real"), "absolute": ew1(abs_, "real"), "fabs": ew1(abs_, "real"),
        "exp": ew1(exp_), "log": np_log, "log10": ew1(log10_), "log2": ew1(log2_), "sqrt": ew1(sqrt_), "square": ew1(lambda x: x * x),
        "sin": ew1(sin_), "cos": ew1(cos_), "tan": ew1(lambda x: sin_(x) / cos_(x)), "floor": ew1(floor_), "ceil": ew1(fn1("ceil", "int")),
        "arccos": ew1(fn1("arccos")), "arcsin": ew1(fn1("arcsin")), "arctan": ew1(fn1("arctan")), "sign": ew1(fn1("sign")),
        "arctan2": ew2(lambda x, y: P(atom("app", ("arctan2", x, y), "real"))), "hypot": ew2(lambda x, y: sqrt_(x * x + y * y)),
        "cosh": ew1(fn1("cosh")), "sinh": ew1(fn1("sinh")), "tanh": ew1(fn1("tanh")), "expm1": ew1(lambda x: exp_(x) - 1), "log1p": ew1(lambda x: log_(x + 1)),
        "deg2rad": ew1(lambda x: x * pi_() / 180, "real"), "radians": ew1(lambda x: x * pi_() / 180, "real"),
        "rad2deg": ew1(lambda x: x * 180 / pi_(), "real"), "degrees": ew1(lambda x: x * 180 / pi_(), "real"),
        "real": ew1(re_, "real"), "imag": ew1(im_, "real"), "conj": ew1(conj), "conjugate": ew1(conj), "angle": ew1(np_angle, "real"),
        "isnan": ew1(lambda x: b_atom("isnan", x), "bool"),
        "isreal": ew1(lambda x: b_eq(im_(x)), "bool"), "iscomplex": ew1(lambda x: ONE - b_eq(im_(x)), "bool"), "isfinite": ew1(lambda x: b_atom("isfinite", x), "bool"),
        "logical_not": ew1(lambda x: ONE - x, "bool"), "invert": ew1(lambda x: ONE - x, "bool"), "negative": ew1(lambda x: -x), "positive": ident,
        "add": ew2(lambda x, y: x + y), "subtract": ew2(lambda x, y: x - y), "multiply": ew2(lambda x, y: x * y),
        "divide": ew2(lambda x, y: x / y), "true_divide": ew2(lambda x, y: x / y), "power": ew2(pow_), "float_power": ew2(pow_),
        "maximum": ew2(max2), "minimum": ew2(min2), "logical_and": ew2(lambda x, y: x * y, "bool"), "logical_or": ew2(b_or, "bool"),
        "less": ew2(lambda x, y: b_lt(x - y), "bool"), "less_equal": ew2(lambda x, y: b_le(x - y), "bool"),
        "greater": ew2(lambda x, y: b_lt(y - x), "bool"), "greater_equal": ew2(lambda x, y: b_le(y - x), "bool"),
        "equal": ew2(lambda x, y: b_eq(x - y), "bool"), "not_equal": ew2(lambda x, y: ONE - b_eq(x - y), "bool"),
        "bitwise_and": ew2(lambda x, y: x * y, "bool"), "bitwise_or": ew2(b_or, "bool"),
        "sum": do_sum, "prod": do_prod, "mean": do_mean, "max": binred("max"), "amax": binred("max"), "min": binred("min"), "amin": binred("min"),
        "nanmax": binred("nanmax"), "nanmin": binred("nanmin"), "std": binred("std", "real", True), "var": binred("var", "real", True), "median": binred("median"),
        "any": boolred("any"), "all": boolred("all"), "argmin": argred("argmin"), "argmax": argred("argmax"), "argsort": argsort,
        "sort": sort_, "matmul": lambda I, a, b, **k: matmul(I, a, b), "dot": lambda I, a, b, **k: matmul(I, a, b), "einsum": einsum,
        "tensordot": np_tensordot, "column_stack": np_column_stack, "roll": np_roll, "broadcast_to": np_broadcast_to, "repeat": np_repeat,
        "swapaxes": np_swapaxes, "average": np_average, "select": np_select, "fmax": ew2(max2), "fmin": ew2(min2),
        "vdot": lambda I, a, b: matmul(I, ew1(conj)(I, a), b), "inner": lambda I, a, b: matmul(I, a, b), "outer": np_outer,
        "concatenate": np_concatenate, "append": np_append, "insert": np_insert, "pad": np_pad, "where": np_where, "nonzero": np_nonzero,
        "flatnonzero": lambda I, c: np_nonzero(I, c)[0], "argwhere": np_argwhere, "isin": np_isin, "diff": np_diff, "ediff1d": lambda I, x, **k: np_diff(I, reshape(I, x, (num(-1),)) if len(I.arr(x).shape) > 1 else x),
        "tile": np_tile, "triu_indices": np_triu_indices, "eye": np_eye, "identity": np_eye, "trace": np_trace, "diag": np_diag, "flip": np_flip, "take": np_take,
        "flipud": lambda I, a: np_flip(I, a, ZERO), "fliplr": lambda I, a: np_flip(I, a, ONE),
        "stack": np_stack, "vstack": np_vstack, "hstack": np_hstack, "expand_dims": np_expand_dims, "squeeze": np_squeeze,
        "reshape": lambda I, a, s, **k: reshape(I, a, mkshape(I, s)), "ravel": lambda I, a: reshape(I, a, (num(-1),)),
        "transpose": lambda I, a, axes=None: transpose(I, a, axes), "allclose": np_allclose, "clip": np_clip, "ptp": np_ptp, "cumsum": np_cumsum,
        "array_split": np_array_split, "save": np_save, "load": np_load, "linalg.eigh": eigh, "linalg.norm": np_norm,
        "random.default_rng": default_rng, "random.Generator": strong_obj("Generator"), "ndarray": m_ndarray, "round": np_round, "around": np_round, "meshgrid": np_meshgrid,
        "count_nonzero": lambda I, c, **k: do_sum(I, tobool(I.arr(c))), "float64": b_float, "int_": b_int, "int64": b_int, "bool_": m_bool,
        "complex128": lambda I, x=ZERO: x, "array_equal": lambda I, a, b, **k: b_atom("array_equal", I.node_of(a), I.node_of(b)),
        "atleast_1d": ident, "isclose": ew2(lambda x, y: b_atom("isclose", x, y), "bool"),
        "triu": lambda I, a, k=ZERO: tri(I, a, k, True), "tril": lambda I, a, k=ZERO: tri(I, a, k, False), "floor_divide": ew2(lambda x, y: _fd(x, y)), "mod": ew2(lambda x, y: _md(x, y)),
        "errstate": lambda I, **k: Special("ctx"), "iscomplexobj": iscomplexobj, "isrealobj": lambda I, x: ONE - iscomplexobj(I, x),
    }
    for k, v in np_.items():
        M["numpy." + k] = v
    M["ufunc-out"] = ufunc_out
    M["numpy.copyto"] = np_copyto
    for nm in ("put", "place", "putmask", "fill_diagonal", "put_along_axis", "add.at", "subtract.at", "multiply.at", "divide.at", "maximum.at", "minimum.at"):
        M["numpy." + nm] = inplace("numpy." + nm)
    for nm in ("seed", "rand", "randn", "normal", "standard_normal", "uniform", "random", "permutation", "shuffle", "choice", "randint"):
        def glob(I, *a, _n=nm, **kw):
            I.event("global-rng", name=_n)
            if _n == "seed":
                return None
            if _n == "shuffle":
                return clobber(I, a[0], "numpy.random.shuffle")
            return draw(I, Special("rng", node=("global",), id=("r", 0)), _n, kw.get("size"))
        M["numpy.random." + nm] = glob
    ss = {
        "inverse": ssht_inverse, "forward": ssht_forward, "sample_positions": sample_positions, "sample_shape": sample_shape,
        "elm2ind": elm2ind, "ind2elm": m_ind2elm, "create_ylm": create_ylm, "rotate_flms": rotate_flms,
        "theta_to_index": grid_index("theta_to_index", 0), "phi_to_index": grid_index("phi_to_index", 1),
        "generate_dl": generate_dl, "gaussian_smoothing": gaussian_smoothing, "s2_to_cart": s2_to_cart, "spherical_to_cart": spherical_to_cart,
    }
    for k, v in ss.items():
        M["pyssht." + k] = v
    M.update({
        "pys2let.axisym_wav_l": axisym_wav_l, "pys2let.pys2let_j_max": j_max,
        "igl.read_triangle_mesh": read_mesh, "igl.upsample": igl_upsample, "igl.average_onto_faces": igl_avg, "igl.cotmatrix": igl_cot,
        "igl.per_vertex_normals": strong("vertex_normals", 2), "scipy.sparse.linalg.eigsh": eigsh,
        "scipy.special.gammaln": ew1(gammaln_), "scipy.io.loadmat": m_loadmat,
        "gmpy2.factorial": ew1(factorial_), "gmpy2.sqrt": ew1(sqrt_), "math.factorial": ew1(factorial_), "math.lgamma": ew1(gammaln_),
        "math.sqrt": ew1(sqrt_), "math.pi": None, "math.exp": ew1(exp_), "math.log": ew1(log_), "math.sin": ew1(sin_), "math.cos": ew1(cos_),
        "math.radians": np_["deg2rad"], "math.degrees": np_["rad2deg"], "math.floor": ew1(floor_), "math.isqrt": ew1(fn1("isqrt", "int", True)), "math.ceil": ew1(fn1("ceil", "int")),
        "pydantic.Field": m_field, "dataclasses.field": m_field, "pydantic.dataclasses.dataclass": m_dataclass("pydantic.dataclasses.dataclass"),
        "dataclasses.dataclass": m_dataclass("dataclasses.dataclass"), "pydantic.field_validator": m_validator, "pydantic.ConfigDict": m_dict,
        "fractions.Fraction": m_fraction, "functools.reduce": m_reduce, "functools.partial": m_partial, "re.sub": m_resub,
        "os.getenv": m_getenv, "os.environ.get": m_getenv, "multiprocess.shared_memory.SharedMemory": m_shm, "multiprocessing.shared_memory.SharedMemory": m_shm,
        "pathlib.Path": m_path, "pathlib.Path.open": m_pathopen, "tomli.load": m_toml, "tomllib.load": m_toml,
        **{f"platformdirs.{n}_{d}_{w}": (lambda n, d, w: lambda I, *a, **k: user_dir(I, n + "_" + d, w, a, k))(n, d, w)
           for n in ("user", "site") for d in ("data", "cache", "config", "state", "log", "runtime", "documents", "downloads") for w in ("path", "dir")},
        "pooch.create": m_pooch, "pooch.os_cache": lambda I, *a, **k: Special("path", node="<cache>"),
        "concurrent.futures.ThreadPoolExecutor": m_executor, "concurrent.futures.ProcessPoolExecutor": m_executor,
        "argparse.ArgumentParser": m_parser, "logging.getLogger": m_logger, "logging.StreamHandler": m_logger, "logging.Formatter": m_logger,
        "logging.basicConfig": m_none, "numba.njit": lambda I, *a, **k: a[0] if a and isinstance(a[0], FuncV) else ExtV("numba.njit"),
        "numba.prange": b_range, "operator.itemgetter": lambda I, k: Special("pyfunc", fn=lambda x: I.getitem(x, k)),
        "operator.mul": ew2(lambda x, y: x * y), "operator.add": lambda I, a, b: I.binop(__import__("ast").Add(), a, b),
        "typing.cast": lambda I, t, v: v, "warnings.warn": m_none, "copy.deepcopy": lambda I, x: deepcopy(I, x), "copy.copy": lambda I, x: x,
        "itertools.product": lambda I, *a: I.new_list([tuple(x) for x in __import__("itertools").product(*[I.concrete_items(q) for q in a])]),
        "contextlib.suppress": lambda I, *a: Special("suppress", excs=a),
    })
    M.pop("math.pi", None)
    I.models = M
    consts = {
        "numpy.pi": pi_(), "math.pi": pi_(), "numpy.newaxis": ("none",), "numpy.nan": P(atom("sym", ("nan",), "real")),
        "numpy.inf": P(atom("sym", ("inf",), "real", True)), "math.inf": P(atom("sym", ("inf",), "real", True)), "numpy.e": exp_(ONE), "math.e": exp_(ONE),
        "typing.TYPE_CHECKING": ZERO,
    }
    newaxis = ExtV("numpy.newaxis")

    def ext_const(full):
        if full == "numpy.newaxis":
            return newaxis
        return consts.get(full)

    I.ext_const = ext_const
    I.getitem = lambda o, i: getitem(I, o, i)
    I.setitem = lambda o, i, v: setitem(I, o, i, v)
    I.store_all = lambda r, a: store_all(I, r, a)
    I.array_attr = lambda o, n: array_attr(I, o, n)
    I.special_attr = lambda o, n: special_attr(I, o, n)
    I.call_method = lambda o, n, a, k: call_method(I, o, n, a, k)
    I.matmul = lambda a, b: matmul(I, a, b)
    I.flush_worker = lambda x: flush_worker(I, x)
    I.hooks = {}
    I.shm_cells = {}
    I.in_worker = 0
    I.own_vars = set()


def iscomplexobj(I, x):
    if isinstance(x, Poly):
        if x.sort != "complex":
            return ZERO
        return b_atom("iscomplexobj", x)
    a = I.arr(x)
    if a.dt != "complex":
        return ZERO
    n = a.tags.get("node")
    if isinstance(n, Atom) and n.kind == "arr":
        return ONE
    return b_atom("iscomplexobj", I.node_of(a))


def _fd(x, y):
    from .interp import floordiv

    return floordiv(x, y)


def _md(x, y):
    from .interp import mod_

    return mod_(x, y)


def tri(I, a, k, upper):
    x = I.arr(a)
    if upper:
        return I.alloc(Arr(x.shape, lambda idx: b_ite(b_le(idx[0] + k - idx[1]), x.elem(idx), ZERO), x.dt))
    return I.alloc(Arr(x.shape, lambda idx: b_ite(b_le(idx[1] - idx[0] - k), x.elem(idx), ZERO), x.dt))


def deepcopy(I, x):
    if isinstance(x, ARef):
        return arr_call(I, x, "copy", [], {})
    return x


class _S:
    pass


from .interp import Split, Dead  # noqa: E402
