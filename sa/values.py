"""Abstract values of the static value-flow analysis."""
from __future__ import annotations

from .terms import *  # noqa: F403
from .terms import P, Poly, Atom, atom, fresh, mk_binder, b_ite, ONE, ZERO, num


class Unsupported(Exception):
    """construct outside the analysed fragment"""


class Arr:
    """immutable lazily indexed array: shape (tuple of Poly or None), elem(idx)->Poly"""

    __slots__ = ("shape", "elem", "dt", "tags", "_lam", "parts")

    def __init__(self, shape, elem, dt="real", tags=None, parts=None):
        self.shape = shape
        self.elem = elem
        self.dt = dt
        self.tags = tags or {}
        self._lam = None
        self.parts = parts

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def lam(self):
        """canonical node for use inside other terms (valid in the current facts)"""
        if "node" in self.tags:
            return self.tags["node"]
        I = ENGINE
        sig = I.ctx.sig() if I is not None else None
        if self._lam is None:
            self._lam = {}
        r = self._lam.get(sig)
        if r is None:
            vs = [fresh("a", "int", True) for _ in self.shape]
            if I is not None and I.st is not None:
                old = I.st.ctx
                c = old.copy()
                for v, n in zip(vs, self.shape):
                    c.cons = c.cons + [n - 1 - P(v)]
                I.st.ctx = c
                try:
                    body = simp(self.elem(tuple(P(v) for v in vs)), c)
                finally:
                    I.st.ctx = old
            else:
                body = self.elem(tuple(P(v) for v in vs))
            body = eta(body, vs)
            if isinstance(body, tuple):
                r = body[0]
            else:
                r = mk_binder("lam", vs, (tuple(self.shape), canon(body)), "other")
            self._lam[sig] = r
        return r


ENGINE = None
NODE_SHAPE = {}  # array node -> (shape, sort, nonneg, isbool)


def note_shape(node, shape, dt, nonneg):
    if shape is not None and node.kind != "lam":
        NODE_SHAPE.setdefault(node, (tuple(shape), {"bool": "int"}.get(dt, dt), nonneg, dt == "bool"))


def eta(body, vs):
    """lam i. node[i]  ->  node"""
    if isinstance(body, Poly) and len(body.t) == 1:
        (m, c), = body.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == "sel" and len(a.args) == 1 + len(vs) and all(x == P(v) for x, v in zip(a.args[1:], vs)) and isinstance(a.args[0], Atom) and a.args[0].kind == "arr":
                return (a.args[0],)
    return body


def node_arr(node, shape, dt="complex", nonneg=False, tags=None):
    """array whose elements are selections from a canonical node"""
    note_shape(node, shape, dt, nonneg)
    sort = {"bool": "int"}.get(dt, dt)

    def elem(idx):
        if dt == "bool":
            return P(atom("ind", ("b", "sel", node) + tuple(idx), "int", True))
        return P(atom("sel", (node,) + tuple(idx), sort, nonneg))

    t = dict(tags or {})
    if node.kind == "arr":
        t["node"] = node
    return Arr(shape, elem, dt, t)


def sym_arr(name, shape, dt="complex", nonneg=False):
    node = atom("arr", (name, dt), "other")
    return node_arr(node, tuple(P(s) for s in shape), dt, nonneg)


class Store:
    __slots__ = ("q", "guard", "idx", "val", "acc", "loc", "quiet")

    def __init__(self, q, guard, idx, val, acc=False, loc=None):
        self.q, self.guard, self.idx, self.val, self.acc, self.loc = q, guard, idx, val, acc, loc


class Cell:
    """heap content of an array variable"""

    __slots__ = ("base", "stores", "origin", "_snap", "info")

    def __init__(self, base, stores=(), origin=None, info=None):
        self.base, self.stores, self.origin = base, stores, origin
        self._snap = None
        self.info = info or {}


class ARef:
    """reference to an array cell, possibly through a view"""

    __slots__ = ("cid", "view")

    def __init__(self, cid, view=None):
        self.cid, self.view = cid, view

    def __eq__(self, o):
        return isinstance(o, ARef) and o.cid == self.cid and o.view is self.view

    def __hash__(self):
        return hash((self.cid, id(self.view)))

    def __repr__(self):
        return f"<array {self.cid}{' view' if self.view else ''}>"


class View:
    __slots__ = ("shape", "imap", "tags", "writable")

    def __init__(self, shape, imap, tags=None, writable=True):
        self.shape, self.imap, self.tags, self.writable = shape, imap, tags or {}, writable


class SStr:
    """symbolic string: tuple of pieces, each str or ('fmt', node, spec)"""

    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.pieces == self.pieces

    def __hash__(self):
        return hash(self.pieces)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{" + show(p[1], 80) + (":" + p[2] if p[2] else "") + "}" for p in self.pieces)


def mkstr(pieces):
    s = SStr(pieces)
    if not s.pieces:
        return ""
    if len(s.pieces) == 1 and isinstance(s.pieces[0], str):
        return s.pieces[0]
    return s


def sym_str(name):
    return SStr((("fmt", atom("strsym", (name,), "other"), ""),))


class IteV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Ite({show(self.c, 60)}, {self.a!r}, {self.b!r})"


class ObjRef:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, ObjRef) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)

    def __repr__(self):
        return f"<obj {self.oid}>"


class ObjC:
    __slots__ = ("cls", "fields", "info")

    def __init__(self, cls, fields, info=None):
        self.cls, self.fields, self.info = cls, fields, info or {}


class LRef:
    """reference to a list / dict / set in the heap"""

    __slots__ = ("lid",)

    def __init__(self, lid):
        self.lid = lid

    def __eq__(self, o):
        return isinstance(o, LRef) and o.lid == self.lid

    def __hash__(self):
        return hash(self.lid)


class ListC:
    __slots__ = ("items", "sym", "kind", "info")

    def __init__(self, items, sym=None, kind="list", info=None):
        self.items = tuple(items)
        self.sym = sym  # SymSeq appended after items
        self.kind = kind
        self.info = info or {}


class DictC:
    __slots__ = ("d", "default", "info")

    def __init__(self, d, default=None, info=None):
        self.d, self.default, self.info = d, default, info or {}


class SymSeq:
    """symbolic sequence: elem(k) for lo <= k < hi"""

    __slots__ = ("lo", "hi", "elem", "tags")

    def __init__(self, lo, hi, elem, tags=None):
        self.lo, self.hi, self.elem, self.tags = P(lo), P(hi), elem, tags or {}


class FuncV:
    __slots__ = ("node", "mod", "closure", "qual", "defaults", "kwdefaults", "cls", "deco")

    def __init__(self, node, mod, closure, qual, defaults, kwdefaults, cls=None):
        self.node, self.mod, self.closure, self.qual = node, mod, closure, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.deco = ()

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    __slots__ = ("self_", "fn")

    def __init__(self, s, fn):
        self.self_, self.fn = s, fn


class StaticM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ExtV:
    """external (third-party / stdlib) name"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<ext {self.name}>"


class ModV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ClassV:
    __slots__ = ("name", "mod", "bases", "ns", "fields", "validators", "dataclass", "node", "mro", "kwonly_all", "config")

    def __repr__(self):
        return f"<class {self.name}>"


class FieldSpec:
    __slots__ = ("default", "factory", "kw")

    def __init__(self, default=..., factory=None, kw=None):
        self.default, self.factory, self.kw = default, factory, kw or {}


class Method:
    """built-in method of a value"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class OpaqueV:
    """unmodelled non-numeric value with a canonical node"""

    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, OpaqueV) and o.node is self.node

    def __hash__(self):
        return hash(self.node)

    def __repr__(self):
        return f"<opaque {show(self.node, 120)}>"


class ExcV:
    __slots__ = ("cls", "args", "loc")

    def __init__(self, cls, args=(), loc=None):
        self.cls, self.args, self.loc = cls, args, loc

    def __repr__(self):
        return f"{self.cls}@{self.loc}"


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Special:
    """values with an engine-defined behaviour (rng, shared memory, executor...)"""

    __slots__ = ("kind", "data")

    def __init__(self, kind, /, **data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f"<{self.kind}>"


UNDEF = Special("undef")
