"""Whole-program abstract interpreter over the syntax tree of /repo/src/sleplet.

Builds the gated value-flow graph of a call on symbolic inputs: branches are
joined (not enumerated), loops are summarised, repository functions are
followed across calls, third-party calls are modelled or left uninterpreted.
"""
from __future__ import annotations

import ast
import os
import sys

from .terms import *  # noqa: F403
from .terms import REBUILD, LOOK, forall_, _subst, P, Poly, Atom, atom, fresh, sym, mk_binder, b_ite, ONE, ZERO, num, Fr
from .values import *  # noqa: F403

sys.setrecursionlimit(40000)


class Split(Exception):
    def __init__(self, at):
        self.at = at


class Dead(Exception):
    """current state has no continuation"""


class Anchor(Exception):
    """a named entry point has vanished"""


class State:
    __slots__ = ("heap", "pc", "ctx", "facts")

    def __init__(self, heap, pc=(), ctx=None, facts=()):
        self.heap, self.pc, self.ctx, self.facts = heap, pc, ctx or Ctx(), facts

    def copy(self):
        return State(dict(self.heap), self.pc, self.ctx, self.facts)


class Frame:
    __slots__ = ("fid", "fn", "mod", "returns", "loops", "globals_", "nonlocals", "node")

    def __init__(self, fid, fn, mod, node):
        self.fid, self.fn, self.mod, self.node = fid, fn, mod, node
        self.returns = []
        self.loops = []
        self.globals_ = set()
        self.nonlocals = set()


class Loop:
    __slots__ = ("breaks", "conts")

    def __init__(self):
        self.breaks, self.conts = [], []


EXC_TREE = {
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "OSError": "Exception", "FileNotFoundError": "OSError",
    "ConnectionError": "OSError", "AssertionError": "Exception", "StopIteration": "Exception",
    "UnicodeDecodeError": "ValueError", "ValidationError": "ValueError", "Exception": "BaseException",
    "RequestsConnectionError": "OSError", "NameError": "Exception",
}


def exc_matches(cls, handler):
    if handler == "IOError":
        handler = "OSError"
    c = cls
    while c is not None:
        if c == handler:
            return True
        c = EXC_TREE.get(c)
    return handler in ("Exception", "BaseException") and cls not in ("KeyboardInterrupt", "SystemExit")


def charset(piece):
    """characters a formatted piece can consist of (None: anything)"""
    v = piece[1]
    if isinstance(v, Poly):
        return frozenset("0123456789-") if v.sort == "int" and not piece[2] else frozenset("0123456789+-.einfa")
    if isinstance(v, Atom) and v.kind == "app" and v.args and v.args[0] == "replace":
        inner = frozenset()
        for x in v.args[1]:
            c = frozenset(x) if isinstance(x, str) else charset(x)
            if c is None:
                return None
            inner |= c
        return inner | frozenset(v.args[3])
    return None


def may_contain(pieces, needle, whole=False):
    """can a text made of these pieces contain needle (over-approximation)"""
    n = len(needle)
    # set of matched prefix lengths; 0 always restartable unless whole
    cur = {0}
    for p in pieces:
        if isinstance(p, str):
            for ch in p:
                nxt = set() if whole else {0}
                for k in cur:
                    if k == n:
                        nxt.add(n) if not whole else None
                    elif needle[k] == ch:
                        nxt.add(k + 1)
                cur = nxt
        else:
            cs = charset(p)
            work = list(cur)
            while work:
                k = work.pop()
                if k < n and (cs is None or needle[k] in cs) and k + 1 not in cur:
                    cur.add(k + 1)
                    work.append(k + 1)
            if not whole:
                cur.add(0)
    return n in cur


def may_equal(pieces, text):
    return may_contain(pieces, text, True)


class Interp:
    mask_lengths = False  # a mask that does not fit its axis is an error the obligation looks at

    def __init__(self, root=None, package="sleplet"):
        root = root or os.path.join(os.environ.get("SA_ROOT", "/repo"), "src")
        self.root, self.package = root, package
        self.modules = {}
        self.loading = 0
        self.module_heap = {}  # what loading the modules put on the heap  # name -> frame id (top-level env) or None while loading
        self.asts = {}
        self.counter = 0
        self.st = State({})
        self.frames = []
        self.sinks = [[]]
        self.events = []
        self.quants = []
        self.incomplete = []
        self.draws = {}
        self.loc = None
        self.depth = 0
        self.callstack = []
        self.building = []
        self.watch = None
        self.nz_masks = {}
        self.functions_seen = set()
        self.calls_seen = set()
        self.models = {}
        self.methods = {}
        self.assumed_shapes = set()
        self.shape_pairs = []
        self.strict_new = []
        from . import models

        models.install(self)

    # ------------------------------------------------------------ utilities
    world: dict = {}
    guarded = frozenset()  # symbols whose use as an index is checked against the axis
    roots = {"spec": os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}

    def new(self, k):
        self.counter += 1
        return (k, self.counter)

    def note(self, msg):
        s = f"{msg} at {self.locstr()}"
        if s not in self.incomplete:
            self.incomplete.append(s)

    def locstr(self):
        if self.loc is None:
            return "?"
        return f"{self.loc[0]}:{self.loc[1]}"

    def event(self, kind, **kw):
        kw.update(kind=kind, pc=self.st.pc, quants=tuple(self.quants), loc=self.loc,
                  stack=tuple(self.callstack), n=len(self.events), building=tuple(self.building),
                  worker=getattr(self, "in_worker", 0))
        self.events.append(kw)
        return kw

    def pcguard(self, pc, n0=0):
        g = ONE
        for c in pc[n0:]:
            g = g * c
        return g

    @property
    def ctx(self):
        return self.st.ctx if self.st is not None else Ctx()

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.roots.get(name.split(".")[0], self.root), *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.isfile(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.modpath(name)
        if path is None:
            return None
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        before = set(self.st.heap) if not self.loading else None
        self.loading += 1
        try:
            return self._load(name, path)
        finally:
            self.loading -= 1
            if before is not None:
                self.module_heap.update((k, v) for k, v in self.st.heap.items() if k not in before)

    def _load(self, name, path):
        fid = self.new("f")
        self.modules[name] = fid
        env = {"__name__": name, "__file__": path}
        self.st.heap[fid] = env
        if os.path.exists(path):
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            self.asts[name] = (path, tree)
            fr = Frame(fid, None, name, tree)
            saved = (self.frames, self.loc, self.callstack, self.st.pc, self.st.ctx, self.st.facts)
            self.frames = [fr]
            self.callstack = [name]
            st = self.st
            st.pc, st.ctx, st.facts = (), Ctx(), ()
            try:
                for s in tree.body:
                    try:
                        self.exec_stmt(s)
                    except Unsupported as e:
                        self.note(f"module statement not analysed: {e}")
                    except Dead:
                        self.note("module body raises")
                        break
            finally:
                self.frames, self.loc, self.callstack, self.st.pc, self.st.ctx, self.st.facts = saved
        return fid

    def modattr(self, name, attr):
        fid = self.load(name)
        if fid is not None:
            env = self.st.heap[fid]
            if attr in env:
                return env[attr]
        sub = f"{name}.{attr}"
        if self.modpath(sub):
            self.load(sub)
            return ModV(sub)
        raise Anchor(f"{name}.{attr}")

    def resolve(self, dotted):
        """dotted repo name -> value"""
        parts = dotted.split(".")
        for n in range(len(parts), 0, -1):
            m = ".".join(parts[:n])
            if self.modpath(m):
                self.load(m)
                v = ModV(m)
                for a in parts[n:]:
                    v = self.getattr(v, a)
                return v
        raise Anchor(dotted)

    # ------------------------------------------------------------ env
    def lookup(self, name):
        fr = self.frames[-1]
        if name not in fr.globals_:
            env = self.st.heap[fr.fid]
            if name in env:
                v = env[name]
                return v
            c = fr.fn.closure if fr.fn is not None else None
            while c is not None:
                env = self.st.heap[c[0]]
                if name in env:
                    return env[name]
                c = c[1]
        env = self.st.heap[self.modules[fr.mod]]
        if name in env:
            return env[name]
        return self.builtin(name)

    def builtin(self, name):
        if name in self.models_builtin:
            return ExtV("builtins." + name)
        if name in EXC_TREE or name in ("BaseException", "Exception", "IOError"):
            return ExtV("builtins." + name)
        if name == "NotImplemented":
            return OpaqueV(atom("ext", ("NotImplemented",), "other"))
        raise Unsupported(f"unknown name {name}")

    def assign_name(self, name, v):
        fr = self.frames[-1]
        fid = fr.fid
        if name in fr.globals_:
            fid = self.modules[fr.mod]
        elif name in fr.nonlocals:
            c = fr.fn.closure
            while c is not None and name not in self.st.heap[c[0]]:
                c = c[1]
            if c is not None:
                fid = c[0]
        env = dict(self.st.heap[fid])
        env[name] = v
        self.st.heap[fid] = env

    # ------------------------------------------------------------ arrays
    def alloc(self, arr: Arr, origin=None, info=None):
        cid = self.new("c")
        self.st.heap[cid] = Cell(arr, (), origin, info)
        return ARef(cid)

    def snapshot(self, cell):
        if not cell.stores:
            return cell.base
        if cell._snap is None:
            base, stores = cell.base, cell.stores

            def elem(idx):
                if self.in_worker and cell.info.get("shm"):
                    self.event("shm-read", block=cell.info["shm"], cid=cell.info["shm-cid"], idx=tuple(idx))
                return self.lookup_stores(base, stores, idx)

            dt = base.dt
            if any(s.val.sort == "complex" for s in stores if isinstance(s.val, Poly)):
                dt = "complex" if dt == "complex" else dt
            tags = {k: v for k, v in base.tags.items() if k in ("multiset",)} if cell.info.get("keep_multiset") else {}
            cell._snap = Arr(base.shape, elem, dt, tags)
        return cell._snap

    def arr(self, v) -> Arr:
        if isinstance(v, Arr):
            return v
        if isinstance(v, Poly):
            return Arr((), lambda idx: v, "bool" if isbool(v) else v.sort)
        if isinstance(v, ARef):
            cell = self.st.heap[v.cid]
            if cell.info.get("shm"):
                self.event("shm-use", cid=v.cid, block=cell.info["shm"], handle=v.view.tags.get("handle") if v.view else None)
            a = self.snapshot(cell)
            if v.view is None:
                return a
            vw = v.view
            tags = dict(vw.tags)
            if callable(tags.get("derive")):
                tags = tags["derive"](a, cell, v)
            part = vw.tags.get("part")
            if part is not None:
                f = re_ if part == "re" else im_
                return Arr(vw.shape, lambda idx: f(a.elem(vw.imap(idx))), "real", tags)
            return Arr(vw.shape, lambda idx: a.elem(vw.imap(idx)), a.dt, tags)
        if isinstance(v, IteV):
            c = self.cond_simplify(v.c)
            if c == ONE:
                return self.arr(v.a)
            if c == ZERO:
                return self.arr(v.b)
            if v.a is None or v.b is None:
                raise Split(self.pick(c))
            x, y = self.arr(v.a), self.arr(v.b)
            if x.shape is not None and y.shape is not None and len(x.shape) == len(y.shape):
                if x.shape != y.shape and len(x.shape) > 0:
                    raise Split(self.pick(c))
                shape = x.shape
                return Arr(shape, lambda idx: b_ite(c, x.elem(idx), y.elem(idx)), lubdt(x.dt, y.dt))
            raise Split(self.pick(c))
        if isinstance(v, (list, tuple)):
            return self.arr_from_items([self.arr(x) for x in v])
        if isinstance(v, LRef):
            c = self.st.heap[v.lid]
            if isinstance(c, ListC):
                if c.sym is None:
                    return self.arr_from_items([self.arr(x) for x in c.items])
                if not c.items:
                    s = c.sym
                    k = fresh("k", "int", True)
                    e = self.arr(s.elem(P(k)))
                    return Arr((s.hi - s.lo,) + tuple(e.shape),
                               lambda idx: self.arr(s.elem(idx[0] + s.lo)).elem(idx[1:]), e.dt)
        if isinstance(v, RangeV):
            n = self.range_len(v)
            return Arr((n,), lambda idx: v.lo + idx[0] * v.step, "int", {"multiset": ("range", v.lo, v.hi)} if v.step == ONE else {})
        if isinstance(v, OpaqueV):
            return self.opaque_arr(v)
        if v is None:
            raise Unsupported("None used as an array")
        raise Unsupported(f"not an array: {v!r}")

    def opaque_arr(self, v):
        return Arr(None, lambda idx: P(atom("sel", (v.node,) + tuple(idx), "complex", unm=True)), "complex", {"node": v.node})

    def arr_from_items(self, items):
        n = len(items)
        if n == 0:
            return Arr((ZERO,), lambda idx: ZERO, "real")
        sh = items[0].shape

        def elem(idx):
            i = idx[0]
            c = i.const()
            if c is not None:
                return items[int(c) % n].elem(idx[1:])
            r = items[-1].elem(idx[1:])
            for k in range(n - 2, -1, -1):
                r = b_ite(b_eq(i - k), items[k].elem(idx[1:]), r)
            return r

        dt = "int"
        for x in items:
            dt = lubdt(dt, x.dt)
        return Arr((num(n),) + tuple(sh), elem, dt)

    def lookup_stores(self, base, stores, idx):
        ctx = self.ctx
        idx = tuple(simp(P(i), ctx) for i in idx)

        def go(n):
            if n < 0:
                return base.elem(idx)
            s = stores[n]
            r = self.match(s, idx, ctx)
            if r is None:
                return go(n - 1)
            cond, val = r
            if s.acc:
                return go(n - 1) + cond * val
            if cond == ONE:
                return val
            if cond == ZERO:
                return go(n - 1)
            return b_ite(cond, val, go(n - 1))

        return go(len(stores) - 1)

    def match(self, s: Store, idx, ctx):
        """-> None or (cond, value)"""
        if len(s.idx) != len(idx):
            raise Unsupported("store rank mismatch")
        eqs = [P(a) - P(b) for a, b in zip(s.idx, idx)]
        unsolved = [q[0] for q in s.q]
        bounds = {q[0]: (q[1], q[2]) for q in s.q}
        if not unsolved:
            cond = s.guard
            for e in eqs:
                cond = cond * b_eq(e)
            cond = simp(cond, ctx)
            return None if cond == ZERO else (cond, s.val)
        tri = triangle(s, eqs, unsolved)
        if tri is not None:
            cond, f = tri
            cond = simp(cond * f(s.guard), ctx)
            if cond == ZERO:
                return None
            return cond, simp(f(s.val), ctx)
        sol, rest_eqs, unsolved, extra = solve(eqs, unsolved, bounds)
        if sol is None:
            raise Unsupported(f"store index {[show(x) for x in s.idx]} not solvable for {[show(x) for x in idx]}")
        cond = ONE
        for e in rest_eqs:
            cond = cond * b_eq(e)
        cond = cond * extra
        blocks = {}
        for q, lo, hi in s.q:
            if q in sol:
                b = block_of(sol[q], lo, hi, [x for x in unsolved if x not in sol])
                if b is not None:
                    sol = {**{k: subst(v, {b[0]: b[1]}) for k, v in sol.items()}, b[0]: b[1]}
                    blocks[q] = b[2]
        cond = subst(cond, {k: v for k, v in sol.items()})
        left = []
        for q, lo, hi in s.q:
            if q in sol:
                v = sol[q]
                cond = cond * (blocks[q] if q in blocks else b_le(subst(lo, sol) - v) * b_lt(v - subst(hi, sol)))
            else:
                left.append((q, subst(lo, sol), subst(hi, sol)))
        g = subst(s.guard, sol)
        val = subst(s.val, sol)
        cond = simp(cond, ctx)
        if cond == ZERO:
            return None
        if left:
            if s.acc:
                if any(q in cond.fv for q, _, _ in left):
                    g, cond = g * cond, ONE
                val = val * g
                for q, lo, hi in reversed(left):
                    val = sum_(q, lo, hi, val)
                return cond, simp(val, ctx)
            for q, lo, hi in reversed(left):
                if q in g.fv or q in cond.fv:
                    raise Unsupported("guarded last-write")
                cond = cond * b_lt(lo - hi)
                val = subst(val, {q: hi - 1})
        cond = simp(cond * g, ctx)
        if cond == ZERO:
            return None
        return cond, simp(val, ctx)

    def store(self, ref, idx_or_none, valfn, shape_idx=None, acc=False):
        raise NotImplementedError

    def add_store(self, cid, st: Store):
        cell = self.st.heap[cid]
        if cell.info.get("shm"):
            self.event("shm-use", cid=cid, block=cell.info["shm"], write=True, idx=st.idx, q=st.q, guard=st.guard)
            for f, cls in (self.hooks.get("worker-failure", ()) if self.in_worker else ()):
                self.raise_if(f, cls)
        st.loc = self.loc
        self.event("store", cid=cid, origin=cell.origin, store=st, shm=cell.info.get("shm"))
        nc = Cell(cell.base, cell.stores + (st,), cell.origin, cell.info)
        self.st.heap[cid] = nc

    # ------------------------------------------------------------ conditions
    def cond_simplify(self, c):
        c = P(c)
        if c == ONE or c == ZERO:
            return c
        st = self.st
        if c in st.facts:
            return ONE
        if (ONE - c) in st.facts:
            return ZERO
        return simp(c, st.ctx)

    def pick(self, c):
        free = sorted(a for a in inds_of(c) if not any(hasbv(y) for y in a.args))
        free = [a for a in free if a not in self.st.ctx.lits]
        if not free:
            raise Unsupported(f"undecidable condition {show(c, 120)}")
        return free[0]

    def truth(self, v):
        """-> 0/1 Poly"""
        if isinstance(v, Poly):
            if isbool(v):
                return self.cond_simplify(v)
            return self.cond_simplify(ONE - b_eq(v))
        if v is None:
            return ZERO
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.pieces):
                return ONE
            return b_atom("nonempty", v.pieces)
        if isinstance(v, (tuple, list)):
            return ONE if v else ZERO
        if isinstance(v, LRef):
            c = self.st.heap[v.lid]
            if isinstance(c, DictC):
                return ONE if c.d else ZERO
            if c.items:
                return ONE
            if c.sym is None:
                return ZERO
            return self.cond_simplify(b_lt(c.sym.lo - c.sym.hi))
        if isinstance(v, IteV):
            c = self.cond_simplify(v.c)
            if c == ONE:
                return self.truth(v.a)
            if c == ZERO:
                return self.truth(v.b)
            return b_ite(c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Special) and v.kind == "registry" and v.data.get("files"):
            # the list of the published files: empty until it has been loaded
            r = ZERO
            for e in self.events:
                if e["kind"] == "registry-load" and e["reg"].data["id"] == v.data["id"]:
                    r = b_or(r, e["ok"])
            return self.cond_simplify(r)
        if isinstance(v, (ObjRef, FuncV, ClassV, Special, Bound, ExtV)):
            return ONE
        if isinstance(v, ARef):
            a = self.arr(v)
            if a.shape == ():
                return self.truth(a.elem(()))
            raise Unsupported("truth of array")
        if isinstance(v, OpaqueV):
            return P(atom("ind", ("b", "truth", v.node), "int", True, unm=True))
        raise Unsupported(f"truth of {v!r}")

    def assume(self, st, c, val=True):
        """state copy with condition assumed; None when infeasible"""
        c = c if val else ONE - c
        if c == ONE:
            return st.copy()
        if c == ZERO:
            return None
        ns = st.copy()
        ns.pc = st.pc + (c,)
        ns.facts = st.facts + (c,)
        ctx = st.ctx
        lits = []
        lits = implied_lits(c)
        for a, v in lits:
            if ctx.lits.get(a, v) != v:
                return None
            ctx = ctx.assume(a, v)
        if lits and infeasible(ctx.cons):
            return None
        ns.ctx = ctx
        return ns

    def resolve_ite(self, v):
        while isinstance(v, IteV):
            c = self.cond_simplify(v.c)
            if c == ONE:
                v = v.a
            elif c == ZERO:
                v = v.b
            else:
                raise Split(self.pick(c))
        return v

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a if a == b else b_ite(c, a, b)
        if type(a) is type(b) and not isinstance(a, (IteV, Arr)):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, IteV) and a.c == c:
            a = a.a
        if isinstance(b, IteV) and b.c == c:
            b = b.b
        if isinstance(a, IteV) and isinstance(b, IteV) and a.c == b.c:
            return IteV(a.c, self.merge_val(c, a.a, b.a), self.merge_val(c, a.b, b.b))
        if isinstance(a, SStr) and isinstance(b, SStr) and a == b:
            return a
        return IteV(c, a, b)

    def merge_content(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, dict):
            r = {}
            for k in a.keys() | b.keys():
                r[k] = self.merge_val(c, a.get(k, UNDEF), b.get(k, UNDEF))
            return r
        if isinstance(a, Cell):
            if a.base is not b.base:
                raise Unsupported("array rebound differently on two branches")
            n = 0
            while n < len(a.stores) and n < len(b.stores) and a.stores[n] is b.stores[n]:
                n += 1
            out = list(a.stores[:n])
            for s in a.stores[n:]:
                out.append(Store(s.q, s.guard * c, s.idx, s.val, s.acc, s.loc))
            for s in b.stores[n:]:
                out.append(Store(s.q, s.guard * (ONE - c), s.idx, s.val, s.acc, s.loc))
            info = dict(a.info)
            if a.info != b.info:
                info = {k: v for k, v in a.info.items() if b.info.get(k) == v}
            return Cell(a.base, tuple(out), a.origin, info)
        if isinstance(a, ObjC):
            f = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                f[k] = self.merge_val(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
            return ObjC(a.cls, f, a.info)
        if isinstance(a, ListC) and isinstance(b, ListC):
            if len(a.items) == len(b.items) and a.sym is b.sym and "ite" not in a.info and "ite" not in b.info:
                return ListC([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.sym, a.kind, a.info)
            return ListC((), None, a.kind, {"ite": (c, a, b)})
        if isinstance(a, DictC):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                if k in a.d and k in b.d:
                    d[k] = self.merge_val(c, a.d[k], b.d[k])
                else:
                    d[k] = self.merge_val(c, a.d.get(k, UNDEF), b.d.get(k, UNDEF))
            info = dict(a.info)
            info.update(b.info)
            memo = tuple(a.info.get("memo", ()))
            ka, kb = [k for k, _ in memo], [k for k, _ in b.info.get("memo", ())]
            memo += tuple(x for x in b.info.get("memo", ()) if x not in memo)
            if memo:
                info["memo"] = memo
                only = [k for k in ka if k not in kb] + [k for k in kb if k not in ka]
                at = [x for m in P(c).t for x, _ in m if x.kind == "ind"]
                sure = {x.args[-1] for x in at if "indict" in x.args}
                maybe = tuple(a.info.get("maybe", ())) + tuple(b.info.get("maybe", ())) + tuple(k for k in only if k not in sure)
                if maybe:
                    info["maybe"] = maybe
            return DictC(d, a.default, info)
        raise Unsupported(f"merge of {type(a)}")

    def merge2(self, c, s1, s2, base):
        if c == ONE:
            return s1
        if c == ZERO:
            return s2
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k, v in h1.items():
            w = h2.get(k, v)
            heap[k] = v if w is v else self.merge_content(c, v, w)
        for k, v in h2.items():
            if k not in h1:
                heap[k] = v
        return State(heap, base.pc, base.ctx, base.facts)

    def merge_states(self, entry, items):
        """items: [(state, value)] with disjoint path conditions extending entry.pc"""
        if not items:
            return None, None
        if len(items) == 1:
            return items[0]
        n0 = len(entry.pc)
        gs = [self.pcguard(s.pc, n0) for s, _ in items]
        st, val = items[-1]
        cur = State(st.heap, entry.pc, entry.ctx, entry.facts)
        total = gs[-1]
        for i in range(len(items) - 2, -1, -1):
            s, v = items[i]
            val = self.merge_val(gs[i], v, val)
            cur = self.merge2(gs[i], s, cur, entry)
            total = total + gs[i]
        total = simp(total, entry.ctx)
        if total != ONE:
            ns = self.assume(State(cur.heap, entry.pc, entry.ctx, entry.facts), total)
            if ns is None:
                return None, None
            cur = ns
        return cur, val

    # ------------------------------------------------------------ exceptions
    def raise_if(self, cond, cls, *args):
        cond = self.cond_simplify(cond)
        if cond == ZERO:
            return
        if cond == ONE:
            self.sinks[-1].append((self.st.copy(), ExcV(cls, args, self.loc)))
            raise Dead
        bad = self.assume(self.st, cond)
        if bad is not None:
            self.sinks[-1].append((bad, ExcV(cls, args, self.loc)))
        good = self.assume(self.st, cond, False)
        if good is None:
            raise Dead
        self.st = good

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def marks(self):
        fr = self.frames[-1]
        return (len(self.events), [len(x) for x in self.sinks], len(fr.returns),
                [(len(l.breaks), len(l.conts)) for l in fr.loops], dict(self.draws), list(self.quants), len(self.frames))

    def restore(self, m):
        del self.events[m[0]:]
        del self.sinks[len(m[1]):]
        for x, n in zip(self.sinks, m[1]):
            del x[n:]
        del self.frames[m[6]:]
        fr = self.frames[-1]
        del fr.returns[m[2]:]
        del fr.loops[len(m[3]):]
        for l, (a, b) in zip(fr.loops, m[3]):
            del l.breaks[a:]
            del l.conts[b:]
        self.draws = dict(m[4])
        self.quants = list(m[5])

    def exec_stmt(self, node):
        if self.st is None:
            return
        st0 = self.st.copy()
        m = self.marks()
        cs = list(self.callstack)
        mod = self.frames[-1].mod
        self.loc = (self.relpath(mod), node.lineno)
        try:
            getattr(self, "s_" + type(node).__name__, self.s_unknown)(node)
        except Dead:
            self.st = None
            self.callstack = cs
            del self.frames[m[6]:]
        except Split as s:
            self.restore(m)
            self.callstack = list(cs)
            outs = []
            for v in (1, 0):
                ns = self.assume(st0, P(s.at), bool(v))
                if ns is None:
                    continue
                self.st = ns
                self.exec_stmt(node)
                if self.st is not None:
                    outs.append((self.st, None))
            self.callstack = list(cs)
            self.st = self.merge_states(st0, outs)[0]

    def relpath(self, mod):
        p = self.asts.get(mod, (mod, None))[0] if mod in self.asts else (self.modpath(mod) or mod)
        i = p.find("src/")
        return p[i:] if i >= 0 else p

    def s_unknown(self, node):
        raise Unsupported(f"statement {type(node).__name__}")

    def s_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        v = self.eval(node.value)
        if isinstance(v, Special) and v.kind == "mapresult":
            pass

    def s_Pass(self, node):
        pass

    def s_Assert(self, node):
        c = self.truth(self.eval(node.test))
        self.raise_if(ONE - c, "AssertionError")

    def s_Global(self, node):
        self.frames[-1].globals_ |= set(node.names)

    def s_Nonlocal(self, node):
        self.frames[-1].nonlocals |= set(node.names)

    def s_Delete(self, node):
        for t in node.targets:
            if isinstance(t, ast.Name):
                env = dict(self.st.heap[self.frames[-1].fid])
                env.pop(t.id, None)
                self.st.heap[self.frames[-1].fid] = env
            else:
                self.note("del of item")

    def s_Import(self, node):
        for a in node.names:
            top = a.name.split(".")[0]
            if top == self.package or top in self.roots:
                if self.load(a.name) is None:
                    raise Anchor(a.name)
                self.assign_name(a.asname or top, ModV(a.name if a.asname else top))
            else:
                self.assign_name(a.asname or top, ExtV(a.name if a.asname else top))

    def s_ImportFrom(self, node):
        modname = node.module or ""
        if node.level:
            base = self.frames[-1].mod.split(".")
            isp = (self.modpath(self.frames[-1].mod) or "").endswith("__init__.py")
            base = base[: len(base) - node.level + (1 if isp else 0)]
            modname = ".".join(base + ([modname] if modname else []))
        for a in node.names:
            if modname.split(".")[0] == self.package or modname.split(".")[0] in self.roots:
                v = self.modattr(modname, a.name)
            elif modname == "__future__":
                continue
            else:
                v = ExtV(f"{modname}.{a.name}")
            self.assign_name(a.asname or a.name, v)

    def s_FunctionDef(self, node):
        fn = self.make_func(node)
        v = fn
        for d in reversed(node.decorator_list):
            dv = self.eval(d)
            if isinstance(dv, ExtV):
                if dv.name in ("builtins.staticmethod",):
                    v = StaticM(v)
                elif dv.name.startswith(("numba.", "functools.", "abc.", "builtins.property", "contextlib.", "typing.", "typing_extensions.")):
                    fn.deco = fn.deco + (dv.name,)
                else:
                    self.note(f"decorator {dv.name}")
            elif isinstance(dv, OpaqueV):
                fn.deco = fn.deco + (show(dv.node, 60),)
            elif isinstance(dv, Special) and dv.kind == "validator":
                fn.deco = fn.deco + (("validator", dv.data["fields"], dv.data["mode"]),)
            else:
                v = self.call(dv, [v], {})
        self.assign_name(node.name, v)

    s_AsyncFunctionDef = s_unknown

    def make_func(self, node, name=None):
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.eval(d)
        fr = self.frames[-1]
        closure = None
        if fr.fn is not None:
            closure = (fr.fid, fr.fn.closure)
        nm = name or getattr(node, "name", "<lambda>")
        pre = fr.fn.qual + "." if fr.fn is not None else fr.mod + "."
        return FuncV(node, fr.mod, closure, pre + nm, defaults, kwd)

    def s_ClassDef(self, node):
        c = ClassV()
        c.name, c.mod, c.node = node.name, self.frames[-1].mod, node
        c.bases = [self.eval(b) for b in node.bases]
        c.ns, c.fields, c.validators = {}, [], []
        c.dataclass, c.kwonly_all, c.config = None, False, None
        kwonly = False
        fid = self.new("f")
        self.st.heap[fid] = {}
        fr = Frame(fid, None, c.mod, node)
        outer = self.frames[-1]
        self.frames.append(fr)
        try:
            for s in node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ann = ast.unparse(s.annotation)
                    if ann.endswith("KW_ONLY"):
                        kwonly = True
                        continue
                    default = self.eval(s.value) if s.value is not None else ...
                    c.fields.append((s.target.id, ann, default, kwonly))
                    if s.value is not None:
                        self.assign_name(s.target.id, default)
                else:
                    self.exec_stmt(s)
        finally:
            self.frames.pop()
        ns = dict(self.st.heap[fid])
        for k, v in ns.items():
            f = v.fn if isinstance(v, StaticM) else v
            if isinstance(f, FuncV):
                f.cls = c
                f.qual = f"{c.mod}.{c.name}.{k}"
                for d in f.deco:
                    if isinstance(d, tuple) and d[0] == "validator":
                        c.validators.append((d[1], f, d[2]))
        c.ns = ns
        c.mro = [c]
        for b in c.bases:
            if isinstance(b, ClassV):
                for x in b.mro:
                    if x not in c.mro:
                        c.mro.append(x)
        v = c
        for d in reversed(node.decorator_list):
            dv = self.eval(d)
            if isinstance(dv, ExtV) and dv.name.endswith("dataclass"):
                c.dataclass = {"name": dv.name, "kw": {}}
            elif isinstance(dv, Special) and dv.kind == "dataclass":
                c.dataclass = {"name": dv.data["name"], "kw": dv.data["kw"]}
            else:
                self.note("class decorator")
        if c.dataclass:
            kw = c.dataclass["kw"].get("kw_only")
            c.kwonly_all = isinstance(kw, Poly) and kw == ONE
            c.config = c.dataclass["kw"].get("config")
        self.assign_name(node.name, v)

    def s_Return(self, node):
        v = self.eval(node.value) if node.value is not None else None
        fr = self.frames[-1]
        fr.returns.append((self.st, v))
        self.st = None

    def s_Raise(self, node):
        if node.exc is None:
            cur = self.st.heap[self.frames[-1].fid].get("$exc")
            self.raise_if(ONE, cur.cls if cur else "Exception")
        v = self.resolve_ite(self.eval(node.exc))
        if isinstance(v, ExtV):
            self.raise_if(ONE, v.name.split(".")[-1])
        if isinstance(v, ExcV):
            v.loc = self.loc
            self.sinks[-1].append((self.st.copy(), v))
            raise Dead
        raise Unsupported("raise")

    def s_If(self, node):
        c = self.truth(self.eval(node.test))
        self.branch(c, lambda: self.exec_block(node.body), lambda: self.exec_block(node.orelse))

    def branch(self, c, f, g):
        c = self.cond_simplify(c)
        if c == ONE:
            return f()
        if c == ZERO:
            return g()
        entry = self.st
        outs = []
        s1 = self.assume(entry, c)
        s2 = self.assume(entry, c, False)
        self.st = s1
        if s1 is not None:
            f()
            s1 = self.st
        self.st = s2
        if s2 is not None:
            g()
            s2 = self.st
        if s1 is not None and s2 is not None:
            n0 = len(entry.pc)
            g1, g2 = self.pcguard(s1.pc, n0), self.pcguard(s2.pc, n0)
            m = self.merge2(c, s1, s2, entry)
            tot = simp(g1 + g2, entry.ctx)
            if tot != ONE:
                m = self.assume(m, tot)
            self.st = m
        else:
            self.st = s1 if s1 is not None else s2

    def s_Match(self, node):
        v = self.eval(node.subject)

        def go(i):
            if i == len(node.cases):
                return
            case = node.cases[i]
            c, binds = self.pattern(case.pattern, v)
            if case.guard is not None:
                for k, x in binds:
                    self.assign_name(k, x)
                c = c * self.truth(self.eval(case.guard))

            def yes():
                for k, x in binds:
                    self.assign_name(k, x)
                self.exec_block(case.body)

            self.branch(c, yes, lambda: go(i + 1))

        go(0)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.compare_eq(v, self.eval(p.value)), []
        if isinstance(p, ast.MatchSingleton):
            pv = {None: None, True: ONE, False: ZERO}[p.value]
            return self.compare_is(v, pv), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return ONE, ([(p.name, v)] if p.name else [])
            c, b = self.pattern(p.pattern, v)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            c = ZERO
            for q in p.patterns:
                c = b_or(c, self.pattern(q, v)[0])
            return c, []
        if isinstance(p, ast.MatchSequence):
            v = self.resolve_ite(v)
            if isinstance(v, LRef):
                v = tuple(self.st.heap[v.lid].items)
            if not isinstance(v, tuple):
                raise Unsupported("match sequence")
            if len(v) != len(p.patterns):
                return ZERO, []
            c, b = ONE, []
            for q, x in zip(p.patterns, v):
                cc, bb = self.pattern(q, x)
                c, b = c * cc, b + bb
            return c, b
        raise Unsupported(f"pattern {type(p).__name__}")

    def s_With(self, node):
        exits = []
        for it in node.items:
            v = self.resolve_ite(self.eval(it.context_expr))
            target = v
            if isinstance(v, Special) and v.kind == "executor":
                self.event("executor-enter", ex=v)
                exits.append(v)
            elif isinstance(v, Special) and v.kind == "suppress":
                raise Unsupported("contextlib.suppress")
            if it.optional_vars is not None:
                self.assign_target(it.optional_vars, target)
        self.exec_block(node.body)
        for v in reversed(exits):
            if self.st is not None:
                self.event("executor-exit", ex=v)

    def s_Try(self, node):
        entry = self.st.copy()
        sink = []
        self.sinks.append(sink)
        fr = self.frames[-1]
        nret = len(fr.returns)
        self.exec_block(node.body)
        self.sinks.pop()
        if self.st is not None and node.orelse:
            self.exec_block(node.orelse)
        outs = [] if self.st is None else [(self.st, None)]
        pend = []
        for s, e in sink:
            handled = False
            for h in node.handlers:
                if h.type is None:
                    names = ["BaseException"]
                else:
                    self.st = s
                    t = self.eval(h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    names = [x.name.split(".")[-1] if isinstance(x, ExtV) else getattr(x, "name", "?") for x in ts]
                if any(exc_matches(e.cls, n) for n in names):
                    self.st = s
                    if h.name:
                        self.assign_name(h.name, e)
                    env = dict(self.st.heap[fr.fid])
                    env["$exc"] = e
                    self.st.heap[fr.fid] = env
                    self.exec_block(h.body)
                    if self.st is not None:
                        outs.append((self.st, None))
                    handled = True
                    break
            if not handled:
                pend.append((s, e))
        if node.finalbody:
            fin = []
            for s, _ in outs:
                self.st = s
                self.exec_block(node.finalbody)
                if self.st is not None:
                    fin.append((self.st, None))
            outs = fin
            np_ = []
            for s, e in pend:
                self.st = s
                self.exec_block(node.finalbody)
                if self.st is not None:
                    np_.append((self.st, e))
            pend = np_
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for s, v in rets:
                self.st = s
                self.exec_block(node.finalbody)
                if self.st is not None:
                    fr.returns.append((self.st, v))
        self.sinks[-1].extend(pend)
        self.st = self.merge_states(entry, outs)[0]

    def s_Assign(self, node):
        v = self.eval(node.value)
        for t in node.targets:
            self.assign_target(t, v)

    def s_AnnAssign(self, node):
        if node.value is not None:
            self.assign_target(node.target, self.eval(node.value))

    def s_AugAssign(self, node):
        t = node.target
        cur = self.eval(t)
        rhs = self.eval(node.value)
        cur = self.resolve_ite(cur) if isinstance(cur, IteV) else cur
        if isinstance(t, ast.Subscript) and isinstance(cur, ARef) and (isinstance(rhs, Poly) or isinstance(rhs, (ARef, Arr)) and self.arr(rhs).shape == ()):
            o = self.resolve_ite(self.eval(t.value))
            if isinstance(o, ARef) and o.cid != cur.cid:
                from .models import aug_masked

                if aug_masked(self, o, self.eval_index(t.slice), lambda a: self.binop(node.op, a, rhs)):
                    return
        if isinstance(cur, ARef) and self.arr(cur).shape != ():
            r = self.arr(self.binop(node.op, cur, rhs))
            self.store_all(cur, r)
            if isinstance(t, ast.Subscript):
                # selecting by an array of indices or a mask gives a copy, which is then written back
                o = self.resolve_ite(self.eval(t.value))
                if isinstance(o, ARef) and o.cid != cur.cid:
                    self.setitem(o, self.eval_index(t.slice), cur)
            return
        if isinstance(cur, LRef) and isinstance(self.st.heap[cur.lid], ListC) and isinstance(node.op, ast.Add):
            rhs = self.resolve_ite(rhs)
            items = self.concrete_items(rhs)
            c = self.st.heap[cur.lid]
            self.st.heap[cur.lid] = ListC(c.items + tuple(items), c.sym, c.kind, c.info)
            return
        self.assign_target(t, self.binop(node.op, cur, rhs))

    def assign_target(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve_ite(v)
            if isinstance(v, OpaqueV):
                items = [OpaqueV(atom("item", (v.node, k), "other", unm=True)) for k in range(len(t.elts))]
            elif isinstance(v, ARef) or isinstance(v, Arr):
                items = [self.getitem(v, num(k)) for k in range(len(t.elts))]
            else:
                items = self.concrete_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(items) - len(t.elts) + 1
                items = list(items[:i]) + [self.new_list(items[i:i + n])] + list(items[i + n:])
                elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                elts = t.elts
            if len(items) != len(elts):
                self.raise_if(ONE, "ValueError")
            for e, x in zip(elts, items):
                self.assign_target(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.resolve_ite(self.eval(t.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.resolve_ite(self.eval(t.value))
            i = self.eval_index(t.slice)
            self.setitem(o, i, v)
        else:
            raise Unsupported("assignment target")

    def concrete_items(self, v):
        v = self.resolve_ite(v)
        if isinstance(v, (tuple, str)):
            return list(v)
        if isinstance(v, LRef):
            c = self.st.heap[v.lid]
            if isinstance(c, DictC):
                return list(c.d)
            if "ite" in c.info:
                raise Split(self.pick(self.cond_simplify(c.info["ite"][0])))
            if c.sym is None:
                return list(c.items)
        if isinstance(v, RangeV):
            n = self.range_len(v).const()
            if n is not None:
                return [v.lo + v.step * k for k in range(int(max(n, 0)))]
        if isinstance(v, Special) and v.kind == "items":
            return list(v.data["items"])
        raise Unsupported(f"not a concrete sequence: {v!r}")

    def new_list(self, items, kind="list", sym=None, info=None):
        lid = self.new("l")
        self.st.heap[lid] = ListC(items, sym, kind, info)
        return LRef(lid)

    def new_dict(self, d, **kw):
        lid = self.new("l")
        if self.frames and self.frames[-1].fn is None:
            kw["info"] = dict(kw.get("info") or {}, shared=True)
        self.st.heap[lid] = DictC(dict(d), **kw)
        return LRef(lid)

    # ------------------------------------------------------------ loops
    def s_For(self, node, it=None):
        it = self.resolve_ite(self.eval(node.iter)) if it is None else it
        fr = self.frames[-1]
        try:
            items = self.concrete_items(it) if not isinstance(it, ARef) else None
        except Unsupported:
            items = None
        if items is None and isinstance(it, ARef):
            sh = self.arr(it).shape
            if sh and sh[0].const() is not None and sh[0].const() <= 6:
                items = [self.getitem(it, num(k)) for k in range(int(sh[0].const()))]
        if items is not None and len(items) <= 64:
            entry = self.st.copy()
            loop = Loop()
            fr.loops.append(loop)
            for x in items:
                if self.st is None:
                    break
                s0 = self.st.copy()
                self.assign_target(node.target, x)
                self.exec_block(node.body)
                conts, loop.conts = loop.conts, []
                outs = ([(self.st, None)] if self.st is not None else []) + [(s, None) for s in conts]
                self.st = self.merge_states(s0, outs)[0] if outs else None
            fr.loops.pop()
            if self.st is not None and node.orelse:
                self.exec_block(node.orelse)
            outs = ([(self.st, None)] if self.st is not None else []) + [(s, None) for s in loop.breaks]
            self.st = self.merge_states(entry, outs)[0] if outs else None
            return
        seq = self.as_symseq(it)
        if node.orelse:
            raise Unsupported("for-else over symbolic sequence")

        def body(k):
            self.assign_target(node.target, seq.elem(k))
            loop = Loop()
            fr.loops.append(loop)
            s0 = self.st.copy()
            self.exec_block(node.body)
            fr.loops.pop()
            if loop.breaks:
                raise Unsupported("break in symbolic loop")
            outs = ([(self.st, None)] if self.st is not None else []) + [(s, None) for s in loop.conts]
            self.st = self.merge_states(s0, outs)[0] if outs else None

        self.symloop(seq, body)

    def s_While(self, node):
        # concrete while loops, and counters: 'while v < hi: ...; v += 1'
        loop = self.counted(node)
        if loop is not None and (loop[2] - loop[1]).const() is None:
            return self.s_Counter(node, *loop)
        for _ in range(64):
            c = self.truth(self.eval(node.test))
            if c == ZERO:
                return
            if c != ONE:
                raise Unsupported("symbolic while loop")
            loop = Loop()
            self.frames[-1].loops.append(loop)
            self.exec_block(node.body)
            self.frames[-1].loops.pop()
            if loop.breaks or loop.conts:
                raise Unsupported("break/continue in while")
            if self.st is None:
                return
        raise Unsupported("while bound")

    def counted(self, node):
        """(name, first, end) of a loop that only counts the name upwards by one until the end"""
        t = node.test
        if node.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        left, op, right = t.left, type(t.ops[0]), t.comparators[0]
        flip = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        if op in flip:
            left, op, right = right, flip[op], left
        if op not in (ast.Lt, ast.LtE) or not isinstance(left, ast.Name):
            return None
        v = left.id
        steps = [x for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, (ast.Store, ast.Del))]
        last = node.body[-1]
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add):
            one = last.target, last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            a, b = last.value.left, last.value.right
            one = last.targets[0], b if isinstance(a, ast.Name) and a.id == v else a if isinstance(b, ast.Name) and b.id == v else None
        else:
            return None
        if len(steps) != 1 or steps[0] is not one[0] or not isinstance(one[1], ast.Constant) or one[1].value != 1 or type(one[1].value) is not int:
            return None
        inside = [x for b in node.body[:-1] for x in ast.walk(b)]
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Lambda, ast.FunctionDef)) for x in inside):
            return None
        written = {x.id for x in inside if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if any(isinstance(x, (ast.Name,)) and x.id in written for x in ast.walk(right)) or any(isinstance(x, ast.Call) and not (
                isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(right)):
            return None
        touched = {x.func.value.id for x in inside if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}
        if any(isinstance(x, ast.Call) for x in ast.walk(right)) and any(isinstance(x, ast.Name) and x.id in touched for x in ast.walk(right)):
            return None
        first, hi = self.eval(left), self.eval(right)
        if not (isinstance(first, Poly) and isinstance(hi, Poly) and first.sort == "int" and hi.sort == "int"):
            return None
        return v, first, hi + (ONE if op is ast.LtE else ZERO)

    def s_Counter(self, node, v, first, end):
        body = ast.copy_location(ast.For(target=ast.Name(id=v, ctx=ast.Store()), iter=ast.Constant(value=None),
                                         body=node.body[:-1] or [ast.Pass()], orelse=[], type_comment=None), node)
        ast.fix_missing_locations(body)
        self.s_For(body, RangeV(first, end, ONE))
        if self.st is not None:
            from .models import max2

            self.assign_target(body.target, max2(first, end))

    def s_Break(self, node):
        self.frames[-1].loops[-1].breaks.append(self.st)
        self.st = None

    def s_Continue(self, node):
        self.frames[-1].loops[-1].conts.append(self.st)
        self.st = None

    def range_len(self, r):
        if r.step == ONE:
            return r.hi - r.lo
        if r.step == num(-1):
            return r.lo - r.hi
        n = (r.hi - r.lo).const()
        s = r.step.const()
        if n is not None and s:
            import math

            return num(max(0, math.ceil(n / s)))
        return P(atom("ceildiv", (r.hi - r.lo, r.step), "int", True))

    def as_symseq(self, it):
        it = self.resolve_ite(it)
        if isinstance(it, SymSeq):
            return it
        if isinstance(it, RangeV):
            if it.step == ONE:
                return SymSeq(it.lo, it.hi, lambda k: k)
            n = self.range_len(it)
            return SymSeq(ZERO, n, lambda k: it.lo + it.step * k)
        if isinstance(it, (ARef, Arr)):
            a = self.arr(it)
            if a.shape is None:
                n = P(atom("dim", (a.tags["node"], 0), "int", True, unm=True))
            else:
                n = a.shape[0]
            ms = a.tags.get("multiset")
            if ms and ms[0] == "range":
                # order-insensitive iteration over all integers of the range
                return SymSeq(ms[1], ms[2], lambda k: k, {"unordered": True, "own": a.tags.get("own")})
            return SymSeq(ZERO, n, lambda k: self.getitem(it, k))
        if isinstance(it, Special) and it.kind == "enumerate":
            s = self.as_symseq(it.data["seq"])
            start = it.data["start"]
            if s.tags.get("own"):
                # the position of an index within its chunk depends on how the work was split
                return SymSeq(s.lo, s.hi, lambda k: (P(atom("app", ("chunkpos", k), "int", True, unm=True)), s.elem(k)), s.tags)
            return SymSeq(s.lo, s.hi, lambda k: (k - s.lo + start, s.elem(k)))
        if isinstance(it, Special) and it.kind == "zip":
            ss = [self.as_symseq(x) for x in it.data["seqs"]]
            n = ss[0].hi - ss[0].lo
            return SymSeq(ZERO, n, lambda k: tuple(s.elem(k + s.lo) for s in ss))
        if isinstance(it, LRef):
            c = self.st.heap[it.lid]
            if isinstance(c, ListC):
                if c.sym is not None and not c.items:
                    return c.sym
                if c.sym is None:
                    items = c.items
                    return SymSeq(ZERO, num(len(items)), lambda k: self.index_items(items, k))
        if isinstance(it, tuple):
            return SymSeq(ZERO, num(len(it)), lambda k: self.index_items(it, k))
        if isinstance(it, Special) and it.kind == "mapresult":
            self.event("map-consumed", result=it)
            self.flush_worker(it)
            return SymSeq(ZERO, P(atom("dim", (atom("mapresult", (it.data["id"],), "other"), 0), "int", True)),
                          lambda k: it.data["value"])
        if isinstance(it, OpaqueV):
            n = P(atom("dim", (it.node, 0), "int", True, unm=True))
            return SymSeq(ZERO, n, lambda k: OpaqueV(atom("item", (it.node, k), "other", unm=True)))
        if isinstance(it, str):
            return SymSeq(ZERO, num(len(it)), lambda k: self.index_items(tuple(it), k))
        raise Unsupported(f"iteration over {it!r}")

    def index_items(self, items, k):
        c = P(k).const()
        if c is not None:
            return items[int(c)]
        if len(items) == 1:
            return items[0]
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = self.merge_val(b_eq(P(k) - j), items[j], r)
        return r

    def symloop(self, seq, body, parallel=False):
        lo, hi = seq.lo, seq.hi
        n = (hi - lo).const()
        if n is not None and n <= 0:
            return
        k = fresh("k", "int", lo.const() is not None and lo.const() >= 0 or nonneg_poly(lo))
        K = P(k)
        if seq.tags.get("own"):
            self.own_vars.add(k)
        entry = self.st
        base = entry.copy()
        nonempty = b_lt(lo - hi)
        ctx = entry.ctx.copy()
        ctx.cons = ctx.cons + [K - lo, hi - 1 - K]
        modified = set()  # heap keys; frames as (key, var); objects (key, field)
        prevs = {}
        modes = {}  # (key, var) -> 'grow' | shape of an array a scalar turns into
        for attempt in range(8):
            m = self.marks()
            start = base.copy()
            start.ctx = ctx
            prevs = self.install_prevs(start, modified, modes)
            self.st = start
            sinks0 = [len(x) for x in self.sinks]
            s_in = start.copy()
            self.quants.append((k, lo, hi))
            cs = list(self.callstack)
            try:
                body(K)
            finally:
                self.quants = list(m[5])
                self.callstack = cs
            s_out = self.st
            fr = self.frames[-1]
            if len(fr.returns) > m[2]:
                raise Unsupported("return inside symbolic loop")
            if s_out is None:
                break
            mod2 = self.diff_heap(s_in, s_out)
            if mod2 <= modified and not self.loop_modes(prevs, modes, s_in, s_out, k):
                break
            modified |= mod2
            self.restore(m)
        else:
            raise Unsupported("loop effects do not stabilise")
        # exceptions raised inside
        excguard = ZERO
        for i, sk in enumerate(self.sinks):
            for j in range(sinks0[i], len(sk)):
                s, e = sk[j]
                g = self.pcguard(s.pc, len(start.pc))
                ex = ONE - forall_([(k, lo, hi)], ONE - g) if k in g.fv else g * nonempty
                ns = self.assume(entry, ex)
                if ns is not None:
                    ns.heap = s.heap
                    sk[j] = (ns, e)
                    excguard = b_or(excguard, ex)
                else:
                    sk[j] = None
            sk[sinks0[i]:] = [x for x in sk[sinks0[i]:] if x is not None]
        if s_out is None:
            # body never completes: the loop can only be skipped
            self.st = self.assume(entry, ONE - nonempty)
            if self.st is None:
                raise Dead
            return
        self.st = self.finish_loop(base, s_in, s_out, modified, prevs, k, lo, hi, nonempty)
        if excguard != ZERO:
            self.st = self.assume(self.st, ONE - excguard)
            if self.st is None:
                raise Dead

    def diff_heap(self, a, b):
        out = set()
        for key, v in b.heap.items():
            if key not in a.heap:
                continue
            w = a.heap[key]
            if v is w:
                continue
            if isinstance(v, dict):
                for var in v:
                    if var in w and not self.same_val(v[var], w[var]):
                        out.add((key, var))
            elif isinstance(v, ObjC):
                for f in v.fields:
                    if not self.same_val(v.fields[f], w.fields.get(f, UNDEF)):
                        out.add((key, f))
            elif isinstance(v, Cell):
                if v.stores != w.stores:
                    out.add((key, None))
            else:
                out.add((key, None))
        return out

    def same_val(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, IteV):
            return a.c == b.c and self.same_val(a.a, b.a) and self.same_val(a.b, b.b)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same_val(x, y) for x, y in zip(a, b))
        try:
            return a == b
        except Exception:
            return False

    def loop_modes(self, prevs, modes, s_in, s_out, k):
        """decide how loop-carried variables are summarised; True when the body must be rerun"""
        redo = False
        for kv, p in prevs.items():
            c = s_out.heap.get(kv[0])
            if c is None or isinstance(c, (Cell, ListC, DictC)):
                continue
            v = (c if isinstance(c, dict) else c.fields).get(kv[1])
            if not isinstance(v, (ARef, IteV)):
                continue
            try:
                a = self.arr_of_state(s_out, v)
            except (Unsupported, Split):
                continue
            if a.shape is None:
                continue
            if p[0] == "arr" and kv not in modes:
                old = self.arr_of_state(s_in, p[3])
                s0, self.st = self.st, s_out
                try:
                    same = old.shape is not None and len(old.shape) == len(a.shape) and all(canon(simp(x - y, self.ctx)) == ZERO for x, y in zip(old.shape, a.shape))
                finally:
                    self.st = s0
                if not same:
                    modes[kv] = "grow"
                    redo = True
            elif p[0] == "num" and len(a.shape) >= 1 and kv not in modes:
                fv = set()
                for x in a.shape:
                    fv |= P(x).fv
                if k not in fv and p[1] not in fv and not all(x == ONE for x in a.shape):
                    modes[kv] = (tuple(a.shape), a.dt)
                    redo = True
        return redo

    def install_prevs(self, st, modified, modes={}):
        prevs = {}
        for key, var in sorted(modified, key=str):
            if key not in st.heap:
                continue
            c = st.heap[key]
            if isinstance(c, dict) or isinstance(c, ObjC):
                d = c if isinstance(c, dict) else c.fields
                if var not in d:
                    continue
                v = d[var]
                mode = modes.get((key, var))
                if isinstance(v, Poly) and isinstance(mode, tuple):
                    cid0 = self.new("c")
                    st.heap[cid0] = Cell(Arr(mode[0], lambda idx, v=v: v, mode[1]), (), None, {})
                    v = ARef(cid0)
                if isinstance(v, Poly):
                    x = fresh("X_" + str(var), v.sort if v.sort != "int" else "int", False)
                    nv = P(x)
                    prevs[(key, var)] = ("num", x, v)
                elif isinstance(v, ARef):
                    a = self.arr_of_state(st, v)
                    node = atom("arr", (f"prev#{fresh('p').id}", a.dt), "other", unm=True)
                    sh = a.shape
                    if a.shape is not None and mode == "grow":
                        sh = tuple(P(atom("dim", (node, i), "int", True)) for i in range(len(a.shape)))
                        sh = (sh[0],) + tuple(a.shape[1:])
                    cid = self.new("c")
                    st.heap[cid] = Cell(node_arr(node, sh, a.dt), (), None, {})
                    nv = ARef(cid)
                    prevs[(key, var)] = ("arr", node, v, nv)
                else:
                    prevs[(key, var)] = ("keep", None, v)
                    continue
                if isinstance(c, dict):
                    nd = dict(st.heap[key])
                    nd[var] = nv
                    st.heap[key] = nd
                else:
                    nd = dict(st.heap[key].fields)
                    nd[var] = nv
                    st.heap[key] = ObjC(c.cls, nd, c.info)
            elif isinstance(c, Cell):
                snap = self.snapshot(c)
                node = atom("arr", (f"prevcell#{fresh('p').id}", snap.dt), "other", unm=True)
                nc = Cell(node_arr(node, snap.shape, snap.dt), (), c.origin, c.info)
                st.heap[key] = nc
                prevs[(key, None)] = ("cell", node, c, nc)
            elif isinstance(c, ListC):
                prevs[(key, None)] = ("list", None, c)
                st.heap[key] = ListC((), None, c.kind, {"prev": key})
            elif isinstance(c, DictC):
                prevs[(key, None)] = ("dict", None, c)
        return prevs

    def arr_of_state(self, st, v):
        s, self.st = self.st, st
        try:
            return self.arr(v)
        finally:
            self.st = s

    def finish_loop(self, base, s_in, s_out, modified, prevs, k, lo, hi, nonempty):
        K = P(k)
        mp = {}  # numeric loop-carried symbols -> closed form at iteration k
        finals = {}
        syms = {p[1] for p in prevs.values() if p[0] == "num"}
        pending = [(kv, p) for kv, p in prevs.items() if p[0] == "num"]
        progress = True
        while pending and progress:
            progress = False
            for item in list(pending):
                (key, var), (_, x, old) = item
                c = s_out.heap[key]
                v = (c if isinstance(c, dict) else c.fields)[var]
                if isinstance(v, (ARef, IteV)):
                    v = self.unit_scalar(s_out, v)
                if not isinstance(v, Poly):
                    mp[x] = P(atom("loopvar", (f"{var}", x), "real", unm=True))
                    finals[(key, var)] = v
                    pending.remove(item)
                    progress = True
                    continue
                v = subst(v, mp)
                others = (v.fv & syms) - {x} - set(mp)
                if others:
                    continue
                pending.remove(item)
                progress = True
                if v == P(x):
                    mp[x] = old
                    finals[(key, var)] = old
                elif x not in v.fv:
                    prevv = subst(v, {k: K - 1})
                    mp[x] = b_ite(b_eq(K - lo), old, prevv)
                    finals[(key, var)] = b_ite(nonempty, subst(v, {k: hi - 1}), old)
                else:
                    e = v - P(x)
                    if x not in e.fv:
                        j = fresh("j", "int", k.nonneg)
                        ej = subst(e, {k: P(j)})
                        mp[x] = old + sum_(j, lo, K, ej)
                        finals[(key, var)] = old + sum_(j, lo, hi, ej)
                    else:
                        r = canon(v / P(x))
                        if x not in r.fv:
                            j = fresh("j", "int", k.nonneg)
                            rj = subst(r, {k: P(j)})
                            mp[x] = old * P(mk_binder("prod", [j], (lo, K, rj), r.sort))
                            finals[(key, var)] = old * P(mk_binder("prod", [j], (lo, hi, rj), r.sort))
                        else:
                            mp[x] = P(atom("loopvar", (f"{var}", x, K), v.sort, unm=True))
                            finals[(key, var)] = P(atom("loopvar", (f"{var}", x, hi), v.sort, unm=True))
        for (key, var), (_, x, old) in pending:
            mp[x] = P(atom("loopvar", (f"{var}", x, K), "complex", unm=True))
            finals[(key, var)] = P(atom("loopvar", (f"{var}", x, hi), "complex", unm=True))
        last = dict(mp)
        last = {a: subst(b, {k: hi - 1}) for a, b in last.items()}
        last[k] = hi - 1
        # concatenation-style accumulation of arrays
        concat = {}
        for (key, var), p in prevs.items():
            if p[0] != "arr":
                continue
            c = s_out.heap[key]
            v = (c if isinstance(c, dict) else c.fields)[var]
            a = self.arr_of_state(s_out, v) if isinstance(v, (ARef, IteV)) else None
            if a is not None and a.parts and a.parts[0].tags.get("node") is p[1] and len(a.parts) == 2:
                e = a.parts[1]
                concat[(key, var)] = self.concat_loop(self.arr_of_state(base, p[2]), e, k, lo, hi, mp)
        elementwise = {}
        self.loop_arrays = {}
        for (key, var), p in prevs.items():
            if p[0] != "arr" or (key, var) in concat:
                continue
            r = self.elementwise_loop(s_out, base, key, var, p, prevs, mp, k, lo, hi, nonempty)
            if r is not None:
                elementwise[(key, var)] = r[0]
                self.loop_arrays[p[1]] = r[1]
        new = State(dict(s_out.heap), base.pc, base.ctx, base.facts)
        prevnodes = {p[1]: (kv, p) for kv, p in prevs.items() if p[0] in ("cell", "arr")}

        def has_prev(x):
            return bool(nodes_in(x) & set(prevnodes))

        # array cells
        cellstores = {}
        for (key, var), p in prevs.items():
            if p[0] != "cell":
                continue
            c = s_out.heap[key]
            cellstores[key] = [Store(s.q, subst(s.guard, mp), tuple(subst(i, mp) for i in s.idx), subst(s.val, mp), s.acc, s.loc) for s in c.stores]
        for (key, var), p in prevs.items():
            if p[0] != "cell":
                continue
            node, old = p[1], p[2]
            out = []
            inner = []
            for s in cellstores[key]:
                val, acc, guard = s.val, s.acc, s.guard
                if nodes_in(val) & set(prevnodes) or nodes_in(guard) & set(prevnodes):
                    own = P(atom("sel", (node,) + s.idx, node.args[1] if node.args[1] != "bool" else "int"))
                    d = val - own
                    if not (nodes_in(d) & {node}) and not has_prev(guard) and not acc and len(cellstores[key]) == 1:
                        val, acc = d, True
                    if has_prev(val) or has_prev(guard):
                        val = self.resolve_prev(val, prevnodes, cellstores, prevs, base, k, lo, hi, s.q)
                        guard = self.resolve_prev(guard, prevnodes, cellstores, prevs, base, k, lo, hi, s.q)
                out.append(Store(((k, lo, hi),) + tuple(s.q), guard, s.idx, val, acc, s.loc))
            info = old.info
            new.heap[key] = Cell(old.base, old.stores + tuple(out), old.origin, info)
        # scalars, locals, fields
        for key, v in list(new.heap.items()):
            if key not in base.heap:
                continue
            w = base.heap[key]
            src = s_in.heap.get(key)
            if v is src:
                new.heap[key] = w if src is None or src is w else (new.heap[key] if isinstance(w, Cell) and (key, None) in prevs else w)
                continue
            if isinstance(v, dict) or isinstance(v, ObjC):
                d = dict(v if isinstance(v, dict) else v.fields)
                wd = w if isinstance(w, dict) else w.fields
                for var in list(d):
                    if (key, var) in finals and isinstance(finals[(key, var)], Poly):
                        d[var] = finals[(key, var)]
                    elif (key, var) in elementwise:
                        cid = self.new("c")
                        new.heap[cid] = Cell(elementwise[(key, var)], (), None, {})
                        d[var] = ARef(cid)
                        if isinstance(wd.get(var), Poly) and nonempty != ONE:
                            ne = simp(nonempty, base.ctx)
                            if ne != ONE:
                                d[var] = self.merge_val(ne, d[var], wd[var])
                    elif (key, var) in concat:
                        cid = self.new("c")
                        new.heap[cid] = Cell(concat[(key, var)], (), None, {})
                        d[var] = ARef(cid)
                    elif (key, var) in modified or var not in wd:
                        nv = self.subst_val(new, d[var], last)
                        if (key, var) in prevs and prevs[(key, var)][0] == "arr":
                            if self.val_has_nodes(new, nv, {prevs[(key, var)][1]}):
                                self.note(f"loop-carried array {var}")
                        if var in wd and nonempty != ONE:
                            ne = simp(nonempty, base.ctx)
                            nv = self.merge_val(ne, nv, wd[var]) if ne != ONE else nv
                        d[var] = nv
                    elif var in wd:
                        d[var] = wd[var]
                new.heap[key] = d if isinstance(v, dict) else ObjC(v.cls, d, v.info)
            elif isinstance(v, ListC):
                p = prevs.get((key, None))
                if p is None:
                    continue
                old = p[2]
                items = v.items
                if "ite" in v.info:
                    self.note("conditional append in loop")
                    new.heap[key] = ListC((), SymSeq(ZERO, P(fresh("n", "int", True)), lambda kk: OpaqueV(atom("item", ("condlist", key[1], kk), "other", unm=True))), old.kind)
                    continue
                cnt = len(items)
                snap = State(dict(new.heap), base.pc, base.ctx, base.facts)

                def el(kk, items=items, cnt=cnt):
                    kk = P(kk)
                    if cnt == 1:
                        return self.subst_val(self.st, items[0], {**{a: subst(b, {k: kk + lo}) for a, b in mp.items()}, k: kk + lo}, snap)
                    raise Unsupported("several appends per iteration")

                if old.items or old.sym is not None:
                    if (hi - lo).const() is None:
                        self.note("append to non-empty list in loop")
                tags = {}
                if cnt == 1 and not old.items and old.sym is None:
                    tags = {"each": (lambda kk, el=el: el(P(kk) - lo), lo, hi)}
                    if isinstance(items[0], ARef):
                        tags.update({"elemtags": self.arr_of_state(s_out, items[0]).tags, "var": k, "range": (lo, hi)})
                new.heap[key] = ListC(old.items, SymSeq(ZERO, (hi - lo) * num(cnt), el, tags), old.kind)
        # drop prev cells
        return new

    def elementwise_loop(self, s_out, base, key, var, p, prevs, mp, k, lo, hi, nonempty):
        """array variable rebound in every iteration: new[i] = old[i] + g(k, i)  (or * g, or g)

        returns (array after the loop, function index -> value at iteration k) or None"""
        c = s_out.heap[key]
        v = (c if isinstance(c, dict) else c.fields)[var]
        node = p[1]
        try:
            a = self.arr_of_state(s_out, v) if isinstance(v, (ARef, IteV)) else None
            old = self.arr_of_state(base, p[2]) if p[2].cid in base.heap else self.arr_of_state(s_out, p[2])
        except (Unsupported, Split):
            return None
        if a is None or a.shape is None or old.shape is None or len(a.shape) != len(old.shape):
            return None
        K = P(k)
        ats = tuple(fresh("e", "int", True) for _ in a.shape)
        idx = tuple(P(q) for q in ats)
        s0, self.st = self.st, s_out
        try:
            x = self.arr(p[3]).elem(idx) if p[3].cid in s_out.heap else None
            v = a.elem(idx)
        except (Unsupported, Split):
            return None
        finally:
            self.st = s0
        if x is None:
            return None
        nodes = {q[1] for q in prevs.values() if q[0] in ("arr", "cell")}
        v = subst(v, mp)

        def oldat(ix):
            return old.elem(ix)

        if v == x:
            return old, oldat
        if not (nodes_in(v) & nodes):
            f = v

            def at(ix, kk):
                return subst(f, {**dict(zip(ats, ix)), k: kk})
            return (Arr(a.shape, lambda ix: b_ite(nonempty, at(ix, hi - 1), oldat(ix)) if nonempty != ONE else at(ix, hi - 1), a.dt),
                    lambda ix: b_ite(b_eq(K - lo), oldat(ix), at(ix, K - 1)))
        e = canon(v - x)
        if not (nodes_in(e) & nodes):
            def acc(ix, upto):
                j = fresh("j", "int", k.nonneg)
                ej = subst(e, {**dict(zip(ats, ix)), k: P(j)})
                return oldat(ix) + sum_(j, lo, upto, ej)
            return Arr(a.shape, lambda ix: acc(ix, hi), lubdt(old.dt, a.dt)), lambda ix: acc(ix, K)
        try:
            r = canon(v / x)
        except Exception:
            return None
        if not (nodes_in(r) & nodes):
            def mul(ix, upto):
                j = fresh("j", "int", k.nonneg)
                rj = subst(r, {**dict(zip(ats, ix)), k: P(j)})
                return oldat(ix) * P(mk_binder("prod", [j], (lo, upto, rj), r.sort))
            return Arr(a.shape, lambda ix: mul(ix, hi), lubdt(old.dt, a.dt)), lambda ix: mul(ix, K)
        return None

    def unit_scalar(self, st, v):
        """a one-element array accumulated into a scalar is handled as that scalar"""
        try:
            a = self.arr_of_state(st, v)
            if a.shape is not None and len(a.shape) <= 1 and all(x == ONE for x in a.shape):
                s0, self.st = self.st, st
                try:
                    return a.elem(tuple(ZERO for _ in a.shape))
                finally:
                    self.st = s0
        except (Unsupported, Split):
            pass
        return v

    def val_has_nodes(self, st, v, nodes):
        if isinstance(v, ARef):
            try:
                return bool(nodes_in(self.arr_of_state(st, v).lam()) & nodes)
            except Exception:
                return True
        return False

    def concat_loop(self, old, e, k, lo, hi, mp):
        """old ++ e(lo) ++ ... ++ e(hi-1) along axis 0"""
        K = P(k)
        length = subst(e.shape[0], mp)
        lamlen = mk_binder("lam", [k], ((hi - lo,), length), "other")
        n0 = old.shape[0].const() if old.shape is not None else None
        if n0 != 0:
            self.note("concatenation onto a non-empty array in a loop")
        total = sum_(k, lo, hi, length)

        q = fresh("q", "int", k.nonneg)
        start = sum_(k, lo, P(q), length)
        after = subst(start, {q: P(q) + 1})

        def elem(idx):
            r = idx[0]
            found = block_of(r, start, after, [q])
            if found is not None:
                blk = found[1]
                off = r - subst(start, {q: blk})
                y = r - (start - P(q) * P(q))
                if blk == ell_(y):
                    off = blk + emm_(y)
            else:
                blk = P(atom("blk", (lamlen, lo, hi, r), "int", False))
                off = P(atom("off", (lamlen, lo, hi, r), "int", True))
            v = e.elem((off,) + tuple(idx[1:]))
            v = subst(v, mp)
            return subst(v, {k: blk})

        return Arr((total,) + tuple(e.shape[1:]), elem, lubdt(old.dt, e.dt))

    def resolve_prev(self, x, prevnodes, cellstores, prevs, base, k, lo, hi, own=()):
        """replace reads of loop-start contents that no earlier iteration wrote"""
        owncons = []
        for q, l, h in own:
            owncons += [P(q) - l, h - 1 - P(q)]

        def resolve(a):
            (key, var), p = prevnodes[a.args[0]]
            idx = tuple(_subst(i, sm, frozenset(), True, {}) for i in a.args[1:])
            if p[0] != "cell" and a.args[0] in self.loop_arrays:
                return self.loop_arrays[a.args[0]](idx)
            if p[0] != "cell":
                self.note("loop-carried array value")
                return P(atom("loopelem", (a,), "complex", unm=True))
            ok = True
            for s in cellstores[key]:
                kk = fresh("kk", "int", k.nonneg)
                idx2 = [subst(i, {k: P(kk)}) for i in s.idx]
                qs = [(kk, lo, P(k))] + [(q[0], subst(q[1], {k: P(kk)}), subst(q[2], {k: P(kk)})) for q in s.q]
                ren = {}
                qq = []
                for q, l, h in qs:
                    if q is kk:
                        qq.append((q, l, h))
                    else:
                        nq = fresh("q", "int", q.nonneg)
                        qq.append((nq, subst(l, ren), subst(h, ren)))
                        ren[q] = P(nq)
                eqs = [subst(i, ren) - P(j) for i, j in zip(idx2, idx)]
                cons = list(self.ctx.cons)
                for q, l, h in qq:
                    cons += [P(q) - l, h - 1 - P(q)]
                cons += [P(k) - lo, hi - 1 - P(k)] + owncons
                if k.nonneg and any(len(mm) == 1 and mm[0][1] == 2 for e in eqs for mm in e.t):
                    cons += [(P(k) - 1 - P(kk)) * P(kk), (P(k) - 1 - P(kk)) * P(k)]
                for e in eqs:
                    cons += [e, -e]
                if not infeasible(cons):
                    ok = False
            if ok:
                cell = p[2]
                s0, self.st = self.st, base
                try:
                    return self.snapshot(cell).elem(idx)
                finally:
                    self.st = s0
            self.note("loop-carried array element")
            return P(atom("loopelem", (a,), "complex", unm=True))

        class SelMap(dict):
            def __contains__(self, a):
                return a.kind == "sel" and a.args[0] in prevnodes

            def __getitem__(self, a):
                return resolve(a)

        sm = SelMap()
        return _subst(x, sm, frozenset(), True, {})

    def subst_val(self, st, v, mp, src=None):
        if isinstance(v, Poly):
            return subst(v, mp)
        if isinstance(v, ARef):
            s0 = self.st
            self.st = src or st
            try:
                a = self.arr(v)
            finally:
                self.st = s0
            if a.shape is not None and not any(x in mp for x in self.arr_fv(a)):
                if src is None or v.cid in st.heap:
                    return v
            sh = None if a.shape is None else tuple(subst(x, mp) for x in a.shape)
            b = Arr(sh, lambda idx: subst(a.elem(idx), mp), a.dt, {})
            cid = self.new("c")
            (st if st is not None else self.st).heap[cid] = Cell(b, (), None, {})
            return ARef(cid)
        if isinstance(v, tuple):
            return tuple(self.subst_val(st, x, mp, src) for x in v)
        if isinstance(v, SStr):
            return mkstr([p if isinstance(p, str) else ("fmt", subst(p[1], mp), p[2]) for p in v.pieces])
        if isinstance(v, IteV):
            return IteV(subst(v.c, mp), self.subst_val(st, v.a, mp, src), self.subst_val(st, v.b, mp, src))
        return v

    def arr_fv(self, a):
        try:
            return a.lam().fv
        except Exception:
            return frozenset()

    # ------------------------------------------------------------ expressions
    def eval(self, node):
        return getattr(self, "e_" + type(node).__name__, self.e_unknown)(node)

    def e_unknown(self, node):
        raise Unsupported(f"expression {type(node).__name__}")

    def e_Constant(self, node):
        v = node.value
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if v is Ellipsis:
            return Special("ellipsis")
        if isinstance(v, bytes):
            return OpaqueV(atom("bytes", (repr(v),), "other"))
        return P(v)

    def e_Name(self, node):
        return self.lookup(node.id)

    def e_Attribute(self, node):
        return self.getattr(self.eval(node.value), node.attr)

    def e_Tuple(self, node):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                out += self.concrete_items(self.eval(e.value))
            else:
                out.append(self.eval(e))
        return tuple(out)

    def e_List(self, node):
        return self.new_list(self.e_Tuple(node))

    def e_Set(self, node):
        return self.new_list(self.e_Tuple(node), "set")

    def e_Dict(self, node):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                o = self.resolve_ite(self.eval(v))
                d.update(self.st.heap[o.lid].d)
            else:
                d[self.hkey(self.eval(k))] = self.eval(v)
        self.separate_keys(d)
        return self.new_dict(d)

    def separate_keys(self, d):
        """a symbolic key stands alone only if it certainly differs from the other keys"""
        ks = [k for k in d if isinstance(k, Poly)]
        if len(ks) > 1 and any(k.const() is None for k in ks):
            for i, a in enumerate(ks):
                for b in ks[:i]:
                    if self.cond_simplify(b_eq(a - b)) != ZERO:
                        raise Unsupported("dictionary keys which may be equal")

    def hkey(self, k):
        k = self.resolve_ite(k)
        return k

    def e_JoinedStr(self, node):
        parts = [""]
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts = [self.strcat(p, v.value) for p in parts]
            else:
                spec = ""
                if v.format_spec is not None:
                    spec = "".join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
                val = self.eval(v.value)
                s = self.tostr(val, spec)
                parts = [self.strcat(p, s) for p in parts]
        return parts[0]

    def tostr(self, v, spec=""):
        if isinstance(v, IteV):
            return self.merge_val(v.c, self.tostr(v.a, spec), self.tostr(v.b, spec))
        if isinstance(v, str) and not spec:
            return v
        if isinstance(v, SStr) and not spec:
            return v
        if isinstance(v, Poly):
            c = v.const()
            if c is not None and not spec and c.denominator == 1 and v.sort == "int":
                if not isbool(v) or c not in (0, 1):
                    return str(int(c))
                return str(int(c))
            return mkstr([("fmt", v, spec)])
        return mkstr([("fmt", self.node_of(v), spec)])

    def strcat(self, a, b):
        if isinstance(a, IteV):
            return self.merge_val(a.c, self.strcat(a.a, b), self.strcat(a.b, b))
        if isinstance(b, IteV):
            return self.merge_val(b.c, self.strcat(a, b.a), self.strcat(a, b.b))
        pa = (a,) if isinstance(a, str) else a.pieces
        pb = (b,) if isinstance(b, str) else b.pieces
        return mkstr(pa + pb)

    def e_IfExp(self, node):
        c = self.truth(self.eval(node.test))
        return self.ite_eval(c, lambda: self.eval(node.body), lambda: self.eval(node.orelse))

    def ite_eval(self, c, f, g):
        c = self.cond_simplify(c)
        if c == ONE:
            return f()
        if c == ZERO:
            return g()
        entry = self.st
        res = []
        for val, fn in ((True, f), (False, g)):
            s = self.assume(entry, c, val)
            if s is None:
                continue
            self.st = s
            try:
                r = fn()
            except Dead:
                continue
            res.append((self.st, r, c if val else ONE - c))
        if not res:
            raise Dead
        if len(res) == 1:
            self.st = res[0][0]
            return res[0][1]
        self.st = self.merge_states(entry, [(res[0][0], None), (res[1][0], None)])[0]
        return self.merge_val(c, res[0][1], res[1][1])

    def e_BoolOp(self, node):
        isand = isinstance(node.op, ast.And)

        def go(i):
            v = self.eval(node.values[i])
            if i == len(node.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.ite_eval(c, lambda: go(i + 1), lambda: v if not isbool_like(v) else ZERO)
            return self.ite_eval(c, lambda: v if not isbool_like(v) else ONE, lambda: go(i + 1))

        return go(0)

    def e_UnaryOp(self, node):
        v = self.eval(node.operand)
        if isinstance(node.op, ast.Not):
            return ONE - self.truth(v)
        if isinstance(node.op, ast.USub):
            return self.mapnum(lambda x: -x, v)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert):
            return self.mapnum(lambda x: ONE - x, v, "bool")
        raise Unsupported("unary")

    def mapnum(self, f, v, dt=None):
        if isinstance(v, IteV):
            v = self.resolve_ite(v) if not (isinstance(v.a, (Poly, ARef)) and isinstance(v.b, (Poly, ARef))) else v
        if isinstance(v, Poly):
            return f(v)
        a = self.arr(v)
        if a.shape is None:
            k = fresh("x", "complex")
            return OpaqueV(atom("app", ("map", f(P(k)) if False else show(f(P(sym("$x", "complex")))), a.tags["node"]), "other", unm=True))
        if a.shape == ():
            return f(a.elem(()))
        return self.alloc(Arr(a.shape, lambda idx: f(a.elem(idx)), dt or a.dt))

    def e_BinOp(self, node):
        return self.binop(node.op, self.eval(node.left), self.eval(node.right))

    def binop(self, op, a, b):
        if isinstance(a, IteV) and not numlike(a):
            a = self.resolve_ite(a)
        if isinstance(b, IteV) and not numlike(b):
            b = self.resolve_ite(b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr, IteV)):
                return self.strcat(a, b)
            if isinstance(a, IteV) and isinstance(b, (str, SStr)):
                return self.strcat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, LRef) and isinstance(b, LRef):
                return self.new_list(tuple(self.concrete_items(a)) + tuple(self.concrete_items(b)))
        if isinstance(op, ast.Div) and isinstance(a, Special) and a.kind == "path":
            return Special("path", node=mkstr(self.pieces(a.data["node"]) + ("/",) + self.pieces(b)))
        if isinstance(op, ast.BitOr):
            if isinstance(a, LRef) and isinstance(b, LRef):
                x, y = self.st.heap[a.lid], self.st.heap[b.lid]
                if isinstance(x, DictC) and isinstance(y, DictC):
                    d = dict(x.d)
                    d.update(y.d)
                    return self.new_dict(d)
                return self.new_list(tuple(self.concrete_items(a)) + tuple(self.concrete_items(b)), "set")
            if not numlike(a) or not numlike(b):
                return OpaqueV(atom("ext", ("typeunion",), "other"))
        if isinstance(op, ast.BitAnd) and isinstance(a, LRef) and isinstance(b, LRef):
            return self.set_and(a, b)
        if isinstance(op, ast.Sub) and isinstance(a, LRef) and isinstance(b, LRef):
            xs, ys = self.concrete_items(a), self.concrete_items(b)
            return self.new_list([x for x in xs if x not in ys], "set")
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            return mkstr([("fmt", atom("app", ("strmod", a if isinstance(a, str) else a.pieces, self.node_of(b)), "other"), "")])
        if isinstance(op, ast.Mult) and isinstance(a, (str, tuple)) and isinstance(b, Poly) and b.const() is not None:
            return a * int(b.const())
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b)
        if isinstance(a, (OpaqueV,)) or isinstance(b, (OpaqueV,)):
            return self.opaque_op(type(op).__name__, a, b)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) and isinstance(a, Poly) and isinstance(b, Poly) and a.sort == "int" and b.sort == "int" and len(self.sinks) > 1:
            self.raise_if(b_eq(b), "ZeroDivisionError")
        return self.num2(op, a, b)

    def pieces(self, s):
        if isinstance(s, str):
            return (s,)
        if isinstance(s, SStr):
            return s.pieces
        if isinstance(s, Special) and s.kind == "path":
            return self.pieces(s.data["node"])
        if isinstance(s, IteV):
            raise Split(self.pick(self.cond_simplify(s.c)))
        return (("fmt", self.node_of(s), ""),)

    def set_and(self, a, b):
        xs, ys = self.st.heap[a.lid], self.st.heap[b.lid]
        if xs.sym is None and ys.sym is None and all(isinstance(x, str) for x in xs.items + ys.items):
            return self.new_list([x for x in xs.items if x in ys.items], "set")
        if xs.sym is None and ys.sym is None and all(isinstance(x, (str, SStr)) for x in xs.items + ys.items):
            out = []
            for x in xs.items:
                cs = [self.streq(x, y) for y in ys.items]
                if any(c == ONE for c in cs):
                    out.append(x)
                elif any(c != ZERO for c in cs):
                    break
            else:
                return self.new_list(out, "set")
        return OpaqueV(atom("app", ("setand", self.node_of(a), self.node_of(b)), "other"))

    def opaque_op(self, name, a, b):
        return OpaqueV(atom("app", (name, self.node_of(a), self.node_of(b)), "other", unm=True))

    def fop(self, op):
        t = type(op)
        if t is ast.Add:
            return lambda x, y: x + y
        if t is ast.Sub:
            return lambda x, y: x - y
        if t is ast.Mult:
            return lambda x, y: x * y
        if t is ast.Div:
            return lambda x, y: x / y
        if t is ast.Pow:
            return pow_
        if t is ast.FloorDiv:
            return floordiv
        if t is ast.Mod:
            return mod_
        if t is ast.BitAnd:
            return bit_and
        if t is ast.BitOr:
            return lambda x, y: bit_op("|", b_or, x, y)
        if t is ast.BitXor:
            return lambda x, y: bit_op("^", lambda x, y: x + y - 2 * x * y, x, y)
        if t is ast.LShift:
            return lambda x, y: x * pow_(num(2), y)
        if t is ast.RShift:
            return lambda x, y: floordiv(x, pow_(num(2), y))
        raise Unsupported(f"operator {t.__name__}")

    def num2(self, op, a, b):
        f = self.fop(op)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return f(a, b)
        x, y = self.arr(a), self.arr(b)
        if isinstance(op, ast.Add) and x.dt == "bool" and y.dt == "bool":
            f = b_or
        dt = None
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if x.dt == "bool" or y.dt == "bool" or x.shape is None or y.shape is None:
                dt = "bool"
                f = {ast.BitAnd: lambda x, y: x * y, ast.BitOr: b_or, ast.BitXor: lambda x, y: x + y - 2 * x * y}[type(op)]
            else:
                dt = "int"
        return self.broadcast2(f, x, y, dt)

    def broadcast2(self, f, x, y, dt=None):
        if x.shape is None or y.shape is None:
            nx = x.tags.get("node") if x.shape is None else x.lam()
            ny = y.tags.get("node") if y.shape is None else y.lam()
            probe = show(f(P(sym("$x", "complex")), P(sym("$y", "complex"))))
            node = atom("app", ("map2", probe, nx, ny), "other", unm=True)
            return OpaqueV(node)
        shape, mx, my = self.bshape(x.shape, y.shape)
        if dt is None:
            dt = lubdt(x.dt, y.dt)
            if dt == "bool":
                dt = "int"
        if shape == ():
            return f(x.elem(()), y.elem(()))
        return self.alloc(Arr(shape, lambda idx: f(x.elem(mx(idx)), y.elem(my(idx))), dt))

    def bshape(self, s1, s2):
        n = max(len(s1), len(s2))
        a = (None,) * (n - len(s1)) + tuple(s1)
        b = (None,) * (n - len(s2)) + tuple(s2)
        out = []
        for p, q in zip(a, b):
            if p is None:
                out.append(q)
            elif q is None or p == q:
                out.append(p)
            elif p == ONE:
                out.append(q)
            elif q == ONE:
                out.append(p)
            else:
                d = p - q
                if is_zero(d) or is_zero(simp(d, self.ctx)):
                    out.append(p)
                else:
                    self.assumed_shapes.add((show(p, 60), show(q, 60)))
                    self.shape_pairs.append((p, q, self.ctx, self.loc))
                    out.append(p)

        def mk(s):
            k = n - len(s)

            def m(idx):
                return tuple(ZERO if (s[i] == ONE and out[i + k] != ONE) else idx[i + k] for i in range(len(s)))

            return m

        return tuple(out), mk(s1), mk(s2)

    def e_Compare(self, node):
        left = self.eval(node.left)
        res = None
        for op, r in zip(node.ops, node.comparators):
            right = self.eval(r)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                if isinstance(res, Poly) and isinstance(c, Poly):
                    res = res * c
                else:
                    raise Unsupported("chained array comparison")
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.compare_is(a, b)
        if isinstance(op, ast.IsNot):
            return ONE - self.compare_is(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return ONE - self.contains(b, a)
        if isinstance(a, IteV) and not numlike(a):
            a = self.resolve_ite(a)
        if isinstance(b, IteV) and not numlike(b):
            b = self.resolve_ite(b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if not (isinstance(a, (ARef, Arr)) or isinstance(b, (ARef, Arr)) or isinstance(a, IteV) or isinstance(b, IteV)):
                c = self.compare_eq(a, b)
                return c if isinstance(op, ast.Eq) else ONE - c
            f = (lambda x, y: b_eq(x - y)) if isinstance(op, ast.Eq) else (lambda x, y: ONE - b_eq(x - y))
        elif isinstance(op, ast.Lt):
            f = lambda x, y: b_lt(x - y)
        elif isinstance(op, ast.LtE):
            f = lambda x, y: b_le(x - y)
        elif isinstance(op, ast.Gt):
            f = lambda x, y: b_lt(y - x)
        elif isinstance(op, ast.GtE):
            f = lambda x, y: b_le(y - x)
        else:
            raise Unsupported("compare")
        if isinstance(a, Poly) and isinstance(b, Poly):
            return f(a, b)
        if (a is None or b is None) and not isinstance(op, (ast.Eq, ast.NotEq)):
            self.raise_if(ONE, "TypeError")
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return P(atom("ind", ("b", "cmp", type(op).__name__, self.node_of(a), self.node_of(b)), "int", True, unm=True))
        if isinstance(a, LRef) or isinstance(b, LRef) or isinstance(a, (str, SStr)):
            return P(atom("ind", ("b", "cmp", type(op).__name__, self.node_of(a), self.node_of(b)), "int", True, unm=True))
        r = self.broadcast2(f, self.arr(a), self.arr(b), "bool")
        return r

    def compare_is(self, a, b):
        if isinstance(a, IteV):
            return b_ite(self.cond_simplify(a.c), self.compare_is(a.a, b), self.compare_is(a.b, b))
        if isinstance(b, IteV):
            return self.compare_is(b, a)
        if a is None or b is None:
            if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                o = a if isinstance(a, OpaqueV) else b
                return P(atom("ind", ("b", "isnone", o.node), "int", True, unm=o.node.unm))
            return ONE if a is b else ZERO
        if isinstance(a, Poly) and isinstance(b, Poly):
            return b_eq(a - b)
        try:
            return ONE if a == b else ZERO
        except Exception:
            raise Unsupported("is")

    def compare_eq(self, a, b):
        if isinstance(a, IteV):
            return b_ite(self.cond_simplify(a.c), self.compare_eq(a.a, b), self.compare_eq(a.b, b))
        if isinstance(b, IteV):
            return self.compare_eq(b, a)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.cond_simplify(b_eq(a - b))
        if a is None or b is None:
            if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                return self.compare_is(a, b)
            return ONE if a is b else ZERO
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.streq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, OpaqueV) and x.node.kind == "dtype" and isinstance(y, (ExtV, str)):
                from .models import getdt
                return ONE if getdt(y if isinstance(y, ExtV) else ExtV(y), "other") == x.node.args[0] else ZERO
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return ZERO
            c = ONE
            for x, y in zip(a, b):
                c = c * self.compare_eq(x, y)
            return c
        if isinstance(a, (ClassV, ExtV, ModV, ObjRef, FuncV)) and isinstance(b, (ClassV, ExtV, ModV, ObjRef, FuncV)):
            return ONE if a == b else ZERO
        if isinstance(a, (Poly, str, SStr, tuple)) and isinstance(b, (Poly, str, SStr, tuple)):
            return ZERO
        return P(atom("ind", ("b", "eq", self.node_of(a), self.node_of(b)), "int", True, unm=True))

    def streq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return ONE if a == b else ZERO
        pa = list((a,) if isinstance(a, str) else a.pieces)
        pb = list((b,) if isinstance(b, str) else b.pieces)
        # cancel common prefix/suffix
        for end in (0, -1):
            while pa and pb:
                x, y = pa[end], pb[end]
                if isinstance(x, str) and isinstance(y, str):
                    n = 0
                    m = min(len(x), len(y))
                    if end == 0:
                        while n < m and x[n] == y[n]:
                            n += 1
                        if n < m:
                            return ZERO
                        x, y = x[n:], y[n:]
                    else:
                        while n < m and x[len(x) - 1 - n] == y[len(y) - 1 - n]:
                            n += 1
                        if n < m:
                            return ZERO
                        x, y = x[: len(x) - n], y[: len(y) - n]
                    for lst, z in ((pa, x), (pb, y)):
                        lst.pop(end)
                        if z:
                            lst.insert(0 if end == 0 else len(lst), z)
                    if x and y:
                        return ZERO
                    if not x and not y:
                        continue
                    break
                if x == y:
                    pa.pop(end)
                    pb.pop(end)
                    continue
                break
        if not pa and not pb:
            return ONE
        if not pa or not pb:
            r = pa or pb
            if any(isinstance(x, str) for x in r):
                return ZERO
        ta, tb = tuple(pa), tuple(pb)
        for u, v in ((ta, tb), (tb, ta)):
            if len(v) == 1 and isinstance(v[0], str) and not may_equal(u, v[0]):
                return ZERO
        if str(ta) > str(tb):
            ta, tb = tb, ta
        return b_atom("streq", ta, tb)

    def contains(self, coll, x):
        coll = self.resolve_ite(coll)
        x = self.resolve_ite(x)
        if isinstance(coll, str) and isinstance(x, str):
            return ONE if x in coll else ZERO
        if isinstance(coll, SStr) and isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in coll.pieces):
                return ONE
            if not may_contain(coll.pieces, x):
                return ZERO
            return b_atom("substr", x, coll.pieces)
        if isinstance(coll, str) and isinstance(x, SStr):
            return b_atom("substr", x.pieces, coll)
        if isinstance(coll, LRef):
            c = self.st.heap[coll.lid]
            if isinstance(c, DictC):
                if isinstance(x, Poly) and x.const() is None:
                    memo = c.info.get("memo", ())
                    if any(k == x for k, _ in memo) and x not in c.info.get("maybe", ()):
                        return ONE
                    if not memo and not c.d and c.default is None and not c.info.get("shared") and not self.quants:
                        return ZERO
                    return b_atom("indict", coll.lid[1], x)
                if x in c.d:
                    return ONE
                if c.default is not None:
                    return b_atom("haskey", self.node_of(coll), self.node_of(x))
                return ZERO
            if c.sym is None:
                r = ZERO
                for y in c.items:
                    r = b_or(r, self.compare_eq(x, y))
                return r
        if isinstance(coll, tuple):
            r = ZERO
            for y in coll:
                r = b_or(r, self.compare_eq(x, y))
            return r
        if isinstance(coll, RangeV) and isinstance(x, Poly) and coll.step == ONE:
            return b_le(coll.lo - x) * b_lt(x - coll.hi)
        if isinstance(coll, Special) and coll.kind == "registry":
            w = self.world.get("published")
            if callable(w):
                return w(self.pieces(x))
            return b_atom("published", self.pieces(x)) if w is None else ONE if w else ZERO
        if isinstance(coll, OpaqueV):
            return P(atom("ind", ("b", "in", self.node_of(x), coll.node), "int", True, unm=True))
        raise Unsupported(f"containment in {coll!r}")

    def e_Subscript(self, node):
        o = self.eval(node.value)
        i = self.eval_index(node.slice)
        return self.getitem(o, i)

    def eval_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return SliceV(*(None if x is None else self.eval(x) for x in (s.lower, s.upper, s.step)))
        return self.eval(s)

    def e_Lambda(self, node):
        return self.make_func(node, "<lambda>")

    def e_Starred(self, node):
        raise Unsupported("starred")

    def e_NamedExpr(self, node):
        v = self.eval(node.value)
        self.assign_target(node.target, v)
        return v

    def comp(self, node, emit):
        """evaluate comprehension; emit(eltval) for concrete, returns ('sym', seq) when symbolic"""
        gens = node.generators

        def run(i):
            if i == len(gens):
                return emit()
            g = gens[i]
            it = self.resolve_ite(self.eval(g.iter))
            items = self.concrete_items(it)
            for x in items:
                self.assign_target(g.target, x)
                ok = ONE
                for cnd in g.ifs:
                    ok = ok * self.truth(self.eval(cnd))
                if ok == ZERO:
                    continue
                run_guarded(i + 1, ok)

        guards = []

        def run_guarded(i, ok):
            if ok == ONE:
                run(i)
            else:
                guards.append(ok)
                run(i)
                guards.pop()

        self._compguards = guards
        run(0)

    def comp_seq(self, node, eltfn):
        """-> ('items', [(guard, value)]) or ('sym', SymSeq)"""
        fr = self.frames[-1]
        env0 = self.st.heap[fr.fid]
        gens = node.generators
        if len(gens) == 1:
            it = self.resolve_ite(self.eval(gens[0].iter))
            try:
                self.concrete_items(it)
            except Unsupported:
                seq = self.as_symseq(it)
                if gens[0].ifs:
                    raise Unsupported("filtered symbolic comprehension")
                k = fresh("k", "int", nonneg_poly(seq.lo))
                st0 = self.st
                inner = st0.copy()
                inner.ctx = st0.ctx.copy()
                inner.ctx.cons = inner.ctx.cons + [P(k) - seq.lo, seq.hi - 1 - P(k)]
                self.st = inner
                self.quants.append((k, seq.lo, seq.hi))
                try:
                    self.assign_target(gens[0].target, seq.elem(P(k)))
                    v = eltfn()
                finally:
                    self.quants.pop()
                snap = self.st
                heap = dict(snap.heap)
                heap[fr.fid] = env0
                self.st = State(heap, st0.pc, st0.ctx, st0.facts)
                hidden = snap

                def el(kk):
                    return self.subst_val(self.st, v, {k: P(kk)}, hidden)

                tags = {"each": (el, seq.lo, seq.hi)}
                if isinstance(v, ARef):
                    a = self.arr_of_state(hidden, v)
                    tags = {"each": (el, seq.lo, seq.hi), "elemtags": a.tags, "var": k, "range": (seq.lo, seq.hi)}
                return "sym", SymSeq(seq.lo, seq.hi, el, tags)
        out = []

        def emit():
            g = ONE
            for x in self._compguards:
                g = g * x
            out.append((g, eltfn()))

        self.comp(node, emit)
        heap = self.st.heap
        env = {k: v for k, v in heap[fr.fid].items() if k in env0}
        env.update(env0)
        heap[fr.fid] = env
        return "items", out

    def e_ListComp(self, node):
        kind, r = self.comp_seq(node, lambda: self.eval(node.elt))
        if kind == "sym":
            return self.partition_list(r)
        if any(g != ONE for g, _ in r):
            return Special("guarded", items=r)
        return self.new_list([v for _, v in r])

    def partition_list(self, seq):
        return self.new_list((), sym=seq, info={"seqtags": seq.tags})

    def e_GeneratorExp(self, node):
        kind, r = self.comp_seq(node, lambda: self.eval(node.elt))
        if kind == "sym":
            return self.new_list((), sym=r)
        if any(g != ONE for g, _ in r):
            return Special("guarded", items=r)
        return self.new_list([v for _, v in r])

    def e_SetComp(self, node):
        kind, r = self.comp_seq(node, lambda: self.eval(node.elt))
        if kind == "sym":
            return self.new_list((), sym=r, kind="set")
        return self.new_list([v for _, v in r], "set")

    def e_DictComp(self, node):
        kind, r = self.comp_seq(node, lambda: (self.eval(node.key), self.eval(node.value)))
        if kind == "sym":
            raise Unsupported("symbolic dict comprehension")
        d = {self.hkey(k): v for _, (k, v) in r}
        self.separate_keys(d)
        return self.new_dict(d)

    def e_Call(self, node):
        fn = self.eval(node.func)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.eval(a.value))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                o = self.resolve_ite(self.eval(k.value))
                kw.update(self.st.heap[o.lid].d)
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(fn, args, kw, node)

    # ------------------------------------------------------------ attribute access
    def getattr(self, o, name):
        if isinstance(o, IteV):
            if numlike(o) and name in ("shape", "real", "imag", "T", "conj", "size", "ndim", "sum"):
                o = self.alloc(self.arr(o))
            else:
                o = self.resolve_ite(o)
        if isinstance(o, ModV):
            return self.modattr(o.name, name)
        if isinstance(o, ExtV):
            if o.name.startswith("builtins.") and False:
                pass
            full = f"{o.name}.{name}"
            c = self.ext_const(full)
            return c if c is not None else ExtV(full)
        if isinstance(o, ObjRef):
            return self.obj_getattr(o, name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    return v.fn if isinstance(v, StaticM) else v
            raise Unsupported(f"class attribute {o.name}.{name}")
        if isinstance(o, Special):
            r = self.special_attr(o, name)
            if r is not NotImplemented:
                return r
            return Method(o, name)
        if isinstance(o, (ARef, Arr, Poly)):
            r = self.array_attr(o, name)
            if r is not NotImplemented:
                return r
            return Method(o, name)
        if isinstance(o, (str, SStr, tuple, LRef, RangeV)):
            return Method(o, name)
        if isinstance(o, OpaqueV) and o.node.kind == "dtype" and name == "kind":
            return {"complex": "c", "real": "f", "int": "i", "bool": "b"}[o.node.args[0]]
        if isinstance(o, OpaqueV):
            return OpaqueV(atom("attr", (o.node, name), "other", unm=o.node.unm))
        if o is None:
            self.raise_if(ONE, "AttributeError")
        if isinstance(o, FuncV) and name == "__name__":
            return o.node.name
        if isinstance(o, ExcV):
            return Special("excattr")
        raise Unsupported(f"attribute {name} of {o!r}")

    def obj_getattr(self, o, name):
        c = self.st.heap[o.oid]
        if name in c.fields:
            v = c.fields[name]
            if v is UNDEF:
                self.raise_if(ONE, "AttributeError")
            return v
        if name == "__class__":
            return c.cls
        cls = c.cls
        if isinstance(cls, ClassV):
            for k in cls.mro:
                if name in k.ns:
                    v = k.ns[name]
                    if isinstance(v, StaticM):
                        return v.fn
                    if isinstance(v, FuncV):
                        if "builtins.property" in v.deco or "functools.cached_property" in v.deco:
                            return self.call(v, [o], {})
                        return Bound(o, v)
                    return v
        gen = c.info.get("lazy")
        if gen is not None:
            v = gen(name)
            if v is not None:
                f = dict(c.fields)
                f[name] = v
                self.st.heap[o.oid] = ObjC(c.cls, f, c.info)
                return v
        self.event("missing-attr", obj=o, name=name)
        self.raise_if(ONE, "AttributeError", name)

    def setattr(self, o, name, v):
        if isinstance(o, ObjRef):
            c = self.st.heap[o.oid]
            self.event("setattr", oid=o.oid, name=name, origin=c.info.get("origin"))
            if isinstance(c.cls, ClassV):
                v = self.validate_field(o, c.cls, name, v)
                c = self.st.heap[o.oid]
            f = dict(c.fields)
            f[name] = v
            self.st.heap[o.oid] = ObjC(c.cls, f, c.info)
            return
        if isinstance(o, ModV):
            fid = self.load(o.name)
            env = dict(self.st.heap[fid])
            env[name] = v
            self.st.heap[fid] = env
            return
        if isinstance(o, Special):
            self.event("special-setattr", obj=o, name=name)
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw, node=None):
        fn = self.resolve_ite(fn) if isinstance(fn, IteV) else fn
        if isinstance(fn, StaticM):
            fn = fn.fn
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kw, node)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ExtV):
            self.calls_seen.add((fn.name, self.loc))
            if self.observe is not None:
                self.observe("ext", fn.name, (args, kw))
            m = self.models.get(fn.name)
            if m is not None:
                if fn.name.startswith("numpy.") and kw.get("out") is not None:
                    return self.models["ufunc-out"](self, fn.name, m, args, kw)
                return m(self, *args, **kw)
            short = fn.name.split(".")[-1]
            if fn.name.startswith("builtins.") and (short in EXC_TREE or short.endswith("Error") or short == "Exception"):
                return ExcV(short, tuple(args), self.loc)
            return self.generic_ext(fn.name, args, kw)
        if isinstance(fn, Method):
            return self.call_method(fn.obj, fn.name, args, kw)
        if isinstance(fn, Special) and fn.kind == "partial":
            k = dict(fn.data["kw"])
            k.update(kw)
            return self.call(fn.data["fn"], list(fn.data["args"]) + list(args), k, node)
        if isinstance(fn, Special) and fn.kind == "pyfunc":
            return fn.data["fn"](*args, **kw)
        if isinstance(fn, OpaqueV):
            return self.generic_ext(None, [fn] + list(args), kw)
        if fn is None:
            self.raise_if(ONE, "TypeError")
        raise Unsupported(f"call of {fn!r}")

    def generic_ext(self, name, args, kw):
        nodes = tuple(self.node_of(a) for a in args)
        kws = tuple((k, self.node_of(v)) for k, v in sorted(kw.items()))
        self.event("ext-call", name=name, args=args, kw=kw)
        return OpaqueV(atom("app", (name,) + nodes + kws, "other", unm=True))

    def node_of(self, v):
        """canonical hashable node for any value"""
        if isinstance(v, (Poly, Atom, str, int)) or v is None:
            return v
        if isinstance(v, ARef) or isinstance(v, Arr):
            a = self.arr(v)
            if a.shape is None:
                return a.tags["node"]
            if a.shape == ():
                return a.elem(())
            return a.lam()
        if isinstance(v, SStr):
            return v.pieces
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.node_of(x) for x in v)
        if isinstance(v, IteV):
            c = self.cond_simplify(v.c)
            if c == ONE:
                return self.node_of(v.a)
            if c == ZERO:
                return self.node_of(v.b)
            if numlike(v):
                return self.node_of(self.arr(v))
            return atom("iteN", (c, self.node_of(v.a), self.node_of(v.b)), "other")
        if isinstance(v, LRef):
            c = self.st.heap[v.lid]
            if isinstance(c, DictC):
                return ("dict",) + tuple(sorted(((self.node_of(k), self.node_of(x)) for k, x in c.d.items()), key=str)) + ((c.default,) if c.default else ())
            if "ite" in c.info:
                raise Split(self.pick(self.cond_simplify(c.info["ite"][0])))
            out = tuple(self.node_of(x) for x in c.items)
            if c.sym is not None:
                k = fresh("k", "int", True)
                out += (mk_binder("lam", [k], ((c.sym.hi - c.sym.lo,), self.node_of(c.sym.elem(P(k) + c.sym.lo))), "other"),)
            if c.kind == "set":
                out = tuple(sorted(out, key=str))
            return (c.kind,) + out
        if isinstance(v, ObjRef):
            c = self.st.heap[v.oid]
            if "node" in c.info:
                return c.info["node"]
            return atom("obj", (getattr(c.cls, "name", str(c.cls)), v.oid[1]), "other")
        if isinstance(v, OpaqueV):
            return v.node
        if isinstance(v, ExtV):
            return atom("extname", (v.name,), "other")
        if isinstance(v, ClassV):
            return atom("class", (v.name,), "other")
        if isinstance(v, (FuncV,)):
            return atom("func", (v.qual,), "other")
        if isinstance(v, Bound):
            return atom("bound", (self.node_of(v.self_), self.node_of(v.fn)), "other")
        if isinstance(v, SliceV):
            return ("slice", self.node_of(v.lo), self.node_of(v.hi), self.node_of(v.step))
        if isinstance(v, RangeV):
            return ("range", v.lo, v.hi, v.step)
        if isinstance(v, Special):
            if v.kind == "path":
                return ("path",) + self.pieces(v)
            if "node" in v.data:
                return v.data["node"]
            return atom("special", (v.kind,), "other")
        if isinstance(v, ModV):
            return atom("mod", (v.name,), "other")
        if isinstance(v, Method):
            return ("method", self.node_of(v.obj), v.name)
        raise Unsupported(f"no canonical form for {v!r}")

    def bind(self, fn, args, kw):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_if(ONE, "TypeError", f"too many arguments for {fn.qual}")
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    self.raise_if(ONE, "TypeError", f"multiple values for {k}")
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_if(ONE, "TypeError", f"unexpected keyword {k} for {fn.qual}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(extra)
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = fn.defaults[j]
                else:
                    self.raise_if(ONE, "TypeError", f"missing argument {n} of {fn.qual}")
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in fn.kwdefaults:
                    env[x.arg] = fn.kwdefaults[x.arg]
                else:
                    self.raise_if(ONE, "TypeError", f"missing keyword {x.arg} of {fn.qual}")
        return env

    def call_func(self, fn, args, kw):
        if self.observe is not None:
            self.observe("call", fn.qual, self.bind(fn, args, kw))
        hook = self.hooks.get(fn.qual) if self.hooks else None
        if hook is not None:
            r = hook(self, fn, args, kw)
            if r is not NotImplemented:
                return r
        self.functions_seen.add(fn.qual)
        if self.callstack.count(fn.qual) > 4 or len(self.callstack) > 80:
            raise Unsupported(f"recursion in {fn.qual}")
        env = self.bind(fn, args, kw)
        fid = self.new("f")
        self.st.heap[fid] = env
        fr = Frame(fid, fn, fn.mod, fn.node)
        saved_loc = self.loc
        self.frames.append(fr)
        self.callstack.append(fn.qual)
        nf = len(self.frames)
        nc = len(self.callstack)
        entry = self.st.copy()
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                return v
            self.exec_block(fn.node.body)
            outs = list(fr.returns)
            if self.st is not None:
                outs.append((self.st, None))
            st, v = self.merge_states(entry, outs)
            self.st = st
            if st is None:
                raise Dead
            return v
        finally:
            del self.frames[nf - 1:]
            del self.callstack[nc - 1:]
            self.loc = saved_loc

    hooks: dict = {}
    observe = None

    # ------------------------------------------------------------ dataclasses
    def class_fields(self, cls):
        """ordered [(name, ann, default, kwonly, owner)]"""
        order, info = [], {}
        for c in reversed(cls.mro):
            if not c.dataclass:
                continue
            for n, ann, d, kwo in c.fields:
                if n not in info:
                    order.append(n)
                info[n] = (n, ann, d, kwo or c.kwonly_all or fs_kw(d), c)
        return [info[n] for n in order]

    def class_validators(self, cls):
        out = {}
        for c in reversed(cls.mro):
            for fields, fn, mode in c.validators:
                out[fn.node.name] = (fields, fn, mode)
        res = []
        for name, (fields, fn, mode) in out.items():
            # overriding
            for c in cls.mro:
                if name in c.ns:
                    f2 = c.ns[name]
                    break
            res.append((fields, f2 if isinstance(f2, FuncV) else fn, mode))
        return res

    def default_value(self, d):
        if isinstance(d, Special) and d.kind == "fieldspec":
            if d.data.get("factory") is not None:
                return self.call(d.data["factory"], [], {})
            return d.data.get("default", ...)
        return d

    def instantiate(self, cls, args, kw):
        if any(isinstance(b, ExtV) and "Enum" in b.name for c in cls.mro for b in c.bases):
            raise Unsupported("enum")
        if self.observe is not None and any(c.dataclass for c in cls.mro):
            pos = [f[0] for f in self.class_fields(cls) if not f[3]]
            self.observe("new", f"{cls.mod}.{cls.name}", {**dict(zip(pos, args)), **kw})
        hook = self.hooks.get(f"{cls.mod}.{cls.name}")
        if hook is not None:
            r = hook(self, cls, args, kw)
            if r is not NotImplemented:
                return r
        oid = self.new("o")
        self.event("instantiate", cls=cls, oid=oid, args=list(args), kw=dict(kw))
        self.building.append((oid, cls))
        try:
            return self.construct(cls, oid, args, kw)
        finally:
            self.building.pop()

    def construct(self, cls, oid, args, kw):
        o = ObjRef(oid)
        if not any(c.dataclass for c in cls.mro):
            self.st.heap[oid] = ObjC(cls, {})
            init = None
            for c in cls.mro:
                if "__init__" in c.ns:
                    init = c.ns["__init__"]
                    break
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        fields = self.class_fields(cls)
        pos = [f for f in fields if not f[3]]
        vals = {}
        if len(args) > len(pos):
            self.raise_if(ONE, "TypeError", f"too many arguments for {cls.name}")
        for f, v in zip(pos, args):
            vals[f[0]] = v
        names = {f[0] for f in fields}
        for k, v in kw.items():
            if k not in names:
                self.raise_if(ONE, "TypeError", f"unexpected keyword {k} for {cls.name}")
            if k in vals:
                self.raise_if(ONE, "TypeError", f"multiple values for {k}")
            vals[k] = v
        self.st.heap[oid] = ObjC(cls, {}, {"building": True})
        validate_default = self.config_flag(cls, "validate_default")
        for n, ann, d, kwo, owner in fields:
            given = n in vals
            if given:
                v = vals[n]
            else:
                v = self.default_value(d)
                if v is ...:
                    self.raise_if(ONE, "TypeError", f"missing argument {n} of {cls.name}")
            if given or validate_default:
                self.check_type(cls, n, ann, owner, v)
                v = self.run_validators(cls, n, v, o)
            c = self.st.heap[oid]
            f = dict(c.fields)
            f[n] = v
            self.st.heap[oid] = ObjC(cls, f, c.info)
        c = self.st.heap[oid]
        self.st.heap[oid] = ObjC(cls, c.fields, {})
        for c in cls.mro:
            if "__post_init__" in c.ns:
                self.call(c.ns["__post_init__"], [o], {})
                break
        return o

    def config_flag(self, cls, flag):
        for c in cls.mro:
            if c.dataclass and c.config is not None:
                v = c.config
                if isinstance(v, LRef):
                    d = self.st.heap[v.lid].d
                    if flag in d:
                        return d[flag] == ONE
                return False
            if c.dataclass:
                return False
        return False

    def is_pydantic(self, cls):
        return bool(cls.dataclass) and "pydantic" in cls.dataclass["name"]

    def run_validators(self, cls, name, v, o, assigning=False):
        if not self.is_pydantic(cls):
            return v
        for fields, fn, mode in self.class_validators(cls):
            if name in fields or "*" in fields:
                data = self.st.heap[o.oid].fields
                d = {k: x for k, x in data.items() if k != name}
                info = Special("validinfo", data=self.new_dict(d))
                nargs = len(fn.node.args.args)
                a = [cls, v] + ([info] if nargs >= 3 else [])
                self.event("validate", cls=cls, field=name, fn=fn.qual)
                v = self.call(fn, a[:nargs], {})
        return v

    def validate_field(self, o, cls, name, v):
        if not cls.dataclass or not self.is_pydantic(cls):
            return v
        if not any(name == f[0] for f in self.class_fields(cls)):
            if self.config_flag(cls, "validate_assignment") and not any(name in c.ns for c in cls.mro):
                # pydantic refuses to assign an attribute that is not a declared field
                self.event("undeclared-attr", cls=cls, name=name)
                self.raise_if(ONE, "ValidationError", f"{cls.name} has no field {name}")
            return v
        if self.config_flag(cls, "validate_assignment"):
            for n, ann, d, kwo, owner in self.class_fields(cls):
                if n == name:
                    self.check_type(cls, n, ann, owner, v)
            return self.run_validators(cls, name, v, o, True)
        return v

    def check_type(self, cls, name, ann, owner, v):
        """pydantic refuses a value that its declared type cannot hold"""
        if not self.is_pydantic(cls) or not ann:
            return
        try:
            node = ast.parse(ann, mode="eval").body
        except SyntaxError:
            return
        if self.type_refuses(node, v, owner):
            self.event("mistyped", cls=cls, name=name, ann=ann)
            self.raise_if(ONE, "ValidationError", f"{cls.name}.{name} cannot hold {v!r}"[:200])

    def type_refuses(self, node, v, owner):
        """True only if the value is certainly not accepted (nor converted) for the annotation"""
        if isinstance(v, IteV):
            return self.type_refuses(node, v.a, owner) and self.type_refuses(node, v.b, owner)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.type_refuses(node.left, v, owner) and self.type_refuses(node.right, v, owner)
        if isinstance(node, ast.Constant) and node.value is None:
            return isinstance(v, (str, SStr, LRef, ObjRef, tuple, Poly, ARef))
        cell = self.st.heap.get(v.lid) if isinstance(v, LRef) else None
        if isinstance(node, ast.Name) and node.id in ("int", "float", "complex", "bool"):
            if isinstance(v, str):
                try:
                    float(v)
                    return False
                except ValueError:
                    return v.lower() not in ("inf", "nan", "true", "false", "yes", "no", "on", "off", "t", "f", "y", "n")
            if node.id == "int" and isinstance(v, Poly) and v.const() is not None and v.const().denominator != 1:
                return True
            return v is None or isinstance(v, (LRef, ObjRef, tuple))
        if isinstance(node, ast.Name) and node.id == "str":
            return v is None or isinstance(v, (LRef, ObjRef, tuple, Poly, ARef))
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if node.value.id in ("list", "tuple", "set"):
                if v is None or isinstance(v, (str, SStr, Poly)) or isinstance(cell, DictC):
                    return True
                vs = list(cell.items) if isinstance(cell, ListC) else list(v) if isinstance(v, tuple) else []
                if node.value.id == "list":
                    return any(self.type_refuses(args[0], x, owner) for x in vs)
                return False
            if node.value.id == "dict":
                if isinstance(cell, DictC) and len(args) == 2:
                    return any(self.type_refuses(args[1], x, owner) for x in cell.d.values()) or any(
                        isinstance(k, (str, SStr)) and self.type_refuses(args[0], k, owner) for k in cell.d)
                return v is None or isinstance(v, (str, SStr, Poly, ARef, tuple)) or isinstance(cell, ListC)
            return False
        if isinstance(node, ast.Subscript) and ast.unparse(node.value).split(".")[-1] == "NDArray":
            return v is None or isinstance(v, (str, SStr, tuple, LRef, ObjRef))
        if isinstance(node, (ast.Name, ast.Attribute)):
            t = self.annotated_class(node, owner)
            if t is None:
                return False
            if isinstance(v, ObjRef):
                c = self.st.heap.get(v.oid)
                return isinstance(c, ObjC) and isinstance(c.cls, ClassV) and t not in c.cls.mro and not self.is_pydantic(t)
            return v is None or isinstance(v, (str, SStr, Poly, ARef))
        return False

    def annotated_class(self, node, owner):
        text = ast.unparse(node)
        for t in (text, f"{owner.mod}.{text}"):
            m, _, name = t.rpartition(".")
            fid = self.modules.get(m)
            env = self.st.heap.get(fid) if fid is not None else None
            c = env.get(name) if isinstance(env, dict) else None
            if isinstance(c, ClassV):
                return c
        return None


def fs_kw(d):
    if isinstance(d, Special) and d.kind == "fieldspec":
        k = d.data.get("kw_only")
        return isinstance(k, Poly) and k == ONE
    return False


# ---------------------------------------------------------------- helpers


def lubdt(a, b):
    o = {"bool": 0, "int": 1, "real": 2, "complex": 3}
    return a if o.get(a, 3) >= o.get(b, 3) else b


def isbool(p):
    """0/1 valued by construction"""
    if not isinstance(p, Poly):
        return False
    if not p.t:
        return True
    if p == ONE:
        return True
    if p.const() is not None:
        return False
    for m in p.t:
        for a, _ in m:
            if a.kind != "ind":
                return False
    return True


def isbool_like(v):
    return isinstance(v, Poly) and isbool(v)


def numlike(v):
    if isinstance(v, IteV):
        return numlike(v.a) and numlike(v.b)
    return isinstance(v, (Poly, ARef, Arr))


def floordiv(x, y):
    c, d = x.const(), y.const()
    if c is not None and d:
        import math

        return num(math.floor(c / d))
    if d == 1:
        return x
    return P(atom("floordiv", (x, y), "int" if x.sort == "int" and y.sort == "int" else "real", nonneg_poly(x) and nonneg_poly(y)))


def boolish(p):
    """only built from indicators (or the constants 0 and 1)"""
    return p.const() in (0, 1) if p.const() is not None else all(a.kind == "ind" for m in p.t for a, _ in m)


def bit_and(x, y):
    if boolish(x) and boolish(y):
        return x * y
    for a, b in ((x, y), (y, x)):
        c = b.const()
        if c is not None and c >= 0 and int(c) & (int(c) + 1) == 0 and a.sort == "int":
            return mod_(a, num(int(c) + 1))
    return bit_op("&", lambda x, y: x * y, x, y)


def bit_op(name, f, x, y):
    if boolish(x) and boolish(y):
        return f(x, y)
    c, d = x.const(), y.const()
    if c is not None and d is not None and x.sort == "int" and y.sort == "int":
        return num({"&": int.__and__, "|": int.__or__, "^": int.__xor__}[name](int(c), int(d)))
    if any(a.kind == "ind" for p in (x, y) for m in p.t for a, _ in m) or x.sort != "int" or y.sort != "int":
        return f(x, y)
    return P(atom("app", ("bit" + name, x, y), "int"))


def mod_(x, y):
    c, d = x.const(), y.const()
    if c is not None and d:
        return num(c % d)
    return P(atom("mod", (x, y), "int" if x.sort == "int" and y.sort == "int" else "real", nonneg_poly(y)))


def implied_lits(c):
    """indicator values forced by the 0/1 polynomial c being 1"""
    out = []
    n = len(c.t)
    occ = {}
    for m in c.t:
        for a, e in m:
            if a.kind == "ind":
                occ[a] = occ.get(a, 0) + 1
    for a, k in occ.items():
        if k == n:
            out.append((a, 1))
        elif 2 * k >= n:
            acc = {}
            for m, v in c.t.items():
                m2 = tuple((x, e) for x, e in m if x is not a)
                acc[m2] = acc.get(m2, 0) + v
            if not any(acc.values()):
                out.append((a, 0))
    return out


def hasbv(x):
    return bool(x.loose) if isinstance(x, (Poly, Atom)) else any(hasbv(y) for y in x) if isinstance(x, tuple) else False


def nodes_in(x, acc=None):
    """all 'arr' leaf nodes occurring in x"""
    acc = acc if acc is not None else set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                nodes_in(a, acc)
    elif isinstance(x, Atom):
        if x.kind == "arr":
            acc.add(x)
        for y in x.args:
            nodes_in(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            nodes_in(y, acc)
    return acc


def sels_in(x, nodes, acc=None):
    acc = acc if acc is not None else set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                sels_in(a, nodes, acc)
    elif isinstance(x, Atom):
        if x.kind == "sel" and x.args[0] in nodes:
            acc.add(x)
        for y in x.args:
            sels_in(y, nodes, acc)
    elif isinstance(x, tuple):
        for y in x:
            sels_in(y, nodes, acc)
    return acc


def subst_atoms(x, mp):
    return subst(x, mp) if mp else x


# -- solving store indices --------------------------------------------------


def triangle(s, eqs, unsolved):
    """store through the index pair of numpy.triu_indices -> (condition, substitution) or None"""
    if len(unsolved) != 1 or len(eqs) != 2:
        return None
    v = unsolved[0]
    got = {}
    for e in eqs:
        hit = [a for m in e.t for a, _ in m if a.kind == "sel" and len(a.args) == 2 and a.args[1] == P(v) and isinstance(a.args[0], Atom)
               and a.args[0].kind == "app" and a.args[0].args[0] in ("triu_r", "triu_c")]
        if len(hit) != 1:
            return None
        a = hit[0]
        c = lin_coeff(e, a)
        if c not in (1, -1):
            return None
        x = P(a) - e * num(c)
        if v in x.fv:
            return None
        got[a.args[0].args[0]] = (a, x)
    if set(got) != {"triu_r", "triu_c"} or got["triu_r"][0].args[0].args[1:] != got["triu_c"][0].args[0].args[1:]:
        return None
    _, n, k = got["triu_r"][0].args[0].args
    (ar, r), (ac, c) = got["triu_r"], got["triu_c"]
    cond = b_le(r + k - c) * b_le(-r) * b_lt(c - n)
    mp = {ar: r, ac: c}

    def f(x):
        y = subst(x, mp)
        if v in y.fv:
            raise Unsupported("store through triangular indices with a value by position")
        return y
    return cond, f


def block_of(v, lo, hi, free):
    """index v in consecutive blocks lo(q) <= v < hi(q) = lo(q + 1): (q, its value, condition) or None"""
    for q in free:
        if q not in lo.fv or not is_zero(subst(lo, {q: P(q) + 1}) - hi) or q in v.fv:
            continue
        rest = lo - P(q) * P(q)
        if q not in rest.fv:
            return q, ell_(v - rest), b_le(rest - v)
        c = lin_coeff(lo, q)
        if c is not None and q not in (lo - P(q) * num(c)).fv and c > 0:
            return q, floordiv(v - (lo - P(q) * num(c)), num(c)), ONE
    return None


def ell_(i):
    return P(atom("ell", (i,), "int", True))


def emm_(i):
    return P(atom("emm", (i,), "int"))


def ind2elm(i: Poly):
    """(ell, m) of a flat harmonic index; inverse of ell*ell+ell+m"""
    i = P(i)
    r = split_elm(i)
    if r is not None:
        return r
    c = i.const()
    if c is not None and c >= 0 and c.denominator == 1:
        import math

        l = math.isqrt(int(c))
        return num(l), num(int(c) - l * l - l)
    return ell_(i), emm_(i)


REBUILD["floordiv"] = lambda args, a: floordiv(*args)
REBUILD["mod"] = lambda args, a: mod_(*args) if len(args) == 2 else P(atom("mod", args, "other"))
REBUILD["ell"] = lambda args, a: ind2elm(args[0])[0]
REBUILD["emm"] = lambda args, a: ind2elm(args[0])[1]


LOOK.append(lambda i: ind2elm(i))


def split_elm(i):
    """recognise a*a + a + b with |b| <= a known structurally"""
    quad = [m for m in i.t if len(m) == 1 and m[0][1] == 2 and i.t[m] == 1 and m[0][0].sort == "int"]
    if len(quad) != 1:
        return None
    a = quad[0][0][0]
    rest = i - P(a) * P(a) - P(a)
    # accept when rest is +-emm of the same index or a registered order symbol
    pairs = ELM_PAIRS.get(a)
    if pairs:
        for b in pairs:
            if rest == b or rest == -b:
                return P(a), rest
    if rest == ZERO or rest == -P(a):
        return P(a), rest
    if a.kind == "ell":
        m = emm_(a.args[0])
        if rest == m or rest == -m:
            return P(a), rest
    return None


ELM_PAIRS: dict = {}


def register_elm(ell_atom, m_poly):
    ELM_PAIRS.setdefault(ell_atom, []).append(m_poly)


def solve(eqs, unsolved, bounds):
    """solve index equations for the quantified symbols.

    -> (solution map, residual equations, unsolved, extra condition) or
    (None, ...) when an equation still contains unsolved variables.
    """
    sol = {}
    eqs = list(eqs)
    unsolved = list(unsolved)
    extra = ONE
    progress = True
    while progress and eqs:
        progress = False
        for e in list(eqs):
            e2 = subst(e, sol)
            vs = [v for v in unsolved if v in e2.fv]
            if not vs:
                continue
            # flat harmonic index: x*x + x + y
            hm = None
            for v in vs:
                x2 = ((v, Fr(2)),)
                if e2.t.get(x2) in (1, -1):
                    s = e2.t[x2]
                    ee = e2 * num(s)
                    rest = ee - P(v) * P(v) - P(v)
                    others = [w for w in vs if w is not v]
                    if v in rest.fv and len(others) == 1 and lin_coeff(rest, others[0]) in (1, -1):
                        w = others[0]
                        cw = lin_coeff(rest, w)
                        cv = lin_coeff(rest, v)
                        r2 = rest - P(w) * num(cw) - P(v) * num(cv or 0)
                        if cv is not None and v not in r2.fv and w not in r2.fv:
                            l, m = ind2elm(-r2)
                            hm = {v: l, w: (m - l * num(cv)) * num(cw)}
                            break
                        continue
                    if v in rest.fv:
                        continue
                    if len(others) == 1 and lin_coeff(rest, others[0]) in (1, -1):
                        w = others[0]
                        cw = lin_coeff(rest, w)
                        tgt = -(rest - P(w) * num(cw))
                        if w in tgt.fv:
                            continue
                        l, m = ind2elm(tgt)
                        hm = {v: l, w: m * num(cw)}
                        break
                    if not others:
                        # x*x+x+c == 0 : order of the target must match
                        tgt = -rest
                        best = None
                        # constant/bounded order part b: tgt = a*a+a+b
                        l, m = ind2elm(tgt)
                        hm = {v: l}
                        extra = extra * b_eq(m)
                        break
            if hm is None:
                # ell(v)^2+ell(v)-emm(v) patterns: v = quantified flat index
                for v in vs:
                    le, me = atom("ell", (P(v),), "int", True), atom("emm", (P(v),), "int")
                    if le in e2_atoms(e2) and v not in strip_atoms(e2, (le, me)).fv:
                        x, y = fresh("l", "int", True), fresh("m", "int")
                        e3 = subst(e2, {le: P(x), me: P(y)})
                        s3, r3, u3, x3 = solve([e3], [x, y], {})
                        if s3 is not None and x in s3 and y in s3:
                            l, m = s3[x], s3[y]
                            hm = {v: l * l + l + m}
                            extra = extra * x3
                            break
            if hm is not None:
                for v, val in hm.items():
                    sol = {a: subst(b, {v: val}) for a, b in sol.items()}
                    sol[v] = val
                    unsolved.remove(v)
                eqs.remove(e)
                progress = True
                break
            if len(vs) >= 1:
                done = False
                for v in vs:
                    c = lin_coeff(e2, v)
                    if c in (1, -1) and v not in (e2 - P(v) * num(c)).fv and len(vs) == 1:
                        val = -(e2 - P(v) * num(c)) * num(1 / Fr(c))
                        sol = {a: subst(b, {v: val}) for a, b in sol.items()}
                        sol[v] = val
                        unsolved.remove(v)
                        eqs.remove(e)
                        progress = done = True
                        break
                if done:
                    break
    rest = []
    for e in eqs:
        e2 = subst(e, sol)
        if any(v in e2.fv for v in unsolved):
            return None, None, None, None
        rest.append(e2)
    return sol, rest, unsolved, extra


def e2_atoms(p):
    return {a for m in p.t for a, _ in m}


def strip_atoms(p, ats):
    return Poly({tuple((a, e) for a, e in m if a not in ats): c for m, c in p.t.items()}) if True else p


def lin_coeff(p, v):
    """coefficient of v when p is linear in v with constant coefficient else None"""
    m = ((v, Fr(1)),)
    return p.t.get(m)
