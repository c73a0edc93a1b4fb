"""Running entry points symbolically and comparing what they compute."""
from __future__ import annotations

import ast
import os

from . import evalterm
from .interp import (Anchor, Dead, Interp, Split, State, implied_lits)
from .report import Undecided
from .terms import *  # noqa: F403
from .terms import Budget, Ctx, P, Poly, Atom, atom, fresh, infeasible, show, simp, sym, num, ONE, ZERO, equal_under
from .values import *  # noqa: F403
from .values import Unsupported, sym_arr, sym_str

SPEC = "spec"
COLD = {"unreachable": False, "published": False, "exists": False}


def new(world=None):
    I = Interp()
    I.world = dict(COLD if world == "cold" else (world or {}))
    for f in sorted(os.listdir(os.path.join(I.roots[SPEC], SPEC))):
        if f.endswith(".py") and f != "__init__.py":
            I.load(SPEC + "." + f[:-3])
    return I


def S(name, sort="int", nonneg=False):
    return P(sym(name, sort, nonneg))


def nat(name):
    return S(name, "int", True)


def real(name, nonneg=False):
    return S(name, "real", nonneg)


def arr(I, name, *shape, dt="complex", nonneg=False):
    return I.alloc(sym_arr(name, tuple(P(s) for s in shape), dt, nonneg), origin="param:" + name)


class Out:
    """outcome of a symbolic call"""

    def __init__(self, I, value, st, raises):
        self.I, self.value, self.st, self.raises = I, value, st, raises

    @property
    def dead(self):
        return self.st is None

    def raise_cond(self, cls=None):
        """indicator of the inputs on which the call raises"""
        from .interp import exc_matches

        r = ZERO
        for s, e in self.raises:
            if cls is not None and not any(exc_matches(e.cls, c) for c in (cls if isinstance(cls, tuple) else (cls,))):
                continue
            g = ONE
            for c in s.pc[self.n0:]:
                g = g * c
            r = r + g
        return r


def run(I, fn, args=(), kw=None, st=None):
    """call fn symbolically from state st (default: current); state is left at the result"""
    if isinstance(fn, str):
        fn = I.resolve(fn)
    if st is not None:
        I.st = st.copy()
        for k, v in I.module_heap.items():
            I.st.heap.setdefault(k, v)
    n0 = len(I.st.pc)
    I.sinks.append([])
    try:
        try:
            v = I.call(fn, list(args), dict(kw or {}))
            out = Out(I, v, I.st.copy(), None)
        except Dead:
            out = Out(I, None, None, None)
    finally:
        raises = I.sinks.pop()
    out.raises = raises
    out.n0 = n0
    return out


def assume_ge(I, *polys):
    c = I.st.ctx.copy()
    c.cons = c.cons + [P(p) for p in polys]
    I.st.ctx = c


def assume(I, *conds):
    """add known-true conditions (indicator polynomials)"""
    for cnd in conds:
        lits = implied_lits(cnd)
        c = I.st.ctx
        for a, v in lits:
            c = c.assume(a, v)
        I.st.ctx = c


class Mismatch:
    def __init__(self, what, ctx, got, want, path):
        self.what, self.ctx, self.got, self.want, self.path = what, ctx, got, want, path


class Cmp:
    """compare two symbolic values, case by case"""

    def __init__(self, rec, I, sta, stb, ctx, seed=1, maxcases=4096):
        self.rec, self.I, self.sta, self.stb, self.seed = rec, I, sta, stb, seed
        self.ctx0 = ctx
        self.cases = 0
        self.maxcases = maxcases

    def at(self, st, ctx, fn):
        I = self.I
        old = I.st
        s = st.copy()
        s.ctx = ctx
        I.st = s
        try:
            return fn()
        finally:
            I.st = old

    def compare(self, a, b, path="value", ctx=None):
        """list of (status, detail)"""
        ctx = ctx or self.ctx0
        return self.cased(ctx, lambda c: self._cmp(a, b, path, c))

    def cased(self, ctx, fn, depth=0):
        self.cases += 1
        if self.cases > self.maxcases or depth > 24:
            raise Undecided("too many cases")
        try:
            return fn(ctx)
        except Split as s:
            at = s.at
            out = []
            for v in (1, 0):
                c = ctx.assume(at, v)
                if infeasible(c.cons):
                    continue
                out += self.cased(c, fn, depth + 1)
            return out

    def _cmp(self, a, b, path, ctx):
        I = self.I
        if isinstance(a, IteV) and not self.numeric(a, self.sta, ctx):
            c = self.at(self.sta, ctx, lambda: I.cond_simplify(a.c))
            if c == ONE:
                return self._cmp(a.a, b, path, ctx)
            if c == ZERO:
                return self._cmp(a.b, b, path, ctx)
            raise Split(I.pick(c))
        if isinstance(b, IteV) and not self.numeric(b, self.stb, ctx):
            c = self.at(self.stb, ctx, lambda: I.cond_simplify(b.c))
            if c == ONE:
                return self._cmp(a, b.a, path, ctx)
            if c == ZERO:
                return self._cmp(a, b.b, path, ctx)
            raise Split(I.pick(c))
        if a is None or b is None:
            if a is None and b is None:
                return [("ok", path)]
            return [self.structural(f"{path}: {self.name(a)} where {self.name(b)} is required", ctx)]
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
                return [self.structural(f"{path}: {self.name(a)} where {self.name(b)} is required", ctx)]
            return self.strings(a, b, path, ctx)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return [self.structural(f"{path}: {len(a)} values where {len(b)} are required", ctx)]
            out = []
            for k, (x, y) in enumerate(zip(a, b)):
                out += self.cased(ctx, lambda c, x=x, y=y, k=k: self._cmp(x, y, f"{path}[{k}]", c))
            return out
        if isinstance(a, LRef) and isinstance(b, LRef):
            ca, cb = self.sta.heap[a.lid], self.stb.heap[b.lid]
            if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.sym is None and cb.sym is None and ca.kind == cb.kind:
                return self._cmp(tuple(ca.items), tuple(cb.items), path, ctx)
        if isinstance(a, ObjRef) and isinstance(b, ObjRef):
            ca, cb = self.sta.heap[a.oid], self.stb.heap[b.oid]
            out = []
            if ca.cls is not cb.cls:
                return [self.structural(f"{path}: {self.name(a)} where {self.name(b)} is required", ctx)]
            for k in sorted(set(ca.fields) | set(cb.fields), key=str):
                if k in ca.fields and k in cb.fields:
                    x, y = ca.fields[k], cb.fields[k]
                    out += self.cased(ctx, lambda c, x=x, y=y, k=k: self._cmp(x, y, f"{path}.{k}", c))
            return out
        if isinstance(a, (ClassV, FuncV, ExtV, ModV)) or isinstance(b, (ClassV, FuncV, ExtV, ModV)):
            if a is b or a == b:
                return [("ok", path)]
            return [self.structural(f"{path}: {self.name(a)} where {self.name(b)} is required", ctx)]
        # numeric
        x = self.at(self.sta, ctx, lambda: I.arr(a))
        y = self.at(self.stb, ctx, lambda: I.arr(b))
        if x.shape is None or y.shape is None:
            if x.shape is None and y.shape is None:
                nx, ny = x.tags.get("node"), y.tags.get("node")
                if nx is ny and nx is not None:
                    return [("ok", path)]
            return [("undecided", f"{path}: value not modelled ({show(x.tags.get('node'), 80) if x.tags.get('node') else '?'} / {show(y.tags.get('node'), 80) if y.tags.get('node') else '?'})")]
        if len(x.shape) != len(y.shape):
            return [self.structural(f"{path}: {len(x.shape)}-dimensional where {len(y.shape)} dimensions are required", ctx)]
        out = []
        for k, (s, t) in enumerate(zip(x.shape, y.shape)):
            out += self.equal(P(s), P(t), f"{path}.shape[{k}]", ctx)
        if any(o[0] != "ok" for o in out):
            return out
        ix = tuple(P(fresh(f"i{k}_", "int", True)) for k in range(len(x.shape)))
        c2 = ctx.copy()
        for v, n in zip(ix, x.shape):
            c2.cons = c2.cons + [P(n) - 1 - v]
        if infeasible(c2.cons):
            return out or [("ok", path)]
        return out + self.cased(c2, lambda c: self.equal(self.at(self.sta, c, lambda: x.elem(ix)), self.at(self.stb, c, lambda: y.elem(ix)),
                                                         path + ("[...]" if ix else ""), c))

    def numeric(self, v, st, ctx):
        if isinstance(v, (Poly, ARef, Arr)):
            return True
        if isinstance(v, IteV):
            return self.numeric(v.a, st, ctx) and self.numeric(v.b, st, ctx)
        return False

    def name(self, v):
        if isinstance(v, ObjRef):
            c = (self.sta.heap.get(v.oid) or self.stb.heap.get(v.oid))
            return f"a {getattr(c.cls, 'name', c.cls)} object"
        if v is None:
            return "None"
        if isinstance(v, Poly):
            return f"number {show(v, 60)}"
        if isinstance(v, ARef):
            return "an array"
        return repr(v)[:80]

    def structural(self, msg, ctx):
        """a difference in kind: real if the case is reachable"""
        syms = set()
        for c in ctx.cons:
            syms |= evalterm.fvs(c[1] if isinstance(c, tuple) else c)
        for a in ctx.lits:
            syms |= a.fv
            if a.unm:
                return ("undecided", msg + " (under an unmodelled condition)")
        for env, _ in evalterm.models(syms, ctx.cons, ctx.lits, self.seed, 1):
            return ("bad", msg + " when " + modelstr({k.args[0]: v for k, v in env.items()}) + " " + litstr(ctx))
        return ("undecided", msg + " (no concrete instance of the case found)")

    def equal(self, a, b, path, ctx):
        return equal(self.rec, a, b, path, ctx, self.seed)

    def strings(self, a, b, path, ctx):
        pa = (a,) if isinstance(a, str) else a.pieces
        pb = (b,) if isinstance(b, str) else b.pieces
        if pa == pb:
            return [("ok", path)]
        pa, pb = list(pa), list(pb)
        if len(pa) == len(pb) and all(type(x) is type(y) for x, y in zip(pa, pb)) and all(
                x == y for x, y in zip(pa, pb) if isinstance(x, str)) and all(x[2] == y[2] for x, y in zip(pa, pb) if not isinstance(x, str)):
            out = []
            for k, (x, y) in enumerate(zip(pa, pb)):
                if isinstance(x, str) or x == y:
                    continue
                if isinstance(x[1], Poly) and isinstance(y[1], Poly):
                    out += self.equal(x[1], y[1], f"{path}: field {k}", ctx)
                else:
                    out.append(self.structural(f"{path}: text {a!r} where {b!r} is required", ctx))
            return out
        return [self.structural(f"{path}: text {a!r} where {b!r} is required", ctx)]


def litstr(ctx):
    s = [("" if v else "not ") + show(a, 80) for a, v in list(ctx.lits.items())[:6]]
    return "[" + "; ".join(s) + "]" if s else ""


def modelstr(m):
    return ", ".join(f"{k}={v if isinstance(v, int) else (format(v, '.4g') if not isinstance(v, complex) else v)}" for k, v in sorted(m.items()) if not k.startswith(("o#", "n#")))


class _EmmMap(dict):
    """emm(x) = x - ell(x)**2 - ell(x)"""

    def __bool__(self):
        return True

    def __contains__(self, a):
        return a.kind == "emm"

    def __getitem__(self, a):
        x = expand_emm(a.args[0])
        e = P(atom("ell", (x,), "int", True))
        return x - e * e - e


def expand_emm(x):
    from .terms import _subst

    return _subst(x, _EmmMap(), frozenset(), True, {})


def equal(rec, a, b, path, ctx, seed=1):
    """[(status, detail)] for a == b under ctx"""
    why = None
    try:
        r = equal_under(a, b, ctx)
        if r[0]:
            if a.unm or b.unm:
                pass
            return [("ok", path)]
        why = f"{show(r[2], 300)}  instead of  {show(r[3], 300)}"
        leaf = r
        c2 = Ctx([("strict", expand_emm(c[1])) if isinstance(c, tuple) else expand_emm(c) for c in r[1].cons], r[1].lits)
        if equal_under(expand_emm(r[2]), expand_emm(r[3]), c2)[0] and equal_under(expand_emm(a), expand_emm(b), Ctx(ctx.cons + c2.cons[:0], ctx.lits))[0]:
            return [("ok", path)]
    except Budget as e:
        leaf = None
        why = f"budget: {e}"
    t = evalterm.refute(a, b, ctx, seed)
    if t[0] == "differ":
        return [("bad", f"{path}: {why}; e.g. {modelstr(t[1])} gives {fmt(t[2])} instead of {fmt(t[3])} {litstr(ctx)}")]
    if leaf is not None:
        t2 = evalterm.refute(leaf[2], leaf[3], leaf[1], seed + 1)
        if t2[0] == "differ":
            return [("bad", f"{path}: {why}; e.g. {modelstr(t2[1])} gives {fmt(t2[2])} instead of {fmt(t2[3])} {litstr(leaf[1])}")]
    return [("undecided", f"{path}: {why} ({t[0]} {t[1]})")]


def fmt(v):
    return f"{v:.6g}" if not isinstance(v, complex) else f"{v.real:.6g}{v.imag:+.6g}j"


def settle(rec, results, sub="", where=None, incomplete=(), key=None):
    """turn comparison results into one obligation verdict"""
    bad = [d for s, d in results if s == "bad"]
    und = [d for s, d in results if s == "undecided"]
    if bad and not incomplete:
        return rec.violation(bad[0] + (f" (+{len(bad) - 1} more)" if len(bad) > 1 else ""), sub, where=where, key=key)
    if bad:
        return rec.undecided(f"{bad[0]} -- but the analysis was incomplete: {list(incomplete)[0]}", sub, where=where)
    if und:
        return rec.undecided(und[0], sub, where=where)
    if not results:
        return rec.undecided("nothing was compared", sub, where=where)
    if incomplete:
        return rec.undecided(f"analysis incomplete: {list(incomplete)[0]}", sub, where=where)
    return rec.proved(sub, where=where, detail=f"{len(results)} comparisons")


def where_of(I, fn):
    if isinstance(fn, Bound):
        fn = fn.fn
    node = getattr(fn, "node", None)
    mod = getattr(fn, "mod", None)
    if node is None or mod not in I.asts:
        return None
    return f"{I.asts[mod][0]}:{node.lineno} {getattr(fn, 'qual', getattr(fn, 'name', ''))}"


def conform(rec, I, code, spec, args, kw=None, exc=True, sub="", post=None, seed=1):
    """code(*args) computes what the reference spec(*args) computes, on every path"""
    kw = kw or {}
    cf = I.resolve(code) if isinstance(code, str) else code
    sf = I.resolve(SPEC + "." + spec) if isinstance(spec, str) else spec
    st0 = I.st.copy()
    inc0 = list(I.incomplete)
    a = run(I, cf, args, kw, st0)
    inc = [x for x in I.incomplete if x not in inc0]
    b = run(I, sf, args, kw, st0)
    incs = [x for x in I.incomplete if x not in inc0 and x not in inc]
    rec.seen(I)
    rec.c.paths += len(a.raises)
    where = where_of(I, cf)
    res = []
    ra, rb = a.raise_cond(), b.raise_cond()
    ctx = st0.ctx
    if exc:
        res += equal(rec, ra, rb, "raises", ctx, seed)
    if not any(s == "bad" for s, _ in res):
        if a.st is None or b.st is None:
            if a.st is not b.st and not exc:
                res.append(("undecided", "one side always raises"))
        else:
            ctx = ctx.copy()
            for r in (ra, rb):
                if r != ZERO:
                    for at, v in implied_lits(ONE - r):
                        ctx = ctx.assume(at, v)
            c = Cmp(rec, I, a.st, b.st, ctx, seed)
            x, y = a.value, b.value
            if post:
                x, y = post(a), post(b)
            if ra != ZERO and len((ONE - ra).t) > 1:
                # paths on which the call raises are outside the comparison
                res += [r for r in c.cased(ctx, lambda cc: _restrict(c, ra, rb, x, y, cc))]
            else:
                res += c.compare(x, y)
    settle(rec, res, sub, where, inc + ["reference: " + x for x in incs])
    return a, b


def _restrict(c, ra, rb, x, y, ctx):
    for r in (ra, rb):
        r = simp(r, ctx)
        if r == ONE:
            return []
        if r != ZERO:
            raise Split(c.I.pick(r))
    return c._cmp(x, y, "value", ctx)


# ---------------------------------------------------------------- stand-ins for solved objects
def obj(I, cls, **fields):
    """an object of a library class with the given symbolic fields (construction not interpreted)"""
    c = I.resolve(cls) if isinstance(cls, str) else cls
    oid = I.new("o")
    I.st.heap[oid] = ObjC(c, dict(fields))
    return ObjRef(oid)


def fld(out_or_I, ref, name):
    st = out_or_I.st
    return st.heap[ref.oid].fields[name]


def hook(I, qual, fn):
    if qual.startswith("sleplet.") and qual not in I.hooks and not defined(I, qual):
        # the stand-in replaces nothing: what it stood for is not accounted for
        I.incomplete.append(f"{qual}, for which a stand-in is used, is not defined there")
    I.hooks = dict(I.hooks)
    I.hooks[qual] = fn


def defined(I, qual):
    """qual is defined (not merely imported) in the module it names"""
    p = qual.split(".")
    for k in range(len(p) - 1, 0, -1):
        tree = module_tree(I, ".".join(p[:k]))
        if tree is None:
            continue
        body = tree.body
        for x in p[k:]:
            d = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == x]
            if not d:
                return False
            body = d[-1].body
        return True
    return False


_TREES = {}


def module_tree(I, name):
    p = I.modpath(name)
    if p not in _TREES:
        try:
            with open(p) as f:
                _TREES[p] = ast.parse(f.read())
        except (OSError, SyntaxError, TypeError):
            _TREES[p] = None
    return _TREES[p]


class World:
    """symbols shared by the obligations that need a solved Slepian problem or mesh"""


def region_obj(I, kind="arbitrary", name="the_region", mask_name=None):
    return obj(I, "sleplet.slepian.region.Region", _region_type=kind, _name_ending=name, mask_name=mask_name,
               gap=ZERO, theta_min=real("theta_min", True), theta_max=real("theta_max", True),
               phi_min=real("phi_min", True), phi_max=real("phi_max", True))


def slepian_obj(I, L, cls="sleplet.slepian.slepian_arbitrary.SlepianArbitrary", region=None):
    """a solved Slepian problem: R eigenpairs, Shannon number N <= R <= L^2"""
    w = World()
    w.L = P(L)
    w.N, w.R = nat("N"), nat("R")
    assume_ge(I, w.N - 1, w.R - w.N, w.L * w.L - w.R)
    w.nt, w.np = I.resolve(SPEC + ".sphere.shape"), None
    nt, nph = run(I, w.nt, [w.L]).value
    w.nt, w.np = P(nt), P(nph)
    w.lam = arr(I, "eigenvalues", w.R, dt="real", nonneg=True)
    w.vec = arr(I, "eigenvectors", w.R, w.L * w.L)
    w.mask = arr(I, "mask", w.nt, w.np, dt="bool")
    w.region = region if region is not None else region_obj(I)
    w.s = obj(I, cls, L=w.L, N=w.N, eigenvalues=w.lam, eigenvectors=w.vec, mask=w.mask, region=w.region,
              name="slepian_name", matrix_location="slepian_location")
    w.chosen = []

    def choose(I2, fn, args, kw):
        env = I2.bind(fn, args, kw)
        w.chosen.append((env["L"], env["region"]) if isinstance(env, dict) else (args, kw))
        return w.s

    hook(I, "sleplet.slepian_methods.choose_slepian_method", choose)
    return w


def mesh_obj(I, name="homer", K=None):
    w = World()
    w.V, w.F, w.K = nat("V"), nat("F"), nat("K") if K is None else P(K)
    assume_ge(I, w.V - 4, w.F - 1, w.K - 1, w.V - w.K)
    w.verts = arr(I, "vertices", w.V, 3, dt="real")
    w.faces = arr(I, "faces", w.F, 3, dt="int", nonneg=True)
    w.region = arr(I, "mesh_region", w.V, dt="bool")
    w.ev = arr(I, "mesh_eigenvalues", w.K, dt="real")
    w.bf = arr(I, "basis_functions", w.K, w.V, dt="real")
    w.m = obj(I, "sleplet.meshes.mesh.Mesh", name=name, number_basis_functions=w.K, zoom=ZERO, _camera_view=None,
              _colourbar_pos=ZERO, basis_functions=w.bf, faces=w.faces, mesh_eigenvalues=w.ev, mesh_region=w.region,
              vertices=w.verts)
    return w


def mesh_slepian_obj(I, w=None):
    w = w or mesh_obj(I)
    w.N, w.R = nat("N"), nat("R")
    assume_ge(I, w.N - 1, w.R - w.N, w.K - w.R)
    w.lam = arr(I, "slepian_eigenvalues", w.K, dt="real", nonneg=True)
    w.sf = arr(I, "slepian_functions", w.R, w.K, dt="real")
    w.ms = obj(I, "sleplet.meshes.mesh_slepian.MeshSlepian", mesh=w.m, N=w.N, slepian_eigenvalues=w.lam, slepian_functions=w.sf)
    hook(I, "sleplet.meshes.mesh_slepian.MeshSlepian", lambda I2, c, a, k: w.ms)
    return w


def private(rec, fn):
    """run fn, which relies on a non-public name; if that name is gone the obligation is undecided"""
    try:
        return fn()
    except Anchor as e:
        rec.undecided(f"internal name not present: {e}")
        return None


def bound(I, ref, name):
    return I.getattr(ref, name)


def conform_k(rec, I, code, args, kw, spec, sargs, skw=None, exc=True, sub="", post=None, spost=None, seed=1):
    """code(*args, **kw) computes what the reference spec(*sargs) computes, on every path"""
    cf = I.resolve(code) if isinstance(code, str) else code
    sf = I.resolve(SPEC + "." + spec) if isinstance(spec, str) else spec
    st0 = I.st.copy()
    inc0 = list(I.incomplete)
    a = run(I, cf, args, kw, st0)
    inc = [x for x in I.incomplete if x not in inc0]
    b = run(I, sf, sargs, skw or {}, st0)
    incs = [x for x in I.incomplete if x not in inc0 and x not in inc]
    rec.seen(I)
    rec.c.paths += len(a.raises)
    compare_outs(rec, I, st0, a, b, where_of(I, cf), inc + ["reference: " + x for x in incs], exc, sub, post, spost or post, seed)
    return a, b


def compare_outs(rec, I, st0, a, b, where, inc, exc=True, sub="", post=None, spost=None, seed=1):
    res = []
    ra, rb = a.raise_cond(), b.raise_cond()
    ctx = st0.ctx
    if exc:
        res += equal(rec, ra, rb, "condition for raising", ctx, seed)
    if not any(s == "bad" for s, _ in res):
        if a.st is None or b.st is None:
            if a.st is not b.st:
                if exc:
                    res.append(("undecided", "one side always raises"))
                else:
                    res.append(("bad", "always raises"))
        else:
            ctx = ctx.copy()
            for r in (ra, rb):
                if r != ZERO:
                    for at, v in implied_lits(ONE - r):
                        ctx = ctx.assume(at, v)
            # what the code's own run established about its results (valid indices and the like)
            ctx.cons = ctx.cons + [q for q in a.st.ctx.cons if q not in ctx.cons]
            c = Cmp(rec, I, a.st, b.st, ctx, seed)
            x, y = a.value, b.value
            if post:
                x = at_state(I, a, lambda: post(a))
            if spost:
                y = at_state(I, b, lambda: spost(b))
            if (ra != ZERO and len((ONE - ra).t) > 1) or (rb != ZERO and len((ONE - rb).t) > 1):
                res += c.cased(ctx, lambda cc: _restrict(c, ra, rb, x, y, cc))
            else:
                res += c.compare(x, y)
    settle(rec, res, sub, where, inc)


def at_state(I, out, fn):
    old = I.st
    I.st = out.st.copy()
    try:
        return fn()
    finally:
        I.st = old


def must_raise(rec, I, code, args, kw, cls=None, sub=""):
    """the call raises in every case"""
    cf = I.resolve(code) if isinstance(code, str) else code
    st0 = I.st.copy()
    a = run(I, cf, args, kw, st0)
    rec.seen(I)
    rec.c.paths += len(a.raises)
    settle(rec, equal(rec, a.raise_cond(cls), ONE, "condition for raising", st0.ctx), sub, where_of(I, cf), I.incomplete)
    I.st = st0.copy()


def must_not_raise(rec, I, code, args, kw, sub=""):
    cf = I.resolve(code) if isinstance(code, str) else code
    st0 = I.st.copy()
    a = run(I, cf, args, kw, st0)
    rec.seen(I)
    settle(rec, equal(rec, a.raise_cond(), ZERO, "condition for raising", st0.ctx), sub, where_of(I, cf), I.incomplete)
    return a


# ---------------------------------------------------------------- random terms
def is_draw(a):
    return a.kind == "draw" or (a.kind == "sel" and any(isinstance(x, Atom) and x.kind == "drawarr" for x in a.args))


def draw_signature(p):
    """which random streams a term uses (seed, distribution, call-site ordinal)"""
    out = set()
    for a in atoms_of(p, ("draw", "drawarr")):
        out.add(tuple(str(x) for x in a.args[:3]))
    return out


def draw_form(p):
    """{draw: coefficient} of a term that is linear in independent standard normal draws (None: not of that form)"""
    out = {}
    for m, c in p.t.items():
        d = [(a, e) for a, e in m if is_draw(a)]
        rest = [(a, e) for a, e in m if not is_draw(a)]
        if len(d) != 1 or d[0][1] != 1 or any(atoms_of(a, ("draw", "drawarr")) for a, _ in rest):
            return None
        if not any(x == "normal" for y in atoms_of(d[0][0], ("draw", "drawarr")) for x in y.args):
            return None
        q = num(c)
        for a, e in rest:
            q = q * power(P(a), e)
        out[d[0][0]] = out.get(d[0][0], ZERO) + q
    return out


def covariance(p, q):
    """E[p conj q] for terms linear in independent standard normal draws; None if not of that form"""
    a, b = draw_form(p), draw_form(q)
    if a is None or b is None:
        return None
    r = ZERO
    for k, v in a.items():
        if k in b:
            r = r + v * conj(b[k])
    return r
