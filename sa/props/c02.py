"""C02 Invalid parameters are refused, valid ones accepted, whatever route they take."""
import ast

from ..harness import *  # noqa: F403
from ..program import Program
from ..classes import build, params, registered, setup, value_for, is_mesh, is_slepian, data, assume_domain
from ..models import pi_
from ..terms import abs_, b_lt, b_or, b_not, b_eq
from .c01 import REGION, SOLVERS, hook_solve

RULE = "the call raises exactly for values outside the parameter's domain"
LIST = "an extra-argument list raises exactly when its length differs from the number of the class's own parameters"
NOTOWN = ("L", "extra_args", "noise", "region", "smoothing", "mesh", "mesh_slepian")
FIELDS = "a class that validates assignments (pydantic) only assigns attributes it declares: any other assignment raises, whatever the input"
ASSIGN = SPEC + ".params.assign"


def own(I, cls):
    return [n for n, ann, has in params(I, cls) if n not in NOTOWN]


def outside(v, lo, hi):
    return b_or(b_lt(v - lo), b_lt(hi - v))


def raises_iff(rec, I, code, args, kw, want, sub="", cls=None, st=None, unless=ZERO):
    """the condition for raising (cls) is want, except on inputs where `unless` holds"""
    cf = I.resolve(code) if isinstance(code, str) else code
    st0 = (st or I.st).copy()
    inc0 = list(I.incomplete)
    o = run(I, cf, args, kw, st0)
    rec.seen(I)
    rec.c.paths += len(o.raises)
    inc = [x for x in I.incomplete if x not in inc0]
    got = o.raise_cond(cls)
    keep = ONE - unless
    w = where_of(I, cf) or where_cls(I, cf)
    if code == ASSIGN:
        w = where_cls(I, st0.heap[args[0].oid].cls) or w
    settle(rec, equal(rec, got * keep, want * keep, "condition for raising", st0.ctx), sub, w, inc)
    return o


def where_cls(I, c):
    c = I.resolve(c) if isinstance(c, str) else c
    node = getattr(c, "node", None)
    if node is not None and getattr(c, "mod", None) in I.asts:
        return f"{I.asts[c.mod][0]}:{node.lineno} {c.name}"
    return None


def models(I):
    """every class of the library that validates assignments"""
    for mod, m in sorted(Program().mods.items()):
        for node in m.tree.body:
            if isinstance(node, ast.ClassDef):
                try:
                    cls = I.resolve(f"{mod}.{node.name}")
                except (KeyError, Anchor, Unsupported):
                    continue
                if isinstance(cls, ClassV) and cls.dataclass and I.is_pydantic(cls) and I.config_flag(cls, "validate_assignment"):
                    yield cls


def declared(rec, qual):
    I = new("cold")
    cls = I.resolve(qual)
    rec.where = where_cls(I, cls)
    rec.seen(I)
    known = {f[0] for f in I.class_fields(cls)}
    n = 0
    for c in cls.mro:
        for fn in c.ns.values():
            if not isinstance(fn, FuncV) or not fn.node.args.args:
                continue
            me = fn.node.args.args[0].arg
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == me:
                    n += 1
                    if x.attr in known or any(x.attr in k.ns for k in cls.mro):
                        continue
                    if any(isinstance(a, ast.AnnAssign) and a.target is x and a.value is None for a in ast.walk(fn.node)):
                        continue
                    rec.violation(
                        f"{fn.qual} assigns {x.attr}, which {cls.name} does not declare: pydantic raises there for every input",
                        where=f"{I.asts[c.mod][0]}:{x.lineno} {fn.qual}", key=f"undeclared:{c.name}.{x.attr}")
                    return
    rec.proved(f"{n} assignments to {len(known)} declared fields")


def obligations(c):
    region(c)
    K = new("cold")
    for cls in models(K):
        c.ob(f"attributes assigned by {cls.name} are declared", lambda rec, q=f"{cls.mod}.{cls.name}": declared(rec, q), FIELDS)
    cap(c)
    box(c)
    I = new("cold")
    for cls in registered(I, "COEFFICIENTS", "MESH_COEFFICIENTS"):
        n = own(I, cls)
        c.ob(f"extra-argument list of {cls.name}", lambda rec, q=f"{cls.mod}.{cls.name}", n=n: lengths(rec, q, n), LIST)
        if "j" in n:
            c.ob(f"scale of {cls.name}", lambda rec, q=f"{cls.mod}.{cls.name}": scale(rec, q), RULE)
        if "rank" in n:
            c.ob(f"rank of {cls.name}", lambda rec, q=f"{cls.mod}.{cls.name}": rank(rec, q), RULE)
        if "ell" in n:
            c.ob(f"degree and order of {cls.name}", lambda rec, q=f"{cls.mod}.{cls.name}": degree(rec, q), RULE)
    for q in ("sleplet.slepian._slepian_decomposition.SlepianDecomposition", "sleplet.meshes._mesh_slepian_decomposition.MeshSlepianDecomposition"):
        c.ob(f"rank of {q.rsplit('.', 1)[1]}.decompose", lambda rec, q=q: private(rec, lambda: decomposition(rec, q)), RULE)


# ---------------------------------------------------------------- regions
def limits():
    return {"phi_max": pi_() * 2, "phi_min": pi_() * 2, "theta_max": pi_(), "theta_min": pi_()}


def region(c):
    def f(rec, names):
        I = new()
        a = {k: real(k) for k in names}
        bad = ZERO
        for k in names:
            bad = b_or(bad, outside(a[k], ZERO, limits()[k]))
        raises_iff(rec, I, REGION, [], dict(a, gap=ZERO, mask_name="some_mask"), bad, cls="ValueError")
    for names in (["phi_max"], ["phi_min"], ["theta_max"], ["theta_min"], list(limits())):
        c.ob("Region built with " + ", ".join(names), lambda rec, names=names: f(rec, names), RULE)

    def g(rec, name, kind):
        I = new()
        d = {"polar": {"theta_max": pi_() / 3}, "lim_lat_lon": {"theta_min": pi_() / 4}, "arbitrary": {"mask_name": "some_mask"}}[kind]
        o = run(I, REGION, [], d)
        I.st = o.st
        v = real("v")
        raises_iff(rec, I, ASSIGN, [o.value, name, v], {}, outside(v, ZERO, limits()[name]), cls="ValueError", st=o.st)
    for name in limits():
        for kind in ("polar", "lim_lat_lon", "arbitrary"):
            c.ob(f"Region.{name} re-assigned ({kind})", lambda rec, name=name, kind=kind: g(rec, name, kind), RULE)


def box(c):
    def f(rec, names):
        I = new("cold")
        hook_solve(I)
        stub_mask(I)
        L = nat("L")
        assume_ge(I, L - 1)
        a = {k: real(k) for k in names}
        bad = ZERO
        for k in names:
            bad = b_or(bad, outside(a[k], ZERO, limits()[k]))
        raises_iff(rec, I, SOLVERS["lim_lat_lon"], [L], a, bad, cls="ValueError")
    for names in (["phi_max"], ["phi_min"], ["theta_max"], ["theta_min"]):
        c.ob("SlepianLimitLatLon built with " + ", ".join(names), lambda rec, names=names: f(rec, names), RULE)


def stub_mask(I):
    hook(I, "sleplet._mask_methods.create_mask_region", lambda I2, fn, a, k: arr(I2, "the_mask", nat("nt"), nat("np"), dt="bool"))


def cap(c):
    Q = SOLVERS["polar"]

    def start():
        I = new("cold")
        hook_solve(I)
        stub_mask(I)
        L = nat("L")
        assume_ge(I, L - 1)
        return I, L

    def opening(rec, gap):
        I, L = start()
        t = real("t")
        raises_iff(rec, I, Q, [L], {"theta_max": t, "gap": gap}, b_or(outside(t, ZERO, pi_()), b_eq(t)), unless=b_eq(t - pi_()))
    for gap in (ZERO, ONE):
        c.ob("SlepianPolarCap built with any opening" + (", gap" if gap == ONE else ""), lambda rec, gap=gap: opening(rec, gap), RULE)

    def order(rec, kind):
        I, L = start()
        kw = {"theta_max": pi_() / 3}
        if kind == "number":
            m = S("m")
            raises_iff(rec, I, Q, [L], dict(kw, order=m), b_not(b_lt(abs_(m) - L)))
        elif kind == "none":
            raises_iff(rec, I, Q, [L], dict(kw, order=None), ZERO)
    for kind in ("number", "none"):
        c.ob(f"SlepianPolarCap built with order: {kind}", lambda rec, kind=kind: order(rec, kind), RULE)

    def array(rec, where):
        """a concrete set of orders with one symbolic member, at either end"""
        I, L = start()
        assume_ge(I, L - 3)
        m = S("m")
        items = [m, ZERO, ONE] if where == "first" else [ZERO, ONE, m]
        lst = I.new_list(items)
        a = run(I, SPEC + ".params.array", [lst])
        I.st = a.st
        a = a.value
        raises_iff(rec, I, Q, [L], {"theta_max": pi_() / 3, "order": a}, b_not(b_lt(abs_(m) - L)), sub=where)
    for where in ("first", "last"):
        c.ob(f"SlepianPolarCap built with an array of orders, {where} one any", lambda rec, where=where: array(rec, where), RULE)

    def assign(rec, name):
        I, L = start()
        o = run(I, Q, [L], {"theta_max": pi_() / 3})
        I.st = o.st
        if name == "order":
            v = S("m")
            bad = b_not(b_lt(abs_(v) - L))
        else:
            v = real("t")
            bad = b_eq(v)
        raises_iff(rec, I, ASSIGN, [o.value, name, v], {}, bad, sub=name, st=o.st,
                   unless=outside(v, ZERO, pi_()) if name == "theta_max" else ZERO)
    for name in ("order", "theta_max"):
        c.ob(f"SlepianPolarCap.{name} re-assigned", lambda rec, name=name: assign(rec, name), RULE)


# ---------------------------------------------------------------- signals
def prepared(q, over, given=()):
    """keyword arguments for the class, without any assumption on the own parameters"""
    I = new("cold")
    cls = I.resolve(q)
    b = setup(I, cls)
    data(I)
    kw = {}
    for n, ann, has in params(I, cls):
        if n in over:
            v = over[n]
        elif not has or (n == "region" and is_slepian(cls) and "Region" in ann):
            v = value_for(b, n, ann, I)
        else:
            continue
        kw[n] = v
    return I, cls, b, kw


def tiling(I, b, q, kw):
    """number of wavelets of the object built without choosing a scale"""
    o = run(I, q, [], {k: v for k, v in kw.items() if k != "j"})
    if o.st is None:
        return None, o
    w = fld(o, o.value, "wavelets")
    return at_state(I, o, lambda: P(I.arr(w).shape[0])), o


def scale(rec, q):
    for route in ("keyword", "assignment", "list"):
        I, cls, b, kw = prepared(q, {"B": S("B", "int", True), "j_min": S("j_min", "int", True)})
        assume_ge(I, P(kw["B"]) - 2)
        n, o = tiling(I, b, q, kw)
        if n is None:
            rec.undecided("the object cannot be followed", route)
            continue
        rec.seen(I)
        # combinations the class accepts without a chosen scale
        st = o.st.copy()
        assume_ge(I, n - 1)
        j = S("j")
        bad = b_or(b_lt(j), b_not(b_lt(j + 1 - n)))
        if route == "keyword":
            raises_iff(rec, I, q, [], dict(kw, j=j), bad, sub=route, st=st_with(I, st, n))
        elif route == "assignment":
            raises_iff(rec, I, ASSIGN, [o.value, "j", j], {}, bad, sub=route, st=st_with(I, st, n))
        else:
            names = own(I, cls)
            order = list_order(q.rsplit(".", 1)[1], names)
            vals = {"B": kw["B"], "j_min": kw["j_min"], "j": j, "spin": ZERO}
            k2 = {k: v for k, v in kw.items() if k not in names}
            k2["extra_args"] = I.new_list([vals[k] for k in order])
            raises_iff(rec, I, q, [], k2, bad, sub=route, st=st_with(I, I.st, n))


def st_with(I, st, n):
    s = st.copy()
    c = s.ctx.copy()
    c.cons = c.cons + [P(n) - 1]
    s.ctx = c
    for k, v in I.st.heap.items():
        s.heap.setdefault(k, v)
    return s


def list_order(name, names):
    """order of the values in the extra-argument list"""
    if "spin" in names:
        return ["B", "j_min", "spin", "j"]
    if name == "SquashedGaussian":
        return ["t_sigma", "freq"]
    return names


def degree(rec, q):
    for route in ("keyword", "assignment", "list"):
        I, cls, b, kw = prepared(q, {})
        ell, m = S("ell"), S("m")
        bad = b_or(b_or(b_lt(ell), b_not(b_lt(ell - b.L))), b_lt(ell - abs_(m)))
        if route == "keyword":
            raises_iff(rec, I, q, [], dict(kw, ell=ell, m=m), bad, sub=route)
        elif route == "list":
            raises_iff(rec, I, q, [], dict(kw, extra_args=I.new_list([ell, m])), bad, sub=route)
        else:
            e0 = nat("e0")
            assume_ge(I, b.L - 1 - e0)
            o = run(I, q, [], dict(kw, ell=e0, m=ZERO))
            raises_iff(rec, I, ASSIGN, [o.value, "m", m], {}, b_lt(e0 - abs_(m)), sub="assignment of the order", st=o.st)
            raises_iff(rec, I, ASSIGN, [o.value, "ell", ell], {}, b_or(b_lt(ell), b_not(b_lt(ell - b.L))), sub="assignment of the degree", st=o.st)


def rank(rec, q):
    for route in ("keyword", "list", "assignment"):
        I, cls, b, kw = prepared(q, {})
        r = S("rank")
        I.guarded = frozenset(r.fv)
        rows = functions(I, b, cls)
        if rows is None:
            rec.undecided("number of basis functions not known", route)
            continue
        bad = b_or(b_lt(r), b_not(b_lt(r - rows)))
        if route == "keyword":
            raises_iff(rec, I, q, [], dict(kw, rank=r), bad, sub=route)
        elif route == "list":
            raises_iff(rec, I, q, [], dict(kw, extra_args=I.new_list([r])), bad, sub=route)
        else:
            o = run(I, q, [], kw)
            raises_iff(rec, I, ASSIGN, [o.value, "rank", r], {}, b_lt(r), sub=route, st=o.st, unless=b_not(b_lt(r - rows)))


def functions(I, b, cls):
    if not is_mesh(cls):
        return b.w.R
    names = [n for n, ann, has in params(I, cls)]
    return b.ws.R if any(k.name.startswith("MeshSlepian") for k in cls.mro if hasattr(k, "name")) else b.w.K


def lengths(rec, q, names):
    n = len(names)
    for k in range(0, max(n, 1) + 3):
        I, cls, b, kw = prepared(q, {})
        vals = [ONE * 2] * k
        if k == n:
            order = list_order(q.rsplit(".", 1)[1], names)
            dom = {"B": S("B", "int", True), "j_min": ZERO, "j": ZERO, "ell": S("ell", "int", True), "m": ZERO, "rank": ZERO, "spin": ZERO, "SNR": S("x")}
            vals = [dom.get(x, S("x_" + x)) for x in order]
            assume_ge(I, P(dom["B"]) - 2, b.L - 1 - P(dom["ell"]))
        raises_iff(rec, I, q, [], dict(kw, extra_args=I.new_list(vals)), ZERO if k == n and n else ONE, sub=f"{k} values")


def decomposition(rec, q):
    I = new("cold")
    cls = I.resolve(q)
    L = nat("L")
    assume_ge(I, L - 1)
    r = S("rank")
    if "Mesh" in q:
        w = mesh_slepian_obj(I)
        o = run(I, q, [w.ms], {"u_i": arr(I, "u_i", w.K, dt="real")})
        n = w.K
    else:
        w = slepian_obj(I, L)
        o = run(I, q, [L, w.s], {"flm": arr(I, "flm", L * L)})
        n = L * L
    if o.st is None:
        rec.undecided("not constructed")
        return
    I.st = o.st
    raises_iff(rec, I, I.getattr(o.value, "decompose"), [r], {}, b_or(b_lt(r), b_not(b_lt(r - n))), cls="ValueError", st=o.st)
