"""C24 Longitude/colatitude roles and angle units are never mixed."""
from ..classes import build, continent, is_mesh, is_slepian, registered
from ..flow import COL, DEG, FRAC, LON, RAD, Flow
from ..harness import *  # noqa: F403
from ..models import pi_
from .c25 import SPHERE, arrow, command, drawn, items, moved, num_
from .c01 import REGION, hook_solve
from .solve import *  # noqa: F403
from .c02 import where_cls
from .c20 import files
from .c21 import CONTINENTS

ROLE = "every angle that reaches a parameter of known meaning has its role and its unit; no angle is compared with one of another kind"
MARK = "the map is computed at the grid point of the given angles, and that point is the one marked"
CALLS = ("translate", "rotate")



def settle_flow(rec, f, I, sub="", need=1):
    rec.seen(I)
    rec.c.calls += f.sinks
    for where, msg in f.bad:
        rec.violation(msg, sub or "", where=where)
    if f.bad:
        return
    if I.incomplete:
        return rec.undecided(I.incomplete[0], sub)
    if f.typed < need:
        return rec.undecided(f"only {f.typed} typed angles reach a known parameter", sub)
    rec.proved(sub, detail=f"{f.sinks} angle arguments, {f.typed} typed, {f.unknown} untyped")


def angles4():
    return {"phi_max": (LON, RAD), "phi_min": (LON, RAD), "theta_max": (COL, RAD), "theta_min": (COL, RAD)}


def tagged(f, vals):
    for n, (r, u) in angles4().items():
        v = vals.get(n)
        if isinstance(v, Poly) and len(v.t) == 1 and v != pi_() and v != pi_() * 2:
            f.tag(v, r, u)


def obligations(c):
    c.ob("region of the command line and environment", window, ROLE)
    for kind in ("box", "cap", "caps"):
        c.ob(f"region from angles: {kind}", lambda rec, kind=kind: region(rec, kind), ROLE)
        c.ob(f"mask of a region: {kind}", lambda rec, kind=kind: mask(rec, kind), ROLE)
        c.ob(f"Slepian problem of a region: {kind}", lambda rec, kind=kind: chosen(rec, kind), ROLE)
    c.ob("polar cap solution", lambda rec: solved_(rec, "cap"), ROLE)
    c.ob("latitude/longitude box solution", lambda rec: solved_(rec, "box"), ROLE)
    I = new("cold")
    for cls in registered(I, "COEFFICIENTS"):
        q = f"{cls.mod}.{cls.name}"
        for what in CALLS:
            c.ob(f"{what} {cls.name}", lambda rec, q=q, what=what: move(rec, q, what), ROLE, limit=200)
        c.ob(f"construction of {cls.name}", lambda rec, q=q: construction(rec, q), ROLE, limit=200)
    for v in ("africa", "south_america"):
        c.ob(f"view of {v}", lambda rec, v=v: view(rec, v), ROLE)
        c.ob(f"mask of {v}", lambda rec, v=v: land(rec, v), ROLE)
    c.ob("nearest grid point", grid, ROLE)
    for cls in ("Gaussian", "SlepianSouthAmerica"):
        for what in CALLS:
            c.ob(f"command line {what} of {cls}", lambda rec, cls=cls, what=what: commanded(rec, cls, what), ROLE + "; " + MARK, limit=200)
    c.ob("plots of the sphere", plotted, ROLE)


def window(rec):
    I = new("cold")
    fn = I.resolve("sleplet._mask_methods.create_default_region")
    rec.where = where_of(I, fn)
    f = Flow(I)
    run(I, fn, [], {})
    settle_flow(rec, f, I, need=4)


def given_angles(I, kind):
    """(keywords of the region, all four angles) of a region of this kind"""
    a = {n: real(n, True) for n in angles4()}
    assume_ge(I, pi_() - a["theta_min"], pi_() - a["theta_max"], pi_() * 2 - a["phi_min"], pi_() * 2 - a["phi_max"])
    if kind == "box":
        assume(I, b_lt(a["phi_max"] - pi_() * 2), b_lt(a["theta_max"] - pi_()), b_not(b_eq(a["phi_min"])), b_not(b_eq(a["theta_min"])))
        return dict(a)
    assume(I, b_not(b_eq(a["theta_max"])), b_lt(a["theta_max"] - pi_()))
    return {"theta_max": a["theta_max"], "gap": ONE if kind == "caps" else ZERO}


def region(rec, kind):
    I = new("cold")
    cls = I.resolve(REGION)
    rec.where = where_cls(I, cls)
    kw = given_angles(I, kind)
    f = Flow(I)
    tagged(f, kw)
    o = run(I, cls, [], kw)
    if o.dead:
        rec.seen(I)
        return rec.undecided("the region cannot be built")
    for _, cond in [(None, o.raise_cond())]:
        if isinstance(cond, Poly):
            f.consistent(rec.where, cond)
    for n in kw:
        if n != "gap":
            v = fld(o, o.value, n)
            d = angles4()[n]
            f.sink(rec.where, f"the region's {n}", *d, v)
    settle_flow(rec, f, I, need=1)


def made_region(rec, I, kind):
    kw = given_angles(I, kind)
    f = Flow(I)
    tagged(f, kw)
    o = run(I, REGION, [], kw)
    if o.dead:
        rec.undecided("the region cannot be built")
        return None, None
    r = o.raise_cond()
    I.st = o.st
    return f, o


def mask(rec, kind):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    f, o = made_region(rec, I, kind)
    if f is None:
        return
    fn = private(rec, lambda: I.resolve("sleplet._mask_methods.create_mask_region"))
    if fn is None:
        return
    rec.where = where_of(I, fn)
    m = run(I, fn, [L, o.value], {}, o.st)
    if m.dead:
        rec.seen(I)
        return rec.undecided("no mask is returned")
    I.st = m.st
    n = 0
    for t in f.terms(m.value):
        f.consistent(rec.where, t)
        n += sum(1 for a in f.inner(t) if a.kind == "ind")
    f.typed += n
    settle_flow(rec, f, I, need=1)


def chosen(rec, kind):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    hook_solve(I)
    masks(I)
    f, o = made_region(rec, I, kind)
    if f is None:
        return
    fn = I.resolve("sleplet.slepian_methods.choose_slepian_method")
    rec.where = where_of(I, fn)
    r = run(I, fn, [L, o.value], {}, o.st)
    if r.dead and not f.bad:
        rec.seen(I)
        return rec.undecided("no solution is returned")
    settle_flow(rec, f, I, need=1)


def solved_(rec, kind):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    f = Flow(I)
    if kind == "cap":
        rec.where = where_cls(I, I.resolve(POLAR))
        f.src[next(iter(next(iter(P(real("theta_max", True)).t))))[0]] = (COL, RAD)
        o, th = polar(I, L, None, ZERO)
    else:
        rec.where = where_cls(I, I.resolve(BOX))
        kw = box_setup(I, L, False)
        tagged(f, kw)
        o = run(I, BOX, [L], kw)
    if o.dead:
        rec.seen(I)
        return rec.undecided("no solution is returned")
    settle_flow(rec, f, I, need=1)


def method_of(cls, name):
    for k in cls.mro:
        g = getattr(k, "ns", {}).get(name)
        if g is not None:
            return g
    return None


def signal(I, cls):
    L = nat("L")
    assume_ge(I, L - 1)
    common = dict(L=L, reality=ONE, spin=ZERO, name="the_name_L", noise=None, smoothing=None, extra_args=None)
    if is_slepian(cls):
        w = slepian_obj(I, L)
        return L, obj(I, cls, coefficients=arr(I, "coefficients", w.N), slepian=w.s, region=w.region, _unnoised_coefficients=None, **common)
    return L, obj(I, cls, coefficients=arr(I, "coefficients", L * L), region=None, _unnoised_coefficients=None, **common)


def move(rec, q, what):
    I = new("cold")
    cls = I.resolve(q)
    rec.where = where_cls(I, cls)
    fn = method_of(cls, what)
    if fn is None:
        return rec.undecided(f"{cls.name} has no {what}")
    rec.where = where_of(I, fn)
    L, s = signal(I, cls)
    al, be, ga = real("the_alpha"), real("the_beta"), real("the_gamma")
    f = Flow(I, {al: (LON, RAD), be: (COL, RAD), ga: (LON, RAD)})
    o = run(I, bound(I, s, what), [al, be], {"gamma": ga} if what == "rotate" else {"shannon": None})
    if o.dead and any(e.cls == "NotImplementedError" for _, e in o.raises):
        rec.seen(I)
        return rec.proved(detail="not offered")
    if o.dead:
        rec.seen(I)
        return rec.undecided(f"it always raises {[e.cls for _, e in o.raises]}")
    I.st = o.st
    for t in f.terms(o.value):
        f.consistent(rec.where, t)
    # both angles arrive somewhere
    for a, n in ((al, "longitude"), (be, "colatitude")):
        if not any(a_ in f.inner(t) for t in f.terms(o.value) for a_ in f.inner(a)):
            f.report(rec.where, f"the {n} does not influence the result") if not I.incomplete else None
    euler(rec, I, f, {"alpha": al, "beta": be, "gamma": ga})
    settle_flow(rec, f, I, need=2)


def euler(rec, I, f, want):
    """the three angles of a rotation keep their order"""
    for name, n, v, where in f.given:
        if name == "pyssht.rotate_flms":
            if not isinstance(v, Poly):
                continue
            turns = [P(want[n]) + pi_() * 2 * k for k in (-1, 0, 1)] if n != "beta" else [P(want[n])]
            res = [equal(rec, v, w, n, I.ctx) for w in turns]
            if any(d[0] == "ok" for r in res for d in r):
                continue
            for d in res[len(res) // 2]:
                if d[0] == "bad":
                    f.report(where, f"{n} of the rotation is not the given {n}: {d[1]}")


def construction(rec, q):
    I = new("cold")
    cls = I.resolve(q)
    rec.where = where_cls(I, cls)
    f = Flow(I)
    b = build(I, cls)
    if b.out.dead:
        rec.seen(I)
        return rec.undecided("the construction does not return")
    I.st = b.out.st
    settle_flow(rec, f, I, need=0)


def view(rec, v):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    fn = I.resolve(f"sleplet.harmonic_methods.rotate_earth_to_{v}")
    rec.where = where_of(I, fn)
    f = Flow(I)
    o = run(I, fn, [arr(I, "flm", L * L), L], {})
    if o.dead:
        rec.seen(I)
        return rec.undecided("it does not return")
    if not any(n == "pyssht.rotate_flms" for n, *_ in f.given):
        rec.seen(I)
        return rec.undecided("no rotation found")
    want = dict(zip(("alpha", "beta", "gamma"), CONTINENTS[v]))
    euler(rec, I, f, {n: pi_() * num_(d, 180) for n, d in want.items()})
    settle_flow(rec, f, I, need=0)


def land(rec, v):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    files(I)
    fn = private(rec, lambda: I.resolve("sleplet._mask_methods.create_mask"))
    if fn is None:
        return
    rec.where = where_of(I, fn)
    f = Flow(I)
    o = run(I, fn, [L, f"{v}_L.npy"], {})
    if o.dead:
        rec.seen(I)
        return rec.undecided("no mask is returned")
    I.st = o.st
    for t in f.terms(o.value):
        f.consistent(rec.where, t)
    settle_flow(rec, f, I, need=0)


def grid(rec):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    fn = private(rec, lambda: I.resolve("sleplet.plot_methods._calc_nearest_grid_point"))
    if fn is None:
        return
    rec.where = where_of(I, fn)
    al, be = real("the_alpha_frac"), real("the_beta_frac")
    f = Flow(I, {al: (LON, FRAC), be: (COL, FRAC)})
    o = run(I, fn, [L, al, be], {})
    if o.dead or not isinstance(o.value, tuple) or len(o.value) != 2:
        rec.seen(I)
        return rec.undecided("no pair of angles is returned")
    I.st = o.st
    for n, role, v in (("alpha", LON, o.value[0]), ("beta", COL, o.value[1])):
        f.sink(rec.where, f"{n} of the grid point", role, RAD, v)
    settle_flow(rec, f, I, need=2)


def commanded(rec, cls, what):
    from . import c25

    al, be, ga = real("al"), real("be"), real("ga")
    flows = []
    make = c25.new

    def started(*a, **k):
        I = make(*a, **k)
        flows.append(Flow(I, {al: (LON, FRAC), be: (COL, FRAC), ga: (LON, FRAC)}))
        return I
    c25.new = started
    try:
        r = command(rec, SPHERE, cls, {"--method": what, "--alpha": al, "--beta": be, "--gamma": ga})
    finally:
        c25.new = make
    if r is None:
        return
    d = drawn(rec, r)
    if d is None:
        return
    settle_flow(rec, flows[0], r.I, "roles and units", need=2)
    if len(r.moves) != 1:
        return rec.undecided(f"{len(r.moves)} moves", "moved")
    moved(rec, r, what, al, be, ga, "given angles")
    if what == "translate":
        arrows = items(r.I, r.o.st, d.get("annotations"))
        if len(arrows) != 1:
            return rec.violation(f"{len(arrows)} arrows at the translation point", "arrow") if not r.inc else rec.undecided("no arrow found", "arrow")
        at = arrow(r, arrows[0])
        e = r.moves[0][1]
        b = run(r.I, SPEC + ".cli.arrow", [e["alpha"], e["beta"]], {}, r.o.st)
        for i, n in enumerate("xyz"):
            settle(rec, Cmp(rec, r.I, r.o.st, b.st, r.st0.ctx).compare(at.get(n), list(b.value)[i], n), f"arrow {n}", rec.where, r.inc)
    return None


def plotted(rec):
    I = new("cold")
    L, R = nat("L"), nat("R")
    assume_ge(I, L - 1, R - L)
    hook(I, "sleplet.plot_methods.calc_plot_resolution", lambda I2, fn, a, k: R)
    field = arr(I, "field", L + 1, L * 2, dt="real")
    cls = I.resolve("sleplet.plotting.PlotSphere")
    rec.where = where_cls(I, cls)
    f = Flow(I)
    o = run(I, cls, [field, L, "the_file"], dict(plot_type="abs", normalise=ZERO, upsample=ZERO, reality=ONE, spin=ZERO))
    I.st = o.st
    o = run(I, bound(I, o.value, "execute"), [], {}, o.st)
    if o.dead:
        rec.seen(I)
        return rec.undecided("no figure is drawn")
    settle_flow(rec, f, I, need=1)
