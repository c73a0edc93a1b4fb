"""C28 Different settings give different result names."""
import itertools

from ..harness import *  # noqa: F403
from ..classes import assume_domain, build, params, registered, continent, is_mesh, is_slepian, setup, data
from ..names import cases, disjoint, separates, shape
from ..names import Shape, shown
from .c25 import ORDER
from ..report import Rec, pmap

RULE = "every numeric setting can be read back from the name, as an exact fraction"
OPT = "a setting that is given and the same setting left out give different names"
CLS = "no two classes can produce the same name"
EXTRA = "the name tells the settings in force, whether they came as keywords or as extra arguments"
REG = "the region is part of the name"
PLOT = "rotation / translation angles, the kind of operation and the convolved map can be read back from the plot's file name"
COMMON = ("noise", "smoothing")


def name_cases(rec, I, b):
    o = b.out
    if o.st is None:
        return None, None
    ctx = b.st0.ctx.copy()
    r = o.raise_cond()
    if r != ZERO:
        from ..interp import implied_lits
        for at, v in implied_lits(ONE - r):
            ctx = ctx.assume(at, v)
    return cases(rec, I, o.st, fld(o, o.value, "name"), ctx), ctx


def obligations(c):
    I0 = new("cold")
    try:
        classes = [(k.mod + "." + k.name, k.name) for k in registered(I0, "COEFFICIENTS", "MESH_COEFFICIENTS")]
    except Exception as e:
        msg = str(e)
        c.ob("registered classes", lambda rec: rec.anchor(msg), RULE)
        return
    for q, nm in classes:
        c.ob("numbers in the name of " + nm, lambda rec, q=q: numbers(rec, q), RULE)
        c.ob("optional settings of " + nm, lambda rec, q=q: optional(rec, q), OPT)
        if nm in ORDER:
            c.ob("name of " + nm + " by extra arguments", lambda rec, q=q, nm=nm: listed(rec, q, nm), EXTRA)
        c.ob("region in the name of " + nm, lambda rec, q=q: region(rec, q), REG)
    c.ob("names of different classes", lambda rec: between(rec, classes), CLS)
    for m in ("rotate", "translate"):
        c.ob("plot file after " + m, lambda rec, m=m: plotted(rec, m), PLOT)
    c.ob("plot file of a convolution", convolved, PLOT)
    c.ob("plot methods have different files", methods, PLOT)
    c.ob("views of the Earth have different files", views, PLOT)


def own(I, cls):
    return [n for n, a, h in params(I, cls) if n not in ("extra_args", "mesh_slepian", "region", "mesh") and n not in COMMON]


def noisy(I, cls):
    """settings that the class accepts: noise everywhere but full-length Slepian signals"""
    return [n for n, a, h in params(I, cls) if n in COMMON]


def stub_noise(I, cls):
    """the amount of noise only matters through the name here"""
    for k in cls.mro:
        f = getattr(k, "ns", {}).get("_add_noise_to_signal")
        if f is not None:
            hook(I, f.qual, lambda I2, fn, a, kw: (None, None))


def numbers(rec, q):
    I = new("cold")
    cls = I.resolve(q)
    stub_noise(I, cls)
    ps = own(I, cls) + noisy(I, cls)
    b = build(I, cls, ps)
    rec.seen(I)
    w = where_of(I, cls)
    exact(rec, I)
    cs, ctx = name_cases(rec, I, b)
    if cs is None:
        rec.undecided("construction not followed", where=w)
        return
    done = 0
    for n in ps:
        v = b.values.get(n)
        if not isinstance(v, Poly):
            continue
        s = next(iter(next(iter(v.t))))[0]
        if I.incomplete:
            rec.undecided(I.incomplete[0], n, where=w)
            continue
        separates(rec, cs, ctx, s, n, w)
        done += 1
    if not done:
        rec.proved("no numeric setting", where=w)


def exact(rec, I):
    """decimals that only differ beyond the kept denominator would share a name"""
    for e in I.events:
        if e["kind"] == "limit-denominator" and isinstance(e["limit"], (int, Poly)):
            k = constant(P(e["limit"]))
            if k is not None and 0 < k < 10**6:
                rec.violation(f"fractions are rounded to denominators up to {int(k)}: 1/{int(k) + 1} and 1/{int(k) + 2} are not told apart", "rounding", where=e["loc"])


def constant(p):
    return p.t.get((), 0) if all(m == () for m in p.t) else None


def optional(rec, q):
    I = new("cold")
    cls = I.resolve(q)
    w = where_of(I, cls)
    opts = [n for n, a, h in params(I, cls) if "None" in a and n not in ("extra_args", "mesh_slepian", "region")]
    zoom = is_mesh(cls)
    if not opts and not zoom:
        rec.proved("no optional setting", where=w)
    for n in opts:
        rest = [o for o in opts if o != n]
        done = True
        for sub in itertools.product((False, True), repeat=len(rest)):
            others = [o for o, g in zip(rest, sub) if g]
            fam = []
            for given in (True, False):
                I = new("cold")
                cls = I.resolve(q)
                stub_noise(I, cls)
                ps = [p for p in own(I, cls) if p not in opts] + others + ([n] if given else [])
                b = build(I, cls, ps, over={o: None for o in opts if o not in ps})
                rec.seen(I)
                cs, ctx = name_cases(rec, I, b)
                if cs is None:
                    rec.undecided("construction not followed", n, where=w)
                    break
                fam.append(cs)
            if len(fam) < 2 or not disjoint(rec, fam[0], fam[1], n, w, f"{n} given or not" + (f" (with {', '.join(others)})" if others else ""), quiet=True):
                done = False
                break
        if done:
            rec.proved(n, where=w, detail=f"with every choice of {len(rest)} other settings")
    for what in ("zoom", "region") if zoom else ():
        if what == "region" and is_mesh_slepian(cls):
            continue
        done = True
        for sub in itertools.product((False, True), repeat=len(opts)):
            others = [o for o, g in zip(opts, sub) if g]
            ov = {o: None for o in opts if o not in others}
            fam = []
            for on in (ONE, ZERO):
                I = new("cold")
                cls = I.resolve(q)
                stub_noise(I, cls)
                ps = [p for p in own(I, cls) if p not in opts] + others
                b = build(I, cls, ps, over=dict(ov, region=on)) if what == "region" else build_zoom(I, cls, on, ps, ov)
                rec.seen(I)
                cs, ctx = name_cases(rec, I, b)
                if cs is None:
                    rec.undecided("construction not followed", what, where=w)
                    break
                fam.append(cs)
            if len(fam) < 2 or not disjoint(rec, fam[0], fam[1], what, w, f"{what} on or off" + (f" (with {', '.join(others)})" if others else ""), quiet=True):
                done = False
                break
        if done:
            rec.proved(what, where=w, detail=f"with every choice of {len(opts)} other settings")


def is_mesh_slepian(cls):
    return any(getattr(k, "name", "") == "MeshSlepianCoefficients" for k in cls.mro)


def build_zoom(I, cls, on, ps, over):
    from .. import classes

    old = classes.mesh_obj

    def mk(I2, *a, **k):
        w = old(I2, *a, **k)
        I2.st.heap[w.m.oid].fields["zoom"] = on
        return w
    classes.mesh_obj = mk
    try:
        return build(I, cls, ps, over=over)
    finally:
        classes.mesh_obj = old


def listed(rec, q, name):
    """the name of a signal built from a list of extra arguments is the one of the settings it ends up with"""
    I = new("cold")
    cls = I.resolve(q)
    rec.where = where_of(I, cls)
    b = setup(I, cls)
    data(I)
    kw = {}
    for n, ann, has in params(I, cls):
        v = {"L": lambda: b.L, "mesh": lambda: b.w.m, "mesh_slepian": lambda: b.ws.ms}.get(n, lambda: None)()
        if n == "region" and is_slepian(cls) and "Region" in ann:
            v = b.w.region
        if v is not None:
            kw[n] = v
    xs = []
    for n in ORDER[name]:
        x = S("x_" + n.replace("10^", ""), "int", n in ("B", "j_min", "j", "rank", "ell"))
        b.values[n] = x
        xs.append(x)
    assume_domain(I, b)
    o = run(I, cls, [], dict(kw, extra_args=I.new_list(xs)))
    rec.seen(I)
    if o.st is None:
        return rec.undecided("construction not followed")
    k2 = dict(kw)
    for n in ORDER[name]:
        f = n.replace("10^", "")
        k2[f] = o.st.heap[o.value.oid].fields.get(f)
    # the first one has been accepted, so its settings are valid
    st = o.st.copy()
    o2 = run(I, cls, [], k2, st)
    if o2.st is None:
        return rec.undecided("construction by keyword not followed")
    a1, a2 = fld(o, o.value, "name"), fld(o2, o2.value, "name")
    c1, c2 = cases(rec, I, o.st, a1, o.st.ctx), cases(rec, I, o2.st, a2, o.st.ctx)
    if any(t is None for _, t in c1 + c2):
        return rec.undecided("text not modelled")
    if {tuple(map(token, t)) for _, t in c1} == {tuple(map(token, t)) for _, t in c2}:
        return rec.proved(detail=f"{len(c1)} cases")
    t1, t2 = (sorted({shown(t) for _, t in c}) for c in (c1, c2))
    syms = [next(iter(next(iter(x.t))))[0] for x in xs]
    missing = [x.args[0] for x in syms if not any(x in t[0].fv for _, ts in c1 for t in ts if not isinstance(t, str) and hasattr(t[0], "fv"))
               and not any(x in at.fv for c, _ in c1 for at in c.lits)]
    if missing and not I.incomplete:
        return rec.violation(f"the name {t1[0]} does not tell the extra argument {missing[0]}")
    rec.undecided(f"{t1[0]} and {t2[0]} not recognised as the same")


def token(t):
    return t if isinstance(t, str) else (t.text if isinstance(t, Shape) else t[0], getattr(t, "poly", None) if isinstance(t, Shape) else t[1])


def region(rec, q):
    I = new("cold")
    cls = I.resolve(q)
    w = where_of(I, cls)
    if is_mesh(cls) or (is_slepian(cls) and continent(cls)) or cls.name in ("SouthAmerica", "AxisymmetricWaveletCoefficientsSouthAmerica"):
        rec.proved("only one region is possible" if not is_mesh(cls) else "meshes have one region", where=w)
        return
    opts = [n for n, a, h in params(I, cls) if "None" in a and n not in ("extra_args", "mesh_slepian", "region")]
    for sub in itertools.product((False, True), repeat=len(opts)):
        I = new("cold")
        cls = I.resolve(q)
        stub_noise(I, cls)
        given = [o for o, g in zip(opts, sub) if g]
        setup(I, cls)
        over = {o: None for o in opts if o not in given}
        if not is_slepian(cls):
            over["region"] = region_obj(I, name="the_region")
        b = build(I, cls, [p for p in own(I, cls) if p not in opts] + given, over=over)
        rec.seen(I)
        cs, ctx = name_cases(rec, I, b)
        if cs is None or any(t is None for _, t in cs):
            rec.undecided("construction not followed", where=w)
            return
        marks = ("the_region", "slepian_name")
        for cc, t in cs:
            txt = "".join(x if isinstance(x, str) else "#" for x in t)
            if not any(m in txt for m in marks):
                rec.violation(f"the region does not occur in the name {txt}" + (f" when {' and '.join(given)} given" if given else ""), where=w)
                return
    rec.proved(where=w)


def family(q):
    """the shapes of every name the class can produce"""
    I = new("cold")
    cls = I.resolve(q)
    w = where_of(I, cls)
    opts = [n for n, a, h in params(I, cls) if "None" in a and n not in ("extra_args", "mesh_slepian", "region")]
    fam, bad = set(), None
    for sub in itertools.product((False, True), repeat=len(opts)):
        I = new("cold")
        cls = I.resolve(q)
        stub_noise(I, cls)
        ps = [p for p in own(I, cls) if p not in opts] + [o for o, g in zip(opts, sub) if g]
        b = build(I, cls, ps, over={o: None for o, g in zip(opts, sub) if not g}, region_name=None if continent(cls) and is_slepian(cls) else "polar40")
        cs, ctx = name_cases(Rec(None, "", ""), I, b)
        if cs is None:
            bad = "construction not followed"
            continue
        fam |= {shape(t) for _, t in cs}
    return w, bad, sorted(fam, key=str), {str(f) for f in I.functions_seen}


def between(rec, classes):
    fams = pmap(family, [q for q, _ in classes])
    for k, (q, a) in enumerate(classes):
        if fams[k] is None or fams[k][1]:
            rec.undecided("construction not followed", a)
            continue
        w, _, fa, seen = fams[k]
        rec.c.functions |= seen
        ok = True
        for b, other in zip(classes[:k], fams):
            if other and not disjoint(rec, [(None, t) for t in fa], [(None, t) for t in other[2]], f"{a} and {b[1]}", w, f"{a} and {b[1]}", quiet=True):
                ok = False
        if ok:
            rec.proved(a, where=w, detail=f"against {k} classes")


# ------------------------------------------------------------------ plot files
SP = "sleplet._scripts.plotting_on_sphere.plot"


def run_plot(I, method, g=False, name="the_name", view="south_america"):
    L = nat("L")
    assume_ge(I, L - 1)
    f = obj(I, "sleplet.functions.Gaussian", L=L, coefficients=arr(I, "coefficients", L * L), reality=ONE, spin=ZERO, name=name,
            region=None, noise=None, smoothing=None, extra_args=None)
    gg = None
    if g:
        gg = obj(I, "sleplet.functions.Gaussian", L=L, coefficients=arr(I, "g_coefficients", L * L), reality=ONE, spin=ZERO, name="the_other",
                 region=None, noise=None, smoothing=None, extra_args=None)
    seen = []
    cls = I.resolve("sleplet.plotting.PlotSphere")

    def mk(I2, c2, a, k):
        names = [x[0] for x in I2.class_fields(cls) if not x[3]]
        bnd = dict(zip(names, a))
        bnd.update(k)
        seen.append(bnd)
        return obj(I2, cls, **{k2: v for k2, v in bnd.items()})
    hook(I, f"{cls.mod}.{cls.name}", mk)
    hook(I, f"{cls.mod}.{cls.name}.execute", lambda I2, fn, a, k: None)
    al, be, ga = real("alpha_pi_frac"), real("beta_pi_frac"), real("gamma_pi_frac")
    st0 = I.st.copy()
    o = run(I, SP, [f, gg], dict(alpha_pi_frac=al, beta_pi_frac=be, gamma_pi_frac=ga, annotations=ONE, normalise=ONE, method=method, plot_type="real",
                                 upsample=ONE, earth_view=view, amplitude=None))
    return o, seen, st0, (al, be, ga)


def plotted(rec, method):
    I = new("cold")
    o, seen, st0, angs = run_plot(I, method)
    rec.seen(I)
    w = where_of(I, I.resolve(SP))
    if o.st is None or len(seen) != 1:
        rec.undecided(f"plot call not followed ({len(seen)} figures)", where=w)
        return
    cs = cases(rec, I, o.st, seen[0]["filename"], st0.ctx)
    for a, n in zip(angs, ("alpha", "beta", "gamma")):
        if n == "gamma" and method == "translate":
            continue
        s = next(iter(next(iter(a.t))))[0]
        separates(rec, cs, st0.ctx, s, n, w)
    for _, t in cs:
        txt = "".join(x if isinstance(x, str) else "#" for x in t)
        if "the_name" not in txt:
            rec.violation(f"the signal's name is missing from the file name {txt}", "signal", where=w)
            return
    rec.proved("signal", where=w)


def convolved(rec):
    fam = []
    for g in (True, False):
        I = new("cold")
        o, seen, st0, _ = run_plot(I, "north", g)
        rec.seen(I)
        w = where_of(I, I.resolve(SP))
        if o.st is None or len(seen) != 1:
            rec.undecided("plot call not followed", where=w)
            return
        fam.append(cases(rec, I, o.st, seen[0]["filename"], st0.ctx))
    disjoint(rec, fam[0], fam[1], "convolved or not", w, "convolution")
    for _, t in fam[0]:
        txt = "".join(x if isinstance(x, str) else "#" for x in t)
        if "the_other" not in txt or "the_name" not in txt:
            rec.violation(f"both maps must be named, got {txt}", "maps", where=w)
            return
    rec.proved("maps", where=w)


def methods(rec):
    fam = {}
    for m in ("north", "rotate", "translate"):
        I = new("cold")
        o, seen, st0, _ = run_plot(I, m)
        rec.seen(I)
        w = where_of(I, I.resolve(SP))
        if o.st is None or len(seen) != 1:
            rec.undecided("plot call not followed", m, where=w)
            return
        fam[m] = cases(rec, I, o.st, seen[0]["filename"], st0.ctx)
    for a, b in itertools.combinations(fam, 2):
        disjoint(rec, fam[a], fam[b], f"{a} and {b}", w, f"{a} and {b}")


def views(rec):
    fam = {}
    for m in ("south_america", "africa"):
        I = new("cold")
        o, seen, st0, _ = run_plot(I, "north", name="earth_L8", view=m)
        rec.seen(I)
        w = where_of(I, I.resolve(SP))
        if o.st is None or len(seen) != 1:
            rec.undecided("plot call not followed", m, where=w)
            return
        fam[m] = cases(rec, I, o.st, seen[0]["filename"], st0.ctx)
    disjoint(rec, fam["south_america"], fam["africa"], "view", w, "views of the Earth")
