"""C01 Region kind and the solver, mask and name that follow it."""
from ..harness import *  # noqa: F403

RULE = "polar cap iff only the upper colatitude is restricted; else latitude/longitude box iff any other angle differs; else the named mask; else refused"
SOLVER = "the solver of the region's kind, built with the region's own angles, gap flag or mask name"
FOLLOW = "the solved region, its mask and its name are those of the same region"
REGION = "sleplet.slepian.region.Region"
SOLVERS = {"polar": "sleplet.slepian.slepian_polar_cap.SlepianPolarCap",
           "lim_lat_lon": "sleplet.slepian.slepian_limit_lat_lon.SlepianLimitLatLon",
           "arbitrary": "sleplet.slepian.slepian_arbitrary.SlepianArbitrary"}


def angles(I, **over):
    """the six settings, angles inside their domain"""
    from ..models import pi_

    a = {k: real(k, True) for k in ("phi_max", "phi_min", "theta_max", "theta_min")}
    a.update(over)
    for k, v in a.items():
        assume_ge(I, (pi_() * 2 if k.startswith("phi") else pi_()) - v)
    return a


def region_fields(I):
    def post(o):
        return (fld(o, o.value, "_region_type"), fld(o, o.value, "_name_ending"), fld(o, o.value, "gap"), fld(o, o.value, "mask_name"),
                fld(o, o.value, "phi_max"), fld(o, o.value, "phi_min"), fld(o, o.value, "theta_max"), fld(o, o.value, "theta_min"))
    return post


def obligations(c):
    for gap in (ZERO, ONE):
        for mask in (None, "", "some_mask"):
            def f(rec, gap=gap, mask=mask):
                I = new()
                a = angles(I)
                kw = dict(a, gap=gap)
                if mask is not None:
                    kw["mask_name"] = mask
                sargs = [gap, mask or "", a["phi_max"], a["phi_min"], a["theta_max"], a["theta_min"]]
                conform_k(rec, I, REGION, [], kw, "region.kind", sargs, post=region_fields(I),
                          spost=lambda o: (o.value[0], o.value[1], gap, mask or "", a["phi_max"], a["phi_min"], a["theta_max"], a["theta_min"]))
            c.ob(f"kind and name, {'gap' if gap == ONE else 'no gap'}, mask {mask!r}, all four angles", f, RULE)
    import itertools

    for given in itertools.product((False, True), repeat=4):
        if all(given):
            continue

        def f(rec, given=given):
            I = new()
            from ..models import pi_

            d = {"phi_max": pi_() * 2, "phi_min": ZERO, "theta_max": pi_(), "theta_min": ZERO}
            a = angles(I)
            kw = {k: a[k] for k, g in zip(d, given) if g}
            b = {k: (a[k] if g else d[k]) for k, g in zip(d, given)}
            g = S("gap", "int", True)
            assume_ge(I, ONE - g)
            for m in ("", "some_mask"):
                k2 = dict(kw, gap=ONE)
                if m:
                    k2["mask_name"] = m
                elif not any(given):
                    must_raise(rec, I, REGION, [], k2, sub="nothing given")
                    continue
                conform_k(rec, I, REGION, [], k2, "region.kind", [ONE, m, b["phi_max"], b["phi_min"], b["theta_max"], b["theta_min"]], sub=f"mask {m!r}",
                          post=region_fields(I), spost=lambda o, m=m: (o.value[0], o.value[1], ONE, m, b["phi_max"], b["phi_min"], b["theta_max"], b["theta_min"]))
        c.ob("kind and name with " + (", ".join(k for k, g in zip(("phi_max", "phi_min", "theta_max", "theta_min"), given) if g) or "no angle") + " given", f, RULE)

    for kind in SOLVERS:
        for gap in (ZERO, ONE) if kind == "polar" else (ZERO,):
            c.ob(f"solver for {kind}" + (" with gap" if gap == ONE else ""), lambda rec, kind=kind, gap=gap: solver(rec, kind, gap), SOLVER)
            c.ob(f"solved {kind}" + (" with gap" if gap == ONE else ""), lambda rec, kind=kind, gap=gap: solved(rec, kind, gap), FOLLOW)

    def f(rec):
        I = new()
        L = nat("L")
        assume_ge(I, L - 1)
        r = region_obj(I, kind="something_else")
        must_raise(rec, I, "sleplet.slepian_methods.choose_slepian_method", [L, r], {})
    c.ob("unknown kind is refused", f, "an invalid kind raises")


def concrete_region(I, kind, gap):
    a = angles(I)
    if kind == "polar":
        kw = {"theta_max": a["theta_max"], "gap": gap}
    elif kind == "lim_lat_lon":
        kw = dict(a)
    else:
        kw = {"mask_name": "some_mask"}
    return kw


def settle_kind(I, kind, kw):
    """restrict to the inputs for which the region has this kind"""
    from ..models import pi_
    from ..terms import b_eq

    if kind == "polar":
        assume(I, ONE - b_eq(kw["theta_max"] - pi_()))
        assume(I, ONE - b_eq(kw["theta_max"]))
    if kind == "lim_lat_lon":
        assume(I, ONE - b_eq(kw["theta_min"]))


def solver(rec, kind, gap):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    kw = concrete_region(I, kind, gap)
    settle_kind(I, kind, kw)
    r = run(I, REGION, [], kw)
    I.st = r.st
    made = []
    for k, q in SOLVERS.items():
        def mk(I2, cls, args, kws, k=k):
            names = [x[0] for x in I2.class_fields(cls) if not x[3]]
            b = dict(zip(names, args))
            b.update(kws)
            made.append((k, b))
            return obj(I2, cls, **b)
        hook(I, q, mk)
    o = run(I, "sleplet.slepian_methods.choose_slepian_method", [L, r.value])
    rec.seen(I)
    w = where_of(I, I.resolve("sleplet.slepian_methods.choose_slepian_method"))
    if o.st is None or not isinstance(o.value, ObjRef):
        rec.violation("no solver is returned for this kind", where=w) if o.st is None and not I.incomplete else rec.undecided("solver not resolved", where=w)
        return
    made = [m for m in made]
    got = o.st.heap[o.value.oid]
    want = I.resolve(SOLVERS[kind])
    if got.cls is not want:
        rec.violation(f"{got.cls.name} is chosen for a {kind} region", "class", where=w)
        return
    rec.proved("class", where=w)
    b = dict(got.fields)
    exp = {"L": L}
    if kind == "polar":
        exp.update(theta_max=kw["theta_max"], gap=gap)
    elif kind == "lim_lat_lon":
        exp.update({k: kw[k] for k in ("theta_min", "theta_max", "phi_min", "phi_max")})
    else:
        exp.update(mask_name="some_mask")
    b.setdefault("gap", ZERO)
    if kind == "polar" and b.get("order") is not None:
        rec.violation("only some orders are solved", "order", where=w)
    for k, v in exp.items():
        if k not in b:
            rec.violation(f"{k} is not passed to the solver", k, where=w)
            continue
        settle(rec, Cmp(rec, I, o.st, o.st, o.st.ctx).compare(b[k], v, k), k, w, I.incomplete)


def hook_solve(I):
    """the eigenproblem itself is not needed here"""
    n = 0
    for k, q in SOLVERS.items():
        cls = I.resolve(q)
        if "_solve_eigenproblem" in cls.ns:
            fn = cls.ns["_solve_eigenproblem"]
            hook(I, fn.qual if "." in fn.qual else f"{cls.mod}.{fn.qual}", lambda I2, fn, a, kws: (arr(I2, "lam", nat("R"), dt="real"), arr(I2, "vec", nat("R"), nat("Q"))))
            n += 1
    return n


def solved(rec, kind, gap):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    kw = concrete_region(I, kind, gap)
    settle_kind(I, kind, kw)
    hook_solve(I)
    mk = run(I, REGION, [], kw)
    I.st = mk.st
    masks = {}

    def create(I2, fn, a, k):
        e = I2.bind(fn, a, k)
        r = arr(I2, f"mask{len(masks)}", nat("nt"), nat("np"), dt="bool")
        masks[r.cid] = (e["L"], e["region"], I2.st.copy())
        return r
    hook(I, "sleplet._mask_methods.create_mask_region", create)
    skw = {k: v for k, v in kw.items()}
    o = run(I, SOLVERS[kind], [L], skw)
    rec.seen(I)
    w = where_of(I, I.resolve(SOLVERS[kind]))
    if o.st is None:
        rec.undecided("construction not followed", where=w)
        return
    reg = fld(o, o.value, "region")
    res = Cmp(rec, I, o.st, mk.st, o.st.ctx).compare(reg, mk.value, "region")
    settle(rec, res, "region", w, I.incomplete)
    m = fld(o, o.value, "mask")
    if not isinstance(m, ARef) or m.cid not in masks:
        rec.undecided("mask does not come from the region mask function", "mask", where=w)
    else:
        ml, mr, ms = masks[m.cid]
        res = Cmp(rec, I, ms, mk.st, o.st.ctx).compare(mr, mk.value, "mask region")
        settle(rec, res, "mask", w, I.incomplete)
        settle(rec, equal(rec, ml, L * 2 if kind == "arbitrary" else L, "mask bandlimit", o.st.ctx), "mask bandlimit", w, I.incomplete)
    nm = fld(o, o.value, "name")
    end = at_state(I, mk, lambda: I.binop(__import__("ast").Add(), "slepian_", fld(mk, mk.value, "_name_ending")))
    settle(rec, Cmp(rec, I, o.st, mk.st, o.st.ctx).compare(nm, end, "name"), "name", w, I.incomplete)
