"""C11 Spin and reality agree on both sides of every transform round trip."""
from ..classes import build, is_mesh, is_slepian, params, registered, setup
from ..harness import *  # noqa: F403
from ..terms import Poly

GIVEN = "every inverse and forward transform of the path uses exactly the stated spin and reality"
PAIR = "the inverse and the forward transform of a round trip use the same spin and reality"
FIG = "the figure is told the spin and reality with which its field was synthesised"
NOREAL = "after a translation or convolution no transform of the path treats the field as real"
OBJ = "transforms made while building a signal use that signal's spin and reality"


def transforms(I, n0=0):
    return [e for e in I.events[n0:] if e["kind"] == "transform"]


def same(rec, I, st, e, spin, reality, sub, what="stated"):
    loc = "%s" % (e.get("loc"),)
    r1 = equal(rec, P(e["spin"]), P(spin), "spin", st.ctx)
    r2 = equal(rec, P(e["reality"]), P(reality), "reality", st.ctx) if isinstance(e["reality"], Poly) else [("undecided", "reality of the call is not a flag")]
    settle(rec, list(r1), f"{sub}: spin of the {e['op']} transform", where=where_loc(e), incomplete=I.incomplete)
    settle(rec, list(r2), f"{sub}: reality of the {e['op']} transform", where=where_loc(e), incomplete=I.incomplete)


def where_loc(e):
    l = e.get("loc")
    return ":".join(str(x) for x in l) if isinstance(l, tuple) else str(l)


def check(rec, I, st, spin, reality, sub, need=(), n0=0):
    es = transforms(I, n0)
    ops = {e["op"] for e in es}
    miss = [n for n in need if n not in ops]
    if miss:
        rec.undecided(f"no {' / '.join(miss)} transform found on this path", sub)
    for k, e in enumerate(es):
        same(rec, I, st, e, spin, reality, f"{sub} [{k + 1}]" if sub else f"[{k + 1}]")


def base(n=1):
    I = new("cold")
    L, R = nat("L"), nat("R")
    assume_ge(I, L - 1, R - L)
    hook(I, "sleplet.plot_methods.calc_plot_resolution", lambda I2, fn, a, k: R)
    return I, L, R, S("spin")


def harmonic(I, L, s, real, cls="sleplet.functions.Gaussian", **over):
    f = dict(L=L, coefficients=arr(I, "coefficients", L * L), reality=real, spin=s, name="the_name_L", region=None, noise=None, smoothing=None,
             extra_args=None, _unnoised_coefficients=arr(I, "clean", L * L), snr=real_(I))
    f.update(over)
    return obj(I, cls, **f)


def real_(I):
    return real("snr")


def obligations(c):
    for r in (ONE, ZERO):
        tag = "real" if r == ONE else "complex"

        def f(rec, r=r):
            I, L, R, s = base()
            fn = I.resolve("sleplet.harmonic_methods.invert_flm_boosted")
            rec.where = where_of(I, fn)
            o = run(I, fn, [arr(I, "flm", L * L), L, R], dict(reality=r, spin=s))
            rec.seen(I)
            check(rec, I, o.st or I.st, s, r, "", ("inverse",))
        c.ob(f"boosted inverse transform, {tag}", f, GIVEN)

        def f(rec, r=r):
            I, L, R, s = base()
            fn = private(rec, lambda: I.resolve("sleplet._mask_methods.ensure_masked_flm_bandlimited"))
            if fn is None:
                return
            rec.where = where_of(I, fn)
            hook(I, "sleplet._mask_methods.create_mask_region", lambda I2, f2, a, k: arr(I2, "mask", L + 1, L * 2, dt="bool"))
            o = run(I, fn, [arr(I, "flm", L * L), L, region_obj(I)], dict(reality=r, spin=s))
            rec.seen(I)
            check(rec, I, o.st or I.st, s, r, "", ("inverse", "forward"))
        c.ob(f"masking of coefficients, {tag}", f, GIVEN)

        def f(rec, r=r):
            I, L, R, s = base()
            fn = private(rec, lambda: I.resolve("sleplet.harmonic_methods._ensure_f_bandlimited"))
            if fn is None:
                return
            rec.where = where_of(I, fn)
            g = I.resolve("spec.sphere.some_field") if False else None
            o = run(I, fn, [grid_fun(I), L], dict(reality=r, spin=s))
            rec.seen(I)
            check(rec, I, o.st or I.st, s, r, "", ("forward",))
        c.ob(f"bandlimiting of a pixel-space signal, {tag}", f, GIVEN)

        for up in (ONE, ZERO):
            ut = "upsampled" if up == ONE else "native"

            def f(rec, r=r, up=up):
                I, L, R, s = base()
                fn = I.resolve("sleplet.plot_methods.find_max_amplitude")
                rec.where = where_of(I, fn)
                o = run(I, fn, [harmonic(I, L, s, r)], dict(plot_type="abs", upsample=up))
                rec.seen(I)
                check(rec, I, o.st or I.st, s, r, "", ("inverse", "forward") if up == ONE else ("inverse",))
            c.ob(f"largest amplitude, {tag}, {ut}", f, GIVEN)

            def f(rec, r=r, up=up):
                I, L, R, s = base()
                field = arr(I, "field", L + 1, L * 2, dt="real" if r == ONE else "complex")
                o = run(I, "sleplet.plotting.PlotSphere", [field, L, "the_file"], dict(plot_type="abs", normalise=ZERO, upsample=up, reality=r, spin=s))
                I.st = o.st
                o = run(I, bound(I, o.value, "execute"), [], {}, o.st)
                rec.seen(I)
                check(rec, I, o.st or I.st, s, r, "", ("inverse", "forward") if up == ONE else ())
                if up == ZERO and not transforms(I):
                    rec.proved("no transform", detail="the field is shown as it is")
            c.ob(f"sphere figure, {tag}, {ut}", f, GIVEN)

        def f(rec, r=r):
            I, L, R, s = base()
            fn = I.resolve("sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots")
            rec.where = where_of(I, fn)
            o = run(I, fn, [harmonic(I, L, s, r)])
            rec.seen(I)
            check(rec, I, o.st or I.st, s, r, "", ("inverse",))
        c.ob(f"amplitude of a noised signal, {tag}", f, GIVEN)

        for method in ("north", "rotate", "translate"):
            for g in (False, True):
                nm = f"plot command, {method}{', convolved' if g else ''}, {tag}"
                c.ob(nm, lambda rec, r=r, method=method, g=g: script(rec, r, method, g), "; ".join([GIVEN, FIG] + ([NOREAL] if g or method == "translate" else [])))

    for nm, fn, args in (
        ("harmonic hard thresholding", "sleplet.noise.harmonic_hard_thresholding",
         lambda I, L: [L, arr(I, "wav_coeffs", nat("J") + 1, L * L), arr(I, "sigma_j", nat("J"), dt="real"), S("n_sigma", "int", True)]),
    ):
        def f(rec, fn=fn, args=args):
            I, L, R, s = base()
            fv = I.resolve(fn)
            rec.where = where_of(I, fv)
            o = run(I, fv, args(I, L))
            rec.seen(I)
            pairs(rec, I, o.st or I.st, ("inverse", "forward"))
        c.ob(nm, f, PAIR)

    I0 = new("cold")
    try:
        classes = [(k.mod + "." + k.name, k.name) for k in registered(I0, "COEFFICIENTS") if not is_mesh(k) and not is_slepian(k)]
    except Exception as e:
        msg = str(e)
        c.ob("registered classes", lambda rec: rec.anchor(msg), OBJ)
        return
    for q, nm in classes:
        c.ob("building " + nm, lambda rec, q=q: building(rec, q), OBJ)


def grid_fun(I):
    """an arbitrary field of the two angles"""
    return I.resolve(SPEC + ".sphere.any_field")


def pairs(rec, I, st, need):
    es = transforms(I)
    ops = {e["op"] for e in es}
    miss = [n for n in need if n not in ops]
    if miss:
        return rec.undecided(f"no {' / '.join(miss)} transform found on this path")
    a = es[0]
    for k, e in enumerate(es[1:]):
        same(rec, I, st, e, a["spin"], a["reality"], f"[{k + 2}]", "first")
    return None


def script(rec, r, method, g):
    I, L, R, s = base()
    fn = I.resolve("sleplet._scripts.plotting_on_sphere.plot")
    rec.where = where_of(I, fn)
    f = harmonic(I, L, s, r)
    gg = harmonic(I, L, s, r, coefficients=arr(I, "g_coefficients", L * L), name="the_other_L") if g else None
    seen = []
    cls = I.resolve("sleplet.plotting.PlotSphere")

    def mk(I2, c2, a, k):
        names = [x[0] for x in I2.class_fields(cls) if not x[3]]
        bnd = dict(zip(names, a))
        bnd.update(k)
        seen.append(bnd)
        return obj(I2, cls, **bnd)
    hook(I, f"{cls.mod}.{cls.name}", mk)
    hook(I, f"{cls.mod}.{cls.name}.execute", lambda I2, f2, a, k: None)
    o = run(I, fn, [f, gg], dict(alpha_pi_frac=real("alpha_pi_frac"), beta_pi_frac=real("beta_pi_frac"), gamma_pi_frac=real("gamma_pi_frac"), annotations=ONE,
                                 normalise=ONE, method=method, plot_type="real", upsample=ONE, earth_view="south_america", amplitude=None))
    rec.seen(I)
    if o.st is None or len(seen) != 1:
        rec.undecided(f"plot call not followed ({len(seen)} figures)")
        return
    want = ZERO if g or method == "translate" else r
    check(rec, I, o.st, s, want, "", ("inverse",))
    e = transforms(I)[-1:]
    if e:
        settle(rec, equal(rec, P(seen[0].get("spin", ZERO)), P(e[0]["spin"]), "spin", o.st.ctx), "figure spin", incomplete=I.incomplete)
        settle(rec, equal(rec, P(I.truth(seen[0].get("reality", ZERO))), P(e[0]["reality"]), "reality", o.st.ctx), "figure reality", incomplete=I.incomplete)


def building(rec, q):
    I = new("cold")
    cls = I.resolve(q)
    rec.where = where_of(I, cls)
    ps = [n for n, a, h in params(I, cls) if n not in ("extra_args", "region", "noise", "smoothing")]
    b = build(I, cls, ps)
    rec.seen(I)
    o = b.out
    if o.st is None:
        rec.undecided("construction not followed")
        return
    es = transforms(I)
    if not es:
        rec.proved("no transform")
    for k, e in enumerate(es):
        # the innermost signal under construction
        own = [(i, c2) for i, c2 in e["building"] if i in o.st.heap and "spin" in o.st.heap[i].fields and "reality" in o.st.heap[i].fields]
        if not own:
            rec.undecided("the signal this transform belongs to was not identified", f"[{k + 1}]")
            continue
        f = o.st.heap[own[-1][0]].fields
        same(rec, I, o.st, e, f["spin"], I.truth(f["reality"]), f"[{k + 1}]")
