"""C17 Sifting convolution and translation."""
from ..harness import *  # noqa: F403

RULE = "f times the conjugate of g, cut to the Shannon number"
TR = "translation = convolution with the conjugated basis functions at (longitude alpha, colatitude beta)"
F = "sleplet.functions."


def obligations(c):
    def harm(I, L, **f):
        return obj(I, F + "HarmonicGaussian", L=L, coefficients=arr(I, "coefficients", L * L), name="harmonic_gaussian_L", reality=ONE,
                   spin=ZERO, region=None, noise=None, smoothing=None, extra_args=None, **f)

    def slep(I, L, w):
        return obj(I, F + "SlepianIdentity", L=L, coefficients=arr(I, "coefficients", L * L), name="slepian_identity_r_L", reality=ONE,
                   spin=ZERO, region=w.region, noise=None, smoothing=None, extra_args=None, slepian=w.s)

    # convolution through the public method
    for sub, mk in (("vectors", lambda I, L, n: (arr(I, "f", L * L), arr(I, "g", L * L), None)),
                    ("vectors, Shannon", lambda I, L, n: (arr(I, "f", L * L), arr(I, "g", L * L), n)),
                    ("matrices", lambda I, L, n: (arr(I, "f", nat("J"), L * L), arr(I, "g", nat("J"), L * L), None)),
                    ("matrices, Shannon", lambda I, L, n: (arr(I, "f", nat("J"), L * L), arr(I, "g", nat("J"), L * L), n))):
        def f(rec, mk=mk):
            I = new("cold")
            L, n = nat("L"), nat("n")
            assume_ge(I, L - 1, L * L - n, nat("J") - 1)
            o = harm(I, L)
            f_, g_, s = mk(I, L, n)
            a, b = conform_k(rec, I, bound(I, o, "convolve"), [f_, g_], {} if s is None else {"shannon": s}, "wavelets.sifting", [f_, g_, s])
            flag(rec, I, a, o)
        c.ob("convolution of " + sub, f, RULE)
    for s in (False, True):
        def f(rec, s=s):
            I = new("cold")
            L, n, J = nat("L"), nat("n"), nat("J")
            assume_ge(I, L - 1, L * L - n, J - 1)
            o = harm(I, L)
            f_, g_ = arr(I, "f", J, L * L), arr(I, "g", L * L)
            conform_k(rec, I, bound(I, o, "convolve"), [f_, g_], {"shannon": n} if s else {}, "wavelets.sifting_rows_by_vector", [f_, g_, n if s else None])
        c.ob("convolution of a matrix with a vector" + (", Shannon" if s else ""), f, RULE)

    for s in (False, True):
        def f(rec, s=s):
            I = new("cold")
            L, n = nat("L"), nat("n")
            assume_ge(I, L - 1, L * L - n)
            o = harm(I, L)
            al, be = real("alpha", True), real("beta", True)
            a, b = conform_k(rec, I, bound(I, o, "translate"), [al, be], {"shannon": n} if s else {}, "functions_translate.harmonic",
                             [o, L, al, be, n if s else None], exc=False)
            flag(rec, I, a, o)
        c.ob("translation in harmonic space" + (", Shannon" if s else ""), f, TR)

    for s in (False, True):
        def f(rec, s=s):
            I = new("cold")
            L, n = nat("L"), nat("n")
            assume_ge(I, L - 1, L * L - n)
            w = slepian_obj(I, L)
            o = slep(I, L, w)
            al, be = real("alpha", True), real("beta", True)
            a, b = conform_k(rec, I, bound(I, o, "translate"), [al, be], {"shannon": n} if s else {}, "functions_translate.slepian",
                             [o, L, al, be, w.s, n if s else None], exc=False)
            flag(rec, I, a, o)
        c.ob("translation in Slepian space" + (", Shannon" if s else ""), f, TR)

    def f(rec):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        al, be = real("alpha", True), real("beta", True)
        o = run(I, F + "DiracDelta", [L])
        I.st = o.st
        conform_k(rec, I, bound(I, o.value, "translate"), [al, be], {}, "sphere.translation_harmonic", [L, al, be], exc=False)
    c.ob("the Dirac delta is translated by its definition", f, "a translated Dirac delta is the conjugated basis at the point")

    def f(rec):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        w = slepian_obj(I, L)
        al, be = real("alpha", True), real("beta", True)
        o = obj(I, F + "SlepianDiracDelta", L=L, coefficients=arr(I, "coefficients", L * L), name="slepian_dirac_delta_r_L", reality=ZERO,
                spin=ZERO, region=w.region, noise=None, smoothing=None, extra_args=None, slepian=w.s)
        conform_k(rec, I, bound(I, o, "translate"), [al, be], {}, "sphere.translation_slepian_unconj", [L, al, be, w.s], exc=False)
    c.ob("the Slepian Dirac delta is translated by its definition", f, "a translated Dirac delta is the conjugated basis at the point")

    # every other class convolves
    for name in ("Gaussian", "HarmonicGaussian", "Identity", "SphericalHarmonic", "AxisymmetricWavelets", "ElongatedGaussian", "SquashedGaussian", "Ridgelets"):
        def f(rec, name=name):
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            al, be = real("alpha", True), real("beta", True)
            o = run(I, F + name, [L])
            I.st = o.st
            a, b = conform_k(rec, I, bound(I, o.value, "translate"), [al, be], {}, "functions_translate.harmonic", [o.value, L, al, be, None], exc=False)
            flag(rec, I, a, o.value)
        c.ob(f"translation of {name}", f, TR)
    for name in ("Slepian", "SlepianIdentity", "SlepianWavelets"):
        def f(rec, name=name):
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            w = slepian_obj(I, L)
            al, be = real("alpha", True), real("beta", True)
            o = run(I, F + name, [L], {"region": w.region})
            I.st = o.st
            sh = w.N if name == "Slepian" else None
            k = {"shannon": sh} if sh is not None else {}
            a, b = conform_k(rec, I, bound(I, o.value, "translate"), [al, be], k, "functions_translate.slepian", [o.value, L, al, be, w.s, sh], exc=False)
            flag(rec, I, a, o.value)
        c.ob(f"translation of {name}", f, TR)

    for nm, slepian in (("Slepian", True), ("harmonic", False)):
        c.ob(f"convolution by the plot command, {nm}", lambda rec, slepian=slepian: commanded(rec, slepian), RULE)


def commanded(rec, slepian):
    """the field drawn for a convolved signal is the synthesis of the product of one with the conjugate of the other"""
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    common = dict(L=L, reality=ZERO, spin=ZERO, noise=None, smoothing=None, extra_args=None)
    g = obj(I, F + "Gaussian", coefficients=arr(I, "g", L * L), name="g_name", region=None, **common)
    seen = []
    cls = I.resolve("sleplet.plotting.PlotSphere")
    names = [x[0] for x in I.class_fields(cls) if not x[3]]

    def mk(I2, c2, a, k):
        seen.append(dict(zip(names, a)) | k)
        return obj(I2, cls, **seen[-1])
    hook(I, f"{cls.mod}.{cls.name}", mk)
    hook(I, f"{cls.mod}.{cls.name}.execute", lambda I2, fn, a, k: None)
    if slepian:
        w = slepian_obj(I, L)
        fc = arr(I, "f", L * L)
        f = obj(I, F + "SlepianIdentity", coefficients=fc, name="f_name", region=w.region, slepian=w.s, **common)
        args, spec = [L, fc, arr(I, "g", L * L), w.s], "convolved_slepian"
    else:
        fc = arr(I, "f", L * L)
        f = obj(I, F + "HarmonicGaussian", coefficients=fc, name="f_name", region=None, **common)
        args, spec = [L, fc, arr(I, "g", L * L)], "convolved"
    fn = private(rec, lambda: I.resolve("sleplet._scripts.plotting_on_sphere.plot"))
    if fn is None:
        return
    rec.where = where_of(I, fn)
    o = run(I, fn, [f, g], dict(alpha_pi_frac=real("a"), beta_pi_frac=real("b"), gamma_pi_frac=real("c"), annotations=ONE, normalise=ONE, method="north",
                                plot_type="real", upsample=ONE, earth_view="south_america", amplitude=None))
    rec.seen(I)
    if o.st is None or len(seen) != 1 or "field" not in (seen[0] if seen else {}) and names[0] not in (seen[0] if seen else {}):
        return rec.undecided(f"plot call not followed ({len(seen)} figures): {(I.incomplete or ['?'])[0]}")
    for p, q, ctx, loc in I.shape_pairs:
        if isinstance(p, Poly) and isinstance(q, Poly) and not I.incomplete and equal(rec, p, q, "length", ctx)[0][0] == "bad":
            return rec.violation(f"coefficient lists of lengths {show(p, 60)} and {show(q, 60)} are multiplied", "lengths", where=":".join(map(str, loc)))
    got = seen[0].get("f", seen[0].get(names[0]))
    res = None
    for sp in (spec, spec + "_swapped"):
        b = run(I, SPEC + ".functions_translate." + sp, args, st=o.st)
        r = Cmp(rec, I, o.st, b.st, o.st.ctx).compare(got, b.value, "field")
        if all(s == "ok" for s, _ in r):
            return settle(rec, r, incomplete=I.incomplete)
        res = res or r
    settle(rec, res, incomplete=I.incomplete)


def flag(rec, I, a, o):
    """after a convolution the object no longer counts as real"""
    if a.st is None:
        return
    r = a.st.heap[o.oid].fields.get("reality")
    r = P(r) if isinstance(r, (Poly, int)) else r
    if isinstance(r, Poly):
        settle(rec, equal(rec, r, ZERO, "reality after convolution", a.st.ctx), "not treated as real", incomplete=I.incomplete)
    else:
        rec.undecided(f"reality flag is {r!r}", "not treated as real")
