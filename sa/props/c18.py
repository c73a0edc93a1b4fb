"""C18 Noise level, signal-to-noise ratio, clean copy."""
from .. import classes
from ..harness import *  # noqa: F403

N = "sleplet.noise."
F = "sleplet.functions."
SIG = "noise standard deviation = sqrt(10^(-SNR/10) * signal power / number of coefficients)"
SNR = "reported ratio = 10 log10(signal power / noise power)"
KEEP = "noised = clean + noise, the clean coefficients are kept"
VAR = "each noise coefficient has variance sigma^2 and distinct coefficients are uncorrelated"


def spec_value(I, name, args):
    o = run(I, SPEC + "." + name, args, st=I.st)
    return o.value


def real_noise(rec, I, st, elem, sigma2, L):
    """variance of complex harmonic noise, m=0 / m>0 / m<0, and independence across degrees and orders"""
    l, m, k = nat("l"), nat("m"), nat("k")
    cases = {"m = 0": ([L - 1 - l], l * l + l), "m > 0": ([L - 1 - l, l - m, m - 1], l * l + l + m),
             "m < 0": ([L - 1 - l, l - m, m - 1], l * l + l - m)}
    for nm, (cons, ix) in cases.items():
        ctx = st.ctx.copy()
        ctx.cons = ctx.cons + cons
        p = ev(I, st, ctx, lambda: simp(elem(ix), ctx))
        v = covariance(p, p)
        if v is None:
            rec.undecided(f"noise is not a linear combination of standard normal draws: {show(p, 200)}", nm)
            continue
        settle(rec, equal(rec, v, sigma2, "variance", ctx), f"variance, {nm}", incomplete=I.incomplete)
    for nm, cons, i1, i2 in (("orders", [L - 1 - l, l - m, m - 1, l - k, k - m - 1], l * l + l + m, l * l + l + k),
                             ("degrees", [L - 1 - k, k - l - 1, l - m, m - 1], l * l + l + m, k * k + k + m),
                             ("degrees, m = 0", [L - 1 - k, k - l - 1], l * l + l, k * k + k),
                             ("m = 0 and m > 0", [L - 1 - l, l - m, m - 1], l * l + l + m, l * l + l)):
        ctx = st.ctx.copy()
        ctx.cons = ctx.cons + cons
        p = ev(I, st, ctx, lambda: simp(elem(i1), ctx))
        q = ev(I, st, ctx, lambda: simp(elem(i2), ctx))
        v = covariance(p, q)
        if v is None:
            rec.undecided("noise is not a linear combination of standard normal draws", "independence of " + nm)
            continue
        settle(rec, equal(rec, v, ZERO, "covariance", ctx), "independence of " + nm, incomplete=I.incomplete)


def ev(I, st, ctx, fn):
    old = I.st
    I.st = st.copy()
    I.st.ctx = ctx
    try:
        return fn()
    finally:
        I.st = old


def noised_object(rec, I, o, clean, kind):
    """clean copy kept; reported ratio is that of the added noise; returns noise element function"""
    st = o.st
    I.st = st
    c, u, s = (fld(I, o.value, k) for k in ("coefficients", "_unnoised_coefficients", "snr"))
    cc = Cmp(rec, I, st, st, st.ctx)
    settle(rec, cc.compare(u, clean, "clean copy"), "clean copy kept", incomplete=I.incomplete)
    st0 = st.copy()
    r = run(I, SPEC + ".noise.report", [u, c], st=st0)
    settle(rec, Cmp(rec, I, st, r.st, st.ctx).compare(s, r.value, "reported ratio"), "reported ratio", incomplete=I.incomplete)
    I.st = st
    x, y = I.arr(c), I.arr(u)
    return lambda ix: x.elem((ix,)) - y.elem((ix,))


def same_draws(rec, I, o, spec, args, sub):
    """the noised object against the reference, when both draw from the same streams"""
    st = o.st
    b = run(I, SPEC + ".noise." + spec, args, st=st)
    got = tuple(fld(o, o.value, k) for k in ("coefficients", "_unnoised_coefficients", "snr"))
    res = Cmp(rec, I, st, b.st, st.ctx).compare(got, tuple(b.value) if isinstance(b.value, (list, tuple)) else b.value, sub)
    i = P(fresh("d", "int", True))
    sg = [draw_signature(at_state(I, q, lambda q=q, v=v: I.arr(v).elem((i,)))) for q, v in ((o, got[0]), (b, b.value[0]))]
    if sg[0] != sg[1] and any(s == "bad" for s, _ in res):
        rec.undecided("the noise is drawn in a different order from the reference; only the variance rule applies", sub)
    else:
        settle(rec, res, sub, incomplete=I.incomplete)


def obligations(c):
    def f(rec):
        I = new()
        n = nat("n")
        assume_ge(I, n - 1)
        a = [arr(I, "signal", n), arr(I, "noise", n)]
        conform_k(rec, I, N + "compute_snr", a + ["Harmonic"], {}, "noise.snr", a)
    c.ob("signal-to-noise ratio", f, SNR)

    def f(rec):
        I = new()
        n = nat("n")
        assume_ge(I, n - 1)
        a = [arr(I, "signal", n), real("snr_in")]
        conform_k(rec, I, N + "compute_sigma_noise", a, {}, "noise.sigma_default", a)
    c.ob("noise level, all coefficients", f, SIG)

    def f(rec):
        I = new()
        n, d = nat("n"), nat("d")
        assume_ge(I, n - 1, d - 1)
        a = [arr(I, "signal", n), real("snr_in")]
        conform_k(rec, I, N + "compute_sigma_noise", a, {"denominator": d}, "noise.sigma", a + [d])
    c.ob("noise level, given number of coefficients", f, SIG)

    def f(rec):
        I = new()
        w = mesh_slepian_obj(I)
        J, n = nat("J"), nat("n")
        assume_ge(I, J - 1, n - 1)
        a = [w.ms, arr(I, "signal", n), arr(I, "psi_j", J, w.K, dt="real"), real("snr_in")]
        conform_k(rec, I, N + "compute_slepian_mesh_sigma_j", a, {}, "noise.mesh_sigma_j", a)
    c.ob("per-wavelet noise level on a mesh", f, SIG)

    def f(rec):
        def go():
            I = new()
            L, J = nat("L"), nat("J")
            assume_ge(I, L - 1, J - 1)
            a = [arr(I, "signal", L * L), arr(I, "psi_j", J, L * L), real("snr_in")]
            conform_k(rec, I, N + "_compute_sigma_j", a, {}, "noise.sigma_j", a)
        private(rec, go)
    c.ob("per-wavelet noise level in harmonic space", f, SIG)

    def f(rec):
        def go():
            I = new()
            L, J = nat("L"), nat("J")
            assume_ge(I, L - 1, J - 1)
            w = slepian_obj(I, L)
            a = [L, arr(I, "signal", nat("n")), arr(I, "psi_j", J, L * L, dt="real"), real("snr_in"), w.s]
            conform_k(rec, I, N + "_compute_slepian_sigma_j", a, {}, "noise.slepian_sigma_j", a)
        private(rec, go)
    c.ob("per-wavelet noise level in Slepian space", f, SIG)

    # harmonic objects
    for name in ("HarmonicGaussian", "Gaussian", "SphericalHarmonic", "Identity"):
        def f(rec, name=name):
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            st0 = I.st.copy()
            o0 = run(I, F + name, [L])
            I.st = o0.st
            clean = fld(I, o0.value, "coefficients")
            snr = real("snr_in")
            o = run(I, F + name, [L], {"noise": snr}, I.st)
            rec.seen(I)
            el = noised_object(rec, I, o, clean, "harmonic")
            s = spec_value(I, "noise.sigma_default", [clean, snr])
            real_noise(rec, I, o.st, el, s * s, L)
        c.ob(f"noised {name}", f, KEEP + "; " + VAR)

    # no noise / zero decibel
    for name, slep in (("HarmonicGaussian", False), ("SlepianIdentity", True)):
        def f(rec, name=name, slep=slep):
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            kw = {"region": slepian_obj(I, L).region} if slep else {}
            o = run(I, F + name, [L], kw)
            st = o.st
            ok = fld(o, o.value, "snr") is None and fld(o, o.value, "_unnoised_coefficients") is None
            rec.seen(I)
            if ok and not any(e["kind"] == "draw" for e in I.events):
                rec.proved("no noise requested")
            elif any(e["kind"] == "draw" for e in I.events) and not I.incomplete:
                rec.violation(f"{name} without a noise request draws random numbers", "no noise requested")
            else:
                rec.undecided("snr set although no noise was requested", "no noise requested")
            o2 = run(I, F + name, [L], dict(kw, noise=ZERO), I.st if o is None else st)
            z = fld(o2, o2.value, "snr")
            u = fld(o2, o2.value, "_unnoised_coefficients")
            if z is None or u is None:
                (rec.violation if not I.incomplete else rec.undecided)(f"{name}(noise=0) keeps no clean copy: 0 dB is treated as no noise", "0 dB adds noise")
            else:
                i = P(fresh("i", "int", True))
                d = at_state(I, o2, lambda: I.arr(fld(I, o2.value, "coefficients")).elem((i,)))
                if draw_signature(d):
                    rec.proved("0 dB adds noise")
                elif I.incomplete:
                    rec.undecided("no random draw reaches the coefficients", "0 dB adds noise")
                else:
                    rec.violation(f"{name}(noise=0): no random draw reaches the coefficients", "0 dB adds noise")
        c.ob(f"no noise and 0 dB noise, {name}", f, "None adds nothing, 0.0 adds noise")

    # Slepian objects
    for name in ("Slepian",):
        def f(rec, name=name):
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            w = slepian_obj(I, L)
            o0 = run(I, F + name, [L], {"region": w.region})
            I.st = o0.st
            clean = fld(I, o0.value, "coefficients")
            snr = real("snr_in")
            o = run(I, F + name, [L], {"region": w.region, "noise": snr}, I.st)
            rec.seen(I)
            I.st = o.st
            noised_object(rec, I, o, clean, "slepian")
            I.st = o.st
            same_draws(rec, I, o, "slepian_noised", [L, clean, w.s, snr], "noise")
        c.ob(f"noised {name}", f, KEEP + "; " + SIG)

    # meshes
    def f(rec):
        I = new("cold")
        w = mesh_obj(I)
        r = nat("r")
        assume_ge(I, w.K - 1 - r)
        o0 = run(I, "sleplet.meshes.MeshBasisFunctions", [w.m], {"rank": r})
        I.st = o0.st
        clean = fld(I, o0.value, "coefficients")
        snr = real("snr_in")
        o = run(I, "sleplet.meshes.MeshBasisFunctions", [w.m], {"rank": r, "noise": snr}, I.st)
        rec.seen(I)
        el = noised_object(rec, I, o, clean, "mesh")
        s = spec_value(I, "noise.sigma_default", [clean, snr])
        i, j = nat("i"), nat("j")
        for nm, cons, a, b, want in (("variance", [w.K - 1 - i], i, i, s * s), ("independence", [w.K - 1 - j, j - i - 1], i, j, ZERO)):
            ctx = o.st.ctx.copy()
            ctx.cons = ctx.cons + cons
            v = covariance(ev(I, o.st, ctx, lambda: simp(el(a), ctx)), ev(I, o.st, ctx, lambda: simp(el(b), ctx)))
            if v is None:
                rec.undecided("noise is not a linear combination of standard normal draws", nm)
            else:
                settle(rec, equal(rec, v, want, nm, ctx), nm, incomplete=I.incomplete)
    c.ob("noised mesh basis function", f, KEEP + "; " + VAR)

    def f(rec):
        I = new("cold")
        w = mesh_slepian_obj(I)
        r = nat("r")
        assume_ge(I, w.N - 1 - r)
        o0 = run(I, "sleplet.meshes.MeshSlepianFunctions", [w.m], {"rank": r})
        I.st = o0.st
        clean = fld(I, o0.value, "coefficients")
        snr = real("snr_in")
        o = run(I, "sleplet.meshes.MeshSlepianFunctions", [w.m], {"rank": r, "noise": snr}, I.st)
        rec.seen(I)
        I.st = o.st
        noised_object(rec, I, o, clean, "mesh")
        I.st = o.st
        same_draws(rec, I, o, "slepian_mesh_noised", [w.ms, clean, snr], "noise")
    c.ob("noised mesh Slepian function", f, KEEP + "; " + SIG)

    # signals that are nothing but noise
    for name, base in (("NoiseEarth", "Earth"), ("SlepianNoiseAfrica", "SlepianAfrica"), ("SlepianNoiseSouthAmerica", "SlepianSouthAmerica")):
        c.ob(f"{name}: level", lambda rec, name=name, base=base: only_noise(rec, name, base), LEVEL)
    for name, base in (("MeshNoiseField", "MeshField"), ("MeshSlepianNoiseField", "MeshSlepianField")):
        c.ob(f"{name}: level", lambda rec, name=name, base=base: only_mesh_noise(rec, name, base), LEVEL)


LEVEL = "a noise signal is the noise of the requested ratio for the clean signal it stands for, built with the same settings"


def smoothed_data(I, sm):
    """bundled data that tells whether the requested smoothing was asked for"""
    def earth(I2, fn, a, k):
        e = I2.bind(fn, a, k)
        same = isinstance(e["smoothing"], Poly) and e["smoothing"] == sm
        return arr(I2, "earth_flm" if same else "earth_flm_of_another_smoothing", P(e["L"]) * P(e["L"]))
    hook(I, "sleplet._data.create_earth_flm.create_flm", earth)


def only_noise(rec, name, base):
    I = new("cold")
    cls, bcls = I.resolve(F + name), I.resolve(F + base)
    rec.where = where_of(I, cls)
    b = classes.setup(I, cls)
    sm, snr = S("smoothing", "int", True), real("SNR")
    smoothed_data(I, sm)
    kw = {"smoothing": sm}
    if classes.is_slepian(cls):
        kw["region"] = b.w.region
    o0 = run(I, bcls, [b.L], dict(kw))
    if o0.st is None:
        return rec.undecided("construction of the clean signal not followed")
    clean = fld(I, o0.value, "coefficients") if I.st is o0.st else at_state(I, o0, lambda: fld(I, o0.value, "coefficients"))
    o = run(I, cls, [b.L], dict(kw, SNR=snr), o0.st)
    rec.seen(I)
    if o.st is None:
        return rec.undecided("construction not followed")
    I.st = o.st
    got = fld(I, o.value, "coefficients")
    if not classes.is_slepian(cls):
        x = I.arr(got)
        s = spec_value(I, "noise.sigma_default", [clean, snr])
        return real_noise(rec, I, o.st, lambda i: x.elem((i,)), s * s, b.L)
    as_reference(rec, I, o, got, clean, "slepian_noised", [b.L, clean, b.w.s, snr])


def only_mesh_noise(rec, name, base):
    I = new("cold")
    q = "sleplet.meshes."
    cls, bcls = I.resolve(q + name), I.resolve(q + base)
    rec.where = where_of(I, cls)
    slep = "Slepian" in name
    w = mesh_slepian_obj(I) if slep else mesh_obj(I)
    snr = real("SNR")
    o0 = run(I, bcls, [w.m])
    if o0.st is None:
        return rec.undecided("construction of the clean signal not followed")
    clean = at_state(I, o0, lambda: fld(I, o0.value, "coefficients"))
    o = run(I, cls, [w.m], {"SNR": snr}, o0.st)
    rec.seen(I)
    if o.st is None:
        return rec.undecided("construction not followed")
    I.st = o.st
    got = fld(I, o.value, "coefficients")
    if slep:
        return as_reference(rec, I, o, got, clean, "slepian_mesh_noised", [w.ms, clean, snr])
    x = I.arr(got)
    s = spec_value(I, "noise.sigma_default", [clean, snr])
    i, j = nat("i"), nat("j")
    for nm, cons, a, b, want in (("variance", [w.K - 1 - i], i, i, s * s), ("independence", [w.K - 1 - j, j - i - 1], i, j, ZERO)):
        ctx = o.st.ctx.copy()
        ctx.cons = ctx.cons + cons
        v = covariance(ev(I, o.st, ctx, lambda: simp(x.elem((a,)), ctx)), ev(I, o.st, ctx, lambda: simp(x.elem((b,)), ctx)))
        if v is None:
            rec.undecided("noise is not a linear combination of standard normal draws", nm)
        else:
            settle(rec, equal(rec, v, want, nm, ctx), nm, incomplete=I.incomplete)


def as_reference(rec, I, o, got, clean, spec, args):
    """the noise against the reference's noise, when both draw from the same streams"""
    st = o.st
    b = run(I, SPEC + ".noise." + spec, args, st=st)
    i = P(fresh("d", "int", True))
    g = at_state(I, o, lambda: I.arr(got).elem((i,)))
    h = at_state(I, b, lambda: I.arr(b.value[0]).elem((i,)) - I.arr(b.value[1]).elem((i,)))
    n = at_state(I, o, lambda: I.arr(got).shape)
    m = at_state(I, b, lambda: I.arr(b.value[0]).shape)
    if len(n) != 1 or len(m) != 1:
        return rec.undecided("not a list of coefficients")
    res = equal(rec, n[0], m[0], "length", st.ctx)
    if res[0][0] != "ok":
        return settle(rec, res, "length", incomplete=I.incomplete)
    ctx = b.st.ctx.copy()
    ctx.cons = ctx.cons + [n[0] - 1 - i]
    res = equal(rec, simp(g, ctx), simp(h, ctx), "noise", ctx)
    if draw_signature(g) != draw_signature(h) and any(s == "bad" for s, _ in res):
        rec.undecided("the noise is drawn in a different order from the reference", "noise")
    else:
        settle(rec, res, "noise", incomplete=I.incomplete)
