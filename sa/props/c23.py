"""C23 Analytic signals."""
from ..harness import *  # noqa: F403

F = "sleplet.functions."
DEF = "the coefficients are those of the published definition for every parameter, zero elsewhere"
ARGS = "an extra argument x selects the parameter 10^x"
BL = "pixel-space signals pass through a forward transform at the same bandlimit"


def coeffs(o):
    return o.I.st.heap[o.value.oid].fields["coefficients"]


def check(rec, cls, kw, spec, sargs, assume_fn=None, pre=None, spost=None):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    env = {"I": I, "L": L}
    if pre:
        pre(env)
    k = {a: (v(env) if callable(v) else v) for a, v in kw.items()}
    s = [v(env) if callable(v) else v for v in sargs]
    a, b = conform_k(rec, I, F + cls, [L], k, "functions." + spec, [L] + s, exc=False, post=coeffs, spost=spost or (lambda o: o.value))
    return a


def obligations(c):
    def pos(name):
        return lambda e: real(name, True)

    def lst(*names):
        return lambda e: e["I"].new_list([e.setdefault(n, real(n)) for n in names])

    def ten(n):
        return lambda e: run(e["I"], SPEC + ".functions.power_of_ten", [e[n]], st=e["I"].st).value

    c.ob("Dirac delta", lambda rec: check(rec, "DiracDelta", {}, "dirac_delta", []), DEF)
    c.ob("identity", lambda rec: check(rec, "Identity", {}, "identity", []), DEF)

    def positive(*names):
        def pre(e):
            for n in names:
                e[n] = real(n, True)
                e["I"].st.ctx.cons = e["I"].st.ctx.cons + [("strict", e[n])]
        return pre

    def g(n):
        return lambda e: e[n]

    c.ob("Gaussian", lambda rec: check(rec, "Gaussian", {"sigma": g("sigma")}, "gaussian", [g("sigma")], pre=positive("sigma")), DEF)
    c.ob("Gaussian by extra argument", lambda rec: check(rec, "Gaussian", {"extra_args": lst("x")}, "gaussian", [ten("x")]), DEF + "; " + ARGS)
    c.ob("Gaussian default", lambda rec: check(rec, "Gaussian", {}, "gaussian", [num(10)]), DEF)
    c.ob("harmonic Gaussian", lambda rec: check(rec, "HarmonicGaussian", {"l_sigma": g("ls"), "m_sigma": g("ms")}, "harmonic_gaussian", [g("ls"), g("ms")], pre=positive("ls", "ms")), DEF)
    c.ob("harmonic Gaussian by extra arguments", lambda rec: check(rec, "HarmonicGaussian", {"extra_args": lst("x", "y")}, "harmonic_gaussian", [ten("x"), ten("y")]), DEF + "; " + ARGS)
    c.ob("harmonic Gaussian default", lambda rec: check(rec, "HarmonicGaussian", {}, "harmonic_gaussian", [num(10), num(10)]), DEF)

    def sph(e):
        e["ell"], e["m"] = nat("ell"), S("m")
        assume_ge(e["I"], e["L"] - 1 - e["ell"], e["ell"] - e["m"], e["ell"] + e["m"])
    c.ob("spherical harmonic", lambda rec: check(rec, "SphericalHarmonic", {"ell": g("ell"), "m": g("m")}, "spherical_harmonic", [g("ell"), g("m")], pre=sph), DEF)
    c.ob("spherical harmonic by extra arguments", lambda rec: check(rec, "SphericalHarmonic", {"extra_args": lambda e: e["I"].new_list([e["ell"], e["m"]])},
                                                                     "spherical_harmonic", [g("ell"), g("m")], pre=sph), DEF)
    for nm, cls, spec, a, b in (("squashed Gaussian", "SquashedGaussian", "squashed_gaussian", "t_sigma", "freq"),
                                ("elongated Gaussian", "ElongatedGaussian", "elongated_gaussian", "t_sigma", "p_sigma")):
        c.ob(nm, lambda rec, cls=cls, spec=spec, a=a, b=b: check(rec, cls, {a: g(a), b: g(b)}, spec, [g(a), g(b), ONE], pre=positive(a, b)), DEF + "; " + BL)
        c.ob(nm + " by extra arguments", lambda rec, cls=cls, spec=spec: check(rec, cls, {"extra_args": lst("x", "y")}, spec, [ten("x"), ten("y"), ONE]),
             DEF + "; " + BL + "; " + ARGS)
        c.ob(nm + " default", lambda rec, cls=cls, spec=spec: check(rec, cls, {}, spec, [ONE, num(Fr(1, 10)), ONE]), DEF + "; " + BL)

    def rid(rec, given_j):
        I = new("cold")
        L, B, jm, s = nat("L"), nat("B"), nat("j_min"), S("spin")
        assume_ge(I, L - 1, B - 2)
        kw = {"B": B, "j_min": jm, "spin": s}
        j = None
        if given_j:
            j = nat("j")
            kw["j"] = j
        conform_k(rec, I, F + "Ridgelets", [L], kw, "functions.ridgelets", [L, B, jm, j, s], exc=False,
                  post=lambda o: (o.I.st.heap[o.value.oid].fields["wavelets"], coeffs(o)), spost=lambda o: o.value)
    c.ob("ridgelets, scaling function", lambda rec: rid(rec, False), DEF)
    c.ob("ridgelets, scale j", lambda rec: rid(rec, True), DEF)

    def slep(rec, cls, kw, spec, sargs):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        w = slepian_obj(I, L)
        k = {a: v(w, I) for a, v in kw.items()}
        conform_k(rec, I, F + cls, [L], dict(k, region=w.region), "functions." + spec, [L] + [v(w, I) for v in sargs], exc=False, post=coeffs, spost=lambda o: o.value)
    c.ob("Slepian identity", lambda rec: slep(rec, "SlepianIdentity", {}, "identity", []), DEF)
    c.ob("Slepian Dirac delta", lambda rec: slep(rec, "SlepianDiracDelta", {}, "slepian_dirac_delta", [lambda w, I: w.s]), DEF)

    def rk(w, I):
        r = nat("rank")
        if not getattr(w, "rk", None):
            w.rk = True
            assume_ge(I, w.R - 1 - r)
        return r
    c.ob("Slepian function", lambda rec: slep(rec, "Slepian", {"rank": rk}, "slepian_function", [lambda w, I: w.s, rk]), DEF)

    def f(rec):
        I = new()
        L = nat("L")
        assume_ge(I, L - 1)
        rng = I.call(I.resolve_ext("numpy.random.default_rng"), [S("seed")], {}) if hasattr(I, "resolve_ext") else None
        if rng is None:
            from ..models import default_rng
            rng = default_rng(I, S("seed"))
        v = real("var", True)
        st0 = I.st.copy()
        a = run(I, "sleplet.harmonic_methods.compute_random_signal", [L, rng], {"var_signal": v})
        rec.seen(I)
        x = at_state(I, a, lambda: I.arr(a.value))
        i, j = nat("i"), nat("j")
        for nm, cons, p, q, want in (("variance", [L * L - 1 - i], i, i, v), ("independence", [L * L - 1 - j, j - i - 1], i, j, ZERO)):
            ctx = st0.ctx.copy()
            ctx.cons = ctx.cons + cons
            cv = covariance(simp(x.elem((p,)), ctx), simp(x.elem((q,)), ctx))
            if cv is None:
                rec.undecided("not a linear combination of normal draws", nm)
            else:
                settle(rec, equal(rec, cv, want, nm, ctx), nm, incomplete=I.incomplete)
    c.ob("random signal has the requested variance", f, "complex normal coefficients of the given variance, independent")
