"""C27 Plot resolution and zero padding."""
from ..harness import *  # noqa: F403

RULE = "resolution = bandlimit * 2^e of its band, never below the bandlimit, defined for every positive bandlimit"
PAD = "upsampling transforms exactly the original coefficients followed by zeros"


def obligations(c):
    def f(rec):
        I = new()
        L = nat("L")
        assume_ge(I, L - 1)
        conform_k(rec, I, "sleplet.plot_methods.calc_plot_resolution", [L], {}, "plotting.resolution", [L])
    c.ob("resolution", f, RULE)

    def f(rec):
        I = new()
        L = nat("L")
        assume_ge(I, L - 1)
        st0 = I.st.copy()
        a = run(I, "sleplet.plot_methods.calc_plot_resolution", [L])
        rec.seen(I)
        settle(rec, equal(rec, ONE - b_lt(a.value - L), ONE, "resolution >= bandlimit", st0.ctx), incomplete=I.incomplete)
    c.ob("resolution is at least the bandlimit", f, RULE)

    for r in (False, True):
        def f(rec, r=r):
            I = new()
            L, R, s = nat("L"), nat("R"), S("spin")
            assume_ge(I, L - 1, R - L)
            flm = arr(I, "flm", L * L)
            kw = {"reality": ONE, "spin": s} if r else {"spin": s}
            conform_k(rec, I, "sleplet.harmonic_methods.invert_flm_boosted", [flm, L, R], kw, "functions.padded", [flm, L, R, ONE if r else ZERO, s], exc=False)
        c.ob("zero padding" + (", real field" if r else ""), f, PAD)

    def f(rec):
        def go():
            I = new()
            L, R, s = nat("L"), nat("R"), S("spin")
            assume_ge(I, L - 1, R - L)
            nt, nph = run(I, SPEC + ".sphere.shape", [L]).value
            fld_ = arr(I, "f", nt, nph)
            conform_k(rec, I, "sleplet.plot_methods._boost_field", [fld_, L, R], {"reality": ONE, "spin": s, "upsample": ONE}, "plotting.boosted",
                      [fld_, L, R, ONE, s, ONE], exc=False)
        private(rec, go)
    c.ob("boosting a field", f, PAD)
