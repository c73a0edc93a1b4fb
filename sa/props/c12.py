"""C12 Slepian coefficients on the sphere are projections onto the Slepian basis."""
from ..harness import *  # noqa: F403

RULE = "projection onto the conjugated Slepian functions"


def setup():
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    w = slepian_obj(I, L)
    return I, L, w


def fields(c, n, t, dt):
    FWD = "sleplet.slepian_methods.slepian_forward"

    def sphere(rec):
        I, L, w = setup()
        f = arr(I, "f", w.nt, w.np, dt=dt)
        k = {"f": f}
        nn = None
        if n:
            nn = nat("n")
            assume_ge(I, nn - 1, w.R - nn)
            k["n_coeffs"] = nn
        conform_k(rec, I, FWD, [L, w.s], k, "sphere.forward_sphere", [L, w.s, f, nn])
    c.ob("whole-sphere integral" + t, sphere, RULE)

    def region(rec):
        I, L, w = setup()
        f = arr(I, "f", w.nt, w.np, dt=dt)
        k = {"f": f, "mask": w.mask}
        nn = None
        if n:
            nn = nat("n")
            assume_ge(I, nn - 1, w.R - nn)
            k["n_coeffs"] = nn
        conform_k(rec, I, FWD, [L, w.s], k, "sphere.forward_region", [L, w.s, f, w.mask, nn])
    c.ob("masked integral over eigenvalue" + t, region, RULE)


def obligations(c):
    FWD = "sleplet.slepian_methods.slepian_forward"

    def given_flm(n, extra):
        def f(rec):
            I, L, w = setup()
            flm = arr(I, "flm", L * L)
            k = {"flm": flm}
            if "f" in extra:
                k["f"] = arr(I, "f", w.nt, w.np)
            if "mask" in extra:
                k["mask"] = w.mask
            nn = None
            if n:
                nn = nat("n")
                assume_ge(I, nn - 1, w.R - nn)
                k["n_coeffs"] = nn
            conform_k(rec, I, FWD, [L, w.s], k, "sphere.forward_harmonic", [L, w.s, flm, nn])
        return f

    for n in (False, True):
        t = " with n_coeffs" if n else ""
        for dt in ("complex", "real"):
            fields(c, n, t + ("" if dt == "complex" else ", real dtype"), dt)
        c.ob("harmonic coefficients" + t, given_flm(n, ()), RULE)
        c.ob("harmonic coefficients win over field" + t, given_flm(n, ("f",)), RULE)
        c.ob("harmonic coefficients win over field and mask" + t, given_flm(n, ("f", "mask")), RULE)

    for name, kw in (("nothing", ()), ("mask only", ("mask",))):
        def nothing(rec, kw=kw):
            I, L, w = setup()
            k = {"mask": w.mask} if kw else {}
            must_raise(rec, I, FWD, [L, w.s], k)
        c.ob(f"{name} given is an error", nothing, "supplying no signal raises")

    def single(rec):
        I, L, w = setup()
        f = arr(I, "f", w.nt, w.np)
        flm = arr(I, "flm", L * L)
        r = S("rank")
        assume_ge(I, w.R - 1 - r)
        D = "sleplet.slepian._slepian_decomposition.SlepianDecomposition"
        for sub, k, sp, a in (("harmonic", {"flm": flm}, "harmonic_sum", [flm, w.s, r]),
                              ("sphere", {"f": f}, "integrate_sphere", [f, L, w.s, r]),
                              ("region", {"f": f, "mask": w.mask}, "integrate_region", [f, w.mask, L, w.s, r])):
            d = private(rec, lambda: run(I, D, [L, w.s], k))
            if d is None:
                return
            I.st = d.st
            conform_k(rec, I, bound(I, d.value, "decompose"), [r], {}, "sphere.guarded_" + sp, [L] + a, sub=sub)
    c.ob("one rank", single, RULE)
