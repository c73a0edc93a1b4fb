"""C15 Shannon number and truncation to it."""
from ..harness import *  # noqa: F403
from .c01 import SOLVERS, concrete_region, settle_kind, hook_solve

AREA = "N = round(area * L^2 / (4 pi)) with the area of the region's own cap(s), box or mask"
CUT = "exactly the leading N Slepian coefficients are used unless another number is given"
SM = "sleplet.slepian_methods."
WM = "sleplet.wavelet_methods."


def obligations(c):
    for kind, cls in SOLVERS.items():
        for gap in (ZERO, ONE) if kind == "polar" else (ZERO,):
            def f(rec, kind=kind, gap=gap, cls=cls):
                I = new("cold")
                L = nat("L")
                assume_ge(I, L - 1)
                kw = concrete_region(I, kind, gap)
                settle_kind(I, kind, kw)
                hook_solve(I)
                if kind == "polar":
                    area = run(I, "spec.region.cap_area", [kw["theta_max"], gap]).value
                elif kind == "lim_lat_lon":
                    area = run(I, "spec.region.box_area", [kw[k] for k in ("theta_min", "theta_max", "phi_min", "phi_max")]).value
                else:
                    nt, nph = run(I, "spec.sphere.shape", [L * 2]).value
                    m = arr(I, "mask", P(nt), P(nph), dt="bool")
                    hook(I, "sleplet._mask_methods.create_mask_region", lambda I2, fn, a, k: m)
                    area = run(I, "spec.region.mask_area", [L * 2, m]).value
                conform_k(rec, I, cls, [L], dict(kw), "region.shannon", [area, L], exc=False, post=lambda o: fld(o, o.value, "N"), spost=lambda o: o.value)
            c.ob(f"Shannon number of a {kind} region" + (" with gap" if gap == ONE else ""), f, AREA)

    def f(rec):
        I = new("cold")
        w = mesh_obj(I)
        hook(I, "sleplet.meshes.mesh_slepian.MeshSlepian._compute_slepian_functions", lambda I2, fn, a, k: None)
        conform_k(rec, I, "sleplet.meshes.mesh_slepian.MeshSlepian", [w.m], {}, "region.mesh_shannon", [w.region, w.K], exc=False,
                  post=lambda o: fld(o, o.value, "N"), spost=lambda o: o.value)
    c.ob("Shannon number of a mesh", f, "the region's share of vertices times the number of basis functions, rounded")

    # truncation
    for n in (False, True):
        for keys, spec in ((("flm",), "forward_harmonic"), (("f",), "forward_sphere"), (("f", "mask"), "forward_region")):
            def f(rec, n=n, keys=keys, spec=spec):
                I = new("cold")
                L = nat("L")
                assume_ge(I, L - 1)
                w = slepian_obj(I, L)
                v = {"flm": arr(I, "flm", L * L), "f": arr(I, "f", w.nt, w.np), "mask": w.mask}
                nn = None
                kw = {k: v[k] for k in keys}
                if n:
                    nn = nat("n")
                    assume_ge(I, nn - 1, w.R - nn)
                    kw["n_coeffs"] = nn
                o = run(I, SM + "slepian_forward", [L, w.s], kw)
                rec.seen(I)
                wh = where_of(I, I.resolve(SM + "slepian_forward"))
                length(rec, I, o, nn if n else w.N, wh)
            c.ob("number of coefficients from " + "+".join(keys) + (" with n_coeffs" if n else ""), f, CUT)
        for keys in (("u_i",), ("u",), ("u", "mask")):
            def f(rec, n=n, keys=keys):
                I = new("cold")
                w = mesh_slepian_obj(I)
                v = {"u_i": arr(I, "u_i", w.K, dt="real"), "u": arr(I, "u", w.V, dt="real"), "mask": ONE}
                kw = {k: v[k] for k in keys}
                nn = None
                if n:
                    nn = nat("n")
                    assume_ge(I, nn - 1, w.R - nn)
                    kw["n_coeffs"] = nn
                o = run(I, SM + "slepian_mesh_forward", [w.ms], kw)
                rec.seen(I)
                length(rec, I, o, nn if n else w.N, where_of(I, I.resolve(SM + "slepian_mesh_forward")))
            c.ob("number of mesh coefficients from " + "+".join(keys) + (" with n_coeffs" if n else ""), f, CUT)

    def f(rec):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        w = slepian_obj(I, L)
        fp = arr(I, "f_p", L * L)
        conform_k(rec, I, SM + "slepian_inverse", [fp, L, w.s], {}, "sphere.slepian_inverse", [fp, L, w.s])
    c.ob("synthesis", f, CUT)

    def f(rec):
        I = new("cold")
        w = mesh_slepian_obj(I)
        fp = arr(I, "f_p", w.K, dt="real")
        conform_k(rec, I, SM + "slepian_mesh_inverse", [w.ms, fp], {}, "mesh.slepian_inverse", [w.ms, fp])
    c.ob("mesh synthesis", f, CUT)

    for n in (False, True):
        def f(rec, n=n):
            I = new("cold")
            L, m = nat("L"), nat("n")
            assume_ge(I, L - 1, L * L - m)
            w = slepian_obj(I, L)
            o = obj(I, "sleplet.functions.SlepianIdentity", L=L, coefficients=arr(I, "coefficients", L * L), name="slepian_identity_r_L", reality=ZERO,
                    spin=ZERO, region=w.region, noise=None, smoothing=None, extra_args=None, slepian=w.s)
            al, be = real("alpha", True), real("beta", True)
            r = run(I, bound(I, o, "translate"), [al, be], {"shannon": m} if n else {})
            rec.seen(I)
            length(rec, I, r, m if n else None, None, L * L)
        c.ob("translation" + (" with Shannon" if n else ""), f, CUT)

    def f(rec):
        I = new()
        L, J, n = nat("L"), nat("J"), nat("n")
        assume_ge(I, L - 1, L * L - n)
        o = run(I, WM + "slepian_wavelet_forward", [arr(I, "f_p", L * L), arr(I, "wavelets", J, L * L, dt="real"), n], {})
        rec.seen(I)
        length(rec, I, o, n, where_of(I, I.resolve(WM + "slepian_wavelet_forward")), axis=1)
    c.ob("wavelet analysis", f, CUT)

    def f(rec):
        I = new()
        L, J, n, K = nat("L"), nat("J"), nat("n"), nat("K")
        assume_ge(I, L - 1, L * L - n, J - K)
        o = run(I, WM + "slepian_wavelet_inverse", [arr(I, "wav_coeffs", K, L * L), arr(I, "wavelets", J, L * L, dt="real"), n], {})
        rec.seen(I)
        length(rec, I, o, n, where_of(I, I.resolve(WM + "slepian_wavelet_inverse")))
    c.ob("wavelet synthesis", f, CUT)

    # the wavelet-coefficient classes analyse with their own problem's N
    for cls, slep in (("sleplet.functions.SlepianWaveletCoefficientsAfrica", "africa"), ("sleplet.functions.SlepianWaveletCoefficientsSouthAmerica", "south_america"),
                      ("sleplet.meshes.MeshSlepianWaveletCoefficients", None)):
        def f(rec, cls=cls, slep=slep):
            I = new("cold")
            L, B = nat("L"), nat("B")
            assume_ge(I, L - 1, B - 2)
            if slep:
                reg = region_obj(I, name=slep)
                w = slepian_obj(I, L, region=reg)
                x = "sleplet.functions.slepian_" + slep + ".Slepian" + "".join(p.capitalize() for p in slep.split("_"))
                args, kw, K = [L], {"region": reg}, L * L
            else:
                w = mesh_slepian_obj(I)
                x = "sleplet.meshes.mesh_slepian_field.MeshSlepianField"
                args, kw, K = [w.m], {}, w.K
            sig = arr(I, "signal", w.R)
            hook(I, x, lambda I2, c2, a, k: obj(I2, x, coefficients=sig))
            kw.update(B=B, j_min=nat("j_min"), j=None)
            o = run(I, cls, args, kw)
            rec.seen(I)
            if o.st is None:
                rec.undecided("construction not followed")
                return
            I.st = o.st
            length(rec, I, Out(I, fld(o, o.value, "wavelet_coefficients"), o.st, []), w.N, where_of(I, I.resolve(cls)), axis=1)
        c.ob(cls.split(".")[-1], f, CUT)


def length(rec, I, o, n, wh, alt=None, axis=0):
    if o.st is None:
        rec.undecided("no value", where=wh)
        return
    a = at_state(I, o, lambda: I.arr(o.value))
    if a.shape is None:
        rec.undecided("shape not known", where=wh)
        return
    if n is None:
        # no truncation asked for: nothing beyond the eigenvectors is dropped
        n = alt
    settle(rec, equal(rec, P(a.shape[axis]), P(n), "number of coefficients", o.st.ctx), "", wh, I.incomplete)
