"""C13 Mesh transforms and mesh Slepian coefficients."""
from ..harness import *  # noqa: F403

RULE = "inner product with (conjugated) basis or Slepian functions"
HM = "sleplet.harmonic_methods."
SM = "sleplet.slepian_methods."


def setup(slep=True):
    I = new("cold")
    w = mesh_obj(I)
    if slep:
        w = mesh_slepian_obj(I, w)
    return I, w


def obligations(c):
    def f(rec):
        I, w = setup(False)
        u = arr(I, "u", w.V, dt="real")
        conform_k(rec, I, HM + "mesh_forward", [w.m, u], {}, "mesh.forward", [w.m, u])
    c.ob("mesh analysis", f, RULE)

    def f(rec):
        I, w = setup(False)
        u = arr(I, "u_i", w.K, dt="real")
        conform_k(rec, I, HM + "mesh_inverse", [w.m, u], {}, "mesh.inverse", [w.m, u])
    c.ob("mesh synthesis", f, "matching weighted sum")

    for n in (False, True):
        t = " with n_coeffs" if n else ""

        def mk(keys, spec, arg, n=n):
            def f(rec):
                I, w = setup()
                vals = {"u_i": arr(I, "u_i", w.K, dt="real"), "u": arr(I, "u", w.V, dt="real"), "mask": ONE}
                nn = None
                k = {x: vals[x] for x in keys}
                if n:
                    nn = nat("n")
                    assume_ge(I, nn - 1, w.R - nn)
                    k["n_coeffs"] = nn
                conform_k(rec, I, SM + "slepian_mesh_forward", [w.ms], k, "mesh." + spec, [w.ms, vals[arg], nn])
            return f
        for keys in (("u_i",), ("u_i", "u"), ("u_i", "mask"), ("u_i", "u", "mask")):
            c.ob("mesh Slepian from " + "+".join(keys) + t, mk(keys, "forward_harmonic", "u_i"), RULE)
        c.ob("mesh Slepian from field" + t, mk(("u",), "forward_mesh", "u"), RULE)
        c.ob("mesh Slepian from field and mask" + t, mk(("u", "mask"), "forward_region", "u"), RULE)

    for m in (False, True):
        def f(rec, m=m):
            I, w = setup()
            must_raise(rec, I, SM + "slepian_mesh_forward", [w.ms], {"mask": ONE} if m else {})
        c.ob("nothing given is an error" + (" (mask)" if m else ""), f, "supplying no signal raises")

    def f(rec):
        I, w = setup()
        fp = arr(I, "f_p", w.K, dt="real")
        conform_k(rec, I, SM + "slepian_mesh_inverse", [w.ms, fp], {}, "mesh.slepian_inverse", [w.ms, fp])
    c.ob("mesh Slepian synthesis", f, "matching weighted sum")

    def f(rec):
        I, w = setup()
        fp = arr(I, "f_p", w.N, dt="real")
        conform_k(rec, I, SM + "slepian_mesh_inverse", [w.ms, fp], {}, "mesh.slepian_inverse", [w.ms, fp])
    c.ob("mesh Slepian synthesis from Shannon-many coefficients", f, "matching weighted sum")
