"""C16 Wavelet analysis/synthesis and scale selection."""
from ..harness import *  # noqa: F403
from ..values import Arr

WM = "sleplet.wavelet_methods."
ADJ = "analysis multiplies by the (conjugated) wavelet, synthesis applies the adjoint weight"
SEL = "no scale selects row 0 (scaling function), scale j selects row j + 1"


def obligations(c):
    def f(rec, n=0):
        I = new()
        L, J, n = nat("L"), nat("J"), nat("n")
        assume_ge(I, L - 1, L * L - n)
        conform_k(rec, I, WM + "slepian_wavelet_forward", [arr(I, "f_p", L * L), arr(I, "wavelets", J, L * L, dt="real"), n], {},
                  "wavelets.slepian_forward", [arr(I, "f_p", L * L), arr(I, "wavelets", J, L * L, dt="real"), n])
    c.ob("Slepian analysis", f, ADJ)

    def f(rec):
        I = new()
        L, J, n = nat("L"), nat("J"), nat("n")
        assume_ge(I, L - 1, L * L - n)
        a = [arr(I, "f_p", n), arr(I, "wavelets", J, L * L, dt="real"), n]
        conform_k(rec, I, WM + "slepian_wavelet_forward", a, {}, "wavelets.slepian_forward", a)
    c.ob("Slepian analysis of Shannon-many coefficients", f, ADJ)

    def f(rec):
        # wavelets and signal of narrow support: scales at which the signal vanishes stay where they are
        I = new()
        L, J, n, q = nat("L"), nat("J"), nat("n"), nat("q")
        assume_ge(I, L - 1, L * L - n, n - J - 1, J - 2, J - q - 1, q - 1)
        sig, wav = arr(I, "f_p", L * L), arr(I, "wavelets", J, L * L, dt="real")
        se, we = I.arr(sig), I.arr(wav)
        a = [I.alloc(Arr((L * L,), lambda i: b_eq(P(i[0]) - q) * se.elem(i), "complex")),
             I.alloc(Arr((J, L * L), lambda i: b_eq(P(i[0]) - i[1]) * we.elem(i), "real")), n]
        conform_k(rec, I, WM + "slepian_wavelet_forward", a, {}, "wavelets.slepian_forward", a)
    c.ob("Slepian analysis of a signal that vanishes at some scales", f, ADJ)

    def f(rec):
        I = new()
        L, J, n, K = nat("L"), nat("J"), nat("n"), nat("K")
        assume_ge(I, L - 1, L * L - n, J - K)
        a = [arr(I, "wav_coeffs", K, L * L), arr(I, "wavelets", J, L * L, dt="real"), n]
        conform_k(rec, I, WM + "slepian_wavelet_inverse", a, {}, "wavelets.slepian_inverse", a)
    c.ob("Slepian synthesis", f, ADJ)

    def f(rec):
        I = new()
        L, J, n, K = nat("L"), nat("J"), nat("n"), nat("K")
        assume_ge(I, L - 1, L * L - n, J - K)
        a = [arr(I, "wav_coeffs", K, n), arr(I, "wavelets", J, L * L, dt="real"), n]
        conform_k(rec, I, WM + "slepian_wavelet_inverse", a, {}, "wavelets.slepian_inverse", a)
    c.ob("Slepian synthesis of Shannon-many coefficients", f, ADJ)

    def f(rec):
        I = new()
        L, J = nat("L"), nat("J")
        assume_ge(I, L - 1)
        a = [L, arr(I, "flm", L * L), arr(I, "wavelets", J, L * L)]
        conform_k(rec, I, WM + "axisymmetric_wavelet_forward", a, {}, "wavelets.axisymmetric_forward", a)
    c.ob("axisymmetric analysis", f, ADJ)

    def f(rec):
        I = new()
        L, J = nat("L"), nat("J")
        assume_ge(I, L - 1)
        a = [L, arr(I, "wav_coeffs", J, L * L), arr(I, "wavelets", J, L * L)]
        conform_k(rec, I, WM + "axisymmetric_wavelet_inverse", a, {}, "wavelets.axisymmetric_inverse", a)
    c.ob("axisymmetric synthesis", f, ADJ)

    def f(rec):
        I = new()
        L, B = nat("L"), nat("B")
        assume_ge(I, L - 1, B - 2)
        a = [L, B, nat("j_min")]
        conform_k(rec, I, WM + "create_kappas", a, {}, "wavelets.kappas", a)
    c.ob("generating functions", f, "row 0 is the scaling function, row j + 1 the j-th wavelet")

    def f(rec):
        I = new()
        L, J = nat("L"), nat("J")
        assume_ge(I, L - 1)
        a = [arr(I, "wav_coeffs", J, L * L)]
        conform_k(rec, I, WM + "find_non_zero_wavelet_coefficients", a, {"axis": ONE}, "wavelets.nonzero_rows", a)
    c.ob("non-zero scales", f, "exactly the rows with a non-zero entry are kept, in order")

    # scale selection and stored wavelets of every wavelet class
    def wavelet_class(cls, spec, slep):
        for jn in ("none", "j"):
            def f(rec, jn=jn):
                I = new("cold")
                L, B, jm, j = nat("L"), nat("B"), nat("j_min"), nat("j")
                assume_ge(I, L - 1, B - 2)
                if slep == "sphere":
                    w = slepian_obj(I, L)
                    args, kw, sa = [L], {"region": w.region}, [L]
                elif slep == "mesh":
                    w = mesh_slepian_obj(I)
                    args, kw, sa = [w.m], {}, [w.K]
                else:
                    args, kw, sa = [L], {}, [L]
                kw = dict(kw, B=B, j_min=jm, j=None if jn == "none" else j)
                st = I.st
                a, b = conform_k(rec, I, cls, args, kw, "wavelets." + spec, sa + [B, jm, kw["j"]], exc=False, sub="",
                                 post=lambda o: (o.st.heap[o.value.oid].fields["wavelets"], o.st.heap[o.value.oid].fields["coefficients"]),
                                 spost=lambda o: o.value)
            c.ob(f"{cls.split('.')[-1]} {'scaling function' if jn == 'none' else 'scale j'}", f, SEL)

    wavelet_class("sleplet.functions.AxisymmetricWavelets", "axisymmetric_class", None)
    wavelet_class("sleplet.functions.SlepianWavelets", "slepian_class", "sphere")
    wavelet_class("sleplet.meshes.MeshSlepianWavelets", "mesh_class", "mesh")

    # wavelet coefficient classes: the stored coefficients are the analysis of the signal
    def coefficient_class(cls, spec, slep):
        for jn in ("none", "j"):
            def f(rec, jn=jn):
                I = new("cold")
                L, B, jm, j = nat("L"), nat("B"), nat("j_min"), nat("j")
                assume_ge(I, L - 1, B - 2)
                kw = {}
                if slep == "sphere":
                    reg = region_obj(I, name=slep_name(cls))
                    w = slepian_obj(I, L, region=reg)
                    n, sig = w.N, arr(I, "signal", w.N)
                    kw["region"] = reg
                    x = "sleplet.functions.slepian_" + slep_name(cls) + ".Slepian" + title(slep_name(cls))
                    hook(I, x, lambda I2, c2, a, k: obj(I2, x, coefficients=sig))
                    args, sa = [L], [L * L]
                elif slep == "mesh":
                    w = mesh_slepian_obj(I)
                    n, sig = w.N, arr(I, "signal", w.N, dt="real")
                    x = "sleplet.meshes.mesh_slepian_field.MeshSlepianField"
                    hook(I, x, lambda I2, c2, a, k: obj(I2, x, coefficients=sig))
                    args, sa = [w.m], [w.K]
                else:
                    n, sig = None, arr(I, "signal", L * L)
                    x = "sleplet.functions." + slep_name(cls) + "." + title(slep_name(cls))
                    hook(I, x, lambda I2, c2, a, k: obj(I2, x, coefficients=sig))
                    args, sa = [L], [L]
                kw.update(B=B, j_min=jm, j=None if jn == "none" else j)
                conform_k(rec, I, cls, args, kw, "wavelets." + spec, sa + [B, jm, kw["j"], sig] + ([n] if n is not None else []), exc=False,
                          post=lambda o: (o.st.heap[o.value.oid].fields["wavelets"], o.st.heap[o.value.oid].fields["wavelet_coefficients"],
                                          o.st.heap[o.value.oid].fields["coefficients"]), spost=lambda o: o.value)
            c.ob(f"{cls.split('.')[-1]} {'scaling function' if jn == 'none' else 'scale j'}", f, SEL + "; stored coefficients are the analysis of the region's data")

    for p in ("Earth", "Africa", "SouthAmerica"):
        coefficient_class("sleplet.functions.AxisymmetricWaveletCoefficients" + p, "axisymmetric_coefficient_class", None)
    for p in ("Africa", "SouthAmerica"):
        coefficient_class("sleplet.functions.SlepianWaveletCoefficients" + p, "slepian_coefficient_class", "sphere")
    coefficient_class("sleplet.meshes.MeshSlepianWaveletCoefficients", "slepian_coefficient_class", "mesh")


def slep_name(cls):
    return {"Earth": "earth", "Africa": "africa", "America": "south_america"}[[k for k in ("Earth", "Africa", "America") if cls.endswith(k)][0]]


def title(s):
    return "".join(x.capitalize() for x in s.split("_"))
