"""C19 Hard thresholding."""
from ..harness import *  # noqa: F403

N = "sleplet.noise."
RULE = "zero exactly where |value| < n_sigma * noise level of that scale, otherwise unchanged; every scale once"


def obligations(c):
    def f(rec):
        I = new()
        L, J = nat("L"), nat("J")
        assume_ge(I, L - 1, J - 1)
        a = [L, arr(I, "wav_coeffs", J, L * L), arr(I, "sigma_j", J - 1, dt="real", nonneg=True), real("n_sigma", True)]
        conform_k(rec, I, N + "harmonic_hard_thresholding", a, {}, "noise.harmonic_thresholding", a, exc=False)
    c.ob("harmonic wavelets", f, RULE + "; the scaling function is untouched")

    for pix in (False, True):
        def f(rec, pix=pix):
            I = new()
            L, J = nat("L"), nat("J")
            assume_ge(I, L - 1, J - 1)
            w = slepian_obj(I, L)
            sig = arr(I, "sigma_j", J, w.nt, w.np, dt="real", nonneg=True) if pix else arr(I, "sigma_j", J, dt="real", nonneg=True)
            a = [L, arr(I, "wav_coeffs", J, w.N), sig, real("n_sigma", True), w.s]
            conform_k(rec, I, N + "slepian_wavelet_hard_thresholding", a, {}, "noise.slepian_wavelet_thresholding", a, exc=False)
        c.ob("Slepian wavelets, noise level per " + ("pixel" if pix else "scale"), f, RULE)

    def f(rec):
        I = new()
        L = nat("L")
        assume_ge(I, L - 1)
        w = slepian_obj(I, L)
        a = [L, arr(I, "coefficients", w.N), real("sigma", True), real("n_sigma", True), w.s]
        conform_k(rec, I, N + "slepian_function_hard_thresholding", a, {}, "noise.slepian_thresholding", a, exc=False)
    c.ob("Slepian functions", f, RULE)

    for pix in (False, True):
        def f(rec, pix=pix):
            I = new()
            w = mesh_slepian_obj(I)
            J = nat("J")
            assume_ge(I, J - 1)
            sig = arr(I, "sigma_j", J, w.V, dt="real", nonneg=True) if pix else arr(I, "sigma_j", J, dt="real", nonneg=True)
            a = [w.ms, arr(I, "wav_coeffs", J, w.N, dt="real"), sig, real("n_sigma", True)]
            conform_k(rec, I, N + "slepian_mesh_hard_thresholding", a, {}, "noise.mesh_thresholding", a, exc=False)
        c.ob("mesh Slepian wavelets, noise level per " + ("vertex" if pix else "scale"), f, RULE)
