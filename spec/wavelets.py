"""Reference definitions: wavelet analysis/synthesis, sifting convolution."""
import numpy as np
import pys2let
import pyssht as ssht


def sifting(f, g, shannon):
    """first set times the conjugate of the second, cut to the Shannon number"""
    n = f.shape[-1] if shannon is None else shannon
    return f[..., :n] * np.conj(g[..., :n])


def sifting_rows_by_vector(f, g, shannon):
    n = f.shape[1] if shannon is None else shannon
    return f[:, :n] * np.conj(g[:n])


def slepian_forward(f_p, wavelets, shannon):
    w = wavelets[:, :shannon] * np.conj(f_p[:shannon])
    # the scales without support are left out; a vanishing signal leaves none out
    return w[wavelets[:, :shannon].any(axis=1)]


def slepian_inverse(wav_coeffs, wavelets, shannon):
    """sum over the scales that were kept of wavelet times conjugate coefficient"""
    n = len(wav_coeffs)
    return (wavelets[:n, :shannon] * np.conj(wav_coeffs[:, :shannon])).sum(axis=0)


def axisymmetric_forward(L, flm, wavelets):
    w = np.zeros(wavelets.shape, dtype=np.complex128)
    for i in range(L**2):
        ell, m = ssht.ind2elm(i)
        w[:, i] = np.sqrt(4 * np.pi / (2 * ell + 1)) * np.conj(wavelets[:, ell * ell + ell]) * flm[i]
    return w


def axisymmetric_inverse(L, wav_coeffs, wavelets):
    flm = np.zeros(L**2, dtype=np.complex128)
    for i in range(L**2):
        ell, m = ssht.ind2elm(i)
        flm[i] = (np.sqrt(4 * np.pi / (2 * ell + 1)) * wavelets[:, ell * ell + ell] * wav_coeffs[:, i]).sum()
    return flm


def kappas(xlim, B, j_min):
    """row 0 is the scaling function, row j + 1 the j-th wavelet"""
    k0, k = pys2let.axisym_wav_l(B, xlim, j_min)
    out = np.zeros((k.shape[1] + 1, xlim))
    for ell in range(xlim):
        out[0, ell] = k0[ell]
        for j in range(k.shape[1]):
            out[j + 1, ell] = k[ell, j]
    return out


def axisymmetric_wavelets(L, B, j_min):
    k = kappas(L, B, j_min)
    out = np.zeros((k.shape[0], L**2), dtype=np.complex128)
    for ell in range(L):
        out[:, ell * ell + ell] = np.sqrt((2 * ell + 1) / (4 * np.pi)) * k[:, ell]
    return out


def nonzero_rows(wav_coeffs):
    return wav_coeffs[wav_coeffs.any(axis=1)]


def row(j):
    return 0 if j is None else j + 1


def axisymmetric_class(L, B, j_min, j):
    w = axisymmetric_wavelets(L, B, j_min)
    return w, w[row(j)]


def slepian_class(L, B, j_min, j):
    w = kappas(L**2, B, j_min)
    return w, w[row(j)]


def mesh_class(K, B, j_min, j):
    w = kappas(K, B, j_min)
    return w, w[row(j)]


def axisymmetric_coefficient_class(L, B, j_min, j, signal):
    w = axisymmetric_wavelets(L, B, j_min)
    c = axisymmetric_forward(L, signal, w)
    return w, c, c[row(j)]


def slepian_coefficient_class(K, B, j_min, j, signal, n):
    w = kappas(K, B, j_min)
    c = slepian_forward(signal, w, n)
    return w, c, c[row(j)]
