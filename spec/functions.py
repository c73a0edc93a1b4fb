"""Reference definitions of the closed-form signals."""
import numpy as np
import pyssht as ssht
from spec import sphere as S


def zonal(L):
    return np.zeros(L**2, dtype=np.complex128)


def dirac_delta(L):
    out = zonal(L)
    for ell in range(L):
        out[ell * ell + ell] = np.sqrt((2 * ell + 1) / (4 * np.pi))
    return out


def gaussian(L, sigma):
    out = zonal(L)
    for ell in range(L):
        out[ell * ell + ell] = np.exp(-ell * (ell + 1) / (2 * sigma**2))
    return out


def harmonic_gaussian(L, l_sigma, m_sigma):
    out = zonal(L)
    for i in range(L**2):
        ell, m = ssht.ind2elm(i)
        out[i] = np.exp(-(ell**2 / (2 * l_sigma**2) + m**2 / (2 * m_sigma**2)))
    return out


def spherical_harmonic(L, ell, m):
    out = zonal(L)
    out[ell * ell + ell + m] = 1
    return out


def identity(L):
    return np.ones(L**2, dtype=np.complex128)


def squashed_gaussian(L, t_sigma, freq, reality):
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=S.SCHEME)
    return S.forward(np.exp(-(thetas / t_sigma) ** 2 / 2) * np.sin(freq * phis), L, reality, 0)


def elongated_gaussian(L, t_sigma, p_sigma, reality):
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=S.SCHEME)
    return S.forward(np.exp(-thetas**2 / (2 * t_sigma**2) - (phis - np.pi) ** 2 / (2 * p_sigma**2)), L, reality, 0)


def ring(L, spin):
    import scipy.special

    out = zonal(L)
    for ell in range(abs(spin), L):
        log = (scipy.special.gammaln(ell + spin + 1) - ell * np.log(2)
               - scipy.special.gammaln((ell + spin) / 2 + 1) - scipy.special.gammaln((ell - spin) / 2 + 1))
        p0 = np.real((-1) ** ((ell + spin) / 2)) * np.exp(log)
        out[ell * ell + ell] = (2 * np.pi * np.sqrt((2 * ell + 1) / (4 * np.pi)) * p0 * (-1) ** spin
                                * np.sqrt(np.exp(scipy.special.gammaln(ell - spin + 1) - scipy.special.gammaln(ell + spin + 1))))
    return out


def ridgelets(L, B, j_min, j, spin):
    from spec import wavelets as W

    k = W.kappas(L, B, j_min)
    r = ring(L, spin)
    out = np.zeros((k.shape[0], L**2), dtype=np.complex128)
    for ell in range(L):
        out[0, ell * ell + ell] = k[0, ell] * r[ell * ell + ell]
        for q in range(1, k.shape[0]):
            out[q, ell * ell + ell] = k[q, ell] * r[ell * ell + ell] / np.sqrt(2 * np.pi)
    return out, out[W.row(j)]


def padded(flm, L, resolution, reality, spin):
    big = np.zeros(resolution**2, dtype=np.complex128)
    big[: L**2] = flm
    return S.inverse(big, resolution, reality, spin)


def power_of_ten(x):
    return 10.0**x


def random_signal(L, rng, var_signal):
    """standard complex normal coefficients of the given variance"""
    return np.sqrt(var_signal / 2) * (rng.standard_normal(L**2) + 1j * rng.standard_normal(L**2))


def slepian_dirac_delta(L, s):
    """the Dirac delta at the maximum of the best-concentrated function"""
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=S.SCHEME)
    sp = S.inverse(s.eigenvectors[0], L)
    idx = tuple(np.argwhere(sp == sp.max())[0])
    return S.translation_slepian(L, phis[idx], thetas[idx], s)


def slepian_function(L, s, rank):
    return S.forward_harmonic(L, s, s.eigenvectors[rank], None)
