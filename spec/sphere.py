"""Reference definitions on the sphere (one sampling scheme: MWSS)."""
import numpy as np
import pyssht as ssht

SCHEME = "MWSS"


def shape(L):
    return ssht.sample_shape(L, Method=SCHEME)


def inverse(flm, L, reality=False, spin=0):
    return ssht.inverse(flm, L, Method=SCHEME, Reality=reality, Spin=spin)


def forward(f, L, reality=False, spin=0):
    return ssht.forward(f, L, Method=SCHEME, Reality=reality, Spin=spin)


def slepian_pixels(L, s):
    nt, nph = shape(L)
    out = np.zeros((s.N, nt, nph), dtype=np.complex128)
    for p in range(s.N):
        out[p] = inverse(s.eigenvectors[p], L)
    return out


def slepian_inverse(f_p, L, s):
    """sum over the leading Shannon number of functions"""
    out = np.zeros(shape(L), dtype=np.complex128)
    for p in range(s.N):
        out = out + f_p[p] * inverse(s.eigenvectors[p], L)
    return out


def harmonic_sum(flm, s, rank):
    return (flm * np.conj(s.eigenvectors[rank])).sum()


def weight(L):
    """Jacobian of the sampling: sin(theta) times the mean steps"""
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=SCHEME)
    return np.sin(thetas) * np.ediff1d(thetas[:, 0]).mean() * np.ediff1d(phis[0]).mean()


def integrate_sphere(f, L, s, rank):
    return (f * np.conj(inverse(s.eigenvectors[rank], L)) * weight(L)).sum()


def integrate_region(f, mask, L, s, rank):
    return (f * np.conj(inverse(s.eigenvectors[rank], L)) * weight(L) * mask).sum() / s.eigenvalues[rank]


def forward_harmonic(L, s, flm, n):
    out = np.zeros(s.N if n is None else n, dtype=np.complex128)
    for p in range(s.N if n is None else n):
        out[p] = harmonic_sum(flm, s, p)
    return out


def forward_sphere(L, s, f, n):
    out = np.zeros(s.N if n is None else n, dtype=np.complex128)
    for p in range(s.N if n is None else n):
        out[p] = integrate_sphere(f, L, s, p)
    return out


def forward_region(L, s, f, mask, n):
    out = np.zeros(s.N if n is None else n, dtype=np.complex128)
    for p in range(s.N if n is None else n):
        out[p] = integrate_region(f, mask, L, s, p)
    return out


def translation_slepian(L, alpha, beta, s):
    """Slepian functions at longitude alpha, colatitude beta, conjugated, zero beyond the Shannon number"""
    out = np.zeros(L**2, dtype=np.complex128)
    p = ssht.theta_to_index(beta, L, Method=SCHEME)
    q = ssht.phi_to_index(alpha, L, Method=SCHEME)
    for r in range(s.N):
        out[r] = np.conj(inverse(s.eigenvectors[r], L)[p, q])
    return out


def translation_harmonic(L, alpha, beta):
    return np.conj(ssht.create_ylm(beta, alpha, L)).flatten()


def guarded_harmonic_sum(L, flm, s, rank):
    if rank < 0 or rank >= L**2:
        raise ValueError
    return harmonic_sum(flm, s, rank)


def guarded_integrate_sphere(L, f, LL, s, rank):
    if rank < 0 or rank >= L**2:
        raise ValueError
    return integrate_sphere(f, L, s, rank)


def guarded_integrate_region(L, f, mask, LL, s, rank):
    if rank < 0 or rank >= L**2:
        raise ValueError
    return integrate_region(f, mask, L, s, rank)


def translation_slepian_unconj(L, alpha, beta, s):
    return translation_slepian(L, alpha, beta, s)


def any_field(theta, phi):
    return np.cos(theta) * np.exp(np.cos(phi))
