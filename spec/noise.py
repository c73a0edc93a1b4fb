"""Reference definitions: noise level, signal-to-noise ratio, thresholding."""
import numpy as np
import pyssht as ssht
from spec import mesh as M
from spec import sphere as S


def power(x):
    return (np.abs(x) ** 2).sum()


def snr(signal, noise):
    return 10 * np.log10(power(signal) / power(noise))


def sigma(signal, snr_in, n):
    return np.sqrt(10 ** (-snr_in / 10) * power(signal) / n)


def sigma_default(signal, snr_in):
    return sigma(signal, snr_in, signal.shape[0])


def sigma_j(signal, psi_j, snr_in):
    return sigma(signal, snr_in, signal.shape[0]) * np.sqrt((np.abs(psi_j) ** 2).sum(axis=1))


def slepian_sigma_j(L, signal, psi_j, snr_in, s):
    nt, nph = S.shape(L)
    out = np.zeros((psi_j.shape[0], nt, nph))
    sp = S.slepian_pixels(L, s)
    for j in range(psi_j.shape[0]):
        t = np.zeros((nt, nph))
        for p in range(s.N):
            t = t + np.abs(psi_j[j, p]) ** 2 * np.abs(sp[p]) ** 2
        out[j] = sigma(signal, snr_in, L**2) * np.sqrt(t)
    return out


def mesh_sigma_j(ms, signal, psi_j, snr_in):
    sp = M.slepian_pixels(ms)
    out = np.zeros((psi_j.shape[0], ms.mesh.vertices.shape[0]))
    for j in range(psi_j.shape[0]):
        t = np.zeros(ms.mesh.vertices.shape[0])
        for p in range(ms.N):
            t = t + np.abs(psi_j[j, p]) ** 2 * np.abs(sp[p]) ** 2
        out[j] = sigma(signal, snr_in, ms.slepian_eigenvalues.shape[0]) * np.sqrt(t)
    return out


def threshold(f, sigma_j, n_sigma):
    return np.where(np.abs(f) < n_sigma * sigma_j, 0, f)


def harmonic_thresholding(L, w, sigma_j, n_sigma):
    out = np.zeros(w.shape, dtype=np.complex128)
    out[0] = w[0]
    for j in range(1, w.shape[0]):
        out[j] = S.forward(threshold(S.inverse(w[j], L), sigma_j[j - 1], n_sigma), L)
    return out


def slepian_wavelet_thresholding(L, w, sigma_j, n_sigma, s):
    out = np.zeros(w.shape, dtype=np.complex128)
    for j in range(w.shape[0]):
        out[j] = S.forward_sphere(L, s, threshold(S.slepian_inverse(w[j], L, s), sigma_j[j], n_sigma), None)
    return out


def slepian_thresholding(L, f_p, sigma, n_sigma, s):
    return S.forward_sphere(L, s, threshold(S.slepian_inverse(f_p, L, s), sigma, n_sigma), None)


def mesh_thresholding(ms, w, sigma_j, n_sigma):
    out = np.zeros(w.shape)
    for j in range(w.shape[0]):
        out[j] = M.forward_mesh(ms, threshold(M.slepian_inverse(ms, w[j]), sigma_j[j], n_sigma), None)
    return out


# noised signals, given the clean one and the noised one
def report(clean, noised):
    return snr(clean, noised - clean)


def white_noise(L, signal, snr_in):
    rng = np.random.default_rng(30)
    out = np.zeros(L**2, dtype=np.complex128)
    s = sigma_default(signal, snr_in)
    for ell in range(L):
        out[ell * ell + ell] = s * rng.standard_normal()
        for m in range(1, ell + 1):
            out[ell * ell + ell + m] = s / np.sqrt(2) * (rng.standard_normal() + 1j * rng.standard_normal())
            out[ell * ell + ell - m] = (-1) ** m * np.conj(out[ell * ell + ell + m])
    return out


def slepian_noise(L, f_p, s, snr_in):
    flm = S.forward(S.slepian_inverse(f_p, L, s), L)
    return S.forward_harmonic(L, s, white_noise(L, flm, snr_in), None)


def slepian_noised(L, f_p, s, snr_in):
    n = slepian_noise(L, f_p, s, snr_in)
    return f_p + n, f_p, snr(f_p, n)


def mesh_noise(u_i, snr_in):
    rng = np.random.default_rng(30)
    out = np.zeros(u_i.shape[0])
    s = sigma_default(u_i, snr_in)
    for i in range(u_i.shape[0]):
        out[i] = s * rng.standard_normal()
    return out


def mesh_noised(u_i, snr_in):
    n = mesh_noise(u_i, snr_in)
    return u_i + n, u_i, snr(u_i, n)


def slepian_mesh_noise(ms, f_p, snr_in):
    u_i = M.forward(ms.mesh, M.slepian_inverse(ms, f_p))
    return M.forward_harmonic(ms, mesh_noise(u_i, snr_in), None)


def slepian_mesh_noised(ms, f_p, snr_in):
    n = slepian_mesh_noise(ms, f_p, snr_in)
    return f_p + n, f_p, snr(f_p, n)
