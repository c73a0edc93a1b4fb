"""Reference definitions: topography of one continent."""
import numpy as np
import pyssht as ssht
from spec import noise as N
from spec import region as R
from spec import sphere as S
from spec import wavelets as W

SCHEME = "MWSS"


def signal(L, earth, smoothed, alpha, beta, gamma, size):
    mask = R.continent_mask(L, earth, alpha, beta, gamma, size)
    rot = ssht.rotate_flms(smoothed, alpha * np.pi / 180, beta * np.pi / 180, gamma * np.pi / 180, L)
    f = S.inverse(rot, L, reality=True)
    return S.forward(np.where(mask, f, 0), L, reality=True)


def slepian(L, earth, smoothed, alpha, beta, gamma, size, s):
    return S.forward_harmonic(L, s, signal(L, earth, smoothed, alpha, beta, gamma, size), None)


def slepian_noise(L, earth, smoothed, alpha, beta, gamma, size, s, snr):
    return N.slepian_noise(L, slepian(L, earth, smoothed, alpha, beta, gamma, size, s), s, snr)


def wavelets(L, earth, smoothed, alpha, beta, gamma, size, B, j_min, j):
    return W.axisymmetric_coefficient_class(L, B, j_min, j, signal(L, earth, smoothed, alpha, beta, gamma, size))[2]


def slepian_wavelets(L, earth, smoothed, alpha, beta, gamma, size, s, B, j_min, j):
    return W.slepian_coefficient_class(L**2, B, j_min, j, slepian(L, earth, smoothed, alpha, beta, gamma, size, s), s.N)[2]
