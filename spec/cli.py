"""Reference definitions: what the commands draw."""
import os

import numpy as np
import pyssht as ssht
from spec import mesh as M
from spec import sphere as S
from spec import wavelets as W


def window():
    """the default region, in the order gap, mask, longitudes, colatitudes"""
    return (
        os.getenv("POLAR_GAP", "False").lower() == "true",
        os.getenv("SLEPIAN_MASK", "south_america"),
        np.deg2rad(int(os.getenv("PHI_MAX", "360"))),
        np.deg2rad(int(os.getenv("PHI_MIN", "0"))),
        np.deg2rad(int(os.getenv("THETA_MAX", "180"))),
        np.deg2rad(int(os.getenv("THETA_MIN", "0"))),
    )


def grid_point(L, alpha, beta):
    """the sample closest to the given multiples of pi"""
    thetas, phis = ssht.sample_positions(L, Method=S.SCHEME)
    return phis[np.abs(phis - alpha * np.pi).argmin()], thetas[np.abs(thetas - beta * np.pi).argmin()]


def arrow(alpha, beta):
    return ssht.s2_to_cart(beta, alpha)


def convolved(flm, glm):
    return W.sifting(glm, flm, None)


def slepian_convolved(f_p, glm, L, s):
    return W.sifting(S.forward_harmonic(L, s, glm, s.N), f_p, s.N)


def noisy_amplitude(flm, L, reality, spin):
    return np.abs(S.inverse(flm, L, reality, spin)).max()


def noisy_amplitude_slepian(f_p, L, s):
    return np.abs(S.slepian_inverse(f_p, L, s)).max()


def noisy_amplitude_mesh(u_i, mesh):
    return np.abs(M.inverse(mesh, u_i)).max()


def noisy_amplitude_mesh_slepian(f_p, ms):
    return np.abs(M.slepian_inverse(ms, f_p)).max()


def generator():
    return np.random.default_rng(0)
