import numpy as np
from spec import sphere as S
from spec import wavelets as W


def harmonic(o, L, alpha, beta, n):
    return W.sifting(o.coefficients, S.translation_harmonic(L, alpha, beta), n)


def slepian(o, L, alpha, beta, s, n):
    return W.sifting(o.coefficients, S.translation_slepian(L, alpha, beta, s), n)


def convolved_slepian(L, f_p, glm, s):
    g_p = S.forward_harmonic(L, s, glm, s.N)
    return S.slepian_inverse(W.sifting(g_p, f_p, s.N), L, s)


def convolved_slepian_swapped(L, f_p, glm, s):
    g_p = S.forward_harmonic(L, s, glm, s.N)
    return S.slepian_inverse(W.sifting(f_p, g_p, s.N), L, s)


def convolved(L, flm, glm):
    return S.inverse(W.sifting(glm, flm, None), L)


def convolved_swapped(L, flm, glm):
    return S.inverse(W.sifting(flm, glm, None), L)


def translated_slepian(o, L, alpha, beta, s):
    return S.slepian_inverse(slepian(o, L, alpha, beta, s, s.N), L, s)
