"""Reference definitions: plot preparation."""
import numpy as np
import pyssht as ssht
from spec import functions as F
from spec import sphere as S

UNSEEN = -1.56e30


def resolution(L):
    """bandlimit times the power of two of its band"""
    if L < 2:
        return 64 * L
    if L < 4:
        return 32 * L
    if L < 8:
        return 16 * L
    if L < 128:
        return 8 * L
    if L < 512:
        return 4 * L
    if L < 1024:
        return 2 * L
    return L


def boosted(f, L, res, reality, spin, upsample):
    if not upsample:
        return f
    return F.padded(S.forward(f, L, reality, spin), L, res, reality, spin)


def part(f, kind):
    if kind == "abs":
        return np.abs(f)
    if kind == "imag":
        return f.imag
    if kind == "real":
        return f.real
    return f.real + f.imag


def scaled(f, normalise):
    if not normalise:
        return f
    if (f == 0).all():
        return f + 0.5
    if np.allclose(f, f.max()):
        return f / f.max()
    return (f - f.min()) / (f.max() - f.min())


def closed(f, res):
    nt, nph = S.shape(res)
    return np.concatenate((f, f[:, :1]), axis=1)


def surface(f, L, kind, normalise, reality, spin, upsample, mask):
    """values shown on the sphere"""
    res = resolution(L) if upsample else L
    x = scaled(part(boosted(f, L, res, reality, spin, upsample), kind), normalise)
    out = closed(x, res)
    if mask is not None:
        out = np.where(closed(mask, res), out, UNSEEN)
    return out


def mesh_faces(faces, f, normalise, region):
    """per-face mean of the vertex values, scaled; outside the region the marker"""
    import igl

    v = igl.average_onto_faces(faces, f)
    x = scaled(v, normalise)
    if region is None:
        return x
    return np.where(region[faces[:, 0]] & region[faces[:, 1]] & region[faces[:, 2]], x, -1e5)


def tick(lo, hi, amplitude):
    return max(abs(lo), abs(hi)) if amplitude is None else amplitude


def surface_tick(f, L, kind, normalise, reality, spin, upsample, amplitude):
    if amplitude is not None:
        return amplitude
    res = resolution(L) if upsample else L
    x = scaled(part(boosted(f, L, res, reality, spin, upsample), kind), normalise)
    return max(abs(x.min()), abs(x.max()))


def max_amplitude(f, L, kind, reality, spin, upsample):
    """largest magnitude of the requested part of the displayed field"""
    res = resolution(L) if upsample else L
    return np.abs(part(boosted(f, L, res, reality, spin, upsample), kind)).max()


def max_amplitude_harmonic(flm, L, kind, reality, spin, upsample):
    return max_amplitude(S.inverse(flm, L, reality, spin), L, kind, reality, spin, upsample)


def max_amplitude_slepian(f_p, L, s, kind, reality, spin, upsample):
    return max_amplitude(S.slepian_inverse(f_p, L, s), L, kind, reality, spin, upsample)
