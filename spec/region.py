"""Reference definitions of regions, masks and Shannon numbers."""
import numpy as np
import pyssht as ssht

SCHEME = "MWSS"


def deg(x):
    return round(np.rad2deg(x))


def kind(gap, mask_name, phi_max, phi_min, theta_max, theta_min):
    """which kind of region the six settings describe, and its name"""
    lon = phi_min != 0 or phi_max != 2 * np.pi
    if not lon and theta_min == 0 and theta_max != np.pi:
        return "polar", f"polar{'_gap' if gap else ''}{deg(theta_max)}"
    if lon or theta_min != 0:
        return "lim_lat_lon", f"theta{deg(theta_min)}-{deg(theta_max)}_phi{deg(phi_min)}-{deg(phi_max)}"
    if mask_name:
        return "arbitrary", mask_name
    raise AttributeError


def polar_mask(L, theta_max, gap):
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=SCHEME)
    if gap:
        return (thetas <= theta_max) | (thetas >= np.pi - theta_max)
    return thetas <= theta_max


def box_mask(L, theta_min, theta_max, phi_min, phi_max):
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=SCHEME)
    return (theta_min <= thetas) & (thetas <= theta_max) & (phi_min <= phis) & (phis <= phi_max)


def continent_mask(L, flm, alpha, beta, gamma, size):
    """land samples within `size` degrees of the pole the continent has been rotated to"""
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=SCHEME)
    rot = ssht.rotate_flms(flm, alpha * np.pi / 180, beta * np.pi / 180, gamma * np.pi / 180, L)
    f = ssht.inverse(rot, L, Method=SCHEME, Reality=True)
    return (thetas <= size * np.pi / 180) & (f >= 0)


def masked(flm, L, mask, reality, spin):
    f = ssht.inverse(flm, L, Method=SCHEME, Reality=reality, Spin=spin)
    out = np.where(mask, f, 0)
    return ssht.forward(out, L, Method=SCHEME, Reality=reality, Spin=spin)


def cap_area(theta_max, gap):
    one = 2 * np.pi * (1 - np.cos(theta_max))
    return 2 * one if gap else one


def box_area(theta_min, theta_max, phi_min, phi_max):
    return (phi_max - phi_min) * (np.cos(theta_min) - np.cos(theta_max))


def weight(L):
    thetas, phis = ssht.sample_positions(L, Grid=True, Method=SCHEME)
    return np.sin(thetas) * np.ediff1d(thetas[:, 0]).mean() * np.ediff1d(phis[0]).mean()


def mask_area(L, mask):
    return (mask * weight(L)).sum()


def shannon(area, L):
    return round(area * L**2 / (4 * np.pi))


def mesh_shannon(region, K):
    return round(region.sum() / region.shape[0] * K)


def mesh_box(vertices, xmin, xmax, ymin, ymax, zmin, zmax):
    x, y, z = vertices[:, 0], vertices[:, 1], vertices[:, 2]
    return (x >= xmin) & (x <= xmax) & (y >= ymin) & (y <= ymax) & (z >= zmin) & (z <= zmax)


def mesh_masked(mesh, u_i):
    out = np.zeros(mesh.basis_functions.shape[0])
    f = np.zeros(mesh.basis_functions.shape[1])
    for i in range(mesh.basis_functions.shape[0]):
        f = f + u_i[i] * mesh.basis_functions[i]
    for i in range(mesh.basis_functions.shape[0]):
        out[i] = (np.where(mesh.mesh_region, f, 0) * mesh.basis_functions[i]).sum()
    return out


def faces_inside(faces, region):
    """1 for a face all of whose vertices are in the region"""
    out = np.zeros(faces.shape[0])
    for k in range(faces.shape[0]):
        if region[faces[k, 0]] and region[faces[k, 1]] and region[faces[k, 2]]:
            out[k] = 1
    return out
