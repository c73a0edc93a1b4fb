"""Shared by C14 and C22: the Slepian constructions with nothing cached."""
from ..harness import *  # noqa: F403
from ..models import pi_, opq
from .c20 import files
from .c02 import where_cls

POLAR = "sleplet.slepian.slepian_polar_cap.SlepianPolarCap"
BOX = "sleplet.slepian.slepian_limit_lat_lon.SlepianLimitLatLon"
MASK = "sleplet.slepian.slepian_arbitrary.SlepianArbitrary"
MESH = "sleplet.meshes.mesh_slepian.MeshSlepian"


def masks(I):
    """the region's mask is any real array on the sampling grid"""
    def mask(I2, fn, a, k):
        b = I2.bind(fn, a, k)
        nt, np_ = run(I2, SPEC + ".sphere.shape", [b["L"]]).value
        return arr(I2, "mask", nt, np_, dt="bool")
    hook(I, "sleplet._mask_methods.create_mask_region", mask)


def theta(I, name="theta_max"):
    th = real(name, True)
    assume(I, b_not(b_eq(th)), b_not(b_eq(th - pi_())), b_lt(th - pi_()))
    assume_ge(I, pi_() - th)
    return th


def polar(I, L, order=None, gap=ZERO, matrix=True):
    masks(I)
    th = theta(I)
    if matrix:
        def dm(I2, fn, a, k):
            m = I2.bind(fn, a, k)["m"]
            return I2.alloc(opq(I2, "Dm", (L, th, m), (L - m, L - m), "real"))
        hook(I, POLAR + "._create_Dm_matrix", dm)
    kw = {"gap": gap}
    if order is not None:
        kw["order"] = order
    return run(I, POLAR, [L, th], kw), th


def box_setup(I, L, edge=None):
    """angles anywhere in range; edge: False strictly inside, True with the largest angles at the ends of their ranges"""
    masks(I)
    hook(I, BOX + "._create_K_matrix", lambda I2, fn, a, k: I2.alloc(opq(I2, "K", (L,), (L * L, L * L), "complex")))
    ths = [real(k, True) for k in ("theta_min", "theta_max", "phi_min", "phi_max")]
    a, b, c, d = ths
    assume_ge(I, pi_() - a, pi_() - b, pi_() * 2 - c, pi_() * 2 - d)
    assume(I, b_not(b_eq(a)))
    if edge is not None:
        assume(I, b_lt(a - pi_()), b_lt(c - pi_() * 2))
        if edge:
            b, d = pi_(), pi_() * 2
        else:
            assume(I, b_lt(b - pi_()), b_lt(d - pi_() * 2))
    return {"theta_min": a, "theta_max": b, "phi_min": c, "phi_max": d}


def box(I, L):
    return run(I, BOX, [L], box_setup(I, L))


def mask_setup(I, L, matrix=True):
    files(I)
    masks(I)
    if matrix:
        hook(I, MASK + "._create_D_matrix", lambda I2, fn, a, k: I2.alloc(opq(I2, "D", (L,), (L * L, L * L), "complex")))


def mask_region(I, L, matrix=True):
    mask_setup(I, L, matrix)
    return run(I, MASK, [L], {"mask_name": "south_america"})


def solved(I, kind):
    """the eigenproblem events of the run"""
    return [e for e in I.events if e["kind"] == "eigh"]
