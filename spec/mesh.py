"""Reference definitions on meshes."""
import igl
import numpy as np


def forward(mesh, u):
    out = np.zeros(mesh.basis_functions.shape[0])
    for i in range(mesh.basis_functions.shape[0]):
        out[i] = (u * mesh.basis_functions[i]).sum()
    return out


def inverse(mesh, u_i):
    out = np.zeros(mesh.basis_functions.shape[1])
    for i in range(mesh.basis_functions.shape[0]):
        out = out + u_i[i] * mesh.basis_functions[i]
    return out


def slepian_pixels(ms):
    out = np.zeros((ms.N, ms.mesh.vertices.shape[0]))
    for p in range(ms.N):
        out[p] = inverse(ms.mesh, ms.slepian_functions[p])
    return out


def slepian_inverse(ms, f_p):
    out = np.zeros(ms.mesh.vertices.shape[0])
    for p in range(ms.N):
        out = out + f_p[p] * inverse(ms.mesh, ms.slepian_functions[p])
    return out


def forward_harmonic(ms, u_i, n):
    out = np.zeros(ms.N if n is None else n)
    for p in range(ms.N if n is None else n):
        out[p] = (u_i * ms.slepian_functions[p]).sum()
    return out


def forward_mesh(ms, u, n):
    out = np.zeros(ms.N if n is None else n)
    for p in range(ms.N if n is None else n):
        out[p] = (u * inverse(ms.mesh, ms.slepian_functions[p])).sum()
    return out


def forward_region(ms, u, n):
    out = np.zeros(ms.N if n is None else n)
    for p in range(ms.N if n is None else n):
        out[p] = (u * inverse(ms.mesh, ms.slepian_functions[p]) * ms.mesh.mesh_region).sum() / ms.slepian_eigenvalues[p]
    return out


def read(path, times):
    vertices, faces = igl.read_triangle_mesh(path)
    return igl.upsample(vertices, faces, times)
