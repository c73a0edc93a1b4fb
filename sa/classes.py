"""Symbolic construction of the library's registered signal classes."""
from .harness import *  # noqa: F403
from .values import ObjRef, Special


def registered(I, *lists):
    """the classes of the library's own registries"""
    out = []
    for n in lists:
        v = I.resolve("sleplet._class_lists." + n)
        out += [c for c in I.st.heap[v.lid].items if c not in out]
    return out


def params(I, cls):
    """[(name, annotation, default given)] of the constructor"""
    out = []
    for n, ann, d, kw, owner in I.class_fields(cls):
        if isinstance(d, Special) and d.kind == "fieldspec" and ZERO in (d.data.get("init_var"), d.data.get("init")):
            continue
        if n.startswith("_") or "KW_ONLY" in str(ann):
            continue
        out.append((n, str(ann), d is not ...))
    return out


def continent(cls):
    for k, v in (("SouthAmerica", "south_america"), ("Africa", "africa")):
        if cls.name.endswith(k):
            return v
    return None


def is_slepian(cls):
    return any(b.name == "Fp" for b in cls.mro if hasattr(b, "name"))


def is_mesh(cls):
    return any(b.name == "MeshCoefficients" for b in cls.mro if hasattr(b, "name"))


class Built:
    pass


def setup(I, cls, region_name=None):
    """the surroundings of a class: a solved problem or a mesh; data files"""
    b = Built()
    b.cls = cls
    b.values = {}
    b.L = nat("L")
    assume_ge(I, b.L - 1)
    if is_mesh(cls):
        b.w = mesh_obj(I)
        b.ws = mesh_slepian_obj(I, b.w)
    else:
        name = region_name or continent(cls) or "the_region"
        b.w = slepian_obj(I, b.L, region=region_obj(I, name=name))
    return b


def value_for(b, name, ann, I):
    """a symbolic value for a constructor parameter (None: leave it out)"""
    if name == "L":
        return b.L
    if name == "mesh":
        return b.w.m
    if name == "mesh_slepian":
        return b.ws.ms
    if name == "region":
        return b.w.region if "Region" in ann else None
    if ann.startswith("bool"):
        return S(name, "int", True)
    if ann.startswith("int"):
        return S(name, "int", True)
    if ann.startswith("float"):
        return real(name)
    return None



def data(I):
    """stand-ins for the bundled data"""
    def earth(I2, fn, a, k):
        e = I2.bind(fn, a, k)
        return arr(I2, "earth_flm", P(e["L"]) * P(e["L"]))
    hook(I, "sleplet._data.create_earth_flm.create_flm", earth)


def build(I, cls, given=(), over=None, region_name=None):
    """construct cls with symbolic values for L / mesh / region and the named parameters"""
    b = setup(I, cls, region_name)
    data(I)
    args, kw = [], {}
    for n, ann, has in params(I, cls):
        if over and n in over:
            v = over[n]
        elif not has or n in given or (n == "region" and is_slepian(cls) and "Region" in ann):
            v = value_for(b, n, ann, I)
        else:
            continue
        kw[n] = v
        b.values[n] = v
    assume_domain(I, b)
    b.kw = kw
    b.st0 = I.st.copy()
    b.out = run(I, cls, args, kw)
    return b


def assume_domain(I, b):
    v = b.values
    if "B" in v:
        assume_ge(I, P(v["B"]) - 2)
    if "ell" in v:
        assume_ge(I, b.L - 1 - P(v["ell"]))
        if isinstance(v.get("m"), Poly):
            assume_ge(I, P(v["ell"]) - v["m"])
