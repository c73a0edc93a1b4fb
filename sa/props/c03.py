"""C03 A cached result's file name fixes everything the result depends on."""
import itertools
import math

from ..harness import *  # noqa: F403
from ..classes import params
from ..evalterm import EvalFail
from ..names import alphabet, cases, disjoint, fixes, holds, intersect, linear_in, name_at, readable, separates, shape, shown
from ..terms import fresh, simp
from .solve import *  # noqa: F403
from .c20 import files

FIX = "every input of the computation can be read back from the name of each file it stores or looks up, angles to the whole degree"
OWN = "no two kinds of computation, regions, masks or meshes share a file name"
IND = "an input that is not part of the name has no influence on what is stored"
ENV = {"NCPU"}


class Kind:
    """one computation: its inputs and the names it uses"""

    def __init__(self, name):
        self.name, self.inputs, self.names = name, [], []


def follow(rec, I, kind, call):
    """run the computation with nothing stored; collect the names asked for and written"""
    asked = []
    I.world = dict(I.world, exists=lambda p: (asked.append(p), ZERO)[1])
    st0, e0 = I.st.copy(), len(I.events)
    o = call(st0)
    rec.seen(I)
    if o.dead:
        rec.undecided(f"no computing run returns: {[(str(e.cls), str(e.args)[:80]) for _, e in o.raises]}", kind.name)
        return None
    for e in I.events[e0:]:
        if e["kind"] == "getenv" and isinstance(e.get("name"), str) and e["name"] not in ENV:
            rec.undecided(f"the environment variable {e['name']} is read", kind.name)
    names = []
    for p in asked + [e["pieces"] for e in I.events[e0:] if e["kind"] == "save"]:
        if p not in names:
            names.append(p)
    if not names:
        rec.undecided("no file is stored or looked up", kind.name)
        return None
    # inputs for which a name is formed at all; facts about the solution itself do not matter here
    kind.ctx = st0.ctx
    I.st = o.st
    kind.names = [cases(rec, I, o.st, SStr(p), kind.ctx) for p in names]
    kind.out = o
    return kind


def polar_kind(rec, gap, name=None):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    masks(I)
    th = theta(I)
    hook(I, POLAR + "._create_Dm_matrix", lambda I2, fn, a, k: I2.alloc(opq(I2, "Dm", (L, th, I2.bind(fn, a, k)["m"]), (L - I2.bind(fn, a, k)["m"],) * 2, "real")))
    k = Kind("polar gap" if gap == ONE else "polar cap")
    k.I, k.where = I, where_cls(I, POLAR)
    k.inputs = [("L", L, False), ("theta_max", th, True)]
    known(rec, I, POLAR, {"L", "theta_max", "order", "gap"}, k)
    return follow(rec, I, k, lambda st: run(I, POLAR, [L, th], {"gap": gap}, st))


def box_kind(rec):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    kw = box_setup(I, L, False)
    hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
    k = Kind("latitude/longitude box")
    k.I, k.where = I, where_cls(I, BOX)
    k.inputs = [("L", L, False)] + [(n, v, True) for n, v in kw.items()]
    known(rec, I, BOX, {"L", *kw}, k)
    return follow(rec, I, k, lambda st: run(I, BOX, [L], kw, st))


def mask_kind(rec, mask):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    mask_setup(I, L)
    hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
    k = Kind(f"arbitrary region {mask}")
    k.I, k.where = I, where_cls(I, MASK)
    k.inputs = [("L", L, False)]
    known(rec, I, MASK, {"L", "mask_name"}, k)
    return follow(rec, I, k, lambda st: run(I, MASK, [L], {"mask_name": mask}, st))


def land_kind(rec, mask, cls):
    from .c21 import earth, MM
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    earth(I, [])
    r = run(I, "sleplet.slepian.region.Region", [], {"mask_name": mask})
    I.st = r.st
    k = Kind(f"mask of {mask}" + (" (function)" if cls else ""))
    k.I = I
    k.inputs = [("L", L, False)]
    if cls:
        q = "sleplet.functions." + cls
        k.where = where_of(I, I.resolve(q))
        return follow(rec, I, k, lambda st: run(I, q, [L], {}, st))
    fn = private(rec, lambda: I.resolve(MM + "create_mask_region"))
    if fn is None:
        return None
    k.where = where_of(I, fn)
    return follow(rec, I, k, lambda st: run(I, fn, [L, r.value], {}, st))


def mesh_kind(rec, name):
    from .c29 import hook_config
    I = new("cold")
    hook_config(I, [])
    cls = I.resolve("sleplet.meshes.mesh.Mesh")
    K = nat("number_basis_functions")
    assume_ge(I, K - 1)
    k = Kind(f"basis of mesh {name}")
    k.I, k.where = I, where_of(I, cls)
    k.inputs = [("number_basis_functions", K, False)]
    known(rec, I, "sleplet.meshes.mesh.Mesh", {"name", "number_basis_functions", "zoom"}, k)
    return follow(rec, I, k, lambda st: run(I, cls, (name,), {"number_basis_functions": K}, st))


def mesh_slepian_kind(rec, name):
    I = new("cold")
    w = mesh_obj(I, name)
    hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
    k = Kind(f"Slepian functions of mesh {name}")
    k.I, k.where = I, where_cls(I, MESH)
    k.inputs = [("number of basis functions", w.K, False)]
    known(rec, I, MESH, {"mesh"}, k)
    return follow(rec, I, k, lambda st: run(I, MESH, [w.m], {}, st))


def known(rec, I, cls, names, k):
    """settings this analysis does not know may influence the result"""
    c = I.resolve(cls)
    # results that every solved problem carries are fields of the common base
    own = {f[0] for k2 in c.mro if getattr(k2, "name", "") == "SlepianFunctions" for f in k2.fields}
    extra = [n for n, _, _ in params(I, c) if n not in names and n not in own]
    if extra:
        rec.undecided(f"the setting {extra[0]} is not examined", f"{k.name}, settings", where=k.where)


KINDS = {
    "polar cap": lambda rec: polar_kind(rec, ZERO), "polar gap": lambda rec: polar_kind(rec, ONE), "latitude/longitude box": box_kind,
    "arbitrary region south_america": lambda rec: mask_kind(rec, "south_america"), "arbitrary region africa": lambda rec: mask_kind(rec, "africa"),
    "mask of south_america": lambda rec: land_kind(rec, "south_america", None), "mask of africa": lambda rec: land_kind(rec, "africa", None),
    "mask of south_america (function)": lambda rec: land_kind(rec, "south_america", "SouthAmerica"), "mask of africa (function)": lambda rec: land_kind(rec, "africa", "Africa"),
}
# the same mask on purpose
SHARED = [{"mask of south_america", "mask of south_america (function)", "arbitrary region south_america"}, {"mask of africa", "mask of africa (function)", "arbitrary region africa"}]


def obligations(c):
    from .c29 import offered
    meshes, _ = offered()
    for n, f in KINDS.items():
        c.ob(n, lambda rec, f=f: inputs(rec, f), FIX, limit=200)
    for n in meshes or ():
        c.ob(f"basis of mesh {n}", lambda rec, n=n: inputs(rec, lambda r: mesh_kind(r, n)), FIX)
        c.ob(f"Slepian functions of mesh {n}", lambda rec, n=n: inputs(rec, lambda r: mesh_slepian_kind(r, n)), FIX)
        c.ob(f"zoom of mesh {n}", lambda rec, n=n: zoom(rec, n), IND)
    c.ob("different computations", lambda rec: between(rec, meshes), OWN, limit=400)


def inputs(rec, make):
    k = make(rec)
    if k is None:
        return
    rec.where = k.where
    if k.I.incomplete:
        return rec.undecided(k.I.incomplete[0])
    for i, cs in enumerate(k.names):
        last = cs[0][1][-1] if cs and cs[0][1] else "?"
        tag = f"file {i + 1} (..{last})" if isinstance(last, str) else f"file {i + 1}"
        if any(t is None for _, t in cs):
            rec.undecided("text not modelled", tag)
            continue
        for n, v, angle in k.inputs:
            s = next(iter(next(iter(v.t))))[0]
            if angle:
                rounded(rec, k, cs, s, n, tag)
            else:
                separates(rec, cs, k.ctx, s, f"{n} in {tag}", k.where)


def degrees(I, s):
    return run(I, "spec.region.deg", [P(s)], st=I.st).value


def fixes_degree(I, tokens, s):
    want = degrees(I, s)
    for t in tokens:
        if isinstance(t, str) or not isinstance(t[0], Poly):
            continue
        if simp(t[0] - want, I.ctx) == ZERO and t[1] in ("", "d") or (linear_in(t[0], s) and t[1] == ""):
            return True
    return False


ANGLES = [x / 2 for x in range(0, 721)]


def rounded(rec, k, cs, s, what, tag):
    """angles that differ in whole degrees have different names"""
    I, sub = k.I, f"{what} in {tag}"
    bad = None
    for ctx, tokens in cs:
        if not fixes_degree(I, tokens, s):
            bad = f"{what} in degrees cannot be recovered from {shown(tokens)}"
        elif not readable(tokens):
            bad = f"the numbers in {shown(tokens)} are not separated"
    if bad is None:
        for (c1, t1), (c2, t2) in itertools.combinations(cs, 2):
            if intersect(t1, t2) and t1 != t2:
                bad = f"{shown(t1)} and {shown(t2)} can be the same text"
    if bad is None:
        return rec.proved(sub, where=k.where, detail=f"{len(cs)} cases")
    others = {}
    for n, v, angle in k.inputs:
        o = next(iter(next(iter(v.t))))[0]
        if o is not s:
            others[o] = angle
    grid = [{o: (x if not angle else math.radians(y)) for o, angle in others.items()} for x in (1, 2, 3) for y in (10.0, 40.0, 100.0)]
    grid += [{o: (1 if not angle else math.radians(17.0 + 31 * j)) for j, (o, angle) in enumerate(others.items())}]
    grid += [{o: (1 if not angle else math.radians(150.0 - 37 * j)) for j, (o, angle) in enumerate(others.items())}]
    for env in grid:
        seen = {}
        for d in ANGLES:
            e = dict(env)
            e[s] = math.radians(d)
            try:
                if not holds(k.ctx, e):
                    continue
                nm = name_at(cs, e)
            except EvalFail:
                continue
            # a whole degree apart at the least
            if nm in seen and d - seen[nm] >= 1:
                return rec.violation(f"{bad}: {what} of {seen[nm]} and of {d} degrees both give '{nm}'", sub, where=k.where)
            seen.setdefault(nm, d)
    return rec.undecided(bad, sub, where=k.where)


def zoom(rec, name):
    """the camera's zoom has no influence on the basis that is stored under the mesh's name"""
    from .c29 import hook_config
    I = new("cold")
    hook_config(I, [])
    cls = I.resolve("sleplet.meshes.mesh.Mesh")
    rec.where = where_of(I, cls)
    st0 = I.st.copy()
    got = []
    for z in (ZERO, ONE):
        e0 = len(I.events)
        o = run(I, cls, (name,), {"zoom": z}, st0)
        if o.dead:
            return rec.undecided("no construction returns")
        got.append((o, [e for e in I.events[e0:] if e["kind"] == "save"]))
    rec.seen(I)
    (a, x), (b, y) = got
    c = Cmp(rec, I, a.st, b.st, a.st.ctx)
    r = []
    for e in x:
        for f in y:
            if e["pieces"] == f["pieces"]:
                r += c.compare(e["value"], f["value"], "stored array")
    if not r:
        return rec.proved(detail="different names") if x and y else rec.undecided("nothing is stored")
    settle(rec, r, incomplete=I.incomplete)


def between(rec, meshes):
    kinds = []
    for n, f in KINDS.items():
        k = f(rec)
        if k:
            kinds.append(k)
    for n in meshes or ():
        for f in (mesh_kind, mesh_slepian_kind):
            k = f(rec, n)
            if k:
                kinds.append(k)
    flat = [(k, i, [(None, shape(t)) for _, t in cs]) for k in kinds for i, cs in enumerate(k.names)]
    pairs = bad = 0
    for (k, i, a), (l, j, b) in itertools.combinations(flat, 2):
        pairs += 1
        if k is not l and any({k.name, l.name} <= s for s in SHARED) and a == b:
            continue
        if k is l and a == b:
            continue
        bad += not disjoint(rec, a, b, f"{k.name} / {l.name}", l.where, f"{k.name} and {l.name}" if k is not l else f"two files of the {k.name}", quiet=True)
    if not bad:
        rec.proved(detail=f"{len(kinds)} computations, {len(flat)} names, {pairs} pairs")
