"""C25 Every registered signal and mesh is reachable and the options take effect."""
import ast
import glob
import os
import re

from ..harness import *  # noqa: F403
from ..classes import assume_domain, data, is_mesh, is_slepian, params, registered, setup
from ..cli import Cli
from .c01 import REGION
from .c29 import listing
from .c31 import entry_points, root

REACH = "every public class is offered by the command under its snake-case name, and that name builds exactly that class"
OPTION = "the option reaches the computation it names; omitted, its documented default does"
EXTRA = "the extra arguments set the parameters of the class in the documented order"
FILES = "every bundled mesh is offered, and every offered mesh has its files"

WAV = ["B", "j_min", "j"]
ORDER = {
    "AxisymmetricWaveletCoefficientsAfrica": WAV, "AxisymmetricWaveletCoefficientsEarth": WAV, "AxisymmetricWaveletCoefficientsSouthAmerica": WAV,
    "AxisymmetricWavelets": WAV, "ElongatedGaussian": ["10^t_sigma", "10^p_sigma"], "Gaussian": ["10^sigma"],
    "HarmonicGaussian": ["10^l_sigma", "10^m_sigma"], "NoiseEarth": ["SNR"], "Ridgelets": ["B", "j_min", "spin", "j"], "Slepian": ["rank"],
    "SlepianNoiseAfrica": ["SNR"], "SlepianNoiseSouthAmerica": ["SNR"], "SlepianWaveletCoefficientsAfrica": WAV,
    "SlepianWaveletCoefficientsSouthAmerica": WAV, "SlepianWavelets": WAV, "SphericalHarmonic": ["ell", "m"],
    "SquashedGaussian": ["10^t_sigma", "10^freq"], "MeshBasisFunctions": ["rank"], "MeshNoiseField": ["SNR"], "MeshSlepianFunctions": ["rank"],
    "MeshSlepianNoiseField": ["SNR"], "MeshSlepianWaveletCoefficients": WAV, "MeshSlepianWavelets": WAV,
}
SPHERE, MESH = "sphere", "mesh"


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


# ---------------------------------------------------------------- the public classes
def concrete(I, cls):
    names = {}
    for c in reversed([k for k in cls.mro if hasattr(k, "ns")]):
        names.update(c.ns)
    return not any("abc.abstractmethod" in getattr(v, "deco", ()) for v in names.values())


def public(I, kind):
    """the concrete classes the package offers, by its exports and by its modules"""
    pkg = "functions" if kind == SPHERE else "meshes"
    base = "Coefficients" if kind == SPHERE else "MeshCoefficients"
    out = {}
    for f in sorted(glob.glob(os.path.join(root(), "src", "sleplet", pkg, "*.py"))):
        mod = f"sleplet.{pkg}." + os.path.basename(f)[:-3]
        if mod.endswith("__init__"):
            mod = mod[:-9]
        I.load(mod)
        with open(f) as fh:
            tree = ast.parse(fh.read())
        names = [n.name for n in tree.body if isinstance(n, ast.ClassDef)]
        if mod.endswith(pkg):
            names = [a.asname or a.name for n in tree.body if isinstance(n, ast.ImportFrom) for a in n.names]
        for n in names:
            if n.startswith("_"):
                continue
            c = I.resolve(f"{mod}.{n}")
            if hasattr(c, "mro") and any(getattr(b, "name", "") == base for b in c.mro) and concrete(I, c):
                out.setdefault(c.name, c)
    return out


# ---------------------------------------------------------------- the surroundings of one command
class Run:
    pass


def positional(I, cls):
    return [x[0] for x in I.class_fields(cls) if not x[3]]


def bound_args(I, cls, a, k):
    d = dict(zip(positional(I, cls), a))
    d.update(k)
    return d


def stand_in(I, cls, L, r, label, unnoised=None):
    """building cls gives an object of known coefficients; what it was built with is kept"""
    key = cls.name
    if is_slepian(cls):
        if not hasattr(r, "sw"):
            r.sw = slepian_obj(I, L)
        co = arr(I, f"{label}_coefficients", r.sw.N)
        un = arr(I, f"{label}_unnoised", r.sw.N) if unnoised else None
        o = obj(I, cls, L=L, slepian=r.sw.s, region=r.sw.region, coefficients=co, name=f"{label}_name", reality=ZERO, spin=ZERO, noise=None,
                smoothing=None, extra_args=None, _unnoised_coefficients=un)
    else:
        co = arr(I, f"{label}_coefficients", L * L)
        un = arr(I, f"{label}_unnoised", L * L) if unnoised else None
        o = obj(I, cls, L=L, region=None, coefficients=co, name=f"{label}_name", reality=ONE, spin=ZERO, noise=None, smoothing=None,
                extra_args=None, _unnoised_coefficients=un)
    r.objs[key] = o
    r.coeffs[key] = co
    r.un[key] = un

    def mk(I2, c, a, k):
        b = bound_args(I2, c, a, k)
        r.made.append((c, b))
        if not is_slepian(c) and b.get("region") is not None:
            x = I2.st.heap[o.oid]
            I2.st.heap[o.oid] = type(x)(x.cls, dict(x.fields, region=b["region"]), x.info)
        return o
    hook(I, f"{cls.mod}.{cls.name}", mk)


def method(I, cls, name):
    for k in cls.mro:
        f = getattr(k, "ns", {}).get(name)
        if f is not None:
            return f.qual
    raise Anchor(f"{cls.name}.{name}")


def begin(rec, kind):
    I = new("cold")
    listing(I)
    ent = entry_points().get(kind)
    if ent is None:
        rec.violation(f"there is no command '{kind}'", where="pyproject.toml")
        return None, None
    ent = ent.replace(":", ".")
    rec.where = where_of(I, I.resolve(ent)) or rec.where
    cl = Cli(I, ent)
    if cl.problem:
        rec.undecided(cl.problem)
        return None, None
    return I, cl


def choice_class(I, cl, kind, cls, name):
    return snake(cls.name if kind == SPHERE else cls.name.removeprefix("Mesh"))


def command(rec, kind, cls=None, given=None, other=None, unnoised=False, amplitude=True, label="f", follow=True):
    """follow one command line; given: {flag: value}"""
    I, cl = begin(rec, kind)
    if I is None:
        return None
    r = Run()
    r.I, r.cl = I, cl
    r.made, r.objs, r.coeffs, r.un, r.plots, r.done, r.moves, r.earth, r.meshes, r.amps, r.regions = [], {}, {}, {}, [], [], [], [], [], [], []
    given = dict(given or {})
    reg = registered(I, "COEFFICIENTS" if kind == SPHERE else "MESH_COEFFICIENTS")
    pub = public(I, kind)
    r.cls = pub[cls]
    r.L = given.get("--bandlimit")
    if kind == SPHERE:
        if r.L is None:
            r.L = nat("L")
            assume_ge(I, r.L - 1)
        for c in reg:
            stand_in(I, c, r.L, r, label if c is r.cls else snake(c.name), unnoised)
    else:
        r.mw = mesh_obj(I)
        mesh_slepian_obj(I, r.mw)
        mc = I.resolve("sleplet.meshes.Mesh")

        def mkmesh(I2, c, a, k):
            r.meshes.append(bound_args(I2, c, a, k))
            return r.mw.m
        hook(I, f"{mc.mod}.{mc.name}", mkmesh)
        for c in reg:
            mesh_stand_in(I, c, r, unnoised)
    pq = I.resolve("sleplet.plotting." + ("PlotSphere" if kind == SPHERE else "PlotMesh"))

    def mkplot(I2, c, a, k):
        d = bound_args(I2, c, a, k)
        r.plots.append((d, dict(I2.st.heap[r.objs[r.cls.name].oid].fields)))
        return obj(I2, c, **d)
    hook(I, f"{pq.mod}.{pq.name}", mkplot)
    hook(I, method(I, pq, "execute"), lambda I2, fn, a, k: r.done.append(a[0]))
    r.amp = real("the_amplitude", True)
    if amplitude:
        def amp(I2, fn, a, k):
            r.amps.append(a[0] if a else None)
            return r.amp
        hook(I, "sleplet.plot_methods.compute_amplitude_for_noisy_" + ("sphere" if kind == SPHERE else "mesh") + "_plots", amp)
    if kind == SPHERE:
        for what in ("rotate", "translate"):
            def mv(I2, fn, a, k, what=what):
                e = I2.bind(fn, a, k)
                o = arr(I2, what + "d", *I2.getattr(r.coeffs[r.cls.name], "shape"))
                r.moves.append((what, e, o))
                if what == "translate":
                    I2.setattr(a[0], "reality", ZERO)
                return o
            hook(I, method(I, r.cls, what), mv)
        for what in ("africa", "south_america"):
            def view(I2, fn, a, k, what=what):
                e = list(I2.bind(fn, a, k).values())
                o = arr(I2, "seen_from_" + what, r.L * r.L)
                r.earth.append((what, {"flm": e[0], "L": e[1]}, o))
                return o
            hook(I, f"sleplet.harmonic_methods.rotate_earth_to_{what}", view)
        rc = I.resolve(REGION)
        r.reg = region_obj(I)

        def mkreg(I2, c, a, k):
            r.regions.append(bound_args(I2, c, a, k))
            return r.reg
        hook(I, f"{rc.mod}.{rc.name}", mkreg)
    ns = {}
    fo = cl.by_dest("function") or next((o for o in cl.opts if o.positional), None)
    if fo is None:
        rec.violation("the command takes no function", "function")
        return None
    if kind == SPHERE:
        ns[fo.dest] = snake(cls)
        ns_l = cl.by_flag("--bandlimit")
        if ns_l is not None and given.get("--bandlimit", 0) is not None:
            ns[ns_l.dest] = r.L
    else:
        ns[fo.dest] = given.pop("mesh", "homer")
        mo = cl.by_flag("--method")
        if mo is None:
            rec.violation("there is no option --method", "--method")
            return None
        ns[mo.dest] = snake(cls.removeprefix("Mesh"))
    for f, v in given.items():
        o = cl.by_flag(f)
        if o is None:
            rec.violation(f"there is no option {f}", f)
            return None
        ns[o.dest] = v
    if not follow:
        r.ns = ns
        return r
    r.st0 = I.st.copy()
    r.o, r.vals = cl.run(ns)
    rec.seen(I)
    rec.c.paths += 1 + len(r.o.raises)
    r.rc = r.o.raise_cond()
    r.inc = list(I.incomplete)
    return r


def mesh_stand_in(I, cls, r, unnoised):
    sl = any(n == "mesh_slepian" for n, *_ in I.class_fields(cls)) or any(getattr(b, "name", "") == "MeshSlepianCoefficients" for b in cls.mro)
    n = r.mw.N if sl else r.mw.K
    co = arr(I, f"{snake(cls.name)}_coefficients", n)
    un = arr(I, f"{snake(cls.name)}_unnoised", n) if unnoised else None
    f = dict(mesh=r.mw.m, coefficients=co, name=f"{snake(cls.name)}_name", noise=None, region=ZERO, extra_args=None, _unnoised_coefficients=un)
    if sl:
        f["mesh_slepian"] = r.mw.ms
    o = obj(I, cls, **f)
    r.objs[cls.name], r.coeffs[cls.name], r.un[cls.name] = o, co, un

    def mk(I2, c, a, k):
        r.made.append((c, bound_args(I2, c, a, k)))
        return o
    hook(I, f"{cls.mod}.{cls.name}", mk)


def drawn(rec, r, sub=""):
    """the figure the command draws (None: reported)"""
    bad = simp(r.rc, r.st0.ctx)
    if r.o.st is None or bad != ZERO:
        e = next((x for _, x in r.o.raises), None)
        why = f"{getattr(e, 'cls', '')} {' '.join(str(x) for x in getattr(e, 'args', ())[:1])} at {getattr(e, 'loc', '')}"
        if r.inc:
            rec.undecided(f"not followed: {r.inc[0]}", sub)
        elif r.o.st is None:
            rec.violation(f"the command does not draw: it raises {why}", sub)
        else:
            rec.undecided(f"may raise: {why}", sub)
        return None
    if len(r.plots) != 1 or len(r.done) != 1:
        (rec.undecided if r.inc or len(r.plots) > 1 else rec.violation)(f"{len(r.plots)} figures prepared, {len(r.done)} drawn", sub)
        return None
    accepted(rec, r, sub)
    return r.plots[0][0]


def accepted(rec, r, sub):
    """the figure can hold what it is given: pydantic refuses a value that the declared type cannot hold"""
    d = r.plots[0][0]
    I = r.I
    cls = I.resolve("sleplet.plotting." + ("PlotSphere" if "L" in d else "PlotMesh"))
    st, I.st = I.st, r.o.st
    try:
        for n, ann, _, _, owner in I.class_fields(cls):
            if n in d and I.is_pydantic(cls) and ann and I.type_refuses(ast.parse(ann, mode="eval").body, d[n], owner):
                rec.violation(f"{cls.name} declares {n}: {ann}, which refuses what the command passes", f"{sub} accepted {n}".strip(),
                              where=where_of(I, I.resolve("sleplet.plotting." + cls.name)))
            elif n in d:
                rec.proved(f"{sub} accepted {n}".strip())
    finally:
        I.st = st


def same(rec, r, got, want, what, sub=None):
    if got is None:
        return identical(rec, r, got, want, sub or what)
    settle(rec, Cmp(rec, r.I, r.o.st, r.o.st, r.st0.ctx).compare(got, want, what), sub or what, rec.where, r.inc)


def identical(rec, r, got, want, what):
    """the very same object"""
    if got == want:
        rec.proved(what)
    elif r.inc:
        rec.undecided(f"{what}: {r.inc[0]}", what)
    else:
        rec.violation(f"{what}: got {got!r}, expected {want!r}", what)


def field_of(rec, r, got, spec, args, what):
    I = r.I
    st = r.o.st
    inc = len(I.incomplete)
    b = run(I, I.resolve(SPEC + "." + spec), args, {}, st)
    inc2 = ["reference: " + x for x in I.incomplete[inc:]]
    settle(rec, Cmp(rec, I, st, b.st, r.st0.ctx).compare(got, b.value, what), what, rec.where, r.inc + inc2)


def coefficients_field(rec, r, d, co, what, reality=None):
    if is_slepian(r.cls):
        field_of(rec, r, d.get("f"), "sphere.slepian_inverse", [co, r.L, r.sw.s], what)
    else:
        field_of(rec, r, d.get("f"), "sphere.inverse", [co, r.L, ONE if reality is None else reality, ZERO], what)


# ---------------------------------------------------------------- obligations
def obligations(c):
    I = new("cold")
    for kind in (SPHERE, MESH):
        c.ob(f"classes offered by '{kind}'", lambda rec, kind=kind: offered(rec, kind), REACH)
        for n in public(I, kind):
            c.ob(f"'{kind}' builds {n}", lambda rec, kind=kind, n=n: builds(rec, kind, n), REACH)
    c.ob("bundled meshes", mesh_files, FILES)
    for kind in (SPHERE, MESH):
        c.ob(f"validation of the choices of '{kind}'", lambda rec, kind=kind: validators(rec, kind), "every offered choice is accepted by the option's own validation")
    c.ob("documented defaults of 'sphere'", sphere_defaults, OPTION)
    c.ob("documented defaults of 'mesh'", mesh_defaults, OPTION)
    sphere_options(c)
    mesh_options(c)
    for cls in registered(I, "COEFFICIENTS", "MESH_COEFFICIENTS"):
        if cls.name in ORDER:
            c.ob(f"extra arguments of {cls.name}", lambda rec, q=f"{cls.mod}.{cls.name}", n=cls.name: extra(rec, q, n), EXTRA)
    for kind in ("harmonic", "slepian", "mesh", "mesh_slepian"):
        c.ob(f"amplitude of a noisy plot ({kind})", lambda rec, kind=kind: amplitude(rec, kind), "the colour range of a noisy plot is that of the signal without noise")


def offered(rec, kind):
    I, cl = begin(rec, kind)
    if I is None:
        return
    pub = public(I, kind)
    o = (cl.by_dest("function") if kind == SPHERE else cl.by_flag("--method"))
    if o is None or o.choices is None:
        rec.undecided("choices not followed")
        return
    rec.seen(I)
    w = o.loc if isinstance(o.loc, str) else rec.where
    for n, cls in sorted(pub.items()):
        s = choice_class(I, cl, kind, cls, n)
        if s not in o.choices:
            rec.violation(f"{n} is not offered (as {s})", n)
        elif o.choices.count(s) > 1:
            rec.violation(f"{s} is offered twice", n)
        else:
            rec.proved(n)
    extra_ = [x for x in o.choices if x not in {choice_class(I, cl, kind, k, n) for n, k in pub.items()}]
    for x in extra_:
        rec.violation(f"{x} is offered but is no public class", x)
    lst = registered(I, "COEFFICIENTS" if kind == SPHERE else "MESH_COEFFICIENTS")
    for k in lst:
        if k.name not in pub:
            rec.violation(f"{k.name} is registered but not exported", k.name + " exported")
    exported(rec, I, kind, pub)


def exported(rec, I, kind, pub):
    pkg = "sleplet." + ("functions" if kind == SPHERE else "meshes")
    for n, cls in pub.items():
        try:
            c = I.resolve(f"{pkg}.{n}")
        except Anchor:
            rec.violation(f"{pkg} does not export {n}", n + " exported")
            continue
        (rec.proved if c is cls else rec.violation)(*(() if c is cls else (f"{pkg}.{n} is another class",)), n + " exported")


def builds(rec, kind, n):
    r = command(rec, kind, n)
    if r is None:
        return
    d = drawn(rec, r)
    if d is None:
        return
    if len(r.made) != 1:
        (rec.undecided if r.inc else rec.violation)(f"{len(r.made)} signals built: {', '.join(k.name for k, _ in r.made)}")
        return
    k, a = r.made[0]
    if k is not r.cls:
        rec.violation(f"{choice_class(r.I, r.cl, kind, r.cls, n)} builds {k.name}", "class")
        return
    rec.proved("class", detail=k.name)
    st = r.o.st
    if kind == SPHERE:
        same(rec, r, a.get("L"), r.L, "bandlimit")
        for x in ("extra_args", "noise", "smoothing", "region"):
            identical(rec, r, a.get(x), None, f"{x} omitted")
        coefficients_field(rec, r, d, r.coeffs[n], "field drawn")
        same(rec, r, d.get("L"), r.L, "bandlimit of the figure")
        identical(rec, r, d.get("region"), r.sw.region if is_slepian(r.cls) else None, "region of the figure")
        same(rec, r, d.get("reality", ZERO), ZERO if is_slepian(r.cls) else ONE, "reality of the figure")
    else:
        identical(rec, r, a.get("mesh"), r.mw.m, "mesh of the signal")
        for x in ("extra_args", "noise"):
            identical(rec, r, a.get(x), None, f"{x} omitted")
        sl = "mesh_slepian" in st.heap[r.objs[n].oid].fields
        if sl:
            field_of(rec, r, d.get("f"), "mesh.slepian_inverse", [r.mw.ms, r.coeffs[n]], "field drawn")
        else:
            field_of(rec, r, d.get("f"), "mesh.inverse", [r.mw.m, r.coeffs[n]], "field drawn")
        identical(rec, r, d.get("mesh"), r.mw.m, "mesh of the figure")
        same(rec, r, d.get("region", ZERO), ONE if sl else ZERO, "only Slepian fields are cut to the region")


def mesh_files(rec):
    I, cl = begin(rec, MESH)
    if I is None:
        return
    o = cl.by_dest("function")
    if o is None or o.choices is None:
        rec.undecided("choices not followed")
        return
    d = os.path.join(root(), "src", "sleplet", "_data")
    off = {os.path.basename(f)[len("meshes_polygons_"):-4] for f in glob.glob(os.path.join(d, "meshes_polygons_*.off"))}
    toml = {os.path.basename(f)[len("meshes_regions_"):-5] for f in glob.glob(os.path.join(d, "meshes_regions_*.toml"))}
    for n in sorted(off | toml | set(o.choices)):
        if n not in o.choices:
            rec.violation(f"the bundled mesh {n} is not offered", n)
        elif n not in off or n not in toml:
            rec.violation(f"the mesh {n} is offered but a file of it is missing", n)
        else:
            rec.proved(n)


def validators(rec, kind):
    I, cl = begin(rec, kind)
    if I is None:
        return
    for o in cl.opts:
        if not o.choices:
            continue
        name = max(o.flags, key=len)
        vals = list(o.choices)
        for which in ("default", "const"):
            v = o.kw.get(which)
            if isinstance(v, str):
                if v not in o.choices:
                    rec.violation(f"the {which} {v!r} of {name} is not one of its choices", f"{name} {which}")
                else:
                    rec.proved(f"{name} {which}")
        if o.kw.get("default") is not None and "const" in o.kw:
            if o.kw["const"] != o.kw["default"]:
                rec.violation(f"{name} without a value means {o.kw['const']!r}, its default is {o.kw['default']!r}", f"{name} without value")
            else:
                rec.proved(f"{name} without value")
        if o.type is None or not hasattr(o.type, "node"):
            continue
        for v in vals:
            st = I.st.copy()
            q = run(I, o.type, [v], {}, st)
            rec.seen(I)
            if q.st is None or simp(q.raise_cond(), st.ctx) == ONE:
                rec.violation(f"{name} offers {v!r} but refuses it", f"{name} {v}")
            elif isinstance(q.value, str) and q.value != v:
                rec.violation(f"{name} turns {v!r} into {q.value!r}", f"{name} {v}")
            else:
                rec.proved(f"{name} {v}")


def value_of(rec, r, d, key, want, what):
    """the figure's argument is the value (its own default when left out)"""
    cls = r.I.resolve("sleplet.plotting." + ("PlotSphere" if "L" in d else "PlotMesh"))
    dflt = {x[0]: x[2] for x in r.I.class_fields(cls)}
    got = d[key] if key in d else r.I.default_value(dflt[key])
    if isinstance(want, Poly) and isinstance(got, Poly):
        same(rec, r, got, want, what)
    else:
        identical(rec, r, got, want, what)


def items(I, st, v):
    if v is None:
        return []
    return list(st.heap[v.lid].items) if hasattr(v, "lid") else list(v)


def sphere_defaults(rec):
    r = command(rec, SPHERE, "Gaussian", {"--bandlimit": P(16)}, follow=False)
    if r is None:
        return
    del r.ns[r.cl.by_flag("--bandlimit").dest]
    r.st0 = r.I.st.copy()
    r.o, r.vals = r.cl.run(r.ns)
    r.rc, r.inc = r.o.raise_cond(), list(r.I.incomplete)
    rec.seen(r.I)
    d = drawn(rec, r)
    if d is None:
        return
    if len(r.made) == 1:
        same(rec, r, r.made[0][1].get("L"), P(16), "bandlimit 16")
    same(rec, r, d.get("L"), P(16), "bandlimit 16 of the figure")
    value_of(rec, r, d, "plot_type", "real", "real part")
    value_of(rec, r, d, "normalise", ONE, "normalised")
    value_of(rec, r, d, "upsample", ONE, "upsampled")
    identical(rec, r, [m[0] for m in r.moves], [], "not rotated or translated")
    for method_, names in (("rotate", ("alpha", "beta", "gamma")), ("translate", ("alpha", "beta"))):
        r = command(rec, SPHERE, "Gaussian", {"--method": method_})
        if r is None or drawn(rec, r, method_) is None:
            continue
        if [m[0] for m in r.moves] != [method_]:
            rec.violation(f"--method {method_} does {[m[0] for m in r.moves]}", method_)
            continue
        moved(rec, r, method_, num_(3, 4), num_(1, 8), ZERO, "documented angles")
    r = command(rec, SPHERE, "Earth", label="earth")
    if r is not None and drawn(rec, r, "view") is not None:
        identical(rec, r, [e[0] for e in r.earth], ["south_america"], "view of the Earth")


def num_(a, b):
    from fractions import Fraction

    return P(Fraction(a, b))


def moved(rec, r, what, al, be, ga, tag):
    e = r.moves[0][1]
    I = r.I
    g = run(I, I.resolve(SPEC + ".cli.grid_point"), [r.L, al, be], {}, r.o.st)
    a2, b2 = g.value
    for n, got, want in (("alpha", e.get("alpha"), a2), ("beta", e.get("beta"), b2)):
        settle(rec, Cmp(rec, I, r.o.st, g.st, r.st0.ctx).compare(got, want, n), f"{what}: {n}, {tag}", rec.where, r.inc)
    if what == "rotate":
        from ..models import pi_
        same(rec, r, e.get("gamma"), ga * pi_(), "gamma", f"{what}: gamma, {tag}")


def mesh_defaults(rec):
    r = command(rec, MESH, "MeshBasisFunctions", follow=False)
    if r is None:
        return
    del r.ns[r.cl.by_flag("--method").dest]
    r.st0 = r.I.st.copy()
    r.o, r.vals = r.cl.run(r.ns)
    r.rc, r.inc = r.o.raise_cond(), list(r.I.incomplete)
    rec.seen(r.I)
    d = drawn(rec, r)
    if d is None:
        return
    identical(rec, r, [k.name for k, _ in r.made], ["MeshBasisFunctions"], "basis functions")
    value_of(rec, r, d, "normalise", ONE, "normalised")
    if len(r.meshes) == 1:
        identical(rec, r, r.meshes[0].get("name"), "homer", "mesh")
        same(rec, r, r.meshes[0].get("zoom", ZERO), ZERO, "not zoomed")
        identical(rec, r, r.meshes[0].get("number_basis_functions"), None, "default number of basis functions")
    if len(r.made) == 1:
        same(rec, r, r.made[0][1].get("region", ZERO), ZERO, "not masked")


def sphere_options(c):
    both = ("Gaussian", "SlepianSouthAmerica")

    def ob(name, f):
        c.ob(f"sphere {name}", f, OPTION)

    def given(rec, cls, opts, **kw):
        r = command(rec, SPHERE, cls, opts, **kw)
        if r is None:
            return None, None
        d = drawn(rec, r)
        return (r, d) if d is not None else (None, None)

    for cls in both:
        for flag, field in (("--noise", "noise"), ("--smoothing", "smoothing")):
            def f(rec, cls=cls, flag=flag, field=field):
                v = S("given", "int")
                r, d = given(rec, cls, {flag: v})
                if r:
                    for k, a in r.made:
                        same(rec, r, a.get(field), v, field)
                r, d = given(rec, cls, {flag: ZERO})
                if r:
                    for k, a in r.made:
                        same(rec, r, a.get(field), ZERO, f"{field} 0")
            ob(f"{flag} ({cls})", f)

        def f(rec, cls=cls):
            v = [S("x0"), S("x1"), S("x2")]
            r = command(rec, SPHERE, cls, {}, follow=False)
            if r is None:
                return
            o = r.cl.by_flag("--extra_args")
            if o is None:
                rec.violation("there is no option --extra_args", "--extra_args")
                return
            r.ns[o.dest] = r.I.new_list(v)
            r.st0 = r.I.st.copy()
            r.o, _ = r.cl.run(r.ns)
            r.rc, r.inc = r.o.raise_cond(), list(r.I.incomplete)
            rec.seen(r.I)
            if drawn(rec, r) is None:
                return
            for k, a in r.made:
                got = items(r.I, r.o.st, a.get("extra_args"))
                if len(got) != 3:
                    rec.violation(f"{len(got)} of 3 extra arguments arrive", "extra_args")
                    continue
                for i, (x, y) in enumerate(zip(got, v)):
                    same(rec, r, x, y, f"extra argument {i}")
        ob(f"--extra_args ({cls})", f)

        def f(rec, cls=cls):
            r, d = given(rec, cls, {"--region": ONE})
            if not r:
                return
            for k, a in r.made:
                identical(rec, r, a.get("region"), r.reg, "region of the signal")
            if len(r.regions) != 1:
                rec.undecided(f"{len(r.regions)} regions built", "window")
                return
            b = run(r.I, SPEC + ".cli.window", [], {}, r.o.st)
            for n, want in zip(("gap", "mask_name", "phi_max", "phi_min", "theta_max", "theta_min"), b.value):
                settle(rec, Cmp(rec, r.I, r.o.st, b.st, r.st0.ctx).compare(r.regions[0].get(n), want, n), n, rec.where, r.inc)
            for extra_ in ({"--method": "rotate"}, {"--method": "translate"}, {"--convolve": "wmap"}):
                tag = "with " + " ".join(map(str, *extra_.items()))
                r = command(rec, SPHERE, cls, {"--region": ONE, **extra_})
                if r is not None and drawn(rec, r, tag) is not None:
                    rec.proved(tag)
        ob(f"--region ({cls})", f)

        def f(rec, cls=cls):
            for t in ("abs", "real", "imag", "sum"):
                r, d = given(rec, cls, {"--type": t})
                if r:
                    value_of(rec, r, d, "plot_type", t, f"--type {t}")
            o = r.cl.by_flag("--type") if r else None
            if o is not None and o.choices is not None:
                for t in o.choices:
                    if t not in ("abs", "real", "imag", "sum"):
                        rec.undecided(f"plot type {t} is not known to the reference", f"--type {t}")
                for t in ("abs", "real", "imag", "sum"):
                    if t not in o.choices:
                        rec.violation(f"--type {t} is not offered", f"--type {t} offered")
        ob(f"--type ({cls})", f)

        def f(rec, cls=cls):
            r, d = given(rec, cls, {"--unnormalise": ONE})
            if r:
                value_of(rec, r, d, "normalise", ZERO, "--unnormalise")
                value_of(rec, r, d, "upsample", ONE, "only --unnormalise")
            r, d = given(rec, cls, {"--unzeropad": ONE})
            if r:
                value_of(rec, r, d, "upsample", ZERO, "--unzeropad")
                value_of(rec, r, d, "normalise", ONE, "only --unzeropad")
            r, d = given(rec, cls, {"--noise": P(10)})
            if r:
                value_of(rec, r, d, "amplitude", r.amp, "amplitude of noisy plots")
                identical(rec, r, r.amps, [r.objs[cls]], "signal of the amplitude")
        ob(f"flags ({cls})", f)

        for what in ("rotate", "translate"):
            def f(rec, cls=cls, what=what):
                al, be, ga = real("al"), real("be"), real("ga")
                r, d = given(rec, cls, {"--method": what, "--alpha": al, "--beta": be, "--gamma": ga})
                if not r:
                    return
                if [m[0] for m in r.moves] != [what]:
                    (rec.undecided if r.inc else rec.violation)(f"--method {what} does {[m[0] for m in r.moves]}", what)
                    return
                moved(rec, r, what, al, be, ga, "given angles")
                identical(rec, r, r.moves[0][1].get("self"), r.objs[cls], "signal moved")
                coefficients_field(rec, r, d, r.moves[0][2], "field drawn", ONE if what == "rotate" else ZERO)
                if what == "translate":
                    sh = r.moves[0][1].get("shannon")
                    if is_slepian(r.cls):
                        same(rec, r, sh, r.sw.N, "Shannon number")
                    else:
                        identical(rec, r, sh, None, "Shannon number")
                arrows = items(r.I, r.o.st, d.get("annotations"))
                if what == "rotate":
                    identical(rec, r, len(arrows), 0, "no arrow")
                    return
                if len(arrows) != 1:
                    rec.violation(f"{len(arrows)} arrows at the translation point", "arrow")
                else:
                    at = arrow(r, arrows[0])
                    e = r.moves[0][1]
                    b = run(r.I, SPEC + ".cli.arrow", [e["alpha"], e["beta"]], {}, r.o.st)
                    for i, n in enumerate("xyz"):
                        settle(rec, Cmp(rec, r.I, r.o.st, b.st, r.st0.ctx).compare(at.get(n), list(b.value)[i], n), f"arrow {n}", rec.where, r.inc)
                r, d = given(rec, cls, {"--method": what, "--outline": ZERO})
                if r:
                    identical(rec, r, len(items(r.I, r.o.st, d.get("annotations"))), 0, "--outline removes the arrow")
            ob(f"--method {what} ({cls})", f)

        for other in ("Earth", "SouthAmerica", "Wmap"):
            def f(rec, cls=cls, other=other):
                r, d = given(rec, cls, {"--convolve": snake(other)})
                if not r:
                    return
                names = sorted(k.name for k, _ in r.made)
                if names != sorted([cls, other]):
                    (rec.undecided if r.inc else rec.violation)(f"--convolve {snake(other)} builds {names}", "map")
                    return
                rec.proved("map")
                for k, a in r.made:
                    same(rec, r, a.get("L"), r.L, f"bandlimit of {k.name}")
                st = r.o.st
                g, f0 = r.coeffs[other], r.coeffs[cls]
                args, spec = ([f0, g, r.L, r.sw.s], ".cli.slepian_convolved") if is_slepian(r.cls) else ([f0, g], ".cli.convolved")
                b = run(r.I, SPEC + spec, args, {}, st)
                want = b.value
                if r.earth and is_slepian(r.cls):
                    rec.violation("the Slepian coefficients of the convolution are turned by a rotation of spherical harmonic coefficients", "field drawn")
                    return
                if r.earth:
                    # the view is applied to the convolved coefficients
                    e = r.earth[0][1]
                    settle(rec, Cmp(rec, r.I, st, b.st, r.st0.ctx).compare(e.get("flm"), want, "convolved"), "coefficients turned", rec.where, r.inc)
                    want = r.earth[0][2]
                r.o.st = b.st
                coefficients_field(rec, r, d, want, "field drawn", ZERO)
            ob(f"--convolve {snake(other)} ({cls})", f)
    c.ob("maps offered by --convolve", maps, REACH)

    for view in ("africa", "south_america"):
        def f(rec, view=view):
            r, d = given(rec, "Earth", {"--perspective": view}, label="earth")
            if not r:
                return
            if [e[0] for e in r.earth] != [view]:
                rec.violation(f"--perspective {view} turns to {[e[0] for e in r.earth]}", view)
                return
            e = r.earth[0][1]
            same(rec, r, e.get("L"), r.L, "bandlimit")
            settle(rec, Cmp(rec, r.I, r.o.st, r.o.st, r.st0.ctx).compare(e.get("flm"), r.coeffs["Earth"], "coefficients"), "coefficients turned", rec.where, r.inc)
            coefficients_field(rec, r, d, r.earth[0][2], "field drawn", ONE)
            r, d = given(rec, "Gaussian", {"--perspective": view})
            if r:
                identical(rec, r, [e[0] for e in r.earth], [], "only maps of the Earth are turned")
        ob(f"--perspective {view}", f)


def maps(rec):
    I, cl = begin(rec, SPHERE)
    if I is None:
        return
    o = cl.by_flag("--convolve")
    if o is None or o.choices is None:
        rec.undecided("choices not followed")
        return
    for n in ("earth", "south_america", "wmap"):
        (rec.proved if n in o.choices else rec.violation)(*(() if n in o.choices else (f"{n} is not offered",)), n)


def arrow(r, v):
    c = r.o.st.heap[v.lid] if hasattr(v, "lid") else None
    return dict(getattr(c, "d", {}))


def mesh_options(c):
    def ob(name, f):
        c.ob(f"mesh {name}", f, OPTION)

    def given(rec, cls, opts, **kw):
        r = command(rec, MESH, cls, opts, **kw)
        if r is None:
            return None, None
        d = drawn(rec, r)
        return (r, d) if d is not None else (None, None)
    for cls in ("MeshField", "MeshSlepianField"):
        def f(rec, cls=cls):
            v = S("given", "int")
            for x, tag in ((v, "noise"), (ZERO, "noise 0")):
                r, d = given(rec, cls, {"--noise": x})
                if r:
                    for k, a in r.made:
                        same(rec, r, a.get("noise"), x, tag)
                    value_of(rec, r, d, "amplitude", r.amp, "amplitude of noisy plots")
                    identical(rec, r, r.amps, [r.objs[cls]], "signal of the amplitude")
        ob(f"--noise ({cls})", f)

        def f(rec, cls=cls):
            r, d = given(rec, cls, {"--region": ONE})
            if r:
                for k, a in r.made:
                    same(rec, r, a.get("region", ZERO), ONE, "region")
            r, d = given(rec, cls, {"--unnormalise": ONE})
            if r:
                value_of(rec, r, d, "normalise", ZERO, "--unnormalise")
            r, d = given(rec, cls, {"--zoom": ONE})
            if r and len(r.meshes) == 1:
                same(rec, r, r.meshes[0].get("zoom", ZERO), ONE, "--zoom")
        ob(f"flags ({cls})", f)

        def f(rec, cls=cls):
            r = command(rec, MESH, cls, {}, follow=False)
            if r is None:
                return
            o = r.cl.by_flag("--extra_args")
            v = [S("x0"), S("x1")]
            if o is None:
                rec.violation("there is no option --extra_args", "--extra_args")
                return
            r.ns[o.dest] = r.I.new_list(v)
            r.st0 = r.I.st.copy()
            r.o, _ = r.cl.run(r.ns)
            r.rc, r.inc = r.o.raise_cond(), list(r.I.incomplete)
            rec.seen(r.I)
            if drawn(rec, r) is None:
                return
            for k, a in r.made:
                got = items(r.I, r.o.st, a.get("extra_args"))
                if len(got) != 2:
                    rec.violation(f"{len(got)} of 2 extra arguments arrive", "extra_args")
                    continue
                for i, (x, y) in enumerate(zip(got, v)):
                    same(rec, r, x, y, f"extra argument {i}")
        ob(f"--extra_args ({cls})", f)

    def f(rec):
        I, cl = begin(rec, MESH)
        o = cl.by_dest("function") if I is not None else None
        for n in (o.choices or []) if o is not None else []:
            r, d = given(rec, "MeshField", {"mesh": n})
            if r and len(r.meshes) == 1:
                identical(rec, r, r.meshes[0].get("name"), n, f"mesh {n}")
            elif r:
                rec.undecided(f"{len(r.meshes)} meshes built", n)
    ob("name", f)


# ---------------------------------------------------------------- extra arguments
def extra(rec, q, name):
    I = new("cold")
    cls = I.resolve(q)
    b = setup(I, cls)
    data(I)
    order = ORDER[name]
    kw = {}
    for n, ann, has in params(I, cls):
        if n == "L":
            kw[n] = b.L
        elif n == "mesh":
            kw[n] = b.w.m
        elif n == "mesh_slepian":
            kw[n] = b.ws.ms
        elif n == "region" and is_slepian(cls) and "Region" in ann:
            kw[n] = b.w.region
    xs = []
    for n in order:
        s = S("x_" + n.replace("10^", ""), "int", n in ("B", "j_min", "j", "rank", "ell"))
        b.values[n] = s
        xs.append(s)
    assume_domain(I, b)
    kw["extra_args"] = I.new_list(xs)
    st0 = I.st.copy()
    o = run(I, cls, [], kw)
    rec.seen(I)
    rec.where = where_class(I, cls) or rec.where
    rec.c.paths += 1 + len(o.raises)
    if o.st is None:
        rec.undecided(f"construction not followed: {(I.incomplete or ['it raises'])[0]}")
        return
    for n, x in zip(order, xs):
        f = n.replace("10^", "")
        try:
            got = o.st.heap[o.value.oid].fields[f]
        except KeyError:
            rec.violation(f"{name} has no parameter {f}", f)
            continue
        want = x
        st2 = o.st
        if n.startswith("10^"):
            w = run(I, SPEC + ".functions.power_of_ten", [x], {}, o.st)
            want, st2 = w.value, w.st
        settle(rec, Cmp(rec, I, o.st, st2, st0.ctx).compare(got, want, f), f, rec.where, [])


def where_class(I, c):
    node = getattr(c, "node", None)
    if node is not None and getattr(c, "mod", None) in I.asts:
        return f"{I.asts[c.mod][0]}:{node.lineno} {c.name}"
    return None


# ---------------------------------------------------------------- amplitude
def amplitude(rec, kind):
    I = new("cold")
    mesh = kind.startswith("mesh")
    q = "sleplet.plot_methods.compute_amplitude_for_noisy_" + ("mesh" if mesh else "sphere") + "_plots"
    for noisy in (True, False):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        if mesh:
            w = mesh_obj(I)
            mesh_slepian_obj(I, w)
            n = w.N if kind == "mesh_slepian" else w.K
        else:
            w = slepian_obj(I, L)
            n = w.N if kind == "slepian" else L * L
        u = arr(I, "unnoised", n) if noisy else None
        co = arr(I, "coefficients", n)
        cls = {"harmonic": "sleplet.functions.Gaussian", "slepian": "sleplet.functions.SlepianSouthAmerica",
               "mesh": "sleplet.meshes.MeshField", "mesh_slepian": "sleplet.meshes.MeshSlepianField"}[kind]
        f = dict(coefficients=co, _unnoised_coefficients=u, name="f_name")
        if mesh:
            f["mesh"] = w.m
        else:
            f.update(L=L, reality=ONE if kind == "harmonic" else ZERO, spin=ZERO)
        if kind == "slepian":
            f.update(slepian=w.s, region=w.region)
        if kind == "mesh_slepian":
            f["mesh_slepian"] = w.ms
        o = obj(I, cls, **f)
        if not noisy:
            b = run(I, q, [o])
            rec.seen(I)
            rec.where = where_of(I, I.resolve(q))
            if b.st is not None and b.value is None:
                rec.proved("without noise")
            elif b.st is None or I.incomplete:
                rec.undecided("not followed", "without noise")
            else:
                rec.violation(f"a plot without noise has amplitude {b.value!r}", "without noise")
            continue
        spec, args = {"harmonic": ("noisy_amplitude", [u, L, ONE, ZERO]), "slepian": ("noisy_amplitude_slepian", [u, L, getattr(w, "s", None)]),
                      "mesh": ("noisy_amplitude_mesh", [u, getattr(w, "m", None)]), "mesh_slepian": ("noisy_amplitude_mesh_slepian", [u, getattr(w, "ms", None)])}[kind]
        conform_k(rec, I, q, [o], {}, "cli." + spec, args, exc=False, sub="with noise")
