"""C09 Library calls never modify the arrays and objects handed to them."""
import ast
import os

from ..harness import *  # noqa: F403
from ..classes import build, data, is_mesh, is_slepian, params, registered
from ..values import Cell, DictC, ListC, ObjC
from .c31 import root

RULE = "no path through the call writes to an array, list or object reachable from its arguments"
MODS = ("harmonic_methods", "slepian_methods", "wavelet_methods", "noise", "plot_methods")
# the flag of a signal follows from how it was last used (property C20); nothing else may change
FLAGS = {"translate": {"reality"}, "convolve": {"reality"}}


def origin_of(I, cid):
    c = I.st.heap.get(cid)
    return c.origin if isinstance(c, Cell) else None


def watched(st):
    """everything that exists before the call, except what belongs to the library's own modules"""
    return {k: v for k, v in st.heap.items() if isinstance(v, (Cell, ObjC, ListC, DictC))}


def label(st, cid):
    c = st.heap.get(cid)
    if isinstance(c, Cell) and c.origin:
        return str(c.origin).replace("param:", "")
    for k, v in st.heap.items():
        if isinstance(v, ObjC):
            for n, x in v.fields.items():
                if getattr(x, "cid", None) == cid or getattr(x, "lid", None) == cid:
                    return f"{getattr(v.cls, 'name', v.cls)}.{n}"
    return str(cid)


def preserved(rec, I, st0, outs, n0, sub="", allow=(), where=None):
    """the heap of st0 is unchanged in every state of outs"""
    w0 = watched(st0)
    mod = set(I.module_heap)
    bad = False
    stored = [e for e in I.events[n0:] if e["kind"] == "store"]
    for st in outs:
        for k, v in w0.items():
            if k in mod:
                continue
            x = st.heap.get(k)
            if x is v or x is None:
                continue
            if isinstance(v, Cell):
                if x.base is v.base and len(x.stores) == len(v.stores):
                    continue
                at = [e for e in stored if e["cid"] == k]
                loc = locof(at)
                if x.base is v.base and at and all(e["store"] is not None for e in at):
                    r = unchanged(rec, I, st0, st, k)
                    if r:
                        continue
                bad = True
                rec.violation(f"the contents of {label(st0, k)} change", (sub + " " if sub else "") + label(st0, k), where=loc or where)
            elif isinstance(v, ObjC):
                for n in set(v.fields) | set(x.fields):
                    if n in allow:
                        continue
                    if n not in v.fields:
                        if not n.startswith("_"):
                            continue
                        continue
                    if v.fields.get(n) is x.fields.get(n) or same_value(v.fields.get(n), x.fields.get(n)):
                        continue
                    bad = True
                    nm = getattr(v.cls, "name", str(v.cls))
                    e = [e for e in I.events[n0:] if e["kind"] == "setattr" and e["oid"] == k and e["name"] == n]
                    rec.violation(f"the field {n} of {nm} is replaced", (sub + " " if sub else "") + f"{nm}.{n}", where=locof(e) or where)
            elif isinstance(v, ListC):
                if v.items != x.items or (v.sym is None) != (x.sym is None):
                    bad = True
                    rec.violation(f"the list {label(st0, k)} changes", (sub + " " if sub else "") + label(st0, k), where=where)
            elif isinstance(v, DictC):
                if v.d != x.d:
                    bad = True
                    rec.violation(f"the dictionary {label(st0, k)} changes", (sub + " " if sub else "") + label(st0, k), where=where)
    return not bad


def same_value(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def unchanged(rec, I, st0, st, cid):
    """the stores leave every element at its former value"""
    try:
        res = Cmp(rec, I, st0, st, st.ctx).compare(ARef(cid), ARef(cid), "contents")
        return all(s == "ok" for s, _ in res) if res else True
    except Exception:
        return False


def locof(events):
    for e in reversed(events):
        l = e.get("loc") or getattr(e.get("store"), "loc", None)
        if l:
            return loc_text(l)
    return None


def loc_text(l):
    if isinstance(l, tuple):
        return ":".join(str(x) for x in l[:2])
    return str(l)


def settle_call(rec, I, st0, o, n0, inc0, sub="", allow=(), where=None):
    rec.seen(I)
    rec.c.paths += (o.st is not None) + len(o.raises)
    outs = ([o.st] if o.st is not None else []) + [s for s, _ in o.raises]
    ok = preserved(rec, I, st0, outs, n0, sub, allow, where)
    if not ok:
        return
    inc = [x for x in I.incomplete[inc0:] if "contents after" not in x]
    if not outs:
        rec.undecided("call not followed", sub, where=where)
    else:
        rec.proved(sub, where=where, detail=f"{len(outs)} outcomes, {len([e for e in I.events[n0:] if e['kind'] == 'store'])} stores")


def call(rec, I, code, args, kw=None, sub="", allow=()):
    cf = I.resolve(code) if isinstance(code, str) else code
    st0 = I.st.copy()
    n0, inc0 = len(I.events), len(I.incomplete)
    o = run(I, cf, args, kw or {}, st0)
    settle_call(rec, I, st0, o, n0, inc0, sub, allow, where_of(I, cf))
    return o


# ---------------------------------------------------------------- the calls
def cases():
    """{qualified name: [(label, set-up returning (I, args, kw))]}"""
    out = {}

    def case(q, lab=""):
        def deco(f):
            out.setdefault(q, []).append((lab, f))
            return f
        return deco

    def harmonic():
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        return I, L

    H, SM, W, N, P_ = (f"sleplet.{m}." for m in MODS)
    for real_ in (ONE, ZERO):
        @case(H + "invert_flm_boosted", "real" if real_ == ONE else "complex")
        def f(real_=real_):
            I, L = harmonic()
            return I, [arr(I, "flm", L * L), L, nat("resolution")], {"reality": real_, "spin": ZERO}

        @case(H + "compute_random_signal", "real" if real_ == ONE else "complex")
        def f(real_=real_):
            I, L = harmonic()
            return I, [L, rng(I)], {"var_signal": real("v", True)}
    for n in ("mesh_forward", "mesh_inverse"):
        @case(H + n)
        def f(n=n):
            I = new("cold")
            w = mesh_obj(I)
            return I, [w.m, arr(I, "u", w.V if n == "mesh_forward" else w.K)], {}
    for n in ("africa", "south_america"):
        @case(H + "rotate_earth_to_" + n)
        def f():
            I, L = harmonic()
            return I, [arr(I, "earth_flm", L * L), L], {}

    @case(SM + "choose_slepian_method")
    def f():
        from .c01 import hook_solve
        I, L = harmonic()
        hook_solve(I)
        return I, [L, region_obj(I)], {}

    @case(SM + "slepian_inverse")
    def f():
        I, L = harmonic()
        w = slepian_obj(I, L)
        return I, [arr(I, "f_p", w.N), L, w.s], {}
    for what in ("flm", "f", "f+mask"):
        @case(SM + "slepian_forward", what)
        def f(what=what):
            I, L = harmonic()
            w = slepian_obj(I, L)
            kw = {"flm": arr(I, "flm", L * L)} if what == "flm" else {"f": arr(I, "f", w.nt, w.np)}
            if what == "f+mask":
                kw["mask"] = arr(I, "the_mask", w.nt, w.np, dt="bool")
            return I, [L, w.s], kw

    @case(SM + "compute_s_p_omega")
    def f():
        I, L = harmonic()
        return I, [L, slepian_obj(I, L).s], {}
    for what in ("u", "u_i", "u+mask"):
        @case(SM + "slepian_mesh_forward", what)
        def f(what=what):
            I = new("cold")
            w = mesh_slepian_obj(I)
            kw = {"u_i": arr(I, "u_i", w.K)} if what == "u_i" else {"u": arr(I, "u", w.V)}
            if what == "u+mask":
                kw["mask"] = ONE
            return I, [w.ms], kw

    @case(SM + "slepian_mesh_inverse")
    def f():
        I = new("cold")
        w = mesh_slepian_obj(I)
        return I, [w.ms, arr(I, "f_p", w.N)], {}

    def waves(I, L, n=None, dt="real"):
        J = nat("J")
        return J, arr(I, "wavelets", J, L * L, dt=dt)

    for full in (True, False):
        @case(W + "slepian_wavelet_forward", "full" if full else "Shannon-many")
        def f(full=full):
            I, L = harmonic()
            n = nat("n")
            assume_ge(I, L * L - n)
            J, w = waves(I, L)
            return I, [arr(I, "f_p", L * L if full else n), w, n], {}

        @case(W + "slepian_wavelet_inverse", "full" if full else "Shannon-many")
        def f(full=full):
            I, L = harmonic()
            n, K = nat("n"), nat("K")
            J, w = waves(I, L)
            assume_ge(I, L * L - n, J - K)
            return I, [arr(I, "wav_coeffs", K, L * L if full else n), w, n], {}

    @case(W + "axisymmetric_wavelet_forward")
    def f():
        I, L = harmonic()
        J, w = waves(I, L, dt="complex")
        return I, [L, arr(I, "flm", L * L), w], {}

    @case(W + "axisymmetric_wavelet_inverse")
    def f():
        I, L = harmonic()
        J, w = waves(I, L, dt="complex")
        return I, [L, arr(I, "wav_coeffs", J, L * L), w], {}

    @case(W + "create_kappas")
    def f():
        I, L = harmonic()
        B = nat("B")
        assume_ge(I, B - 2)
        return I, [L, B, nat("j_min")], {}

    @case(W + "find_non_zero_wavelet_coefficients")
    def f():
        I, L = harmonic()
        return I, [arr(I, "wav_coeffs", nat("J"), L * L)], {"axis": ONE}
    for kind in ("harmonic", "mesh"):
        @case(N + "compute_snr", kind)
        def f(kind=kind):
            I = new("cold")
            n = nat("n")
            assume_ge(I, n - 1)
            return I, [arr(I, "signal", n), arr(I, "noise", n), kind], {}

    @case(N + "compute_sigma_noise")
    def f():
        I = new("cold")
        n = nat("n")
        assume_ge(I, n - 1)
        return I, [arr(I, "signal", n), real("snr_in")], {"denominator": nat("d")}

    @case(N + "harmonic_hard_thresholding")
    def f():
        I, L = harmonic()
        J = nat("J")
        return I, [L, arr(I, "wav_coeffs", J, L * L), arr(I, "sigma_j", J, dt="real"), nat("n_sigma")], {}

    @case(N + "slepian_wavelet_hard_thresholding")
    def f():
        I, L = harmonic()
        w = slepian_obj(I, L)
        J = nat("J")
        return I, [L, arr(I, "wav_coeffs", J, w.N), arr(I, "sigma_j", J, w.nt, w.np, dt="real"), nat("n_sigma"), w.s], {}

    @case(N + "slepian_function_hard_thresholding")
    def f():
        I, L = harmonic()
        w = slepian_obj(I, L)
        return I, [L, arr(I, "coefficients", w.N), real("sigma"), nat("n_sigma"), w.s], {}

    @case(N + "compute_slepian_mesh_sigma_j")
    def f():
        I = new("cold")
        w = mesh_slepian_obj(I)
        J = nat("J")
        return I, [w.ms, arr(I, "signal", w.N), arr(I, "psi_j", J, w.K, dt="real"), real("snr_in")], {}

    @case(N + "slepian_mesh_hard_thresholding")
    def f():
        I = new("cold")
        w = mesh_slepian_obj(I)
        J = nat("J")
        return I, [w.ms, arr(I, "wav_coeffs", J, w.N), arr(I, "sigma_j", J, w.V, dt="real"), nat("n_sigma")], {}

    @case(P_ + "calc_plot_resolution")
    def f():
        I, L = harmonic()
        return I, [L], {}
    for slep in (False, True):
        for n in ("find_max_amplitude", "compute_amplitude_for_noisy_sphere_plots"):
            for kind in (("abs", "real", "imag", "sum") if n == "find_max_amplitude" else ("",)):
                for up in ((ONE, ZERO) if n == "find_max_amplitude" else (ONE,)):
                    @case(P_ + n, f"{'Slepian' if slep else 'harmonic'} {kind} {'upsampled' if up == ONE else ''}".strip())
                    def f(slep=slep, n=n, kind=kind, up=up):
                        I, L = harmonic()
                        o, w = signal(I, L, slep)
                        return I, [o], ({"plot_type": kind, "upsample": up} if n == "find_max_amplitude" else {})

        @case(P_ + "compute_amplitude_for_noisy_mesh_plots", "Slepian" if slep else "harmonic")
        def f(slep=slep):
            I = new("cold")
            o, w = mesh_signal(I, slep)
            return I, [o], {}
    return out


def rng(I):
    return run(I, "spec.cli.generator", []).value


def signal(I, L, slep):
    if slep:
        w = slepian_obj(I, L)
        return obj(I, "sleplet.functions.SlepianSouthAmerica", L=L, coefficients=arr(I, "coefficients", w.N), _unnoised_coefficients=arr(I, "unnoised", w.N), reality=ZERO,
                   spin=ZERO, name="f_name", slepian=w.s, region=w.region, noise=None, smoothing=None, extra_args=None), w
    return obj(I, "sleplet.functions.Gaussian", L=L, coefficients=arr(I, "coefficients", L * L), _unnoised_coefficients=arr(I, "unnoised", L * L), reality=ONE, spin=ZERO,
               name="f_name", region=None, noise=None, smoothing=None, extra_args=None), None


def mesh_signal(I, slep):
    w = mesh_obj(I)
    mesh_slepian_obj(I, w)
    n = w.N if slep else w.K
    f = dict(mesh=w.m, coefficients=arr(I, "coefficients", n), _unnoised_coefficients=arr(I, "unnoised", n), name="f_name", noise=None, region=ZERO)
    if slep:
        f["mesh_slepian"] = w.ms
    return obj(I, "sleplet.meshes.MeshSlepianField" if slep else "sleplet.meshes.MeshField", **f), w


def public_functions():
    out = []
    for m in MODS:
        p = os.path.join(root(), "src", "sleplet", m + ".py")
        if not os.path.exists(p):
            continue
        with open(p) as f:
            out += [f"sleplet.{m}.{n.name}" for n in ast.parse(f.read()).body if isinstance(n, ast.FunctionDef) and not n.name.startswith("_")]
    return out


def obligations(c):
    cs = cases()
    for q in sorted(set(cs) | set(public_functions())):
        if q not in cs:
            c.ob(q.removeprefix("sleplet."), lambda rec, q=q: rec.undecided("no model of the arguments of this function"), RULE)
        for lab, f in cs.get(q, []):
            def g(rec, q=q, f=f):
                I, args, kw = f()
                call(rec, I, q, args, kw)
            c.ob(q.removeprefix("sleplet.") + (f" ({lab})" if lab else ""), g, RULE)
    for slep in (False, True):
        for what in ("translate", "convolve", "rotate"):
            c.ob(f"{'Slepian' if slep else 'harmonic'} signal, {what}", lambda rec, slep=slep, what=what: use(rec, slep, what), RULE)
    I = new("cold")
    for cls in registered(I, "COEFFICIENTS", "MESH_COEFFICIENTS"):
        q = f"{cls.mod}.{cls.name}"
        opts = [n for n, ann, has in params(I, cls) if n in ("noise", "smoothing") or n == "j" or (n == "region" and not is_slepian(cls))]
        for o in ([], ["noise"]) + ((["region"],) if is_mesh(cls) else ()):
            if all(x in opts for x in o):
                c.ob(f"constructing {cls.name}" + (f" with {', '.join(o)}" if o else ""), lambda rec, q=q, o=o: construct(rec, q, o), RULE)
    for kind in ("real", "abs"):
        for norm in (False, True):
            for up in (False, True):
                for reg in (False, True):
                    c.ob(f"PlotSphere {kind}{' normalised' if norm else ''}{' upsampled' if up else ''}{' region' if reg else ''}",
                         lambda rec, a=(kind, norm, up, reg): plot_sphere(rec, *a), RULE)
    for norm in (False, True):
        for reg in (False, True):
            c.ob(f"PlotMesh{' normalised' if norm else ''}{' region' if reg else ''}", lambda rec, a=(norm, reg): plot_mesh(rec, *a), RULE)
    for q in ("sleplet.meshes.MeshSlepian",):
        c.ob("constructing MeshSlepian", mesh_slepian, RULE)


def use(rec, slep, what):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    o, w = signal(I, L, slep)
    for second in (False, True) if what == "convolve" else (False,):
        st0 = I.st.copy()
        I.st = st0
        m = bound(I, o, what)
        if what == "convolve":
            n = w.N if slep else L * L
            a = [arr(I, "first", nat("J"), n) if second else arr(I, "first", n), arr(I, "second", n)]
        else:
            a = [real("alpha"), real("beta")]
        kw = {"shannon": w.N} if slep and what != "rotate" else {"gamma": real("gamma")} if what == "rotate" else {}
        call(rec, I, m, a, kw, sub="stacked" if second else "", allow=FLAGS.get(what, ()))


def construct(rec, q, given):
    I = new("cold")
    cls = I.resolve(q)
    from ..classes import setup
    b = setup(I, cls)
    data(I)
    kw = {}
    from ..classes import value_for, assume_domain
    for n, ann, has in params(I, cls):
        if not has or n in given or (n == "region" and is_slepian(cls) and "Region" in ann):
            v = value_for(b, n, ann, I)
            if n == "region" and is_mesh(cls):
                v = ONE
            kw[n] = b.values[n] = v
    assume_domain(I, b)
    rec.where = where_cls(I, cls) or rec.where
    st0 = I.st.copy()
    n0, inc0 = len(I.events), len(I.incomplete)
    o = run(I, cls, [], kw, st0)
    settle_call(rec, I, st0, o, n0, inc0, where=rec.where)


def where_cls(I, c):
    node = getattr(c, "node", None)
    if node is not None and getattr(c, "mod", None) in I.asts:
        return f"{I.asts[c.mod][0]}:{node.lineno} {c.name}"
    return None


def b_(x):
    return ONE if x else ZERO


def plot_sphere(rec, kind, norm, up, reg):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    nt, nph = run(I, SPEC + ".sphere.shape", [L]).value
    f = arr(I, "f", nt, nph)
    region = region_obj(I) if reg else None
    R = nat("R")
    hook(I, "sleplet.plot_methods.calc_plot_resolution", lambda I2, fn, a, k: R)
    if reg:
        mt, mp = run(I, SPEC + ".sphere.shape", [R if up else L]).value
        mask = arr(I, "mask", mt, mp, dt="bool")
        hook(I, "sleplet._mask_methods.create_mask_region", lambda I2, fn, a, k: mask)
    note = I.new_list([I.new_dict({"x": real("x"), "y": real("y"), "z": real("z")})])
    kw = dict(plot_type=kind, normalise=b_(norm), upsample=b_(up), reality=ONE, spin=ZERO, region=region, annotations=note)
    plot(rec, I, "sleplet.plotting.PlotSphere", [f, L, "the_file"], kw)


def plot(rec, I, q, args, kw):
    st0 = I.st.copy()
    n0, inc0 = len(I.events), len(I.incomplete)
    o = run(I, q, args, kw, st0)
    if o.st is None:
        rec.undecided("construction not followed")
        return
    I.st = o.st
    a = run(I, bound(I, o.value, "execute"), [], {}, o.st)
    settle_call(rec, I, st0, a, n0, inc0, where=where_cls(I, I.resolve(q)))


def plot_mesh(rec, norm, reg):
    I = new("cold")
    w = mesh_obj(I)
    plot(rec, I, "sleplet.plotting.PlotMesh", [w.m, "the_file", arr(I, "f", w.V, dt="real")], dict(normalise=b_(norm), region=b_(reg)))


def mesh_slepian(rec):
    I = new("cold")
    w = mesh_obj(I)
    q = I.resolve("sleplet.meshes.MeshSlepian")
    rec.where = where_cls(I, q) or rec.where
    st0 = I.st.copy()
    n0, inc0 = len(I.events), len(I.incomplete)
    o = run(I, q, [w.m], {}, st0)
    settle_call(rec, I, st0, o, n0, inc0, where=rec.where)
