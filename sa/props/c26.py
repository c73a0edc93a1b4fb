"""C26 What the sphere and mesh plots show."""
from ..harness import *  # noqa: F403

SHOW = "shown values = requested part of the (upsampled) field, rescaled to [0, 1] only on request, closed in longitude"
REG = "exactly the samples outside the region carry the unseen marker"
NAME = "the file name records resolution, plot type and normalisation exactly when they apply"
SCALE = "the colour range is the amplitude (or the largest magnitude shown); [0, 1] when normalised"


def last(I, n0, suffix):
    es = [e for e in I.events[n0:] if e["kind"] == "ext-call" and e["name"].endswith(suffix)]
    return es


def as_spec(rec, I, st, got, spec, args, what, sub):
    b = run(I, SPEC + "." + spec, args, st=st)
    settle(rec, Cmp(rec, I, st, b.st, st.ctx).compare(got, b.value, what), sub, incomplete=I.incomplete)


def obligations(c):
    for kind in ("real", "imag", "abs", "sum"):
        for norm in (True, False):
            for up in (True, False):
                for reg in (False, True):
                    if reg and kind != "real":
                        continue
                    nm = f"{kind}, {'normalised' if norm else 'not normalised'}, {'upsampled' if up else 'native'}" + (", region" if reg else "")

                    def f(rec, kind=kind, norm=norm, up=up, reg=reg):
                        sphere(rec, kind, norm, up, reg)
                    c.ob("sphere plot: " + nm, f, "; ".join([SHOW, NAME, SCALE] + ([REG] if reg else [])))
    for norm in (True, False):
        for reg in (False, True):
            c.ob(f"mesh plot: {'normalised' if norm else 'not normalised'}" + (", region" if reg else ""),
                 lambda rec, norm=norm, reg=reg: mesh(rec, norm, reg), "; ".join([SHOW, NAME, SCALE] + ([REG] if reg else [])))

    for kind in ("real", "imag", "abs", "sum"):
        for up in (True, False):
            def f(rec, kind=kind, up=up):
                I = new()
                L, R = nat("L"), nat("R")
                assume_ge(I, L - 1, R - L)
                hook_res(I, R)
                s = S("spin")
                o = obj(I, "sleplet.functions.Gaussian", L=L, coefficients=arr(I, "coefficients", L * L), reality=ONE, spin=s, name="gaussian_L",
                        region=None, noise=None, smoothing=None, extra_args=None)
                conform_k(rec, I, "sleplet.plot_methods.find_max_amplitude", [o], {"plot_type": kind, "upsample": ONE if up else ZERO},
                          "plotting.max_amplitude_harmonic", [fld(I, o, "coefficients"), L, kind, ONE, s, ONE if up else ZERO], exc=False)
            c.ob(f"largest amplitude, {kind}, {'upsampled' if up else 'native'}", f, "maximum magnitude of the displayed part, same spin and reality throughout")

            def f(rec, kind=kind, up=up):
                I = new()
                L, R = nat("L"), nat("R")
                assume_ge(I, L - 1, R - L)
                hook_res(I, R)
                w = slepian_obj(I, L)
                o = obj(I, "sleplet.functions.SlepianIdentity", L=L, coefficients=arr(I, "coefficients", L * L), reality=ZERO, spin=ZERO, name="x_L",
                        region=w.region, noise=None, smoothing=None, extra_args=None, slepian=w.s)
                conform_k(rec, I, "sleplet.plot_methods.find_max_amplitude", [o], {"plot_type": kind, "upsample": ONE if up else ZERO},
                          "plotting.max_amplitude_slepian", [fld(I, o, "coefficients"), L, w.s, kind, ZERO, ZERO, ONE if up else ZERO], exc=False)
            c.ob(f"largest amplitude of a Slepian function, {kind}, {'upsampled' if up else 'native'}", f, "maximum magnitude of the displayed part")


def hook_res(I, R):
    hook(I, "sleplet.plot_methods.calc_plot_resolution", lambda I2, fn, a, k: R)
    hook(I, "spec.plotting.resolution", lambda I2, fn, a, k: R)


def sphere(rec, kind, norm, up, reg):
    I = new("cold")
    L, R, s = nat("L"), nat("R"), S("spin")
    assume_ge(I, L - 1, R - L)
    hook_res(I, R)
    nt, nph = run(I, SPEC + ".sphere.shape", [L]).value
    f = arr(I, "f", nt, nph)
    res = R if up else L
    mask = None
    region = None
    if reg:
        mt, mp = run(I, SPEC + ".sphere.shape", [res]).value
        mask = arr(I, "mask", mt, mp, dt="bool")
        region = region_obj(I)
        hook(I, "sleplet._mask_methods.create_mask_region", lambda I2, fn, a, k: mask)
    amp = real("amplitude", True)
    b = lambda x: ONE if x else ZERO
    start = I.st.copy()
    for with_amp in (False, True):
        st0 = start.copy()
        n0 = len(I.events)
        kw = dict(plot_type=kind, normalise=b(norm), upsample=b(up), reality=ONE, spin=s, region=region)
        if with_amp:
            kw["amplitude"] = amp
        o = run(I, "sleplet.plotting.PlotSphere", [f, L, "the_file"], kw, st0)
        I.st = o.st
        a = run(I, bound(I, o.value, "execute"), [], {}, o.st)
        rec.seen(I)
        if a.st is None:
            rec.violation("plotting always raises", "runs") if not I.incomplete else rec.undecided("plotting raises", "runs")
            return
        shows, surf = last(I, n0, "io.show"), last(I, n0, "Surface")
        if len(surf) != 1 or len(shows) != 1:
            rec.undecided(f"{len(surf)} surfaces and {len(shows)} shown figures found", "surface")
            return
        k = surf[0]["kw"]
        args = [f, L, kind, b(norm), ONE, s, b(up)]
        if not with_amp:
            as_spec(rec, I, a.st, k.get("surfacecolor"), "plotting.surface", args + [mask], "surface colour", "values")
            cfg = shows[0]["kw"].get("config")
            name = lookup(a.st, cfg, "toImageButtonOptions", "filename")
            want = ("the_file" + ("" if not up else "_res{R}") + f"_{kind}" + ("_norm" if norm else ""))
            I.st = a.st
            w = I.strcat(I.strcat("the_file" + ("_res" if up else ""), I.tostr(R) if up else ""), f"_{kind}" + ("_norm" if norm else ""))
            settle(rec, Cmp(rec, I, a.st, a.st, a.st.ctx).compare(name, w, "file name"), "file name", incomplete=I.incomplete)
        if norm:
            got = (k.get("cmin"), k.get("cmax"), k.get("cmid"))
            settle(rec, Cmp(rec, I, a.st, a.st, a.st.ctx).compare(got, (ZERO, ONE, num(Fr(1, 2))), "colour range"), "colour range", incomplete=I.incomplete)
        else:
            I.st = a.st
            as_spec(rec, I, a.st, k.get("cmax"), "plotting.surface_tick", args + [amp if with_amp else None], "colour maximum",
                    "colour range" + (" with amplitude" if with_amp else ""))
            if isinstance(k.get("cmin"), Poly) and isinstance(k.get("cmax"), Poly):
                settle(rec, equal(rec, k["cmin"], -k["cmax"], "colour minimum", a.st.ctx), "symmetric colour range", incomplete=I.incomplete)


def lookup(st, v, *keys):
    for k in keys:
        if not isinstance(v, LRef):
            return None
        v = st.heap[v.lid].d.get(k)
    return v


def mesh(rec, norm, reg):
    I = new("cold")
    w = mesh_obj(I)
    f = arr(I, "f", w.V, dt="real")
    b = lambda x: ONE if x else ZERO
    n0 = len(I.events)
    o = run(I, "sleplet.plotting.PlotMesh", [w.m, "the_file", f], dict(normalise=b(norm), region=b(reg)))
    I.st = o.st
    a = run(I, bound(I, o.value, "execute"), [], {}, o.st)
    rec.seen(I)
    m3 = last(I, n0, "Mesh3d")
    shows = last(I, n0, "io.show")
    if a.st is None or len(m3) != 1 or len(shows) != 1:
        rec.undecided(f"{len(m3)} meshes and {len(shows)} shown figures found", "mesh")
        return
    k = m3[0]["kw"]
    as_spec(rec, I, a.st, k.get("intensity"), "plotting.mesh_faces", [w.faces, f, b(norm), w.region if reg else None], "intensity", "values")
    name = lookup(a.st, shows[0]["kw"].get("config"), "toImageButtonOptions", "filename")
    settle(rec, Cmp(rec, I, a.st, a.st, a.st.ctx).compare(name, "the_file" + ("_norm" if norm else ""), "file name"), "file name", incomplete=I.incomplete)
    I.st = a.st
    for q, (n, ax) in {"x": ("vertices", 0), "y": ("vertices", 2), "z": ("vertices", 1), "i": ("faces", 0), "j": ("faces", 1), "k": ("faces", 2)}.items():
        src = I.arr(w.verts if n == "vertices" else w.faces)
        i = P(fresh("i", "int", True))
        g = at_state(I, a, lambda: I.arr(k[q]).elem((i,)))
        settle(rec, equal(rec, g, src.elem((i, num(ax))), f"{n} column for {q}", a.st.ctx), f"geometry {q}", incomplete=I.incomplete)
