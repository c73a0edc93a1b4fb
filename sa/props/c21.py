"""C21 Masks mark exactly the region they describe."""
from ..harness import *  # noqa: F403
from .c01 import concrete_region, settle_kind, hook_solve, SOLVERS, REGION

CAP = "sample is marked iff colatitude <= opening angle (or >= pi - opening angle when the gap is enabled)"
BOX = "sample is marked iff both angles are inside the closed box"
LAND = "sample is marked iff it is land and within the continent's fixed range of the rotated pole"
MASK = "zero outside the mask, unchanged inside, bandlimited again with the caller's spin and reality"
MESH = "vertex is marked iff inside the closed coordinate box; face iff all its vertices are"
CONTINENTS = {"africa": (44, 87, 341, 41), "south_america": (54, 108, 63, 40)}
MM = "sleplet._mask_methods."


def earth(I, made):
    def create(I2, fn, a, k):
        e = I2.bind(fn, a, k)
        made.append(dict(e))
        return arr(I2, "earth_flm", e["L"] * e["L"])
    hook(I, "sleplet._data.create_earth_flm.create_flm", create)


def obligations(c):
    for kind in ("polar", "lim_lat_lon"):
        for gap in (ZERO, ONE) if kind == "polar" else (ZERO,):
            def f(rec, kind=kind, gap=gap):
                I = new("cold")
                L = nat("L")
                assume_ge(I, L - 1)
                kw = concrete_region(I, kind, gap)
                settle_kind(I, kind, kw)
                r = run(I, REGION, [], kw)
                I.st = r.st
                if kind == "polar":
                    s, sa = "region.polar_mask", [L, kw["theta_max"], gap]
                else:
                    s, sa = "region.box_mask", [L, kw["theta_min"], kw["theta_max"], kw["phi_min"], kw["phi_max"]]
                private(rec, lambda: conform_k(rec, I, MM + "create_mask_region", [L, r.value], {}, s, sa, sub="mask function"))
                # and the mask the solved problem carries
                I.st = r.st.copy()
                hook_solve(I)
                conform_k(rec, I, SOLVERS[kind], [L], dict(kw), s, sa, sub="solved problem", exc=False, post=lambda o: fld(o, o.value, "mask"), spost=lambda o: o.value)
            c.ob(f"mask of a {kind} region" + (" with gap" if gap == ONE else ""), f, CAP if kind == "polar" else BOX)

    for cont, (al, be, ga, size) in CONTINENTS.items():
        def f(rec, cont=cont, al=al, be=be, ga=ga, size=size):
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            made = []
            earth(I, made)
            r = run(I, REGION, [], {"mask_name": cont})
            I.st = r.st
            flm = arr(I, "earth_flm", L * L)
            a, b = private(rec, lambda: conform_k(rec, I, MM + "create_mask_region", [L, r.value], {}, "region.continent_mask", [L, flm, num(al), num(be), num(ga), num(size)])) or (None, None)
            if a is None:
                return
            w = where_of(I, I.resolve(MM + "create_mask_region"))
            if not made:
                rec.undecided("Earth coefficients not taken from the Earth data module", "bandlimit", where=w)
            for e in made:
                settle(rec, equal(rec, e["L"], L, "bandlimit of the Earth data", a.st.ctx), "bandlimit", w, I.incomplete)
                if e.get("smoothing") is not None:
                    rec.violation("the mask is made from smoothed Earth data", "smoothing", where=w)
        c.ob(f"mask of {cont}", f, LAND)

        def f(rec, cont=cont, size=size, al=al, be=be, ga=ga):
            """the stored mask is the one that is returned"""
            I = new("cold")
            L = nat("L")
            assume_ge(I, L - 1)
            earth(I, [])
            r = run(I, REGION, [], {"mask_name": cont})
            I.st = r.st
            flm = arr(I, "earth_flm", L * L)
            o = private(rec, lambda: run(I, MM + "create_mask_region", [L, r.value], {}))
            if o is None:
                return
            rec.seen(I)
            w = where_of(I, I.resolve(MM + "create_mask_region"))
            ev = [e for e in I.events if e["kind"] == "save"]
            if not ev:
                rec.undecided("no mask is stored", where=w)
            b = run(I, "spec.region.continent_mask", [L, flm, num(al), num(be), num(ga), num(size)], st=r.st)
            for e in ev:
                res = Cmp(rec, I, o.st, b.st, o.st.ctx).compare(e["value"], b.value, "stored mask")
                settle(rec, res, "stored", w, I.incomplete)
        c.ob(f"stored mask of {cont}", f, LAND)

    def f(rec):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        earth(I, [])
        r = run(I, REGION, [], {"mask_name": "atlantis"})
        I.st = r.st
        private(rec, lambda: must_raise(rec, I, MM + "create_mask_region", [L, r.value], {}))
    c.ob("unknown mask is refused", f, "no mask is invented for a name the library does not know")

    for kind in ("polar", "arbitrary"):
        for reality in (ZERO, ONE):
            def f(rec, kind=kind, reality=reality):
                I = new("cold")
                L = nat("L")
                assume_ge(I, L - 1)
                spin = S("spin")
                nt, nph = run(I, "spec.sphere.shape", [L]).value
                m = arr(I, "mask", P(nt), P(nph), dt="bool")
                seen = []

                def create(I2, fn, a, k):
                    seen.append(I2.bind(fn, a, k))
                    return m
                hook(I, MM + "create_mask_region", create)
                reg = region_obj(I, kind=kind)
                flm = arr(I, "flm", L * L)
                o = private(rec, lambda: conform_k(rec, I, MM + "ensure_masked_flm_bandlimited", [flm, L, reg], {"reality": reality, "spin": spin},
                                                   "region.masked", [flm, L, m, reality, spin]))
                if o:
                    w = where_of(I, I.resolve(MM + "ensure_masked_flm_bandlimited"))
                    for e in seen:
                        settle(rec, Cmp(rec, I, I.st, I.st, I.st.ctx).compare((e["L"], e["region"]), (L, reg), "mask"), "its own mask", w, I.incomplete)
            c.ob(f"masking {'real' if reality == ONE else 'complex'} coefficients, {kind}", f, MASK)

    def f(rec):
        I = new("cold")
        w = mesh_obj(I)
        u = arr(I, "u_i", w.K, dt="real")
        private(rec, lambda: conform_k(rec, I, MM + "ensure_masked_bandlimit_mesh_signal", [w.m, u], {}, "region.mesh_masked", [w.m, u]))
    c.ob("masking a mesh signal", f, MASK)

    def f(rec):
        I = new("cold")
        w = mesh_obj(I)
        vals = [real(k) for k in ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax")]
        d = I.dict_of(dict(zip(("XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX"), vals))) if hasattr(I, "dict_of") else None
        if d is None:
            lid = I.new("l")
            d = LRef(lid)
            I.st.heap[lid] = DictC(dict(zip(("XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX"), vals)))
        private(rec, lambda: conform_k(rec, I, MM + "create_mesh_region", [d, w.verts], {}, "region.mesh_box", [w.verts] + vals))
    c.ob("mesh region", f, MESH)

    def f(rec):
        I = new("cold")
        w = mesh_obj(I)
        # faces index vertices
        private(rec, lambda: conform_k(rec, I, MM + "convert_region_on_vertices_to_faces", [w.m], {}, "region.faces_inside", [w.faces, w.region]))
    c.ob("faces in the region", f, MESH)
