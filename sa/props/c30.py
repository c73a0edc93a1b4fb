"""C30 Region-bound data sets."""
from ..classes import continent, is_slepian, registered
from ..harness import *  # noqa: F403
from .c20 import files
from .c21 import CONTINENTS

F = "sleplet.functions."
REGION = "sleplet.slepian.region.Region"
REFUSE = "a signal tied to a continent is refused for every region that is not that continent's mask"
ACCEPT = "it is accepted for its own continent's mask"
DATA = "the signal is the topography rotated to that continent, inside that continent's mask, at the same bandlimit and smoothing"
SLEP = "the Slepian signal is made from the matching continent's data with the same bandlimit, region, noise and smoothing"
OTHERS = {
    "an unknown mask": {"mask_name": "atlantis"},
    "a mask whose name starts like the continent's": None,
    "a mask whose name ends like the continent's": None,
    "a mask whose name is the continent's in capitals": None,
    "a polar cap": {"theta_max": True},
    "a polar cap with gap": {"theta_max": True, "gap": ONE},
    "a box": {"theta_min": True, "theta_max": True, "phi_min": True, "phi_max": True},
    "any other name": None,
}


def angle(I, n):
    from ..models import pi_

    v = real(n, True)
    assume_ge(I, (pi_() if "theta" in n else 2 * pi_()) - v)
    return v


def obligations(c):
    I0 = new("cold")
    classes = [k for k in registered(I0, "COEFFICIENTS") if continent(k)]
    quals = [(k.mod + "." + k.name, k.name, continent(k), is_slepian(k)) for k in classes]
    for q, nm, cont, slep in quals:
        if slep:
            for what in ["the other continent"] + list(OTHERS):
                c.ob(f"{nm} with {what}", lambda rec, q=q, cont=cont, what=what: refused(rec, q, cont, what), REFUSE)
            c.ob(f"{nm} with its own mask", lambda rec, q=q, cont=cont: accepted(rec, q, cont), ACCEPT)
        for smooth in (False, True):
            c.ob(f"{nm}: data" + (", smoothed" if smooth else ""), lambda rec, q=q, nm=nm, cont=cont, slep=slep, smooth=smooth: data(rec, q, nm, cont, slep, smooth), SLEP if slep else DATA)
        if "WaveletCoefficients" in nm or "Noise" in nm:
            c.ob(f"{nm}: ingredients", lambda rec, q=q, nm=nm, cont=cont, slep=slep: ingredients(rec, q, nm, cont, slep), SLEP if slep else DATA)


def title(s):
    return "".join(x.capitalize() for x in s.split("_"))


def ingredients(rec, q, nm, cont, slep):
    """the wavelet and noise classes, given the continent's signal as a function of bandlimit, region and smoothing"""
    from .. import models

    I = new("cold")
    L, w = surroundings(I, cont)
    cls = I.resolve(q)
    rec.where = where_of(I, cls)
    sm = S("smoothing", "int", True)
    x = F + ("slepian_" + cont + ".Slepian" + title(cont) if slep else cont + "." + title(cont))
    xc = I.resolve(x)
    made = []
    names = [n for n, _, _, _, _ in I.class_fields(xc)]

    def signal(I2, c2, a, k):
        e = dict(zip(names, a))
        e.update(k)
        made.append(e)
        n = w.N if slep else P(e["L"]) * P(e["L"])
        region = getattr(e.get("region"), "oid", None)
        node = ("signal", P(e["L"]), I2.node_of(e.get("smoothing")), str(region) if slep else "")
        return obj(I2, x, coefficients=I2.alloc(models.opq(I2, "continent", node, (n,), "complex")), L=e["L"])
    hook(I, x, signal)
    n = w.N if slep else L * L
    sig = I.alloc(models.opq(I, "continent", ("signal", L, I.node_of(sm), str(w.region.oid) if slep else ""), (n,), "complex"))
    kw = {"smoothing": sm}
    if slep:
        kw["region"] = w.region
    if "Wavelet" in nm:
        B, jm, j = nat("B"), nat("j_min"), nat("j")
        assume_ge(I, B - 2)
        kw.update(B=B, j_min=jm, j=j)
        st = I.st.copy()
        o = run(I, q, [L], kw)
        if not made:
            return rec.undecided("the continent's signal class was not used")
        I.st = st
        sargs = [L * L, B, jm, j, sig, w.N] if slep else [L, B, jm, j, sig]
        conform_k(rec, I, q, [L], kw, "wavelets." + ("slepian_coefficient_class" if slep else "axisymmetric_coefficient_class"), sargs, exc=False,
                  post=lambda o: fld(o, o.value, "coefficients"), spost=lambda o: (o.value if isinstance(o.value, tuple) else tuple(o.st.heap[o.value.lid].items))[2])
    else:
        snr = real("snr_in")
        kw["SNR"] = snr
        st = I.st.copy()
        o = run(I, q, [L], kw)
        if not made:
            return rec.undecided("the continent's signal class was not used")
        I.st = st
        conform_k(rec, I, q, [L], kw, "noise.slepian_noise", [L, sig, w.s, snr], exc=False, post=lambda o: fld(o, o.value, "coefficients"), spost=lambda o: o.value)


def surroundings(I, name):
    n, _ = files(I)
    L = nat("L")
    assume_ge(I, L - 1, n - L * L)
    w = slepian_obj(I, L, region=region_obj(I, name=name))
    return L, w


def refused(rec, q, cont, what):
    I = new("cold")
    L, w = surroundings(I, cont)
    other = [x for x in CONTINENTS if x != cont][0]
    if what == "the other continent":
        reg = run(I, REGION, [], {"mask_name": other})
    elif OTHERS[what] is not None:
        kw = {k: (angle(I, k) if v is True else v) for k, v in OTHERS[what].items()}
        if what == "a box":
            for k, hi in (("theta", "theta_max"),):
                assume_ge(I, kw["theta_max"] - kw["theta_min"])
        reg = run(I, REGION, [], kw)
        if reg.st is None:
            return rec.undecided("the region could not be built")
    else:
        name = {"a mask whose name starts like the continent's": cont + "_small", "a mask whose name ends like the continent's": "north_" + cont,
                "a mask whose name is the continent's in capitals": cont.upper()}.get(what)
        if name is None:
            s = atom("sym", ("the_mask",), "str")
            from ..models import mkstr

            name = mkstr([("fmt", s, "")])
            assume(I, ONE - I.truth(I.streq(name, cont)))
        reg = run(I, REGION, [], {"mask_name": name})
    if reg.st is None:
        return rec.undecided("the region could not be built")
    I.st = reg.st
    must_raise(rec, I, q, [L], {"region": reg.value})


def accepted(rec, q, cont):
    I = new("cold")
    L, w = surroundings(I, cont)
    reg = run(I, REGION, [], {"mask_name": cont})
    I.st = reg.st
    must_not_raise(rec, I, q, [L], {"region": reg.value})


def data(rec, q, nm, cont, slep, smooth):
    I = new("cold")
    L, w = surroundings(I, cont)
    cls = I.resolve(q)
    rec.where = where_of(I, cls)
    kw = {"smoothing": S("smoothing", "int", True)} if smooth else {}
    o = run(I, F + "Earth", [L])
    flm0 = fld(o, o.value, "coefficients")
    I.st = o.st
    if smooth:
        o = run(I, F + "Earth", [L], kw)
        I.st = o.st
    flm = fld(o, o.value, "coefficients")
    kw = dict(kw)
    if slep:
        kw["region"] = w.region
    al, be, ga, size = CONTINENTS[cont]
    args = [L, flm0, flm, num(al), num(be), num(ga), num(size)]
    if "WaveletCoefficients" in nm:
        B, jm, j = nat("B"), nat("j_min"), nat("j")
        assume_ge(I, B - 2)
        kw.update(B=B, j_min=jm, j=j)
        extra = [B, jm, j]
        spec = "slepian_wavelets" if slep else "wavelets"
    elif "Noise" in nm:
        snr = real("snr_in")
        kw["SNR"] = snr
        extra, spec = [snr], "slepian_noise"
    else:
        extra, spec = [], "slepian" if slep else "signal"
    sargs = args + ([w.s] if slep else []) + extra
    conform_k(rec, I, q, [L], kw, "continents." + spec, sargs, exc=False, post=lambda o: fld(o, o.value, "coefficients"), spost=lambda o: o.value)
    if not slep:
        return
    # every Slepian problem involved is the one of the given bandlimit and region
    n = 0
    for ch in w.chosen:
        if not (isinstance(ch, tuple) and len(ch) == 2):
            continue
        n += 1
        if isinstance(ch[0], Poly):
            settle(rec, equal(rec, ch[0], L, "bandlimit of the Slepian problem", o.st.ctx), "bandlimit", incomplete=I.incomplete)
        if getattr(ch[1], "oid", None) != w.region.oid:
            (rec.undecided if I.incomplete else rec.violation)(f"{nm}: the data are made for another region than the one given", "region")
        else:
            rec.proved("region")
    if not n:
        rec.undecided("no Slepian problem was seen", "region")
