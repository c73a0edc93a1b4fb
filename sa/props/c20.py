"""C20 Conjugate symmetry of real signals; honest reality flags."""
from ..classes import build, is_mesh, is_slepian, params, registered
from ..harness import *  # noqa: F403
from ..terms import Atom, Poly, atom, conj, open_binder

SYM = "f(l,-m) = (-1)^m conj f(l,m) for every 1 <= m <= l < L"
ZER = "the m = 0 coefficients are real"
FLAG = "a signal is flagged real only if its coefficients have the conjugate symmetry and its spin is zero"
SLEP = "Slepian signals are never flagged real"
DATA = "sleplet._data."


def files(I):
    """contents of the bundled MATLAB files: complex topography coefficients, real power spectrum"""
    n, c = nat("n_topography"), nat("n_spectrum")

    def load(I2, fn, a, k):
        return I2.new_dict({"flm": arr(I2, "topography", n, ONE), "cl": arr(I2, "spectrum", c, ONE, dt="real")})
    hook(I, "scipy.io.loadmat", load)
    return n, c


def reflected(p, l, m):
    """write the coefficients at (l,-m) of known symmetric arrays through those at (l,m)"""
    mp = {}
    for a in atoms_of(p, ("sel",)):
        if len(a.args) == 2 and isinstance(a.args[1], Poly) and a.args[1] == l * l + l - m and symmetric(a.args[0]):
            mp[a] = b_sign(m) * conj(P(atom("sel", (a.args[0], l * l + l + m), "complex")))
    return subst(p, mp) if mp else p


def b_sign(m):
    from ..terms import ipow_

    return ipow_(m * 2)


def real0(p, l):
    """m = 0 entries of known symmetric arrays are real"""
    mp = {}
    for a in atoms_of(p, ("conj",)):
        b = a.args[0]
        if isinstance(b, Atom) and b.kind == "sel" and len(b.args) == 2 and b.args[1] == l * l + l and symmetric(b.args[0]):
            mp[a] = P(b)
    return subst(p, mp) if mp else p


def symmetric(node):
    """harmonic coefficients of a real field, by construction"""
    if not isinstance(node, Atom):
        return False
    if node.kind == "app":
        nm = node.args[0]
        if nm in ("ssht_rotate", "ssht_smooth"):
            return symmetric(node.args[1])
        if nm == "ssht_forward":
            return P(node.args[3]) == ZERO and real_field(node.args[1])
        return False
    return "earth_flm" in repr(node) and node.kind == "arr"


def real_field(f):
    if isinstance(f, Atom) and f.kind == "lam":
        body = f.args[-1]
        return isinstance(body, Poly) and body.sort != "complex"
    if isinstance(f, Atom) and f.kind == "app" and f.args[0] == "ssht_inverse":
        return P(f.args[5]) == ONE
    return False


def symmetry(rec, I, st, elem, L, sub="", zero=True, mult=ONE):
    l, m = nat("l"), nat("m")
    old = I.st
    try:
        I.st = st.copy()
        ctx = st.ctx.copy()
        ctx.cons = ctx.cons + [L - 1 - l, l - m, m - 1]
        I.st.ctx = ctx
        a, b = simp(elem(l * l + l - m), ctx), simp(elem(l * l + l + m), ctx)
        settle(rec, equal(rec, reflected(a, l, m) * mult, b_sign(m) * conj(b) * mult, "symmetry", ctx), (sub + " symmetry").strip(), incomplete=I.incomplete)
        if zero:
            I.st = st.copy()
            ctx = st.ctx.copy()
            ctx.cons = ctx.cons + [L - 1 - l]
            I.st.ctx = ctx
            a = simp(elem(l * l + l), ctx)
            settle(rec, equal(rec, real0(a, l) * mult, real0(conj(a), l) * mult, "m = 0", ctx), (sub + " m = 0").strip(), incomplete=I.incomplete)
    finally:
        I.st = old


def obligations(c):
    for given in (False, True):
        def f(rec, given=given):
            I = new("cold")
            n, _ = files(I)
            L = nat("L")
            assume_ge(I, L - 1, n - L * L)
            fn = I.resolve(DATA + "create_earth_flm.create_flm")
            o = run(I, fn, [L], {"smoothing": S("smoothing", "int", True)} if given else {})
            rec.seen(I)
            coeffs(rec, I, fn, o, L, zero=False, smooth=given)
        c.ob("topography coefficients" + (", smoothed" if given else ""), f, SYM)

    def f(rec):
        I = new("cold")
        _, n = files(I)
        L = nat("L")
        assume_ge(I, L - 1, n - L)
        fn = I.resolve(DATA + "create_wmap_flm.create_flm")
        o = run(I, fn, [L])
        rec.seen(I)
        coeffs(rec, I, fn, o, L)
    c.ob("simulated CMB", f, SYM + "; " + ZER)

    def f(rec):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        sig = arr(I, "signal", L * L)
        fn = private(rec, lambda: I.resolve("sleplet.noise._create_noise"))
        if fn is None:
            return
        o = run(I, fn, [L, sig, real("snr_in")])
        rec.seen(I)
        coeffs(rec, I, fn, o, L)
    c.ob("harmonic noise", f, SYM + "; " + ZER)

    for what in ("convolve", "translate"):
        for dt in ("complex", "real") if what == "convolve" else ("complex",):
            c.ob(f"flag after {what}" + (" with real coefficients" if dt == "real" else ""), lambda rec, what=what, dt=dt: after(rec, what, dt),
                 "a translated or convolved signal is not flagged real")

    I0 = new("cold")
    try:
        classes = [(k.mod + "." + k.name, k.name) for k in registered(I0, "COEFFICIENTS") if not is_mesh(k)]
    except Exception as e:
        msg = str(e)
        c.ob("registered classes", lambda rec: rec.anchor(msg), FLAG)
        return
    for q, nm in classes:
        c.ob("reality of " + nm, lambda rec, q=q: flag(rec, q), FLAG)


def after(rec, what, dt="complex"):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    f = obj(I, "sleplet.functions.Gaussian", L=L, coefficients=arr(I, "coefficients", L * L), reality=ONE, spin=ZERO, name="the_name_L", region=None,
            noise=None, smoothing=None, extra_args=None)
    m = bound(I, f, what)
    rec.where = where_of(I, m)
    o = run(I, m, [arr(I, "a", L * L, dt=dt), arr(I, "b", L * L, dt=dt)] if what == "convolve" else [real("alpha"), real("beta")])
    rec.seen(I)
    if o.st is None:
        rec.undecided("call not followed")
        return
    settle(rec, equal(rec, P(I.truth(o.st.heap[f.oid].fields["reality"])), ZERO, "reality flag", o.st.ctx), incomplete=I.incomplete)


def coeffs(rec, I, fn, o, L, zero=True, smooth=False):
    w = rec.where = where_of(I, fn)
    if o.st is None:
        rec.undecided("call not followed", where=w)
        return
    I.st = o.st
    a = I.arr(o.value)
    symmetry(rec, I, o.st, lambda i: a.elem((i,)) if not smooth else unsmooth(a.elem((i,))), L, zero=zero)


def unsmooth(p):
    """the smoothing kernel depends on the degree only: it keeps the symmetry"""
    mp = {}
    for a in atoms_of(p, ("sel",)):
        n = a.args[0]
        if isinstance(n, Atom) and n.kind == "app" and n.args[0] == "ssht_smooth" and len(a.args) == 2:
            inner = n.args[1]
            mp[a] = beta(inner, a.args[1])
    return subst(p, mp) if mp else p


def beta(node, i):
    if isinstance(node, Atom) and node.kind == "lam":
        vs, (_, body) = open_binder(node)
        return subst(body, {vs[0]: P(i)})
    return P(atom("sel", (node, i), "complex"))


def flag(rec, q):
    for noisy in (False, True):
        I = new("cold")
        cls = I.resolve(q)
        w = where_of(I, cls)
        if noisy and is_slepian(cls):
            continue
        files(I)
        ps = [n for n, a, h in params(I, cls) if n not in ("extra_args", "mesh_slepian", "mesh", "noise", "smoothing")]
        ps = [n for n in ps if is_slepian(cls) or n != "region"] + (["noise"] if noisy else [])
        b = build(I, cls, ps)
        rec.seen(I)
        sub = "with noise" if noisy else ""
        o = b.out
        if o.st is None:
            rec.undecided("construction not followed", sub, where=w)
            continue
        r = I.truth(fld(o, o.value, "reality"))
        if r == ZERO:
            rec.proved((sub + " not flagged real").strip(), where=w)
            continue
        if is_slepian(cls):
            if r == ONE:
                rec.violation("a Slepian signal is flagged real", sub, where=w)
            else:
                rec.undecided("the flag depends on the settings: " + show(r, 100), sub, where=w)
            continue
        settle(rec, equal(rec, P(fld(o, o.value, "spin")) * r, ZERO, "spin", o.st.ctx), (sub + " spin").strip(), where=w, incomplete=I.incomplete)
        I.st = o.st
        a = I.arr(fld(o, o.value, "coefficients"))
        rec.where = w
        symmetry(rec, I, o.st, lambda i: a.elem((i,)), b.L, sub, mult=r)
