"""C14 Slepian functions come sorted by concentration with values and vectors paired."""
from ..harness import *  # noqa: F403
from ..models import eigh, conj
from ..terms import atoms_of, inds_of, open_binder, subst, simp, show, Poly
from .solve import *  # noqa: F403

SORT = "eigenvalue p is the p-th largest eigenvalue of the matrix; as many as the matrix has rows"
PAIR = "row p of the eigenvectors is conj(eigenvector of the p-th eigenvalue) times a unit-modulus factor common to the row"
ORDER = "row p of eigenvalues, eigenvectors and orders belong to the same order and the same eigenvector of that order"
EMBED = "an eigenvector of order m fills the coefficients of order m by increasing degree and leaves the others zero"


def obligations(c):
    c.ob("arbitrary region", lambda rec: simple(rec, MASK), "; ".join([SORT, PAIR]), limit=200)
    c.ob("latitude/longitude box", lambda rec: simple(rec, BOX), "; ".join([SORT, PAIR]), limit=200)
    c.ob("mesh region", lambda rec: simple(rec, MESH), "; ".join([SORT, PAIR]), limit=200)
    for gap in (ZERO, ONE):
        for sign in "0+-":
            nm = {"0": "order 0", "+": "a positive order", "-": "a negative order"}[sign]
            c.ob(f"polar {'gap' if gap == ONE else 'cap'}, {nm}", lambda rec, sign=sign, gap=gap: one_order(rec, sign, gap), "; ".join([SORT, PAIR, EMBED]), limit=200)
        c.ob(f"polar {'gap' if gap == ONE else 'cap'}, all orders", lambda rec, gap=gap: all_orders(rec, gap), "; ".join([SORT, ORDER, EMBED]), limit=300)


def one_solve(rec, I):
    es = solved(I, None)
    if len(es) != 1:
        rec.undecided(f"{len(es)} eigenproblems recognised in one construction")
        return None
    I.hooks = {k: f for k, f in I.hooks.items() if k != "numpy.linalg.eigh"}
    w, v = eigh(I, es[0]["ref"])
    return es[0]["matrix"], I.arr(w), I.arr(v)


def factor(E, t):
    """cofactor F of conj(t) in E, where E = F*conj(t)"""
    ct = conj(t)
    (mono,), = [tuple(ct.t)]
    a = mono[0][0]
    F = {}
    for m, c in E.t.items():
        if (a, 1) in m:
            r = tuple(x for x in m if x != (a, 1))
            F[r] = F.get(r, 0) + c
    return Poly(F)


def freed(I, t):
    """conditions on the values of the decomposition are free when no two of them look at the same value"""
    t = simp(t, I.ctx)
    mp, seen = {}, []
    for a in sorted(inds_of(t), key=lambda x: show(P(x), 10**6)):
        at = frozenset(x for x in atoms_of(a, ("sel",)) if x.args[0].kind == "app" and str(x.args[0].args[0]).startswith("eigh"))
        at = frozenset(x for x in at if not any(x is not y and x in atoms_of(y, ("sel",)) for y in at))
        if not at:
            continue
        if any(at & s for s in seen):
            return t
        seen.append(at)
        mp[a] = b_lt(S(f"choice{len(seen)}"))
    return subst(t, mp)


def row(rec, I, E, t, ks, sub):
    """E = F*conj(t) with |F| = 1 and F the same for every coefficient"""
    E = simp(freed(I, E), I.ctx)
    F = factor(E, t)
    r = equal(rec, E, F * conj(t) if F.t else conj(t), "entry of the row against its eigenvector", I.ctx)
    if all(s == "ok" for s, _ in r):
        r += equal(rec, simp(freed(I, F * conj(F)), I.ctx), ONE, "squared modulus of the row's factor", I.ctx)
        for k in ks:
            if k.fv & F.fv:
                k2 = nat("k'")
                r += equal(rec, F, subst(F, {next(iter(k.fv)): k2}), "factor at two coefficients of one row", I.ctx)
    settle(rec, r, sub, incomplete=I.incomplete)


def rows(rec, I, a, n, what, ncol=None):
    r = equal(rec, a.shape[0], n, f"number of {what}", I.ctx)
    if ncol is not None:
        r += equal(rec, a.shape[1], ncol, f"length of {what}", I.ctx)
    settle(rec, r, f"number of {what}", incomplete=I.incomplete)


def simple(rec, cls):
    I = new("cold")
    fields = ("eigenvalues", "eigenvectors")
    if cls == MESH:
        w = mesh_obj(I)
        n = w.K
        hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
        o = run(I, MESH, [w.m], {})
        fields = ("slepian_eigenvalues", "slepian_functions")
    else:
        L = nat("L")
        assume_ge(I, L - 1)
        n = L * L
        hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
        o = mask_region(I, L) if cls == MASK else box(I, L)
    rec.where = where_cls(I, cls)
    if o.dead:
        return rec.undecided(f"no construction returns: {[(str(e.cls), e.args) for _, e in o.raises]}")
    I.st = o.st
    got = one_solve(rec, I)
    if got is None:
        return
    M, W, V = got
    p, k = nat("p"), nat("k")
    assume_ge(I, n - 1 - p, n - 1 - k)
    ev, vec = I.arr(fld(o, o.value, fields[0])), I.arr(fld(o, o.value, fields[1]))
    rows(rec, I, M, n, "rows of the matrix", n)
    rows(rec, I, ev, n, "eigenvalues")
    rows(rec, I, vec, n, "eigenvectors", n)
    settle(rec, equal(rec, simp(ev.elem((p,)), I.ctx), W.elem((n - 1 - p,)), "eigenvalue p", I.ctx), "eigenvalue p", incomplete=I.incomplete)
    row(rec, I, vec.elem((p, k)), V.elem((k, n - 1 - p)), (k,), "eigenvector p")
    rec.seen(I)


def signed(sign):
    u = nat("u")
    m = {"0": ZERO, "+": u + 1, "-": -u - 1}[sign]
    return m, (m if sign != "-" else -m)


def off_order(rec, I, entry, m, sub):
    """entries of the other orders are zero"""
    l, d = nat("l'"), nat("d")
    st = I.st.ctx
    for s, mm in ((1, m + 1 + d), (-1, m - 1 - d)):
        I.st.ctx = st
        assume_ge(I, l - mm, l + mm)
        settle(rec, equal(rec, simp(entry(l * l + l + mm), I.ctx), ZERO, "coefficient of another order", I.ctx), sub + (", higher" if s > 0 else ", lower"), incomplete=I.incomplete)
    I.st.ctx = st


def one_order(rec, sign, gap):
    I = new("cold")
    L = nat("L")
    m, am = signed(sign)
    assume_ge(I, L - 1 - am)
    n = L - am
    o, th = polar(I, L, m, gap)
    rec.where = where_cls(I, POLAR)
    if o.dead:
        return rec.undecided("no construction returns")
    I.st = o.st
    got = one_solve(rec, I)
    if got is None:
        return
    M, W, V = got
    p, l = nat("p"), nat("l")
    assume_ge(I, n - 1 - p, l - am, L - 1 - l)
    ev, vec = I.arr(fld(o, o.value, "eigenvalues")), I.arr(fld(o, o.value, "eigenvectors"))
    rows(rec, I, M, n, "rows of the matrix", n)
    rows(rec, I, ev, n, "eigenvalues")
    rows(rec, I, vec, n, "eigenvectors", L * L)
    x, y = nat("x"), nat("y")
    settle(rec, equal(rec, simp(M.elem((x, y)), I.ctx), I.arr(opq(I, "Dm", (L, th, am), (n, n), "real")).elem((x, y)), "matrix solved", I.ctx), "matrix of |m|", incomplete=I.incomplete)
    settle(rec, equal(rec, simp(ev.elem((p,)), I.ctx), W.elem((n - 1 - p,)), "eigenvalue p", I.ctx), "eigenvalue p", incomplete=I.incomplete)
    row(rec, I, vec.elem((p, l * l + l + m)), V.elem((l - am, n - 1 - p)), (l,), "eigenvector p")
    off_order(rec, I, lambda k: vec.elem((p, k)), m, "other orders")
    rec.seen(I)


def all_orders(rec, gap):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    o, th = polar(I, L, None, gap)
    rec.where = where_cls(I, POLAR)
    if o.dead:
        return rec.undecided("no construction returns")
    I.st = o.st
    p = nat("p")
    n = L * L
    assume_ge(I, n - 1 - p)
    ev, vec, od = (I.arr(fld(o, o.value, f)) for f in ("eigenvalues", "eigenvectors", "order"))
    rows(rec, I, ev, n, "eigenvalues")
    rows(rec, I, vec, n, "eigenvectors", n)
    rows(rec, I, od, n, "orders")
    e0, m0 = simp(ev.elem((p,)), I.ctx), simp(od.elem((p,)), I.ctx)
    # sorted: the value at the p-th place from the end of an ascending sort of these very values
    srt = [a for a in atoms_of(e0, ("sel",)) if a.args[0].kind == "app" and a.args[0].args[0] == "argsort" and p.fv & a.fv]
    if len(srt) != 1:
        return rec.undecided(f"{len(srt)} sorts recognised in the eigenvalues")
    s = srt[0]
    vs, (shape, body) = open_binder(s.args[0].args[1])
    settle(rec, equal(rec, s.args[1], n - 1 - p, "place in the ascending order", I.ctx) + equal(rec, e0, subst(body, {vs[0]: P(s)}), "eigenvalue p against the sorted values", I.ctx),
           "descending", incomplete=I.incomplete)
    bl = [a for a in atoms_of(e0, ("blk",)) if s in atoms_of(a, ("sel",))]
    if len(bl) != 1:
        return rec.undecided("the block of row p is not recognised in the concatenated eigenvalues")
    b = bl[0]
    f = next((a for a in atoms_of(e0, ("off",)) if a.args == b.args), None)
    settle(rec, equal(rec, m0, P(b), "order p", I.ctx), "order p", incomplete=I.incomplete)
    off = nat("o")
    st = I.st.ctx
    for sign in "0+-":
        m, am = signed(sign)
        I.st.ctx = st
        l = nat("l")
        assume_ge(I, L - 1 - am, L - am - 1 - off, l - am, L - 1 - l)
        nm = {"0": "order 0", "+": "positive orders", "-": "negative orders"}[sign]
        mp = {b: m, **({f: off} if f is not None else {})}

        def at(t):
            return simp(subst(simp(t, st), mp), I.ctx)

        w, v = eigh(I, I.alloc(opq(I, "Dm", (L, th, am), (L - am, L - am), "real")))
        W, V = I.arr(w), I.arr(v)
        e = at(e0)
        node = W.tags["node"]
        a = [x for x in atoms_of(e, ("sel",)) if x.args[0] == node]
        q = a[0].args[1] if len(a) == 1 else L - am - 1 - off
        settle(rec, equal(rec, e, W.elem((q,)), "eigenvalue p", I.ctx), f"eigenvalue p, {nm}", incomplete=others(I))
        row(rec, I, at(vec.elem((p, l * l + l + m))), V.elem((l - am, q)), (l,), f"eigenvector p, {nm}")
        off_order(rec, I, lambda k: at(vec.elem((p, k))), m, f"other orders, {nm}")
    rec.seen(I)


def others(I):
    return I.incomplete
