"""C22 The concentration matrix is completely and Hermitianly assembled."""
from ..harness import *  # noqa: F403
from ..interp import ind2elm
from ..evalterm import FUN
from ..models import pi_, cos_, conj, shape_of, bounded, under
from ..terms import atoms_of, inds_of, open_binder, subst, simp, show, fresh, ipow_, Ctx, canon, is_zero, sum_
from .solve import *  # noqa: F403

FULL = "entry (a, b) of the matrix handed to the eigensolver = sum over the region of function a times conj(function b)"
POLARFULL = "entry (l, p) of the matrix of order m = (-1)^m sqrt((2l+1)(2p+1))/2 sum_n w3j(l n p; 0 0 0) w3j(l n p; m 0 -m) (P_(n-1) - P_(n+1))(cos theta_max), times 1+(-1)^(l+p) for a polar gap"
RACAH = "the 3j symbol is Racah's sum over every t without a negative factorial"


def obligations(c):
    for sa in "0+-":
        for sb in "0+-":
            for rel in ("higher degree", "lower degree", "same degree, higher order", "same degree, lower order", "itself"):
                if rel == "itself" and sa != sb:
                    continue
                if rel == "same degree, higher order" and (sa, sb) in (("0", "+"), ("-", "+"), ("-", "0"), ("0", "0")):
                    continue
                if rel == "same degree, lower order" and (sa, sb) in (("0", "-"), ("+", "-"), ("+", "0"), ("0", "0")):
                    continue
                nm = {"0": "zero", "+": "positive", "-": "negative"}
                c.ob(f"arbitrary region, orders {nm[sa]} and {nm[sb]}, first of {rel}", lambda rec, sa=sa, sb=sb, rel=rel: arbitrary(rec, sa, sb, rel), FULL, limit=300)


    for gap in (ZERO, ONE):
        for sign in "0+-":
            for rel in ("above", "below", "on"):
                c.ob(f"polar {'gap' if gap == ONE else 'cap'}, {dict(zip('0+-', ('order 0', 'a positive order', 'a negative order')))[sign]}, {rel} the diagonal",
                     lambda rec, sign=sign, gap=gap, rel=rel: polar_entry(rec, sign, gap, rel), POLARFULL, limit=200)
    for lo in range(3):
        for hi in range(3):
            c.ob(f"Wigner 3j symbol, lower bound {lo + 1}, upper bound {hi + 1}", lambda rec, lo=lo, hi=hi: symbol(rec, lo, hi), RACAH, limit=200)
    for rule in RULES:
        c.ob(f"Wigner 3j symbol, {rule}", lambda rec, rule=rule: selection(rec, rule), "a 3j symbol outside its selection rules is zero", limit=200)
    for rel in ("above", "below", "on"):
        c.ob(f"mesh region, {rel} the diagonal", lambda rec, rel=rel: mesh_entry(rec, rel), FULL, limit=200)


def harmonics(I):
    """the inverse transform of a single unit coefficient is that harmonic"""
    def inv(I2, a, L, spin, method, reality):
        v = fresh("d", "int", True)
        body = bounded(I2, [(v, ZERO, a.shape[0])], lambda: canon(simp(a.elem((P(v),)), I2.ctx)))
        for x in sorted(inds_of(body), key=lambda y: show(P(y), 9999)):
            if x.args[0] != "lt":
                continue
            k = None
            q = x.args[1] - x.args[2]
            co = q - subst(q, {v: ZERO})
            for s in (1, -1):
                if co == P(v) * s:
                    k = P(v) - q * s
            for d in (ZERO, ONE, -ONE):
                if k is None or v in (k + d).fv:
                    continue
                e = k + d
                at = lambda *facts: simp(body, Ctx(I2.ctx.cons + [P(f) for f in facts], I2.ctx.lits))
                if at(P(v) - e, e - P(v)) == ONE and at(P(v) - e - 1) == ZERO and at(e - P(v) - 1) == ZERO:
                    return I2.alloc(opq(I2, "harmonic", (e, L, spin, I2.node_of(method)), shape_of(I2, L, method), "complex"))
        I2.note("the field of a single harmonic was not recognised")
        return None
    hook(I, "pyssht.inverse", inv)


def weights(I):
    def w(I2, fn, a, k):
        b = I2.bind(fn, a, k)
        return I2.alloc(opq(I2, "weight", (b["L"],), run(I2, SPEC + ".sphere.shape", [b["L"]]).value, "real"))
    hook(I, "sleplet._integration_methods.calc_integration_weight", w)


def within(t, fn):
    """fn applied to the bodies of the sums of t, then to t"""
    mp = {}
    for a in atoms_of(t, ("sum",)):
        if not a.loose:
            (v,), (lo, hi, body) = open_binder(a)
            mp[a] = sum_(v, lo, hi, within(body, fn))
    return fn(subst(t, mp))


def by_sign(t, ctx):
    return within(t, lambda x: signs(x, ctx))


def signs(t, ctx):
    """harmonics of negative order by those of positive order; those of order zero are real"""
    mp = {}
    for a in atoms_of(t, ("sel",)):
        n = a.args[0]
        if n.kind != "app" or n.args[0] != "harmonic":
            continue
        l, m = (simp(x, ctx) for x in ind2elm(simp(n.args[1], ctx)))
        if simp(b_eq(m), ctx) == ONE:
            mp[a] = P(atom("sel", (atom("app", ("zonal", l) + n.args[2:], "other"),) + a.args[1:], "real"))
        elif simp(b_lt(m), ctx) == ONE:
            mp[a] = ipow_(m * 2) * conj(P(atom("sel", (atom("app", ("harmonic", l * l + l - m) + n.args[2:], "other"),) + a.args[1:], "complex")))
        elif simp(b_lt(m), ctx) == ZERO:
            mp[a] = P(atom("sel", (atom("app", ("harmonic", l * l + l + m) + n.args[2:], "other"),) + a.args[1:], "complex"))
    return subst(t, mp)


SIGNED = {"0": lambda u: ZERO, "+": lambda u: u + 1, "-": lambda u: -u - 1}


def arbitrary(rec, sa, sb, rel):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    harmonics(I)
    weights(I)
    o = mask_region(I, L, matrix=False)
    rec.where = where_cls(I, MASK)
    if o.dead:
        return rec.undecided("no construction returns")
    I.st = o.st
    es = solved(I, None)
    if len(es) != 1:
        return rec.undecided(f"{len(es)} eigenproblems recognised in one construction")
    M = es[0]["matrix"]
    settle(rec, equal(rec, M.shape[0], L * L, "rows", I.ctx) + equal(rec, M.shape[1], L * L, "columns", I.ctx), "size", incomplete=I.incomplete)
    la, lb = nat("la"), nat("lb")
    ma, mb = SIGNED[sa](nat("ua")), SIGNED[sb](nat("ub"))
    if rel in ("itself",):
        lb, mb = la, ma
    elif rel.startswith("same"):
        lb = la
    assume_ge(I, la - ma, la + ma, lb - mb, lb + mb, L - 1 - la, L - 1 - lb)
    assume_ge(I, *{"higher degree": (la - lb - 1,), "lower degree": (lb - la - 1,), "same degree, higher order": (ma - mb - 1,),
                   "same degree, lower order": (mb - ma - 1,), "itself": ()}[rel])
    a, b = la * la + la + ma, lb * lb + lb + mb
    mask = I.arr(fld(o, o.value, "mask"))
    R = mask.shape[0] - 1
    t, p = fresh("t", "int", True), fresh("p", "int", True)
    W = opq(I, "weight", (R,), mask.shape, "real")
    sch = I.node_of(I.resolve("sleplet._vars.SAMPLING_SCHEME"))
    Y = [opq(I, "harmonic", (k, R, ZERO, sch), mask.shape, "complex").elem((P(t), P(p))) for k in (a, b)]
    ref = sum_(t, ZERO, mask.shape[0], sum_(p, ZERO, mask.shape[1], Y[0] * conj(Y[1]) * W.elem((P(t), P(p))) * mask.elem((P(t), P(p)))))
    got = simp(M.elem((a, b)), I.ctx)
    settle(rec, equal(rec, simp(by_sign(got, I.ctx), I.ctx), simp(by_sign(ref, I.ctx), I.ctx), "entry (a, b)", I.ctx), incomplete=I.incomplete)
    rec.seen(I)


def w3j(a, b, c, d, e, f):
    """reference 3j symbol of integers, for the search of counterexamples"""
    from math import factorial as F, sqrt
    a, b, c, d, e, f = (int(round(x.real if isinstance(x, complex) else x)) for x in (a, b, c, d, e, f))
    if min(a, b, c) < 0 or d + e + f or c < abs(a - b) or c > a + b or abs(d) > a or abs(e) > b or abs(f) > c:
        return 0.0
    t = sum((-1) ** t / (F(t) * F(c - b + t + d) * F(c - a + t - e) * F(a + b - c - t) * F(a - t - d) * F(b - t + e))
            for t in range(max(0, b - c - d, a - c + e), min(a + b - c, a - d, b + e) + 1))
    return (-1) ** (a - b - f) * sqrt(F(a + b - c) * F(a - b + c) * F(-a + b + c) / F(a + b + c + 1)) * sqrt(
        F(a + d) * F(a - d) * F(b + e) * F(b - e) * F(c + f) * F(c - f)) * t


def legendre(n, x):
    n = int(round(n))
    if n < 0:
        n = -n - 1
    p, q = 1.0, x
    for k in range(1, n + 1):
        p, q = q, ((2 * k + 1) * x * q - k * p) / (k + 1)
    return p


FUN["w3j"] = w3j
FUN["legendre"] = legendre


def W3(*a):
    return P(atom("app", ("w3j",) + tuple(P(x) for x in a), "real"))


def ordered(t):
    """(a b c; m 0 -m) = (c b a; m 0 -m)"""
    def one(x):
        mp = {}
        for k in atoms_of(x, ("app",)):
            if k.args[0] == "w3j" and not k.loose:
                a = list(k.args[1:])
                if a[4] == ZERO and a[3] == -a[5] and show(a[2], 999) < show(a[0], 999):
                    a[0], a[2] = a[2], a[0]
                    mp[k] = W3(*a)
        return subst(x, mp)
    return within(t, one)


def PL(n, x):
    return P(atom("app", ("legendre", n, x), "real"))


def zonals(I):
    """harmonics of order zero are the Legendre polynomials"""
    def ylm(I2, th, ph, L, spin):
        if simp(b_eq(spin), I2.ctx) != ONE:
            return None
        try:
            t = th if isinstance(th, Poly) else I2.arr(th).elem(())
        except Exception:  # noqa: BLE001
            return None
        other = opq(I2, "ylm", (I2.node_of(th), I2.node_of(ph), L, spin), (L * L, ONE, ONE), "complex")

        def elem(idx):
            l, m = (simp(x, I2.ctx) for x in ind2elm(idx[0]))
            z = b_eq(m)
            return z * sqrt_((l * 2 + 1) * pow_(pi_() * 4, num(-1))) * PL(l, cos_(t)) + (ONE - z) * other.elem(idx)
        return I2.alloc(Arr((L * L, ONE, ONE), elem, "complex"))
    hook(I, "pyssht.create_ylm", ylm)


def polar_entry(rec, sign, gap, rel):
    I = new("cold")
    L, u = nat("L"), nat("u")
    m, am = {"0": (ZERO, ZERO), "+": (u + 1, u + 1), "-": (-u - 1, u + 1)}[sign]
    assume_ge(I, L - 1 - am)
    zonals(I)
    hook(I, POLAR + "._wigner3j", lambda I2, fn, a, k: W3(*(I2.bind(fn, a, k)[x] for x in ("l1", "l2", "l3", "m1", "m2", "m3"))))
    o, th = polar(I, L, m, gap, matrix=False)
    rec.where = where_cls(I, POLAR)
    if o.dead:
        return rec.undecided("no construction returns")
    I.st = o.st
    es = solved(I, None)
    if len(es) != 1:
        return rec.undecided(f"{len(es)} eigenproblems recognised in one construction")
    M = es[0]["matrix"]
    settle(rec, equal(rec, M.shape[0], L - am, "rows", I.ctx) + equal(rec, M.shape[1], L - am, "columns", I.ctx), "size", incomplete=I.incomplete)
    i, j = nat("i"), nat("j")
    if rel == "on":
        j = i
    assume_ge(I, L - am - 1 - i, L - am - 1 - j, *{"above": (j - i - 1,), "below": (i - j - 1,), "on": ()}[rel])
    l, p, n = i + am, j + am, fresh("n", "int", True)
    N = P(n)
    x = cos_(th)
    body = W3(l, N, p, 0, 0, 0) * W3(l, N, p, am, 0, -am) * (b_ite(b_lt(N - 1), ONE, PL(N - 1, x)) - PL(N + 1, x))
    d = {"above": j - i, "below": i - j, "on": ZERO}[rel]
    ref = ipow_(am * 2) * sqrt_((l * 2 + 1) * (p * 2 + 1)) * sum_(n, d, l + p + 1, body) * num(Fr(1, 2))
    if gap == ONE:
        ref = ref * (ONE + ipow_((l + p) * 2))
    settle(rec, equal(rec, ordered(simp(M.elem((i, j)), I.ctx)), ordered(simp(ref, I.ctx)), "entry (l, p)", I.ctx), incomplete=I.incomplete)
    rec.seen(I)


def degrees(I):
    a, b, c, d, e = nat("a"), nat("b"), nat("c"), S("d"), S("e")
    return a, b, c, d, e, -d - e


WIGNER = POLAR + "._wigner3j"


def symbol(rec, lo, hi):
    I = new("cold")
    fn = private(rec, lambda: I.resolve(WIGNER))
    rec.where = where_of(I, fn)
    a, b, c, d, e, f = degrees(I)
    assume_ge(I, a + b - c, a - b + c, b - a + c, a - d, a + d, b - e, b + e, c - f, c + f)
    los, his = (ZERO, b - c - d, a - c + e), (a + b - c, a - d, b + e)
    assume_ge(I, *(los[lo] - x - (1 if i < lo else 0) for i, x in enumerate(los)), *(x - his[hi] - (1 if i < hi else 0) for i, x in enumerate(his)))
    o = run(I, WIGNER, [a, b, c, d, e, f], {})
    if o.dead:
        return rec.undecided("no call returns")
    r = run(I, SPEC + ".wigner.racah", [a, b, c, d, e, f, los[lo], his[hi]])
    settle(rec, equal(rec, o.value, r.value, "value", I.ctx), incomplete=I.incomplete)
    rec.seen(I)


RULES = {
    "orders summing to more than zero": lambda a, b, c, d, e, g: (g, (g - 1, a - d, a + d, b - e, b + e)),
    "orders summing to less than zero": lambda a, b, c, d, e, g: (g, (-g - 1, a - d, a + d, b - e, b + e)),
    "degree above the triangle": lambda a, b, c, d, e, g: (ZERO, (c - a - b - 1,)),
    "third degree below the triangle, first larger": lambda a, b, c, d, e, g: (ZERO, (a - b - c - 1,)),
    "third degree below the triangle, second larger": lambda a, b, c, d, e, g: (ZERO, (b - a - c - 1,)),
    "first order too high": lambda a, b, c, d, e, g: (ZERO, (d - a - 1,)),
    "first order too low": lambda a, b, c, d, e, g: (ZERO, (-d - a - 1,)),
    "second order too high": lambda a, b, c, d, e, g: (ZERO, (e - b - 1,)),
    "second order too low": lambda a, b, c, d, e, g: (ZERO, (-e - b - 1,)),
    "third order too high": lambda a, b, c, d, e, g: (ZERO, (-d - e - c - 1,)),
    "third order too low": lambda a, b, c, d, e, g: (ZERO, (d + e - c - 1,)),
}


def selection(rec, rule):
    I = new("cold")
    fn = private(rec, lambda: I.resolve(WIGNER))
    rec.where = where_of(I, fn)
    a, b, c, d, e, f = degrees(I)
    g = S("g")
    extra, facts = RULES[rule](a, b, c, d, e, g)
    assume_ge(I, *facts)
    o = run(I, WIGNER, [a, b, c, d, e, f + extra], {})
    if o.dead:
        return rec.undecided("no call returns")
    settle(rec, equal(rec, simp(o.value, I.ctx), ZERO, "value", I.ctx), incomplete=I.incomplete)
    rec.seen(I)


def mesh_entry(rec, rel):
    I = new("cold")
    w = mesh_obj(I)
    o = run(I, MESH, [w.m], {})
    rec.where = where_cls(I, MESH)
    if o.dead:
        return rec.undecided("no construction returns")
    I.st = o.st
    es = solved(I, None)
    if len(es) != 1:
        return rec.undecided(f"{len(es)} eigenproblems recognised in one construction")
    M = es[0]["matrix"]
    settle(rec, equal(rec, M.shape[0], w.K, "rows", I.ctx) + equal(rec, M.shape[1], w.K, "columns", I.ctx), "size", incomplete=I.incomplete)
    i, j = nat("i"), nat("j")
    if rel == "on":
        j = i
    assume_ge(I, w.K - 1 - i, w.K - 1 - j, *{"above": (j - i - 1,), "below": (i - j - 1,), "on": ()}[rel])
    v = fresh("v", "int", True)
    m = I.arr(w.region if not isinstance(w.region, Arr) else w.region)
    bf = I.arr(w.bf)
    ref = sum_(v, ZERO, w.V, m.elem((P(v),)) * bf.elem((i, P(v))) * conj(bf.elem((j, P(v)))))
    settle(rec, equal(rec, simp(M.elem((i, j)), I.ctx), simp(ref, I.ctx), "entry (i, j)", I.ctx), incomplete=I.incomplete)
    rec.seen(I)
