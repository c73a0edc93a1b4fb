"""Algebraic normal forms used by the static value-flow analysis.

A *term* is a polynomial with rational coefficients over interned atoms with
rational exponents.  Booleans are 0/1 valued multilinear polynomials over
indicator atoms, so conjunction is product and `a if c else b` is c*a+(1-c)*b;
two formulas over independent comparisons are equal iff their polynomials are
identical.  Nothing here ever evaluates program code.
"""
from __future__ import annotations

import math
from fractions import Fraction as Fr

_TABLE: dict = {}
_COUNT = [0]


class Budget(Exception):
    """The normal form became too large: the obligation is undecided."""


class Atom:
    __slots__ = ("kind", "args", "id", "sort", "nonneg", "height", "fv", "unm", "_h", "info", "loose", "hasind")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def _scan(x, acc):
    """collect (height, fv, unm) from a canonical argument"""
    if isinstance(x, (Atom, Poly)):
        acc[0] = max(acc[0], x.height)
        acc[1] |= x.fv
        acc[2] = acc[2] or x.unm
        if len(acc) > 3:
            acc[3] |= x.loose
            acc[4] = acc[4] or x.hasind
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, acc)


def own_unm(a):
    """unmodelled in itself, not only through an argument"""
    if not a.unm:
        return False
    acc = [0, set(), False]
    for x in a.args:
        _scan(x, acc)
    return not acc[2]


def atom(kind, args=(), sort="complex", nonneg=False, unm=False, info=None):
    key = (kind, args)
    a = _TABLE.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.args = kind, args
    _COUNT[0] += 1
    a.id = _COUNT[0]
    a._h = hash(a.id * 2654435761 & 0xFFFFFFFF)
    a.sort, a.nonneg, a.info = sort, nonneg, info
    acc = [0, set(), unm, set(), kind == "ind"]
    for x in args:
        _scan(x, acc)
    if kind == "sym":
        acc[1].add(a)
    if kind == "bv":
        acc[3].add(args[0])
    a.height, a.fv, a.unm, a.loose, a.hasind = acc[0], frozenset(acc[1]), acc[2], frozenset(acc[3]), acc[4]
    _TABLE[key] = a
    return a


class Poly:
    __slots__ = ("t", "_h", "_fv", "_height", "_unm", "_sort", "_loose", "_hasind")

    def __init__(self, terms):
        self.t = terms  # dict mono -> Fraction, no zeros
        self._h = hash(frozenset(terms.items()))
        self._fv = None
        self._height = None
        self._unm = None
        self._sort = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (self._h == o._h and self.t == o.t))

    def __repr__(self):
        return show(self)

    def _fill(self):
        fv, h, u, lo, hi = set(), 0, False, set(), False
        for m in self.t:
            for a, _ in m:
                fv |= a.fv
                h = max(h, a.height)
                u = u or a.unm
                lo |= a.loose
                hi = hi or a.hasind
        self._fv, self._height, self._unm, self._loose, self._hasind = frozenset(fv), h, u, frozenset(lo), hi

    @property
    def loose(self):
        if self._fv is None:
            self._fill()
        return self._loose

    @property
    def hasind(self):
        if self._fv is None:
            self._fill()
        return self._hasind

    @property
    def fv(self):
        if self._fv is None:
            self._fill()
        return self._fv

    @property
    def height(self):
        if self._height is None:
            self._fill()
        return self._height

    @property
    def unm(self):
        if self._unm is None:
            self._fill()
        return self._unm

    @property
    def sort(self):
        if self._sort is None:
            s = "int"
            for m, c in self.t.items():
                if c.denominator != 1:
                    s = _lub(s, "real")
                for a, e in m:
                    s = _lub(s, a.sort if (e.denominator == 1 and e > 0) else _lub("real", a.sort))
            self._sort = s
        return self._sort

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > 60000:
            raise Budget("product too large")
        if len(o.t) == 1 and () in o.t:
            k = o.t[()]
            return Poly({m: c * k for m, c in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            k = self.t[()]
            return Poly({m: c * k for m, c in o.t.items()})
        acc: dict = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                _accum(acc, _mulmono(m1, m2), c1 * c2)
        return Poly({m: c for m, c in acc.items() if c})

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), -1)

    def __rtruediv__(self, o):
        return P(o) * power(self, -1)

    def const(self):
        """rational value or None"""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_single(self):
        return len(self.t) == 1


def _lub(a, b):
    o = {"bool": 0, "int": 0, "real": 1, "complex": 2, "other": 2}
    return a if o[a] >= o[b] else b


def _accum(acc, poly, c):
    for m, k in poly.t.items():
        v = acc.get(m, 0) + k * c
        if v:
            acc[m] = v
        elif m in acc:
            del acc[m]
    if len(acc) > 40000:
        raise Budget("polynomial too large")


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def num(c):
    c = Fr(c)
    return Poly({(): c}) if c else ZERO


def P(x) -> Poly:
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, Fr(1)),): Fr(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fr)):
        return num(x)
    if isinstance(x, float):
        return fromfloat(x)
    if isinstance(x, complex):
        return fromfloat(x.real) + fromfloat(x.imag) * I
    raise TypeError(f"not numeric: {type(x)}")


def fromfloat(x):
    if x in (float("inf"), float("-inf")) or x != x:
        return P(atom("fconst", (repr(x),), "real"))
    if x == math.pi:
        return P(PI)
    return num(Fr(repr(x)))


PI = atom("pi", (), "real", True)
IA = atom("I", (), "complex")
I = P(IA)
HALF = Fr(1, 2)


def prime(p):
    return atom("prime", (p,), "real", True)


def sym(name, sort="real", nonneg=False, info=None):
    return atom("sym", (name, sort), sort, nonneg, info=info)


_FRESH = [0]


def fresh(prefix="v", sort="int", nonneg=False):
    _FRESH[0] += 1
    return sym(f"{prefix}#{_FRESH[0]}", sort, nonneg)


# --------------------------------------------------------------------------
# monomial multiplication with the special multiplicative atoms


def _mulmono(m1, m2) -> Poly:
    if not m1:
        return _mono_norm(dict(m2))
    if not m2:
        return _mono_norm(dict(m1))
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_norm(d)


_SPECIAL = {"I", "exp", "ipow", "prime", "pow", "abs", "ind", "poly"}


def _mono_norm(d) -> Poly:
    coef = Fr(1)
    extra = []  # polys to multiply afterwards
    exps = None
    nexp = 0
    ip = None
    nip = 0
    inds = None
    special = False
    for a in d:
        if a.kind in _SPECIAL:
            special = True
            break
    if not special:
        return Poly({tuple(sorted((a, Fr(e)) for a, e in d.items() if e)): Fr(1)})
    out = {}
    for a, e in d.items():
        if not e:
            continue
        k = a.kind
        if k == "I":
            n = e % 4
            if n == 0:
                pass
            elif n == 1:
                out[a] = Fr(1)
            elif n == 2:
                coef = -coef
            elif n == 3:
                coef = -coef
                out[a] = Fr(1)
            else:
                out[a] = e
        elif k == "exp":
            exps = (exps if exps is not None else ZERO) + a.args[0] * num(e)
            nexp += 1 if e == 1 else 2
        elif k == "ipow":
            if e.denominator != 1:
                out[a] = e
            else:
                ip = (ip if ip is not None else ZERO) + a.args[0] * num(e)
                nip += 1 if e == 1 else 2
        elif k == "prime":
            fl = math.floor(e)
            coef *= Fr(a.args[0]) ** fl
            if e - fl:
                out[a] = e - fl
        elif k == "abs":
            n = math.floor(e / 2)
            z = a.args[0]
            if n and e >= 2:
                extra.append(ipowr(z * conj(z), n))
                if e - 2 * n:
                    out[a] = e - 2 * n
            else:
                out[a] = e
        elif k == "ind":
            inds = inds or []
            inds.append(a)
        elif k == "poly":
            if e.denominator == 1 and e > 0:
                extra.append(ipowr(a.args[0], int(e)))
            elif e > 1:
                n = math.floor(e)
                extra.append(ipowr(a.args[0], n))
                out[a] = e - n
            else:
                out[a] = e
        else:
            out[a] = Fr(e)
    if exps is not None:
        if nexp == 1:
            out[_exp_atom(exps)] = Fr(1)
        else:
            extra.append(exp_(exps))
    if ip is not None:
        if nip == 1:
            out[atom("ipow", (ip,), "complex")] = Fr(1)
        else:
            extra.append(ipow_(ip))
    if inds is not None:
        inds = ind_product(inds)
        if inds is None:
            return ZERO
        if isinstance(inds, Poly):
            extra.append(inds)
        else:
            for a in inds:
                out[a] = Fr(1)
    r = Poly({tuple(sorted(out.items())): coef}) if coef else ZERO
    for x in extra:
        r = r * x
    return r


def ipowr(p, n):
    if n < 0:
        return power(p, n)
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


# -- integer powers of the imaginary unit ----------------------------------


def ipow_(q: Poly) -> Poly:
    """I**q for an integer-valued polynomial q."""
    if q.sort != "int":
        return P(atom("powx", (I, q), "complex"))
    c0 = 0
    rest: dict = {}
    for m, c in q.t.items():
        c = int(c) % 4
        if not c:
            continue
        if not m:
            c0 = c
            continue
        if c == 2:  # 2*m**k == 2*m (mod 4)
            m = tuple((a, Fr(1)) for a, _ in m)
        rest[m] = (rest.get(m, 0) + c) % 4
    rest = {m: Fr(c) for m, c in rest.items() if c}
    r = {0: ONE, 1: I, 2: num(-1), 3: -I}[c0]
    if rest:
        r = r * Poly({((atom("ipow", (Poly(rest),), "real" if all(c == 2 for c in rest.values()) else "complex"), Fr(1)),): Fr(1)})
    return r


# -- exponential -------------------------------------------------------------


def _exp_atom(p):
    return atom("exp", (p,), p.sort if p.sort != "int" else "real", p.sort != "complex")


def exp_(p: Poly) -> Poly:
    p = canon(p)
    pre = ONE
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1:
            base = m[0][0].args[0]
            pre = pre * power(base, c)
            continue
        # exp(i*pi*k) with integer polynomial k
        rest[m] = c
    mi = {}
    for m, c in list(rest.items()):
        d = dict(m)
        if d.get(IA) == 1 and d.get(PI) == 1:
            d.pop(IA)
            d.pop(PI)
            q = Poly({tuple(sorted(d.items())): 2 * c})
            if q.sort == "int":
                pre = pre * ipow_(q)
                del rest[m]
    if not rest:
        return pre
    return pre * Poly({((_exp_atom(Poly(rest)), Fr(1)),): Fr(1)})


def log_(p: Poly) -> Poly:
    p = canon(p)
    c = p.const()
    if c is not None and c > 0:
        r = ZERO
        for q, e in _factor(c).items():
            r = r + P(atom("log", (num(q),), "real")) * num(e)
        return r
    if p.is_single():
        (m, c), = p.t.items()
        if c > 0 and all(_isnonneg(a) for a, _ in m):
            r = log_(num(c)) if c != 1 else ZERO
            for a, e in m:
                if a.kind == "prime":
                    r = r + log_(num(a.args[0])) * num(e)
                elif a.kind == "exp":
                    r = r + a.args[0] * num(e)
                elif a.kind == "poly":
                    r = r + P(atom("log", (a.args[0],), "real")) * num(e)
                else:
                    r = r + P(atom("log", (P(a),), "real")) * num(e)
            return r
    return P(atom("log", (p,), "real" if p.sort != "complex" else "complex"))


def _factor(c: Fr):
    out = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        q = 2
        while q * q <= n:
            while n % q == 0:
                out[q] = out.get(q, 0) + s
                n //= q
            q += 1
            if q > 5000:
                break
        if n > 1:
            out[n] = out.get(n, 0) + s
    return out


def _isnonneg(a):
    return a.nonneg or a.kind in ("pi", "prime", "abs", "ind") or (a.kind == "poly" and nonneg_poly(a.args[0]))


def nonneg_poly(p: Poly):
    """syntactically non-negative"""
    for m, c in p.t.items():
        if c < 0:
            return False
        d = dict(m)
        for a, e in d.items():
            if _isnonneg(a):
                continue
            if e.denominator == 1 and e % 2 == 0 and a.sort != "complex":
                continue
            # z*conj(z) pairs
            if a.kind == "conj" and d.get(a.args[0]) == e:
                continue
            cz = atom_conj(a)
            if cz is not None and d.get(cz) == e and e.denominator == 1:
                continue
            return False
    return True


def atom_conj(a):
    if a.sort != "complex":
        return None
    if a.kind == "conj":
        return a.args[0]
    return _TABLE.get(("conj", (a,)))


def polyatom(p: Poly):
    return atom("poly", (p,), p.sort, nonneg_poly(p))


def primitive(p: Poly):
    """p = k * q with q primitive (positive leading coefficient)"""
    g = 0
    den = 1
    for c in p.t.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    for c in p.t.values():
        g = math.gcd(g, int(c * den))
    k = Fr(g, den)
    lead = max(p.t, key=_mkey)
    if p.t[lead] < 0:
        k = -k
    q = Poly({m: c / k for m, c in p.t.items()})
    return k, q


def _mkey(m):
    return (sum(e for _, e in m), tuple((a.id, e) for a, e in m))


def square_root(q):
    """the polynomial with non-negative terms whose square is q, or None"""
    terms = {}
    for m, c in q.t.items():
        if all(x.denominator == 1 and x % 2 == 0 and x > 0 and a.kind not in ("ind", "I", "exp", "ipow") for a, x in m) and c > 0:
            r = _numpow(c, HALF).const()
            if r is None:
                return None
            terms[tuple((a, x / 2) for a, x in m)] = r
    if len(terms) * (len(terms) + 1) // 2 != len(q.t):
        return None
    root = Poly(terms)
    return root if nonneg_poly(root) and root * root == q else None


def power(p: Poly, e) -> Poly:
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        if e > 0:
            return ZERO
        return P(atom("div0", (), "real"))
    if e.denominator == 1 and e > 0:
        return ipowr(p, int(e))
    if len(p.t) > 1:
        p = canon(p)
    if len(p.t) > 1:
        k, q = primitive(p)
        if k < 0 and e.denominator != 1:
            k, q = -k, -q
        # common monomial factor
        common = None
        for m in q.t:
            d = dict(m)
            common = d if common is None else {a: min(x, d[a]) for a, x in common.items() if a in d}
        common = {a: x for a, x in common.items() if x and (a.kind not in ("ind", "ipow", "exp") and (e.denominator == 1 or _isnonneg(a)))}
        pre = ONE
        if common:
            cm = tuple(sorted(common.items()))
            inv = Poly({tuple((a, -x) for a, x in cm): Fr(1)})
            q = q * inv
            pre = power(Poly({cm: Fr(1)}), e)
        if e == HALF and len(q.t) in (3, 6, 10):
            root = square_root(q)
            if root is not None:
                return _numpow(k, e) * pre * root
        return _numpow(k, e) * pre * Poly({((polyatom(q), e),): Fr(1)})
    (m, c), = p.t.items()
    r = ONE
    if c < 0 and e.denominator != 1:
        # sqrt(-1)=I only for an explicit constant
        if not m and e == HALF:
            return I * _numpow(-c, e)
        return Poly({((polyatom(p), e),): Fr(1)})
    r = _numpow(c, e)
    left = []
    for a, x in m:
        if a.kind == "I":
            r = r * (ipowr(-I, int(-e)) if e.denominator == 1 and e < 0 else Poly({((a, x * e),): Fr(1)}))
        elif a.kind == "exp":
            r = r * exp_(a.args[0] * num(x * e))
        elif a.kind == "ipow" and e.denominator == 1:
            r = r * ipow_(a.args[0] * num(x * e))
        elif a.kind == "ind":
            if e.denominator == 1 and e < 0:
                r = r * Poly({((atom("poly", (P(a),), "real"), x * e),): Fr(1)})
            else:
                r = r * P(a)
        elif e.denominator == 1 or _isnonneg(a) or (a.kind == "poly"):
            r = r * _mono_norm({a: x * e})
        elif x.denominator == 1 and x % 2 == 0 and a.sort != "complex":
            r = r * power(abs_(P(a)), x * e)
        else:
            left.append((a, x))
    if left:
        # pair z**n * conj(z)**n
        d = dict(left)
        rem = {}
        for a, x in left:
            if a not in d:
                continue
            z = atom_conj(a)
            if z is not None and z in d and d[z] == d[a]:
                base = a if a.kind != "conj" else z
                r = r * power(abs_(P(base)), 2 * d[a] * e)
                d.pop(z, None)
                d.pop(a, None)
        if d:
            q = Poly({tuple(sorted(d.items())): Fr(1)})
            r = r * Poly({((polyatom(q), e),): Fr(1)})
    return r


def _numpow(c: Fr, e: Fr) -> Poly:
    if c == 1:
        return ONE
    if e.denominator == 1:
        return num(c ** int(e))
    r = ONE
    if c < 0:
        return Poly({((atom("poly", (num(c),), "complex"), e),): Fr(1)})
    for q, x in _factor(c).items():
        r = r * _mono_norm({prime(q): x * e})
    return r


def pow_(b: Poly, e: Poly) -> Poly:
    """general power"""
    ce = e.const()
    if ce is not None:
        return power(b, ce)
    cb = b.const()
    if cb is not None and e.sort == "int":
        if cb == -1:
            return ipow_(e * num(2))
        if cb == 1:
            return ONE
    if e.sort == "int" and b == I:
        return ipow_(e)
    if e.sort == "int" and b == -I:
        return ipow_(-e)
    if cb is not None and cb > 0:
        return exp_(e * log_(b))
    if b.is_single() and nonneg_poly(b):
        return exp_(e * log_(b))
    return P(atom("powx", (b, e), b.sort if b.sort == "complex" else "real"))


def sqrt_(p):
    return power(p, HALF)


# -- conj / real / imag / abs -----------------------------------------------


def conj(p: Poly) -> Poly:
    if p.sort != "complex":
        return p
    acc: dict = {}
    for m, c in p.t.items():
        r = num(c)
        for a, e in m:
            r = r * _conj_atom(a, e)
        _accum(acc, r, Fr(1))
    return Poly({m: c for m, c in acc.items() if c})


def _conj_atom(a, e):
    if a.sort != "complex":
        return _mono_norm({a: e})
    if a.kind == "I":
        return Poly({((a, e),): Fr(1)}) * (num(-1) if e == 1 else ONE)
    if a.kind == "conj":
        return _mono_norm({a.args[0]: e})
    if a.kind == "exp":
        return exp_(conj(a.args[0]) * num(e))
    if a.kind == "ipow":
        return ipow_(-a.args[0] * num(e))
    if a.kind == "poly":
        return power(conj(a.args[0]), e)
    if a.kind in ("sum",):
        r = rebuild_sum(a, conj)
        return power(r, e)
    if a.kind == "sel":
        return power(P(atom("sel", (conj(a.args[0]) if isinstance(a.args[0], Poly) else a.args[0],) + a.args[1:], "complex")), e) if isinstance(a.args[0], Poly) else Poly({((atom("conj", (a,), "complex", unm=a.unm), e),): Fr(1)})
    return Poly({((atom("conj", (a,), "complex", unm=a.unm), e),): Fr(1)})


def re_(p):
    if p.sort != "complex":
        return p
    return (p + conj(p)) * num(HALF)


def im_(p):
    if p.sort != "complex":
        return ZERO
    return (p - conj(p)) * (-I) * num(HALF)


def abs_(p: Poly) -> Poly:
    p = canon(p)
    c = p.const()
    if c is not None:
        return num(abs(c))
    if nonneg_poly(p) and p.sort != "complex":
        return p
    if p.is_single():
        (m, c), = p.t.items()
        r = num(abs(c))
        for a, e in m:
            if a.kind in ("I", "ipow"):
                continue
            if a.kind == "exp":
                r = r * exp_(re_(a.args[0]) * num(e))
            elif a.kind == "conj":
                r = r * power(abs_(P(a.args[0])), e)
            elif _isnonneg(a):
                r = r * _mono_norm({a: e})
            else:
                r = r * _mono_norm({atom("abs", (P(a),), "int" if a.sort == "int" else "real", True): e})
        return r
    # choose a canonical sign
    if p.sort != "complex" and nonneg_poly(-p):
        return -p
    k, q = primitive(p)
    cq = conj(q)
    if cq != q and min((q, cq), key=lambda z: sorted(_mkey(m) for m in z.t)) is cq:
        pass
    return num(abs(k)) * P(atom("abs", (q,), "int" if q.sort == "int" else "real", True))


# -- canonicalisation of rational functions ---------------------------------


def _divide(nump: Poly, den: Poly):
    """exact polynomial division or None (monomials with any exponents)"""
    lead = max(den.t, key=_dkey)
    lc = den.t[lead]
    q: dict = {}
    r = nump
    steps = 0
    while r.t:
        steps += 1
        if steps > 400:
            return None
        lm = max(r.t, key=_dkey)
        d = dict(lm)
        ok = True
        for a, e in lead:
            x = d.get(a, 0) - e
            if x < 0:
                ok = False
                break
            if x:
                d[a] = x
            else:
                d.pop(a, None)
        if not ok:
            return None
        mono = tuple(sorted(d.items()))
        c = r.t[lm] / lc
        q[mono] = q.get(mono, 0) + c
        r = r - Poly({mono: c}) * den
    return Poly({m: c for m, c in q.items() if c})


def _dkey(m):
    return tuple(sorted(((a.id, e) for a, e in m), reverse=True))


def canon(p: Poly) -> Poly:
    """cancel common factors between numerators and polynomial denominators"""
    if len(p.t) <= 1:
        return p
    pats = {}
    for m in p.t:
        for a, e in m:
            if a.kind == "poly":
                pats.setdefault(a, set()).add(e)
    if not pats:
        return p
    for a in sorted(pats):
        groups: dict = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, Fr(0))
            f = e - math.floor(e)
            groups.setdefault(f, {}).setdefault(math.floor(e), {})[tuple(sorted(d.items()))] = c
        acc = ZERO
        q = a.args[0]
        for f, levels in groups.items():
            if f == 0 and min(levels) >= 0:
                for lv, t in levels.items():
                    acc = acc + Poly(t)
                continue
            e0 = min(levels)
            N = ZERO
            for lv, t in levels.items():
                N = N + Poly(t) * ipowr(q, lv - e0)
            if not N.t:
                continue
            e = e0
            while True:
                dv = _divide(N, q)
                if dv is None:
                    break
                N, e = dv, e + 1
                if e + f >= 1 and f == 0:
                    break
                if e > e0 + 12:
                    break
            ex = e + f
            if ex == 0:
                acc = acc + N
            elif ex > 0 and f == 0:
                acc = acc + N * ipowr(q, int(ex))
            else:
                acc = acc + _rawmul(N, a, ex)
        p = acc
    return p


def _rawmul(N, a, ex):
    out = {}
    for m, c in N.t.items():
        d = dict(m)
        d[a] = d.get(a, 0) + ex
        out[tuple(sorted(d.items()))] = c
    return Poly(out)


def is_zero(p: Poly) -> bool:
    if not p.t:
        return True
    p = canon(p)
    if not p.t:
        return True
    # clear denominators
    for _ in range(6):
        worst = {}
        for m in p.t:
            for a, e in m:
                if a.kind == "poly" and e < 0:
                    worst[a] = min(worst.get(a, Fr(0)), e)
        if not worst:
            break
        a = sorted(worst)[0]
        k = -math.floor(worst[a])
        acc = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, Fr(0)) + k
            n = math.floor(e)
            f = e - n
            if f:
                d[a] = f
            acc = acc + Poly({tuple(sorted(d.items())): c}) * ipowr(a.args[0], n)
        p = acc
        if not p.t:
            return True
    return not p.t


# --------------------------------------------------------------------------
# booleans as indicator polynomials


def constval(p: Poly):
    """float value of a numeric constant (pi, primes) or None"""
    v = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            if a.kind == "pi":
                x *= math.pi ** float(e)
            elif a.kind == "prime":
                x *= float(a.args[0]) ** float(e)
            elif a.kind == "fconst":
                x *= float(a.args[0])
            else:
                return None
        v += x
    return v


def split_const(p: Poly):
    base, cst = {}, {}
    for m, c in p.t.items():
        if all(a.kind in ("pi", "prime") for a, _ in m):
            cst[m] = c
        else:
            base[m] = c
    return Poly(base), Poly(cst)


def b_lt(p: Poly) -> Poly:
    """[p < 0]"""
    p = canon(p)
    base, cst = split_const(p)
    if not base.t:
        return ONE if constval(cst) < -1e-15 else ZERO
    if p.sort == "complex":
        return P(atom("ind", ("cplxlt", p), "int", True))
    k, q = primitive(base)
    thr = cst * num(-1 / k)  # q < thr if k>0 ; q > thr if k<0
    if q.sort == "int":
        tv = constval(thr)
        ct = thr.const()
        if k > 0:
            t = math.ceil(ct) if ct is not None else math.ceil(tv)
            return _lt_ind(q, num(t))
        t = math.floor(ct) if ct is not None else math.floor(tv)
        return ONE - _lt_ind(q, num(t + 1))
    if k > 0:
        return _lt_ind(q, thr)
    return ONE - _lt_ind(q, thr) - b_eqt(q, thr)


def _lt_ind(q, thr):
    s = simple_sign(q, thr)
    if s == "ge":
        return ZERO
    if s == "lt":
        return ONE
    return P(atom("ind", ("lt", q, thr), "int", True))


def simple_sign(q, thr):
    """decide q<thr from syntactic non-negativity"""
    tv = constval(thr)
    if tv <= 0 and nonneg_poly(q):
        return "ge"
    if tv > 0 and nonneg_poly(-q):
        return "lt"
    return None


def b_eqt(q, thr):
    tv = constval(thr)
    if tv < 0 and nonneg_poly(q):
        return ZERO
    return P(atom("ind", ("eq", q, thr), "int", True))


def b_eq(p: Poly) -> Poly:
    """[p == 0]"""
    p = canon(p)
    if not p.t:
        return ONE
    base, cst = split_const(p)
    if not base.t:
        return ONE if abs(constval(cst)) < 1e-15 else ZERO
    k, q = primitive(base)
    thr = cst * num(-1 / k)
    if q.sort == "int":
        ct = thr.const()
        if ct is None or ct.denominator != 1:
            return ZERO
        return _lt_ind(q, thr + 1) - _lt_ind(q, thr)
    if p.sort == "complex":
        return P(atom("ind", ("eq", q, thr), "int", True))
    return b_eqt(q, thr)


def b_le(p):
    return ONE - b_lt(-p)


def b_and(*xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def b_or(*xs):
    r = ONE
    for x in xs:
        r = r * (ONE - x)
    return ONE - r


def b_not(x):
    return ONE - x


def b_atom(*args):
    """an opaque boolean atom"""
    return P(atom("ind", ("b",) + args, "int", True))


def b_ite(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if a == b:
        return a
    return c * a + (ONE - c) * b


def ind_product(inds):
    """combine indicator atoms of one monomial; None when contradictory"""
    groups: dict = {}
    out = []
    for a in inds:
        if a.args[0] in ("lt", "eq"):
            groups.setdefault(a.args[1], []).append(a)
        else:
            out.append(a)
    for q, lst in groups.items():
        if len(lst) == 1:
            out.append(lst[0])
            continue
        lt = None
        eq = None
        for a in lst:
            if a.args[0] == "lt":
                if lt is None or constval(a.args[2]) < constval(lt.args[2]):
                    lt = a
            else:
                if eq is not None and eq is not a:
                    return None
                eq = a
        if eq is not None:
            if lt is not None and not (constval(eq.args[2]) < constval(lt.args[2])):
                return None
            out.append(eq)
        else:
            out.append(lt)
    return out


def inds_of(x, acc=None, deep=True):
    """all indicator atoms occurring in a term (outside binders' bound use)"""
    acc = acc if acc is not None else set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                inds_of(a, acc, deep)
    elif isinstance(x, Atom):
        if x.kind == "ind":
            acc.add(x)
        if deep:
            for y in x.args:
                inds_of(y, acc, deep)
    elif isinstance(x, tuple):
        for y in x:
            inds_of(y, acc, deep)
    return acc


# --------------------------------------------------------------------------
# substitution

REBUILD = {}


def subst(x, mp):
    """mp: dict atom -> Poly"""
    if not mp:
        return x
    keys = frozenset(k for k in mp if k.kind == "sym")
    hasother = len(keys) != len(mp)
    if hasother and all(k.kind in ("ind", "sym") for k in mp):
        hasother = "ind"
    memo: dict = {}
    return _subst(x, mp, keys, hasother, memo)


def _subst(x, mp, keys, other, memo):
    if isinstance(x, Poly):
        if _skip(x, keys, other):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        acc: dict = {}
        plain: dict = {}
        for m, c in x.t.items():
            r = None
            keep = {}
            for a, e in m:
                na = _subst_atom(a, mp, keys, other, memo)
                if na is a:
                    keep[a] = e
                else:
                    na = P(na)
                    r = power(na, e) if r is None else r * power(na, e)
            if r is None:
                plain[m] = plain.get(m, 0) + c
            else:
                if keep:
                    r = r * Poly({tuple(sorted(keep.items())): Fr(1)})
                _accum(acc, r, c)
        for m, c in plain.items():
            v = acc.get(m, 0) + c
            if v:
                acc[m] = v
            elif m in acc:
                del acc[m]
        r = Poly({m: c for m, c in acc.items() if c})
        memo[x] = r
        return r
    if isinstance(x, Atom):
        return _subst_atom(x, mp, keys, other, memo)
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, keys, other, memo) for y in x)
    return x


def _skip(x, keys, other):
    """nothing to replace inside x"""
    if other is True:
        return False
    if other is False:
        return not (x.fv & keys)
    if other == "ind":
        return not x.hasind and not (x.fv & keys)
    return other[1] not in x.loose


def _subst_atom(a, mp, keys, other, memo):
    if a in mp:
        return mp[a]
    if not a.args or a.kind in ("sym", "bv"):
        return a
    if _skip(a, keys, other):
        return a
    r = memo.get(a)
    if r is not None:
        return r
    fn = REBUILD.get(a.kind)
    if a.kind in BINDERS:
        r = _subst_binder(a, mp, keys, other, memo)
    else:
        na = tuple(_subst(y, mp, keys, other, memo) for y in a.args)
        if na == a.args:
            r = a
        elif fn is not None:
            r = fn(na, a)
        else:
            r = atom(a.kind, na, a.sort, a.nonneg, unm=own_unm(a), info=a.info)
    memo[a] = r
    return r


BINDERS = {"sum", "lam", "prod", "forall", "redb"}


def open_binder(a):
    """-> (fresh symbols, opened args)"""
    n = a.args[0]
    vs = [fresh("o", "int", _bvnn(a, k)) for k in range(n)]
    h = a.height
    mp = {bv(h, k, _bvnn(a, k)): P(vs[k]) for k in range(n)}
    memo = {}
    other = ("bv", h)
    return vs, tuple(_subst(y, mp, frozenset(), other, memo) for y in a.args[1:])


def _bvnn(a, k):
    return True


def bv(h, k, nonneg=True):
    return atom("bv", (h, k), "int", nonneg)


def close(vs, args):
    """rename fresh symbols vs to canonical bound variables; -> (height, args)"""
    acc = [0, set(), False]
    for x in args:
        _scan(x, acc)
    h = acc[0] + 1
    mp = {v: P(bv(h, k)) for k, v in enumerate(vs)}
    return h, tuple(subst(x, mp) for x in args)


def mk_binder(kind, vs, args, sort="complex", nonneg=False, info=None):
    h, args = close(vs, args)
    a = atom(kind, (len(vs),) + args, sort, nonneg, info=info)
    if a.height < h:
        a.height = h
    a.loose = a.loose - {h}
    return a


def _subst_binder(a, mp, keys, other, memo):
    vs, args = open_binder(a)
    na = tuple(_subst(y, mp, keys, other, memo) for y in args)
    if a.kind == "sum":
        return sum_(vs[0], na[0], na[1], na[2])
    return mk_binder(a.kind, vs, na, a.sort, a.nonneg, a.info)


# -- sums --------------------------------------------------------------------


def sum_(v, lo: Poly, hi: Poly, body: Poly) -> Poly:
    """Sum of body for lo <= v < hi (v a symbol atom)"""
    body = canon(body)
    if v not in body.fv:
        return body * (hi - lo)
    n = (hi - lo).const()
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n <= 3:
        r = ZERO
        for k in range(int(n)):
            r = r + subst(body, {v: lo + k})
        return r
    total = ZERO
    buckets: dict = {}
    if body.hasind:
        delta, body = _sum_deltas(v, lo, hi, body)
        total = total + delta
        if not body.t:
            return total
        if v not in body.fv:
            return total + body * (hi - lo)
    for m, c in body.t.items():
        outm, inm = [], []
        for a, e in m:
            (inm if v in a.fv else outm).append((a, e))
        buckets.setdefault(tuple(inm), {})[tuple(outm)] = c
    for inm, outp in buckets.items():
        inner = Poly({inm: Fr(1)})
        total = total + Poly(outp) * _sum_mono(v, lo, hi, inm, inner)
    return total


def _sum_mono(v, lo, hi, inm, inner):
    if not inm:
        return hi - lo
    if len(inm) == 1 and inm[0][0] is v and inm[0][1].denominator == 1 and 0 < inm[0][1] <= 3:
        k = int(inm[0][1])
        f = {1: lambda n: n * (n - 1) * num(Fr(1, 2)),
             2: lambda n: n * (n - 1) * (n * 2 - 1) * num(Fr(1, 6)),
             3: lambda n: (n * (n - 1) * num(Fr(1, 2))) * (n * (n - 1) * num(Fr(1, 2)))}[k]
        return f(hi) - f(lo)
    if len(inm) == 1 and inm[0][1] == 1 and inm[0][0].kind == "abs" and inm[0][0].args[0] == P(v) and lo == ONE - hi and nonneg_poly(hi) and hi.sort == "int":
        return hi * (hi - 1)
    sort = inner.sort
    nn = nonneg_poly(inner)
    a = mk_binder("sum", [v], (lo, hi, inner), sort, nn)
    if not _NOREORDER[0]:
        sums = [x for x, e in inm if x.kind == "sum" and e == 1]
        if len(sums) == 1:
            ws, (wlo, whi, wbody) = open_binder(sums[0])
            if v not in wlo.fv and v not in whi.fv:
                rest = Poly({tuple((x, e) for x, e in inm if x is not sums[0]): Fr(1)})
                full = rest * wbody
                _NOREORDER[0] = True
                try:
                    alt1 = sum_(ws[0], wlo, whi, sum_(v, lo, hi, full))
                    alt2 = sum_(v, lo, hi, sum_(ws[0], wlo, whi, full))
                finally:
                    _NOREORDER[0] = False
                return min((alt1, alt2), key=lambda z: (len(z.t), show(z, 10**6)))
    return P(a)


def _sum_deltas(v, lo, hi, body):
    """sum the terms X(v)*[v == t] (and counts of one order) in closed form -> (value, rest)"""
    total = ZERO
    em = atom("emm", (P(v),), "int")
    terms = dict(body.t)
    for m in list(terms):
        if m not in terms:
            continue
        for a, e in m:
            if a.kind != "ind" or v not in a.fv or a.args[0] not in ("lt", "eq"):
                continue
            q, thr = a.args[1], a.args[2]
            rest = tuple((x, y) for x, y in m if x is not a)
            if a.args[0] == "lt":
                if q.sort != "int":
                    continue
                b = b_lt(q - thr + 1)
                if len(b.t) != 1:
                    continue
                (mb, cb), = b.t.items()
                if cb != 1 or len(mb) != 1:
                    continue
                m2 = tuple(sorted(rest + mb))
                if terms.get(m2) != -terms[m]:
                    continue
            else:
                m2 = None
            q = q - thr + (1 if m2 is not None else 0)
            cv = q.t.get(((v, Fr(1)),))
            ce = q.t.get(((em, Fr(1)),))
            coef = Poly({rest: terms[m]})
            if cv in (1, -1):
                t = -(q - P(v) * num(cv)) * num(cv)
                if v in t.fv:
                    continue
                r = subst(coef, {v: t}) * b_le(lo - t) * b_lt(t - hi)
            elif ce in (1, -1) and lo == ZERO and LOOK and v not in coef.fv:
                M = -(q - P(em) * num(ce)) * num(ce)
                if v in M.fv:
                    continue
                l, mm = LOOK[0](hi)
                aM = abs_(M)
                r = coef * b_le(aM - l) * (l - aM + b_lt(M - mm))
            else:
                continue
            total = total + r
            del terms[m]
            if m2 is not None:
                del terms[m2]
            break
    if len(terms) == len(body.t):
        return ZERO, body
    return total, Poly(terms)


def forall_(bs, body):
    """[body holds for every lo <= v < hi]; bs = [(v, lo, hi)]"""
    body = canon(body)
    if body == ONE or any((lo - hi).const() is not None and (hi - lo).const() <= 0 for _, lo, hi in bs):
        return ONE
    used = [b for b in bs if b[0] in body.fv or any(b[0] in c[1].fv or b[0] in c[2].fv for c in bs if c is not b)]
    empty = ZERO
    for b in bs:
        if b not in used and (b[2] - b[1]).const() is None:
            empty = b_or(empty, b_le(b[2] - b[1]))
    if not used:
        return b_or(empty, body)
    if len(used) == 1:
        v, lo, hi = used[0]
        n = (hi - lo).const()
        if n is not None and n <= 4:
            r = ONE
            for k in range(int(n)):
                r = r * subst(body, {v: lo + k})
            return b_or(empty, r)
    # conjunctions are split: forall (a and b) = forall a and forall b
    outs = ONE
    if len(body.t) == 1:
        (m, c), = body.t.items()
        if c == 1 and len(m) > 1 and all(a.kind == "ind" for a, _ in m):
            for a, _ in m:
                outs = outs * forall_(used, P(a))
            return b_or(empty, outs)
    node = mk_binder("forall", [v for v, _, _ in used], (tuple((lo, hi) for _, lo, hi in used), body), "other")
    return b_or(empty, P(atom("ind", ("b", "forall", node), "int", True)))


LOOK = []
_NOREORDER = [False]


def rebuild_sum(a, fn):
    vs, (lo, hi, body) = open_binder(a)
    return sum_(vs[0], lo, hi, fn(body))


# --------------------------------------------------------------------------
# rebuild registry for substitution under interpreted atoms


def _r_exp(args, a):
    return exp_(args[0])


def _r_ind(args, a):
    k = args[0]
    if k == "lt":
        return b_lt(args[1] - args[2])
    if k == "eq":
        return b_eq(args[1] - args[2])
    if k == "cplxlt":
        return b_lt(args[1])
    fn = IND_REBUILD.get(args[1]) if len(args) > 1 and isinstance(args[1], str) else None
    if fn is not None:
        return fn(args, a)
    return P(atom("ind", args, "int", True, unm=own_unm(a)))


IND_REBUILD = {}

REBUILD.update(
    exp=_r_exp,
    ind=_r_ind,
    ipow=lambda args, a: ipow_(args[0]),
    log=lambda args, a: log_(args[0]),
    abs=lambda args, a: abs_(args[0]),
    conj=lambda args, a: conj(P(args[0])),
    poly=lambda args, a: power(args[0], 1) if len(args[0].t) <= 1 else _r_poly(args[0]),
    powx=lambda args, a: pow_(args[0], args[1]),
)


def _r_poly(p):
    """a poly atom after substitution; exponent applied by caller via power()"""
    return p


# --------------------------------------------------------------------------
# linear feasibility (Fourier-Motzkin) over the non-constant monomials


class Ctx:
    """a conjunction of known facts (linear constraints and literals)"""

    def __init__(self, cons=(), lits=None):
        self.cons = list(cons)  # polys known  >= 0
        self.lits = dict(lits or {})  # ind atom -> 0/1

    def copy(self):
        return Ctx(self.cons, self.lits)

    def sig(self):
        return (tuple(c if isinstance(c, Poly) else ("s", c[1]) for c in self.cons), frozenset(self.lits.items()))

    def assume_ge(self, p):
        self.cons.append(P(p))
        return self

    def assume(self, ind_atom, val):
        c = self.copy()
        c.lits[ind_atom] = val
        c.cons += lit_cons(ind_atom, val)
        return c


def lit_cons(a, val):
    k = a.args[0]
    if k == "lt":
        q, thr = a.args[1], a.args[2]
        if q.sort == "int":
            return [thr - q - 1] if val else [q - thr]
        return [("strict", thr - q)] if val else [q - thr]
    if k == "eq" and val and a.args[1].sort != "complex":
        return [a.args[1] - a.args[2], a.args[2] - a.args[1]]
    return []


def _lin(p):
    """linear form {mono: coeff}, const(float-exact Fraction)"""
    d = {}
    c0 = Fr(0)
    for m, c in p.t.items():
        if not m:
            c0 += c
        elif all(a.kind in ("pi", "prime") for a, _ in m):
            c0 += Fr(constval(Poly({m: c}))).limit_denominator(10**12)
        else:
            d[m] = d.get(m, 0) + c
    return d, c0


def auto_cons(monos):
    """intrinsic facts about monomials"""
    out = []
    for m in monos:
        p = Poly({m: Fr(1)})
        if nonneg_poly(p):
            out.append((p, False))
        if len(m) == 1:
            a, e = m[0]
            if a.kind == "ind":
                out.append((ONE - p, False))
            if e == 1 and a.kind in ("min", "max"):
                for x in a.args:
                    out.append(((x - p) if a.kind == "min" else (p - x), False))
            if a.kind == "ell" and e == 1:
                pass
            if e == 1 and a.kind == "app" and a.args[0] == "factorial":
                out.append((p - 1, False))
            if e == 1 and a.kind == "app" and a.args[0] in ("theta_to_index", "phi_to_index") and ("Method", "MWSS") in a.args and isinstance(a.args[2], Poly):
                out.append(((a.args[2] if a.args[0] == "theta_to_index" else 2 * a.args[2] - 1) - p, False))
            if e == 1 and a.kind == "emm":  # m index of ind2elm
                l = P(atom("ell", a.args, "int", True))
                out.append((l - p, False))
                out.append((l + p, False))
            if e == 2 and a.sort == "int":
                # a**2 >= |a| for integers
                out.append((p - P(a), False))
                out.append((p + P(a), False))
    return out


_INF: dict = {}


def infeasible(cons, maxvars=40):
    """True when the constraint list has no real solution (sound)."""
    key = frozenset(cons)
    r = _INF.get(key)
    if r is None:
        r = _infeasible(key, maxvars)
        if len(_INF) > 400000:
            _INF.clear()
        _INF[key] = r
    return r


def _infeasible(cons, maxvars=40):
    rows = []
    seen = set()

    def add(p, strict):
        d, c = _lin(p)
        if p.sort == "complex":
            return
        key = (tuple(sorted((m, v) for m, v in d.items())), c, strict)
        if key in seen:
            return
        seen.add(key)
        rows.append((d, c, strict))

    for c in cons:
        if isinstance(c, tuple):
            add(c[1], True)
        else:
            add(c, False)
    for _ in range(2):
        monos = set()
        for d, _, _ in rows:
            monos |= set(d)
        n0 = len(rows)
        for p, s in auto_cons(monos):
            add(p, s)
        if len(rows) == n0:
            break
    # eliminate
    rows = [r for r in rows]
    for _ in range(maxvars):
        for d, c, s in rows:
            if not d and (c < 0 or (s and c <= 0)):
                return True
        cnt: dict = {}
        for d, c, s in rows:
            for m, v in d.items():
                x = cnt.setdefault(m, [0, 0])
                x[0 if v > 0 else 1] += 1
        if not cnt:
            return False
        m = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1])
        if cnt[m][0] * cnt[m][1] > 4000:
            return False
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if not r[0].get(m, 0)]
        new = {}
        for d1, c1, s1 in pos:
            for d2, c2, s2 in neg:
                a, b = -d2[m], d1[m]
                d = {}
                for k, v in d1.items():
                    if k != m:
                        d[k] = d.get(k, 0) + v * a
                for k, v in d2.items():
                    if k != m:
                        d[k] = d.get(k, 0) + v * b
                d = {k: v for k, v in d.items() if v}
                c = c1 * a + c2 * b
                if not d:
                    if c < 0 or ((s1 or s2) and c <= 0):
                        return True
                    continue
                sc = abs(next(iter(sorted(d.items())))[1])
                d = {k: v / sc for k, v in d.items()}
                c = c / sc
                key = tuple(sorted(d.items()))
                o = new.get(key)
                if o is None or c < o[1] or (c == o[1] and (s1 or s2)):
                    new[key] = (d, c, s1 or s2)
        rows = rest + list(new.values())
        if len(rows) > 600:
            return False
    return False


def _ell_lt(ctx, q, thr):
    """[ell(x) < R] is [x < R*R] for R >= 0"""
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ell" and c in (1, -1):
            X = m[0][0].args[0]
            rest = q - Poly({m: c})
            if any(a.kind in ("ell", "emm") for mm in rest.t for a, _ in mm):
                return None
            R = thr - rest if c == 1 else rest - thr + 1
            if not infeasible(ctx.cons + [-R - 1]):
                return None
            if infeasible(ctx.cons + [X - R * R]):  # X < R*R
                return c == 1
            if infeasible(ctx.cons + [R * R - X - 1]):
                return c != 1
            return None
    return None


def _abs_lt(ctx, q, thr):
    """by the sign of the argument of a magnitude"""
    for m in q.t:
        if len(m) == 1 and m[0][0].kind == "abs" and m[0][1] == 1 and isinstance(m[0][0].args[0], Poly) and m[0][0].args[0].sort == "int":
            a, x = m[0][0], m[0][0].args[0]
            rs = set()
            for v, fact in ((x, x), (-x, -x - 1)):
                c2 = Ctx(ctx.cons + [fact, P(a) - v, v - P(a)], ctx.lits)
                q2 = subst(q, {a: v})
                if infeasible(c2.cons):
                    continue
                rs.add(True if infeasible(c2.cons + [q2 - thr]) else False if infeasible(c2.cons + [thr - q2 - 1]) else None)
            return rs.pop() if len(rs) == 1 else None
    return None


def _square_lt(ctx, q, thr):
    """differences of squares, with the products of the linear facts about their terms"""
    sq = {}
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 2:
            sq[m[0][0]] = c
    if len(sq) < 2 or not (min(sq.values()) < 0 < max(sq.values())):
        return None
    lin = [P(a) for a in sorted(sq) if nonneg_poly(P(a))]
    for c in ctx.cons:
        if isinstance(c, Poly) and c.sort == "int" and all(len(m) <= 1 and all(e == 1 for _, e in m) for m in c.t):
            at = set(a for m in c.t for a, _ in m)
            if at and at <= set(sq) and c not in lin:
                lin.append(c)
    if len(lin) > 8:
        return None
    prods = lin + [x * y for i, x in enumerate(lin) for y in lin[i:]]
    if infeasible(ctx.cons + prods + [q - thr]):
        return True
    if infeasible(ctx.cons + prods + [thr - q - 1]):
        return False
    return None


def entails_lt(ctx: Ctx, q, thr):
    """decide [q<thr] in ctx: True/False/None"""
    if q.sort == "int":
        if infeasible(ctx.cons + [q - thr]):
            return True
        if infeasible(ctx.cons + [thr - q - 1]):
            return False
        r = _ell_lt(ctx, q, thr)
        r = _square_lt(ctx, q, thr) if r is None else r
        return _abs_lt(ctx, q, thr) if r is None else r
    if infeasible(ctx.cons + [q - thr]):
        return True
    if infeasible(ctx.cons + [("strict", thr - q)]):
        return False
    return None


def decide_ind(ctx: Ctx, a):
    if a in ctx.lits:
        return bool(ctx.lits[a])
    k = a.args[0]
    if k == "lt":
        return entails_lt(ctx, a.args[1], a.args[2])
    if k == "eq" and a.args[1].sort != "complex":
        q, thr = a.args[1], a.args[2]
        if infeasible(ctx.cons + [q - thr, thr - q]):
            return False
        if infeasible(ctx.cons + [("strict", q - thr)]) and infeasible(ctx.cons + [("strict", thr - q)]):
            return True
    return None


DIVIDE = [None]


def resolve_elm(x, ctx: Ctx):
    """ell(l^2+l+m) -> l and emm(l^2+l+m) -> m where ctx knows |m| <= l"""
    mp = {}
    for a in atoms_of(x, ("ell", "emm", "floordiv", "mod")):
        if a.loose:
            continue
        p = a.args[0]
        if a.kind in ("floordiv", "mod"):
            if not isinstance(p, Poly):
                continue
            r = DIVIDE[0](p, a.args[1], ctx)
            if r is not None:
                mp[a] = r[a.kind == "mod"]
            continue
        if not isinstance(p, Poly) or len(p.t) == 1:
            continue
        for cand, q in elm_candidates(p):
            mm = q - cand * cand - cand
            if _known_nonneg(cand - mm, ctx) and _known_nonneg(cand + mm, ctx):
                mp[a] = cand if a.kind == "ell" else mm
                break
    return subst(x, mp) if mp else x


def elm_candidates(p):
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 2 and c == 1:
            yield P(m[0][0]), p
            k = p.t.get(((m[0][0], Fr(1)),), 0)
            if k.denominator == 1 and k % 2 == 1 and k != 1:
                yield P(m[0][0]) + (k - 1) / 2, p
    for a in sorted(atoms_of(p, ("ell", "emm"))):
        q = a.args[0]
        if isinstance(q, Poly) and q != p and not a.loose:
            l, m = P(atom("ell", (q,), "int", True)), P(atom("emm", (q,), "int"))
            yield l, p - q + l * l + l + m


def _known_nonneg(p, ctx):
    for i in (ONE - b_lt(p),):
        for a in inds_of(i):
            r = decide_ind(ctx, a)
            if r is None:
                return False
            i = subst(i, {a: ONE if r else ZERO})
        return i == ONE


def atoms_of(x, kinds, acc=None, seen=None):
    """all atoms of the given kinds in x"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                atoms_of(a, kinds, acc, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return acc
        seen.add(x)
        if x.kind in kinds:
            acc.add(x)
        for y in x.args:
            atoms_of(y, kinds, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            atoms_of(y, kinds, acc, seen)
    return acc


def simp(x, ctx: Ctx):
    """replace indicator atoms decided by ctx"""
    x = resolve_elm(x, ctx)
    mp = {}
    for a in inds_of(x):
        if any(_has_bv(y) for y in a.args):
            continue
        r = decide_ind(ctx, a)
        if r is not None:
            mp[a] = ONE if r else ZERO
    for a in atoms_of(x, ("abs",)):
        q = a.args[0]
        if a.loose or not isinstance(q, Poly) or q.sort not in ("int", "real") or ctx is None:
            continue
        if entails_lt(ctx, q, ZERO) is False:
            mp[a] = q
        elif entails_lt(ctx, -q, ZERO) is False:
            mp[a] = -q
    return subst(x, mp) if mp else x


def _has_bv(x):
    """free occurrence of a bound variable of some enclosing binder"""
    if isinstance(x, (Poly, Atom)):
        return bool(x.loose)
    if isinstance(x, tuple):
        return any(_has_bv(y) for y in x)
    return False


def forced_equalities(ctx):
    """{atom: value} for integer atoms the constraints pin to a value"""
    cs = [c for c in ctx.cons if isinstance(c, Poly)]
    have = set(cs)
    out = {}
    for c in cs:
        # c >= 0 and -c >= 0
        pinned = -c in have
        if not pinned and len(c.t) <= 3:
            neg = [m for m, k in c.t.items() if k < 0]
            if len(neg) == 1 and nonneg_poly(-c):
                pinned = True
        if not pinned:
            continue
        for m, k in c.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                x = m[0][0]
                rest = c - P(x) * num(k)
                if x in out or x in atoms_all(rest) or any(y in atoms_all(rest) for y in out):
                    continue
                out[x] = rest * num(-1) if k > 0 else rest
                break
    return out


def atoms_all(p):
    return {a for m in p.t for a, _ in m}


def equal_under(a: Poly, b: Poly, ctx: Ctx, depth=0):
    """decide a == b for every case of the remaining indicators.

    returns (True, None) or (False, witness_ctx, a, b)
    """
    a, b = simp(a, ctx), simp(b, ctx)
    if is_zero(a - b):
        return True, None, a, b
    free = [x for x in inds_of(a) | inds_of(b) if x not in ctx.lits and not any(_has_bv(y) for y in x.args)]
    d = a - b
    rel = [x for x in free]
    if not rel:
        eqs = forced_equalities(ctx)
        if eqs:
            a2, b2 = subst(a, eqs), subst(b, eqs)
            if is_zero(a2 - b2):
                return True, None, a2, b2
            seen = {}
            for x, v in ctx.lits.items():
                q = subst(P(x), eqs)
                if q in (ZERO, ONE):
                    if (q == ONE) != bool(v):
                        return True, None, a2, b2
                elif seen.setdefault(q, bool(v)) != bool(v):
                    return True, None, a2, b2
            if (a2, b2) != (a, b) and depth <= 14:
                c2 = Ctx([("strict", subst(q[1], eqs)) if isinstance(q, tuple) else subst(q, eqs) for q in ctx.cons], ctx.lits)
                r = equal_under(a2, b2, c2, depth + 1)
                if r[0]:
                    return r
        return False, ctx, a, b
    if depth > 14:
        raise Budget("too many cases")
    x = sorted(rel)[0]
    for v in (1, 0):
        c = ctx.assume(x, v)
        if infeasible(c.cons):
            continue
        aa, bb = subst(a, {x: num(v)}), subst(b, {x: num(v)})
        r = equal_under(aa, bb, c, depth + 1)
        if not r[0]:
            return r
    return True, None, a, b


# --------------------------------------------------------------------------
# printing


def show(x, lim=400):
    s = _show(x)
    return s if len(s) <= lim else s[:lim] + "..."


def _show(x):
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda z: _mkey(z[0]), reverse=True):
            fs = []
            for a, e in m:
                s = _show(a)
                if e != 1:
                    s += f"^{e}" if e.denominator == 1 and e > 0 else f"^({e})"
                fs.append(s)
            if c != 1 or not fs:
                fs.insert(0, str(c) if c > 0 or not out else f"({c})")
            out.append("*".join(fs))
        return " + ".join(out)
    if isinstance(x, Atom):
        k = x.kind
        if k == "sym":
            return x.args[0]
        if k == "pi":
            return "pi"
        if k == "I":
            return "i"
        if k == "prime":
            return str(x.args[0])
        if k == "poly":
            return "(" + _show(x.args[0]) + ")"
        if k == "ind":
            if x.args[0] in ("lt", "eq"):
                return f"[{_show(x.args[1])}{'<' if x.args[0]=='lt' else '=='}{_show(x.args[2])}]"
            return "[" + " ".join(_show(y) for y in x.args[1:]) + "]"
        if k == "bv":
            return f"${x.args[0]}_{x.args[1]}"
        if k == "sum":
            return f"sum({_show(x.args[1])}..{_show(x.args[2])}: {_show(x.args[3])})"
        if k == "conj":
            return f"conj({_show(x.args[0])})"
        if k == "app":
            return f"{x.args[0]}({', '.join(_show(y) for y in x.args[1:])})"
        return f"{k}({', '.join(_show(y) for y in x.args)})"
    if isinstance(x, tuple):
        return "(" + ", ".join(_show(y) for y in x) + ")"
    return str(x)
