"""Random interpretation of normal-form terms.

Two terms whose normal forms differ are only *reported* as different when a
random interpretation of their symbols (and of the uninterpreted operations in
them) tells them apart, in the manner of random interpretation / polynomial
identity testing on value graphs.  The interpreted object is the term the
analysis derived from the source, never the program itself.
"""
from __future__ import annotations

import cmath
import hashlib
import math
import time
import random
from fractions import Fraction as Fr

from .terms import *  # noqa: F403
from .terms import Atom, P, Poly, open_binder


class EvalFail(Exception):
    """the term has a part that has no interpretation here"""


MAXEL = 3000
MAXSTEPS = 400000
_OPEN: dict = {}


def opened(a):
    r = _OPEN.get(a)
    if r is None:
        r = _OPEN[a] = open_binder(a)
    return r


def _h(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(d, "big"))


class Ev:
    def __init__(self, salt=0, env=None):
        self.salt = salt
        self.env = dict(env or {})
        self.memo: dict = {}
        self.local: set = set()
        self.steps = 0
        self.hashed = False
        self.oor = 0  # selections outside an array seen
        self.oorsalt = None  # give them arbitrary values instead of failing

    # -- leaves ------------------------------------------------------------
    def rnd(self, key, sort, nonneg):
        self.hashed = self.hashed or key[0] != "sym"
        r = _h(self.salt, key)
        if sort in ("int", "bool"):
            return r.randint(0, 5) if nonneg else r.randint(-4, 5)
        x = r.uniform(0.1, 3.0) if nonneg else r.choice((-1, 1)) * r.uniform(0.1, 2.0)
        if self.salt % 4 == 3:
            # some inputs are tiny or large
            x = x * r.choice((1, 1, 1e-3, 1e3))
        if sort == "complex":
            return complex(x, r.uniform(-2, 2))
        return x

    def bool_(self, key):
        self.hashed = True
        return _h(self.salt, "bool", key).randint(0, 1)

    # -- numbers -----------------------------------------------------------
    def val(self, p):
        if isinstance(p, Atom):
            return self.aval(p)
        if isinstance(p, (int, Fr)):
            return float(p)
        tot = 0
        for m, c in p.t.items():
            x = c if c.denominator != 1 else int(c)
            if isinstance(x, Fr):
                x = float(x)
            # cheap indicators first: a zero factor hides the rest
            ms = sorted(m, key=lambda z: 0 if z[0].kind == "ind" else 1)
            for a, e in ms:
                v = self.aval(a)
                if e == 1:
                    x = x * v
                else:
                    x = x * self.pw(v, e)
                if x == 0 and a.kind == "ind":
                    break
            tot = tot + x
        if isinstance(tot, complex) and (tot != tot or abs(tot) == math.inf):
            raise EvalFail("overflow")
        if isinstance(tot, float) and (tot != tot or abs(tot) == math.inf):
            raise EvalFail("overflow")
        return tot

    def pw(self, v, e):
        try:
            if e.denominator == 1:
                e = int(e)
                if e < 0 and v == 0:
                    raise EvalFail("division by zero")
                return v ** e if e > 0 else 1 / (v ** -e)
            if isinstance(v, complex):
                return cmath.exp(cmath.log(v) * float(e))
            if v < 0:
                return cmath.exp(cmath.log(v) * float(e))
            if v == 0 and e < 0:
                raise EvalFail("division by zero")
            return v ** float(e)
        except (OverflowError, ValueError, ZeroDivisionError) as x:
            raise EvalFail(str(x))

    def int_(self, p):
        v = self.val(p)
        if isinstance(v, complex):
            v = v.real
        r = round(v)
        if abs(v - r) > 1e-9:
            raise EvalFail("non-integer index")
        return int(r)

    def aval(self, a):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise EvalFail("too many steps")
        k = a.kind
        if k == "sym":
            v = self.env.get(a)
            if v is None:
                v = self.env[a] = self.rnd(("sym",) + a.args, a.sort, a.nonneg)
            return v
        key = (a, tuple(self.env[v] for v in sorted(a.fv & self.local))) if self.local else (a, ())
        r = self.memo.get(key)
        if r is None:
            r = self._aval(a, k)
            self.memo[key] = r
        return r

    def loop(self, vs, ranges, fn):
        """fn() for every assignment of the bound variables"""
        if not vs:
            fn()
            return
        lo, hi = ranges[0]
        lo, hi = self.int_(lo), self.int_(hi)
        if hi - lo > MAXEL:
            raise EvalFail("range too long")
        v = vs[0]
        self.local.add(v)
        try:
            for x in range(lo, hi):
                self.env[v] = x
                self.loop(vs[1:], ranges[1:], fn)
        finally:
            self.local.discard(v)
            self.env.pop(v, None)

    def lamvals(self, node):
        """(shape, flat values) of a lam node"""
        vs, (shape, body) = opened(node)
        sh = tuple(self.int_(s) for s in shape)
        n = 1
        for s in sh:
            n *= max(s, 0)
        if n > MAXEL:
            raise EvalFail("array too large")
        out = []
        self.loop(vs, [(P(0), s) for s in shape], lambda: out.append(self.val(body)))
        return sh, out

    def nodevals(self, node):
        """(shape, values) of any array node with a known extent"""
        if node.kind == "lam":
            return self.lamvals(node)
        sh = NODE_SHAPE.get(node)
        if sh is None:
            raise EvalFail("unknown extent")
        shape, sort, nonneg, isb = sh
        dims = tuple(self.int_(s) for s in shape)
        n = 1
        for s in dims:
            n *= max(s, 0)
        if n > MAXEL:
            raise EvalFail("array too large")
        out = []
        idx = [0] * len(dims)
        for flat in range(n):
            r = flat
            for d in range(len(dims) - 1, -1, -1):
                idx[d] = r % dims[d]
                r //= dims[d]
            out.append(self.bool_(("sel", self.key(node, True), tuple(idx))) if isb else self.selval(node, tuple(idx), sort, nonneg))
        return dims, out

    def _aval(self, a, k):
        A = a.args
        try:
            if k == "pi":
                return math.pi
            if k == "I":
                return 1j
            if k == "prime":
                return A[0]
            if k == "exp":
                v = self.val(A[0])
                return cmath.exp(v) if isinstance(v, complex) else math.exp(v)
            if k == "log":
                v = self.val(A[0])
                return cmath.log(v) if isinstance(v, complex) or v < 0 else math.log(v)
            if k == "ipow":
                return {0: 1, 1: 1j, 2: -1, 3: -1j}[self.int_(A[0]) % 4]
            if k == "powx":
                b, e = self.val(A[0]), self.val(A[1])
                if not isinstance(b, complex) and b < 0:
                    if abs(e - round(e.real if isinstance(e, complex) else e)) < 1e-12:
                        e = int(round(e.real if isinstance(e, complex) else e))
                    else:
                        b = complex(b)
                return b ** e
            if k == "poly":
                return self.val(A[0])
            if k == "abs":
                return abs(self.val(A[0]))
            if k == "conj":
                v = self.val(A[0])
                return v.conjugate() if isinstance(v, complex) else v
            if k == "ind":
                return self.ind(a)
            if k == "sum":
                vs, (lo, hi, body) = opened(a)
                acc = []
                self.loop(vs, [(lo, hi)], lambda: acc.append(self.val(body)))
                return sum(acc)
            if k == "prod":
                vs, (lo, hi, body) = opened(a)
                acc = [1]

                def mul():
                    acc[0] = acc[0] * self.val(body)

                self.loop(vs, [(lo, hi)], mul)
                return acc[0]
            if k == "red":
                node = A[1]
                from .terms import open_binder as _ob

                vs, (rng, body) = opened(node)
                acc = []
                self.loop(vs, list(rng), lambda: acc.append(self.val(body)))
                if not acc:
                    raise EvalFail("empty reduction")
                if A[0] in ("max", "min", "nanmax", "nanmin"):
                    # numpy orders complex numbers by real, then by imaginary part
                    return (max if A[0].endswith("max") else min)(acc, key=lambda z: (z.real, z.imag))
                if A[0] in ("nansum",):
                    return sum(acc)
                if A[0] in ("std", "var"):
                    mu = sum(acc) / len(acc)
                    v = sum(abs(x - mu) ** 2 for x in acc) / len(acc)
                    return math.sqrt(v) if A[0] == "std" else v
                return self.rnd(("red", A[0], tuple(self.rn(x) for x in acc)), a.sort, a.nonneg)
            if k == "ell":
                i = self.int_(A[0])
                if i < 0:
                    raise EvalFail("negative harmonic index")
                return math.isqrt(i)
            if k == "emm":
                i = self.int_(A[0])
                if i < 0:
                    raise EvalFail("negative harmonic index")
                l = math.isqrt(i)
                return i - l * l - l
            if k in ("floordiv", "ceildiv", "mod"):
                x, y = self.val(A[0]), self.val(A[1])
                if isinstance(x, complex) or isinstance(y, complex) or y == 0:
                    raise EvalFail("bad division")
                if k == "floordiv":
                    return int(math.floor(x / y + 1e-12)) if isinstance(x, float) or isinstance(y, float) else x // y
                if k == "ceildiv":
                    return int(math.ceil(x / y - 1e-12)) if isinstance(x, float) or isinstance(y, float) else -(-x // y)
                return x % y
            if k in ("min", "max"):
                vs = [self.val(x) for x in A]
                if any(isinstance(v, complex) for v in vs):
                    raise EvalFail("complex extremum")
                return min(vs) if k == "min" else max(vs)
            if k == "sel":
                return self.selval(A[0], tuple(self.int_(i) for i in A[1:]), a.sort, a.nonneg)
            if k == "app":
                return self.app(a)
            if k == "fconst":
                raise EvalFail("non-finite constant")
            if k == "div0":
                raise EvalFail("division by zero")
            if k == "dim":
                return _h(self.salt, "dim", self.key(A[0], True), tuple(self.key(x) for x in A[1:])).randint(1, 4)
        except (OverflowError, ValueError, ZeroDivisionError, TypeError) as x:
            raise EvalFail(f"{type(x).__name__}: {x}")
        if a.unm:
            raise EvalFail(f"unmodelled {k}")
        return self.rnd((k,) + tuple(self.key(x) for x in A), a.sort, a.nonneg)

    def ind(self, a):
        A = a.args
        if A[0] in ("lt", "eq"):
            x, y = self.val(A[1]), self.val(A[2])
            if A[0] == "lt":
                if isinstance(x, complex):
                    if abs(x.imag) > 1e-9:
                        raise EvalFail("complex order")
                    x = x.real
                if isinstance(y, complex):
                    y = y.real
                return 1 if x < y - (1e-12 if not isinstance(x, int) else 0) else 0
            return 1 if abs(x - y) < 1e-12 else 0
        if A[0] == "b":
            if A[1] == "forall":
                vs, (rng, body) = opened(A[2])
                ok = [1]

                def chk():
                    if not self.val(body):
                        ok[0] = 0

                self.loop(vs, list(rng), chk)
                return ok[0]
            if A[1] == "isclose":
                return 1 if abs(self.val(A[2]) - self.val(A[3])) < 1e-8 else 0
            if A[1] == "isnan":
                self.val(A[2])
                return 0
            if A[1] == "isfinite":
                self.val(A[2])
                return 1
            if A[1] == "is_integer":
                v = self.val(A[2])
                return 1 if abs(v - round(v.real if isinstance(v, complex) else v)) < 1e-12 else 0
            if A[1] == "isin":
                v = self.val(A[2])
                _, xs = self.nodevals(A[3])
                return 1 if any(abs(v - x) < 1e-12 for x in xs) else 0
            if A[1] == "sel":
                node = A[2]
                idx = tuple(self.int_(i) for i in A[3:])
                if node.kind == "lam":
                    return 1 if self.lamat(node, idx) else 0
                return self.bool_(("sel", self.key(node, True), idx))
        if a.unm:
            raise EvalFail("unmodelled condition")
        return self.bool_(tuple(self.key(x) for x in A))

    def lamat(self, node, idx):
        vs, (shape, body) = opened(node)
        old = {v: self.env.get(v) for v in vs}
        added = [v for v in vs if v not in self.local]
        for v, x in zip(vs, idx):
            self.env[v] = x
            self.local.add(v)
        try:
            return self.val(body)
        finally:
            for v in added:
                self.local.discard(v)
            for v in vs:
                if old[v] is None:
                    self.env.pop(v, None)
                else:
                    self.env[v] = old[v]

    def selval(self, node, idx, sort, nonneg):
        if isinstance(node, Poly):
            raise EvalFail("selection from a scalar")
        if node.kind == "lam":
            return self.lamat(node, idx)
        if node.kind == "app":
            nm = node.args[0]
            if nm == "argsort":
                _, v = self.nodevals(node.args[1])
                return self.at(sorted(range(len(v)), key=lambda i: self.real(v[i])), idx[0])
            if nm == "sort" and node.args[1].kind != "special":
                _, v = self.nodevals(node.args[1])
                if len(idx) == 1:
                    return self.at(sorted(v, key=self.real), idx[0])
            if nm == "nonzero":
                sh, v = self.nodevals(node.args[1])
                ax = int(node.args[2]) if isinstance(node.args[2], int) else self.int_(node.args[2])
                hits = [i for i, x in enumerate(v) if x]
                n = self.at(hits, idx[0])
                for d in range(len(sh) - 1, ax, -1):
                    n //= sh[d]
                return n % sh[ax]
            if nm == "compress":
                pos = node.args[1]
                pos = pos if isinstance(pos, int) else self.int_(pos)
                msh, mv = self.nodevals(node.args[3])
                hits = [i for i, x in enumerate(mv) if x]
                n = self.at(hits, idx[pos])
                full = []
                for d in range(len(msh) - 1, -1, -1):
                    full.insert(0, n % msh[d])
                    n //= msh[d]
                return self.selany(node.args[2], tuple(idx[:pos]) + tuple(full) + tuple(idx[pos + 1:]), sort, nonneg)
        if node.unm:
            raise EvalFail("unmodelled array")
        sh = NODE_SHAPE.get(node)
        if sh is not None and not (node.fv & self.local):
            try:
                dims = [self.int_(s) for s in sh[0]]
            except EvalFail:
                dims = None
            if dims is not None and any(not 0 <= i < n for i, n in zip(idx, dims)):
                self.oor += 1
                if self.oorsalt is None:
                    raise EvalFail("index out of range")
                return self.rnd(("outside", self.oorsalt, self.key(node, True), idx), sort, nonneg)
        return self.rnd(("sel", self.key(node, True), idx), sort, nonneg)

    def selany(self, node, idx, sort, nonneg):
        return self.selval(node, idx, sort, nonneg)

    def at(self, xs, i):
        if not 0 <= i < len(xs):
            raise EvalFail("index out of range")
        return xs[i]

    def real(self, v):
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9:
                raise EvalFail("complex order")
            return v.real
        return v

    def app(self, a):
        A = a.args
        nm = A[0]
        f = FUN.get(nm)
        if f is not None and all(isinstance(x, (Poly, int)) for x in A[1:]):
            return f(*[self.val(x) if isinstance(x, Poly) else x for x in A[1:]])
        if nm in ("fracnum", "fracden"):
            v = self.val(A[1])
            f = Fr(v.real if isinstance(v, complex) else v).limit_denominator()
            return f.numerator if nm == "fracnum" else f.denominator - 1
        if nm in ("argmax", "argmin", "nanargmax", "nanargmin"):
            _, v = self.nodevals(A[1])
            v = [self.real(x) for x in v]
            return v.index(max(v) if nm.endswith("max") else min(v))
        if a.unm:
            raise EvalFail(f"unmodelled {nm}")
        return self.rnd(("app", nm) + tuple(self.key(x) for x in A[1:]), a.sort, a.nonneg)

    # -- canonical keys of non-numeric nodes ----------------------------------
    def rn(self, v):
        off = _h(self.salt, "off").uniform(0, 1)
        if isinstance(v, complex):
            return (math.floor(v.real * 1e6 + off), math.floor(v.imag * 1e6 + off))
        if isinstance(v, int):
            return (math.floor(v * 1e6 + off), math.floor(off))
        return (math.floor(v * 1e6 + off), math.floor(off))

    def key(self, x, structural=False):
        if isinstance(x, Poly):
            return self.rn(self.val(x))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if not isinstance(x, Atom):
            return repr(x)
        k = (x, structural, "key", tuple(self.env[v] for v in sorted(x.fv & self.local)))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._key(x, structural)
        return r

    def _key(self, x, structural):
        if x.kind == "lam":
            sh, v = self.lamvals(x)
            return ("lam", sh, tuple(self.rn(y) for y in v))
        if not structural and x in NODE_SHAPE:
            try:
                sh, v = self.nodevals(x)
                return ("lam", sh, tuple(self.rn(y) for y in v))
            except EvalFail:
                pass
        if x.kind == "iteN":
            c = self.val(x.args[0])
            return self.key(x.args[1] if c else x.args[2], structural)
        if x.sort in ("int", "real", "complex", "bool") and x.kind not in ("arr",):
            return self.rn(self.aval(x))
        if x.unm:
            raise EvalFail(f"unmodelled {x.kind}")
        return (x.kind,) + tuple(self.key(y) for y in x.args)


def _rnd_half(x, n=None):
    n = 0 if n is None else int(n)
    return round(x, n)


def _fact(x):
    x = int(round(x.real if isinstance(x, complex) else x))
    if x < 0:
        raise EvalFail("factorial of a negative number")
    return math.factorial(x)


def _lg(x):
    if x <= 0:
        raise EvalFail("gammaln domain")
    return math.lgamma(x)


def _c(fr, fc):
    return lambda x: fc(x) if isinstance(x, complex) else fr(x)


FUN = {
    "sin": _c(math.sin, cmath.sin), "cos": _c(math.cos, cmath.cos), "tan": _c(math.tan, cmath.tan),
    "sinh": _c(math.sinh, cmath.sinh), "cosh": _c(math.cosh, cmath.cosh), "tanh": _c(math.tanh, cmath.tanh),
    "arcsin": lambda x: math.asin(x), "arccos": lambda x: math.acos(x), "arctan": lambda x: math.atan(x),
    "arctan2": lambda y, x: math.atan2(y, x), "angle": lambda x: cmath.phase(x),
    "floor": lambda x: math.floor(x + 1e-12), "ceil": lambda x: math.ceil(x - 1e-12), "trunc": lambda x: int(x),
    "round": _rnd_half, "factorial": _fact, "gammaln": _lg, "isqrt": lambda x: math.isqrt(int(x)),
    "sign": lambda x: (x > 0) - (x < 0), "quot": lambda x, y: int(x) // int(y), "rint": lambda x: round(x),
}

from .values import NODE_SHAPE  # noqa: E402


# -- models -------------------------------------------------------------------


def _candidates(s, rng):
    if s.sort in ("int", "bool"):
        xs = list(range(0, 7)) if s.nonneg else list(range(-5, 7))
        rng.shuffle(xs)
        return xs
    if s.sort == "real":
        # reals are sampled at several scales; simple values hit equality guards
        base = [rng.uniform(0.05, 3.1), rng.uniform(0.05, 1), rng.uniform(1, 40), math.pi, math.pi / 2, 2 * math.pi, 1.0, 0.5, 2.0, 0.0, rng.uniform(3, 7)]
        rng.shuffle(base)
        base.sort(key=lambda x: 0 if x not in (0.0,) else 1) if rng.random() < 0.7 else None
        if not s.nonneg:
            base = base + [-x for x in base[:4]]
            if rng.random() < 0.4:
                rng.shuffle(base)
        return base
    return [complex(rng.uniform(-2, 2), rng.uniform(-2, 2))]


def models(syms, cons, lits, seed, want=12, maxnodes=60000):
    """environments for syms satisfying cons (>=0 / strict) and literals"""
    rng = random.Random(seed)
    syms = sorted(syms, key=lambda s: (s.args[0],))
    checks = []
    for c in cons:
        p, strict = (c[1], True) if isinstance(c, tuple) else (c, False)
        checks.append((p.fv, ("c", p, strict)))
    for a, v in lits.items():
        checks.append((a.fv, ("l", a, v)))
    # symbols only constrained together are enumerated constrained-first
    weight = {s: sum(1 for f, _ in checks if s in f) for s in syms}
    order = sorted(syms, key=lambda s: (s.sort == "real", -weight[s], s.args[0]))
    # integers known to be at least some number are tried from there on
    least = {}
    for c in cons:
        p = c[1] if isinstance(c, tuple) else c
        if len(p.fv) == 1 and len(p.t) == 2:
            (v,) = p.fv
            k, c0 = p.t.get(((v, Fr(1)),)), p.t.get(())
            if k == 1 and c0 is not None and c0 < -5 and v.sort == "int":
                least[v] = max(least.get(v, 0), int(-c0))
    allset = set(order)
    for f, _ in checks:
        for s in f:
            if s not in allset:
                allset.add(s)
                order.append(s)
    seen_upto = []
    for i in range(len(order)):
        have = set(order[: i + 1])
        prev = set(order[:i])
        seen_upto.append([c for f, c in checks if f <= have and not f <= prev])
    ground = [c for f, c in checks if not f]
    # facts that bound a real number, given the symbols before it
    edges = [[x for x in map(lambda c: _linear(c, order[i]), seen_upto[i]) if x] if order[i].sort == "real" else [] for i in range(len(order))]
    found = 0
    tries = 0
    end = time.time() + 12  # of searching, for inputs that satisfy the facts
    while found < want and tries < want * 6 and time.time() < end:
        tries += 1
        nodes = [0]
        env: dict = {}
        salt = rng.randrange(1 << 30)

        def ok(cs):
            ev = Ev(salt, env)
            for c in cs:
                try:
                    if c[0] == "c":
                        v = ev.val(c[1])
                        v = v.real if isinstance(v, complex) else v
                        if v < -1e-9 or (c[2] and v <= 1e-9):
                            return False
                    else:
                        if int(ev.aval(c[1])) != c[2]:
                            return False
                except EvalFail:
                    return False
            return True

        def dfs(i):
            nodes[0] += 1
            if nodes[0] > 4000 or time.time() > end:
                return False
            if i == len(order):
                return True
            cand = [least[order[i]] + d for d in range(3)] if order[i] in least else _candidates(order[i], rng)
            if edges[i] and rng.random() < 0.5:
                # exactly on such a bound
                hit = []
                for k, rest in edges[i]:
                    try:
                        v = -Ev(salt, env).val(rest) / k
                    except EvalFail:
                        continue
                    if not isinstance(v, complex) and (v >= 0 or not order[i].nonneg):
                        hit.append(float(v))
                cand = hit + cand
            for x in cand:
                env[order[i]] = x
                if ok(seen_upto[i]) and dfs(i + 1):
                    return True
            env.pop(order[i], None)
            return False

        if ok(ground) and dfs(0):
            found += 1
            t0 = time.time()
            yield dict(env), salt
            end += time.time() - t0


def _linear(c, s):
    """(k, rest) when the fact compares k*s + rest with zero"""
    if c[0] == "c":
        p = c[1]
    else:
        a = c[1]
        if a.kind != "ind" or a.args[0] != "lt":
            return None
        p = as_poly(a.args[1]) - as_poly(a.args[2])
    k, rest = 0, {}
    for m, x in p.t.items():
        if m == ((s, Fr(1)),):
            k = x
        elif any(s == a or s in a.fv for a, _ in m):
            return None
        else:
            rest[m] = x
    return (float(k), Poly(rest)) if k else None


def as_poly(x):
    return x if isinstance(x, Poly) else P(x)


def fvs(*xs):
    out = set()
    for x in xs:
        if isinstance(x, (Poly, Atom)):
            out |= x.fv
        elif isinstance(x, (tuple, list)):
            out |= fvs(*x)
    return out


def close_(x, y):
    return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))


def refute(a, b, ctx, seed=1, want=16):
    """('differ', model, va, vb) | ('agree', n) | ('fail', reason)"""
    if a.unm or b.unm:
        return ("fail", "contains an unmodelled part")
    syms = fvs(a, b)
    for c in ctx.cons:
        syms |= fvs(c[1] if isinstance(c, tuple) else c)
    if len(syms) <= 3 and want == 16:
        want = 64  # few inputs: cheap to try many
    n, fail = 0, None
    t0 = time.time()
    for k, (env, salt) in enumerate(models(syms, ctx.cons, ctx.lits, seed, want * 16)):
        # more inputs are tried only while none of them was in range
        if k >= want and (n or fail != "index out of range" or time.time() - t0 > 8):
            break
        try:
            e = Ev(salt, env)
            va, vb = both(e, a, b)
        except EvalFail as x:
            fail = str(x) if fail in (None, "index out of range") or str(x) == "index out of range" else fail
            continue
        except RecursionError:
            fail = "recursion"
            continue
        n += 1
        if not close_(va, vb):
            # rounding of hash keys must not be the reason
            conf = 0
            for k in range(12 if e.hashed else 0):
                try:
                    e2 = Ev(salt + 7919 * (k + 1), env)
                    if not _holds(e2, ctx):
                        continue
                    conf += not close_(*both(e2, a, b))
                except EvalFail:
                    continue
                if conf:
                    break
            if conf or not e.hashed:
                return ("differ", {k.args[0]: v for k, v in env.items()}, va, vb)
    if n == 0:
        return ("fail", fail or "no model found")
    return ("agree", n)


def both(e, a, b):
    """values of a and b; a selection outside an array may occur where its factor vanishes, that is where its value does not matter"""
    try:
        return e.val(a), e.val(b)
    except EvalFail:
        if not e.oor:
            raise
    out = []
    for k in (1, 2):
        f = Ev(e.salt, e.env)
        f.oorsalt = k
        out.append((f.val(a), f.val(b)))
    e.hashed = e.hashed or f.hashed
    if not close_(out[0][0], out[1][0]) or not close_(out[0][1], out[1][1]):
        raise EvalFail("index out of range")
    return out[0]


def _holds(ev, ctx):
    for c in ctx.cons:
        p, strict = (c[1], True) if isinstance(c, tuple) else (c, False)
        v = ev.val(p)
        v = v.real if isinstance(v, complex) else v
        if v < -1e-9 or (strict and v <= 1e-9):
            return False
    return all(int(ev.aval(a)) == v for a, v in ctx.lits.items())
