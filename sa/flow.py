"""Roles and units of angles, followed through every call of a symbolic run.

Every source (a position of the sampling grid, an environment variable, a parameter of an entry point) has a role
(longitude or colatitude) and a unit (radians, degrees, multiples of pi).  Every term that reaches a sink (a parameter whose
meaning is published: pyssht, numpy's trigonometry, the library's own entry points) is typed by dimensional analysis: each
monomial is one source times a constant, and the constant relative to radians is the unit of the monomial."""
from fractions import Fraction

from .terms import Atom, Poly, P
from .values import ARef, IteV, SStr

LON, COL = "longitude", "colatitude"
RAD, DEG, FRAC = (Fraction(1), 0), (Fraction(1, 180), 1), (Fraction(1), 1)   # value in radians = value * c * pi^e
UNITS = {RAD: "radians", DEG: "degrees", FRAC: "multiples of pi"}

EXT = {
    "pyssht.create_ylm": (("theta", COL), ("phi", LON)),
    "pyssht.theta_to_index": (("theta", COL),),
    "pyssht.phi_to_index": (("phi", LON),),
    "pyssht.s2_to_cart": (("theta", COL), ("phi", LON)),
    "pyssht.spherical_to_cart": (("r", None), ("theta", COL), ("phi", LON)),
    "pyssht.rotate_flms": (("flm", None), ("alpha", LON), ("beta", COL), ("gamma", LON)),
    "pyssht.generate_dl": (("beta", COL),),
    "numpy.cos": (("x", "any"),), "numpy.sin": (("x", "any"),), "numpy.tan": (("x", "any"),),
    "numpy.rad2deg": (("x", "any"),), "numpy.degrees": (("x", "any"),),
    "numpy.deg2rad": (("x", "deg"),), "numpy.radians": (("x", "deg"),),
}
OWN = {"translate", "rotate", "is_polar_cap", "is_limited_lat_lon", "filename_angle", "_compute_s_p_omega_prime",
       "_calc_nearest_grid_point", "_translation_helper", "SlepianPolarCap", "SlepianLimitLatLon", "Region", "plot"}


def declared(name):
    """(role, unit) of a parameter of the library's own functions, by its name"""
    n = name.lower().lstrip("_")
    role = LON if n.startswith(("alpha", "phi", "gamma")) else COL if n.startswith(("beta", "theta")) else None
    if role is None or any(w in n for w in ("index", "name", "loc", "sigma", "scale", "samples", "grid")):
        return None
    unit = FRAC if "frac" in n else DEG if "deg" in n else RAD
    return role, unit


class Flow:
    def __init__(self, I, sources=None):
        self.I = I
        self.src = {}           # Atom -> (role, unit)
        for p, r in (sources or {}).items():
            self.tag(p, *r)
        self.bad = []           # (where, message)
        self.sinks = 0
        self.typed = 0
        self.unknown = 0
        self.seen = {}
        self.given = []         # (external function, parameter, value, where)
        I.observe = self.observe

    def tag(self, p, role, unit=RAD):
        (m,) = P(p).t
        ((a, _),) = m
        self.src[a] = (role, unit)

    # ---------------------------------------------------------------- types of terms
    def source(self, a):
        if a in self.src:
            return self.src[a]
        if a.kind == "sel" and isinstance(a.args[0], Atom) and a.args[0].kind == "app":
            n = a.args[0].args[0]
            if n == "theta":
                return COL, RAD
            if n == "phi":
                return LON, RAD
        env = self.env(a)
        if env:
            return env
        if a.kind == "app" and a.args and a.args[0] in ("round", "int", "trunc", "floor", "ceil", "rint", "float") and isinstance(a.args[-1], (Poly, Atom)):
            ts, unk = self.monomials(P(a.args[-1]))
            kinds = {(r, u) for r, u in ts}
            if len(kinds) == 1 and not unk:
                r, u = kinds.pop()
                return r, (Fraction(1) / u[0], -u[1])
        return None

    def env(self, a):
        """a number read from an environment variable named after an angle is in degrees"""
        if a.kind != "app" or not str(a.args[0]).startswith("parse"):
            return None
        t = repr(a.args) if not isinstance(a.args, tuple) else " ".join(self.strings(a.args))
        if "env:" not in t:
            return None
        n = t.split("env:")[1].split(":")[0].upper()
        if n.startswith("PHI"):
            return LON, DEG
        if n.startswith("THETA"):
            return COL, DEG
        return None

    def strings(self, x, depth=0):
        if isinstance(x, str):
            return [x]
        if depth > 8:
            return []
        if isinstance(x, Atom):
            return self.strings(x.args, depth + 1)
        if isinstance(x, SStr):
            return self.strings(x.pieces, depth + 1)
        if isinstance(x, tuple):
            return [s for y in x for s in self.strings(y, depth + 1)]
        if isinstance(x, Poly):
            return [s for m in x.t for a, _ in m for s in self.strings(a, depth + 1)]
        return []

    def monomials(self, p):
        """({(role, ratio to radians)}, anything that could not be typed)"""
        out, unk = set(), False
        for m, c in p.t.items():
            e, typed, rest = 0, None, False
            for a, x in m:
                if a.kind == "pi":
                    e += x
                elif a.kind == "ind":
                    continue
                elif (s := self.source(a)) is not None and x == 1 and typed is None:
                    typed = s
                else:
                    rest = True
            if typed is None:
                unk |= rest
                continue
            if rest or not isinstance(c, (int, Fraction)):
                unk = True
                continue
            u = typed[1]
            out.add((typed[0], (abs(Fraction(c)) / u[0], e - u[1])))
        return out, unk

    # ---------------------------------------------------------------- values
    def terms(self, v):
        if isinstance(v, Poly):
            yield v
        elif isinstance(v, Atom):
            yield P(v)
        elif isinstance(v, IteV):
            yield from self.terms(v.a)
            yield from self.terms(v.b)
        elif isinstance(v, ARef):
            a = self.I.arr(v)
            if a.shape is None:
                return
            idx = tuple(P(Atom_sym(self.I, i)) for i in range(len(a.shape)))
            x = a.elem(idx)
            yield from self.terms(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                yield from self.terms(x)

    def sink(self, where, name, role, unit, v):
        self.sinks += 1
        try:
            ts = list(self.terms(v))
        except Exception:  # noqa: BLE001  (a value the interpreter cannot look into is not typed)
            self.unknown += 1
            return
        for p in ts:
            self.consistent(where, p)
            kinds, unk = self.monomials(p)
            if not kinds:
                self.constant(where, name, role, unit, p)
                continue
            if unk:
                self.unknown += 1
                continue
            self.typed += 1
            for r, u in kinds:
                if role not in (None, "any") and r != role:
                    self.report(where, f"a {r} reaches {name}, which is a {role}")
                want = (Fraction(1) / unit[0], -unit[1])
                if role == "any" and unit == RAD:
                    bad = u[1] != 0     # a phase may be any multiple of an angle in radians
                else:
                    bad = u != want
                if bad:
                    self.report(where, f"{name} takes {UNITS[unit]}, a {r} reaches it {self.scale(u)}")

    def constant(self, where, name, role, unit, p):
        if role not in (LON, COL) or unit != RAD:
            return
        c, e = None, 0
        if len(p.t) != 1:
            return
        ((m, c),) = p.t.items()
        if any(a.kind != "pi" for a, _ in m) or not isinstance(c, (int, Fraction)):
            return
        import math

        x = float(c) * math.pi ** sum(int(y) for _, y in m)
        if abs(x) > (2 * math.pi if role == LON else math.pi) + 1e-9:
            self.report(where, f"the constant {x:.4g} reaches {name}, a {role} in radians")

    def scale(self, u):
        for k, n in UNITS.items():
            if u == (Fraction(1) / k[0], -k[1]):
                return "in " + n
        return f"as {u[0]}*pi^{u[1]} times its value in radians"

    def consistent(self, where, p):
        """no quantity of one kind is compared with, or looked up by, a quantity of another"""
        for a in self.inner(p):
            if a in self.seen:
                continue
            self.seen[a] = True
            if a.kind in ("ind", "abs"):
                q = next((x for x in a.args if isinstance(x, Poly)), None)
                if q is None:
                    continue
                kinds, unk = self.monomials(q)
                if len({r for r, _ in kinds}) > 1:
                    self.report(where, "a longitude is compared with a colatitude")
                elif len({u for _, u in kinds}) > 1:
                    self.report(where, "angles of different units are compared: " + ", ".join(sorted(self.scale(u) for _, u in kinds)))
            elif a.kind == "sel" and self.source(a) is not None:
                roles = {s[0] for x in a.args[1:] for b in self.inner(x) if (s := self.source(b)) is not None}
                if roles and self.source(a)[0] not in roles:
                    self.report(where, f"a {self.source(a)[0]} of the grid is looked up by a {roles.pop()}")

    def inner(self, x, acc=None):
        acc = set() if acc is None else acc
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    self.inner(a, acc)
        elif isinstance(x, Atom):
            if x not in acc:
                acc.add(x)
                for y in x.args:
                    self.inner(y, acc)
        elif isinstance(x, tuple):
            for y in x:
                self.inner(y, acc)
        return acc

    def report(self, where, msg):
        if (where, msg) not in self.bad:
            self.bad.append((where, msg))

    # ---------------------------------------------------------------- the observer
    def observe(self, kind, name, given):
        loc = self.I.loc
        where = f"{loc[0]}:{loc[1]}" if loc else name
        if kind == "ext":
            spec = EXT.get(name)
            if spec is None:
                return
            args, kw = given
            for i, (n, role) in enumerate(spec):
                v = kw.get(n, args[i] if i < len(args) else None)
                if v is None or role is None:
                    continue
                self.given.append((name, n, v, where))
                self.sink(where, f"{n} of {name}", "any" if role == "deg" else role, DEG if role == "deg" else RAD, v)
            return
        last = name.split(".")[-1]
        if last not in OWN:
            return
        for n, v in given.items():
            d = declared(n)
            if d is not None and v is not None:
                self.sink(where, f"{n} of {last}", *d, v)


def Atom_sym(I, i):
    from .terms import sym

    return sym(f"flow_index_{i}", "int", True)
