"""Injectivity of symbolic names.

A name is a list of cases (conditions on the inputs), each a sequence of fixed
texts and number fields.  Two settings get different names if, in one case, a
field determines the setting and the fields can be read back from the text, and
if the texts of two cases can never coincide.
"""
from __future__ import annotations

import itertools
from fractions import Fraction as Fr

from . import evalterm
from .evalterm import Ev, EvalFail, fvs
from .harness import Cmp
from .terms import *  # noqa: F403
from .terms import Atom, Poly, P, atoms_of, infeasible, simp
from .values import IteV, SStr

DIG = "0123456789"


def cases(rec, I, st, v, ctx):
    """[(ctx, tokens)]: tokens are fixed texts and (node, format) fields"""
    c = Cmp(rec, I, st, st, ctx)
    out = []

    def go(x, cc):
        if isinstance(x, IteV):
            k = c.at(st, cc, lambda: I.cond_simplify(x.c))
            if k == ONE:
                return go(x.a, cc)
            if k == ZERO:
                return go(x.b, cc)
            from .interp import Split

            raise Split(I.pick(k))
        if isinstance(x, str):
            out.append((cc, (x,)))
        elif isinstance(x, SStr):
            out.append((cc, tuple(p if isinstance(p, str) else (p[1], p[2]) for p in x.pieces)))
        else:
            out.append((cc, None))
        return []
    c.cased(ctx, lambda cc: go(v, cc))
    return out


class Shape:
    """a number field reduced to the characters it can produce"""

    def __init__(self, al, poly, text):
        self.al, self.poly, self.text = al, poly, text

    def __eq__(self, o):
        return isinstance(o, Shape) and (self.al, self.poly, self.text) == (o.al, o.poly, o.text)

    def __hash__(self):
        return hash((self.al, self.poly, self.text))


def shape(tokens):
    return None if tokens is None else tuple(t if isinstance(t, str) else Shape(alphabet(t), isinstance(t[0], Poly), show(t[0], 60)) for t in tokens)


def isnum(f):
    return f.poly if isinstance(f, Shape) else isinstance(f[0], Poly)


def alphabet(f):
    if isinstance(f, Shape):
        return f.al
    node, spec = f
    if spec == "" and isinstance(node, Poly) and node.sort == "int":
        return DIG if nonneg(node) else DIG + "-"
    if spec == "" and isinstance(node, Poly):
        return DIG + "-.e+"
    if efmt(node):
        return DIG + "-e"
    return None


def nonneg(p):
    return all(c > 0 and all(a.nonneg or (e.denominator == 1 and e.numerator % 2 == 0) for a, e in m) for m, c in p.t.items())


def efmt(node):
    """a number in exponent format with its punctuation replaced"""
    if not isinstance(node, Atom) or node.kind != "app" or node.args[0] != "replace":
        return False
    return "'e'" in repr(node) or "(fmt, sel" in repr(node) or ", e)" in repr(node)


# ------------------------------------------------------------------ languages of token sequences
def nfa(tokens):
    """states 0..n; transitions state -> [(chars or None for any, state)], eps edges"""
    tr, eps, n = {}, {}, 0
    for t in tokens:
        if isinstance(t, str):
            for ch in t:
                tr.setdefault(n, []).append((ch, n + 1))
                n += 1
        else:
            al = alphabet(t)
            if al is not None and set(al) <= set(DIG + "-") and isnum(t):
                # -?digits
                if "-" in al:
                    tr.setdefault(n, []).append(("-", n + 1))
                    eps.setdefault(n, []).append(n + 1)
                    n += 1
                tr.setdefault(n, []).append((DIG, n + 1))
                n += 1
                tr.setdefault(n, []).append((DIG, n))
            else:
                tr.setdefault(n, []).append((al, n + 1))
                n += 1
                tr.setdefault(n, []).append((al, n))
    return tr, eps, n


def intersect(a, b):
    """can the two token sequences produce the same text?"""
    for i in (0, -1):
        if a and b and isinstance(a[i], str) and isinstance(b[i], str):
            x, y = a[i], b[i]
            n = min(len(x), len(y))
            if (x[:n] != y[:n]) if i == 0 else (n and x[-n:] != y[-n:]):
                return False
    ta, ea, na = nfa(a)
    tb, eb, nb = nfa(b)
    seen, todo = {(0, 0)}, [(0, 0)]

    def push(s):
        if s not in seen:
            seen.add(s)
            todo.append(s)
    while todo:
        x, y = todo.pop()
        if x == na and y == nb:
            return True
        for e in ea.get(x, ()):
            push((e, y))
        for e in eb.get(y, ()):
            push((x, e))
        for ca, x2 in ta.get(x, ()):
            for cb, y2 in tb.get(y, ()):
                if ca is None or cb is None or set(ca) & set(cb):
                    push((x2, y2))
    return False


def readable(tokens):
    """fields can be recovered from the text"""
    for i, t in enumerate(tokens):
        if isinstance(t, str):
            continue
        al = alphabet(t)
        nxt = tokens[i + 1] if i + 1 < len(tokens) else None
        if nxt is None:
            continue
        if not isinstance(nxt, str) or al is None:
            return False
        # the first character after the field cannot continue it
        if nxt[0] in al and not (nxt[0] == "-" and nonneg_int(t)):
            return False
    return True


def nonneg_int(t):
    return isinstance(t[0], Poly) and t[0].sort == "int" and alphabet(t) in (DIG, DIG + "-")


# ------------------------------------------------------------------ does a case fix the parameter?
def linear_in(p, s):
    """p = c * s + rest with c a non-zero number and rest free of s"""
    c = None
    for m, k in p.t.items():
        if any(s in a.fv for a, _ in m):
            if len(m) == 1 and m[0][0] is s and m[0][1] == 1 and c is None:
                c = k
            else:
                return False
    return c is not None


def fracs(p, nm, s):
    """p is a numeric multiple (plus constant) of numerator/denominator of a value that fixes s"""
    ks = [m for m in p.t if m]
    if len(ks) != 1 or len(ks[0]) != 1:
        return None
    a, e = ks[0][0]
    if e != 1 or a.kind != "app" or a.args[0] != nm:
        return None
    x = a.args[1]
    return x if isinstance(x, Poly) and linear_in(x, s) else None


def fixes(tokens, ctx, s):
    """the fields of this case determine the value of symbol s"""
    nums, dens = set(), set()
    for t in tokens:
        if isinstance(t, str) or t[1] not in ("",) or not isinstance(t[0], Poly):
            continue
        if s.sort == "int" and linear_in(t[0], s):
            return True
        x = fracs(t[0], "fracnum", s)
        if x is not None:
            nums.add(x)
        x = fracs(t[0], "fracden", s)
        if x is not None:
            dens.add(x)
    known = set()
    for a in ctx.lits:
        known |= set(atoms_of(a, ("app",)))
    for at in known:
        if at.args[0] not in ("fracnum", "fracden") or not isinstance(at.args[1], Poly) or not linear_in(at.args[1], s):
            continue
        p = P(at)
        if at.args[0] == "fracden" and (simp(p, ctx) == ZERO or infeasible(ctx.cons + [p - 1])):
            dens.add(at.args[1])
        if at.args[0] == "fracnum" and infeasible(ctx.cons + [p - 1]) and infeasible(ctx.cons + [-p - 1]):
            return True
    return bool(nums & dens)


INTS = list(range(0, 13)) + [20, 21, 101, 102, 111, 112, 120, 121, -1, -2, -12]
FRACS = [0.0, 1.0, 2.0, 3.0, 0.5, 1.5, 2.5, -1.0, -0.5, 0.25, 0.75, 1.25, 10.0, 12.0, 1.2, 0.1, 0.125, 11.5, -1.5, 100.0, 2.1, 21.0]


def text(tokens, ev):
    out = []
    for t in tokens:
        if isinstance(t, str):
            out.append(t)
        elif isinstance(t[0], Poly):
            v = ev.val(t[0])
            v = v.real if isinstance(v, complex) else v
            if t[0].sort == "int":
                if abs(v - round(v)) > 1e-9:
                    raise EvalFail("non-integer")
                v = int(round(v))
            out.append(format(v, t[1]) if t[1] else str(v))
        else:
            out.append("<" + repr(sorted(ev.env.get(x, 0) if x in t[0].fv else 0 for x in t[0].fv)) + ">")
    return "".join(out)


def name_at(cs, env):
    for ctx, tokens in cs:
        if tokens is None:
            raise EvalFail("text not modelled")
        ev = Ev(1, env)
        ok = True
        for a, v in ctx.lits.items():
            if int(ev.aval(a)) != v:
                ok = False
                break
        if ok:
            return text(tokens, ev)
    raise EvalFail("no case")


def collision(cs, ctx0, s):
    """two values of s (rest equal) with the same name"""
    syms = set()
    for ctx, tokens in cs:
        for a in ctx.lits:
            syms |= a.fv
        for t in tokens or ():
            if not isinstance(t, str):
                syms |= fvs(t[0])
    for c in ctx0.cons:
        syms |= fvs(c[1] if isinstance(c, tuple) else c)
    others = sorted(syms - {s}, key=lambda x: x.args[0])
    base = [dict.fromkeys(others)]
    tries = 0
    for pick in range(40):
        env = {o: (FRACS[(pick * 7 + k * 3) % len(FRACS)] if o.sort != "int" else INTS[(pick * 5 + k * 3) % 13] + (1 if o.nonneg else 0)) for k, o in enumerate(others)}
        seen = {}
        for v in (INTS if s.sort == "int" else FRACS):
            if s.nonneg and v < 0:
                continue
            e = dict(env)
            e[s] = v
            try:
                if not holds(ctx0, e):
                    continue
                nm = name_at(cs, e)
            except EvalFail:
                continue
            tries += 1
            if nm in seen:
                return nm, seen[nm], v
            seen[nm] = v
    return None


def holds(ctx, env):
    ev = Ev(1, env)
    for c in ctx.cons:
        p, strict = (c[1], True) if isinstance(c, tuple) else (c, False)
        v = ev.val(p)
        v = v.real if isinstance(v, complex) else v
        if v < -1e-9 or (strict and v <= 1e-9):
            return False
    return all(int(ev.aval(a)) == v for a, v in ctx.lits.items())


def separates(rec, cs, ctx0, s, what, where):
    """obligation: settings that differ in s (only) have different names"""
    sub = what
    if any(t is None for _, t in cs):
        return rec.undecided("text not modelled", sub, where=where)
    bad = None
    for ctx, tokens in cs:
        if not fixes(tokens, ctx, s):
            bad = f"{what} cannot be recovered from {shown(tokens)}"
        elif not readable(tokens):
            bad = f"the numbers in {shown(tokens)} are not separated"
    if bad is None:
        for (c1, t1), (c2, t2) in itertools.combinations(cs, 2):
            if intersect(t1, t2) and t1 != t2:
                bad = f"{shown(t1)} and {shown(t2)} can be the same text"
    if bad is None:
        return rec.proved(sub, where=where, detail=f"{len(cs)} cases")
    if not any(s in t[0].fv for _, ts in cs for t in ts if not isinstance(t, str) and hasattr(t[0], "fv")) \
            and not any(s in a.fv for c, _ in cs for a, _v in c.lits.items()) \
            and not any(isinstance(t, Shape) or (not isinstance(t, str) and not hasattr(t[0], "fv")) for _, ts in cs for t in ts):
        return rec.violation(f"{bad}: {what} has no influence on the name", sub, where=where)
    col = collision(cs, ctx0, s)
    if col:
        nm, a, b = col
        return rec.violation(f"{bad}: {what}={a} and {what}={b} both give '{nm}'", sub, where=where)
    return rec.undecided(bad, sub, where=where)


def disjoint(rec, a, b, sub, where, what, quiet=False):
    """two families of names have no text in common"""
    if any(t is None for _, t in a + b):
        rec.undecided("text not modelled", sub, where=where)
        return False
    for _, t1 in a:
        for _, t2 in b:
            if intersect(t1, t2):
                if all(isinstance(x, str) for x in t1) or t1 == t2 or "".join(x if isinstance(x, str) else "#" for x in t1) == "".join(x if isinstance(x, str) else "#" for x in t2):
                    rec.violation(f"{what}: both are named {shown(t1)}", sub, where=where)
                    return False
                rec.undecided(f"{what}: {shown(t1)} and {shown(t2)} may coincide", sub, where=where)
                return False
    if not quiet:
        rec.proved(sub, where=where)
    return True


def shown(tokens):
    return "".join(t if isinstance(t, str) else "{" + (t.text if isinstance(t, Shape) else show(t[0], 60)) + "}" for t in tokens)
