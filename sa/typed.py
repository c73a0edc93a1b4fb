"""Name and signature resolution: which class, function or module an expression denotes,
whether the attributes used on it exist and whether calls fit the signatures."""
from __future__ import annotations

import ast
import builtins

from .program import Cls, Fn, Mod, Program, Top

PLAIN = {"object", "ABC", "Generic", "Protocol"}
UNKNOWN = None


class Checker:
    def __init__(self, prog, interp=None):
        self.prog, self.I = prog, interp
        self.memo = {}
        self.by_base = {}
        self.problems = []  # (mod, node, message)
        self.uses = 0
        self.checked = 0
        self.loaded_memo = {}
        self.ctor_memo = {}

    # ---------------------------------------------------------------- modules
    def loaded(self, mod):
        """dotted names of package modules that are loaded once mod has run its imports"""
        if mod.name in self.loaded_memo:
            return self.loaded_memo[mod.name]
        out, work = set(), [mod.name]
        pk = mod.name.split(".")[0]
        if pk in self.prog.mods:
            work.append(pk)
        while work:
            n = work.pop()
            if n in out or n not in self.prog.mods:
                continue
            out.add(n)
            parts = n.split(".")
            work += [".".join(parts[:k]) for k in range(1, len(parts))]
            m = self.prog.mods[n]
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Import):
                    work += [a.name for a in x.names]
                elif isinstance(x, ast.ImportFrom):
                    b = self.from_base(m, x)
                    work.append(b)
                    work += [f"{b}.{a.name}" for a in x.names]
        self.loaded_memo[mod.name] = out
        return out

    @staticmethod
    def from_base(m, x):
        b = x.module or ""
        if x.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (x.level - 1)]
            b = ".".join(parts + ([b] if b else []))
        return b

    def sibling(self, name, mod):
        """a module beside an example, found through the search path the example extends"""
        dirs = mod.name.split(".")[:-1]
        for k in range(len(dirs), 0, -1):
            q = ".".join(dirs[:k] + [name])
            if q in self.prog.mods:
                return q
        return None

    # ---------------------------------------------------------------- types
    def named(self, d, mod):
        """types of a fully dotted name"""
        top = d.split(".")[0]
        if top not in {m.split(".")[0] for m in self.prog.mods} or (d not in self.prog.mods and top not in self.prog.mods):
            s = self.sibling(top, mod)
            if s is not None:
                d = ".".join([s] + d.split(".")[1:])
            else:
                return UNKNOWN
        d = self.prog.canon(d)
        t = self.prog.lookup(d)
        if isinstance(t, Mod):
            return {("mod", t)}
        if isinstance(t, Cls):
            return {("cls", t)}
        if isinstance(t, Fn):
            return {("fn", t)}
        if isinstance(t, tuple):
            out = set()
            for b in t[1]:
                r = self.binding(b, t[2])
                if r is UNKNOWN:
                    return UNKNOWN
                out |= r
            return out
        return UNKNOWN

    def binding(self, b, scope):
        if b[0] == "import":
            return self.named(b[1], scope.mod if isinstance(scope, Fn) else scope)
        if b[0] == "def":
            return {("fn", b[1])}
        if b[0] == "class":
            return {("cls", b[1])}
        if b[0] == "param":
            return self.param(b[1], b[2])
        if b[0] == "assign":
            v = b[1]
            if isinstance(v, ast.AST):
                return self.infer(v, b[2])
            if isinstance(v, tuple) and v[0] == "item" and isinstance(v[1], ast.AST):
                return self.item(v[1], v[2], b[2])
        return UNKNOWN

    def item(self, e, k, scope):
        if isinstance(e, ast.Call):
            r = UNKNOWN
            for t in self.infer(e.func, scope) or ():
                if t[0] == "fn" and isinstance(getattr(t[1].node, "returns", None), ast.Subscript):
                    a = t[1].node.returns
                    if isinstance(a.value, ast.Name) and a.value.id == "tuple" and isinstance(a.slice, ast.Tuple) and k < len(a.slice.elts):
                        return self.annotation(a.slice.elts[k], t[1].mod)
            return r
        return UNKNOWN

    def param(self, fn, name):
        if fn.cls is not None and fn.pos and name == fn.pos[0] and fn.is_method:
            if any("classmethod" in ast.dump(d) for d in fn.decorators) or "validator" in "".join(ast.dump(d) for d in fn.decorators):
                return {("cls", fn.cls)}
            return {("self", fn.cls)}
        a = fn.anns.get(name)
        return self.annotation(a, fn) if a is not None else UNKNOWN

    def annotation(self, a, scope):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return UNKNOWN
        if isinstance(a, ast.Constant) and a.value is None:
            return set()
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.annotation(a.left, scope), self.annotation(a.right, scope)
            return UNKNOWN if l is UNKNOWN or r is UNKNOWN else l | r
        if isinstance(a, (ast.Name, ast.Attribute)):
            d = self.prog.dotted(a, scope)
            t = self.prog.lookup(d) if d else None
            return {("inst", t)} if isinstance(t, Cls) else UNKNOWN
        return UNKNOWN

    def infer(self, e, scope):
        key = (id(e), id(scope))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = UNKNOWN
        r = self._infer(e, scope)
        self.memo[key] = r
        return r

    def _infer(self, e, scope):
        mod = scope.mod if isinstance(scope, Fn) else scope
        if isinstance(e, ast.Name):
            bs = self.prog.find(e.id, scope)
            if not bs:
                return UNKNOWN
            out = set()
            for b in bs:
                r = self.binding(b, scope)
                if r is UNKNOWN:
                    return UNKNOWN
                out |= r
            return out
        if isinstance(e, ast.Attribute):
            base = self.infer(e.value, scope)
            if base is UNKNOWN or not base:
                return UNKNOWN
            out = set()
            for t in base:
                r = self.attr(t, e.attr, mod)
                if r is UNKNOWN:
                    return UNKNOWN
                out |= r
            return out
        if isinstance(e, ast.Call):
            f = self.infer(e.func, scope)
            if f is UNKNOWN or not f:
                return UNKNOWN
            out = set()
            for t in f:
                if t[0] == "cls":
                    out.add(("inst", t[1]))
                elif t[0] == "fn" and getattr(t[1].node, "returns", None) is not None:
                    r = self.annotation(t[1].node.returns, t[1])
                    if r is UNKNOWN:
                        return UNKNOWN
                    out |= r
                else:
                    return UNKNOWN
            return out
        if isinstance(e, ast.IfExp):
            a, b = self.infer(e.body, scope), self.infer(e.orelse, scope)
            return UNKNOWN if a is UNKNOWN or b is UNKNOWN else a | b
        if isinstance(e, ast.NamedExpr):
            return self.infer(e.value, scope)
        if isinstance(e, ast.Constant) and e.value is None:
            return set()
        return UNKNOWN

    def family(self, c, down=True):
        out = list(c.mro())
        if down:
            for k in self.prog.classes.values():
                if c in k.mro():
                    out += [q for q in k.mro() if q not in out]
        return out

    def open_bases(self, c):
        """a base class outside the package may provide more attributes"""
        for k in c.mro():
            for b in k.node.bases:
                x = b.value if isinstance(b, ast.Subscript) else b
                d = self.prog.dotted(x, k.mod) or ""
                if isinstance(self.prog.lookup(d), Cls):
                    continue
                if d.rsplit(".", 1)[-1] not in PLAIN:
                    return True
            if any(m in k.methods for m in ("__getattr__", "__getattribute__")):
                return True
        return False

    def attr(self, t, name, mod):
        """types of an attribute; UNKNOWN if not known; raises KeyError if it does not exist"""
        kind, x = t
        if kind == "mod":
            if name in x.env:
                return self.named(f"{x.name}.{name}", mod)
            q = f"{x.name}.{name}"
            if q in self.prog.mods:
                return {("mod", self.prog.mods[q])}
            return UNKNOWN
        if kind in ("inst", "self", "cls"):
            out = set()
            found = False
            for k in self.family(x):
                if name in k.methods:
                    f = k.methods[name]
                    if any("property" in ast.dump(d) for d in f.decorators):
                        return self.annotation(f.node.returns, f) if f.node.returns is not None else UNKNOWN
                    out.add(("fn", f))
                    found = True
                if name in k.anns:
                    return self.annotation(k.anns[name], k.mod)
                for v, fn in k.selfattrs.get(name, []):
                    found = True
                    r = self.infer(v, fn) if isinstance(v, ast.AST) else UNKNOWN
                    if r is UNKNOWN:
                        return UNKNOWN
                    out |= r
            return out if found else UNKNOWN
        return UNKNOWN

    def has(self, t, name, mod):
        kind, x = t
        if name.startswith("__") and name.endswith("__"):
            return True
        if kind == "mod":
            if name in x.env:
                return True
            q = f"{x.name}.{name}"
            return q in self.prog.mods and q in self.loaded(mod)
        if kind == "cls":
            if self.open_bases(x):
                return True
            return any(name in k.methods or name in k.attrs or name in k.anns for k in self.family(x))
        if kind in ("inst", "self"):
            if self.open_bases(x):
                return True
            return any(name in k.methods or name in k.attrs or name in k.anns or name in k.selfattrs for k in self.family(x))
        return True

    # ---------------------------------------------------------------- checking
    def check(self, mod):
        out = []
        guarded = {}
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                guarded.setdefault(x.args[1].value, True)
        for node, scope in walk(self.prog, mod.tree, mod):
            if isinstance(node, ast.Attribute):
                self.uses += 1
                base = self.infer(node.value, scope)
                if base and isinstance(node.ctx, ast.Load):
                    self.checked += 1
                    if not any(self.has(t, node.attr, mod) for t in base) and node.attr not in guarded:
                        out.append((node, f"{describe(base)} has no attribute '{node.attr}'"))
            elif isinstance(node, ast.Call):
                self.uses += 1
                f = self.infer(node.func, scope)
                if f:
                    errs = [self.fits(node, t, scope) for t in f]
                    self.checked += 1
                    if errs and all(errs):
                        out.append((node, errs[0]))
            elif isinstance(node, ast.ImportFrom):
                b = self.from_base(mod, node)
                m = self.prog.mods.get(b)
                if m is None:
                    s = self.sibling(b, mod) if "." not in b else None
                    if s is not None:
                        m = self.prog.mods[s]
                    elif b.split(".")[0] == "sleplet" or b.startswith("_") and not b.startswith("__"):
                        out.append((node, f"no module '{b}'"))
                        continue
                    else:
                        continue
                for a in node.names:
                    self.checked += 1
                    if a.name != "*" and a.name not in m.env and f"{m.name}.{a.name}" not in self.prog.mods:
                        out.append((node, f"module {m.name} has no name '{a.name}'"))
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.name.split(".")[0] == "sleplet":
                        self.checked += 1
                        if a.name not in self.prog.mods:
                            out.append((node, f"no module '{a.name}'"))
            elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                self.uses += 1
                if not self.prog.find(node.id, scope) and not hasattr(builtins, node.id) and not self.in_class(node, scope, mod) and node.id not in ("__file__", "__name__", "__doc__"):
                    out.append((node, f"name '{node.id}' is not defined"))
        al = mod.env.get("__all__")
        if al:
            for b in al:
                if b[0] == "assign" and isinstance(b[1], (ast.List, ast.Tuple)):
                    for x in b[1].elts:
                        if isinstance(x, ast.Constant):
                            self.checked += 1
                            if x.value not in mod.env and f"{mod.name}.{x.value}" not in self.prog.mods:
                                out.append((x, f"'{x.value}' is exported but not defined"))
        return out

    def in_class(self, node, scope, mod):
        """names of a class body used inside that class body"""
        for c in self.prog.classes.values():
            if c.mod is mod and c.node.lineno <= node.lineno <= c.node.end_lineno and (node.id in c.attrs or node.id in c.anns or node.id in c.methods):
                return True
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names):
                return True
            if isinstance(x, ast.ExceptHandler) and x.name == node.id:
                return True
        tp = getattr(scope.node, "type_params", []) if isinstance(scope, Fn) else []
        return bool(tp)

    def fits(self, call, t, scope):
        """None if the arguments fit, else what is wrong"""
        kind, x = t
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            star = True
        else:
            star = False
        if kind == "fn":
            if any(self.odd(d, x.mod) for d in x.decorators):
                return None
            pos, kwo, req = list(x.pos), list(x.kwonly), [p for p in x.pos + x.kwonly if p not in x.defaults]
            bound = x.is_method and isinstance(call.func, ast.Attribute) and not self.on_class(call.func.value, scope)
            if x.is_method and any("classmethod" in ast.dump(d) for d in x.decorators):
                bound = True
            if bound and pos:
                req = [r for r in req if r != pos[0]]
                pos = pos[1:]
            return self.match(call, x.name + "()", pos, kwo, req, x.vararg, x.kwarg, star)
        if kind == "cls":
            sig = self.constructor(x)
            if sig is None:
                return None
            return self.match(call, x.name + "()", *sig, None, None, star)
        if kind == "mod":
            return f"module {x.name} is called"
        return None

    def on_class(self, e, scope):
        t = self.infer(e, scope)
        return bool(t) and all(q[0] in ("cls", "mod") for q in t)

    def odd(self, d, mod):
        q = self.prog.dotted(d.func if isinstance(d, ast.Call) else d, mod) or ""
        last = q.rsplit(".", 1)[-1]
        return last not in ("abstractmethod", "staticmethod", "classmethod", "property", "cache", "lru_cache", "njit", "wraps", "override", "") and not isinstance(self.prog.lookup(q), Fn) or q == "" or isinstance(self.prog.lookup(q), Fn) and self.changes(self.prog.lookup(q))

    def changes(self, deco):
        """does the decorator's wrapper take other arguments than (*args, **kwargs)?"""
        inner = [f for f in self.prog.fns if f.parent is deco]
        return not all(f.vararg and f.kwarg for f in inner)

    def constructor(self, c):
        """(positional, keyword-only, required) of a class"""
        if c in self.ctor_memo:
            return self.ctor_memo[c]
        r = None
        try:
            if self.I is not None and c.qual.startswith("sleplet"):
                v = self.I.resolve(c.qual)
                pos, kwo, req = [], [], []
                init = [k.methods["__init__"] for k in c.mro() if "__init__" in k.methods]
                if init and not self.is_dataclass(c):
                    f = init[0]
                    if f.vararg or f.kwarg:
                        r = None
                    else:
                        r = (f.pos[1:], f.kwonly, [p for p in f.pos[1:] + f.kwonly if p not in f.defaults])
                elif self.is_dataclass(c):
                    from .classes import params

                    ok = {n for n, a, h in params(self.I, v)}
                    for n, ann, d, kw, owner in self.I.class_fields(v):
                        if n not in ok:
                            continue
                        (kwo if kw else pos).append(n)
                        if d is ...:
                            req.append(n)
                    hidden = [n for n, ann, d, kw, owner in self.I.class_fields(v) if n not in ok]
                    r = (pos, kwo, req) if not hidden or True else None
                elif not self.open_bases(c):
                    r = ([], [], [])
        except Exception:
            r = None
        self.ctor_memo[c] = r
        return r

    def is_dataclass(self, c):
        return any("dataclass" in ast.dump(d) for k in c.mro() for d in k.node.decorator_list)

    def match(self, call, name, pos, kwo, req, vararg, kwarg, star):
        kws = [k.arg for k in call.keywords if k.arg is not None]
        n = len([a for a in call.args if not isinstance(a, ast.Starred)])
        if kwarg is None:
            for k in kws:
                if k not in pos and k not in kwo:
                    return f"{name} has no parameter '{k}'"
        if vararg is None and n > len(pos):
            return f"{name} takes {len(pos)} positional arguments but {n} are given"
        given = set(pos[:n])
        for k in kws:
            if k in given:
                return f"{name} gets '{k}' twice"
        if not star:
            for r in req:
                if r not in given and r not in kws:
                    return f"{name} needs '{r}'"
        return None


def describe(ts):
    t = sorted(ts, key=str)[0]
    return {"mod": "module ", "cls": "class ", "inst": "an object of ", "self": "", "fn": "function "}[t[0]] + getattr(t[1], "name", str(t[1]))


def walk(prog, tree, scope):
    """(node, scope it is evaluated in) for every node below tree"""
    for ch in ast.iter_child_nodes(tree):
        yield from visit(prog, ch, scope)


def visit(prog, node, scope):
    s = prog.fn_of.get(node)
    yield node, scope
    if s is None:
        for ch in ast.iter_child_nodes(node):
            yield from visit(prog, ch, scope)
        return
    # decorators, defaults and annotations are evaluated outside
    out = [x for x in node.args.defaults + node.args.kw_defaults if x is not None] + list(getattr(node, "decorator_list", []))
    for x in out:
        yield from visit(prog, x, scope)
    for x in node.body if isinstance(node.body, list) else [node.body]:
        yield from visit(prog, x, s)
