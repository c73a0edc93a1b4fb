"""Whole-program view of the package's syntax: name resolution, call sites and a
flow-insensitive constant propagation through locals, parameters, attributes and returns."""
from __future__ import annotations

import ast
import os


PURE = {"upper", "lower", "strip", "lstrip", "rstrip", "removesuffix", "removeprefix", "replace", "casefold", "swapcase", "title", "capitalize"}


class Top:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"?({self.why})" if self.why else "?"

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7


class Fn:
    def __init__(self, prog, mod, node, cls, parent):
        self.prog, self.mod, self.node, self.cls, self.parent = prog, mod, node, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.qual = ".".join(x for x in (parent.qual + ".<locals>" if isinstance(parent, Fn) else mod.name, None if isinstance(parent, Fn) else (cls.name if cls else None), self.name) if x)
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.params = set(self.pos) | set(self.kwonly) | {x for x in (self.vararg, self.kwarg) if x}
        self.anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.locals = {}
        self.nonlocal_ = set()
        self.decorators = [] if isinstance(node, ast.Lambda) else node.decorator_list

    @property
    def is_method(self):
        return self.cls is not None and not any("staticmethod" in ast.dump(d) for d in self.decorators)

    def loc(self):
        return f"{self.mod.rel}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return self.qual


class Cls:
    def __init__(self, prog, mod, node):
        self.prog, self.mod, self.node, self.name = prog, mod, node, node.name
        self.qual = f"{mod.name}.{node.name}"
        self.methods = {}
        self.attrs = {}  # name -> [expr]
        self.anns = {}
        self.selfattrs = {}  # name -> [(expr, fn)]

    def bases(self):
        out = []
        for b in self.node.bases:
            c = self.prog.lookup(self.prog.dotted(b, self.mod))
            if isinstance(c, Cls):
                out.append(c)
        return out

    def mro(self):
        out = [self]
        for b in self.bases():
            out += [x for x in b.mro() if x not in out]
        return out

    def __repr__(self):
        return self.qual


class Mod:
    def __init__(self, name, path, rel, is_pkg, src=None, line=0):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        self.env = {}  # name -> [binding]
        if src is None:
            with open(path) as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(self.src)
        if line:
            ast.increment_lineno(self.tree, line)


class Program:
    def __init__(self, root=None, package="sleplet", extra=()):
        self.root = root or os.environ.get("SA_ROOT", "/repo")
        self.mods, self.fns, self.classes = {}, [], {}
        self.calls = []  # (Call node, scope(Fn|Mod), Mod)
        self.fn_of = {}
        src = os.path.join(self.root, "src")
        for d, ds, fs in os.walk(os.path.join(src, package)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    q = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
                    pk = q.endswith(".__init__")
                    self.add(q[:-9] if pk else q, p, pk)
        for p in extra:
            self.add(os.path.relpath(p, self.root)[:-3].replace(os.sep, "."), p, False)
        self._callers = None

    def add(self, name, path, is_pkg, src=None, line=0):
        m = Mod(name, path, os.path.relpath(path, self.root), is_pkg, src, line)
        self.mods[name] = m
        self._scan(m.tree.body, m, None, None)
        return m

    # ---------------------------------------------------------------- indexing
    def _bind(self, scope, name, b):
        d = scope.env if isinstance(scope, Mod) else scope.locals
        d.setdefault(name, []).append(b)

    def _scan(self, body, mod, cls, fn):
        scope = fn or mod
        for st in body:
            self._stmt(st, mod, cls, fn, scope)

    def _stmt(self, st, mod, cls, fn, scope):
        in_class = cls is not None and fn is None
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list + [x for x in st.args.defaults + st.args.kw_defaults if x is not None]:
                self._expr(d, mod, cls, fn, scope)
            f = Fn(self, mod, st, cls if in_class else None, fn)
            if not in_class and fn is not None:
                f.cls_outer = getattr(fn, "cls_outer", None) or fn.cls
            self.fns.append(f)
            self.fn_of[st] = f
            if in_class:
                cls.methods[st.name] = f
            else:
                self._bind(scope, st.name, ("def", f))
            self._scan(st.body, mod, cls if in_class else None, f)
        elif isinstance(st, ast.ClassDef):
            for d in st.decorator_list + st.bases + [k.value for k in st.keywords]:
                self._expr(d, mod, cls, fn, scope)
            c = Cls(self, mod, st)
            self.classes[c.qual] = c
            self._bind(scope, st.name, ("class", c))
            self._scan(st.body, mod, c, None)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self._bind(scope, a.asname, ("import", a.name))
                else:
                    self._bind(scope, a.name.split(".")[0], ("import", a.name.split(".")[0]))
        elif isinstance(st, ast.ImportFrom):
            b = st.module or ""
            if st.level:
                parts = mod.name.split(".")
                if not mod.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                b = ".".join(parts + ([b] if b else []))
            for a in st.names:
                self._bind(scope, a.asname or a.name, ("import", f"{b}.{a.name}"))
        elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            v = st.value
            if isinstance(st, ast.AugAssign):
                v = Top("updated in place")
            for t in ts:
                self._target(t, v, mod, cls, fn, scope, in_class)
                self._expr(t, mod, cls, fn, scope)
            if in_class and isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                cls.anns[st.target.id] = st.annotation
            if isinstance(v, ast.AST):
                self._expr(v, mod, cls, fn, scope)
            elif isinstance(st, ast.AugAssign):
                self._expr(st.value, mod, cls, fn, scope)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self._target(st.target, ("iter", st.iter), mod, cls, fn, scope, in_class)
            self._expr(st.iter, mod, cls, fn, scope)
            for b in st.body + st.orelse:
                self._stmt(b, mod, cls, fn, scope)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self._expr(it.context_expr, mod, cls, fn, scope)
                if it.optional_vars is not None:
                    self._target(it.optional_vars, ("enter", it.context_expr), mod, cls, fn, scope, in_class)
            for b in st.body:
                self._stmt(b, mod, cls, fn, scope)
        elif isinstance(st, (ast.Global, ast.Nonlocal)):
            if fn is not None:
                fn.nonlocal_ |= set(st.names)
        else:
            for f, v in ast.iter_fields(st):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.stmt):
                        self._stmt(x, mod, cls, fn, scope)
                    elif isinstance(x, ast.excepthandler):
                        if x.name:
                            self._bind(scope, x.name, ("assign", Top("exception"), scope))
                        if x.type is not None:
                            self._expr(x.type, mod, cls, fn, scope)
                        for b in x.body:
                            self._stmt(b, mod, cls, fn, scope)
                    elif isinstance(x, ast.match_case):
                        for p in ast.walk(x.pattern):
                            nm = getattr(p, "name", None) if isinstance(p, (ast.MatchAs, ast.MatchStar)) else None
                            if nm:
                                self._bind(scope, nm, ("assign", Top("pattern"), scope))
                        if x.guard is not None:
                            self._expr(x.guard, mod, cls, fn, scope)
                        for b in x.body:
                            self._stmt(b, mod, cls, fn, scope)
                    elif isinstance(x, ast.expr):
                        self._expr(x, mod, cls, fn, scope)

    def _target(self, t, v, mod, cls, fn, scope, in_class):
        if isinstance(t, ast.Name):
            if in_class:
                cls.attrs.setdefault(t.id, []).append(v)
            else:
                s = scope
                if isinstance(fn, Fn) and t.id in fn.nonlocal_:
                    s = mod
                self._bind(s, t.id, ("assign", v, scope))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                sub = v.elts[k] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(z, ast.Starred) for z in v.elts) else ("item", v, k)
                self._target(e, sub, mod, cls, fn, scope, in_class)
        elif isinstance(t, ast.Starred):
            self._target(t.value, Top("starred"), mod, cls, fn, scope, in_class)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and fn is not None:
            c = fn.cls or getattr(fn, "cls_outer", None)
            if c is not None and fn.pos and t.value.id == fn.pos[0]:
                c.selfattrs.setdefault(t.attr, []).append((v, fn))

    def _expr(self, e, mod, cls, fn, scope):
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Lambda):
                f = Fn(self, mod, x, None, fn if fn is not None else None)
                f.cls_outer = (getattr(fn, "cls_outer", None) or fn.cls) if fn is not None else None
                self.fns.append(f)
                self.fn_of[x] = f
                for d in x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                    stack.append(d)
                self._expr(x.body, mod, cls, f, f)
                continue
            if isinstance(x, ast.Call):
                self.calls.append((x, scope, mod))
            if isinstance(x, ast.NamedExpr):
                self._target(x.target, x.value, mod, cls, fn, scope, False)
            if isinstance(x, ast.comprehension):
                self._target(x.target, ("iter", x.iter), mod, cls, fn, scope, False)
            stack.extend(ast.iter_child_nodes(x))

    # ---------------------------------------------------------------- resolution
    def find(self, name, scope):
        """bindings of a name seen from scope: ('param', fn) or list of bindings"""
        s = scope
        while isinstance(s, Fn):
            if name in s.params:
                extra = s.locals.get(name, [])
                return [("param", s, name)] + extra
            if name in s.locals and name not in s.nonlocal_:
                return s.locals[name]
            s = s.parent if s.parent is not None else s.mod
        return s.env.get(name, [])

    def dotted(self, node, scope):
        """full dotted name of a Name/Attribute chain, through imports and plain aliases"""
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value, scope)
            return None if b is None else self.canon(f"{b}.{node.attr}")
        if isinstance(node, ast.Name):
            bs = self.find(node.id, scope)
            if len(bs) == 1:
                b = bs[0]
                if b[0] == "import":
                    return self.canon(b[1])
                if b[0] == "def":
                    return b[1].qual
                if b[0] == "class":
                    return b[1].qual
                if b[0] == "assign" and isinstance(b[1], (ast.Name, ast.Attribute)) and b[1] is not node:
                    r = self.dotted(b[1], b[2])
                    if r is not None:
                        return r
                if b[0] == "assign" and isinstance(scope if not isinstance(scope, Fn) else None, Mod) or (b[0] == "assign" and self._module_level(node.id, scope)):
                    m = scope.mod if isinstance(scope, Fn) else scope
                    return f"{m.name}.{node.id}"
                return None
            if bs and all(b[0] == "import" for b in bs):
                rs = {self.canon(b[1]) for b in bs}
                return rs.pop() if len(rs) == 1 else None
            if bs and self._module_level(node.id, scope):
                m = scope.mod if isinstance(scope, Fn) else scope
                return f"{m.name}.{node.id}"
            if not bs:
                return f"builtins.{node.id}"
        return None

    def _module_level(self, name, scope):
        s = scope
        while isinstance(s, Fn):
            if name in s.params or (name in s.locals and name not in s.nonlocal_):
                return False
            s = s.parent if s.parent is not None else s.mod
        return name in s.env

    def canon(self, d, depth=0):
        """follow re-exports inside the package"""
        if depth > 20:
            return d
        parts = d.split(".")
        for k in range(len(parts), 0, -1):
            m = ".".join(parts[:k])
            if m in self.mods:
                if k == len(parts):
                    return m
                nm = parts[k]
                if f"{m}.{nm}" in self.mods and not self.mods[m].env.get(nm):
                    continue
                bs = self.mods[m].env.get(nm, [])
                imps = [b for b in bs if b[0] == "import"]
                if len(bs) == 1 and imps:
                    t = imps[0][1]
                    if t == f"{m}.{nm}":
                        return d
                    return self.canon(".".join([t] + parts[k + 1:]), depth + 1)
                if len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], (ast.Name, ast.Attribute)):
                    r = self.dotted(bs[0][1], self.mods[m])
                    if r is not None and r != f"{m}.{nm}":
                        return self.canon(".".join([r] + parts[k + 1:]), depth + 1)
                return d
        return d

    def lookup(self, d):
        """Fn, Cls, Mod or ('value', bindings, mod) for a dotted name inside the package"""
        if d is None:
            return None
        d = self.canon(d)
        if d in self.mods:
            return self.mods[d]
        if d in self.classes:
            return self.classes[d]
        m, _, n = d.rpartition(".")
        if m in self.mods:
            bs = self.mods[m].env.get(n, [])
            for b in bs:
                if b[0] in ("def", "class"):
                    return b[1]
            if bs:
                return ("value", bs, self.mods[m])
        if m in self.classes:
            for c in self.classes[m].mro():
                if n in c.methods:
                    return c.methods[n]
        return None

    def self_class(self, scope):
        s = scope
        while isinstance(s, Fn):
            if s.cls is not None:
                return s.cls, s
            s = s.parent
        return None, None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in k.mro()]

    def targets(self, call, scope):
        """-> (list of Fn/Cls that may be called, dotted external name or None, number of bound leading args)"""
        f = call.func if isinstance(call, ast.Call) else call
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name):
                c, meth = self.self_class(scope)
                if c is not None and meth.pos and v.id == meth.pos[0] and meth.is_method:
                    out = []
                    for k in self.subclasses(c):
                        for q in k.mro():
                            if f.attr in q.methods:
                                if q.methods[f.attr] not in out:
                                    out.append(q.methods[f.attr])
                                break
                    if out:
                        return out, None
                    return [], None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                c, _ = self.self_class(scope)
                if c is not None:
                    return [q.methods[f.attr] for q in c.mro()[1:] if f.attr in q.methods][:1], None
        d = self.dotted(f, scope)
        if d is not None:
            t = self.lookup(d)
            if isinstance(t, (Fn, Cls)):
                return [t], d
            if isinstance(t, tuple):
                return [], d
            if not d.startswith("builtins.") or isinstance(f, ast.Name):
                if "." in d and d.split(".")[0] not in {m.split(".")[0] for m in self.mods}:
                    return [], d
        if isinstance(f, ast.Name):
            out = []
            for b in self.find(f.id, scope):
                if b[0] in ("def", "class"):
                    out.append(b[1])
                elif b[0] == "assign" and isinstance(b[1], ast.AST):
                    for x in ([b[1].body, b[1].orelse] if isinstance(b[1], ast.IfExp) else [b[1]]):
                        if isinstance(x, (ast.Name, ast.Attribute)):
                            t, d2 = self.targets(x, b[2])
                            out += t
                            if not t and d2:
                                return out, d2
                        elif isinstance(x, ast.Lambda):
                            out.append(self.fn_of[x])
            return out, d
        if isinstance(f, ast.Attribute):
            # a method of an object of unknown class
            out = [k.methods[f.attr] for k in self.classes.values() if f.attr in k.methods]
            return out, None
        return [], d

    # ---------------------------------------------------------------- callers
    def callers(self, fn):
        if self._callers is None:
            self._callers = {}
            self._refs = {}
            for call, scope, mod in self.calls:
                ts, d = self.targets(call, scope)
                for t in ts:
                    self._callers.setdefault(t, []).append((call, scope))
                if d in ("functools.partial", "functools.partialmethod") and call.args:
                    for t in self.targets(call.args[0], scope)[0]:
                        self._callers.setdefault(t, []).append((call, scope))
        return self._callers.get(fn, [])

    def is_partial(self, call, scope):
        return self.dotted(call.func, scope) in ("functools.partial", "functools.partialmethod")

    def argument(self, call, scope, fn, name):
        """expression passed for parameter name of fn at this call: AST | 'default' | Top"""
        kws = {k.arg: k.value for k in call.keywords if k.arg}
        if name in kws:
            return kws[name]
        for k in call.keywords:
            if k.arg is None:
                e = self.mapping_item(k.value, scope, name)
                if isinstance(e, Top):
                    return e
                if e is not None:
                    return e
        pos = list(fn.pos) if isinstance(fn, Fn) else None
        args = list(call.args)
        if self.is_partial(call, scope):
            args = args[1:]
        if pos is None:
            return Top("constructor")
        bound = 0
        if fn.is_method and isinstance(call.func, ast.Attribute):
            d = self.dotted(call.func.value, scope)
            if not (d and isinstance(self.lookup(d), Cls) and "classmethod" not in str([ast.dump(x) for x in fn.decorators])):
                bound = 1
        if name in pos:
            i = pos.index(name) - bound
            if any(isinstance(a, ast.Starred) for a in args[:i + 1]):
                return Top("starred argument")
            if 0 <= i < len(args):
                return args[i]
        if self.is_partial(call, scope):
            return Top("partial") if name not in fn.defaults else "default"
        return "default"

    def mapping_item(self, e, scope, key):
        """value of key in a ** mapping: AST, None (absent) or Top"""
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if k is None:
                    r = self.mapping_item(v, scope, key)
                    if r is not None:
                        return r
                elif isinstance(k, ast.Constant):
                    if k.value == key:
                        return v
                else:
                    return Top("computed key")
            return None
        if isinstance(e, ast.Call) and self.dotted(e.func, scope) == "builtins.dict" and not e.args:
            for k in e.keywords:
                if k.arg == key:
                    return k.value
            return None
        if isinstance(e, ast.Name):
            bs = self.find(e.id, scope)
            if len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], ast.AST):
                return self.mapping_item(bs[0][1], bs[0][2], key)
        d = self.dotted(e, scope) if isinstance(e, (ast.Name, ast.Attribute)) else None
        t = self.lookup(d) if d else None
        if isinstance(t, tuple) and len(t[1]) == 1 and t[1][0][0] == "assign":
            return self.mapping_item(t[1][0][1], t[2], key)
        return Top("unknown mapping")

    # ---------------------------------------------------------------- constant propagation
    def values(self, e, scope, seen=frozenset()):
        """set of constants an expression may have (Top for anything else)"""
        if isinstance(e, Top):
            return {e}
        if isinstance(e, tuple):
            return {Top(e[0])}
        key = (id(e), id(scope))
        if key in seen or len(seen) > 60:
            return set()
        seen = seen | {key}
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.IfExp):
            return self.values(e.body, scope, seen) | self.values(e.orelse, scope, seen)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.values(v, scope, seen)
            if isinstance(e.op, ast.Or):
                last = self.values(e.values[-1], scope, seen)
                out = {v for v in out if v not in (None, "", 0, False)} | last
            return out
        if isinstance(e, ast.NamedExpr):
            return self.values(e.value, scope, seen)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            vs = self.values(e.operand, scope, seen)
            return {-v if isinstance(v, (int, float)) else Top("negation") for v in vs}
        if isinstance(e, ast.Name):
            out = set()
            bs = self.find(e.id, scope)
            for b in bs:
                out |= self.binding(b, e.id, seen)
            if not bs:
                return {Top(e.id)}
            return out
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                c, meth = self.self_class(scope)
                if c is not None and meth.pos and e.value.id == meth.pos[0]:
                    return self.self_values(c, e.attr, seen)
            d = self.dotted(e, scope)
            if d is not None:
                return self.dotted_values(d, seen)
            return {Top("." + e.attr)}
        if isinstance(e, ast.Call):
            ts, d = self.targets(e, scope)
            out = set()
            if not ts and isinstance(e.func, ast.Attribute) and e.func.attr in PURE and not e.keywords:
                # a pure method of constant text
                vs = self.values(e.func.value, scope, seen)
                args = [self.values(a, scope, seen) for a in e.args]
                if vs and all(isinstance(v, str) for v in vs) and all(len(a) == 1 and isinstance(next(iter(a)), (str, int)) for a in args):
                    try:
                        return {getattr(v, e.func.attr)(*[next(iter(a)) for a in args]) for v in vs}
                    except (TypeError, ValueError):
                        pass
            if not ts:
                return {Top(d or "call")}
            for t in ts:
                if isinstance(t, Cls):
                    return {Top(t.name)}
                out |= self.returns(t, seen)
            return out
        if isinstance(e, ast.Subscript):
            m = None
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                m = self.mapping_item(e.value, scope, e.slice.value)
                if isinstance(m, ast.AST):
                    return self.values(m, scope, seen)
            return {Top("item")}
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out += str(v.value)
                else:
                    vs = self.values(v.value, scope, seen)
                    if len(vs) == 1 and isinstance(next(iter(vs)), str) and v.format_spec is None:
                        out += next(iter(vs))
                    else:
                        return {Top("text")}
            return {out}
        return {Top(type(e).__name__)}

    def returns(self, fn, seen):
        out = set()
        if isinstance(fn.node, ast.Lambda):
            return self.values(fn.node.body, fn, seen)
        stack = list(fn.node.body)
        n = 0
        while stack:
            st = stack.pop()
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.Return):
                n += 1
                out |= self.values(st.value, fn, seen) if st.value is not None else {None}
            stack.extend(x for x in ast.iter_child_nodes(st) if isinstance(x, (ast.stmt, ast.excepthandler, ast.match_case)))
        return out if n else {None}

    def binding(self, b, name, seen):
        if b[0] == "assign":
            return self.values(b[1], b[2], seen)
        if b[0] == "import":
            return self.dotted_values(self.canon(b[1]), seen)
        if b[0] == "param":
            return self.param_values(b[1], b[2], seen)
        return {Top(b[0])}

    def param_values(self, fn, name, seen):
        if name in (fn.vararg, fn.kwarg):
            return {Top("variadic")}
        out = set()
        cs = self.callers(fn)
        key = (id(fn), name)
        if key in seen:
            return set()
        seen = seen | {key}
        for call, scope in cs:
            a = self.argument(call, scope, fn, name)
            if isinstance(a, str):
                out |= self.values(fn.defaults[name], fn.parent or fn.mod, seen) if name in fn.defaults else {Top("missing argument")}
            else:
                out |= self.values(a, scope, seen)
        if not cs:
            if name in fn.defaults:
                out |= self.values(fn.defaults[name], fn.parent or fn.mod, seen)
            else:
                out.add(Top(f"parameter {name}"))
        return out

    def self_values(self, c, attr, seen):
        out = set()
        for k in self.subclasses(c):
            for q in k.mro():
                for v, fn in q.selfattrs.get(attr, []):
                    out |= self.values(v, fn, seen)
                for v in q.attrs.get(attr, []):
                    if v is None:
                        continue
                    if isinstance(v, ast.Call):
                        dk = [x.value for x in v.keywords if x.arg == "default"]
                        out |= self.values(dk[0], q.mod, seen) if dk else {Top(attr)}
                    else:
                        out |= self.values(v, q.mod, seen)
                if attr in q.anns or attr in q.attrs:
                    for call, scope in self.callers(k):
                        for kk in call.keywords:
                            if kk.arg == attr:
                                out |= self.values(kk.value, scope, seen)
        return out or {Top("self." + attr)}

    def dotted_values(self, d, seen):
        t = self.lookup(d)
        if isinstance(t, tuple):
            out = set()
            for b in t[1]:
                out |= self.binding(b if b[0] != "assign" else ("assign", b[1], b[2]), d, seen)
            return out
        if t is None:
            m, _, n = d.rpartition(".")
            if m in self.classes:
                out = set()
                for q in self.classes[m].mro():
                    for v in q.attrs.get(n, []):
                        if isinstance(v, ast.AST):
                            out |= self.values(v, q.mod, seen)
                if out:
                    return out
        return {Top(d)}
