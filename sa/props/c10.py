"""C10 One sampling grid everywhere."""
import ast

from ..program import Fn, Program, Top

RULE = "the sampling scheme given to every spherical transform and grid query is the library's one scheme"
ONE = "the library defines its sampling scheme exactly once, as a scheme the transform library knows"
# position of the scheme among the arguments (pyssht's interface)
METHOD = {"forward": 3, "inverse": 3, "inverse_adjoint": 3, "forward_adjoint": 3, "theta_to_index": 2, "phi_to_index": 2, "index_to_theta": 2,
          "index_to_phi": 2, "sample_length": 1, "sample_shape": 1, "sample_positions": 1, "plot_sphere": 2, "rotate_image": 2, "polar_plane_to_sphere": 6}
DEFAULT = "MW"
KNOWN = ("MW", "MWSS", "MW_pole", "DH", "GL")


def obligations(c):
    prog = Program()
    c.files |= {m.path for m in prog.mods.values()}
    c.functions |= {f.qual for f in prog.fns}
    c.calls += len(prog.calls)
    scheme = prog.dotted_values("sleplet._vars.SAMPLING_SCHEME", frozenset())

    def one(rec):
        t = prog.lookup("sleplet._vars.SAMPLING_SCHEME")
        if t is None:
            return rec.undecided("the scheme's definition was not found")
        if any(isinstance(v, Top) for v in scheme):
            return rec.undecided(f"the scheme is computed: {scheme}")
        if len(scheme) != 1 or next(iter(scheme)) not in KNOWN:
            return rec.violation(f"the scheme may be {sorted(map(str, scheme))}")
        return rec.proved(detail=str(next(iter(scheme))))
    c.ob("the scheme", one, ONE)
    want = scheme
    sites = []
    for call, scope, mod in prog.calls:
        fs = [call.func]
        skip = 0
        if prog.is_partial(call, scope) and call.args:
            fs, skip = [call.args[0]], 1
        ts, d = prog.targets(fs[0], scope)
        if d and d.split(".")[0] == "pyssht" and d.split(".")[-1] in METHOD:
            sites.append((call, scope, mod, d.split(".")[-1], skip))
    seen = {}
    for call, scope, mod, fn, skip in sites:
        nm = f"{fn} in {scope.qual if isinstance(scope, Fn) else mod.name}"
        seen[nm] = seen.get(nm, 0) + 1
        if seen[nm] > 1:
            nm += f" ({seen[nm]})"

        def site(rec, call=call, scope=scope, mod=mod, fn=fn, skip=skip):
            rec.where = f"{mod.rel}:{call.lineno} {scope.qual if isinstance(scope, Fn) else mod.name}"
            vs = scheme_of(prog, call, scope, fn, skip)
            if vs is None:
                return rec.proved(detail="completed where it is called")
            bad = sorted(str(v) for v in vs if not isinstance(v, Top) and v not in want)
            if bad and not any(isinstance(v, Top) for v in want):
                return rec.violation(f"{fn} may run on the '{bad[0]}' grid, the library's scheme is {sorted(map(str, want))}")
            if any(isinstance(v, Top) for v in vs) or not vs:
                return rec.undecided(f"the scheme of this call is not a constant: {vs}")
            return rec.proved(detail=f"{fn}: {sorted(vs)}")
        c.ob(nm, site, RULE)

    def names(rec):
        """references to the transform library that are not calls (stored or passed around)"""
        n = 0
        called = set()
        for call, scope, mod in prog.calls:
            called.add(call.func)
            called |= set(call.args) if prog.is_partial(call, scope) else set()
        for m in prog.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and x.attr in METHOD and x not in called:
                    d = prog.dotted(x, m)
                    if d and d.startswith("pyssht."):
                        n += 1
                        # an alias that is only ever called by name is covered by its call sites
                        if not aliased(prog, m, x):
                            rec.undecided(f"{d} is passed around as a value", f"{m.rel}:{x.lineno}")
        rec.proved("references", detail=f"{len(sites)} call sites, {n} aliases")
    c.ob("every use is a call site", names, RULE)


def aliased(prog, m, x):
    for st in ast.walk(m.tree):
        if isinstance(st, ast.Assign) and st.value is x and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            return True
    return False


def scheme_of(prog, call, scope, fn, skip):
    for k in call.keywords:
        if k.arg == "Method":
            return prog.values(k.value, scope)
    for k in call.keywords:
        if k.arg is None:
            r = prog.mapping_item(k.value, scope, "Method")
            if isinstance(r, Top):
                return forwarded(prog, k.value, scope)
            if r is not None:
                return prog.values(r, scope)
    args = call.args[skip:]
    i = METHOD[fn]
    if any(isinstance(a, ast.Starred) for a in args[:i + 1]):
        return {Top("starred arguments")}
    if i < len(args):
        return prog.values(args[i], scope)
    if skip:
        return None  # a partial application: its own calls give the scheme or the default
    ts, d = prog.targets(call, scope)
    # a partially applied transform called through a local name
    if isinstance(call.func, ast.Name):
        for b in prog.find(call.func.id, scope):
            if b[0] == "assign" and isinstance(b[1], ast.Call) and prog.is_partial(b[1], b[2]):
                return scheme_of(prog, b[1], b[2], fn, 1) or {DEFAULT}
    return {DEFAULT}


def forwarded(prog, e, scope):
    """**kwargs of the enclosing function: what its callers pass"""
    if isinstance(e, ast.Name) and isinstance(scope, Fn) and e.id == scope.kwarg:
        out = set()
        cs = prog.callers(scope)
        for call, s in cs:
            hit = [k.value for k in call.keywords if k.arg == "Method"]
            if hit:
                out |= prog.values(hit[0], s)
            elif any(k.arg is None for k in call.keywords):
                out.add(Top("mapping"))
            else:
                out.add(DEFAULT)
        return out or {DEFAULT}
    return {Top("mapping")}
