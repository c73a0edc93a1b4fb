"""C08 Randomised results are reproducible."""
import ast

from ..harness import *  # noqa: F403
from ..classes import build, params, registered
from ..program import Fn, Program, Top
from ..typed import walk

SEED = "sleplet._vars.RANDOM_SEED"
SRC = "a random generator is created from the library's one fixed seed, inside the call that uses it"
NONE = "no result depends on global random state, time, process identity, hash order or entropy"
SOLVE = "an iterative solver is started from a fixed vector"
TWICE = "repeating the call gives the same result, whatever was drawn before"

MAKERS = {"default_rng", "RandomState", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "SeedSequence"}
WRAPPERS = {"Generator"}
TYPES = {"Generator", "BitGenerator", "RandomState", "SeedSequence", "bit_generator"}
ENTROPY = {"os.urandom", "os.getpid", "os.getppid", "os.getrandom", "builtins.id", "builtins.hash", "threading.get_ident", "threading.get_native_id",
           "socket.gethostname", "platform.node", "os.getloadavg", "tempfile.mktemp", "builtins.object"}
ENTROPY_MODULES = {"random", "secrets", "uuid"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time",
         "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.localtime", "time.gmtime", "time.ctime", "time.strftime"}
# solver -> argument holding the starting vector or generator
SOLVERS = {"scipy.sparse.linalg.eigsh": "v0", "scipy.sparse.linalg.eigs": "v0", "scipy.sparse.linalg.svds": "v0", "scipy.optimize.differential_evolution": "seed",
           "scipy.optimize.dual_annealing": "seed", "scipy.optimize.basinhopping": "seed", "scipy.stats.qmc.Sobol": "seed", "scipy.stats.qmc.Halton": "seed"}
POSITION = {"v0": 6}
CACHES = {"functools.cache", "functools.lru_cache", "functools.cached_property"}


def obligations(c):
    prog = Program()
    c.files |= {m.path for m in prog.mods.values()}
    c.functions |= {f.qual for f in prog.fns}
    c.calls += len(prog.calls)
    want = prog.dotted_values(SEED, frozenset())

    def seed(rec):
        if prog.lookup(SEED) is None:
            return rec.undecided("the seed's definition was not found")
        if any(isinstance(v, Top) for v in want):
            return rec.undecided(f"the seed is computed: {want}")
        if len(want) != 1 or not isinstance(next(iter(want)), int):
            return rec.violation(f"the seed may be {sorted(map(str, want))}")
        return rec.proved(detail=str(want))
    c.ob("the seed", seed, SRC)

    refs = list(references(prog))
    makers, solvers = [], []
    calls = {id(call.func): (call, scope, mod) for call, scope, mod in prog.calls}
    seen = {}

    def named(n):
        seen[n] = seen.get(n, 0) + 1
        return n if seen[n] == 1 else f"{n} ({seen[n]})"
    for node, scope, mod, d, ann in refs:
        where = f"{mod.rel}:{node.lineno} {scope.qual if isinstance(scope, Fn) else mod.name}"
        here = scope.qual if isinstance(scope, Fn) else mod.name
        if d.startswith("numpy.random."):
            x = d.split(".")[2]
            if x in TYPES and (ann or id(node) not in calls):
                continue
            if x in WRAPPERS:
                continue  # wraps a bit generator, judged by itself
            if x in MAKERS:
                call = calls.get(id(node))
                c.ob(named(f"generator made in {here}"), lambda rec, node=node, call=call, scope=scope, mod=mod, w=where: maker(rec, prog, node, call, scope, mod, w, want), SRC)
                continue
            c.ob(named(f"{d} in {here}"), lambda rec, w=where, d=d: rec.violation(f"{d} draws from the global random state", where=w), NONE)
        elif d.split(".")[0] in ENTROPY_MODULES or d in ENTROPY:
            c.ob(named(f"{d} in {here}"), lambda rec, w=where, d=d, node=node, scope=scope, mod=mod: (
                rec.proved(where=w, detail="only logged") if only_logged(prog, node, scope, mod) else rec.violation(f"{d} differs from run to run", where=w)), NONE)
        elif d in CLOCK:
            c.ob(named(f"{d} in {here}"), lambda rec, w=where, d=d, node=node, scope=scope, mod=mod: (
                rec.proved(where=w, detail="only logged") if only_logged(prog, node, scope, mod) else rec.violation(f"the clock ({d}) enters a result", where=w)), NONE)
        elif d in SOLVERS and id(node) in calls:
            c.ob(named(f"{d.rsplit('.', 1)[1]} in {here}"), lambda rec, w=where, d=d, cs=calls[id(node)]: start(rec, prog, d, cs, w), SOLVE)
    c.ob("hash order", lambda rec: sets(rec, prog), NONE)
    c.ob("references", lambda rec: rec.proved(detail=f"{len(refs)} references into numpy.random, clocks, entropy and solvers examined"), NONE)
    engine(c)


def references(prog):
    """(node, scope, module, dotted external name, inside an annotation)"""
    for m in prog.mods.values():
        ann = set()
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs + [q for q in (x.args.vararg, x.args.kwarg) if q]:
                    if a.annotation is not None:
                        ann |= {id(y) for y in ast.walk(a.annotation)}
                if x.returns is not None:
                    ann |= {id(y) for y in ast.walk(x.returns)}
            elif isinstance(x, ast.AnnAssign):
                ann |= {id(y) for y in ast.walk(x.annotation)}
        for node, scope in walk(prog, m.tree, m):
            if isinstance(node, (ast.Attribute, ast.Name)) and isinstance(node.ctx, ast.Load):
                d = prog.dotted(node, scope)
                if d and not d.startswith("sleplet"):
                    yield node, scope, m, d, id(node) in ann


def maker(rec, prog, node, call, scope, mod, where, want):
    rec.where = where
    if call is None:
        return rec.undecided("a generator constructor is passed around as a value")
    call = call[0]
    if not isinstance(scope, Fn):
        return rec.violation("one generator is made when the module is loaded: every draw depends on what was drawn before")
    s = scope
    while isinstance(s, Fn):
        for d in s.decorators:
            q = prog.dotted(d.func if isinstance(d, ast.Call) else d, mod)
            if q in CACHES:
                return rec.violation(f"the function making the generator is cached ({q}): later draws continue an earlier stream")
        s = s.parent
    kept = stored(prog, call, scope)
    if kept:
        return rec.violation(f"the generator is kept in {kept}, so later draws continue an earlier stream")
    arg = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg in ("seed", "entropy")), None)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return rec.undecided("the seed is passed through * or **")
    if arg is None:
        return rec.violation("the generator is not seeded")
    vs = prog.values(arg, scope)
    bad = [v for v in vs if not isinstance(v, Top) and v not in want]
    if bad and not any(isinstance(v, Top) for v in want):
        return rec.violation(f"the generator may be seeded with {bad[0]!r} instead of the library's seed")
    tops = [v for v in vs if isinstance(v, Top)]
    if tops or not vs:
        return rec.undecided(f"the seed is not a constant: {vs}")
    return rec.proved(detail=f"seed {vs}")


KEEPERS = {"setdefault", "append", "add", "insert", "extend", "update", "appendleft", "put", "__setitem__", "push"}


def stored(prog, call, scope):
    """name of a module- or class-level place this generator is kept in"""
    work, done = [(call, scope)], set()
    while work:
        x, sc = work.pop()
        if id(x) in done or not isinstance(sc, Fn):
            if not isinstance(sc, Fn):
                return "a value made when the module is loaded"
            continue
        done.add(id(x))
        fn = sc.node
        parents = {ch: p for p in ast.walk(fn) for ch in ast.iter_child_nodes(p)}
        if isinstance(fn, ast.Lambda):
            work += callers(prog, sc)
            continue
        p = parents.get(x)
        while isinstance(p, (ast.IfExp, ast.NamedExpr, ast.BoolOp)):
            if isinstance(p, ast.NamedExpr):
                work += loads(fn, p.target.id, sc)
                if p.target.id in sc.nonlocal_:
                    return f"the module variable {p.target.id}"
            x, p = p, parents.get(p)
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            for t in p.targets if isinstance(p, ast.Assign) else [p.target]:
                if isinstance(t, ast.Name):
                    if t.id in sc.nonlocal_:
                        return f"the module variable {t.id}"
                    work += loads(fn, t.id, sc)
                k = shared_place(prog, t, sc) if isinstance(t, (ast.Attribute, ast.Subscript)) else None
                if k:
                    return k
        elif isinstance(p, ast.Return):
            work += callers(prog, sc)
        elif isinstance(p, ast.Call) and x is not p.func and isinstance(p.func, ast.Attribute) and p.func.attr in KEEPERS:
            k = shared_place(prog, p.func, sc)
            if k:
                return k.rpartition(".")[0]
        elif isinstance(p, (ast.Dict, ast.Tuple, ast.List)):
            q = parents.get(p)
            if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in KEEPERS and shared_place(prog, q.func, sc):
                return shared_place(prog, q.func, sc).rpartition(".")[0]
    return None


def loads(fn, name, scope):
    return [(y, scope) for y in ast.walk(fn) if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load)]


def callers(prog, fn):
    return [(c, s) for c, s in prog.callers(fn) if not prog.is_partial(c, s)]


def shared_place(prog, t, scope):
    root = t
    while isinstance(root, (ast.Attribute, ast.Subscript)):
        root = root.value
    if isinstance(root, ast.Name):
        d = prog.dotted(root, scope)
        if root.id in scope.defaults:
            return f"the default value of the parameter {root.id}.x"
        if d is not None and (prog.lookup(d) is not None or d.rpartition(".")[0] in prog.mods or d in prog.mods):
            return ast.unparse(t)
    return None


LOGGERS = {"debug", "info", "warning", "error", "exception", "critical", "log"}


def only_logged(prog, node, scope, mod):
    """the value reached from node only ever goes into log messages"""
    if not isinstance(scope, Fn) or isinstance(scope.node, ast.Lambda):
        return False
    parents = {}
    for x in ast.walk(scope.node):
        for ch in ast.iter_child_nodes(x):
            parents[ch] = x
    work, done = [node], set()
    while work:
        x = work.pop()
        if id(x) in done:
            continue
        done.add(id(x))
        p = parents.get(x)
        while True:
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in LOGGERS and x is not p.func:
                break
            if isinstance(p, (ast.BinOp, ast.JoinedStr, ast.FormattedValue, ast.UnaryOp, ast.Tuple)) or (isinstance(p, ast.Call) and (x is p.func or prog.dotted(p.func, scope) in ("builtins.round", "builtins.float", "builtins.str", "builtins.int"))):
                x = p
                p = parents.get(p)
                continue
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                n = p.targets[0].id
                work += [y for y in ast.walk(scope.node) if isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Load)]
                break
            if isinstance(p, ast.Expr):
                break
            return False
    return True


def start(rec, prog, d, cs, where):
    rec.where = where
    call, scope, mod = cs
    name = SOLVERS[d]
    if any(k.arg is None for k in call.keywords):
        e = next((prog.mapping_item(k.value, scope, name) for k in call.keywords if k.arg is None), None)
        if isinstance(e, Top):
            return rec.undecided("the arguments are passed through **")
    else:
        e = None
    a = next((k.value for k in call.keywords if k.arg == name), e)
    i = POSITION.get(name)
    if a is None and i is not None and len(call.args) > i:
        a = call.args[i]
    if a is None:
        return rec.violation(f"{d} is started from a random vector of its own ({name} is not given)")
    vs = prog.values(a, scope) if isinstance(a, ast.AST) else {a}
    if None in vs:
        return rec.violation(f"{d} may be started from a random vector of its own ({name} may be None)")
    return rec.proved(detail=f"{name} given")


ORDERED = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.next", "builtins.iter", "builtins.zip", "builtins.map", "numpy.array", "numpy.fromiter"}


def sets(rec, prog):
    n = 0

    def is_set(e, scope, depth=0):
        if depth > 8:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            return prog.dotted(e.func, scope) in ("builtins.set", "builtins.frozenset")
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            return is_set(e.left, scope, depth + 1) or is_set(e.right, scope, depth + 1)
        if isinstance(e, ast.Name):
            bs = prog.find(e.id, scope)
            return bool(bs) and all(b[0] == "assign" and isinstance(b[1], ast.AST) and is_set(b[1], b[2], depth + 1) for b in bs)
        return False
    for call, scope, mod in prog.calls:
        d = prog.dotted(call.func, scope)
        args = call.args
        if d in ORDERED or (isinstance(call.func, ast.Attribute) and call.func.attr == "join"):
            for a in args:
                n += 1
                if is_set(a, scope):
                    rec.violation("the order of a set (hash order) enters a sequence", f"{mod.rel}:{call.lineno}", where=f"{mod.rel}:{call.lineno} {scope.qual if isinstance(scope, Fn) else mod.name}")
        if isinstance(call.func, ast.Attribute) and call.func.attr == "pop" and not args and is_set(call.func.value, scope):
            rec.violation("an arbitrary member of a set is used", f"{mod.rel}:{call.lineno}", where=f"{mod.rel}:{call.lineno}")
    for m in prog.mods.values():
        for node, scope in walk(prog, m.tree, m):
            if isinstance(node, ast.ListComp) and any(is_set(g.iter, scope) for g in node.generators):
                rec.violation("the order of a set (hash order) enters a list", f"{m.rel}:{node.lineno}", where=f"{m.rel}:{node.lineno}")
            if isinstance(node, ast.For):
                n += 1
                if is_set(node.iter, scope):
                    rec.undecided("a loop runs over a set", f"{m.rel}:{node.lineno}", where=f"{m.rel}:{node.lineno}")
    rec.proved("scanned", detail=f"{n} loops and conversions")


# ---------------------------------------------------------------- repeated calls
def engine(c):
    from .c20 import files

    I = new("cold")
    for cls in registered(I, "COEFFICIENTS", "MESH_COEFFICIENTS"):
        names = {n for n, a, h in params(I, cls)}
        for noise in ((False, True) if "noise" in names else (False,)):
            c.ob(f"{cls.name}" + (" with noise" if noise else "") + " built twice", lambda rec, q=f"{cls.mod}.{cls.name}", noise=noise: built_twice(rec, q, noise), TWICE)

    def calls(name, prepare):
        c.ob(name + " twice", lambda rec: twice(rec, *prepare()), TWICE)

    def wmap():
        I = new("cold")
        files(I)
        L = nat("L")
        assume_ge(I, L - 1)
        return I, "sleplet._data.create_wmap_flm.create_flm", [L], {}
    c.ob("WMAP coefficients twice", lambda rec: private(rec, lambda: twice(rec, *wmap())), TWICE)

    def eig():
        I = new("cold")
        V, F = nat("V"), nat("F")
        assume_ge(I, V - 8, F - 4)
        return I, "sleplet._mesh_methods.mesh_eigendecomposition", ["a_mesh", arr(I, "vertices", V, 3, dt="real"), arr(I, "faces", F, 3, dt="int", nonneg=True)], {}
    c.ob("mesh eigendecomposition twice", lambda rec: private(rec, lambda: twice(rec, *eig())), TWICE)

    def passed(rec):
        """with a caller's generator: every draw is taken from that generator"""
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        from ..models import default_rng

        r1, r2 = default_rng(I, num(7)), default_rng(I, num(7))
        fn = I.resolve("sleplet.harmonic_methods.compute_random_signal")
        rec.where = where_of(I, fn)
        n0 = len(I.events)
        a = run(I, fn, [L, r1], {"var_signal": real("var", True)})
        b = run(I, fn, [L, r2], {"var_signal": real("var", True)}, a.st)
        rec.seen(I)
        for e in I.events[n0:]:
            if e["kind"] == "draw" and e["rng"].data.get("id") not in (r1.data["id"], r2.data["id"]):
                rec.violation("a number is drawn from another generator than the one passed in", "generator")
        if not any(e["kind"] == "draw" for e in I.events[n0:]):
            rec.undecided("no draw was seen", "generator")
        else:
            rec.proved("generator")
        settle(rec, Cmp(rec, I, a.st, b.st, b.st.ctx).compare(a.value, b.value), "same generator state", incomplete=I.incomplete)
    c.ob("random signal from the caller's generator", passed, TWICE)


def built_twice(rec, q, noise):
    from .c20 import files

    I = new("cold")
    files(I)
    cls = I.resolve(q)
    n0 = len(I.events)
    b = build(I, cls, given=("noise",) if noise else ())
    rec.where = where_of(I, cls) or rec.where
    if b.out.st is None:
        return rec.undecided("the construction always raises")
    # something else is drawn in between
    I.st = b.out.st.copy()
    o = run(I, cls, [], b.kw, b.out.st)
    rec.seen(I)
    bad_events(rec, I, n0)
    if o.st is None:
        return rec.undecided("the second construction always raises")
    for f in ("coefficients", "_unnoised_coefficients", "snr"):
        settle(rec, Cmp(rec, I, b.out.st, o.st, o.st.ctx).compare(fld(b.out, b.out.value, f), fld(o, o.value, f), f), f, incomplete=I.incomplete)


def twice(rec, I, code, args, kw):
    fn = I.resolve(code)
    rec.where = where_of(I, fn)
    n0 = len(I.events)
    a = run(I, fn, args, kw)
    if a.st is None:
        return rec.undecided("the call always raises")
    b = run(I, fn, args, kw, a.st)
    rec.seen(I)
    bad_events(rec, I, n0)
    settle(rec, Cmp(rec, I, a.st, b.st, b.st.ctx).compare(a.value, b.value), "value", incomplete=I.incomplete)


def bad_events(rec, I, n0):
    for e in I.events[n0:]:
        if e["kind"] == "rng-unseeded":
            rec.violation("a generator without a seed is used", "seed")
        if e["kind"] == "rng-kept":
            rec.violation("the generator is kept in a container of the module, so later draws continue an earlier stream", "kept")
        if e["kind"] == "global-rng":
            rec.violation(f"numpy.random.{e['name']} uses the global random state", "global")
        if e["kind"] == "eigsh" and e["v0"] is None:
            rec.violation("eigsh is started from a random vector of its own", "start")
