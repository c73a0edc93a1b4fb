"""C05 Data lookup order: published file, then local file, then recompute."""
import itertools

from ..harness import *  # noqa: F403
from ..terms import simp
from .solve import *  # noqa: F403
from .c04 import Disk, Unsupported, attributes, dm_hook, full, snap, text, CONTINENTS, leading
from .c20 import files

LOOK = "published -> fetched from the published set; otherwise present in the local directory -> that file; otherwise nothing"
REG = "the published registry is loaded exactly once, before the first lookup looks into it"
FAIL = "after a failed registry download every later lookup behaves as the first"
USE = "published results are used as they are: nothing is solved or stored"
REDO = "whatever part of the results is missing, the run ends with the computed results and stores them, in a directory it has made sure exists"
FIND = "sleplet._data.setup_pooch.find_on_pooch_then_local"


def obligations(c):
    for sym in (False, True):
        for pub in (True, False):
            for loc in (True, False):
                nm = f"{'any' if sym else 'a'} file name, {'published' if pub else 'not published'}, {'present' if loc else 'not present'} locally"
                c.ob(nm, lambda rec, sym=sym, pub=pub, loc=loc: look(rec, sym, pub, loc), LOOK)
    c.ob("registry loaded once", once, REG)
    c.ob("registry loaded before every lookup", before, REG)
    c.ob("failed registry download", failing, FAIL)
    for n, f in CALLERS.items():
        c.ob(f"{n}: published", lambda rec, f=f: published(rec, f), USE, limit=200)
        c.ob(f"{n}: missing files", lambda rec, f=f: missing(rec, f), REDO, limit=400)
    for n in ("Earth", "WMAP"):
        c.ob(f"bundled {n} data", lambda rec, n=n: bundled(rec, n), LOOK)


def lookup(rec):
    I = new()
    return I, private(rec, lambda: I.resolve(FIND))


def filename(sym):
    return SStr((("fmt", S("file", "int", True), ""), ".npy")) if sym else "some_file.npy"


def same(I, a, b):
    return simp(I.streq(SStr(a), SStr(b)), I.ctx)


def look(rec, sym, pub, loc):
    I, fn = lookup(rec)
    if fn is None:
        return
    rec.where = where_of(I, fn)
    name = filename(sym)
    asked = {"published": [], "exists": []}

    def ask(kind, v):
        def f(p):
            asked[kind].append(p)
            return ONE if v else ZERO
        return f
    I.world = {"unreachable": False, "published": ask("published", pub), "exists": ask("exists", loc)}
    e0 = len(I.events)
    o = run(I, fn, [name], {})
    rec.seen(I)
    if o.dead or o.raises:
        return rec.violation(f"the lookup fails: {[str(e.cls) for _, e in o.raises]}") if not I.incomplete else rec.undecided(I.incomplete[0])
    if I.incomplete:
        return rec.undecided(I.incomplete[0])
    I.st = o.st
    want = I.pieces(name)
    local = ("<user_data>", "/") + want
    for p in asked["published"]:
        if same(I, p, want) != ONE:
            return rec.violation(f"the published set is asked for {text(p)} instead of {text(want)}")
    for p in asked["exists"]:
        if same(I, p, norm(local)) != ONE and same(I, p, local) != ONE:
            return (rec.undecided if same(I, p, local) != ZERO else rec.violation)(f"the local directory is asked for {text(p)} instead of {text(local)}")
    ev = [e for e in I.events[e0:] if e["kind"] == "fetch"]
    v = o.value
    if pub:
        if not asked["published"]:
            return rec.violation("the published set is not asked")
        if len(ev) != 1 or same(I, ev[0]["pieces"], want) != ONE:
            return rec.violation(f"a published file is fetched {len(ev)} times" if len(ev) != 1 else f"{text(ev[0]['pieces'])} is fetched instead of {text(want)}")
        if v is None or not fetched(I, v):
            return rec.violation("the file that was fetched is not the one returned")
        return rec.proved()
    if ev:
        return rec.violation("a file that is not published is fetched")
    if loc:
        if v is None:
            return rec.violation("a file that is present locally is not found")
        got = I.pieces(v)
        q = same(I, got, local)
        return rec.proved() if q == ONE else (rec.violation if q == ZERO else rec.undecided)(f"{text(got)} is returned instead of {text(local)}")
    return rec.proved() if v is None else rec.violation(f"something is returned for a file that is nowhere: {v!r}"[:200])


def norm(p):
    return p


def fetched(I, v):
    p = I.pieces(v)
    return len(p) == 1 and not isinstance(p[0], str) and isinstance(p[0][1], (Poly, Atom)) and "fetched" in repr(p[0][1])


def once(rec):
    I, fn = lookup(rec)
    if fn is None:
        return
    rec.where = where_of(I, fn)
    I.world = dict(COLD)
    e0 = len(I.events)
    for k, name in enumerate(("first.npy", "second.npy", "first.npy")):
        o = run(I, fn, [name], {}, I.st)
        if o.dead:
            return rec.undecided("the lookup does not return")
        I.st = o.st
        made = [e for e in I.events[e0:] if e["kind"] == "registry-create"]
        loaded = [e for e in I.events[e0:] if e["kind"] == "registry-load"]
        if len(made) != 1 or len(loaded) != 1:
            rec.seen(I)
            return rec.violation(f"after {k + 1} lookups the registry has been created {len(made)} times and loaded {len(loaded)} times")
    rec.seen(I)
    rec.proved(detail="3 lookups, 1 load") if not I.incomplete else rec.undecided(I.incomplete[0])


def before(rec):
    """at the moment the registry is looked into, it is loaded"""
    I, fn = lookup(rec)
    if fn is None:
        return
    rec.where = where_of(I, fn)
    early = []

    def ask(p):
        if not any(e["kind"] == "registry-load" for e in I.events):
            early.append(p)
        return ZERO
    I.world = dict(COLD, published=ask)
    o = run(I, fn, ["a.npy"], {})
    rec.seen(I)
    if I.incomplete or o.dead:
        return rec.undecided((I.incomplete or ["the lookup does not return"])[0])
    rec.violation("the registry is looked into before it is loaded") if early else rec.proved()


def failing(rec):
    I, fn = lookup(rec)
    if fn is None:
        return
    rec.where = where_of(I, fn)
    for after in (True, False):
        # the network is still unreachable afterwards, or back again
        I.world = dict(COLD, unreachable=True)
        I2, f2 = I, fn
        st0 = I.st.copy()
        a = run(I, fn, ["a.npy"], {}, st0)
        if not a.raises:
            first = None
            st = a.st
        else:
            first = a.raises[0][1].cls
            st = a.raises[0][0]
        I.st = st.copy()
        I.world = dict(COLD, unreachable=after)
        e0 = len(I.events)
        b = run(I, fn, ["a.npy"], {}, st)
        rec.seen(I)
        sub = "network still down" if after else "network back"
        if I.incomplete:
            rec.undecided(I.incomplete[0], sub)
            continue
        second = b.raises[0][1].cls if b.dead and b.raises else None
        tried = [e for e in I.events[e0:] if e["kind"] == "registry-load"]
        if first is None:
            rec.proved(sub, detail="a failed download does not stop the lookup") if not b.dead else rec.violation("the first lookup returns, the second fails", sub)
        elif not tried:
            rec.violation("the first lookup after a failed registry download raises, later lookups silently use an empty registry", sub, key="failed-registry-download")
        else:
            rec.proved(sub, detail="the download is tried again") if after is False or second is not None else rec.violation("later lookups do not fail as the first", sub)
        I.st = st0


# ------------------------------------------------------------------ the computations that look files up
class Caller:
    def __init__(self, I, call, attrs, where):
        self.I, self.call, self.attrs, self.where = I, call, attrs, where


def polar_caller(small):
    def f(rec):
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1, *([num(16) - L] if small else [L - 17]))
        masks(I)
        th = theta(I)
        dm_hook(I, L, th)
        k = Caller(I, lambda st: run(I, POLAR, [L, th], {}, st), ("eigenvalues", "eigenvectors", "order"), where_cls(I, POLAR))
        k.shapes = {"eigenvalues": ((L * L,), "real"), "eigenvectors": ((L * L, L * L), "complex"), "orders": ((L * L,), "int")}
        return k
    return f


def box_caller(rec):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    kw = box_setup(I, L, False)
    hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
    k = Caller(I, lambda st: run(I, BOX, [L], kw, st), ("eigenvalues", "eigenvectors"), where_cls(I, BOX))
    k.shapes = {"eigenvalues": ((L * L,), "real"), "eigenvectors": ((L * L, L * L), "complex")}
    return k


def mask_caller(rec):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    mask_setup(I, L)
    hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
    k = Caller(I, lambda st: run(I, MASK, [L], {"mask_name": "south_america"}, st), ("eigenvalues", "eigenvectors"), where_cls(I, MASK))
    k.shapes = {"eigenvalues": ((L * L,), "real"), "eigenvectors": ((L * L, L * L), "complex")}
    return k


def mesh_slepian_caller(rec):
    I = new("cold")
    w = mesh_obj(I)
    hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
    k = Caller(I, lambda st: run(I, MESH, [w.m], {}, st), ("slepian_eigenvalues", "slepian_functions"), where_cls(I, MESH))
    k.shapes = {"eigenvalues": ((w.K,), "real"), "eigenvectors": ((w.K, w.K), "real")}
    return k


def mesh_caller(rec):
    from .c29 import hook_config, offered
    names, _ = offered()
    I = new("cold")
    hook_config(I, [])
    cls = I.resolve("sleplet.meshes.mesh.Mesh")
    K = nat("K")
    assume_ge(I, K - 1)
    k = Caller(I, lambda st: run(I, cls, (names[0],), {"number_basis_functions": K}, st), ("mesh_eigenvalues", "basis_functions"), where_of(I, cls))
    k.shapes = {"eigenvalues": ((K,), "real"), "eigenvectors": ((K, nat("V")), "real")}
    return k


def land_caller(cont, function):
    def f(rec):
        from .c21 import earth, MM
        I = new("cold")
        L = nat("L")
        assume_ge(I, L - 1)
        earth(I, [])
        nt, nph = run(I, "spec.sphere.shape", [L]).value
        if function:
            q = "sleplet.functions." + CONTINENTS[cont]
            k = Caller(I, lambda st: run(I, q, [L], {}, st), ("coefficients",), where_of(I, I.resolve(q)))
        else:
            r = run(I, "sleplet.slepian.region.Region", [], {"mask_name": cont})
            I.st = r.st
            fn = private(rec, lambda: I.resolve(MM + "create_mask_region"))
            if fn is None:
                return None
            k = Caller(I, lambda st: run(I, fn, [L, r.value], {}, st), (), where_of(I, fn))
        k.shapes = {"slepian_masks": ((P(nt), P(nph)), "bool")}
        return k
    return f


CALLERS = {
    "polar cap, L <= 16": polar_caller(True), "polar cap, L > 16": polar_caller(False), "latitude/longitude box": box_caller, "arbitrary region": mask_caller,
    "mesh region": mesh_slepian_caller, "mesh basis": mesh_caller,
    "mask of south_america": land_caller("south_america", False), "mask of africa": land_caller("africa", False),
    "South America": land_caller("south_america", True), "Africa": land_caller("africa", True),
}


def literals(x, depth=0):
    """every literal piece of a name, however deep"""
    if isinstance(x, str):
        return x
    if depth > 30:
        return ""
    if isinstance(x, (tuple, list)):
        return " ".join(literals(y, depth + 1) for y in x)
    if isinstance(x, Atom):
        return x.kind + " " + literals(x.args, depth + 1)
    if isinstance(x, SStr):
        return literals(tuple(x.pieces), depth + 1)
    if isinstance(x, Poly):
        return " ".join(literals(a, depth + 1) for mono in x.t for a, _ in mono)
    return ""


def stuck(rec, I, o, what):
    if I.incomplete or not o.raises:
        return rec.undecided((I.incomplete or ["the run does not return"])[0])
    e = o.raises[0][1]
    rec.violation(f"{what} {e.cls} {str(e.args)[:80]}", where=f"{e.loc[0]}:{e.loc[1]}" if e.loc else None)


def published(rec, make):
    k = make(rec)
    if k is None:
        return
    I, rec.where = k.I, k.where
    I.world = dict(COLD, published=True, exists=True)
    loads, odd = [], []

    def load(I2, fn, a, kw):
        p = I2.pieces(a[0])
        loads.append(p)
        if not fetched(I2, a[0]):
            odd.append(p)
        t = literals(p)
        for n, (sh, dt) in k.shapes.items():
            if n in t:
                return arr(I2, "published_" + n, *sh, dt=dt)
        raise Unsupported("a file that is not one of the known results is loaded")
    hook(I, "numpy.load", load)
    e0 = len(I.events)
    o = k.call(I.st.copy())
    rec.seen(I)
    ev = I.events[e0:]
    if o.dead:
        return stuck(rec, I, o, "the results are published and the run raises")
    if I.incomplete:
        return rec.undecided(I.incomplete[0])
    if odd:
        return rec.violation(f"{text(odd[0])} is read although the file is published")
    if not loads:
        return rec.violation("published results are not used")
    work = [e for e in ev if e["kind"] in ("eigh", "eigsh", "save")]
    if work:
        return rec.violation(f"{'a file is stored' if work[0]['kind'] == 'save' else 'the eigenproblem is solved'} although the results are published ({work[0]['loc']})")
    rec.proved(detail=f"{len(loads)} files")


def missing(rec, make):
    k = make(rec)
    if k is None:
        return
    I, rec.where = k.I, k.where
    st0, n0, e0 = I.st.copy(), len(I.st.pc), len(I.events)
    cold = k.call(st0)
    if cold.dead:
        return stuck(rec, I, cold, "nothing is found and the run raises instead of computing")
    directory(rec, I, I.events[e0:], "first run")
    I.st = st0
    r = cold.raise_cond()
    if r != ZERO:
        assume(I, ONE - r)
    st0 = I.st.copy()
    d = Disk(I)
    d.absorb(I.events[e0:], n0)
    names = [f[0] for f in d.files]
    hook(I, "numpy.load", d.load)
    whole = list(d.files)
    for n in range(len(whole)):
        for keep in itertools.combinations(range(len(whole)), n):
            if not n:
                continue  # the run above
            d.files = [whole[i] for i in keep]
            I.world = dict(COLD, exists=d.exists)
            I.st = st0.copy()
            e1 = len(I.events)
            b = k.call(st0)
            sub = "only " + ", ".join(str(i + 1) for i in keep) + f" of {len(whole)} files present"
            if b.dead:
                rec.violation(f"the run fails: {[(str(e.cls), str(e.args)[:80]) for _, e in b.raises]}", sub)
                continue
            written = [full(e["pieces"]) for e in I.events[e1:] if e["kind"] == "save"]
            lost = [p for i, p in enumerate(names) if i not in keep and p not in written]
            if lost:
                rec.violation(f"{text(lost[0])} is missing and not stored again", sub)
            directory(rec, I, I.events[e1:], sub)
            I.st = b.st
            for a in k.attrs:
                va, vb = at_state(I, cold, lambda: snap(I, fld(cold, cold.value, a))), at_state(I, b, lambda: snap(I, fld(b, b.value, a)))
                leading(rec, I, va, vb, a, None, None, True, f"{sub}: {a}")
    rec.seen(I)
    if len(whole) < 2 and not k.attrs:
        rec.proved(detail="a single file")


def directory(rec, I, events, sub):
    """numpy.save needs its directory"""
    made = []
    for e in events:
        if e["kind"] == "mkdir":
            made.append(e)
        if e["kind"] != "save":
            continue
        p = e["pieces"]
        parent = None
        for i in range(len(p) - 1, -1, -1):
            if isinstance(p[i], str) and "/" in p[i]:
                head = p[i][: p[i].rindex("/")]
                parent = p[:i] + ((head,) if head else ())
                break
        if parent is None:
            rec.undecided("the directory of a stored file is not recognised", sub + ", directory")
            return
        ok = [m for m in made if same(I, m["pieces"], parent) == ONE]
        if not ok:
            rec.violation(f"{text(p)} is written to a directory that may not exist", sub + ", directory", where=rec.where)
            return
        kw = ok[-1]
        if kw["call"] == "mkdir":
            a = dict(zip(("mode", "parents", "exist_ok"), kw["args"])) | dict(kw["kw"])
            if a.get("exist_ok", ZERO) == ZERO or a.get("parents", ZERO) == ZERO:
                rec.violation("the directory is created in a way that fails when it exists already or its parent does not", sub + ", directory", where=rec.where)
                return
    rec.proved(sub + ", directory")


def bundled(rec, which):
    """the bundled data are read from where the lookup finds them"""
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    paths = []
    files(I)
    inner = I.hooks["scipy.io.loadmat"]

    def load(I2, fn, a, k):
        paths.append(a[0])
        return inner(I2, fn, a, k)
    hook(I, "scipy.io.loadmat", load)
    I.world = dict(COLD, published=True)
    q = "sleplet.functions." + ("Earth" if which == "Earth" else "Wmap")
    cls = I.resolve(q)
    rec.where = where_of(I, cls)
    o = run(I, cls, [L], {})
    rec.seen(I)
    if o.dead or I.incomplete:
        return rec.undecided((I.incomplete or ["the construction does not return"])[0])
    if not paths:
        return rec.undecided("no data file is read")
    for p in paths:
        if p is None or not fetched(I, p):
            return rec.violation("the data file is not taken from the published set")
    rec.proved(detail=f"{len(paths)} files")
