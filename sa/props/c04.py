"""C04 What is written to the cache is what a later run reads back."""
from ..harness import *  # noqa: F403
from ..classes import build
from ..models import b_eq
from ..terms import simp, b_not
from .solve import *  # noqa: F403
from .c20 import files

HIT = "a run finds everything it needs among the files written by an earlier run of the same computation: nothing is solved or sampled again"
SAME = "a run that reads the stored files ends with the values the computing run returned; eigenvectors keep their leading rows"
ROWS = "eigenvalues, orders, masks and mesh bases are stored whole, eigenvectors whole or down to the leading Shannon number of rows"
ONEORD = "with the solution of all orders stored, one order is read from the rows of that order, or solved afresh if only leading eigenvectors are stored"
FIRST = "solving one order leaves nothing behind that a later run over all orders would take for its own result"
WORK = {"eigh", "eigsh"}
CONTINENTS = {"africa": "Africa", "south_america": "SouthAmerica"}


class Disk:
    """files of the data directory, as written by symbolic runs"""

    def __init__(self, I):
        self.I, self.files = I, []
        self.asked, self.read, self.unread = [], [], []

    def absorb(self, events, n0):
        for e in events:
            if e["kind"] == "save":
                c = ONE
                for p in e["pc"][n0:]:
                    c = c * p
                for q in e["quants"]:
                    raise Unsupported("a file is written inside a symbolic loop")
                self.files.append((full(e["pieces"]), e["value"], c, e))

    def same(self, a, b):
        return simp(self.I.streq(SStr(a), SStr(b)), self.I.ctx)

    def exists(self, pieces):
        self.asked.append(pieces)
        r = ZERO
        for p, _, c, _ in self.files:
            r = b_or(r, self.same(p, pieces) * c)
        return simp(r, self.I.ctx)

    def load(self, I, fn, a, k):
        pieces = I.pieces(a[0])
        for p, v, c, e in reversed(self.files):
            q = self.same(p, pieces)
            if q == ONE:
                self.read.append((p, e))
                return I.alloc(v)
            if q != ZERO:
                raise Unsupported("it is not known which stored file is read")
        raise Unsupported("a file that no earlier run stored is read")


def full(pieces):
    """the name numpy.save writes to"""
    last = pieces[-1]
    if isinstance(last, str) and not last.endswith(".npy"):
        return pieces[:-1] + (last + ".npy",)
    return pieces


def text(pieces):
    return SStr(pieces) and "".join(p if isinstance(p, str) else "{" + show(p[1], 40) + "}" for p in pieces)


def show(x, n=60):
    from ..terms import show as sh
    return sh(P(x), n) if not isinstance(x, str) else x


def again(rec, I, call, kinds=WORK, sub="", disk=None, call2=None):
    """(cold outcome, warm outcome, disk) of running the computation twice, or None"""
    st0, n0, e0 = I.st.copy(), len(I.st.pc), len(I.events)
    base = dict(I.world)
    a = call(st0)
    if a.dead:
        rec.undecided(f"no computing run returns: {[(str(e.cls), str(e.args)[:80]) for _, e in a.raises]}", sub)
        return None
    # only histories in which the computing run returns have stored anything
    I.st = st0
    r = a.raise_cond()
    if r != ZERO:
        assume(I, ONE - r)
    st0 = I.st.copy()
    d = disk or Disk(I)
    d.absorb(I.events[e0:], n0)
    if not d.files:
        rec.violation("the computing run stores no file, so every run computes again", sub)
        return None
    e1 = len(I.events)
    I.world = dict(base, exists=d.exists, published=False)
    keep = I.hooks.get("numpy.load")
    I.hooks["numpy.load"] = d.load
    b = (call2 or call)(st0)
    if keep is None:
        del I.hooks["numpy.load"]
    else:
        I.hooks["numpy.load"] = keep
    I.world = base
    if not b.dead and b.raises:
        r = simp(b.raise_cond(), st0.ctx)
        if r != ZERO:
            (rec.violation if r == ONE else rec.undecided)(f"after a computing run the next run fails ({', '.join(str(e.cls) for _, e in b.raises)}) when {show(r, 200)}", sub + " failure")
    if b.dead:
        rec.violation(f"after a computing run the next run fails: {[(str(e.cls), str(e.args)[:80]) for _, e in b.raises]}", sub)
        return None
    warm = I.events[e1:]
    # every file needed is found
    missing = []
    for p in d.asked:
        r = ZERO
        for q, _, c, _ in d.files:
            r = b_or(r, d.same(q, p) * c)
        r = simp(r, I.ctx)
        if r != ONE:
            missing.append((p, r))
    work = [e for e in warm if e["kind"] in kinds]
    rewritten = [e for e in warm if e["kind"] == "save"]
    if missing:
        p, r = missing[0]
        have = ", ".join(text(q) for q, _, _, _ in d.files)
        if r == ZERO:
            rec.violation(f"a later run looks for {text(p)}, but the computing run stored only {have}", sub + " lookup", where=rec.where)
        else:
            rec.undecided(f"not known whether (only if {show(r,700)}) {text(p)} is among {have}", sub + " lookup")
    elif not d.asked:
        rec.violation("a later run does not look for the stored files", sub + " lookup")
    elif work:
        rec.violation(f"a later run solves the eigenproblem again ({work[0]['loc']}) although every file it looks for is stored", sub + " lookup", where=rec.where)
    elif rewritten:
        rec.undecided(f"a later run writes {text(rewritten[0]['pieces'])} again", sub + " lookup")
    else:
        rec.proved(sub + " lookup", detail=f"{len(d.asked)} lookups, {len(d.files)} files: " + ", ".join(text(p) for p, _, _, _ in d.files))
        idle = [text(p) for p, _, c, _ in d.files if not any(p == q for q, _ in d.read)]
        if idle:
            rec.undecided(f"{idle[0]} is stored but the run did not read it", sub + " files read")
    return a, b, d


def leading(rec, I, a, b, what, n, N, whole, sub):
    """b is a, or its leading N rows where that is allowed"""
    if a is None or b is None:
        return rec.violation(f"{what} {'set' if a is None else 'not set'} when read back, {'not set' if a is None else 'set'} when computed", sub)
    x, y = I.arr(a), I.arr(b)
    if x.shape is None or y.shape is None:
        return rec.undecided(f"the shape of {what} is not known", sub)
    if len(x.shape) != len(y.shape):
        return rec.violation(f"{what} have {len(y.shape)} axes when read back, {len(x.shape)} when computed", sub)
    if x.dt != y.dt or y.tags.get("narrow"):
        return rec.violation(f"{what} are read back as {'narrower ' if y.tags.get('narrow') else ''}{y.dt} numbers, computed as {x.dt} numbers", sub)
    ctx0 = I.st.ctx
    r = []
    rows = simp(P(y.shape[0]), I.ctx)
    allrows = simp(P(x.shape[0]), I.ctx)
    q = equal(rec, rows, allrows, f"number of stored rows of {what}", I.ctx)
    if N is not None and not whole and any(s != "ok" for s, _ in q):
        q = equal(rec, rows, N, f"number of stored rows of {what}", I.ctx)
    r += q
    for i in range(1, len(x.shape)):
        r += equal(rec, y.shape[i], x.shape[i], f"axis {i} of {what}", I.ctx)
    idx = tuple(nat(f"i{j}") for j in range(len(x.shape)))
    if any(s != "ok" for s, _ in r):
        settle(rec, r, sub, incomplete=I.incomplete)
        return
    assume_ge(I, rows - 1 - idx[0], *(P(s) - 1 - i for s, i in zip(x.shape[1:], idx[1:])))
    r += equal(rec, simp(y.elem(idx), I.ctx), simp(x.elem(idx), I.ctx), f"{what} read back against those computed", I.ctx)
    I.st.ctx = ctx0
    settle(rec, r, sub, incomplete=I.incomplete)


def attributes(rec, I, a, b, spec, N):
    for name, whole in spec:
        va, vb = at_state(I, a, lambda: snap(I, fld(a, a.value, name))), at_state(I, b, lambda: snap(I, fld(b, b.value, name)))
        leading(rec, I, va, vb, name, None, N, whole, name)


def snap(I, v):
    return I.arr(v) if isinstance(v, ARef) else v


def obligations(c):
    for gap in (ZERO, ONE):
        g = "gap" if gap == ONE else "cap"
        for small in (True, False):
            c.ob(f"polar {g}, all orders, L {'<= 16' if small else '> 16'}", lambda rec, gap=gap, small=small: polar_all(rec, gap, small), "; ".join([HIT, SAME, ROWS]), limit=300)
    for edge in (False, True):
        c.ob("latitude/longitude box" + (", angles at the ends of their ranges" if edge else ""), lambda rec, edge=edge: simple(rec, BOX, edge), "; ".join([HIT, SAME, ROWS]), limit=200)
    c.ob("arbitrary region", lambda rec: simple(rec, MASK), "; ".join([HIT, SAME, ROWS]), limit=200)
    c.ob("mesh region", lambda rec: simple(rec, MESH), "; ".join([HIT, SAME, ROWS]), limit=200)
    for given in (True, False):
        c.ob("mesh basis, " + ("number of functions chosen" if given else "default number of functions"), lambda rec, given=given: mesh(rec, given), "; ".join([HIT, SAME, ROWS]), limit=200)
    for cont, cls in CONTINENTS.items():
        for who in ("region", "function"):
            for then in ("region", "function"):
                c.ob(f"mask of {cont}, written by the {who}, read by the {then}", lambda rec, cont=cont, cls=cls, who=who, then=then: mask(rec, cont, cls, who, then), "; ".join([HIT, SAME, ROWS]), limit=200)
    for gap in (ZERO, ONE):
        g = "gap" if gap == ONE else "cap"
        for small in (True, False):
            for sign in "0+-":
                nm = {"0": "order 0", "+": "a positive order", "-": "a negative order"}[sign]
                c.ob(f"polar {g}, {nm} after all orders, L {'<= 16' if small else '> 16'}", lambda rec, gap=gap, small=small, sign=sign: one_order(rec, gap, small, sign), ONEORD, limit=200)
        c.ob(f"polar {g}, all orders after one order", lambda rec, gap=gap: order_first(rec, gap), FIRST, limit=300)


def polar_all(rec, gap, small):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1, *( [num(16) - L] if small else [L - 17]))
    masks(I)
    th = theta(I)

    def dm(I2, fn, a, k):
        m = I2.bind(fn, a, k)["m"]
        return I2.alloc(opq(I2, "Dm", (L, th, m), (L - m, L - m), "real"))
    hook(I, POLAR + "._create_Dm_matrix", dm)
    rec.where = where_cls(I, POLAR)
    got = again(rec, I, lambda st: run(I, POLAR, [L, th], {"gap": gap}, st))
    if got is None:
        return
    a, b, d = got
    I.st = b.st
    N = fld(a, a.value, "N")
    assume_ge(I, L * L - N)
    attributes(rec, I, a, b, [("eigenvalues", True), ("eigenvectors", small), ("order", True)], N)
    rec.seen(I)


def simple(rec, cls, edge=None):
    I = new("cold")
    if cls == MESH:
        w = mesh_obj(I)
        n = w.K
        hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
        call = lambda st: run(I, MESH, [w.m], {}, st)
        names = [("slepian_eigenvalues", True), ("slepian_functions", False)]
    else:
        L = nat("L")
        assume_ge(I, L - 1)
        n = L * L
        hook(I, "numpy.linalg.eigh", lambda I2, x: I2.alloc(opq(I2, "D", (), x.shape, x.dt)))
        if cls == MASK:
            mask_setup(I, L)
            call = lambda st: run(I, MASK, [L], {"mask_name": "south_america"}, st)
        else:
            kw = box_setup(I, L, edge)
            call = lambda st: run(I, BOX, [L], kw, st)
        names = [("eigenvalues", True), ("eigenvectors", False)]
    rec.where = where_cls(I, cls)
    got = again(rec, I, call)
    if got is None:
        return
    a, b, d = got
    I.st = b.st
    N = fld(a, a.value, "N")
    assume_ge(I, n - N)
    attributes(rec, I, a, b, names, N)
    rec.seen(I)


def mesh(rec, given):
    from .c29 import build_mesh, hook_config, offered
    names, _ = offered()
    if not names:
        return rec.undecided("the list of meshes could not be evaluated")
    I = new("cold")
    hook_config(I, [])
    cls = I.resolve("sleplet.meshes.mesh.Mesh")
    rec.where = where_of(I, cls)
    kw = {}
    if given:
        kw["number_basis_functions"] = nat("K")
        assume_ge(I, kw["number_basis_functions"] - 1)
    got = again(rec, I, lambda st: run(I, cls, (names[0],), kw, st))
    if got is None:
        return
    a, b, d = got
    I.st = b.st
    attributes(rec, I, a, b, [("mesh_eigenvalues", True), ("basis_functions", True)], None)
    r = equal(rec, fld(b, b.value, "number_basis_functions"), fld(a, a.value, "number_basis_functions"), "number of basis functions", I.ctx)
    settle(rec, r, "number of basis functions", incomplete=I.incomplete)
    rec.seen(I)


def mask(rec, cont, cls, who, then):
    I = new("cold")
    L = nat("L")
    assume_ge(I, L - 1)
    files(I)
    from .c21 import earth, MM
    earth(I, [])
    r = run(I, "sleplet.slepian.region.Region", [], {"mask_name": cont})
    I.st = r.st
    fn = private(rec, lambda: I.resolve(MM + "create_mask_region"))
    if fn is None:
        return
    rec.where = where_of(I, fn)
    calls = {"region": lambda st: run(I, fn, [L, r.value], {}, st), "function": lambda st: run(I, "sleplet.functions." + cls, [L], {}, st)}
    made = []
    keep = I.hooks.get("numpy.save")

    st0 = I.st.copy()
    cold = calls[then](st0) if then != who else None
    I.st = st0.copy()
    n = len(I.events)
    # the mask counts as made again when the land is sampled again inside create_mask
    got = again(rec, I, calls[who], call2=calls[then] if then != who else None, kinds={"save"})
    if got is None:
        return
    a, b, d = got
    a = cold or a
    I.st = b.st
    if then == "region":
        va, vb = at_state(I, a, lambda: I.arr(a.value)), at_state(I, b, lambda: I.arr(b.value))
    else:
        va, vb = (at_state(I, o, lambda o=o: I.arr(fld(o, o.value, "coefficients"))) for o in (a, b))
    leading(rec, I, va, vb, "mask" if then == "region" else "coefficients", None, None, True, "result")
    rec.seen(I)


def dm_hook(I, L, th):
    def dm(I2, fn, a, k):
        m = I2.bind(fn, a, k)["m"]
        return I2.alloc(opq(I2, "Dm", (L, th, m), (L - m, L - m), "real"))
    hook(I, POLAR + "._create_Dm_matrix", dm)


def one_order(rec, gap, small, sign):
    """the stored solution of all orders is any sorted list of pairs with their orders"""
    from .c14 import signed
    I = new("cold")
    I.mask_lengths = True
    L = nat("L")
    m, am = signed(sign)
    assume_ge(I, L - 1 - am, *([num(16) - L] if small else [L - 17]))
    masks(I)
    th = theta(I)
    dm_hook(I, L, th)
    rec.where = where_cls(I, POLAR)
    n = L * L
    st0 = I.st.copy()
    cold = run(I, POLAR, [L, th], {"gap": gap, "order": m}, st0)
    if cold.dead:
        return rec.undecided("no computing run returns")
    I.st = st0.copy()
    run(I, POLAR, [L, th], {"gap": gap}, st0)
    saves = [e for e in I.events if e["kind"] == "save"]
    I.st = st0.copy()
    R = n if small else nat("R")
    if not small:
        assume_ge(I, n - 1 - R)
    contents = {"eigenvalues": arr(I, "stored_values", n, dt="real"), "eigenvectors": arr(I, "stored_vectors", R, n), "order": arr(I, "stored_orders", n, dt="int")}
    # which file holds what, from what the run over all orders stores
    d = Disk(I)
    for e in saves:
        v = e["value"]
        f = "eigenvectors" if len(v.shape) == 2 else "order" if v.dt == "int" else "eigenvalues"
        d.files.append((full(e["pieces"]), I.arr(contents[f]), ONE, e))
    st0 = I.st.copy()
    if not d.files:
        return rec.undecided("the run over all orders stores nothing")
    e1 = len(I.events)
    I.world = dict(I.world, exists=d.exists)
    hook(I, "numpy.load", d.load)
    b = run(I, POLAR, [L, th], {"gap": gap, "order": m}, st0)
    if b.dead:
        return rec.violation(f"after a run over all orders this run fails: {[(str(e.cls), str(e.args)[:80]) for _, e in b.raises]}")
    rec.seen(I)
    if b.raises:
        q = equal(rec, b.raise_cond(), cold.raise_cond(), "condition for failing, once all orders are stored,", st0.ctx)
        settle(rec, q, "failure", incomplete=I.incomplete)
        if any(s != "ok" for s, _ in q):
            return
    work = [e for e in I.events[e1:] if e["kind"] in WORK]
    if small or not work:
        ref = run(I, "spec.solve.of_order", [contents["eigenvalues"], contents["eigenvectors"], contents["order"], m], st=st0)
        got = at_state(I, b, lambda: (I.arr(fld(b, b.value, "eigenvalues")), I.arr(fld(b, b.value, "eigenvectors"))))
        want = at_state(I, ref, lambda: tuple(I.arr(x) for x in ref.value))
    else:
        got = at_state(I, b, lambda: (I.arr(fld(b, b.value, "eigenvalues")), I.arr(fld(b, b.value, "eigenvectors"))))
        want = at_state(I, cold, lambda: (I.arr(fld(cold, cold.value, "eigenvalues")), I.arr(fld(cold, cold.value, "eigenvectors"))))
    I.st = b.st
    r = []
    c = Cmp(rec, I, b.st, b.st, b.st.ctx)
    for nm, x, y in zip(("eigenvalues", "eigenvectors"), got, want):
        r += c.compare(x, y, nm)
    settle(rec, r, incomplete=I.incomplete)


def order_first(rec, gap):
    I = new("cold")
    L, m = nat("L"), nat("m")
    assume_ge(I, L - 1 - m)
    masks(I)
    th = theta(I)
    dm_hook(I, L, th)
    rec.where = where_cls(I, POLAR)
    st0 = I.st.copy()
    n0, e0 = len(I.st.pc), len(I.events)
    a = run(I, POLAR, [L, th], {"gap": gap, "order": m}, st0)
    if a.dead:
        return rec.undecided("no run returns")
    d = Disk(I)
    d.absorb(I.events[e0:], n0)
    rec.seen(I)
    if not d.files:
        return rec.proved(detail="a run over one order stores nothing")
    I.st = st0.copy()
    cold = run(I, POLAR, [L, th], {"gap": gap}, st0)
    I.st = st0.copy()
    I.world = dict(I.world, exists=d.exists)
    hook(I, "numpy.load", d.load)
    b = run(I, POLAR, [L, th], {"gap": gap}, st0)
    if b.dead:
        return rec.violation(f"after a run over one order the run over all orders fails: {[(str(e.cls), str(e.args)[:80]) for _, e in b.raises]}")
    I.st = b.st
    attributes(rec, I, cold, b, [("eigenvalues", True), ("eigenvectors", False), ("order", True)], None)
