"""C06 Parallel assembly gives the serial matrix for any number of workers."""
from ..harness import *  # noqa: F403
from ..evalterm import Ev, refute
from ..interp import Dead, implied_lits
from ..values import ListC, LRef, Special
from ..terms import infeasible, lit_cons, subst, simp, show, Ctx, is_zero
from .solve import *  # noqa: F403
from .c22 import harmonics, weights, zonals, W3

SPLIT = "the index lists handed to the workers hold every row index of the matrix exactly once, for every size and worker count"
OWN = "no two workers write the same element, and no worker reads an element written by another"
JOIN = "the assembled result is read only after every worker has finished"
FAIL = "a failure inside a worker is raised to the caller"
SAME = "the matrix handed to the eigensolver is the same for every number of workers"
FAILURES = ("RuntimeError", "ValueError", "IndexError", "KeyError", "ZeroDivisionError", "OSError", "TypeError", "MemoryError")


def build_arbitrary(I, size=None):
    L = nat("L") if size is None else num(size)
    assume_ge(I, L - 1 - (getattr(I, "roomy", 0) if size is None else 0))
    if size is None:
        harmonics(I)
    weights(I)
    return mask_region(I, L, matrix=False), MASK


def build_polar(sign, gap=ZERO):
    def build(I, size=None):
        L, u = (nat("L"), nat("u")) if size is None else (num(size), ZERO if sign == "0" else num(size - 2))
        m, am = {"0": (ZERO, ZERO), "+": (u + 1, u + 1), "-": (-u - 1, u + 1)}[sign]
        if size is not None and sign != "0":
            m, am = (num(1), num(1)) if sign == "+" else (num(-1), num(1))
        assume_ge(I, L - 1 - am - (getattr(I, "roomy", 0) if size is None else 0))
        zonals(I)
        hook(I, POLAR + "._wigner3j", lambda I2, fn, a, k: W3(*(I2.bind(fn, a, k)[x] for x in ("l1", "l2", "l3", "m1", "m2", "m3"))))
        return polar(I, L, m, gap, matrix=False)[0], POLAR
    return build


def build_mesh(I, size=None):
    w = mesh_obj(I, K=size)
    assume_ge(I, w.K - 1 - (getattr(I, "roomy", 0) if size is None else 0))
    return run(I, MESH, [w.m], {}), MESH


CASES = {
    "arbitrary region": (build_arbitrary, (1, 2)),
    "polar cap, order 0": (build_polar("0"), (1, 2, 3, 4, 5)),
    "polar cap, a positive order": (build_polar("+"), (2, 3, 4, 5, 6)),
    "polar cap, a negative order": (build_polar("-"), (2, 3, 4, 5, 6)),
    "polar gap, order 0": (build_polar("0", ONE), (2, 5)),
    "mesh region": (build_mesh, (1, 2, 3, 4, 5)),
}
CLS = {"arbitrary": MASK, "polar": POLAR, "mesh": MESH}
WORKERS = (1, 2, 3, 4, 7)


def obligations(c):
    for name in CASES:
        c.ob(f"{name}: splitting", lambda rec, name=name: splitting(rec, name), SPLIT, limit=200)
        c.ob(f"{name}: disjoint writes", lambda rec, name=name: disjoint(rec, name), OWN, limit=300)
        c.ob(f"{name}: finished before reading", lambda rec, name=name: joined(rec, name), JOIN, limit=200)
        for cls in FAILURES:
            c.ob(f"{name}: {cls} in a worker surfaces", lambda rec, name=name, cls=cls: failures(rec, name, cls), FAIL, limit=200)
        for size in CASES[name][1]:
            c.ob(f"{name}: the same matrix for any worker count, size {size}", lambda rec, name=name, size=size: same(rec, name, size), SAME, limit=300)


def started(rec, name):
    I = new("cold")
    rec.where = where_cls(I, kind_of(name))
    o, _ = CASES[name][0](I)
    rec.seen(I)
    return I, o


def kind_of(name):
    return CLS[name.split(",")[0].split(" ")[0]]


def at(e):
    return f"{e['loc'][0]}:{e['loc'][1]}" if e.get("loc") else None


def maps(I):
    return [e for e in I.events if e["kind"] == "map"]


# ------------------------------------------------------------------ splitting
def splitting(rec, name):
    I = new("cold")
    rec.where = where_cls(I, kind_of(name))
    try:
        o, _ = CASES[name][0](I)
    except Unsupported:
        ms = maps(I)
        if ms and ms[-1]["whole"] is None:
            return small(rec, name, ms[-1])
        raise
    rec.seen(I)
    ms = maps(I)
    if not ms:
        return rec.proved("assembled without workers") if not o.dead and not I.incomplete else rec.undecided("no parallel section recognised")
    for e in ms:
        sizes = result_sizes(I, o, e)
        if e["whole"] is None or e["whole"][0] != "range":
            return small(rec, name, e)
        if not sizes:
            return rec.undecided("the array filled by the workers was not recognised", where=at(e))
        lo, hi = e["whole"][1:3]
        ctx = (o.st.ctx if o.st is not None else Ctx())
        for n in sizes:
            settle(rec, equal(rec, P(lo), ZERO, "first index", ctx) + equal(rec, P(hi), n, "number of indices", ctx), where=at(e), incomplete=I.incomplete)


def result_sizes(I, o, e):
    """row counts of the arrays which exist before the workers start and are written by them"""
    out = []
    for w in writes(I, e):
        c = o.st.heap.get(w["cid"]) if o.st is not None else None
        sh = c.base.shape if c is not None else None
        if sh and not any(is_zero(sh[0] - x) for x in out):
            out.append(sh[0])
    return out


def lists(I, chunks):
    """the index lists with concrete sizes"""
    c = I.st.heap[chunks.lid] if isinstance(chunks, LRef) else None
    if isinstance(c, ListC) and c.sym is None:
        items = c.items
    elif isinstance(chunks, tuple):
        items = chunks
    else:
        s = I.as_symseq(chunks)
        lo, hi = P(s.lo).const(), P(s.hi).const()
        if lo is None or hi is None:
            return None
        items = [s.elem(num(k)) for k in range(int(lo), int(hi))]
    return list(items)


def value(I, p):
    """a term without unknowns as an integer"""
    p = simp(P(p), I.ctx)
    c = p.const()
    if c is None:
        e = Ev(1, {})
        c = complex(e.val(p)).real
        if e.hashed or p.fv or p.unm:
            raise Unsupported(f"index {show(p)[:80]}")
    return round(float(c))


def indices(I, x):
    """the integers of one concrete index list"""
    if isinstance(x, Poly):
        return [value(I, x)]
    if isinstance(x, LRef) or isinstance(x, (tuple, list)):
        return [i for y in I.concrete_items(x) for i in indices(I, y)]
    a = I.arr(x)
    return [value(I, a.elem((num(k),))) for k in range(value(I, a.shape[0]))]


class Stop(Exception):
    pass


def small(rec, name, e):
    """the splitting was not recognised: try it for small sizes"""
    n = 0
    for size in CASES[name][1]:
        for cpu in WORKERS:
            got = []

            def look(I, ex, fn, chunks, mid):
                got.append([indices(I, x) for x in lists(I, chunks)])
                raise Stop
            I = new("cold")
            I.hooks["executor.map"] = look
            hook_cpu(I, cpu)
            try:
                CASES[name][0](I, size)
            except Stop:
                pass
            except Exception as x:  # noqa: BLE001
                return rec.undecided(f"the index lists were not recognised ({x})", where=at(e))
            if not got:
                return rec.undecided("the index lists were not recognised", where=at(e))
            n += 1
            flat = sorted(i for c in got[0] for i in c)
            rows = {"arbitrary region": size * size}.get(name, size - 1 if "positive" in name or "negative" in name else size)
            if flat != list(range(rows)):
                return rec.violation(f"with {rows} rows and {cpu} workers the index lists are {got[0]}", "splitting", where=at(e))
    rec.undecided(f"the splitting is right for {n} small cases but was not recognised in general: {e['why'] or ''}", where=at(e))


def hook_cpu(I, cpu):
    I.hooks["os.getenv"] = lambda I2, name, default: str(cpu) if name == "NCPU" else None


# ------------------------------------------------------------ disjoint writes
def writes(I, e):
    """what the workers of this map write to arrays older than the map"""
    first = e["id"]
    end = next((x["n"] for x in I.events if x["kind"] == "map" and x["n"] > e["n"]), len(I.events))
    return [x for x in I.events if x["kind"] == "store" and x["worker"] and e["n"] < x["n"] < end and x["cid"][1] < first]


def reads(I, e):
    first = e["id"]
    end = next((x["n"] for x in I.events if x["kind"] == "map" and x["n"] > e["n"]), len(I.events))
    return [x for x in I.events if x["kind"] == "shm-read" and e["n"] < x["n"] < end and x["cid"][1] < first]


class Access:
    def __init__(self, I, e, m):
        st = e.get("store")
        self.e = e
        quants = [q for q in e["quants"] if q not in m["quants"]]
        self.idx = [P(x) for x in (st.idx if st is not None else e["idx"])]
        self.quants = quants + [q for q in (st.q if st is not None else ())]
        self.own = [q[0] for q in self.quants if q[0] in I.own_vars]
        self.conds = [c for c in e["pc"] if c not in m["pc"]] + ([st.guard] if st is not None else [])
        self.vars = {q[0] for q in self.quants}

    def renamed(self):
        mp = {}
        for v, lo, hi in self.quants:
            mp[v] = P(fresh("z", "int", v.nonneg))
        s = lambda p: subst(P(p), mp)
        x = object.__new__(Access)
        x.e = self.e
        x.idx = [s(i) for i in self.idx]
        x.quants = [(mp[v], s(lo), s(hi)) for v, lo, hi in self.quants]
        x.own = [mp[v] for v in self.own]
        x.conds = [s(c) for c in self.conds]
        return x

    def facts(self):
        out = []
        for v, lo, hi in self.quants:
            out += [P(v) - lo, P(hi) - 1 - P(v)]
        return out


def disjoint(rec, name):
    I, o = started(rec, name)
    ms = maps(I)
    if o.dead:
        return rec.undecided("no construction returns")
    if not ms:
        return rec.proved("assembled without workers") if not I.incomplete else rec.undecided("no parallel section recognised")
    n = 0
    for m in ms:
        ws = [Access(I, e, m) for e in writes(I, m)]
        rs = [Access(I, e, m) for e in reads(I, m)]
        # reads through a bound position belong to a whole-row expression, whose range is not known here
        rs = [r for r in rs if all(v in r.vars or not v.args[0].__contains__("#") for i in r.idx for v in i.fv)]
        if not ws:
            rec.undecided("no writes of the workers were recognised", where=at(m))
        for i, a in enumerate(ws):
            for b in ws[i:] + [r for r in rs]:
                if a.e["cid"] != b.e["cid"]:
                    continue
                n += 1
                clash(rec, I, o, a, b)
    rec.count = n


def clash(rec, I, o, a, b):
    kind = "write" if b.e["kind"] == "store" else "read"
    if not a.own or not b.own:
        return rec.undecided(f"the index of the worker behind a {kind} was not recognised", where=at(a.e))
    b2 = b.renamed()
    ctx0 = o.st.ctx
    conds = a.conds + b2.conds
    lits = {}
    for c in conds:
        for at_, v in implied_lits(P(c)):
            if lits.get(at_, v) != v:
                return rec.proved("exclusive conditions", where=at(a.e))
            lits[at_] = v
    base = list(ctx0.cons) + a.facts() + b2.facts()
    for at_, v in lits.items():
        base += lit_cons(at_, v)
    same_ = [x for p, q in zip(a.idx, b2.idx) for x in (p - q, q - p)]
    own = P(a.own[0]) - P(b2.own[0])
    bad = []
    for apart in (own - 1, -own - 1):
        cons = base + [apart]
        c = Ctx(cons, {**ctx0.lits, **lits})
        s = [simp(x, c) for x in same_]
        if any(simp(b_eq(p - q), c) == ZERO for p, q in zip(a.idx, b2.idx)) or infeasible(cons + s):
            continue
        bad.append((apart, c))
    if not bad:
        return rec.proved("different elements", where=at(a.e))
    for apart, c in bad:
        both = ONE
        for p, q in zip(a.idx, b2.idx):
            both = both * b_eq(p - q)
        for k in conds:
            both = both * P(k)
        r = refute(both, ZERO, Ctx(c.cons, ctx0.lits))
        if r[0] == "differ":
            where = at(b.e) if kind == "write" and at(b.e) != at(a.e) else at(a.e)
            what = f"workers handling different indices both write element [{', '.join(show(x) for x in a.idx)}]" if kind == "write" else \
                f"a worker reads element [{', '.join(show(x) for x in b.idx)}] while another worker writes it"
            if a.e.get("shm") or kind == "read":
                return rec.violation(f"{what}, e.g. {modelstr(r[1])}", f"{kind} {at(a.e)} {at(b.e)}"[:120], where=where)
            return rec.undecided(f"{what}, in an array which is not the shared result", where=where)
    return rec.undecided(f"a {kind} may overlap a write of another worker", where=at(a.e))


# ----------------------------------------------------------------- finishing
def joined(rec, name):
    I, o = started(rec, name)
    if o.dead:
        return rec.undecided("no construction returns")
    ms = maps(I)
    if not ms:
        return rec.proved("assembled without workers") if not I.incomplete else rec.undecided("no parallel section recognised")
    for m in ms:
        done = [e["n"] for e in I.events if e["n"] > m["n"] and not e["worker"] and e["kind"] in ("map-consumed", "executor-exit")]
        first = min(done) if done else None
        cids = {e["cid"] for e in writes(I, m)}
        uses = [e for e in I.events if e["n"] > m["n"] and not e["worker"] and e["kind"] == "shm-use" and e["cid"] in cids and not e.get("write")]
        early = [e for e in uses if first is None or e["n"] < first]
        for e in early:
            rec.violation("the result is read while workers may still be running", "early read", where=at(e))
        if not uses:
            rec.undecided("no use of the result was recognised", where=at(m))
        elif not early:
            if I.incomplete:
                rec.undecided("; ".join(map(str, I.incomplete))[:200])
            rec.proved(f"{len(uses)} uses after the workers finish", where=at(m))
        # the eigenproblem comes last
        for e in solved(I, None):
            if first is None or e["n"] < first:
                rec.violation("the eigenproblem is solved while workers may still be running", "early solve", where=at(e))


def failures(rec, name, cls):
    I = new("cold")
    I.roomy = 2
    I.hooks["worker-failure"] = [(ONE, cls)]
    rec.where = where_cls(I, kind_of(name))
    o, _ = CASES[name][0](I)
    rec.seen(I)
    ms = maps(I)
    if not ms:
        return rec.proved("assembled without workers") if not I.incomplete else rec.undecided("no parallel section recognised")
    if I.incomplete:
        return rec.undecided("; ".join(map(str, I.incomplete))[:200])
    if not o.dead:
        again = [e for e in I.events if e["kind"] == "store" and not e["worker"] and e["n"] > ms[0]["n"] and e.get("shm")]
        if again:
            return rec.undecided("the result is filled again after a failure", where=at(again[0]))
        return rec.violation(f"the construction goes on after {cls} inside a worker", f"lost {cls}", where=at(ms[0]))
    if not any(cls in str(getattr(ex, "cls", ex)) for _, ex in o.raises):
        # another failure is as loud
        return rec.proved(f"the caller sees a failure after {cls} in a worker", where=at(ms[0])) if o.raises else rec.undecided("no exception leaves the construction", where=at(ms[0]))
    rec.proved(f"{cls} reaches the caller", where=at(ms[0]))


# ------------------------------------------------------------- worker counts
def same(rec, name, size):
    """the matrix of a small problem, assembled by one worker and by several"""
    rec.where = where_cls(new("cold"), kind_of(name))
    got = {}
    for cpu in WORKERS:
        I = new("cold")
        hook_cpu(I, cpu)

        def go(I2, ex, fn, chunks, mid):
            items = lists(I2, chunks)
            if items is None:
                raise Unsupported("index lists of unknown number")
            for x in items:
                ns = indices(I2, x)
                saved = I2.sinks
                I2.sinks = I2.sinks + [[]]
                I2.in_worker += 1
                try:
                    arg = x if isinstance(x, Poly) else I2.alloc(Arr((num(len(ns)),), lambda idx, ns=ns: table(ns, idx[0]), "int"))
                    if ns or not isinstance(x, Poly):
                        I2.call(fn, [arg], {})
                finally:
                    I2.in_worker -= 1
                    I2.sinks = saved
            return Special("mapresult", id=mid, value=None, excs=[])
        I.hooks["executor.map"] = go

        def matrix(I2, x, cpu=cpu):
            M = I2.arr(x)
            n = [simp(P(x), I2.ctx).const() for x in M.shape]
            if None not in n:
                got[cpu] = (I2.ctx, [[simp(M.elem((num(a), num(b))), I2.ctx) for b in range(int(n[1]))] for a in range(int(n[0]))])
            raise Stop
        hook(I, "numpy.linalg.eigh", matrix)
        try:
            o, cls = CASES[name][0](I, size)
        except Stop:
            pass
        rec.seen(I)
        if I.incomplete:
            return rec.undecided("; ".join(map(str, I.incomplete))[:200])
        if cpu not in got:
            return rec.undecided(f"the matrix assembled by {cpu} workers was not recognised")
    ctx, ref = got[1]
    for cpu in WORKERS[1:]:
        _, m = got[cpu]
        res = []
        if [len(r) for r in m] != [len(r) for r in ref]:
            rec.violation(f"{cpu} workers give a matrix of another size", "size")
            continue
        for a, (x, y) in enumerate(zip(m, ref)):
            for b, (p, q) in enumerate(zip(x, y)):
                res += equal(rec, p, q, f"entry [{a}, {b}] with {cpu} workers", ctx)
        settle(rec, res)


def table(ns, k):
    c = P(k).const()
    if c is not None:
        return num(ns[int(c)])
    r = num(ns[-1]) if ns else ZERO
    for i in range(len(ns) - 2, -1, -1):
        r = b_ite(b_eq(P(k) - i), num(ns[i]), r)
    return r
