"""C07 Every shared-memory block is released exactly once, after its last use."""
from ..harness import *  # noqa: F403
from ..evalterm import refute
from ..terms import infeasible, is_zero, show, simp, subst, sum_, Ctx
from .solve import *  # noqa: F403
from .c06 import CASES, at, kind_of, maps, zonals, W3

ONCE = "on every normal return each handle of a block is closed exactly once and each block is unlinked exactly once"
AFTER = "no array backed by a block is used, and no handle attached, after the block is closed or unlinked"
SIZE = "each block has room for the array it holds, and every view has the creator's shape and type"


def every_order(I, size=None):
    L = nat("L")
    assume_ge(I, L - 2)
    zonals(I)
    hook(I, POLAR + "._wigner3j", lambda I2, fn, a, k: W3(*(I2.bind(fn, a, k)[x] for x in ("l1", "l2", "l3", "m1", "m2", "m3"))))
    return polar(I, L, None, ZERO, matrix=False)[0], POLAR


ALL = {**{k: v[0] for k, v in CASES.items()}, "polar cap, every order": every_order}


def obligations(c):
    for name in ALL:
        c.ob(name, lambda rec, name=name: decide(rec, name), f"{ONCE}; {AFTER}; {SIZE}", limit=300)


def decide(rec, name):
    run_ = started(rec, name)
    if run_[2] is not None:
        once(rec, *run_)
        after(rec, *run_)
        sizes(rec, *run_)


def started(rec, name):
    I = new("cold")
    rec.where = where_cls(I, kind_of(name))
    o, _ = ALL[name](I)
    rec.seen(I)
    if o.dead:
        rec.undecided("no construction returns")
        return I, o, None
    if I.incomplete:
        rec.undecided("; ".join(map(str, I.incomplete))[:200])
    blocks = [e for e in I.events if e["kind"] == "shm-create"]
    if not blocks:
        if maps(I) and any(e["kind"] == "store" and e["worker"] for e in I.events) or not maps(I):
            rec.proved("assembled without shared blocks")
        else:
            rec.undecided("no shared block recognised")
    return I, o, blocks


def of(I, kind, **kw):
    return [e for e in I.events if e["kind"] == kind and all(e.get(k) == v for k, v in kw.items())]


def guard(o, e, ref):
    """the condition of e among those of ref, on a normal return"""
    g = ONE
    for c in e["pc"]:
        if c not in o.st.pc and c not in ref["pc"]:
            g = g * P(c)
    return g


def times(o, events, ref):
    """how often the events happen for each occurrence of ref"""
    n = ZERO
    for e in events:
        common = 0
        while common < min(len(e["quants"]), len(ref["quants"])) and e["quants"][common] == ref["quants"][common]:
            common += 1
        if common < len(ref["quants"]):
            return None  # outside the loop which made the block
        t = guard(o, e, ref)
        for v, lo, hi in reversed(e["quants"][common:]):
            t = sum_(v, lo, hi, t)
        n = n + t
    return n


def context(o, ref):
    cons = list(o.st.ctx.cons)
    for v, lo, hi in ref["quants"]:
        cons += [P(v) - lo, P(hi) - 1 - P(v)]
    ctx = Ctx(cons, o.st.ctx.lits)
    for c in ref["pc"]:
        for a, v in implied_lits(P(c)):
            if ctx.lits.get(a, v) == v:
                ctx = ctx.assume(a, v)
    return ctx


def count(rec, o, events, ref, what, key):
    n = times(o, events, ref)
    where = at(ref)
    if n is None:
        # once per round of the loop at the creation, but seen only outside it
        return rec.violation(f"{what}: once for all the blocks created in the loop at {where}", key, where=at(events[0]))
    ctx = context(o, ref)
    n = simp(n, ctx)
    if n == ONE:
        return rec.proved(what, where=where)
    if n == ZERO:
        return rec.violation(f"{what}: never", key, where=where)
    if n.const() is not None:
        return rec.violation(f"{what}: {show(n)} times", key, where=at(events[-1]))
    settle(rec, equal(rec, n, ONE, what + ": number of times", ctx), where=where, key=key)


def once(rec, I, o, blocks):
    for b in blocks or ():
        count(rec, o, of(I, "shm-close", handle=b["handle"]), b, "the creator's handle is closed", "close")
        count(rec, o, of(I, "shm-unlink", block=b["block"]), b, "the block is unlinked", "unlink")
    for a in of(I, "shm-attach"):
        cl = of(I, "shm-close", handle=a["handle"])
        count(rec, o, cl, a, "the attached handle is closed", "close attached")
        for e in cl:
            if bool(e["worker"]) != bool(a["worker"]):
                rec.violation("a handle attached by a worker is closed by another thread", "closed elsewhere", where=at(e))


def together(o, e, f):
    """the two events can happen in one run"""
    g = guard(o, e, f) * P(1)
    for c in f["pc"]:
        if c not in o.st.pc and c not in e["pc"]:
            g = g * P(c)
    return simp(g, o.st.ctx) != ZERO


def after(rec, I, o, blocks):
    n = 0
    for cl in of(I, "shm-close"):
        for kind in ("shm-use", "shm-buf", "shm-view"):
            for u in of(I, kind, handle=cl["handle"]):
                n += 1
                if u["n"] > cl["n"] and together(o, cl, u):
                    rec.violation(f"an array backed by a block is used after the block is closed at {at(cl)}", "use after close", where=at(u))
    for un in of(I, "shm-unlink"):
        for kind in ("shm-use", "shm-attach", "shm-buf"):
            for u in of(I, kind, block=un["block"]):
                n += 1
                if u["n"] > un["n"] and together(o, un, u):
                    rec.violation(f"a block is used after it is unlinked at {at(un)}", "use after unlink", where=at(u))
        for m in maps(I):
            if any(e["worker"] and e.get("block") == un["block"] for e in I.events):
                done = [e["n"] for e in I.events if e["n"] > m["n"] and not e["worker"] and e["kind"] in ("map-consumed", "executor-exit")]
                if m["n"] < un["n"] and not un["worker"] and (not done or un["n"] < min(done)):
                    rec.violation("a block is unlinked while workers may still be running", "unlink while running", where=at(un))
                if un["worker"]:
                    rec.violation("a worker unlinks the block it shares with the others", "unlink in worker", where=at(un))
    # closing the handle behind an array the workers still fill through it
    for cl in of(I, "shm-close"):
        made = [e for e in I.events if e["kind"] in ("shm-create", "shm-attach") and e["handle"] == cl["handle"]]
        if made and not made[0]["worker"] and any(u["worker"] for u in of(I, "shm-use", handle=cl["handle"])):
            for m in maps(I):
                done = [e["n"] for e in I.events if e["n"] > m["n"] and not e["worker"] and e["kind"] in ("map-consumed", "executor-exit")]
                if m["n"] < cl["n"] and (not done or cl["n"] < min(done)):
                    rec.violation("a block is closed while workers may still use it", "close while running", where=at(cl))
    if blocks:
        rec.proved(f"{n} pairs of release and use")


def sizes(rec, I, o, blocks):
    for b in blocks or ():
        views = of(I, "shm-view", block=b["block"])
        ctx = context(o, b)
        first = [v for v in views if v["handle"] == b["handle"]]
        if not first:
            rec.undecided("the array over the block was not recognised", where=at(b))
            continue
        f = first[0]
        for v in views:
            if v["width"] is None:
                rec.undecided("type of the view not recognised", where=at(v))
                continue
            need = num(v["width"])
            for s in v["shape"]:
                need = need * s
            size = b.get("size")
            size = P(size) if isinstance(size, (Poly, int)) else None
            if size is None or size.unm:
                rec.undecided("size of the block not recognised", where=at(b))
            elif is_zero(simp(size - need, ctx)) or infeasible(ctx.cons + [simp(need - size, ctx) - 1]):
                rec.proved(f"room for {show(need)} bytes", where=at(b))
            else:
                r = refute(b_lt(size - need), ZERO, ctx)
                if r[0] == "differ":
                    rec.violation(f"the block has {show(size)} bytes but its array needs {show(need)}, e.g. {modelstr(r[1])}", "size", where=at(b))
                else:
                    rec.undecided(f"{show(size)} bytes for an array of {show(need)}", where=at(b))
            if v is f:
                continue
            if len(v["shape"]) != len(f["shape"]):
                rec.violation("a view has another number of dimensions than the array of its block", "dimensions", where=at(v))
                continue
            if v["dt"] != f["dt"] or v["width"] != f["width"]:
                rec.violation(f"a view of type {v['dt']} ({v['width']} bytes) over a block of type {f['dt']} ({f['width']} bytes)", "type", where=at(v))
                continue
            for p, q in zip(v["shape"], f["shape"]):
                settle(rec, equal(rec, P(p), P(q), "shape of the view", ctx), where=at(v), key="shape")
