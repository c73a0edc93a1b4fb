"""Obligation bookkeeping, verdicts, evidence."""
from __future__ import annotations

import json
import os
import pickle
import signal
import sys
import time
import traceback

from .interp import Anchor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise Timeout()


class Undecided(Exception):
    """the analysis cannot settle this obligation"""


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []  # dicts
        self.tasks = []
        self.functions = set()
        self.files = set()
        self.calls = 0
        self.paths = 0
        self.models = 0
        self.notes = []
        self.known = load_known(pid)
        self.rules = {}
        self.budget = 780 if tier == "quick" else 3000
        self.only = os.environ.get("SA_ONLY")

    # -- obligations ---------------------------------------------------------
    def ob(self, name, fn, rule="", limit=120):
        """run one obligation; fn(rec) records results through rec"""
        if self.only and self.only not in name:
            return
        self.tasks.append((name, fn, rule, limit))

    def run_all(self):
        """the obligations are independent of each other: share them among processes"""
        n = min(len(self.tasks), int(os.environ.get("SA_JOBS", 0)) or os.cpu_count() or 1)
        if n <= 1:
            for t in self.tasks:
                self.one(*t)
            return
        rq, wq = os.pipe()
        for k in range(len(self.tasks)):
            os.write(wq, k.to_bytes(4, "little"))
        os.close(wq)
        kids = []
        for _ in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    with os.fdopen(w, "wb") as out:
                        self.work(rq, out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        os.close(rq)
        done = {}
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                while True:
                    try:
                        k, obs, extra = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    done[k] = obs
                    self.functions |= extra[0]
                    self.files |= extra[1]
                    self.calls += extra[2]
                    for a, b in extra[3].items():
                        self.rules[a] = self.rules.get(a, 0) + b
            os.waitpid(pid, 0)
        for k, t in enumerate(self.tasks):
            if k in done:
                self.obs += done[k]
            else:
                rec = Rec(self, t[0], t[2])
                rec.undecided("the process analysing this obligation ended early")
                self._add(rec, 0)

    def work(self, rq, out):
        while True:
            b = os.read(rq, 4)
            if not b:
                return
            k = int.from_bytes(b, "little")
            self.obs, self.functions, self.files, self.calls, self.rules = [], set(), set(), 0, {}
            self.one(*self.tasks[k])
            pickle.dump((k, self.obs, (self.functions, self.files, self.calls, self.rules)), out)
            out.flush()

    def one(self, name, fn, rule, limit):
        rec = Rec(self, name, rule)
        left = self.budget - (time.time() - self.t0)
        if left < 5:
            rec.undecided("time budget of the check used up")
            self._add(rec, 0)
            return
        t = time.time()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(max(1, min(limit, left))))
        try:
            fn(rec)
        except Anchor as e:
            signal.alarm(0)
            rec.anchor(str(e))
        except Timeout:
            rec.undecided("time limit of the obligation reached")
        except Undecided as e:
            rec.undecided(str(e))
        except RecursionError:
            rec.undecided("recursion limit of the analysis")
        except Exception as e:  # an engine limit never becomes an alarm
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            rec.undecided(f"{type(e).__name__}: {e}"[:300])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self._add(rec, time.time() - t)

    def _add(self, rec, dt):
        for r in rec.results:
            r["seconds"] = round(dt, 2)
            self.obs.append(r)
            if os.environ.get("SA_VERBOSE"):
                print(f"  [{r['status']:9}] {r['name']} {r.get('detail', '')[:400]} ({dt:.1f}s)", flush=True)

    def finish(self):
        self.run_all()
        n = {s: sum(1 for o in self.obs if o["status"] == s) for s in ("PROVED", "VIOLATION", "UNDECIDED", "ANCHOR")}
        viol = [o for o in self.obs if o["status"] == "VIOLATION"]
        anchors = [o for o in self.obs if o["status"] == "ANCHOR"]
        new, old = [], []
        for v in viol:
            k = next((f for f in self.known if f["kind"] == "finding" and f["key"] == v["key"]), None)
            (old if k else new).append((v, k))
        known_keys = set()
        for v, k in old:
            if k["key"] not in known_keys:
                known_keys.add(k["key"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": LEVEL.get(self.pid, "other"),
            "coverage": {
                "explanation": "each obligation compares the value/effect term derived from the current source "
                               "against the stated rule on all paths and all values of the symbolic inputs; "
                               "PROVED means the normal forms coincide (or the effect rule holds) in every case, "
                               "VIOLATION that they do not and a distinguishing interpretation exists, "
                               "UNDECIDED that the analysis could not settle it",
                "obligations": len(self.obs),
                "discharged": n["PROVED"],
                "undecided": n["UNDECIDED"],
                "violations": len(new),
                "known_findings": len(old),
                "functions_analysed": sorted(self.functions),
                "functions_analysed_count": len(self.functions),
                "files_analysed": sorted(self.files),
                "call_sites_interpreted": self.calls,
                "paths_with_exceptions": self.paths,
                "rules": self.rules,
                "obligation_list": [{k: o[k] for k in ("name", "status", "rule", "where", "detail", "seconds") if k in o} for o in self.obs],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        path = os.path.join(HERE, "evidence", f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {len(self.obs)} obligations, {n['PROVED']} proved, {n['UNDECIDED']} undecided, "
              f"{len(new)} violations, {len(old)} known; {len(self.functions)} functions, {ev['wall_s']} s")
        for o in self.obs:
            if o["status"] == "UNDECIDED":
                print(f"  undecided: {o['name']}: {o.get('detail', '')[:200]}")
        if new:
            rp = os.path.join(HERE, "evidence", f"{self.pid}.violation.json")
            with open(rp, "w") as f:
                json.dump([v for v, _ in new], f, indent=1, default=str)
            for v, _ in new:
                print(f"  violated: {v['name']} at {v.get('where')}: {v.get('detail', '')[:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if anchors:
            for o in anchors:
                print(f"  analysis broken: public entry point {o['detail']} not found ({o['name']})")
            return 2
        if not self.obs:
            print("  analysis broken: no obligation generated")
            return 2
        return 0


LEVEL: dict = {}


def pmap(fn, items, jobs=None):
    """fn over items in forked processes; results must be plain data (None when a process failed)"""
    n = min(len(items), jobs or os.cpu_count() or 1)
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as out:
                    for k in range(w, len(items), n):
                        pickle.dump((k, fn(items[k])), out)
                        out.flush()
                code = 0
            except BaseException:  # noqa: BLE001
                if os.environ.get("SA_DEBUG"):
                    traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    out = [None] * len(items)
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            while True:
                try:
                    k, v = pickle.load(f)
                except (EOFError, pickle.UnpicklingError):
                    break
                out[k] = v
        os.waitpid(pid, 0)
    return out


class Rec:
    def __init__(self, check, name, rule):
        self.c, self.name, self.rule = check, name, rule
        self.results = []
        self.where = None

    def _r(self, status, sub="", **kw):
        nm = self.name + (f" / {sub}" if sub else "")
        d = {"name": nm, "status": status, "rule": self.rule}
        d.update({k: v for k, v in kw.items() if v is not None})
        d.setdefault("where", self.where)
        d["key"] = kw.get("key") or f"{self.c.pid}:{nm}"
        self.c.rules[self.rule] = self.c.rules.get(self.rule, 0) + 1
        self.results.append(d)
        return status == "PROVED"

    def proved(self, sub="", **kw):
        return self._r("PROVED", sub, **kw)

    def violation(self, detail, sub="", **kw):
        return self._r("VIOLATION", sub, detail=detail, **kw)

    def undecided(self, detail, sub="", **kw):
        return self._r("UNDECIDED", sub, detail=detail, **kw)

    def anchor(self, what):
        return self._r("ANCHOR", detail=what)

    def seen(self, I):
        """account for what an interpreter instance analysed"""
        self.c.functions |= {str(f) for f in I.functions_seen}
        self.c.files |= {p for p, _ in I.asts.values() if p.startswith(I.root)}
        self.c.calls += len(I.calls_seen)


def load_known(pid):
    """known_findings.txt lines:
    KNOWN-FINDING: property=<id> key=<key> :: <what fails>
    fixed: property=<id> <commit> <what failed>
    """
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
            rest = line.split("key=", 1)[1]
            key, _, what = rest.partition(" :: ")
            out.append({"kind": "finding", "key": key.strip(), "what": what.strip()})
    return out
