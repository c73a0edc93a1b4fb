"""The command-line interfaces: their options as the parser calls declare them, and what a
parsed command line holds."""
from __future__ import annotations

from .harness import *  # noqa: F403
from .interp import Dead
from .values import LRef, ListC, Poly, Special, OpaqueV
from .terms import atom


class Opt:
    def __init__(self, I, args, kw, loc):
        self.flags = [a for a in args if isinstance(a, str)]
        self.kw = kw
        self.loc = loc
        self.positional = bool(self.flags) and not self.flags[0].startswith("-")
        d = kw.get("dest")
        if isinstance(d, str):
            self.dest = d
        elif self.positional:
            self.dest = self.flags[0]
        else:
            long = [f for f in self.flags if f.startswith("--")]
            self.dest = (long[0][2:] if long else self.flags[0].lstrip("-")).replace("-", "_")
        self.action = kw.get("action") if isinstance(kw.get("action"), str) else "store"
        self.nargs = kw.get("nargs")
        self.type = kw.get("type")
        self.choices = None
        c = kw.get("choices")
        if c is not None:
            try:
                self.choices = list(I.concrete_items(c))
            except Exception:
                self.choices = None
        self.has_default = "default" in kw

    def default(self):
        if "default" in self.kw:
            return self.kw["default"]
        return {"store_true": ZERO, "store_false": ONE}.get(self.action)

    @property
    def takes_value(self):
        return self.action == "store"


class Cli:
    """the options of one command; run(given) follows the command with those options"""

    def __init__(self, I, entry):
        self.I, self.entry = I, entry
        self.opts = []
        self.problem = None
        got = []

        def parsed(I2, o, a, k):
            got.append([Opt(I2, *x) for x in o.data["args"]])
            I2.raise_if(ONE, "SystemExit")
            raise Dead()
        hook(I, "argparse.parse_args", parsed)
        st = I.st.copy()
        run(I, entry)
        I.st = st
        for k, v in I.module_heap.items():
            I.st.heap.setdefault(k, v)
        if not got:
            self.problem = "no argument parser was followed"
            return
        self.opts = got[0]

    def by_flag(self, f):
        for o in self.opts:
            if f in o.flags:
                return o
        return None

    def by_dest(self, d):
        for o in self.opts:
            if o.dest == d:
                return o
        return None

    def namespace(self, given):
        vals = {}
        for o in self.opts:
            if o.action in ("version", "help"):
                continue
            vals[o.dest] = given[o.dest] if o.dest in given else o.default()
        miss = [k for k in given if k not in vals]

        def get(n):
            if n in vals:
                return vals[n]
            self.I.raise_if(ONE, "AttributeError", f"no parsed argument {n}")
            raise Dead()
        return Special("namespace", get=get), vals, miss

    def run(self, given, st=None):
        """follow the command with the given values for its options (by destination)"""
        ns, vals, miss = self.namespace(given)
        hook(self.I, "argparse.parse_args", lambda I2, o, a, k: ns)
        return run(self.I, self.entry, [], {}, st), vals


def match_tokens(opts, tokens):
    """[(option, [values])] of a command line, or an error text; values holding '$' are unknown"""
    out, i = [], 0
    pos = [o for o in opts if o.positional]
    used = 0
    by = {}
    for o in opts:
        for f in o.flags:
            if not o.positional:
                by[f] = o
    while i < len(tokens):
        t = tokens[i]
        neg = t.startswith("-") and len(t) > 1 and (t[1].isdigit() or t[1] == ".")
        if t.startswith("-") and len(t) > 1 and not neg:
            name, _, val = t.partition("=")
            o = by.get(name)
            if o is None and not name.startswith("--") and len(name) > 2 and name[:2] in by:
                o, val = by[name[:2]], name[2:]
            if o is None and name.startswith("--"):
                c = {id(q): q for f, q in by.items() if f.startswith(name)}
                o = next(iter(c.values())) if len(c) == 1 else None
            if o is None:
                return f"no option {name}"
            i += 1
            if o.action in ("store_true", "store_false", "version", "help"):
                if val:
                    return f"option {name} takes no value"
                out.append((o, []))
                continue
            vals = [val] if val else []
            n = o.nargs
            lim = 1 if n is None else 1 if n == "?" else 10 ** 6 if n in ("+", "*") else int(str(n.const() if hasattr(n, "const") else n))
            while len(vals) < lim and i < len(tokens):
                q = tokens[i]
                if q.startswith("-") and len(q) > 1 and not (q[1].isdigit() or q[1] == "."):
                    break
                vals.append(q)
                i += 1
            if (n is None or n == "+") and not vals:
                return f"option {name} needs a value"
            out.append((o, vals))
        else:
            if used >= len(pos):
                return f"unexpected argument {t}"
            out.append((pos[used], [t]))
            used += 1
            i += 1
    for o in pos[used:]:
        if o.nargs not in ("?", "*"):
            return f"argument {o.dest} is missing"
    return out


def value_error(o, v, types):
    """why text v is not accepted for option o (None: accepted or unknown)"""
    if "$" in v:
        return None
    if o.choices is not None and all(isinstance(c, str) for c in o.choices) and v not in o.choices:
        return f"{v!r} is not one of the choices of {o.dest}"
    t = types
    if t == "int":
        try:
            int(v)
        except ValueError:
            return f"{v!r} is not an integer ({o.dest})"
    if t == "float":
        try:
            float(v)
        except ValueError:
            return f"{v!r} is not a number ({o.dest})"
    return None
