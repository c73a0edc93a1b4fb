"""C31 Documented names and examples exist in the code."""
import ast
import glob
import os
import re
import shlex
import tomllib

from ..harness import *  # noqa: F403
from ..cli import Cli, match_tokens, value_error
from ..classes import params, registered
from ..program import Fn, Program, Top
from ..typed import Checker

NAMES = "every attribute used on a module, class or object of the library is defined there, and every call fits the signature of what it calls"
SHELL = "every command of the documentation exists and accepts the options and values it is given"
ENV = "every environment variable of the documentation is read by the library"
ENTRY = "every installed command points at a function that can be called without arguments"
DOCS = ("README.md", "documentation/DOCUMENTATION.md", "CONTRIBUTING.md", "paper/paper.md")


def root():
    return os.environ.get("SA_ROOT", "/repo")


def fences(text, langs):
    """[(first line number, block)] of the fenced code blocks in the given languages"""
    out, cur, start = [], None, 0
    for n, line in enumerate(text.splitlines(), 1):
        s = line.strip()
        if cur is None and s.startswith("```") and s[3:].strip().split(" ")[0].strip("{}.") in langs:
            cur, start, ind = [], n, len(line) - len(line.lstrip())
        elif cur is not None and s.startswith("```"):
            out.append((start, "\n".join(cur)))
            cur = None
        elif cur is not None:
            cur.append(line[ind:] if line[:ind].strip() == "" else line)
    return out


def commands(block):
    """[(line offset, env assignments, tokens)] of the simple commands in a shell block"""
    out, buf, start = [], "", 0
    for n, line in enumerate(block.splitlines(), 1):
        if not buf:
            start = n
        buf += line.rstrip("\\") if line.endswith("\\") else line
        if line.endswith("\\"):
            continue
        text, buf = buf, ""
        text = re.sub(r"\$\([^)]*\)", "$x", text)
        text = re.sub(r"\$\{[^}]*\}", "$x", text)
        for part in re.split(r";|&&|\|\|?", text):
            try:
                toks = shlex.split(part, comments=True)
            except ValueError:
                continue
            while toks and toks[0] in ("do", "then", "else", "time", "$", "!"):
                toks = toks[1:]
            env = []
            if toks and toks[0] == "export":
                env = [t.split("=")[0] for t in toks[1:]]
                out.append((start, env, []))
                continue
            while toks and re.fullmatch(r"[A-Za-z_]\w*=.*", toks[0]):
                env.append(toks[0].split("=")[0])
                toks = toks[1:]
            if toks or env:
                out.append((start, env, toks))
    return out


def obligations(c):
    ex = sorted(glob.glob(os.path.join(root(), "examples", "**", "*.py"), recursive=True))
    prog = Program(extra=ex)
    docs = {}
    for d in DOCS:
        p = os.path.join(root(), d)
        if os.path.exists(p):
            with open(p) as f:
                docs[d] = f.read()
    bad = []
    blocks = []
    for d, text in docs.items():
        for n, b in fences(text, ("python", "py", "python3")):
            name = "documentation_" + re.sub(r"\W", "_", d) + f".block{n}"
            if b.lstrip().startswith(">>>"):
                continue
            try:
                m = prog.add(name, os.path.join(root(), d), False, b, n)
            except SyntaxError as e:
                bad.append((d, n, e))
                continue
            blocks.append((d, n, m))
    c.files |= {m.path for m in prog.mods.values()}
    c.functions |= {f.qual for f in prog.fns}
    c.calls += len(prog.calls)
    generated = version_module()

    def checker():
        return Checker(prog, new("cold"))
    ck = checker()
    docmods = {m.name for _, _, m in blocks}
    for m in list(prog.mods.values()):
        if m.name in docmods:
            continue

        def f(rec, m=m):
            report(rec, ck, m, generated)
        c.ob(f"names used in {m.rel}", f, NAMES)
    for d, n, m in blocks:
        c.ob(f"names used in {d}, code at line {n}", lambda rec, m=m: report(rec, ck, m, generated), NAMES)
    for d, n, e in bad:
        c.ob(f"names used in {d}, code at line {n}", lambda rec, e=e, d=d, n=n: rec.undecided(f"the code does not parse: {e}", where=f"{d}:{n}"), NAMES)
    c.ob("installed commands", lambda rec: entries(rec, prog), ENTRY)
    c.ob("documented environment variables", lambda rec: environment(rec, prog, docs), ENV)
    for d, text in docs.items():
        for n, b in fences(text, ("sh", "bash", "shell", "console")):
            c.ob(f"commands in {d}, line {n}", lambda rec, d=d, n=n, b=b: shell(rec, prog, d, n, b), SHELL)


def version_module():
    """modules written by the build"""
    try:
        with open(os.path.join(root(), "pyproject.toml"), "rb") as f:
            t = tomllib.load(f)
    except OSError:
        return set()
    out = {"_version"}
    for v in re.findall(r"[\w/]+\.py", str(t.get("tool", {}))):
        out.add(os.path.basename(v)[:-3])
    return out


def report(rec, ck, m, generated):
    n0 = ck.checked
    rec.where = m.rel
    bad = ck.check(m)
    for node, msg in bad:
        if any(f"'sleplet.{g}'" in msg or msg.endswith(f"'{g}'") for g in generated):
            continue
        rec.violation(msg, msg, where=f"{m.rel}:{getattr(node, 'lineno', 0)}")
    if not bad or all(any(f"'sleplet.{g}'" in msg or msg.endswith(f"'{g}'") for g in generated) for _, msg in bad):
        rec.proved("", detail=f"{ck.checked - n0} uses resolved")


def entry_points():
    with open(os.path.join(root(), "pyproject.toml"), "rb") as f:
        t = tomllib.load(f)
    return t.get("project", {}).get("scripts", {})


def entries(rec, prog):
    rec.where = "pyproject.toml"
    for k, v in entry_points().items():
        d = v.replace(":", ".")
        t = prog.lookup(d)
        if not isinstance(t, Fn):
            rec.violation(f"the command '{k}' points at {v}, which does not exist", k)
        elif [p for p in t.pos + t.kwonly if p not in t.defaults]:
            rec.violation(f"the command '{k}' points at {v}, which needs arguments", k)
        else:
            rec.proved(k, detail=v)


def environment(rec, prog, docs):
    read = set()
    for call, scope, mod in prog.calls:
        d = prog.dotted(call.func, scope) or ""
        if d in ("os.getenv", "os.environ.get", "os.environ.setdefault", "os.environ.pop") or isinstance(call.func, ast.Attribute) and call.func.attr in ("get", "int", "str", "float", "bool", "getenv") or d.startswith("sleplet") or isinstance(call.func, ast.Name):
            for a in list(call.args) + [k.value for k in call.keywords]:
                for x in ast.walk(a):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        read.add(x.value)
                vs = prog.values(a, scope)
                read |= {v for v in vs if isinstance(v, str)}
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                read.add(x.slice.value)
    # names assembled at run time cannot be seen: then only undecided
    loose = any((prog.dotted(call.func, scope) or "") in ("os.getenv", "os.environ.get") and any(isinstance(v, Top) for v in prog.values(call.args[0], scope)) for call, scope, mod in prog.calls if call.args)
    for d, text in docs.items():
        names = {}
        for n, line in enumerate(text.splitlines(), 1):
            q = re.match(r"\s*[-*] `([A-Z][A-Z0-9_]+)`:", line)
            if q:
                names.setdefault(q.group(1), n)
        for n, b in fences(text, ("sh", "bash", "shell", "console")):
            for off, env, toks in commands(b):
                for e in env:
                    if e.isupper():
                        names.setdefault(e, n + off)
        for e, n in names.items():
            w = f"{d}:{n}"
            if e in read:
                rec.proved(f"{e} in {d}", where=w)
            elif loose:
                rec.undecided(f"{e} may be read through a computed name", f"{e} in {d}", where=w)
            else:
                rec.violation(f"the environment variable {e} is not read anywhere", f"{e} in {d}", where=w)


_CLI = {}


def cli_of(name):
    if name not in _CLI:
        ent = entry_points().get(name)
        if ent is None:
            return None
        I = new("cold")
        c = Cli(I, ent.replace(":", "."))
        c.I = I
        _CLI[name] = c
    return _CLI[name]


def shell(rec, prog, d, line, block):
    n = 0
    for off, env, toks in commands(block):
        w = f"{d}:{line + off}"
        if not toks:
            continue
        cmd = os.path.basename(toks[0])
        text = " ".join(toks)
        if cmd in ("mesh", "sphere"):
            n += 1
            cl = cli_of(cmd)
            if cl is None:
                rec.violation(f"there is no command '{cmd}'", text, where=w)
                continue
            if cl.problem:
                rec.undecided(cl.problem, text, where=w)
                continue
            command(rec, cl, cmd, toks, text, w)
        elif cmd in ("python", "python3") and len(toks) > 2 and toks[1] == "-m" and (toks[2] == "examples" or toks[2].startswith("examples.")):
            n += 1
            m = prog.mods.get(toks[2])
            if m is None:
                rec.violation(f"there is no example module {toks[2]}", text, where=w)
                continue
            module_command(rec, m, toks[3:], text, w)
        elif cmd in ("python", "python3") and len(toks) > 1 and toks[1].endswith(".py"):
            n += 1
            if not os.path.exists(os.path.join(root(), toks[1])):
                rec.violation(f"there is no file {toks[1]}", text, where=w)
            else:
                rec.proved(text, where=w)
    if not n:
        rec.proved("", where=f"{d}:{line}", detail="no command of the library")


def typename(o):
    t = o.type
    return getattr(t, "name", None) or getattr(t, "qual", None) or str(t)


def command(rec, cl, cmd, toks, text, w):
    r = match_tokens(cl.opts, toks[1:])
    if isinstance(r, str):
        return rec.violation(f"{cmd}: {r}", text, where=w)
    for o, vals in r:
        tn = typename(o)
        kind = "int" if tn in ("int", "builtins.int") else "float" if tn in ("float", "builtins.float") else ""
        for v in vals:
            e = value_error(o, v, kind)
            if e:
                return rec.violation(f"{cmd}: {e}", text, where=w)
    got = {o.dest: v for o, v in r}
    ex = got.get("extra_args")
    if ex is not None:
        cls = chosen(cl, cmd, got)
        if cls is not None:
            from .c02 import own

            k = len(own(cl.I, cls))
            if len(ex) != k:
                return rec.violation(f"{cls.name} takes {k} extra arguments, {len(ex)} are given", text, where=w)
    return rec.proved(text, where=w)


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


def chosen(cl, cmd, got):
    """the class a command line selects"""
    if cmd == "sphere":
        n = (got.get("function") or [""])[0]
        for c in registered(cl.I, "COEFFICIENTS"):
            if snake(c.name) == n:
                return c
    else:
        o = cl.by_dest("method")
        n = (got.get("method") or [o.default() if o is not None and isinstance(o.default(), str) else ""])[0] if got.get("method") else (o.default() if o is not None else "")
        for c in registered(cl.I, "MESH_COEFFICIENTS"):
            if snake(c.name.removeprefix("Mesh")) == n:
                return c
    return None


class AstOpt:
    def __init__(self, call):
        self.flags = [a.value for a in call.args if isinstance(a, ast.Constant)]
        kw = {k.arg: k.value for k in call.keywords}
        self.positional = bool(self.flags) and not self.flags[0].startswith("-")
        self.action = kw["action"].value if isinstance(kw.get("action"), ast.Constant) else "store"
        self.nargs = kw["nargs"].value if isinstance(kw.get("nargs"), ast.Constant) else None
        self.dest = self.flags[0].lstrip("-") if self.flags else ""
        c = kw.get("choices")
        self.choices = [x.value for x in c.elts] if isinstance(c, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in c.elts) else None
        t = kw.get("type")
        self.typename = t.id if isinstance(t, ast.Name) else ""


def module_command(rec, m, toks, text, w):
    calls = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "add_argument"]
    opts = [AstOpt(x) for x in calls]
    if any(not o.flags for o in opts):
        return rec.undecided("options built at run time", text, where=w)
    if toks and not opts:
        return rec.violation(f"{m.name} takes no arguments", text, where=w)
    r = match_tokens(opts, toks)
    if isinstance(r, str):
        return rec.violation(f"{m.name}: {r}", text, where=w)
    for o, vals in r:
        for v in vals:
            e = value_error(o, v, o.typename)
            if e:
                return rec.violation(f"{m.name}: {e}", text, where=w)
    return rec.proved(text, where=w)
