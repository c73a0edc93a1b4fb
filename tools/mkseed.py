#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY FILE — build a planted bug from a replacement file and confirm it.

FILE is Python defining EDITS = [(path, old, new), ...], NEEDS, BREAKS and DEMO (text of demo.py).
Confirms in a scratch copy: applies, demo passes unchanged / fails changed, stable tests pass; then runs the check (SA_ROOT)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PRE = '''import os, sys, tempfile, logging
os.environ["XDG_DATA_HOME"] = os.environ["XDG_CACHE_HOME"] = _tmp = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, _tmp, True)
logging.disable(logging.CRITICAL)
import numpy as np
import pyssht as ssht
import sleplet
import sleplet._data.setup_pooch as _sp


class _Offline:
    registry = {}


_sp._POOCH = _Offline()  # no published data without a network: everything is computed here
L2 = lambda x: float(np.abs(x).max())


def need(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
cd /repo 2>/dev/null || true
exec env -u SA_ROOT PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${DEMO_SRC:-/repo/src}" NCPU="${NCPU:-2}" /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def main():
    sid, prop, f = sys.argv[1:4]
    fast = "--fast" in sys.argv
    ns = {}
    exec(open(f).read(), ns)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        wc = tmp + "/r"
        subprocess.run(["cp", "-a", "/repo", wc], check=True)
        for path, old, new in ns["EDITS"]:
            p = os.path.join(wc, path)
            s = open(p).read()
            assert s.count(old) == 1, (path, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", wc, "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + ns["DEMO"].lstrip("\n"))
        json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        e = dict(os.environ)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=280)
        e["DEMO_SRC"] = wc + "/src"
        b = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=280, env=e)
        print(f"{sid}: demo unchanged rc={a.returncode} {a.stdout[-300:]}{a.stderr[-600:] if a.returncode else ''}; changed rc={b.returncode} {b.stdout[-200:]} {b.stderr[-300:] if b.returncode != 1 else ''}")
        ok = a.returncode == 0 and b.returncode != 0
        if not fast:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {wc}").replace("/repo/src /repo/tests", f"{wc}/src {wc}/tests").replace("$PY -m pytest", f"PYTHONPATH={wc}/src $PY -m pytest")
            open(tmp + "/t.sh", "w").write(t)
            subprocess.run(["bash", tmp + "/t.sh", tmp + "/o.json"], capture_output=True)
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(tmp + "/o.json"))["passed"])
            print(f"{sid}: stable tests missing: {miss or 'none'}")
            ok = ok and not miss
        if not ok:
            shutil.rmtree(d)
            print(f"{sid}: REJECTED")
            return
        e2 = dict(os.environ, SA_ROOT=wc)
        if os.path.exists(f"{HERE}/sa/props/{prop.lower()}.py"):
            c = subprocess.run([sys.executable, "run.py", "--property", prop], cwd=HERE, capture_output=True, text=True, env=e2)
            print(f"{sid}: check {prop} rc={c.returncode}", "CAUGHT" if c.returncode == 1 else "MISSED")
            print("   ", "\n    ".join(c.stdout.splitlines()[:4])[:600])
    finally:
        shutil.rmtree(tmp, True)


main()
