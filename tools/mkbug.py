"""Writes one planted bug: mkbug.py SPEC.py, a file that defines id, property, edits, needs, breaks, demo."""
import json, pathlib, subprocess, sys
V = pathlib.Path("/verif/seeded")
HEAD = '''import os, sys
import lazy_dlopen
import numpy as np
from coffe import Coffe


def spectrum(n=300, kmin=1e-4, kmax=30.0):
    k = np.geomspace(kmin, kmax, n)
    q = k / 0.015 / 5
    t = np.log(1 + 2.34 * q) / (2.34 * q) * (1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25
    return k, 1.3e6 * (k / 0.015) ** 0.96 * t ** 2


def make(pk=True, **kw):
    kw.setdefault("background_sampling", 500)
    kw.setdefault("integration_sampling", 5000)
    c = Coffe(**kw)
    if pk:
        c.set_power_spectrum_linear(*spectrum())
    return c


def check(ok, what):
    print("ok" if ok else "FAILS", what)
    if not ok:
        sys.exit(1)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-300))

'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/opt/vp:/repo/_build/stage PYTHONDONTWRITEBYTECODE=1
exec /opt/coffe-venv/bin/python "$here/demo.py"
'''
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = V / ns["id"]
    d.mkdir(parents=True, exist_ok=True)
    changed = {}
    for path, old, new in ns["edits"]:
        p = pathlib.Path("/repo") / path
        t = changed.get(p, p.read_text())
        assert t.count(old) == 1, (ns["id"], path, t.count(old), old)
        changed[p] = t.replace(old, new)
    diff = ""
    import difflib
    for p, t in changed.items():
        rel = str(p.relative_to("/repo"))
        diff += "".join(difflib.unified_diff(p.read_text().splitlines(True), t.splitlines(True), "a/" + rel, "b/" + rel))
    (d / "patch.diff").write_text(diff)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    (d / "meta.json").write_text(json.dumps({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, indent=1) + "\n")
    if "sh" in ns:
        (d / "demo.sh").write_text(ns["sh"])
    else:
        (d / "demo.sh").write_text(SH)
        (d / "demo.py").write_text(HEAD + ns["demo"])
    print(ns["id"], "written")
