"""Adds a planted bug: mkseed.py ID PROP file 'old' 'new' demo.py 'needs' 'breaks'
Confirms in a scratch copy: applies, compiles, stable tests pass, the demo
passes without and fails with the change."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = '''def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


jit = njit
'''
SH = '''#!/bin/bash
# cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D/stub:$PWD/py"
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def make(id, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/stub/numba")
    open(d + "/stub/numba/__init__.py", "w").write(STUB)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo)
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp", "-a", "/repo", wt)
    r0 = sh("bash", d + "/demo.sh", cwd=wt)
    ok = True
    if r0.returncode != 0:
        print("demo fails on the clean tree:", r0.stderr[-1500:], r0.stdout[-300:])
        ok = False
    for f, old, new in edits:
        p = wt + "/py/qsonic/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        s = s.replace(old, new)
        compile(s, p, "exec")
        open(p, "w").write(s)
    diff = sh("git", "diff", cwd=wt).stdout
    open(d + "/patch.diff", "w").write(diff)
    r1 = sh("bash", d + "/demo.sh", cwd=wt)
    if r1.returncode == 0:
        print("demo passes with the bug")
        ok = False
    t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests/test_catalog.py", "tests/test_mpi_utils.py", cwd=wt,
           env=dict(os.environ, PYTHONPATH=wt + "/py"))
    if t.returncode != 0:
        print("tests:", t.stdout[-800:])
        ok = False
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)
    c = sh("python3-vt", "-m", "qsa.run", prop, cwd=HERE, env=dict(os.environ, QSA_REPO=wt))
    print(id, "OK" if ok else "BAD", "| demo:", (r1.stderr.strip().splitlines() or ["?"])[-1][:150],
          "| check", prop, "rc", c.returncode, c.stderr[-200:] if c.returncode == 2 else "")
    shutil.rmtree(wt, ignore_errors=True)
    return ok
