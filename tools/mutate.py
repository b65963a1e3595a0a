"""Run checks on mutated copies of the sources (development aid).

usage: mutate.py LIST.py [substring]   LIST.py defines M = [(file, old, new,
"C16 C17"), ...]; every mutant is applied to a scratch copy of /repo/py and
the named checks analyse that copy (QSA_REPO).  Nothing here is run by a
registered check."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    f, old, new, checks = m[-4:]
    f = f.removeprefix("py/qsonic/")
    d = tempfile.mkdtemp(prefix="qsamut")
    try:
        shutil.copytree("/repo/py", d + "/py")
        p = f"{d}/py/qsonic/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return m, [("?", "NO MATCH", "")]
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return m, [("?", f"SYNTAX {e}", "")]
        out = []
        for c in checks.split():
            r = subprocess.run(
                ["python3-vt", "-m", "qsa.run", c.lstrip("!")], cwd=ROOT, text=True,
                env=dict(os.environ, QSA_REPO=d, QSA_EVIDENCE=d),
                capture_output=True)
            w = [x[:230] for x in r.stdout.splitlines()
                 if x.startswith("  py")][:2]
            if r.returncode not in (0, 1):
                w = [r.stderr[-400:]]
            elif r.returncode == 0:
                w = [x[:230] for x in r.stdout.splitlines()
                     if "undecided" in x][:2]
            out.append((c, r.returncode, "\n      ".join(w)))
        return m, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ms = runpy.run_path(sys.argv[1])["M"]
    if len(sys.argv) > 2:
        ms = [m for m in ms if sys.argv[2] in repr(m)]
    caught = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for m, out in ex.map(one, ms):
            quiet = all(c.startswith("!") for c, _, _ in out)
            hit = any(rc == 1 for _, rc, _ in out)
            if quiet:       # behaviour-preserving edit: must not alarm
                hit = all(rc == 0 for _, rc, _ in out)
                tag = "quiet " if hit else "ALARM "
            else:
                tag = "caught" if hit else "MISSED"
            caught += hit
            print(f"{tag} {m[-4]}: {m[-3].strip()[:70]!r} -> "
                  f"{m[-2].strip()[:70]!r}")
            for c, rc, w in out:
                if os.environ.get("V") or not hit:
                    print(f"   {c} rc={rc}\n      {w}")
    print(f"{caught}/{len(ms)} caught")


main()
