"""Automatic mutation sweep (development aid; no registered check uses it).

  sweep.py cov OUT.json            which obligations analyse which functions
  sweep.py gen COV.json OUT.json [regex] [fraction]
  sweep.py run COV.json MUTS.json RESULT.jsonl
  sweep.py one COV.json MUT.json   (one mutant, prints the verdict)
"""
import ast
import copy
import importlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(200000)
CAP = float(os.environ.get("SWEEP_CAP", "120"))


def tasks(pid):
    from qsa import case
    from qsa.registry import CHECKS
    rep = case.Rep(pid, "quick", 1)
    mod = importlib.import_module("qsa.checks." + CHECKS[pid][0])
    getattr(mod, "check_" + pid)(rep)
    ts, rep.tasks = rep.tasks or [], None
    return rep, ts


def child(rep, t, lim):
    name, fn, a, kw = t
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            rep._child(fn, a, kw, w)
        finally:
            os._exit(0)
    os.close(w)
    buf, end = [], time.time() + lim
    while True:
        if select.select([r], [], [], max(.1, end - time.time()))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            buf = [pickle.dumps("time")]
            break
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b"".join(buf))
    except Exception:
        return "lost"


def cov1(pid):
    rep, ts = tasks(pid)
    out = []
    for i, t in enumerate(ts):
        t0 = time.time()
        x = child(rep, t, 600)
        fs = sorted(f for f in x[3] if f.startswith("qsonic")) \
            if not isinstance(x, str) else []
        out.append(dict(check=pid, i=i, name=t[0], s=time.time() - t0, f=fs))
    return out


def cov(out):
    from qsa.registry import CHECKS

    def go(p):
        return json.loads(subprocess.run(
            [sys.executable, __file__, "cov1", p], capture_output=True,
            text=True).stdout.splitlines()[-1])
    with ThreadPoolExecutor(8) as ex:
        res = sum(ex.map(go, CHECKS), [])
    json.dump(res, open(out, "w"))
    print(len(res), sum(x["s"] for x in res))


# ---------------------------------------------------------------- mutants
def functions(tree, mod):
    out = []

    def walk(n, pre):
        for c in n.body:
            if isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".")
            elif isinstance(c, ast.FunctionDef):
                out.append((f"{mod}:{pre}{c.name}", c))
    walk(tree, "")
    return out


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
       ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "/"}


def u(n):
    return ast.unparse(n)


def edits(fn):
    """(node, replacement text) pairs"""
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(
        getattr(fn.body[0], "value", None), ast.Constant) else None
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.JoinedStr) or n is doc or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and
                u(n.value.func).startswith(("logging.", "warnings."))) or (
                isinstance(n, ast.Raise)):
            skip |= {id(x) for x in ast.walk(n)}
    for d in fn.decorator_list:
        skip |= {id(x) for x in ast.walk(d)}
    out = []
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            out.append((n, f"({u(n.left)} {o} {u(n.comparators[0])})"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((n, f"({u(n.left)} {BIN[type(n.op)]} {u(n.right)})"))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                out.append((n, f"({u(n.left)})"))
        if isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            out.append((n, "(" + f" {o} ".join(f"({u(v)})"
                                               for v in n.values) + ")"))
            for i in range(len(n.values)):
                k = n.values[:i] + n.values[i + 1:]
                o2 = "and" if o == "or" else "or"
                out.append((n, "(" + f" {o2} ".join(f"({u(v)})"
                                                    for v in k) + ")"))
        if isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((n, f"({u(n.operand)})"))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, repr(not n.value)))
            elif isinstance(n.value, int):
                out.append((n, f"({n.value} + 1)"))
            elif isinstance(n.value, float):
                out.append((n, f"({n.value} * 1.5)"))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(
                n.test, ast.Compare):
            out.append((n.test, f"(not ({u(n.test)}))"))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args):
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                out.append((n, u(m)))
            if n.keywords:
                for i in range(len(n.keywords)):
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    out.append((n, u(m)))
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    n.func.attr in ("copy",):
                out.append((n, u(n.func.value)))
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                v = getattr(n, f)
                if v is not None:
                    m = copy.deepcopy(n)
                    setattr(m, f, None)
                    out.append((n, u(m)))
        if isinstance(n, ast.AugAssign):
            m = copy.deepcopy(n)
            out.append((n, f"{u(n.target)} = {u(n.value)}"))
            out.append((n, "pass"))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, "pass"))
        if isinstance(n, ast.Assign) and not isinstance(
                n.targets[0], (ast.Name, ast.Tuple)):
            out.append((n, "pass"))
        if isinstance(n, (ast.Continue, ast.Break)):
            out.append((n, "pass"))
        if isinstance(n, ast.Return) and n.value is None:
            out.append((n, "pass"))
    return out


def gen(covf, out, pat=".*", frac="1"):
    rng = random.Random(7)
    ms = []
    root = "/repo/py"
    for d, _, fs in sorted(os.walk(root + "/qsonic")):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            mod = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
            src = open(p).read()
            lines = src.splitlines(keepends=True)
            off = [0]
            for ln in lines:
                off.append(off[-1] + len(ln.encode()))
            b = src.encode()
            for q, fn in functions(ast.parse(src), mod):
                if not re.search(pat, q):
                    continue
                seen = set()
                for n, new in edits(fn):
                    a = off[n.lineno - 1] + n.col_offset
                    z = off[n.end_lineno - 1] + n.end_col_offset
                    if (a, z, new) in seen or rng.random() > float(frac):
                        continue
                    seen.add((a, z, new))
                    s2 = (b[:a] + new.encode() + b[z:]).decode()
                    try:
                        compile(s2, p, "exec")
                    except SyntaxError:
                        continue
                    ms.append(dict(file=os.path.relpath(p, root), fn=q, a=a,
                                   z=z, line=n.lineno, new=new,
                                   old=b[a:z].decode()))
    rng.shuffle(ms)
    json.dump(ms, open(out, "w"))
    print(len(ms), "mutants")


def one(covf, mutf):
    m = json.load(open(mutf))
    c = [x for x in json.load(open(covf)) if m["fn"] in x["f"]]
    c.sort(key=lambda x: x["s"])
    cache, spent, und = {}, 0, []
    for x in c:
        if spent + x["s"] > CAP:
            break
        if x["check"] not in cache:
            try:
                cache[x["check"]] = tasks(x["check"])
            except Exception as e:
                return dict(v="CRASH", by=x["check"], e=repr(e)[:200])
            if cache[x["check"]][0].findings:
                return dict(v="caught", by=x["check"], name="struct")
        rep, ts = cache[x["check"]]
        t0 = time.time()
        if x["i"] >= len(ts):
            continue
        r = child(rep, ts[x["i"]], 3 * x["s"] + 20)
        spent += time.time() - t0
        if isinstance(r, str):
            und.append((x["check"], x["name"], r))
        elif r[1]:
            return dict(v="caught", by=x["check"], name=r[1][0]["rule"])
        else:
            und += [(x["check"], o[0], str(o[2])[:150]) for o in r[0]
                    if o[1] == "undecided"]
    return dict(v="survived" if c else "uncovered", n=len(c), spent=spent,
                und=und[:3])


def runone(covf, m):
    d = tempfile.mkdtemp(prefix="qsasw")
    try:
        shutil.copytree("/repo/py", d + "/py")
        p = d + "/py/" + m["file"]
        b = open(p, "rb").read()
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["z"]:])
        json.dump(m, open(d + "/m.json", "w"))
        r = subprocess.run([sys.executable, __file__, "one", covf,
                            d + "/m.json"], capture_output=True, text=True,
                           env=dict(os.environ, QSA_REPO=d,
                                    PYTHONHASHSEED="0"))
        try:
            return dict(m, **json.loads(r.stdout.splitlines()[-1]))
        except Exception:
            return dict(m, v="CRASH", e=r.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(covf, mutf, out):
    ms = json.load(open(mutf))
    done = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex, \
            open(out, "a") as f:
        for r in ex.map(lambda m: runone(covf, m), ms):
            f.write(json.dumps(r) + "\n")
            f.flush()
            done += 1


if __name__ == "__main__":
    k, a = sys.argv[1], sys.argv[2:]
    if k == "cov1":
        print(json.dumps(cov1(a[0])))
    elif k == "one":
        print(json.dumps(one(*a)))
    else:
        dict(cov=cov, gen=gen, run=run)[k](*a)
