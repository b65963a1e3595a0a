"""Entry point: python3-vt -m qsa.run C08

Analyses the current source of /repo (never executes it), writes
evidence/<id>.json and exits 0 (held) or 1 (violation)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    """entries of known-findings.jsonl with status 'known'"""
    p = os.path.join(HERE, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get("status") == "known":
                    out.append(d)
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(200000)
    from . import case
    from .registry import CHECKS
    modname, level = CHECKS[pid]
    t0 = time.time()
    rep = case.Rep(pid, tier, seed)
    mod = importlib.import_module("qsa.checks." + modname)
    getattr(mod, "check_" + pid)(rep)
    rep.flush()
    n_min = getattr(mod, "MIN", {}).get(pid, 1)
    if len(rep.obl) < n_min:
        raise RuntimeError(f"only {len(rep.obl)} obligations were generated, "
                           f"{n_min} expected")
    kinds = {}
    for o in rep.obl:
        kinds[o[1]] = kinds.get(o[1], 0) + 1
    kn = [d for d in known() if d["property"] == pid]
    fresh, listed = [], []
    for f in rep.findings:
        m = [d for d in kn if d["rule"] == f["rule"] and
             d["function"] == f["function"]]
        (listed if m else fresh).append(f)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(
            explanation=(
                "Static analysis of /repo/py/qsonic source (digest "
                f"{rep.prog.digest[:12]}): each obligation compares the "
                "value graph / event trace inferred for the listed functions "
                "with the reference rule; 'proof' = equal normal forms, "
                "'agree' = not separated by random interpretation of the "
                "value graphs, 'structure' = a dataflow/event fact, "
                "'undecided' = outside the analysis (not claimed)."),
            obligations=len(rep.obl),
            discharged=sum(v for k, v in kinds.items()
                           if k in ("proof", "agree", "structure")),
            by_kind=kinds,
            functions_analysed=sorted(rep.functions),
            events_inspected=rep.events_seen,
            obligation_list=[[o[0], o[1]] for o in rep.obl],
            undecided=rep.notes,
            samples=[list(map(str, o))[:3] for o in rep.obl[:5]]),
        assumptions=[str(a)[:300] for a in rep.assumed[:40]],
        wall_s=round(time.time() - t0, 2),
        violations=len(fresh))
    edir = os.environ.get("QSA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {len(rep.obl)} obligations {kinds}; "
          f"{len(rep.functions)} functions, {rep.events_seen} events, "
          f"{ev['wall_s']} s")
    for n in rep.notes:
        print("  note:", str(n)[:300])
    for f in listed:
        print(f"KNOWN-FINDING: property={pid} {f['rule']}: {f['message']}")
    if fresh:
        vp = os.path.join("evidence", pid + ".violation.json")
        with open(os.path.join(HERE, vp), "w") as fo:
            json.dump(fresh, fo, indent=1, default=str)
        for f in fresh:
            print(f"  {f['file']}:{f['line']} {f['function']}: "
                  f"[{f['rule']}] {f['message']}")
            if f.get("witness") is not None:
                print("     witness:", str(f["witness"])[:600])
        print(f"VIOLATION property={pid} replay={vp}")
        return 1
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # set and dict orders, hence node numbering, repeat between runs
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "qsa.run"] +
                 sys.argv[1:])
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
