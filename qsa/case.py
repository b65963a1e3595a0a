"""Obligations: value graph of the code against value graph of a reference
formula, plus bookkeeping of what was analysed."""
import ast
import os
import pickle
import resource
import select
import signal
import time
from . import loader, interp, sepval, terms as t
from .terms import TRUE, FALSE, NONE, norm

OUTSIDE = "the analysed module"


class Rep:
    """collects obligations and findings of one property check."""

    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = loader.Program()
        self.obl = []
        self.findings = []
        self.notes = []
        self.functions = set()
        self.sites = 0
        self.events_seen = 0
        self.t0 = time.time()
        self.assumed = []

    # -------------------------------------------------------- anchors
    def locate(self, modfn):
        """'spectrum:Spectrum.write' -> (file, line)"""
        mod, q = modfn.split(":")
        m = self.prog.modules.get("qsonic." + mod if mod else "qsonic")
        if m is None:
            return (f"py/qsonic/{mod}.py", 0)
        body = m.tree.body
        line = 0
        for part in q.split("."):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                        n.name == part:
                    body, line = n.body, n.lineno
                    break
        return (m.rel, line)

    def assigns(self, mod, cls, attr):
        """does a method of the class assign self.<attr>?  (obligations that
        prepare an object through such a field are skipped if it is gone)"""
        m = self.prog.modules.get("qsonic." + mod)
        for n in ast.walk(m.tree) if m else ():
            if isinstance(n, ast.ClassDef) and n.name == cls:
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and x.attr == attr and \
                            isinstance(x.ctx, ast.Store):
                        return True
        self.note(f"{mod}.{cls} has no field {attr}: obligation skipped")
        return False

    def ok(self, rule, kind="structure", detail=None):
        self.obl.append((rule, kind, detail))

    def bad(self, rule, anchor, msg, **data):
        if isinstance(anchor, str):
            f, l = self.locate(anchor)
            anchor = (f, anchor.split(":")[1], l)
        self.obl.append((rule, "violated", msg))
        self.findings.append(dict(rule=rule, file=anchor[0],
                                  function=anchor[1], line=anchor[2],
                                  message=msg, **data))

    def require(self, cond, rule, anchor, msg, **data):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule, anchor, msg, **data)
        return bool(cond)

    def note(self, s):
        self.notes.append(s)

    # -------------------------------------------------------- running
    def interp(self, src=None, name="drv", opaque=None, **opts):
        prog = loader.Program.__new__(loader.Program)
        prog.modules = dict(self.prog.modules)
        prog.digest = self.prog.digest
        if src is not None:
            prog.add_source(name, src)
        o = dict(opts)
        if opaque:
            o["opaque"] = opaque
        I = interp.Interp(prog, o)
        I.load_all()
        return I

    def run(self, src, fn, opaque=None, **opts):
        I = self.interp(src, opaque=opaque, **opts)
        r = I.run("drv", fn)
        for q in I.inlined:
            self.functions.add(q)
        self.events_seen += len(I.events)
        for d in I.assumed:
            if d not in self.assumed:
                self.assumed.append(d)
        return r

    # ------------------------------------------------------- scheduling
    # Obligations are independent: each is decided in a child process with a
    # time and memory budget, so that one that grows out of reach is reported
    # as undecided and the rest is still decided.
    tasks = None
    TASK_S = {"quick": 240, "thorough": 1500}
    TOTAL_S = {"quick": 560, "thorough": 7200}
    TASK_MEM = 7 << 29

    def compare(self, name, *a, **kw):
        if self.tasks is None:
            self.tasks = []
        self.tasks.append((name, self.compare_now, (name,) + a, kw))

    nested = False

    def also(self, pid, pat, **kw):
        """obligations of another property that this one relies on too"""
        if self.nested:
            return
        import importlib
        import re
        from .registry import CHECKS
        mod = importlib.import_module("qsa.checks." + CHECKS[pid][0])
        keep = self.tasks or [], self.obl, self.findings, self.notes
        self.tasks, self.obl, self.findings, self.notes = [], [], [], []
        self.nested = True
        getattr(mod, "check_" + pid)(self)
        self.nested = False
        new = [(n, f, a, dict(k, **kw)) for n, f, a, k in self.tasks
               if re.match(pat, n)]
        rest = [o for o in self.obl if re.match(pat, o[0])]
        fnd = [f for f in self.findings if re.match(pat, f["rule"])]
        self.tasks, self.obl, self.findings, self.notes = keep
        have = {x[0] for x in self.tasks}
        for n, f, a, k in new:
            m = n if n not in have else f"{pid}:{n}"
            self.tasks.append((m, f, (m,) + a[1:], k))
        self.obl += rest
        self.findings += fnd

    def trace(self, name, *a, **kw):
        if self.tasks is None:
            self.tasks = []
        self.tasks.append((name, self.trace_now, (name,) + a, kw))

    def _child(self, fn, a, kw, w):
        self.obl, self.findings, self.notes = [], [], []
        self.functions, self.assumed = set(), []
        self.sites = self.events_seen = 0
        try:
            resource.setrlimit(resource.RLIMIT_AS,
                               (self.TASK_MEM, self.TASK_MEM))
            fn(*a, **kw)
            out = (self.obl, self.findings, self.notes, self.functions,
                   self.sites, self.events_seen,
                   [str(x)[:300] for x in self.assumed[:40]])
        except MemoryError:
            out = "grows beyond the memory budget"
        except BaseException as e:
            import traceback
            if os.environ.get("QSA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out = (f"{type(e).__name__} at {os.path.basename(tb.filename)}:"
                   f"{tb.lineno}: {str(e)[:200]}")
        try:
            b = pickle.dumps(out)
        except BaseException as e:
            b = pickle.dumps(f"result lost: {e}")
        with os.fdopen(w, "wb") as f:
            f.write(b)

    def flush(self):
        """decide the scheduled obligations, in parallel"""
        todo = list(enumerate(self.tasks or ()))
        self.tasks = None
        live, res = {}, {}
        jobs = int(os.environ.get("QSA_JOBS") or os.cpu_count() or 4)
        end = self.t0 + self.TOTAL_S.get(self.tier, 560)
        names = {i: x[0] for i, x in todo}
        while todo or live:
            now = time.time()
            while todo and len(live) < jobs and now < end:
                i, (name, fn, a, kw) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        self._child(fn, a, kw, w)
                    except BaseException:
                        code = 3
                    os._exit(code)
                os.close(w)
                live[r] = (i, pid, now, [])
            if now >= end:
                for i, _ in todo:
                    res[i] = "time budget of the check is used up"
                todo = []
            ready = select.select(list(live), [], [], 1.0)[0]
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    live[r][3].append(b)
                    continue
                i, pid, _, buf = live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    res[i] = pickle.loads(b"".join(buf))
                except Exception:
                    res[i] = "the analysis of this obligation ended early"
            lim = self.TASK_S.get(self.tier, 240)
            for r, (i, pid, t0, buf) in list(live.items()):
                if time.time() - t0 > lim or time.time() > end + 20:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del live[r]
                    res[i] = "exceeds the time budget"
        for i in sorted(res):
            x = res[i]
            if isinstance(x, str):
                self.obl.append((names[i], "undecided", x))
                self.note(f"{names[i]}: undecided ({x})")
                continue
            self.obl += x[0]
            self.findings += x[1]
            self.notes += x[2]
            self.functions |= x[3]
            self.sites += x[4]
            self.events_seen += x[5]
            self.assumed += [y for y in x[6] if y not in self.assumed]

    def compare_now(self, name, src, anchor, code="code", spec="spec", **kw):
        """every field returned by `code` must have the value the reference
        `spec` gives it.  Domains of unknown length are unrolled to the
        lengths the generators give them (found by a first pass)."""
        opts = dict(kw.pop("opts", None) or {})
        todo, tried = [{}], []
        rank = {"violated": 3, "agree": 2, "proof": 1, "structure": 1,
                "undecided": 0}
        best = {}
        order = []
        limit = 16 if self.tier == "thorough" else 8
        while todo and len(tried) < limit:
            lens = todo.pop(0)
            tried.append(lens)
            mark = len(self.obl), len(self.findings), len(self.notes)
            got = []
            self.compare1(name, src, anchor, code, spec, got=got,
                          opts=dict(opts, lens=lens), **kw)
            obl = self.obl[mark[0]:]
            fnd = {f["rule"]: f for f in self.findings[mark[1]:]}
            del self.obl[mark[0]:]
            del self.findings[mark[1]:]
            del self.notes[mark[2]:]
            for rule, kind, d in obl:
                if rule not in best:
                    order.append(rule)
                o = best.get(rule)
                if o is None or rank[kind] > rank[o[0]] or \
                        kind == o[0] == "undecided":
                    best[rule] = (kind, d, fnd.get(rule))
                elif kind == o[0] == "agree":
                    best[rule] = (kind, (d or 0) + (o[1] or 0), None)
            new = {}
            for sig in got:
                if max(sig.values()) <= 80:
                    new[frozenset(sig.items())] = new.get(
                        frozenset(sig.items()), 0) + 1
            for sig, _ in sorted(new.items(), key=lambda p: -p[1]):
                x = dict(lens)
                x.update(dict(sig))
                if x not in tried and x not in todo:
                    todo.append(x)
        for rule in order:
            kind, d, f = best[rule]
            self.obl.append((rule, kind, d))
            if f is not None:
                self.findings.append(f)
            if kind == "undecided":
                self.note(f"{rule}: undecided ({d})")

    def trace_now(self, name, src, anchor, fn="code", gens=None, nrank=3,
              exc=0.25, opaque=None, opts=None, k=2, n=6, ufn=None,
              seeds=None, need=None, end=False, fatal=("QsonicException",
                                                       "SystemExit")):
        """SPMD matching: in every world all ranks make the same sequence of
        collective calls and end the same way.  A rank that ends with an
        exception outside `fatal` aborts the communicator (C02), so such
        worlds carry no obligation here."""
        opts = dict(opts or {})
        deep = self.tier == "thorough"
        nseed = seeds or (600 if deep else 150)
        need = need or (300 if deep else 60)
        todo, tried = [{}], []
        done, why, bad, sup = 0, None, None, None
        while todo and len(tried) < (16 if deep else 8) and not bad:
            lens = todo.pop(0)
            tried.append(lens)
            o = dict(opts, lens=lens)
            o.setdefault("k", k)
            loss = interp.LOSS[0]
            rc = self.run(src, fn, opaque=opaque, **o)
            un = ["weakened path conditions"] * (interp.LOSS[0] > loss) + [e.data.get("what") for e in rc.i.events
                  if e.kind in ("unsupported", "lostwrite", "lostattr")]
            evs = [e for e in rc.i.events if e.kind in ("coll", "abort")]
            self.sites += len({e.where for e in evs})
            new = {}
            for s in range(self.seed * 1000, self.seed * 1000 + nseed):
                E = sepval.Env(s, gens, k=k, nrank=nrank, exc=exc, ufn=ufn,
                               n=n)
                try:
                    sig, ok = {}, True
                    for r in range(nrank):
                        g, w = sepval.lengths(E, rc.i.assumed, r)
                        if w:
                            ok, why = False, why or w
                        if g:
                            new[frozenset(g.items())] = new.get(
                                frozenset(g.items()), 0) + 1
                    if not ok:
                        continue
                    outs = [sepval.rank_trace(E, evs, rc, r)
                            for r in range(nrank)]
                except sepval.Unsupported as e:
                    why = why or str(e)
                    continue
                except sepval.Fails as e:
                    why = why or f"fails: {e}"
                    continue
                if any(o[1] not in ("return", "?") + tuple(fatal)
                       for o in outs):
                    why = why or f"world aborts: {[o[1] for o in outs]}"
                    continue
                df = [sepval.trace_diff(outs[0], outs[r])
                      for r in range(1, nrank)]
                b = df.index(True) + 1 if True in df else None
                if b is None and None in df:
                    why = why or next(o[3] for o in outs if o[1] == "?")
                    continue
                done += 1
                if b is not None:
                    bad = dict(seed=s, ranks=[0, b], rank_a=outs[0][:2],
                               rank_b=outs[b][:2],
                               sites=first_diff(outs[0], outs[b]),
                               symbols={str(q): sepval.brief(w) for q, w in
                                        list(E.syms.items())[:14]})
                    if un:
                        why = f"code uses {sorted(set(map(str, un)))}"
                        sup = why
                        bad = None
                        done -= 1
                        continue
                    break
                if done >= need * len(tried):
                    break
            for sg, _ in sorted(new.items(), key=lambda q: -q[1]):
                x = dict(lens)
                x.update(dict(sg))
                if max(dict(sg).values()) <= 80 and x not in tried and \
                        x not in todo:
                    todo.append(x)
        rule = f"{name}/same-collectives"
        if bad:
            self.bad(rule, anchor, "ranks make different collective calls "
                     f"or end differently: {bad['sites']}", witness=bad)
        elif done and not sup:
            self.obl.append((rule, "agree", done))
            if un:
                self.note(f"{rule}: a mismatch would be undecided ({un[:3]})")
        else:
            self.obl.append((rule, "undecided", why))
            self.note(f"{rule}: undecided ({why})")

    def compare1(self, name, src, anchor, code="code", spec="spec", gens=None,
                opaque=None, seeds=None, raises=True, exc=0.0, need=None,
                ranks=(0,), nrank=1, ufn=None, n=6, pre=None, fields=None,
                opts=None, k=2, got=None):
        opts = dict(opts or {})
        opts.setdefault("k", k)
        rc = self.run(src, code, opaque=opaque, **opts)
        rs = self.run(src, spec, opaque=opaque, **opts)
        if rs.value is None and not rs.raises:
            raise interp.AnalysisError(f"reference {name} has no value")
        deep = self.tier == "thorough"
        seeds = range(self.seed * 1000, self.seed * 1000 +
                      (seeds or (700 if deep else 130)))
        need = need or (400 if deep else 80)
        kw = dict(gens=gens, seeds=seeds, ranks=ranks, nrank=nrank, exc=exc,
                  need=need, ufn=ufn, n=n, k=k)
        self.unsup = [e.data.get("what") for e in rc.i.events
                      if e.kind == "unsupported"]
        self.unsup += [f"write through unknown reference at {e.where}"
                       for e in rc.i.events
                       if e.kind in ("lostwrite", "lostattr", "opaquemut")]
        kw["assumed"] = list(dict.fromkeys(
            list(rc.i.assumed) + list(rs.i.assumed)))
        pres = rs.st.path if not rs.st.dead else TRUE
        if pre is not None:
            pres = t.t_and(pres, pre)
        where = anchor if isinstance(anchor, str) else anchor[None]
        craise = rc.raise_cond()
        sraise = rs.raise_cond()
        if raises:
            if craise is FALSE and sraise is FALSE:
                self.ok(f"{name}/no-exception", "proof")
            else:
                v = sepval.decide(craise, sraise, **kw)
                got.extend(v.lens or ())
                self.outcome(f"{name}/exception", where, v, craise, sraise,
                             extra=[f"{r.names[0]} at {r.where}"
                                    for r in rc.raises][:4])
        if rs.value is None:
            return
        if rc.value is None:
            if craise is TRUE:
                return
            self.bad(name, where, "no execution of this code returns")
            return
        cv = rc.i.deep(rc.value, rc.st)
        sv = rs.i.deep(rs.value, rs.st)
        cf, sf = split_fields(cv), split_fields(sv)
        if cf is None or sf is None:
            cf, sf = {"value": cv}, {"value": sv}
        if sraise is not FALSE:
            pres = t.t_and(pres, t.t_not(sraise))
        for f, s in sf.items():
            if fields and f not in fields:
                continue
            a = where
            if isinstance(anchor, dict):
                a = anchor.get(f, anchor[None])
            c = cf.get(f)
            if c is None:
                self.bad(f"{name}/{f}", a, f"{f} is not produced")
                continue
            v = sepval.decide(c, s, pre=pres, **kw)
            got.extend(v.lens or ())
            self.outcome(f"{name}/{f}", a, v, c, s)

    unsup = ()

    def outcome(self, rule, anchor, v, c, s, extra=None):
        if v.kind == "differ" and self.unsup:
            v = sepval.Verdict("undecided",
                               f"code uses {sorted(set(self.unsup))}")
        if v.kind in ("proof", "agree"):
            self.obl.append((rule, v.kind, v.n))
        elif v.kind == "undecided":
            self.obl.append((rule, "undecided", v.detail))
            self.note(f"{rule}: undecided ({v.detail})")
        else:
            self.bad(rule, anchor,
                     f"value of {rule} differs from its definition",
                     witness=v.detail, code=t.show(norm(c), 6)[:1500],
                     reference=t.show(norm(s), 6)[:1500],
                     extra=extra)


def first_diff(a, b):
    for i in range(max(len(a[2]), len(b[2]))):
        x = a[2][i] if i < len(a[2]) else a[3]
        y = b[2][i] if i < len(b[2]) else b[3]
        if x != y or i >= min(len(a[2]), len(b[2])):
            return f"{x} / {y}"
    return f"{a[3]} / {b[3]}"


def split_fields(v):
    v = norm(v)
    if v.op == "dictv" and all(
            p.args[0].op == "const" and p.args[1] is TRUE for p in v.args):
        return {t.cval(p.args[0]): p.args[2] for p in v.args}
    return None
