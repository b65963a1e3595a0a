"""Interprocedural gated value-numbering over the parsed source.

Nothing of /repo is imported or executed: the AST of every function reachable
from a driver is folded into hash-consed value terms (terms.py), with
control-flow joins represented as `ite` nodes (no path enumeration), an
abstract heap of allocation cells (so aliasing is tracked) and a log of
effects (collectives, raises, file writes, ...) each carrying the condition
under which it happens.  Loops over collections whose members are known are
exact; loops over unknown collections are represented by K generic members.
"""
import ast
from . import terms as t
from .terms import (T, mk, const, sym, tup, TRUE, FALSE, NONE, ite, t_not,
                    t_and, t_or, constrain, norm, cval, kind, is_boolean,
                    num, leafset)

UNDEF = mk("undef")
K_UNROLL = 2
RANGE_LIMIT = 24


class Dead(Exception):
    """the current program point is unreachable."""


class AnalysisError(Exception):
    pass


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("heap", "path", "abs", "log")

    def __init__(self):
        self.heap = {}
        self.path = TRUE
        self.abs = TRUE
        self.log = set()

    def fork(self, c=TRUE):
        s = State()
        s.heap = dict(self.heap)
        s.path = t_and(self.path, c)
        s.abs = _abs_and(self.abs, c)
        s.log = set(self.log)
        return s

    def clone(self):
        return self.fork(TRUE)

    def become(self, o):
        self.heap, self.path, self.abs, self.log = \
            o.heap, o.path, o.abs, o.log

    def kill(self):
        self.path = FALSE
        self.abs = FALSE

    @property
    def dead(self):
        return self.path is FALSE


_size_memo = {}


def bdd_size(x):
    r = _size_memo.get(x)
    if r is None:
        seen, st = set(), [x]
        while st and len(seen) < 3000:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == "ite":
                st.append(y.args[1])
                st.append(y.args[2])
        r = _size_memo[x] = len(seen)
    return r


LOSS = [0]      # path conditions that had to be weakened


def _abs_and(a, c):
    if bdd_size(a) > 1500:
        LOSS[0] += c is not TRUE
        return a
    r = t_and(a, c)
    if r.op == "phi":
        LOSS[0] += 1
        return a
    return r


class Meta:
    __slots__ = ("kind", "cls", "parent", "name", "site", "captured",
                 "default", "gen", "lazy", "isset", "module", "bases",
                 "extbase", "tag", "bare")

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))


class Fn:
    __slots__ = ("node", "env", "module", "defaults", "kwdefaults", "cls",
                 "name", "locals", "decl", "qual", "isgen")


class Frame:
    __slots__ = ("fn", "env", "returns", "loops", "cls", "selfv", "yields",
                 "globals_decl", "module", "node", "nonlocals")

    def __init__(self):
        self.returns = []
        self.loops = []
        self.yields = None
        self.globals_decl = ()
        self.nonlocals = ()


class Event:
    __slots__ = ("kind", "data", "guard", "where", "loops", "stack", "seq",
                 "node")

    def __repr__(self):
        return f"<{self.kind} {self.data} @ {self.where} if {self.guard}>"


class RaiseExit:
    __slots__ = ("state", "value", "names", "where", "stack", "implicit")


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException",
    "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "MemoryError": "Exception",
    "NameError": "Exception", "OSError": "Exception", "IOError": "OSError",
    "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception",
    "Warning": "Exception", "RuntimeWarning": "Warning",
    "UserWarning": "Warning",
}

BUILTINS = {
    "len", "range", "enumerate", "zip", "map", "filter", "list", "tuple",
    "dict", "set", "frozenset", "int", "float", "str", "bool", "abs", "min",
    "max", "sum", "any", "all", "sorted", "reversed", "isinstance", "print",
    "getattr", "setattr", "hasattr", "type", "open", "exit", "quit", "round",
    "super", "repr", "iter", "next", "id", "hash", "callable", "vars",
    "issubclass", "object", "property", "staticmethod", "classmethod",
    "slice", "pow", "divmod", "chr", "ord", "format", "bytes", "complex",
    "input", "locals", "globals", "__import__", "delattr", "Ellipsis",
    "NotImplemented", "bytearray", "memoryview", "dir", "bin", "hex",
}

MODNAMES = {"numpy": "np", "mpi4py.MPI": "MPI"}


def canon_ext(name):
    if name == "numpy" or name.startswith("numpy."):
        return "np" + name[5:]
    if name.startswith("mpi4py.MPI"):
        return "MPI" + name[10:]
    return name


class Interp:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.k = self.opts.get("k", K_UNROLL)
        self.meta = {}
        self.nloc = 0
        self.fns = {}
        self.fn_ids = {}
        self.modenv = {}
        self.events = []
        self.raises = [[]]
        self.frames = []
        self.loopstack = []
        self.callstack = []
        self.assumed = []       # (domain term, K) unrolled unknown domains
        self.opaque_fns = dict(self.opts.get("opaque", {}))
        self.inlined = set()
        self.ever = set()
        self.opaque_calls = {}
        self.prov = {}
        self.nexc = 0
        self.excdeps = {}
        self.views_note = []
        self.depth_hits = []
        self.steps = 0
        from . import models
        self.models = models
        self.st0 = State()
        self.record_prov = True

    # ------------------------------------------------------------- heap
    def alloc(self, kind, **kw):
        self.nloc += 1
        self.meta[self.nloc] = Meta(kind, **kw)
        return mk("ref", self.nloc)

    def exists(self, st, ref):
        self.put(st, (ref.args[0], "#exists"), TRUE)
        return ref

    def m(self, ref):
        return self.meta[ref.args[0]]

    def is_ref(self, v, kind=None):
        return v.op == "ref" and (
            kind is None or self.meta[v.args[0]].kind == kind)

    def put(self, st, key, v):
        if st.heap.get(key) is not v:
            st.heap[key] = v
            st.log.add(key)

    def new_arr(self, st, content, site=None):
        r = self.alloc("arr", site=site or self.where())
        self.put(st, (r.args[0], "#a"), content)
        return r

    def new_list(self, st, items=(), guards=None, isset=False, gen=False):
        r = self.alloc("list", site=self.where(), isset=isset, gen=gen)
        if guards is None:
            its = tuple((TRUE, x) for x in items)
        else:
            its = tuple(zip(guards, items))
        self.put(st, (r.args[0], "#items"), its)
        return r

    def new_dict(self, st, pairs=()):
        r = self.alloc("dict", site=self.where())
        self.put(st, (r.args[0], "#keys"), ())
        for k, v in pairs:
            self.dict_set(st, r, k, v)
        return r

    def items(self, st, ref):
        return st.heap[(ref.args[0], "#items")]

    def dict_keys(self, st, ref):
        """[(key, guard)]"""
        loc = ref.args[0]
        out = []
        for k in st.heap[(loc, "#keys")]:
            g = st.heap.get((loc, "g", k), FALSE)
            g = self.prune(st, g)
            if g is not FALSE:
                out.append((k, g))
        return out

    def dict_like(self, st, ref, key):
        """[(other key, its guard, condition that it equals key)]: keys that
        are not known at analysis time may coincide"""
        loc = ref.args[0]
        keys = st.heap[(loc, "#keys")]
        if not keys or (self.plain_key(key) and
                        all(self.plain_key(k) for k in keys)):
            return ()
        out = []
        for k in keys:
            if k is key or (self.plain_key(k) and self.plain_key(key)):
                continue
            g = self.prune(st, st.heap.get((loc, "g", k), FALSE))
            if g is FALSE:
                continue
            e = self.equal(k, key, st)
            if e is not FALSE:
                out.append((k, g, e))
        return out

    def plain_key(self, k):
        if k.op == "tuple":
            return all(self.plain_key(x) for x in k.args)
        return k.op in ("const", "ref", "fn", "ext", "bound", "mod", "range")

    def dict_get(self, st, ref, key):
        loc = ref.args[0]
        v = st.heap.get((loc, "v", key), UNDEF)
        g = st.heap.get((loc, "g", key), FALSE)
        for k, h, e in self.dict_like(st, ref, key):
            c = t_and(h, e)
            w = st.heap[(loc, "v", k)]
            v = w if g is FALSE else ite(c, w, v)
            g = t_or(g, c)
        return v, g

    def dict_set(self, st, ref, key, val, node=None):
        loc = ref.args[0]
        same = FALSE
        for k, h, e in self.dict_like(st, ref, key):
            self.put(st, (loc, "v", k), ite(e, val, st.heap[(loc, "v", k)]))
            same = t_or(same, t_and(h, e))
        keys = st.heap[(loc, "#keys")]
        old = st.heap.get((loc, "g", key), FALSE)
        if old is FALSE:
            if key in keys:
                keys = tuple(k for k in keys if k is not key)
            self.put(st, (loc, "#keys"), keys + (key,))
        self.put(st, (loc, "g", key),
                 TRUE if same is FALSE else t_or(old, t_not(same)))
        self.put(st, (loc, "v", key), val)
        if self.record_prov:
            self.prov[(loc, "v", key)] = self.where()

    def dict_del(self, st, ref, key):
        loc = ref.args[0]
        for k, h, e in self.dict_like(st, ref, key):
            self.put(st, (loc, "g", k), t_and(h, t_not(e)))
        self.put(st, (loc, "g", key), FALSE)

    def prune(self, st, c):
        """simplify a condition under what holds at this point."""
        if c is TRUE or c is FALSE or st.abs is TRUE:
            return c
        if bdd_size(st.abs) > 1500:
            return c
        r = constrain(c, st.abs)
        return r

    # ------------------------------------------------------- positions
    def where(self):
        if not self.callstack:
            return "?"
        return self.callstack[-1]

    def at(self, node):
        if self.callstack and hasattr(node, "lineno"):
            f = self.frames[-1]
            self.callstack[-1] = (f.module.rel, f.fn.qual if f.fn else "<module>",
                                  node.lineno)

    def event(self, kind, st, **data):
        e = Event()
        e.kind, e.data, e.guard = kind, data, st.abs
        e.where = self.where()
        e.loops = tuple(self.loopstack)
        e.stack = tuple(self.callstack)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    # ---------------------------------------------------------- merging
    def merge(self, states):
        """join states that leave the same fork."""
        states = [s for s in states if not s.dead]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        union = FALSE
        for s in states:
            union = t_or(union, s.path)
        conds = [constrain(s.path, union) if union is not TRUE else s.path
                 for s in states]
        keys = set()
        for s in states:
            keys |= s.log
        r = State()
        r.heap = states[0].heap
        have = [{k[0] for k in keys if k[1] == "#exists" and k in s.heap}
                for s in states]        # r.heap is states[0].heap
        for k in keys:
            vals = [s.heap.get(k, UNDEF) for s in states]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                if v0 is not UNDEF:
                    r.heap[k] = v0
                continue
            cs = conds
            if UNDEF in vals and (k[1] in ("#a", "#items", "#keys") or (
                    self.meta[k[0]].kind == "inst")):
                # the object only exists on some of the joined paths
                new = any(k[0] in h for h in have)
                ok = [k[1] == "#exists" or k[0] in h or not new
                      if k[1][:1] != "#" else v is not UNDEF
                      for h, v in zip(have, vals)]
                if not all(ok) and any(ok):
                    vals = [v for v, o in zip(vals, ok) if o]
                    cs = [c for c, o in zip(conds, ok) if o]
            if k[1] == "#exists":
                r.heap[k] = TRUE
                continue
            r.heap[k] = self.merge_cell(k, vals, cs)
        r.log = keys
        r.path = union
        ab = FALSE
        for s in states:
            ab = t_or(ab, s.abs)
            if ab.op == "phi":
                ab = TRUE
                LOSS[0] += 1
                break
        r.abs = ab
        return r

    def merge_cell(self, k, vals, conds):
        name = k[1]
        if name == "#items":
            return self.merge_items(vals, conds)
        if name == "#keys":
            out = []
            for v in vals:
                if v is UNDEF:
                    continue
                for x in v:
                    if x not in out:
                        out.append(x)
            return tuple(out)
        if name == "g":
            vals = [FALSE if v is UNDEF else v for v in vals]
        elif name == "v":
            some = [v for v in vals if v is not UNDEF]
            if len(some) < len(vals):
                cc = [c for v, c in zip(vals, conds) if v is not UNDEF]
                return self.merge_vals(some, cc)
        return self.merge_vals(vals, conds)

    def merge_vals(self, vals, conds):
        r = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            r = ite(c, v, r)
        return r

    def merge_items(self, vals, conds):
        vs = [v if v is not UNDEF else () for v in vals]
        n = min(len(v) for v in vs)
        pre = 0
        while pre < n and all(v[pre] == vs[0][pre] for v in vs):
            pre += 1
        head = vs[0][:pre]
        if all(len(v) == len(vs[0]) for v in vs):
            out = []
            for j in range(pre, n):
                out.append((self.merge_vals([v[j][0] for v in vs], conds),
                            self.merge_vals([v[j][1] for v in vs], conds)))
            return head + tuple(out)
        out = []
        for v, c in zip(vs, conds):
            for g, x in v[pre:]:
                out.append((t_and(c, g), x))
        return head + tuple(out)

    def branch(self, c, st, fa, fb, values=False):
        """execute both arms of a condition and join."""
        c = self.prune(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a, b = st.fork(c), st.fork(t_not(c))
        if a.abs is FALSE and b.abs is not FALSE:
            return fb(st)
        if b.abs is FALSE and a.abs is not FALSE:
            return fa(st)
        va = vb = None
        try:
            va = fa(a)
        except Dead:
            a.kill()
        try:
            vb = fb(b)
        except Dead:
            b.kill()
        la, lb = not a.dead, not b.dead
        if not la and not lb:
            st.kill()
            raise Dead()
        if la and lb:
            if values:
                union = t_or(a.path, b.path)
                cc = constrain(a.path, union) if union is not TRUE else a.path
                v = ite(cc, va, vb)
            else:
                v = None
            st.become(self.merge([a, b]))
            return v
        if la:
            st.become(a)
            return va
        st.become(b)
        return vb

    # ---------------------------------------------------------- driver
    def load_all(self):
        st = self.st0
        for name in sorted(self.prog.modules):
            if name.startswith("qsonic"):
                self.load_module(st, name)

    def load_module(self, st, name):
        if name in self.modenv:
            return self.modenv[name]
        mod = self.prog.modules[name]
        env = self.alloc("env", name=name, module=mod, captured=True)
        self.modenv[name] = env
        self.put(st, (env.args[0], "__name__"), const(name))
        fr = Frame()
        fr.fn, fr.env, fr.module = None, env, mod
        self.frames.append(fr)
        self.callstack.append((mod.rel, "<module>", 0))
        try:
            self.exec_block(mod.tree.body, st, fr)
        except Dead:
            pass
        finally:
            self.frames.pop()
            self.callstack.pop()
        return env

    def run(self, modname, fname, args=(), kwargs=None):
        """interpret function `fname` of a loaded module; returns Result."""
        st = self.st0.clone()
        st.log = set()
        env = self.load_module(st, modname)
        f = st.heap[(env.args[0], fname)]
        self.raises = [[]]
        n0 = len(self.events)
        try:
            v = self.call(f, list(args), dict(kwargs or {}), st, None)
        except Dead:
            v = None
        return Result(self, v, st, self.raises[0], self.events[n0:])

    # ------------------------------------------------------ statements
    def exec_block(self, body, st, fr):
        for s in body:
            if st.dead:
                return
            self.steps += 1
            if self.steps > self.opts.get("max_steps", 3000000):
                raise AnalysisError("step budget exhausted")
            self.at(s)
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.event("unsupported", st, what=type(s).__name__)
                continue
            try:
                m(s, st, fr)
            except Dead:
                st.kill()
                return

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.name in self.prog.modules:
                self.load_module(st, a.name)
                if a.asname:
                    v = mk("mod", a.name)
                else:
                    v = mk("mod", top)
            else:
                v = mk("ext", canon_ext(a.name if a.asname else top))
            self.set_name(a.asname or top, v, st, fr)

    def s_ImportFrom(self, s, st, fr):
        base = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")
            if not fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            full = f"{base}.{a.name}"
            if full in self.prog.modules:
                self.load_module(st, full)
                v = mk("mod", full)
            elif base in self.prog.modules:
                env = self.load_module(st, base)
                if a.name == "*":
                    loc = env.args[0]
                    for k, val in list(st.heap.items()):
                        if k[0] == loc and not k[1].startswith("_"):
                            self.set_name(k[1], val, st, fr)
                    continue
                v = st.heap.get((env.args[0], a.name))
                if v is None:
                    v = mk("ext", full)
            else:
                v = mk("ext", canon_ext(full))
            self.set_name(a.asname or a.name, v, st, fr)

    def mk_fn(self, node, st, fr, cls=None, name=None):
        f = Fn()
        f.node, f.env, f.module, f.cls = node, fr.env, fr.module, cls
        f.name = name or getattr(node, "name", "<lambda>")
        pre = ""
        if cls is not None:
            pre = self.m(cls).name + "."
        elif fr.fn is not None:
            pre = fr.fn.qual + "."
        f.qual = pre + f.name
        a = node.args
        f.defaults = [self.box(self.ev(d, st, fr), st) for d in a.defaults]
        f.kwdefaults = [None if d is None else self.box(
            self.ev(d, st, fr), st) for d in a.kw_defaults]
        f.isgen = isinstance(node, ast.FunctionDef) and _is_generator(node)
        env = fr.env
        while env is not None:
            self.m(env).captured = True
            env = self.m(env).parent
        k = len(self.fns)
        v = mk("fn", k, f.qual)
        self.fns[k] = f
        return v

    def s_FunctionDef(self, s, st, fr):
        cls = fr.env if self.m(fr.env).kind == "class" else None
        v = self.mk_fn(s, st, fr, cls)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.set_name(s.name, v, st, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, v, st, fr):
        target = d.func if isinstance(d, ast.Call) else d
        if isinstance(target, ast.Attribute) and target.attr in (
                "setter", "deleter", "getter"):
            base = self.ev(target.value, st, fr)
            if base.op == "property":
                return mk("property", base.args[0],
                          v if target.attr == "setter" else base.args[1])
        dv = self.ev(target, st, fr)
        if dv.op == "ext":
            n = dv.args[0]
            if n == "property":
                return mk("property", v, NONE)
            if n == "staticmethod":
                return mk("staticm", v)
            if n == "classmethod":
                return mk("classm", v)
            if n.endswith("cached_property"):
                return mk("property", v, NONE)
            return v
        dv = self.ev(d, st, fr)
        if dv.op in ("ext", "call", "opaque"):
            return v
        return self.call(dv, [v], {}, st, d)

    def s_ClassDef(self, s, st, fr):
        bases, ext = [], []
        for b in s.bases:
            bv = self.ev(b, st, fr)
            if self.is_ref(bv, "class"):
                bases.append(bv)
            elif bv.op == "ext":
                ext.append(bv.args[0])
        c = self.alloc("class", name=s.name, parent=fr.env, module=fr.module,
                       bases=bases, extbase=ext, captured=True)
        f2 = Frame()
        f2.fn, f2.env, f2.module = fr.fn, c, fr.module
        self.frames.append(f2)
        try:
            self.exec_block(s.body, st, f2)
        finally:
            self.frames.pop()
        for d in s.decorator_list:
            dv = self.ev(d.func if isinstance(d, ast.Call) else d, st, fr)
            if dv.op == "ext" and dv.args[0].split(".")[-1] == "dataclass":
                self.dataclass_init(s, c, st, fr)
        self.set_name(s.name, c, st, fr)

    def dataclass_init(self, s, c, st, fr):
        args, defs, body, seen = [], [], [], False
        for a in s.body:
            if not (isinstance(a, ast.AnnAssign)
                    and isinstance(a.target, ast.Name)):
                if isinstance(a, ast.FunctionDef) and a.name == "__init__":
                    return
                continue
            nm, v = a.target.id, a.value
            value = ast.Name(id=nm, ctx=ast.Load())
            if isinstance(v, ast.Call) and any(
                    k.arg in ("default_factory", "default")
                    for k in v.keywords):
                k = [k for k in v.keywords
                     if k.arg in ("default_factory", "default")][0]
                v = k.value if k.arg == "default" else ast.Call(
                    func=k.value, args=[], keywords=[])
            args.append(ast.arg(arg=nm))
            if v is not None:
                defs.append(ast.Constant(value=None))
                fresh = not isinstance(v, ast.Constant)
                if fresh:
                    value = ast.IfExp(
                        test=ast.Compare(left=value, ops=[ast.Is()],
                                         comparators=[ast.Constant(
                                             value=None)]),
                        body=v, orelse=value)
                else:
                    defs[-1] = v
            body.append(ast.Assign(targets=[ast.Attribute(
                value=ast.Name(id="self", ctx=ast.Load()), attr=nm,
                ctx=ast.Store())], value=value))
        if any(isinstance(a, ast.FunctionDef) and a.name == "__post_init__"
               for a in s.body):
            body.append(ast.Expr(value=ast.Call(func=ast.Attribute(
                value=ast.Name(id="self", ctx=ast.Load()),
                attr="__post_init__", ctx=ast.Load()), args=[],
                keywords=[])))
        fn = ast.FunctionDef(
            name="__init__", args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg="self")] + args,
                kwonlyargs=[], kw_defaults=[], defaults=defs),
            body=body or [ast.Pass()], decorator_list=[])
        ast.copy_location(fn, s)
        ast.fix_missing_locations(fn)
        f2 = Frame()
        f2.fn, f2.env, f2.module = fr.fn, c, fr.module
        self.frames.append(f2)
        try:
            self.exec_block([fn], st, f2)
        finally:
            self.frames.pop()

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        fr.returns.append((st.clone(), v))
        st.kill()

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if len(s.targets) > 1 or not isinstance(s.targets[0],
                                                (ast.Tuple, ast.List)):
            v = self.box(v, st)
        for tg in s.targets:
            self.assign(tg, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.box(self.ev(s.value, st, fr), st),
                        st, fr)

    def s_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.ev(ast.Name(tg.id, ast.Load(), lineno=s.lineno,
                                   col_offset=0), st, fr)
            rhs = self.ev(s.value, st, fr)
            new = self.inplace(op, old, rhs, st, s)
            if new is not old:
                self.assign(tg, self.box(new, st), st, fr)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(tg.value, st, fr)
            old = self.getattr(base, tg.attr, st, s)
            rhs = self.ev(s.value, st, fr)
            new = self.inplace(op, old, rhs, st, s)
            self.setattr(base, tg.attr, self.box(new, st), st, s)
        elif isinstance(tg, ast.Subscript):
            base = self.lval(tg.value, st, fr)
            idx = self.ev_index(tg.slice, st, fr)
            rhs = self.ev(s.value, st, fr)
            self.aug_item(base, idx, op, rhs, st, s)

    def aug_item(self, base, idx, op, rhs, st, node):
        def leaf(b, st):
            old = self.getitem(b, idx, st, node)
            new = self.inplace(op, old, rhs, st, node)
            if self.is_arrayish(b, st):
                if self.is_view_of_loc(new):
                    return NONE
                self.setitem(b, idx, new, st, node)
            else:
                self.setitem(b, idx, self.box(new, st), st, node)
            return NONE
        self.lift1(base, leaf, st)

    def is_view_of_loc(self, v):
        return v.op == "view"

    def inplace(self, op, old, rhs, st, node):
        def leaf(o, st):
            if self.is_ref(o, "arr") or o.op == "view":
                c = self.val(o, st)
                new = self.binop(op, c, rhs, st, node)
                self.arr_write(o, self.val(new, st), st, node)
                return o
            if self.is_ref(o, "list"):
                m = self.m(o)
                if m.isset:
                    r = self.binop(op, o, rhs, st, node)
                    self.put(st, (o.args[0], "#items"), self.items(st, r))
                    return o
                if op == "Add":
                    its = self.iter_items(rhs, st, node)
                    self.put(st, (o.args[0], "#items"),
                             self.items(st, o) + tuple(its))
                    return o
            if self.is_ref(o, "dict") and op == "BitOr":
                self.models.dict_update(self, o, [rhs], {}, st, node)
                return o
            if self.is_ref(o, "inst"):
                f = self.find_attr_cls(o, "__i" + _dunder(op) + "__", st)
                if f is not None:
                    return self.call(self.bind(f, o), [rhs], {}, st, node)
            return self.binop(op, o, rhs, st, node)
        return self.lift1(old, leaf, st)

    def s_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        self.branch(c, st,
                    lambda x: self.exec_block(s.body, x, fr),
                    lambda x: self.exec_block(s.orelse, x, fr))

    def s_Match(self, s, st, fr):
        """as a chain of ifs (value, singleton, or, capture patterns)"""
        tmp = f"$match{s.lineno}"
        self.set_name(tmp, self.box(self.ev(s.subject, st, fr), st), st, fr)

        def test(p):
            nm = ast.Name(id=tmp, ctx=ast.Load())
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=nm, ops=[ast.Eq()],
                                   comparators=[p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=nm, ops=[ast.Is()], comparators=[
                    ast.Constant(value=p.value)]), []
            if isinstance(p, ast.MatchOr):
                ts = [test(q) for q in p.patterns]
                if any(x is None or x[1] for x in ts):
                    return None
                return ast.BoolOp(op=ast.Or(), values=[x[0] for x in ts]), []
            if isinstance(p, ast.MatchAs):
                inner = (ast.Constant(value=True), []) if p.pattern is None \
                    else test(p.pattern)
                if inner is None:
                    return None
                b = list(inner[1])
                if p.name:
                    b.append(ast.Assign(targets=[ast.Name(
                        id=p.name, ctx=ast.Store())], value=nm))
                return inner[0], b
            return None
        tail = []
        for c in reversed(s.cases):
            x = test(c.pattern)
            if x is None or (c.guard is not None and x[1]):
                self.event("unsupported", st, what="match pattern")
                names = {n.id for b in s.cases for y in b.body
                         for n in ast.walk(y) if isinstance(n, ast.Name)
                         and isinstance(n.ctx, ast.Store)}
                for n in sorted(names):
                    self.set_name(n, mk("opaque", "match"), st, fr)
                return
            cond = x[0] if c.guard is None else ast.BoolOp(
                op=ast.And(), values=[x[0], c.guard])
            tail = [ast.If(test=cond, body=x[1] + c.body, orelse=tail)]
        for n in tail:
            for q in ast.walk(n):
                if not hasattr(q, "lineno"):
                    ast.copy_location(q, s)
        self.exec_block(tail, st, fr)

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)

        def bad(x):
            self.do_raise(mk("excinst", "AssertionError"), x, fr, s)

        self.branch(c, st, lambda x: None, bad)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            v = self.current_exc(st, fr)
        else:
            v = self.ev(s.exc, st, fr)
        self.do_raise(v, st, fr, s)

    def current_exc(self, st, fr):
        v = st.heap.get((fr.env.args[0], "#exc"))
        return v if v is not None else mk("excinst", "RuntimeError")

    def exc_names(self, v):
        """class-name chain of an exception value or class."""
        if self.is_ref(v, "inst"):
            v = self.m(v).cls
        if self.is_ref(v, "class"):
            out = []
            for c in self.mro(v):
                out.append(self.m(c).name)
                for e in self.m(c).extbase:
                    out += _builtin_chain(e)
            return tuple(out)
        if v.op == "excinst":
            return tuple(_builtin_chain(v.args[0]))
        if v.op == "ext":
            return tuple(_builtin_chain(v.args[0]))
        if v.op == "anyexc":
            if len(v.args) > 1:
                return tuple(dict.fromkeys(
                    (v.args[1],) + tuple(_builtin_chain(v.args[1]))))
            return ("?",)
        return ("Exception", "BaseException")

    def do_raise(self, v, st, fr, node, implicit=False):
        for lf in [v] if v.op != "ite" else leafset(v):
            pass
        r = RaiseExit()
        if v.op == "ext":
            v = mk("excinst", v.args[0])
        if self.is_ref(v, "class"):
            v = self.call(v, [], {}, st, node)
        r.state, r.value, r.names = st.clone(), v, self.exc_names(v)
        r.where = self.where()
        r.stack = tuple(self.callstack)
        r.implicit = implicit
        self.raises[-1].append(r)
        self.event("raise", st, names=r.names, value=v)
        st.kill()
        raise Dead()

    def s_Break(self, s, st, fr):
        fr.loops[-1][0].append(st.clone())
        st.kill()

    def s_Continue(self, s, st, fr):
        fr.loops[-1][1].append(st.clone())
        st.kill()

    def s_Global(self, s, st, fr):
        fr.globals_decl = tuple(fr.globals_decl) + tuple(s.names)

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def s_Delete(self, s, st, fr):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.put(st, (fr.env.args[0], tg.id), UNDEF)
            elif isinstance(tg, ast.Subscript):
                b = self.lval(tg.value, st, fr)
                i = self.ev_index(tg.slice, st, fr)
                self.lift1(b, lambda x, q: self.delitem(x, i, q, tg), st)
            elif isinstance(tg, ast.Attribute):
                b = self.ev(tg.value, st, fr)
                self.lift1(b, lambda x, q: self.delattr1(x, tg.attr, q), st)
            else:
                self.event("unsupported", st, what="del")

    def delattr1(self, b, name, st):
        if b.op == "ref":
            self.put(st, (b.args[0], name), UNDEF)
        else:
            self.event("unsupported", st, what="del of an attribute")
        return NONE

    def delitem(self, b, i, st, node):
        if self.is_ref(b, "dict"):
            k = self.key(i, st)
            v, g = self.dict_get(st, b, k)
            g = self.prune(st, g)
            if g is FALSE and self.m(b).lazy is None:
                self.do_raise(mk("excinst", "KeyError"), st, self.frames[-1],
                              node, implicit=True)
            self.dict_del(st, b, k)
            return NONE
        if self.is_ref(b, "list"):
            its = list(self.items(st, b))
            ci = self.as_int(i)
            if ci is not None and all(g is TRUE for g, _ in its) and \
                    -len(its) <= ci < len(its):
                del its[ci]
                self.put(st, (b.args[0], "#items"), tuple(its))
                return NONE
        self.event("unsupported", st, what="del of an item")
        return NONE

    def s_With(self, s, st, fr):
        if s.items and isinstance(s.items[0].context_expr, ast.Call):
            f = self.ev(s.items[0].context_expr.func, st, fr)
            if f.op == "ext" and f.args[0] == "contextlib.suppress":
                body = s.body
                if len(s.items) > 1:
                    body = [ast.copy_location(ast.With(
                        items=s.items[1:], body=s.body), s)]
                el = s.items[0].context_expr.args
                h = ast.ExceptHandler(
                    type=ast.Tuple(elts=list(el), ctx=ast.Load()), name=None,
                    body=[ast.Pass()])
                tr = ast.Try(body=body, handlers=[h], orelse=[],
                             finalbody=[])
                ast.copy_location(tr, s)
                ast.fix_missing_locations(tr)
                return self.s_Try(tr, st, fr)
        entered = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            w = v
            if self.is_ref(v, "list") and self.m(v).gen:
                # @contextmanager generator: what it yields is bound; the
                # part after the yield has been analysed already
                its = self.items(st, v)
                w = its[0][1] if len(its) == 1 else mk(
                    "opaque", "contextmanager")
            if self.is_ref(v, "inst") and \
                    self.find_attr_cls(v, "__enter__", st) is not None:
                w = self.call_method(v, "__enter__", [], {}, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.box(w, st), st, fr)
            entered.append(v)
        guard_st = st.clone()
        self.exec_block(s.body, st, fr)
        for v in reversed(entered):
            if self.is_ref(v, "inst"):
                if not st.dead and self.find_attr_cls(
                        v, "__exit__", st) is not None:
                    self.call_method(v, "__exit__", [NONE, NONE, NONE], {},
                                     st, s)
            else:
                self.event("close", guard_st, obj=v, via="with")

    def s_Try(self, s, st, fr):
        entry = st.clone()
        n_ev = len(self.events)
        self.raises.append([])
        nret = len(fr.returns)
        nloop = [(len(a), len(b)) for a, b in fr.loops]
        try:
            try:
                self.exec_block(s.body, st, fr)
            except Dead:
                st.kill()
        finally:
            mine = self.raises.pop()
        outs = []
        catches = bool(s.handlers)
        # implicit failures: any external call of the body may raise
        ext = [e for e in self.events[n_ev:] if e.kind in (
            "extcall", "open", "fitswrite", "read", "abortable")]
        E = None
        if catches and ext:
            self.nexc += 1
            E = mk("exc", self.nexc)
            g = FALSE
            for e in ext:
                g = t_or(g, constrain(e.guard, entry.abs)
                         if entry.abs is not TRUE else e.guard)
            if g.op == "phi":
                g = TRUE
            E = t_and(E, g)
            self.excdeps[self.nexc] = ext
            if E is not FALSE:
                # success path excludes E
                if not st.dead:
                    st.path = t_and(st.path, t_not(E))
                    st.abs = _abs_and(st.abs, t_not(E))
                for lst, k0 in ((fr.returns, nret),):
                    for j in range(k0, len(lst)):
                        s1, v1 = lst[j]
                        s1.path = t_and(s1.path, t_not(E))
                        s1.abs = _abs_and(s1.abs, t_not(E))
                x = entry.fork(E)
                r = RaiseExit()
                r.state, r.value = x, mk("anyexc", self.nexc)
                r.names, r.where, r.implicit = ("?",), self.where(), True
                r.stack = tuple(self.callstack)
                mine.append(r)
        else:
            E = None
        if not st.dead and s.orelse:
            self.exec_block(s.orelse, st, fr)
        if not st.dead:
            outs.append(st.clone())
        remaining = mine
        for h in s.handlers:
            if h.type is None:
                names = None
            else:
                hv = self.ev(h.type, entry.clone(), fr)
                names = set()
                for x in (hv.args if hv.op == "tuple" else (hv,)):
                    ns = self.exc_names(x)
                    names.add(ns[0])
            taken, rest = [], []
            for r in remaining:
                if names is None or names & set(r.names) or (
                        r.names == ("?",) and (
                            names & {"Exception", "BaseException"})):
                    taken.append(r)
                elif r.names == ("?",):
                    # may or may not be of this class
                    self.nexc += 1
                    a = mk("exc", self.nexc)
                    self.excdeps[self.nexc] = self.excdeps.get(
                        r.value.args[0], []) if r.value.op == "anyexc" else []
                    r1, r2 = RaiseExit(), RaiseExit()
                    for q, c in ((r1, a), (r2, t_not(a))):
                        q.state = r.state.fork(c)
                        q.value, q.names, q.where, q.stack, q.implicit = \
                            r.value, r.names, r.where, r.stack, r.implicit
                    if r.value.op == "anyexc" and len(names) == 1:
                        r1.value = mk("anyexc", r.value.args[0],
                                      next(iter(names)))
                    taken.append(r1)
                    rest.append(r2)
                else:
                    rest.append(r)
            remaining = rest
            taken = [r for r in taken if not r.state.dead]
            if not taken:
                continue
            conds_states = [r.state for r in taken]
            # join the exception values
            for r in taken:
                self.put(r.state, (fr.env.args[0], "#exc"), r.value)
                if h.name:
                    self.put(r.state, (fr.env.args[0], h.name), r.value)
            hs = self.merge(conds_states)
            if hs is None:
                continue
            self.event("except", hs, names=tuple(sorted(names or ["*"])))
            try:
                self.exec_block(h.body, hs, fr)
            except Dead:
                hs.kill()
            if not hs.dead:
                outs.append(hs)
        if s.finalbody:
            def fin(x):
                try:
                    self.exec_block(s.finalbody, x, fr)
                except Dead:
                    x.kill()
            for o in outs:
                fin(o)
            for r in remaining:
                fin(r.state)
            for j in range(nret, len(fr.returns)):
                fin(fr.returns[j][0])
        self.raises[-1].extend(r for r in remaining if not r.state.dead)
        mst = self.merge(outs)
        if mst is None:
            st.kill()
            raise Dead()
        st.become(mst)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        self.loop_over(it, st, fr, s,
                       lambda v, x: self.assign(s.target, v, x, fr),
                       s.body, s.orelse)

    def loop_over(self, it, st, fr, node, bind, body, orelse=()):
        def leaf(v, st):
            its = self.iter_items(v, st, node)
            dom = self.dom_of(v, st)
            self.run_loop(its, dom, st, fr, node, bind, body, orelse)
            return NONE
        if it.op == "ite":
            self.lift1(it, leaf, st)
        else:
            leaf(it, st)

    def dom_of(self, v, st):
        if v.op == "ref":
            m = self.m(v)
            if m.kind in ("list", "dict"):
                return v
        return v

    def run_loop(self, its, dom, st, fr, node, bind, body, orelse):
        brks = []
        self.loopstack.append((self.where(), dom))
        try:
            for g, v in its:
                if st.dead:
                    break
                g = self.prune(st, g)
                if g is FALSE:
                    continue
                if g is TRUE:
                    self.loop_body(v, st, fr, bind, body, brks)
                    continue
                a, b = st.fork(g), st.fork(t_not(g))
                self.loop_body(v, a, fr, bind, body, brks)
                mm = self.merge([a, b])
                if mm is None:
                    st.kill()
                else:
                    st.become(mm)
        finally:
            self.loopstack.pop()
        if not st.dead and orelse:
            self.exec_block(orelse, st, fr)
        outs = ([st.clone()] if not st.dead else []) + brks
        mm = self.merge(outs)
        if mm is None:
            st.kill()
            raise Dead()
        st.become(mm)

    def loop_body(self, v, st, fr, bind, body, brks):
        conts = []
        fr.loops.append((brks, conts))
        try:
            try:
                bind(v, st)
                self.exec_block(body, st, fr)
            except Dead:
                st.kill()
        finally:
            fr.loops.pop()
        mm = self.merge(([st.clone()] if not st.dead else []) + conts) \
            if conts else None
        if mm is not None:
            st.become(mm)

    def s_While(self, s, st, fr):
        brks = []
        outs = []
        self.loopstack.append((self.where(), mk("while", s.lineno)))
        dom = mk("whiledom", fr.module.name, s.lineno)
        lim = self.opts.get("lens", {}).get(dom, self.k)
        n = max(self.opts.get("while_k", 400), lim)
        unknown = 0
        try:
            for i in range(n):
                c = self.prune(st, self.truth(self.ev(s.test, st, fr), st))
                if c is FALSE:
                    break
                if c is not TRUE:
                    unknown += 1
                    if unknown > lim:
                        # iterations left out: valuations that need them
                        # are excluded (see sepval.decide)
                        self.assumed.append((dom, lim, t_and(st.path, c)))
                        break
                    x = st.fork(t_not(c))
                    if not x.dead:
                        outs.append(x)
                    st.path = t_and(st.path, c)
                    st.abs = _abs_and(st.abs, c)
                self.loop_body(None, st, fr, lambda v, x: None, s.body, brks)
                if st.dead:
                    break
        finally:
            self.loopstack.pop()
        if not st.dead:
            outs.append(st.clone())
        outs = [o for o in outs if not o.dead]
        if s.orelse:
            for o in outs:
                try:
                    self.exec_block(s.orelse, o, fr)
                except Dead:
                    o.kill()
        mm = self.merge(outs + brks)
        if mm is None:
            st.kill()
            raise Dead()
        st.become(mm)

    def iter_items(self, v, st, node):
        """[(guard, value)] members of an iterable."""
        if v.op == "ite":
            out = []
            seen = {}
            for lits, lf in t.leaves(v):
                c = t.conj([a if p else t_not(a) for a, p in lits])
                seen[lf] = t_or(seen.get(lf, FALSE), c)
            for lf, c in seen.items():
                for g, x in self.iter_items(lf, st, node):
                    out.append((t_and(c, g), x))
            return out
        if v.op == "ref":
            m = self.m(v)
            if m.kind == "list":
                its = [(self.prune(st, g), x) for g, x in self.items(st, v)]
                if m.gen:
                    self.put(st, (v.args[0], "#items"), ())
                return its
            if m.kind == "dict":
                return [(g, k) for k, g in self.dict_keys(st, v)]
            if m.kind == "inst":
                if self.find_attr_cls(v, "__iter__", st) is not None:
                    r = self.call_method(v, "__iter__", [], {}, st, node)
                    if r is not v:
                        return self.iter_items(r, st, node)
                return self.k_items(v, st)
            if m.kind == "arr":
                return self.k_items(v, st)
        if v.op == "tuple":
            return [(TRUE, x) for x in v.args]
        if v.op == "dview":
            d, what = v.args
            out = []
            if d.op == "ref" and self.m(d).kind == "dict":
                for k, g in self.dict_keys(st, d):
                    val = self.dict_get(st, d, k)[0]
                    out.append((g, {"keys": k, "values": val,
                                    "items": tup([k, val])}[what]))
                return out
        if v.op == "const" and isinstance(cval(v), (str, bytes)):
            return [(TRUE, const(c)) for c in cval(v)]
        if v.op == "range":
            return self.range_items(v, st)
        if v.op == "lazyzip":
            cols = [self.iter_items(x, st, node) for x in v.args]
            n = min(len(c) for c in cols) if cols else 0
            out = []
            for j in range(n):
                g = t.conj([c[j][0] for c in cols])
                out.append((g, tup([c[j][1] for c in cols])))
            return out
        if v.op == "lazyenum":
            its = self.iter_items(v.args[0], st, node)
            out = []
            pos = v.args[1]
            for g, x in its:
                out.append((g, tup([norm(pos), x])))
                if g is TRUE:
                    pos = mk("add", pos, const(1))
                else:
                    pos = ite(g, norm(mk("add", pos, const(1))), norm(pos))
            return out
        if v.op == "lazyrev":
            return list(reversed(self.iter_items(v.args[0], st, node)))
        return self.k_items(v, st)

    def range_items(self, v, st):
        a, b, c = [norm(self.val(x, st)) for x in v.args]
        ia, ib, ic = self.as_int(a), self.as_int(b), self.as_int(c)
        if None not in (ia, ib, ic) and ic != 0:
            r = range(ia, ib, ic)
            if len(r) <= RANGE_LIMIT:
                return [(TRUE, const(x)) for x in r]
            n = self.unrolled(mk("range", a, b, c), st)
            return [(TRUE, const(x)) for x in list(r)[:n]]
        d = norm(mk("sub", b, a))
        di = self.as_int(d)
        if di is not None and ic is not None and ic != 0:
            r = range(0, di, ic)
            if len(r) <= RANGE_LIMIT:
                return [(TRUE, norm(mk("add", a, const(x)))) for x in r]
        n = self.unrolled(mk("range", a, b, c), st)
        out = []
        for j in range(n):
            out.append((TRUE, norm(mk("add", a, mk("mul", const(j), c)))))
        return out

    def unrolled(self, dom, st):
        """number of members taken of a domain of unknown length"""
        n = self.opts.get("lens", {}).get(dom, self.k)
        p = getattr(st, "path", TRUE)
        if (dom, n, p) not in self.assumed:
            self.assumed.append((dom, n, p))
        return n

    def k_items(self, v, st):
        x = self.val(v, st)
        dom = norm(x)
        if dom.op == "listv":
            return [(TRUE, y) for y in dom.args]
        n = self.k
        ln = self.as_int(norm(mk("sizeof", dom)))
        if ln is not None and ln <= RANGE_LIMIT and t.contains(
                dom, lambda y: y.op == "listv") and t.ndim(dom) == 1:
            n = ln
        else:
            n = self.unrolled(dom, st)
        out = []
        for j in range(n):
            e = self.elem_of(v, dom, j, st)
            out.append((TRUE, e))
        return out

    def elem_of(self, v, dom, j, st):
        if (self.is_ref(v, "arr") or v.op == "view") and (
                _ndim(dom) == 2 or self.models.is_struct(dom)):
            return mk("view", v, const(j))
        return norm(mk("idx", dom, const(j)))

    # ------------------------------------------------------ assignments
    def box(self, v, st):
        """give array values an identity when they are stored."""
        if v.op == "ite":
            if v._kind == "arr" or kind(v) == "arr":
                if any(x.op in ("ref", "view", "fn", "tuple")
                       or x is NONE for x in leafset(v)):
                    if kind(v.args[0]) == "scal" or True:
                        return v
                return self.new_arr(st, v)
            return v
        if v.op in ("const", "num", "ref", "view", "tuple", "fn", "ext",
                    "mod", "undef", "sym"):
            if v.op == "sym" and kind(v) == "arr":
                return self.new_arr(st, v)
            return v
        if kind(v) == "arr":
            return self.new_arr(st, v)
        return v

    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            self.set_name(tg.id, v, st, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                its = self.iter_items(v, st, tg)
                i = star[0]
                tail = n - i - 1
                vals = [x for _, x in its]
                for e, x in zip(tg.elts[:i], vals[:i]):
                    self.assign(e, self.box(x, st), st, fr)
                mid = vals[i:len(vals) - tail] if tail else vals[i:]
                self.assign(tg.elts[i].value, self.new_list(st, mid), st, fr)
                for e, x in zip(tg.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(e, self.box(x, st), st, fr)
                return
            for e, x in zip(tg.elts, self.unpack(v, n, st, tg)):
                self.assign(e, self.box(x, st), st, fr)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, st, fr)
            self.setattr(b, tg.attr, v, st, tg)
        elif isinstance(tg, ast.Subscript):
            b = self.lval(tg.value, st, fr)
            i = self.ev_index(tg.slice, st, fr)
            self.setitem(b, i, v, st, tg)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, fr)

    def unpack(self, v, n, st, node):
        if v.op == "ite":
            lv = leafset(v)
            if all(x.op == "tuple" and len(x.args) == n for x in lv):
                return [t.lift(lambda y, j=j: y.args[j], [v])
                        for j in range(n)]
            if any(x.op in ("ref", "tuple", "dview", "range") for x in lv):
                parts = {}
                for x in lv:
                    parts[x] = self.unpack(x, n, st, node)
                return [t.lift(lambda y, j=j: parts[y][j], [v])
                        for j in range(n)]
        if v.op == "tuple" and len(v.args) == n:
            return list(v.args)
        if v.op == "ref" and self.m(v).kind in ("list", "dict"):
            its = self.iter_items(v, st, node)
            if len(its) == n:
                return [x for _, x in its]
        if v.op in ("dview", "range", "lazyzip", "lazyenum", "lazyrev"):
            its = self.iter_items(v, st, node)
            if len(its) == n:
                return [x for _, x in its]
        x = norm(self.val(v, st))
        if x.op == "tuple" and len(x.args) == n:
            return list(x.args)
        if x.op == "call" and x.args[0] == "np.searchsorted" and \
                len(x.args) >= 3 and x.args[2].op == "listv" and \
                len(x.args[2].args) == n:
            return [norm(mk("call", "np.searchsorted", x.args[1], y,
                            *x.args[3:])) for y in x.args[2].args]
        if (self.is_ref(v, "arr") or v.op == "view") and _ndim(x) == 2:
            return [mk("view", v, const(j)) for j in range(n)]
        return [norm(mk("idx", x, const(j))) for j in range(n)]

    def set_name(self, name, v, st, fr):
        env = fr.env
        if name in fr.globals_decl:
            env = self.modenv[fr.module.name]
        elif name in fr.nonlocals:
            e = self.m(env).parent
            while e is not None:
                if (e.args[0], name) in st.heap:
                    env = e
                    break
                e = self.m(e).parent
        self.put(st, (env.args[0], name), v)

    def lookup(self, name, st, fr):
        env = fr.env
        first = True
        while env is not None:
            m = self.m(env)
            if first or m.kind != "class":
                v = st.heap.get((env.args[0], name))
                if v is not None and v is not UNDEF:
                    return v
            first = False
            env = m.parent
        menv = self.modenv.get(fr.module.name)
        if menv is not None:
            v = st.heap.get((menv.args[0], name))
            if v is not None and v is not UNDEF:
                return v
        if name in self.models.DRIVER_BUILTINS and \
                fr.module.rel.startswith("<"):
            return mk("ext", "$" + name)
        if name in BUILTINS or name in BUILTIN_EXC:
            return mk("ext", name)
        if name == "__file__" or name == "__name__":
            return const(fr.module.name)
        self.event("unbound", st, name=name)
        return mk("opaque", f"unbound:{name}")

    # ------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.event("unsupported", st, what=type(e).__name__)
            return mk("opaque", f"unsupported:{type(e).__name__}")
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return mk("ellipsis")
        return const(e.value)

    def e_Name(self, e, st, fr):
        v = self.lookup(e.id, st, fr)
        if v.op == "ite" and UNDEF in leafset(v):
            # not assigned on some of the paths that lead here
            def cond(x):
                if x.op != "ite":
                    return TRUE if x is UNDEF else FALSE
                return ite(x.args[0], cond(x.args[1]), cond(x.args[2]))

            def strip(x):
                if x.op != "ite":
                    return x
                a, b = strip(x.args[1]), strip(x.args[2])
                if a is UNDEF:
                    return b
                return a if b is UNDEF else ite(x.args[0], a, b)
            self.branch(cond(v), st, lambda s: self.do_raise(
                mk("excinst", "UnboundLocalError"), s, fr, e,
                implicit=True), lambda s: None)
            return strip(v)
        return v

    def e_NamedExpr(self, e, st, fr):
        v = self.box(self.ev(e.value, st, fr), st)
        self.assign(e.target, v, st, fr)
        return v

    def e_Tuple(self, e, st, fr):
        return tup(self.ev_list(e.elts, st, fr))

    def ev_list(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += [v for _, v in self.iter_items(
                    self.ev(x.value, st, fr), st, x)]
            else:
                out.append(self.box(self.ev(x, st, fr), st))
        return out

    def e_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            its = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    its += self.iter_items(self.ev(x.value, st, fr), st, x)
                else:
                    its.append((TRUE, self.box(self.ev(x, st, fr), st)))
            return self.new_list(st, [v for _, v in its],
                                 [g for g, _ in its])
        return self.new_list(st, self.ev_list(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        r = self.new_list(st, (), isset=True)
        for v in self.ev_list(e.elts, st, fr):
            self.models.set_add(self, r, v, st)
        return r

    def e_Dict(self, e, st, fr):
        r = self.new_dict(st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st, fr)
                self.models.dict_update(self, r, [src], {}, st, e)
            else:
                kk = self.key(self.ev(k, st, fr), st)
                self.dict_set(st, r, kk, self.box(self.ev(v, st, fr), st))
        return r

    def key(self, v, st):
        return norm(self.val(v, st))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(str(p.value)))
            else:
                v = norm(self.val(self.ev(p.value, st, fr), st))
                if p.format_spec is not None:
                    sp = self.ev(p.format_spec, st, fr)
                    v = fmt_const(v, sp) or mk("fmt", v, sp)
                parts.append(v)
        return fold_str(parts)

    def e_FormattedValue(self, e, st, fr):
        return fold_str([norm(self.val(self.ev(e.value, st, fr), st))])

    def e_Lambda(self, e, st, fr):
        return self.mk_fn(e, st, fr)

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.ev(e.test, st, fr), st)
        return self.branch(
            c, st, lambda x: self.ev(e.body, x, fr),
            lambda x: self.ev(e.orelse, x, fr), values=True)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)

        def go(i, st):
            v = self.ev(e.values[i], st, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, st)
            if is_and:
                short = v if not is_boolean(v) else FALSE
                return self.branch(c, st, lambda x: go(i + 1, x),
                                   lambda x: short, values=True)
            short = v if not is_boolean(v) else TRUE
            return self.branch(c, st, lambda x: short,
                               lambda x: go(i + 1, x), values=True)
        return go(0, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        o = type(e.op).__name__
        if o == "Not":
            return t_not(self.truth(v, st))
        x = self.val(v, st)
        if o == "USub":
            if x.op == "const" and isinstance(cval(x), (int, float)):
                return const(-cval(x))
            return mk("neg", x)
        if o == "Invert":
            n = norm(x)
            if is_boolean(n):
                return t_not(n)
            return mk("invert", x)
        return x

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        # object operands
        for x in (a, b):
            if x.op == "ite" and any(
                    y.op in ("ref", "fn", "tuple") and not (
                        y.op == "ref" and self.m(y).kind == "arr")
                    for y in leafset(x)):
                if x is a:
                    return self.lift1(
                        a, lambda y, s: self.binop(op, y, b, s, node), st)
                return self.lift1(
                    b, lambda y, s: self.binop(op, a, y, s, node), st)
        if self.is_ref(a, "list") or self.is_ref(b, "list"):
            r = self.models.list_binop(self, op, a, b, st, node)
            if r is not None:
                return r
        if a.op == "tuple" and b.op == "tuple" and op == "Add":
            return tup(list(a.args) + list(b.args))
        if a.op == "tuple" and op == "Mult" and self.as_int(b) is not None:
            return tup(list(a.args) * self.as_int(b))
        if self.is_ref(a, "dict") and self.is_ref(b, "dict") and \
                op == "BitOr":
            r = self.new_dict(st)
            self.models.dict_update(self, r, [a], {}, st, node)
            self.models.dict_update(self, r, [b], {}, st, node)
            return r
        if self.is_ref(a, "inst"):
            f = self.find_attr_cls(a, f"__{_dunder(op)}__", st)
            if f is not None:
                return self.call(self.bind(f, a), [b], {}, st, node)
        x, y = self.val(a, st), self.val(b, st)
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        if op in ("BitAnd", "BitOr", "BitXor"):
            nx, ny = norm(x), norm(y)
            bx, by = is_boolean(nx), is_boolean(ny)
            if bx and by:
                if op == "BitAnd":
                    return t_and(nx, ny)
                if op == "BitOr":
                    return t_or(nx, ny)
                return ite(nx, t_not(ny), ny)
        o = _BIN.get(op, op.lower())
        if x.op == "const" and y.op == "const":
            r = _fold_const(op, cval(x), cval(y))
            if r is not None:
                return r
        if op == "Add" and (t._is_nonnum(x) or t._is_nonnum(y)) and \
                x.op != "tuple":
            return fold_str([x, y]) if (
                _strish(x) or _strish(y)) else mk("add", x, y)
        if op == "Mod" and x.op == "const" and isinstance(cval(x), str):
            return mk("call", "%", x, y)
        return mk(o, x, y)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = TRUE
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt, st, fr)
            c = self.compare(type(op).__name__, left, right, st, e)
            res = c if res is TRUE else t_and(res, c)
            left = right
        return res

    def compare(self, op, a, b, st, node):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            return t_not(r) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st, node)
            return t_not(r) if op == "NotIn" else r
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b, st)
            return t_not(r) if op == "NotEq" else r
        if any(self.is_ref(x, "list") and self.m(x).isset for x in (a, b)):
            r = self.models.set_compare(self, op, a, b, st)
            if r is not None:
                return r
        x, y = self.val(a, st), self.val(b, st)
        o = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op]
        if x.op == "const" and y.op == "const":
            try:
                p, q = cval(x), cval(y)
                return const({"lt": p < q, "le": p <= q, "gt": p > q,
                              "ge": p >= q}[o])
            except TypeError:
                pass
        return self.cond(mk(o, x, y))

    def cond(self, c):
        c = norm(c)
        if c.op == "blow":
            return mk("truth", c)
        return c

    def is_same(self, a, b, st):
        def leafcmp(x, y):
            if x is y:
                return TRUE
            for u, v in ((x, y), (y, x)):
                if u is NONE:
                    if v.op in ("ref", "view", "fn", "const", "num", "tuple",
                                "ext", "poly", "full", "bound", "fstr",
                                "excinst", "partial", "mod", "listv",
                                "comm"):
                        return FALSE
                    return self.cond(mk("isnone", v))
                if u.op == "const" and isinstance(cval(u), bool) and \
                        is_boolean(v):
                    return v if cval(u) else t_not(v)
            objs = ("ref", "fn", "const", "ext", "tuple", "bound", "mod")
            if x.op in objs and y.op in objs:
                return FALSE
            if x.op == "view" or y.op == "view":
                return FALSE
            p, q = sorted((x, y), key=lambda z: z.id)
            return mk("is", p, q)
        return t.lift(leafcmp, [a, b])

    def equal(self, a, b, st):
        def conv(v):
            if v.op == "ite":
                return v
            return v

        def leafcmp(x, y):
            if x is y:
                return TRUE
            rx = x.op in ("ref", "fn", "bound") and not self.is_ref(x, "arr")
            ry = y.op in ("ref", "fn", "bound") and not self.is_ref(y, "arr")
            if rx or ry:
                if (self.is_ref(x, "list") or x.op in ("tuple", "listv")) and (
                        self.is_ref(y, "list") or y.op in ("tuple", "listv")):
                    return self.seq_equal(x, y, st)
                if rx and ry:
                    if self.is_ref(x, "inst") and self.find_attr_cls(
                            x, "__eq__", st) is not None:
                        return self.truth(self.call_method(
                            x, "__eq__", [y], {}, st, None), st)
                    return mk("eq", *sorted((x, y), key=lambda z: z.id)) \
                        if self.is_ref(x, "dict") else FALSE
                if y is NONE or x is NONE:
                    return FALSE
                o = y if rx else x
                r = x if rx else y
                if o.op in ("const", "num", "poly", "tuple") or \
                        is_boolean(o):
                    return FALSE
                p, q = sorted((r, o), key=lambda z: z.id)
                return mk("eq", p, q)
            x, y = self.val(x, st), self.val(y, st)
            return self.cond(mk("eq", x, y))
        return t.lift(leafcmp, [a, b])

    def seq_equal(self, x, y, st):
        xs = self.iter_items(x, st, None)
        ys = self.iter_items(y, st, None)
        if len(xs) != len(ys):
            return FALSE
        r = TRUE
        for (g, u), (h, v) in zip(xs, ys):
            r = t_and(r, self.equal(u, v, st))
        return r

    def contains(self, cont, x, st, node):
        def leaf(c, st):
            if c.op == "dview" and c.args[1] == "keys":
                c = c.args[0]
            if self.is_ref(c, "dict"):
                k = self.key(x, st)
                r = st.heap.get((c.args[0], "g", k), FALSE)
                for k2, g in self.dict_keys(st, c):
                    if k2 is not k:
                        r = t_or(r, t_and(g, self.equal(k2, k, st)))
                return r
            if self.is_ref(c, "list") or c.op in ("tuple", "listv", "dview",
                                                  "range"):
                if c.op == "range":
                    pass
                else:
                    r = FALSE
                    save = st.heap.get((c.args[0], "#items")) \
                        if c.op == "ref" else None
                    for g, y in self.iter_items(c, st, node):
                        r = t_or(r, t_and(g, self.equal(y, x, st)))
                    if save is not None and self.m(c).gen:
                        pass
                    return r
            if self.is_ref(c, "inst") and self.find_attr_cls(
                    c, "__contains__", st) is not None:
                return self.truth(self.call_method(
                    c, "__contains__", [x], {}, st, node), st)
            if c.op == "const" and isinstance(cval(c), str):
                y = norm(self.val(x, st))
                if y.op == "const" and isinstance(cval(y), str):
                    return const(cval(y) in cval(c))
            if c.op == "range":
                lo, hi, step = c.args
                if step is const(1):
                    v = self.val(x, st)
                    return t_and(self.cond(mk("ge", v, lo)),
                                 self.cond(mk("lt", v, hi)))
            return mk("in", norm(self.deep(x, st)), norm(self.deep(c, st)))
        return self.lift1(cont, leaf, st)

    def truth(self, v, st):
        if v is TRUE or v is FALSE:
            return v

        def leaf(x):
            if x.op == "ref":
                m = self.m(x)
                if m.kind == "list":
                    r = FALSE
                    for g, _ in self.items(st, x):
                        r = t_or(r, g)
                    return r
                if m.kind == "dict":
                    r = FALSE
                    for k, g in self.dict_keys(st, x):
                        r = t_or(r, g)
                    return r
                if m.kind == "arr":
                    return self.cond(mk("truth", self.val(x, st)))
                if m.kind == "inst":
                    f = self.find_attr_cls(x, "__bool__", st)
                    if f is not None:
                        return self.truth(self.call_method(
                            x, "__bool__", [], {}, st, None), st)
                    f = self.find_attr_cls(x, "__len__", st)
                    if f is not None:
                        return self.truth(self.call_method(
                            x, "__len__", [], {}, st, None), st)
                return TRUE
            if x.op in ("fn", "bound", "ext", "mod", "partial", "excinst",
                        "anyexc", "property", "comm"):
                return TRUE
            if x.op == "dview":
                return leaf(x.args[0])
            if x.op == "view":
                return self.cond(mk("truth", self.val(x, st)))
            if x.op == "listv":
                return const(bool(x.args))
            if x.op == "undef":
                return FALSE
            return self.cond(mk("truth", x))
        if v.op == "ite":
            return t.lift(leaf, [v])
        return leaf(v)

    # comprehension / generator expressions
    def _comp(self, e, st, fr, emit):
        env = self.alloc("env", parent=fr.env, module=fr.module)
        f2 = Frame()
        f2.fn, f2.env, f2.module = fr.fn, env, fr.module
        f2.cls = getattr(fr, "cls", None)
        f2.selfv = getattr(fr, "selfv", None)
        f2.globals_decl = fr.globals_decl

        def go(i, st):
            if i == len(e.generators):
                emit(st, f2)
                return
            g = e.generators[i]
            it = self.ev(g.iter, st, f2 if i else fr)

            def each(v, st):
                its = self.iter_items(v, st, e)
                self.loopstack.append((self.where(), self.dom_of(v, st)))
                try:
                    for gd, x in its:
                        gd = self.prune(st, gd)
                        if gd is FALSE:
                            continue

                        def one(s, x=x):
                            self.assign(g.target, x, s, f2)

                            def tests(j, s):
                                if j == len(g.ifs):
                                    go(i + 1, s)
                                    return
                                c = self.truth(self.ev(g.ifs[j], s, f2), s)
                                self.branch(c, s,
                                            lambda y: tests(j + 1, y),
                                            lambda y: None)
                            tests(0, s)
                        self.branch(gd, st, one, lambda y: None)
                finally:
                    self.loopstack.pop()
                return NONE
            self.lift1(it, each, st)
        self.frames.append(f2)
        self.callstack.append(self.where())
        try:
            go(0, st)
        finally:
            self.frames.pop()
            self.callstack.pop()
        if not self.m(env).captured:
            self.drop_env(st, env)

    def drop_env(self, st, env):
        loc = env.args[0]
        for k in [k for k in st.log if k[0] == loc]:
            st.heap.pop(k, None)
            st.log.discard(k)

    def e_ListComp(self, e, st, fr, gen=False, isset=False):
        r = self.new_list(st, (), gen=gen, isset=isset)

        def emit(s, f2):
            v = self.box(self.ev(e.elt, s, f2), s)
            if isset:
                self.models.set_add(self, r, v, s)
            else:
                self.put(s, (r.args[0], "#items"),
                         self.items(s, r) + ((TRUE, v),))
        self._comp(e, st, fr, emit)
        return r

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr, gen=True)

    def e_SetComp(self, e, st, fr):
        return self.e_ListComp(e, st, fr, isset=True)

    def e_DictComp(self, e, st, fr):
        r = self.new_dict(st)

        def emit(s, f2):
            k = self.key(self.ev(e.key, s, f2), s)
            self.dict_set(s, r, k, self.box(self.ev(e.value, s, f2), s))
        self._comp(e, st, fr, emit)
        return r

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.box(
            self.ev(e.value, st, fr), st)
        r = self.frame_yield(fr)
        self.put(st, (r.args[0], "#items"),
                 self.items(st, r) + ((TRUE, v),))
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        r = self.frame_yield(fr)
        its = self.iter_items(v, st, e)
        self.put(st, (r.args[0], "#items"),
                 self.items(st, r) + tuple(its))
        return NONE

    def frame_yield(self, fr):
        return fr.yields

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        def p(x):
            return NONE if x is None else norm(self.val(
                self.ev(x, st, fr), st))
        return mk("slice", p(e.lower), p(e.upper), p(e.step))

    def ev_index(self, e, st, fr):
        if isinstance(e, ast.Tuple):
            return tup([self.ev_index(x, st, fr) for x in e.elts])
        v = self.ev(e, st, fr)
        return v

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev_index(e.slice, st, fr)
        return self.getitem(b, i, st, e)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.getattr(b, e.attr, st, e)

    # lvalue base: keeps views for nested stores, boxes plain terms
    def lval(self, e, st, fr):
        if isinstance(e, ast.Subscript):
            b = self.lval(e.value, st, fr)
            i = self.ev_index(e.slice, st, fr)

            def leaf(x, s):
                if self.is_arrayish(x, s):
                    return mk("view", x, self.index_val(i, s))
                v = self.getitem(x, i, s, e)
                if self.needs_box(v):
                    nb = self.new_arr(s, v)
                    self.setitem(x, i, nb, s, e)
                    return nb
                return v
            return self.lift1(b, leaf, st)
        v = self.ev(e, st, fr)
        if self.needs_box(v):
            nb = self.new_arr(st, v)
            if isinstance(e, ast.Name):
                self.set_name(e.id, nb, st, fr)
            elif isinstance(e, ast.Attribute):
                self.setattr(self.ev(e.value, st, fr), e.attr, nb, st, e)
            return nb
        return v

    def needs_box(self, v):
        if v.op == "ite":
            return not any(x.op in ("ref", "view") for x in leafset(v))
        return v.op not in ("ref", "view", "ext", "mod", "fn", "undef")

    def is_arrayish(self, v, st):
        return v.op == "view" or self.is_ref(v, "arr")

    # ---------------------------------------------------- array values
    def val(self, v, st):
        """current pure value of array references / views."""
        o = v.op
        if o == "ref":
            m = self.meta[v.args[0]]
            if m.kind == "arr":
                return st.heap[(v.args[0], "#a")]
            if m.kind in ("list", "dict"):
                return self.deep(v, st)
            return v
        if o == "view":
            return norm_idx_raw(self.val(v.args[0], st), v.args[1])
        if o == "ite":
            if any(x.op in ("ref", "view", "tuple") for x in leafset(v)):
                return t.lift(lambda x: self.val(x, st), [v])
            return v
        if o == "tuple":
            if any(x.op in ("ref", "view", "ite", "tuple") for x in v.args):
                return tup([self.val(x, st) for x in v.args])
            return v
        if o == "dview":
            return self.deep(v, st)
        if o in ("range", "lazyzip", "lazyenum", "lazyrev"):
            return self.deep(v, st)
        return v

    def deep(self, v, st, depth=0):
        """pure structural value of lists/dicts for external calls."""
        if depth > 16:
            return mk("opaque", "deep")
        o = v.op
        if o == "ref":
            m = self.meta[v.args[0]]
            if m.kind == "arr":
                return st.heap[(v.args[0], "#a")]
            if m.kind == "list":
                its = self.items(st, v)
                if all(g is TRUE for g, _ in its):
                    xs = [self.deep(x, st, depth + 1) for _, x in its]
                    if m.isset:
                        xs = sorted(xs, key=lambda z: z.id)
                        return mk("setv", *xs)
                    return mk("listv", *xs)
                return mk("glistv", *[tup([g, self.deep(x, st, depth + 1)])
                                      for g, x in its])
            if m.kind == "dict":
                return mk("dictv", *[
                    tup([k, g, self.deep(self.dict_get(st, v, k)[0], st,
                                         depth + 1)])
                    for k, g in self.dict_keys(st, v)])
            return v
        if o == "view":
            return self.val(v, st)
        if o == "ite":
            return t.lift(lambda x: self.deep(x, st, depth + 1), [v])
        if o == "tuple":
            return tup([self.deep(x, st, depth + 1) for x in v.args])
        if o in ("range", "lazyzip", "lazyenum", "lazyrev", "dview"):
            if o == "range":
                xs = [norm(x) for x in v.args]
                if any(self.as_int(x) is None for x in xs):
                    return mk("call", "range", *xs)
            its = self.iter_items(v, st, None)
            if all(g is TRUE for g, _ in its):
                return mk("listv", *[self.deep(x, st, depth + 1)
                                     for _, x in its])
            return mk("glistv", *[tup([g, self.deep(x, st, depth + 1)])
                                  for g, x in its])
        return v

    def arr_write(self, ref, content, st, node):
        """overwrite an array in place (views write through)."""
        if ref.op == "view":
            base, idx = ref.args
            old = self.val(base, st)
            self.arr_write(base, self.store_idx(old, idx, content, st), st,
                           node)
            return
        if ref.op == "ite":
            self.lift1(ref, lambda r, s: (self.arr_write(
                r, content, s, node), NONE)[1], st)
            return
        if not self.is_ref(ref, "arr"):
            self.event("lostwrite", st, ref=ref)
            return
        self.put(st, (ref.args[0], "#a"), content)
        if self.record_prov:
            self.prov[(ref.args[0], "#a")] = self.where()

    def index_val(self, i, st):
        if i.op == "tuple":
            return tup([self.index_val(x, st) for x in i.args])
        v = self.val(i, st)
        if v.op == "slice":
            return v
        return norm(v)

    def store_idx(self, old, idx, v, st):
        """value of `old` after old[idx] = v."""
        return store_term(old, idx, v)

    # --------------------------------------------------------- get/set
    def lift1(self, v, fn, st):
        """apply fn(leaf, state) under the condition selecting each leaf."""
        if v.op not in ("ite",):
            return fn(v, st)
        lv = leafset(v)
        if not any(x.op in ("ref", "view", "fn", "bound", "ext", "tuple",
                            "partial", "dview", "mod", "undef", "excinst",
                            "anyexc") or x is NONE
                   for x in lv):
            return fn(v, st)

        def go(v, st):
            if v.op != "ite":
                if v is UNDEF:
                    st.kill()
                    raise Dead()
                return fn(v, st)
            return self.branch(v.args[0], st, lambda s: go(v.args[1], s),
                               lambda s: go(v.args[2], s), values=True)
        if kind(v.args[0]) == "arr":
            return fn(self.val(v, st), st)
        return go(v, st)

    def as_int(self, v):
        v = norm(v) if v.op not in ("const", "num") else v
        if v.op == "const" and isinstance(cval(v), int) and \
                not isinstance(cval(v), bool):
            return cval(v)
        if v.op == "num" and v.args[0].denominator == 1:
            return int(v.args[0])
        return None

    def as_str(self, v):
        if v.op == "const" and isinstance(cval(v), str):
            return cval(v)
        return None

    def getitem(self, b, i, st, node):
        return self.lift1(b, lambda x, s: self.getitem1(x, i, s, node), st)

    def getitem1(self, b, i, st, node):
        if b.op == "ext" and b.args[0] in ("np.s_", "np.index_exp"):
            return i if i.op != "tuple" else tup(
                [self.index_val(x, st) for x in i.args])
        if self.is_ref(b, "dict"):
            if i.op == "ite" and not all(
                    x.op not in ("const",) for x in leafset(i)):
                return self.lift_key(b, i, st, node)
            k = self.key(i, st)
            v, g = self.dict_get(st, b, k)
            g = self.prune(st, g)
            m = self.m(b)
            if g is not FALSE and g is not TRUE and m.default is not None:
                self.branch(g, st, lambda x: None, lambda x: self.dict_set(
                    x, b, k, self.box(self.call(m.default, [], {}, x, node),
                                      x)))
                return self.dict_get(st, b, k)[0]
            if g is FALSE:
                if m.default is not None:
                    nv = self.call(m.default, [], {}, st, node)
                    self.dict_set(st, b, k, self.box(nv, st))
                    return self.dict_get(st, b, k)[0]
                keys = self.dict_keys(st, b)
                if m.lazy is not None:
                    nv = norm(mk("idx", m.lazy, k))
                    self.dict_set(st, b, k, nv)
                    return nv
                if k.op != "const" or any(kk.op != "const"
                                          for kk, _ in keys):
                    return mk("idx", norm(self.deep(b, st)), k)
                self.event("keyerror", st, key=k)
                self.do_raise(mk("excinst", "KeyError"), st,
                              self.frames[-1], node, implicit=True)
            if g is not TRUE:
                self.event("maykeyerror", st, key=k, guard=g)
            return v
        if self.is_ref(b, "list") or b.op in ("tuple", "listv"):
            its = self.items(st, b) if b.op == "ref" else \
                tuple((TRUE, x) for x in b.args)
            if i.op == "slice":
                ab = [None if x is NONE else self.as_int(x) for x in i.args]
                ok = all(x is NONE or y is not None
                         for x, y in zip(i.args, ab))
                if ok and all(g is TRUE for g, _ in its):
                    sel = its[slice(*ab)]
                    if b.op == "tuple":
                        return tup([x for _, x in sel])
                    return self.new_list(st, [x for _, x in sel])
            if i.op != "slice":
                sel = self.obj_index(its, i, st)
                if sel is not None:
                    return self.new_list(st, [x for _, x in sel],
                                         [g for g, _ in sel])
            ci = self.as_int(self.val(i, st)) if i.op != "slice" else None
            if ci is not None and all(g is TRUE for g, _ in its):
                if -len(its) <= ci < len(its):
                    return its[ci][1]
                if b.op == "ref":
                    self.event("indexerror", st)
            elif ci is not None and its:
                r = self.guarded_pick(its, ci)
                if r is not None:
                    return r
            if i.op != "slice" and its and all(
                    g is TRUE for g, _ in its) and any(
                    y.op in ("ref", "tuple") for _, x in its
                    for y in leafset(x)):
                # symbolic position in a list of objects
                iv = norm(self.val(i, st))
                r = its[-1][1]
                for j in range(len(its) - 2, -1, -1):
                    r = ite(self.cond(mk("eq", iv, const(j))), its[j][1], r)
                return r
            return norm(mk("idx", norm(self.deep(b, st)),
                           self.index_val(i, st)))
        if self.is_arrayish(b, st):
            iv = self.index_val(i, st)
            if iv.op == "slice" or (iv.op == "tuple" and not any(
                    kind(x) == "arr" or x.op == "listv" for x in iv.args)
                    and any(x.op == "slice" for x in iv.args)) or (
                    iv.op == "const" and isinstance(cval(iv), str)):
                return mk("view", b, iv)
            content = self.val(b, st)
            if (_ndim(content) >= 2 or self.models.is_struct(content)) and \
                    kind(iv) == "scal" and \
                    iv.op != "tuple" and not is_boolean(iv):
                return mk("view", b, iv)
            return norm_idx_raw(content, iv)
        if b.op == "const" and isinstance(cval(b), str):
            ci = self.as_int(i) if i.op != "slice" else None
            if ci is not None and -len(cval(b)) <= ci < len(cval(b)):
                return const(cval(b)[ci])
            if i.op == "slice":
                ab = [None if x is NONE else self.as_int(x) for x in i.args]
                if all(x is NONE or y is not None
                       for x, y in zip(i.args, ab)):
                    return const(cval(b)[slice(*ab)])
        if self.is_ref(b, "inst"):
            f = self.find_attr_cls(b, "__getitem__", st)
            if f is not None:
                return self.call(self.bind(f, b), [i], {}, st, node)
            if self.m(b).lazy is not None:
                k = self.key(i, st)
                v = st.heap.get((b.args[0], "v", k))
                if v is not None:
                    return v
                return norm(mk("idx", self.m(b).lazy, k))
        if b.op in ("lazyzip", "lazyenum", "lazyrev", "dview", "range"):
            its = self.iter_items(b, st, node)
            return self.getitem1(self.new_list(
                st, [x for _, x in its], [g for g, _ in its]), i, st, node)
        x = self.val(b, st)
        return norm_idx_raw(x, self.index_val(i, st))

    def obj_only(self, v):
        """is v an instance (in every case)?"""
        return all(self.is_ref(x, "inst") for x in leafset(v))

    def obj_index(self, its, i, st):
        """[(guard, object)] selected from an array of objects by an index
        array or a mask; None if i is not one."""
        if not its or not all(g is TRUE and self.obj_only(x)
                              for g, x in its):
            return None
        iv = self.index_val(i, st)
        if iv.op == "call" and iv.args[0] in ("list", "np.array"):
            iv = iv.args[1]
        iv = norm(iv)
        if kind(iv) != "arr" and iv.op != "listv":
            return None
        if is_boolean(iv):
            return [(self.cond(norm(mk("idx", iv, const(j)))), x)
                    for j, (_, x) in enumerate(its)]
        n = self.as_int(norm(mk("sizeof", iv)))
        if n is None or n > RANGE_LIMIT:
            n = self.unrolled(iv, st)
        out = []
        for p in range(n):
            e = norm(mk("idx", iv, const(p)))
            r = its[-1][1]
            for j in range(len(its) - 2, -1, -1):
                r = ite(self.cond(mk("eq", e, const(j))), its[j][1], r)
            out.append((TRUE, r))
        return out

    def guarded_pick(self, its, ci):
        """element at a known position of a conditionally built list."""
        if ci < 0:
            its = list(reversed(its))
            ci = -ci - 1
        if ci != 0:
            return None
        r = UNDEF
        for g, x in reversed(its):
            r = x if r is UNDEF else ite(g, x, r)
        return r

    def lift_key(self, b, i, st, node):
        def go(k, s):
            if k.op == "ite":
                return self.branch(k.args[0], s, lambda a: go(k.args[1], a),
                                   lambda a: go(k.args[2], a), values=True)
            return self.getitem1(b, k, s, node)
        return go(i, st)

    def setitem(self, b, i, v, st, node):
        def leaf(x, s):
            self.setitem1(x, i, v, s, node)
            return NONE
        self.lift1(b, leaf, st)

    def setitem1(self, b, i, v, st, node):
        if self.is_ref(b, "dict"):
            if i.op == "ite":
                def go(k, s):
                    if k.op == "ite":
                        self.branch(k.args[0], s,
                                    lambda a: go(k.args[1], a),
                                    lambda a: go(k.args[2], a))
                    else:
                        self.dict_set(s, b, self.key(k, s), self.box(v, s))
                go(i, st)
                return
            self.dict_set(st, b, self.key(i, st), self.box(v, st))
            return
        if self.is_ref(b, "list"):
            its = list(self.items(st, b))
            ci = self.as_int(self.val(i, st)) if i.op != "slice" else None
            if ci is not None and -len(its) <= ci < len(its) and \
                    all(g is TRUE for g, _ in its):
                its[ci] = (its[ci][0], self.box(v, st))
                self.put(st, (b.args[0], "#items"), tuple(its))
                return
            if i.op != "slice" and its:
                iv = norm(self.val(i, st))
                new = []
                for j, (g, x) in enumerate(its):
                    new.append((g, ite(self.cond(
                        mk("eq", iv, const(j))), v, x)))
                self.put(st, (b.args[0], "#items"), tuple(new))
                return
            self.event("lostwrite", st, ref=b)
            return
        if self.is_arrayish(b, st):
            iv = self.index_val(i, st)
            old = self.val(b, st)
            self.arr_write(b, self.store_idx(old, iv, self.val(v, st), st),
                           st, node)
            return
        if self.is_ref(b, "inst"):
            f = self.find_attr_cls(b, "__setitem__", st)
            if f is not None:
                self.call(self.bind(f, b), [i, v], {}, st, node)
                return
            if self.m(b).lazy is not None:
                self.put(st, (b.args[0], "v", self.key(i, st)), v)
                return
        if b is NONE:
            self.do_raise(mk("excinst", "TypeError"), st, self.frames[-1],
                          node, implicit=True)
        self.event("lostwrite", st, ref=b)

    # ------------------------------------------------------- attributes
    def mro(self, cls):
        out = [cls]
        for b in self.m(cls).bases or ():
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def find_attr_in(self, cls, name, st):
        for c in self.mro(cls):
            v = st.heap.get((c.args[0], name))
            if v is not None and v is not UNDEF:
                return v
        return None

    def find_attr_cls(self, inst, name, st):
        c = self.m(inst).cls
        if c is None:
            return None
        return self.find_attr_in(c, name, st)

    def bind(self, f, obj):
        if f.op == "fn":
            return mk("bound", f, obj)
        if f.op == "staticm":
            return f.args[0]
        if f.op == "classm":
            return mk("bound", f.args[0],
                      self.m(obj).cls if self.is_ref(obj, "inst") else obj)
        return f

    def getattr(self, b, name, st, node):
        return self.lift1(b, lambda x, s: self.getattr1(x, name, s, node),
                          st)

    def getattr1(self, b, name, st, node):
        o = b.op
        if o == "ref":
            m = self.m(b)
            if m.kind == "inst":
                v = st.heap.get((b.args[0], name))
                f = self.find_attr_cls(b, name, st)
                if f is not None and f.op == "property":
                    return self.call(f.args[0], [b], {}, st, node)
                if v is not None and v is not UNDEF:
                    if v.op == "ite" and UNDEF in leafset(v):
                        self.event("mayundef", st, attr=name)
                    return v
                if f is not None:
                    if f.op in ("fn", "staticm", "classm"):
                        return self.bind(f, b)
                    return f
                if name == "__class__":
                    return m.cls or mk("opaque", "class")
                if name == "__dict__":
                    return mk("opaque", "__dict__")
                if m.lazy is not None:
                    nv = mk("attr", m.lazy, name)
                    h = self.models.ATTR_KINDS.get(name)
                    if h:
                        nv._kind = h
                    return nv
                ga = self.find_attr_cls(b, "__getattr__", st)
                if ga is not None:
                    return self.call(self.bind(ga, b), [const(name)], {}, st,
                                     node)
                self.missing(b, m, name, st, node)
                return mk("opaque", f"noattr:{name}")
            if m.kind == "class":
                f = self.find_attr_in(b, name, st)
                if f is not None:
                    if f.op == "staticm":
                        return f.args[0]
                    if f.op == "classm":
                        return mk("bound", f.args[0], b)
                    return f
                if name == "__name__":
                    return const(m.name)
                if not name.startswith("__") and not any(
                        self.m(c).extbase for c in self.mro(b)):
                    self.event("unsupported", st,
                               what=f"{m.name} has no {name}")
                return mk("meth", b, name)
            if m.kind == "arr":
                return self.models.arr_attr(self, b, name, st, node)
            return mk("meth", b, name)
        if o == "view":
            return self.models.arr_attr(self, b, name, st, node)
        if o == "mod":
            full = f"{b.args[0]}.{name}"
            env = self.modenv.get(b.args[0])
            if env is not None:
                v = st.heap.get((env.args[0], name))
                if v is not None:
                    return v
            if full in self.prog.modules:
                self.load_module(st, full)
                return mk("mod", full)
            return mk("ext", full)
        if o == "ext":
            return self.models.ext_attr(self, b.args[0] + "." + name)
        if o in ("fn", "bound"):
            if name in ("__name__", "__qualname__", "__module__"):
                return mk("attr", b, name)
        if o in ("const", "tuple", "dview", "listv", "slice"):
            if o == "slice" and name in ("start", "stop", "step"):
                return b.args[("start", "stop", "step").index(name)]
            return mk("meth", b, name)
        if o == "property":
            return mk("meth", b, name)
        return self.models.term_attr(self, b, name, st, node)

    def missing(self, b, m, name, st, node):
        """an attribute that nothing has set: AttributeError, if the object
        was built completely by the analysed code"""
        self.event("attrerror", st, attr=name,
                   cls=self.m(m.cls).name if m.cls else "?")
        own = m.cls is not None and not m.bare and all(
            self.m(c).module.name.startswith("qsonic") and
            not self.m(c).extbase for c in self.mro(m.cls))
        if own and (b.args[0], name) not in self.ever and \
                self.frames[-1].module.name.startswith("qsonic"):
            self.do_raise(mk("excinst", "AttributeError"), st,
                          self.frames[-1], node, implicit=True)
        self.event("unsupported", st, what=f"no attribute {name}")

    def setattr(self, b, name, v, st, node):
        def leaf(x, s):
            if x.op == "ref":
                m = self.m(x)
                if m.kind == "inst":
                    f = self.find_attr_cls(x, name, s)
                    if f is not None and f.op == "property" and \
                            f.args[1] is not NONE:
                        self.call(f.args[1], [x, v], {}, s, node)
                        return NONE
                if m.kind in ("inst", "class"):
                    self.put(s, (x.args[0], name), v)
                    self.ever.add((x.args[0], name))
                    if self.record_prov:
                        self.prov[(x.args[0], name)] = self.where()
                    if m.kind == "class":
                        self.event("setclass", s, cls=m.name, attr=name)
                    return NONE
            if x.op == "mod":
                env = self.modenv.get(x.args[0])
                self.put(s, (env.args[0], name), v)
                return NONE
            if x is NONE:
                self.do_raise(mk("excinst", "AttributeError"), s,
                              self.frames[-1], node, implicit=True)
            self.event("lostattr", s, ref=x, attr=name)
            return NONE
        self.lift1(b, leaf, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        self.at(e)
        # method calls
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                not e.args:
            return mk("super", fr.fn.cls, fr.selfv)
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, st, fr)
            if self.models.MUTATORS.get(e.func.attr) and self.needs_box(b) \
                    and b.op not in ("const", "tuple", "super", "bound",
                                     "sym", "fstr") \
                    and kind(b) == "arr":
                b = self.lval(e.func.value, st, fr)
            args, kw = self.ev_args(e, st, fr)
            return self.call_method(b, e.func.attr, args, kw, st, e)
        f = self.ev(e.func, st, fr)
        args, kw = self.ev_args(e, st, fr)
        return self.call(f, args, kw, st, e)

    def ev_args(self, e, st, fr):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += [v for _, v in self.iter_items(
                    self.ev(a.value, st, fr), st, a)]
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st, fr)
                if self.is_ref(d, "dict"):
                    for kk, g in self.dict_keys(st, d):
                        s = self.as_str(kk)
                        if s is not None:
                            kw[s] = self.dict_get(st, d, kk)[0]
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        return args, kw

    def call_method(self, b, name, args, kw, st, node):
        def leaf(x, s):
            return self.call_method1(x, name, args, kw, s, node)
        return self.lift1(b, leaf, st)

    def call_method1(self, b, name, args, kw, st, node):
        o = b.op
        if o == "super":
            cls, selfv = b.args
            icls = self.m(selfv).cls if self.is_ref(selfv, "inst") else selfv
            chain = self.mro(icls)
            if cls in chain:
                chain = chain[chain.index(cls) + 1:]
            for c in chain:
                f = st.heap.get((c.args[0], name))
                if f is not None:
                    return self.call(self.bind(f, selfv), args, kw, st, node)
            return NONE
        if o == "ref":
            m = self.m(b)
            if m.kind in ("inst", "class", "env"):
                if name == "__new__" and m.kind == "class" and args and \
                        self.is_ref(args[0], "class") and \
                        self.find_attr_in(b, name, st) is None:
                    return self.exists(st, self.alloc(
                        "inst", cls=args[0], site=self.where(), bare=True))
                f = self.getattr1(b, name, st, node)
                if f.op == "meth" and f.args[0] is b:
                    return self.models.apply_opaque(self, f, args, kw, st,
                                                    node)
                if f.op == "attr" and m.lazy is not None:
                    return self.models.opaque_method(
                        self, b, name, args, kw, st, node)
                return self.call(f, args, kw, st, node)
            if m.kind == "list":
                return self.models.list_method(self, b, name, args, kw, st,
                                               node)
            if m.kind == "dict":
                return self.models.dict_method(self, b, name, args, kw, st,
                                               node)
            if m.kind == "arr":
                return self.models.arr_method(self, b, name, args, kw, st,
                                              node)
        if o == "view":
            return self.models.arr_method(self, b, name, args, kw, st, node)
        if o in ("ext", "mod"):
            f = self.getattr1(b, name, st, node)
            return self.call(f, args, kw, st, node)
        return self.models.term_method(self, b, name, args, kw, st, node)

    def call(self, f, args, kw, st, node):
        def leaf(x, s):
            return self.call1(x, args, kw, s, node)
        return self.lift1(f, leaf, st)

    def call1(self, f, args, kw, st, node):
        o = f.op
        if o == "fn":
            return self.call_fn(f, args, kw, st, node)
        if o == "bound":
            return self.call1(f.args[0], [f.args[1]] + list(args), kw, st,
                              node)
        if o in ("staticm",):
            return self.call1(f.args[0], args, kw, st, node)
        if o == "partial":
            kws = dict(f.args[2])
            kws.update(kw)
            return self.call(f.args[0], list(f.args[1]) + list(args), kws,
                             st, node)
        if o == "meth":
            return self.call_method(f.args[0], f.args[1], args, kw, st, node)
        if o == "ext":
            return self.models.call_ext(self, f.args[0], args, kw, st, node)
        if o == "ref":
            m = self.m(f)
            if m.kind == "class":
                return self.instantiate(f, args, kw, st, node)
            if m.kind == "inst":
                g = self.find_attr_cls(f, "__call__", st)
                if g is not None:
                    oc = self.opaque_fns.get(self.qual_of(g))
                    if oc is not None:
                        return oc(self, f, args, kw, st, node)
                    return self.call(self.bind(g, f), args, kw, st, node)
        return self.models.apply_opaque(self, f, args, kw, st, node)

    def qual_of(self, g):
        if g.op == "fn":
            f = self.fns[g.args[0]]
            return f.module.name + ":" + f.qual
        return None

    def instantiate(self, cls, args, kw, st, node):
        m = self.m(cls)
        oc = self.opaque_fns.get(m.module.name + ":" + m.name)
        if oc is not None:
            return oc(self, cls, args, kw, st, node)
        obj = self.exists(st, self.alloc("inst", cls=cls,
                                         site=self.where()))
        init = self.find_attr_in(cls, "__init__", st)
        if init is not None:
            self.call(self.bind(init, obj), args, kw, st, node)
        elif args and m.extbase or any(
                self.m(c).extbase for c in self.mro(cls)):
            self.put(st, (obj.args[0], "args"), tup(
                [self.box(a, st) for a in args]))
        return obj

    def call_fn(self, fv, args, kw, st, node):
        f = self.fns[fv.args[0]]
        q = f.module.name + ":" + f.qual
        oc = self.opaque_fns.get(q)
        if oc is not None:
            return oc(self, fv, args, kw, st, node)
        if len(self.frames) > 70 or sum(
                1 for x in self.frames if x.fn is f) > 3:
            self.depth_hits.append(q)
            return mk("opaque", f"depth:{q}")
        self.inlined.add(q)
        env = self.alloc("env", parent=f.env, module=f.module, name=f.qual)
        fr = Frame()
        fr.fn, fr.env, fr.module = f, env, f.module
        saved_path, saved_log = st.path, st.log
        st.path, st.log = TRUE, set()
        self.bind_args(f, args, kw, st, fr, env)
        a = f.node.args
        if a.args or a.posonlyargs:
            p0 = (a.posonlyargs + a.args)[0].arg
            fr.selfv = st.heap.get((env.args[0], p0))
        if f.isgen:
            fr.yields = self.new_list(st, (), gen=True)
        self.frames.append(fr)
        ln = getattr(f.node, "lineno", 0)
        self.callstack.append((f.module.rel, f.qual, ln))
        self.raises.append([])
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body, st, fr)
                    fr.returns.append((st.clone(), v))
                except Dead:
                    pass
                st.kill()
            else:
                try:
                    self.exec_block(f.node.body, st, fr)
                except Dead:
                    st.kill()
                if not st.dead:
                    fr.returns.append((st.clone(), NONE))
        finally:
            self.frames.pop()
            self.callstack.pop()
            mine = self.raises.pop()
        for r in mine:
            r.state.path = t_and(saved_path, r.state.path)
            r.state.log = saved_log | r.state.log
            if not r.state.dead:
                self.raises[-1].append(r)
        rets = [(s, v) for s, v in fr.returns if not s.dead]
        if not rets:
            st.path = FALSE
            st.abs = FALSE
            st.log = saved_log
            raise Dead()
        if len(rets) == 1:
            s, v = rets[0]
            m = s
        else:
            union = FALSE
            for s, _ in rets:
                union = t_or(union, s.path)
            conds = [constrain(s.path, union) if union is not TRUE
                     else s.path for s, _ in rets]
            v = self.merge_vals([x for _, x in rets], conds)
            m = self.merge([s for s, _ in rets])
        if f.isgen:
            v = fr.yields
        if not self.m(env).captured:
            self.drop_env(m, env)
        st.become(m)
        st.path = t_and(saved_path, st.path)
        st.log = saved_log | st.log
        return v

    def bind_args(self, f, args, kw, st, fr, env):
        a = f.node.args
        loc = env.args[0]
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        given = {}
        for n, v in zip(pos, args):
            given[n] = v
        extra = list(args[len(pos):])
        for n in pos:
            if n in kw:
                given[n] = kw.pop(n)
        nd = len(f.defaults)
        for j, n in enumerate(pos):
            if n not in given:
                dj = j - (len(pos) - nd)
                if dj >= 0:
                    given[n] = f.defaults[dj]
                else:
                    self.event("missingarg", st, arg=n)
                    given[n] = mk("opaque", f"missing:{n}")
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            n = x.arg
            if n in kw:
                given[n] = kw.pop(n)
            elif d is not None:
                given[n] = d
            else:
                given[n] = mk("opaque", f"missing:{n}")
        for n, v in given.items():
            self.put(st, (loc, n), self.box(v, st))
        if a.vararg:
            self.put(st, (loc, a.vararg.arg),
                     tup([self.box(x, st) for x in extra]))
        elif extra:
            self.event("extraargs", st, fn=f.qual, n=len(extra))
        if a.kwarg:
            d = self.new_dict(st, [(const(k), self.box(v, st))
                                   for k, v in kw.items()])
            self.put(st, (loc, a.kwarg.arg), d)
        elif kw and "**" not in kw:
            self.event("extrakw", st, fn=f.qual, names=tuple(kw))


class Result:
    def __init__(self, interp, value, st, raises, events):
        self.i = interp
        self.value = value
        self.st = st
        self.raises = raises
        self.events = events

    def raise_cond(self, name=None):
        """condition under which the driver ends with exception `name`."""
        c = FALSE
        for r in self.raises:
            if name is None or name in r.names:
                c = t_or(c, r.state.path)
        return c


# --------------------------------------------------------------- helpers
_BIN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div",
        "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
        "MatMult": "matmul", "BitAnd": "bitand", "BitOr": "bitor",
        "BitXor": "bitxor", "LShift": "lshift", "RShift": "rshift"}


def _dunder(op):
    return {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv",
            "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
            "MatMult": "matmul", "BitAnd": "and", "BitOr": "or",
            "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}[op]


def _builtin_chain(n):
    out = []
    while n is not None:
        out.append(n)
        n = BUILTIN_EXC.get(n, None if n in BUILTIN_EXC else "Exception")
        if len(out) > 8:
            break
    return out


def _is_generator(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def _strish(x):
    return (x.op == "const" and isinstance(cval(x), str)) or x.op == "fstr"


def fmt_const(v, sp):
    if sp.op != "const":
        return None
    if v.op == "num":
        f = v.args[0]
        x = int(f) if f.denominator == 1 else float(f)
    elif v.op == "const" and isinstance(cval(v), (int, float, str)):
        x = cval(v)
    else:
        return None
    try:
        return const(format(x, cval(sp)))
    except (ValueError, TypeError):
        return None


def fold_str(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            q = list(p.args)
        else:
            q = [p]
        for x in q:
            if x.op == "num" and x.args[0].denominator == 1:
                x = const(str(int(x.args[0])))
            elif x.op == "const" and not isinstance(cval(x), str):
                x = const(str(cval(x)))
            if out and out[-1].op == "const" and x.op == "const":
                out[-1] = const(cval(out[-1]) + cval(x))
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    if any(x.op == "ite" for x in out) and sum(
            x.op == "ite" for x in out) <= 3:
        try:
            return t.lift(lambda *ys: fold_str(list(ys)), out)
        except t.Blowup:
            pass
    return mk("fstr", *out)


def _fold_const(op, x, y):
    try:
        if op == "Add":
            r = x + y
        elif op == "Sub":
            r = x - y
        elif op == "Mult":
            r = x * y
        elif op == "Mod" and not isinstance(x, str):
            r = x % y
        elif op == "FloorDiv":
            r = x // y
        elif op == "BitOr":
            r = x | y
        elif op == "BitAnd":
            r = x & y
        elif op == "LShift":
            r = x << y
        else:
            return None
    except Exception:
        return None
    if isinstance(r, float):
        return None
    return const(r)


_ndim = t.ndim


def norm_idx_raw(b, i):
    r = mk("idx", b, i)
    if b.op in ("upd", "full", "ite", "tuple", "listv") or i.op == "slice":
        return norm(r)
    return r


def unmask(v, w):
    """v restricted by mask w, written as a full-length value, or None."""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = None
        if x.op == "idx" and x.args[1] is w:
            r = x.args[0]
        elif kind(x) == "scal":
            r = x
        elif x.op == "poly":
            ok = True
            m = {}
            for mono, c in x.args[0]:
                for a, e in mono:
                    y = go(a)
                    if y is None:
                        ok = False
                    m[a] = y
            if ok:
                r = t._poly_rebuild(x, lambda a: m[a])
        elif x.op in ("gt0", "ge0", "eq0") or x.op in t.ARITH or \
                x.op in t.CMPS:
            ys = [go(a) for a in x.args]
            if all(y is not None for y in ys):
                r = mk(x.op, *ys)
        elif x.op == "ite":
            ys = [go(a) for a in x.args]
            if all(y is not None for y in ys):
                r = ite(norm(ys[0]), ys[1], ys[2])
        elif x.op == "call" and x.args[0] in t.ELEM:
            ys = [go(a) for a in x.args[1:]]
            if all(y is not None for y in ys):
                r = mk("call", x.args[0], *ys)
        memo[x] = r
        return r
    return go(v)


def store_term(old, idx, v):
    idx = norm(idx) if idx.op not in ("slice", "tuple") else idx
    if t._is_full_slice(idx) or idx.op == "ellipsis":
        if kind(v) == "scal":
            if old.op == "full":
                return mk("full", old.args[0], v)
            one = _ndim(old) == 1 and old.op != "call"
            return mk("full", mk("sizeof" if one else "shapeof", old), v)
        if _ndim(old) > 1:
            return mk("upd", old, idx, v)
        return v
    if idx.op != "tuple" and t._is_mask(idx):
        nv = norm(v)
        if kind(nv) == "scal":
            return ite(idx, nv, t.strip_full(norm(old))) \
                if False else ite(idx, nv, _keep(old))
        u = unmask(nv, idx)
        if u is not None:
            return ite(idx, norm(u), _keep(old))
    return mk("upd", old, idx, v)


def _keep(old):
    return norm(old)
