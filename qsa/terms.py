"""Hash-consed value-number terms, gated (ITE/MTBDD) joins and an algebraic
normal form.

A term denotes the value a program point computes, as a function of the
program's inputs.  Control-flow joins are `ite` nodes kept as reduced ordered
decision diagrams over condition atoms, so two differently nested branch
structures that select the same values get the same number.  Arithmetic is
compared as rational functions over atoms.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "id", "_kind")

    def __init__(self, op, args, i):
        self.op = op
        self.args = args
        self.id = i
        self._kind = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_table = {}


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T(op, args, len(_table))
        _table[key] = t
    return t


class _C:
    """wrapper so that 1, True and 1.0 intern separately."""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, repr(v))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _C) and self.k == o.k

    def __repr__(self):
        return repr(self.v)


def const(v):
    return mk("const", _C(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0].v


def num(fr):
    fr = Fraction(fr)
    return mk("num", fr)


def sym(name, kind="unk"):
    t = mk("sym", name)
    if kind != "unk":
        t._kind = kind
    return t


def tup(items):
    return mk("tuple", *items)


# --------------------------------------------------------------- printing
_INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**",
          "floordiv": "//", "mod": "%"}


def show(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0].v)
    if o == "num":
        f = a[0]
        return str(f) if f.denominator < 1000 else repr(float(f))
    if o == "sym":
        return a[0]
    if o in _INFIX and len(a) == 2:
        return f"({show(a[0], d)} {_INFIX[o]} {show(a[1], d)})"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "idx":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a[:2]) + \
            ("" if a[2] is NONE else ":" + show(a[2], d)) \
            if True else ""
    if o == "ite":
        return f"if({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})"
    if o == "poly":
        out = []
        for mono, c in a[0]:
            fs = []
            for atom, e in mono:
                s = show(atom, d)
                if e != 1:
                    s += f"^{e}"
                fs.append(s)
            if c != 1 or not fs:
                fs.insert(0, show(num(c)))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if o == "call":
        return f"{a[0]}(" + ", ".join(show(x, d) for x in a[1:]) + ")"
    if o == "kw":
        return f"{a[0]}={show(a[1], d)}"
    if o == "gt0":
        return f"{show(a[0], d)}>0"
    if o == "ge0":
        return f"{show(a[0], d)}>=0"
    if o == "eq0":
        return f"{show(a[0], d)}==0"
    return f"{o}(" + ", ".join(show(x, d) for x in a) + ")"


# ------------------------------------------------------ decision diagrams
class Blowup(Exception):
    pass


_ite_memo = {}
_budget = [0]
ITE_LIMIT = 60000


_ord_memo = {}


def _ord(v):
    """decision order: scalar atoms above elementwise ones (the arms of a
    scalar decision may have different shapes)."""
    r = _ord_memo.get(v)
    if r is None:
        r = _ord_memo[v] = (1 if kind(v) == "arr" else 0, v.id)
    return r


def _top(t):
    if t.op == "ite":
        return t.args[0]
    return None


def _cof(t, v, val):
    if t.op == "ite":
        if t.args[0] is v:
            return t.args[1] if val else t.args[2]
        return t
    if t is v:
        return TRUE if val else FALSE
    return t


def ite(c, a, b):
    """MTBDD if-then-else; c is a boolean term."""
    _budget[0] = ITE_LIMIT
    try:
        return _ite(c, a, b)
    except Blowup:
        return mk("phi", c, a, b)


def _ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "const":
        return a if c.args[0].v else b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    _budget[0] -= 1
    if _budget[0] < 0:
        raise Blowup()
    v = c.args[0] if c.op == "ite" else c
    for x in (a, b):
        if x.op == "ite" and _ord(x.args[0]) < _ord(v):
            v = x.args[0]
    hi = _ite(_cof(c, v, 1), _cof(a, v, 1), _cof(b, v, 1))
    lo = _ite(_cof(c, v, 0), _cof(a, v, 0), _cof(b, v, 0))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = v
    else:
        r = mk("ite", v, hi, lo)
    _ite_memo[key] = r
    return r


def t_not(a):
    return ite(a, FALSE, TRUE)


def t_and(a, b):
    return ite(a, b, FALSE)


def t_or(a, b):
    return ite(a, TRUE, b)


def conj(xs):
    r = TRUE
    for x in xs:
        r = t_and(r, x)
    return r


def constrain(f, care):
    """simplify f assuming care (restrict operator)."""
    if care is TRUE or care.op == "phi" or f.op == "phi":
        return f
    memo = {}

    def go(f, c):
        if c is TRUE or f.op == "const":
            return f
        if c is FALSE:
            return f
        if f is c:
            return TRUE
        k = (f.id, c.id)
        if k in memo:
            return memo[k]
        cv = c.args[0] if c.op == "ite" else c
        fv = _top(f)
        if fv is None:
            fv = f
        chi, clo = _cof(c, cv, 1), _cof(c, cv, 0)
        if _ord(cv) < _ord(fv):
            if chi is FALSE:
                r = go(f, clo)
            elif clo is FALSE:
                r = go(f, chi)
            else:
                r = go(f, ite(chi, TRUE, clo))
        else:
            v = fv
            if f.op != "ite" and f is not v:
                r = f
            else:
                fhi, flo = _cof(f, v, 1), _cof(f, v, 0)
                c1, c0 = _cof(c, v, 1), _cof(c, v, 0)
                if c1 is FALSE:
                    r = go(flo, c0)
                elif c0 is FALSE:
                    r = go(fhi, c1)
                else:
                    r = ite(v, go(fhi, c1), go(flo, c0))
        memo[k] = r
        return r
    try:
        return go(f, care)
    except Blowup:
        return f


def restrict(t, assign):
    """cofactor the top-level decision diagram of t: {atom: bool}."""
    memo = {}

    def go(t):
        if t in assign:
            return TRUE if assign[t] else FALSE
        if t.op != "ite":
            return t
        r = memo.get(t)
        if r is None:
            v = t.args[0]
            if v in assign:
                r = go(t.args[1] if assign[v] else t.args[2])
            else:
                r = ite(v, go(t.args[1]), go(t.args[2]))
            memo[t] = r
        return r
    return go(t)


def leaves(t, cond=TRUE):
    """[(path literals, leaf)] of a decision diagram."""
    out = []

    def go(t, lits):
        if t.op == "ite":
            go(t.args[1], lits + ((t.args[0], True),))
            go(t.args[2], lits + ((t.args[0], False),))
        elif t.op == "phi":
            go(t.args[1], lits + ((t.args[0], True),))
            go(t.args[2], lits + ((t.args[0], False),))
        else:
            out.append((lits, t))
    go(t, ())
    return out


def leafset(t):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("ite", "phi"):
            stack.append(x.args[1])
            stack.append(x.args[2])
        else:
            out.append(x)
    return out


def atoms_of(t):
    """condition atoms of a decision diagram."""
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            if x.args[0] not in out:
                out.append(x.args[0])
            stack.append(x.args[1])
            stack.append(x.args[2])
        elif x.op == "phi":
            stack.extend(x.args)
        elif is_boolean(x) and x.op != "const":
            if x not in out:
                out.append(x)
    return out


def subterms(t):
    """all distinct sub-terms (through tuples of args)."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, pred):
    for s in subterms(t):
        if pred(s):
            return True
    return False


def mentions(t, x):
    for s in subterms(t):
        if s is x:
            return True
    return False


def subst(t, m, memo=None):
    """replace terms by terms (re-normalising decision diagrams)."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("const", "sym", "num"):
            r = x
        elif x.op == "ite":
            r = ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
        elif x.op == "poly":
            r = _poly_rebuild(x, go)
        else:
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else mk(x.op, *na)
            if r is not x and x._kind is not None and r._kind is None:
                r._kind = x._kind
        memo[x] = r
        return r
    return go(t)


def _poly_rebuild(x, go):
    p = {}
    for mono, c in x.args[0]:
        q = {(): c}
        for atom, e in mono:
            na = go(atom)
            q = p_mul(q, p_pow(to_poly(norm(na)), e))
        p = p_add(p, q)
    return from_poly(p)


# ------------------------------------------------------------------ kinds
_ARR_CALLS = {
    "np.zeros", "np.ones", "np.empty", "np.full", "np.zeros_like",
    "np.ones_like", "np.empty_like", "np.full_like", "np.array",
    "np.linspace", "np.arange", "np.logspace", "np.concatenate", "np.hstack",
    "np.vstack", "np.append", "np.outer", "np.diff", "np.repeat", "np.eye",
    "np.ravel", "np.reshape", "np.copy", "np.astype", "np.bincount",
    "np.argsort", "np.isin", "np.nonzero0", "np.clip", "np.cumsum",
    "np.convolve", "np.einsum", "np.fft.rfft", "np.fft.irfft", "np.pad",
    "np.fft.rfftfreq", "np.sort", "np.transpose", "np.diag", "np.unique",
    "np.intersect1d", "np.flip", "np.tile", "np.matmul", "np.cov",
    "np.loadtxt", "scipy.ndimage.median_filter", "np.where1",
}
_SCAL_CALLS = {
    "np.sum", "np.mean", "np.median", "np.dot", "np.min", "np.max", "np.std",
    "np.any", "np.all", "len", "int", "float", "round", "bool", "np.size",
    "np.argmin", "np.argmax", "np.allclose", "str", "isinstance", "hash",
    "np.count_nonzero", "np.prod", "min", "max", "any", "all", "sum", "abs_s",
}
ELEM = {
    "np.sqrt", "np.exp", "np.log", "np.log10", "np.abs", "np.isnan",
    "np.isfinite", "np.isinf", "np.sign", "np.radians", "np.degrees",
    "np.sin", "np.cos", "np.round", "np.floor", "np.ceil", "np.fmin",
    "np.fmax", "np.minimum", "np.maximum", "np.log2", "np.log1p", "np.expm1",
    "np.rint", "np.toint", "np.tofloat",
}
ARITH = {"add", "sub", "mul", "div", "pow", "neg", "floordiv", "mod",
         "bitand", "bitor", "bitxor", "lshift", "rshift", "invert"}
CMPS = {"lt", "le", "gt", "ge", "eq", "ne"}


def kind(t):
    """'arr', 'scal' or 'unk'."""
    k = t._kind
    if k is not None:
        return k
    t._kind = "unk"     # cycle guard (terms are acyclic, cheap anyway)
    k = _kind0(t)
    t._kind = k
    return k


def _comb(ks):
    ks = list(ks)
    if "arr" in ks:
        return "arr"
    if "unk" in ks:
        return "unk"
    return "scal"


TABLES = {}     # symbol -> column names, for tables a driver declares


def fields(x):
    """column names of a table or table row, None if unknown."""
    o, a = x.op, x.args
    if o == "sym":
        return TABLES.get(a[0])
    if not TABLES:
        return None
    if o == "idx":
        f = fields(a[0])
        if f is None:
            return None
        i = a[1]
        if i.op in ("listv", "tuple") and i.args and all(
                y.op == "const" and isinstance(cval(y), str)
                for y in i.args):
            return tuple(cval(y) for y in i.args)
        if i.op == "const" and isinstance(cval(i), str) or i.op == "tuple":
            return None
        return f
    if o == "ite":
        f, g = fields(a[1]), fields(a[2])
        return f if f == g else None
    if o in ("upd", "copy", "bcast"):
        return fields(a[0])
    if o == "call":
        n = a[0]
        if n in ("np.sort", "np.array", "np.asarray"):
            return fields(a[1])
        if n in ("np.concatenate", "np.hstack") and a[1].op in (
                "listv", "tuple") and a[1].args:
            fs = {fields(y) for y in a[1].args}
            return fs.pop() if len(fs) == 1 else None
        if n == "np.lib.recfunctions.append_fields":
            f = fields(a[1])
            if f and len(a) > 2 and a[2].op == "const":
                return f + (cval(a[2]),)
        if n == "np.lib.recfunctions.rename_fields":
            f = fields(a[1])
            if f and len(a) > 2 and a[2].op == "dictv" and all(
                    p.args[0].op == "const" and p.args[1] is TRUE and
                    p.args[2].op == "const" for p in a[2].args):
                m = {cval(p.args[0]): cval(p.args[2]) for p in a[2].args}
                return tuple(m.get(y, y) for y in f)
        if n == "np.lib.recfunctions.drop_fields":
            f = fields(a[1])
            d = a[2].args if len(a) > 2 and a[2].op in (
                "listv", "tuple") else a[2:3]
            if f and all(y.op == "const" for y in d):
                return tuple(y for y in f if y not in
                             [cval(z) for z in d])
        if n == "np.lib.recfunctions.merge_arrays" and a[1].op in (
                "tuple", "listv"):
            fs = [fields(y) for y in a[1].args]
            if all(fs):
                return tuple(y for f in fs for y in f)
    return None


def multi(x):
    """a call returning a tuple of arrays"""
    return x.op == "call" and x.args[0] in (
        "np.unique", "np.intersect1d") and any(
        y.op == "kw" and y.args[0].startswith("return_") and
        y.args[1] is TRUE for y in x.args[1:])


def _kind0(t):
    o, a = t.op, t.args
    if o == "idx" and multi(a[0]) and a[1].op in ("const", "num"):
        return "arr"
    if o == "const":
        return "scal"
    if o == "num":
        return "scal"
    if o in ARITH or o in CMPS:
        return _comb(kind(x) for x in a)
    if o == "poly":
        return _comb(kind(x) for mono, c in a[0] for x, e in mono)
    if o in ("gt0", "ge0", "eq0"):
        return kind(a[0])
    if o == "ite":
        k1, k2 = kind(a[1]), kind(a[2])
        if "arr" in (k1, k2, kind(a[0])):
            return "arr"
        return k1 if k1 == k2 else "unk"
    if o == "phi":
        k1, k2 = kind(a[1]), kind(a[2])
        return k1 if k1 == k2 else "unk"
    if o in ("full", "uninit"):
        return "arr"
    if o in ("truth", "isnone", "in", "isinst", "exc", "anyiter", "allreduce_s",
             "pos", "sizeof", "fstr", "is", "hasattr", "nonempty", "count"):
        return "scal"
    if o in ("copy", "astype", "tofloat", "toint"):
        return kind(a[0])
    if o == "idx":
        kb = kind(a[0])
        i = a[1]
        if kb == "arr":
            if i.op == "slice":
                return "arr"
            if i.op == "const" and isinstance(cval(i), str):
                return "arr" if TABLES and fields(a[0]) else "unk"
            if i.op == "listv" and TABLES and fields(t):
                return "arr"
            ki = kind(i)
            if i.op != "tuple" and ki == "arr":
                return "arr"
            if i.op == "tuple" and any(
                    x.op == "slice" or kind(x) == "arr" for x in i.args):
                return "arr"
            if ndim(t) >= 1:
                return "arr"
            return "unk"
        if i.op != "tuple" and i.op != "slice" and kind(i) == "arr":
            return "arr"
        return "unk"
    if o in ("upd", "lupd", "lscat"):
        return "arr"
    if o == "lsum":
        return kind(a[1])
    if o in ("fix", "last"):
        return kind(a[1])
    if o == "call":
        n = a[0]
        if n in ELEM:
            return _comb(kind(x) for x in a[1:] if x.op != "kw")
        has_axis = any(x.op == "kw" and x.args[0] == "axis" for x in a[1:])
        if n in _SCAL_CALLS:
            if has_axis:
                return "arr"
            if n in ("np.sum", "np.mean", "np.median", "np.any", "np.all",
                     "np.min", "np.max", "np.prod", "np.std") and len(
                         [x for x in a[1:] if x.op != "kw"]) > 1:
                return "arr"
            if n == "np.dot":
                return "unk"
            return "scal"
        if n in _ARR_CALLS:
            return "arr"
        if n == "np.searchsorted":
            return kind(a[2]) if len(a) > 2 else "unk"
        if n == "np.where":
            return "arr"
    if o == "bcast":
        return kind(a[0])
    if o == "allreduce":
        return kind(a[0])
    if o in ("attr",):
        if a[1] in ("size", "ndim"):
            return "scal"
        if a[1] in ("T",):
            return "arr"
    return "unk"


_nd_memo = {}


def ndim(x):
    """dimensionality of an array term (1 when nothing says more)."""
    r = _nd_memo.get(x)
    if r is None:
        r = _nd_memo[x] = _ndim0(x)
    return r


def _ndim0(x):
    o, a = x.op, x.args
    if o == "sym":
        n = a[0]
        return int(n[-1]) if n[-2:-1] == "@" else (
            1 if kind(x) == "arr" else 0)
    if o == "full":
        return len(a[0].args) if a[0].op == "tuple" else (
            ndim(a[0].args[0]) if a[0].op == "shapeof" else 1)
    if o in ARITH or o in CMPS or o in ("gt0", "ge0", "eq0"):
        return max([ndim(y) for y in a] or [0])
    if o == "poly":
        return max([ndim(y) for m, c in a[0] for y, e in m] or [0])
    if o in ("ite", "phi"):
        return max(ndim(a[0]) if kind(a[0]) == "arr" else 0, ndim(a[1]),
                   ndim(a[2]))
    if o == "upd":
        return ndim(a[0])
    if o in ("bcast", "allreduce", "copy", "astype"):
        return ndim(a[0])
    if o == "idx" and multi(a[0]) and a[1].op in ("const", "num"):
        return 1
    if o == "idx":
        n = ndim(a[0])
        ii = a[1].args if a[1].op == "tuple" else (a[1],)
        for i in ii:
            if i is NONE:
                n += 1
            elif i.op == "call" and i.args[0] == "np.ix_":
                pass
            elif i.op == "slice" or i.op == "ellipsis":
                pass
            elif kind(i) == "arr" or i.op == "listv":
                if is_boolean(i) and ndim(i) > 1:
                    n -= ndim(i) - 1
            elif i.op == "const" and isinstance(cval(i), str):
                pass
            else:
                n -= 1
        return max(n, 0)
    if o == "call":
        f = a[0]
        if f in ELEM or f in ("np.clip", "np.toint", "np.astype", "np.sort",
                              "np.argsort"):
            return max([ndim(y) for y in a[1:] if y.op != "kw"] or [0])
        if f in ("np.sum", "np.mean", "np.median", "np.min", "np.max",
                 "np.any", "np.all", "np.std"):
            if any(y.op == "kw" and y.args[0] == "axis" for y in a[1:]):
                return max(ndim(a[1]) - 1, 1)
            return 0
        if f == "np.outer":
            return 2
        if f == "np.transpose":
            return ndim(a[1])
        if f == "np.searchsorted":
            return ndim(a[2])
        if f in ("np.array",):
            return 1 + (ndim(a[1].args[0]) if a[1].op == "listv" and
                        a[1].args else 0)
        if f == "np.ravel":
            return 1
        if f == "np.reshape":
            return len(a[2].args) if a[2].op == "tuple" else 1
        if f == "np.concatenate" and a[1].op == "listv" and a[1].args:
            return ndim(a[1].args[0])
        if f == "np.pad":
            return ndim(a[1])
        if f == "np.diag":
            return 1 if ndim(a[1]) == 2 else 2
        if f in ("np.vstack", "np.column_stack", "np.eye", "np.cov"):
            return 2
        if isinstance(f, str) and f[:1] == "$":
            return max([ndim(y) for y in a[1:] if y.op != "kw"] or [0])
        if f == "np.dot" and len(a) == 3:
            return max(ndim(a[1]) + ndim(a[2]) - 2, 0)
        if f == "np.einsum" and a[1].op == "const" and "->" in cval(a[1]):
            return len(cval(a[1]).split("->")[1])
        return 1 if kind(x) == "arr" else 0
    if o == "matmul":
        return max(ndim(a[0]) + ndim(a[1]) - 2, 0)
    if o == "listv":
        return 1 + max([ndim(y) for y in a] or [0])
    return 1 if kind(x) == "arr" else 0


# functions that move elements without changing them
SHAPEFN = {"np." + n for n in (
    "ravel flip fliplr flipud transpose tile repeat roll squeeze expand_dims "
    "swapaxes moveaxis rollaxis atleast_1d broadcast_to reshape take compress "
    "delete").split()}


def sure1d(x):
    """a term that is certainly a one-dimensional array."""
    o, a = x.op, x.args
    if o == "sym":
        return kind(x) == "arr" and a[0][-2:-1] != "@"
    if o == "full":
        return a[0].op == "num" or kind(a[0]) == "scal"
    if o == "poly":
        ys = [y for m, c in a[0] for y, e in m]
        return any(sure1d(y) for y in ys) and all(
            sure1d(y) or kind(y) == "scal" for y in ys)
    if o == "ite":
        return sure1d(a[1]) and sure1d(a[2])
    if o == "call":
        return a[0] in ("np.linspace", "np.arange", "np.logspace",
                        "np.bincount", "np.ravel", "np.nonzero0")
    if o == "idx":
        return sure1d(a[0]) and _elem_index(a[1])
    return False


def is_boolean(t):
    o = t.op
    if o == "const":
        return isinstance(cval(t), bool)
    if o in CMPS or o in ("gt0", "ge0", "eq0", "truth", "isnone", "in",
                          "isinst", "exc", "anyiter", "is", "hasattr",
                          "nonempty", "bsym"):
        return True
    if o == "mu":
        return t.args[2] == "b"
    if o in ("bcast", "elem_of"):
        return is_boolean(t.args[0])
    if o == "ite":
        return is_boolean(t.args[1]) and is_boolean(t.args[2])
    if o == "phi":
        return is_boolean(t.args[1]) and is_boolean(t.args[2])
    if o == "call" and t.args[0] in SHAPEFN:
        return is_boolean(t.args[1])
    if o == "call":
        return t.args[0] in ("np.isnan", "np.isin", "np.isfinite",
                             "np.isinf", "np.any", "np.all", "np.allclose",
                             "any", "all", "bool", "np.array_equal",
                             "np.isclose", "isinstance", "callable")
    if o == "idx":
        return is_boolean(t.args[0])
    if o == "full":
        return is_boolean(t.args[1])
    if o == "copy":
        return is_boolean(t.args[0])
    if o == "lupd":
        return is_boolean(t.args[1]) and is_boolean(t.args[3])
    if o == "upd":
        return is_boolean(t.args[0]) and is_boolean(t.args[2])
    return False


def is_integer(t):
    o = t.op
    if o == "num":
        return t.args[0].denominator == 1
    if o in ("sizeof", "pos", "count"):
        return True
    if o == "attr" and t.args[1] in ("size", "ndim"):
        return True
    if o == "call" and t.args[0] in ("len", "int", "np.count_nonzero",
                                     "np.toint"):
        return True
    if o == "call" and t.args[0] == "np.sum":
        return is_boolean(t.args[1])
    if o == "poly":
        return all(c.denominator == 1 and all(
            is_integer(x) and e > 0 and e.denominator == 1 for x, e in m)
            for m, c in t.args[0])
    if o == "ite":
        return is_integer(t.args[1]) and is_integer(t.args[2])
    if o == "lsum":
        return is_integer(t.args[1])
    return False


# ------------------------------------------------------------ polynomials
# poly: dict {monomial: Fraction}; monomial: tuple of (atom, exp) sorted by id
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def m_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda x: x[0].id))


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


P_LIMIT = 400


def p_mul(p, q):
    if len(p) * len(q) > P_LIMIT:
        # keep factored: treat the larger as an atom
        if len(p) >= len(q):
            p = {((_atom_of(p), Fraction(1)),): Fraction(1)}
        else:
            q = {((_atom_of(q), Fraction(1)),): Fraction(1)}
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _atom_of(p):
    return mk("poly", _canon_items(p))


def _canon_items(p):
    return tuple(sorted(p.items(), key=lambda kv: (
        len(kv[0]), tuple((a.id, e) for a, e in kv[0]))))


def p_factor(p):
    """p = c * mono * P with P primitive (leading coeff 1, no common mono)."""
    items = _canon_items(p)
    common = None
    for m, c in items:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                if a in d:
                    e1, e2 = common[a], d[a]
                    common[a] = min(e1, e2)
                else:
                    common[a] = min(common[a], 0)
            for a in d:
                if a not in common and d[a] < 0:
                    common[a] = d[a]
    # exponents for atoms missing in some monomials: min with 0
    common = {a: e for a, e in common.items() if e != 0}
    inv = tuple(sorted(((a, -e) for a, e in common.items()),
                       key=lambda x: x[0].id))
    q = {m_mul(m, inv): c for m, c in items}
    items = _canon_items(q)
    lead = items[-1][1]
    q = {m: c / lead for m, c in items}
    mono = tuple(sorted(common.items(), key=lambda x: x[0].id))
    return lead, mono, q


def p_pow(p, e):
    e = Fraction(e)
    if e == 0:
        return p_const(1)
    if not p:
        return {}
    if e == 1:
        return p
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return {tuple((a, x * e) for a, x in m): c ** int(e)}
        ce = _frac_pow(c, e)
        if ce is not None:
            return {tuple((a, x * e) for a, x in m): ce}
        return {m_mul(tuple((a, x * e) for a, x in m),
                      ((num(c), e),)): Fraction(1)}
    if e.denominator == 1 and e > 0 and e <= 4 and len(p) <= 8:
        r = p
        for _ in range(int(e) - 1):
            r = p_mul(r, p)
        return r
    lead, mono, q = p_factor(p)
    base = {tuple((a, x * e) for a, x in mono): Fraction(1)}
    le = lead ** int(e) if e.denominator == 1 else _frac_pow(lead, e)
    if le is not None:
        base = {m: c * le for m, c in base.items()}
    else:
        base = p_mul(base, {((num(lead), e),): Fraction(1)})
    if len(q) == 1:
        (m, c), = q.items()
        return p_mul(base, p_pow(q, e))
    return p_mul(base, {((mk("poly", _canon_items(q)), e),): Fraction(1)})


def _frac_pow(c, e):
    if c < 0:
        return None
    try:
        import math
        n, d = c.numerator, c.denominator
        if e == Fraction(1, 2):
            a, b = math.isqrt(n), math.isqrt(d)
            if a * a == n and b * b == d:
                return Fraction(a, b)
    except Exception:
        pass
    if c == 1:
        return Fraction(1)
    return None


def to_poly(t):
    if t.op == "num":
        return p_const(t.args[0])
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const":
        v = cval(t)
        if isinstance(v, bool):
            return p_const(int(v))
        if isinstance(v, (int, float)):
            return p_const(_fr(v))
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", _canon_items(p))


def _fr(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return Fraction(v)


# ------------------------------------------------------------ normal form
_norm_memo = {}


def _arrcond(x, seen):
    """is some decision of the diagram made per element?"""
    if x.op != "ite" or x.id in seen:
        return False
    seen.add(x.id)
    return kind(x.args[0]) == "arr" or _arrcond(x.args[1], seen) or \
        _arrcond(x.args[2], seen)


def lift(fn, args):
    """apply fn to the leaves of a list of decision diagrams."""
    _budget[0] = ITE_LIMIT
    memo = {}

    def go(args):
        k = tuple(a.id for a in args)
        r = memo.get(k)
        if r is not None:
            return r
        v = None
        for a in args:
            if a.op == "ite" and (v is None or
                                  _ord(a.args[0]) < _ord(v)):
                v = a.args[0]
        if v is None:
            r = fn(*args)
        else:
            if len(memo) > 4000:
                raise Blowup()
            hi = go([_cofn(a, v, 1) for a in args])
            lo = go([_cofn(a, v, 0) for a in args])
            r = ite(v, hi, lo)
        memo[k] = r
        return r
    return go(list(args))


def _cofn(t, v, val):
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    return t


def _arith(op):
    def f(*xs):
        for x in xs:
            if x.op == "phi":
                return mk(op, *xs)
        if op == "add" and any(_is_nonnum(x) for x in xs):
            return mk("cat", *xs)
        ps = [to_poly(x) for x in xs]
        if op == "add":
            return from_poly(p_add(ps[0], ps[1]))
        if op == "sub":
            return from_poly(p_add(ps[0], ps[1], -1))
        if op == "neg":
            return from_poly(p_add({}, ps[0], -1))
        if op == "mul":
            return from_poly(p_mul(ps[0], ps[1]))
        if op == "div":
            if not ps[1]:
                return mk("div", xs[0], xs[1])
            return from_poly(p_mul(ps[0], p_pow(ps[1], -1)))
        if op == "pow":
            e = xs[1]
            if e.op == "num" and e.args[0].denominator <= 4 \
                    and abs(e.args[0]) <= 8:
                if not ps[0] and e.args[0] < 0:
                    return mk("pow", *xs)
                return from_poly(p_pow(ps[0], e.args[0]))
            return mk("pow", *xs)
        raise AssertionError(op)
    return f


def _is_nonnum(x):
    return (x.op == "const" and isinstance(cval(x), (str, bytes))) \
        or x.op in ("fstr", "tuple", "listv", "cat")


_ARITH_F = {o: _arith(o) for o in ("add", "sub", "neg", "mul", "div", "pow")}


def norm(t):
    r = _norm_memo.get(t)
    if r is not None:
        return r
    try:
        r = _norm(t)
    except Blowup:
        r = mk("blow", t)
    if r._kind is None and t._kind in ("arr", "scal"):
        if r.op not in ("const", "num"):
            r._kind = t._kind
    _norm_memo[t] = r
    _norm_memo[r] = r
    return r


def _nargs(args):
    return tuple(norm(a) if isinstance(a, T) else (
        tuple(norm(x) if isinstance(x, T) else x for x in a)
        if isinstance(a, tuple) else a) for a in args)


def strip_full(t):
    """pixel value of constant-filled arrays."""
    if t.op == "full":
        return t.args[1]
    if t.op == "ite":
        return ite(t.args[0], strip_full(t.args[1]), strip_full(t.args[2]))
    return t


def keep_shape(r, ns):
    """an array expression that collapses to a number stays an array."""
    y = r
    while y.op == "ite" and kind(y.args[0]) != "arr":
        y = y.args[1]
    if y.op != "num" and r.op != "ite":
        return r
    best = None
    for x in ns:
        if kind(x) == "arr" and (best is None or ndim(x) > ndim(best)):
            best = x
    if best is None:
        return r
    y = best
    while y.op == "ite":
        if kind(y.args[0]) != "arr":
            return r if r.op == "ite" else mk("full", mk("shapeof", best), r)
        y = y.args[1] if y.args[1].op not in ("num", "const") else y.args[2]
    if y.op in ("num", "const"):
        return r
    sh = y.args[0] if y.op == "full" else mk("shapeof", y)

    def go(z):
        if z.op == "num":
            return mk("full", sh, z)
        if z.op == "ite" and kind(z.args[0]) != "arr":
            return ite(z.args[0], go(z.args[1]), go(z.args[2]))
        return z
    return go(r)


EXTRA_RULES = []


def _norm(t):
    o, a = t.op, t.args
    if o == "const":
        v = cval(t)
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return t
        if isinstance(v, (int, float)):
            f = _fr(v)
            return t if f is None else num(f)
        return t
    if o in ("num", "sym", "poly"):
        return t
    if o in _ARITH_F:
        ns = [norm(x) for x in a]
        xs = [_b2n(strip_full(x)) for x in ns]
        r = lift(_ARITH_F[o], xs)
        return keep_shape(r, ns)
    if o == "ite":
        return ite(norm_b(a[0]), norm(a[1]), norm(a[2]))
    if o == "phi":
        return ite(norm_b(a[0]), norm(a[1]), norm(a[2]))
    if o in CMPS:
        x, y = strip_full(norm(a[0])), strip_full(norm(a[1]))
        if o in ("eq", "ne"):
            r = lift(_cmp_eq, [x, y])
            return t_not(r) if o == "ne" else r
        if o == "lt":
            return lift(_gt, [y, x])
        if o == "gt":
            return lift(_gt, [x, y])
        if o == "le":
            return lift(_ge, [y, x])
        return lift(_ge, [x, y])
    if o in ("copy", "tofloat", "bcast_id"):
        return norm(a[0])
    if o == "idx":
        return _norm_idx(norm(a[0]), norm(a[1]))
    if o == "call":
        return _norm_call(a[0], [norm(x) for x in a[1:]])
    if o == "sizeof":
        return _norm_size(norm(a[0]))
    if o == "attr" and a[1] == "size":
        return _norm_size(norm(a[0]))
    if o == "attr":
        x = norm(a[0])
        if x.op == "ite" and not _arrcond(x, set()):
            return lift(lambda y: mk("attr", y, a[1]), [x])
        if a[1] == "names" and TABLES and x.op == "attr" and \
                x.args[1] == "dtype":
            f = fields(x.args[0])
            if f is not None:
                return mk("tuple", *[const(y) for y in f])
        return mk("attr", x, a[1])
    if o == "truth":
        x = norm(a[0])
        return lift(_truth, [x])
    if o == "full":
        return mk("full", norm(a[0]), norm(a[1]))
    if o == "lsum":
        return _norm_lsum(norm(a[0]), norm(a[1]))
    if o == "upd":
        return mk("upd", norm(a[0]), norm(a[1]), strip_full(norm(a[2])))
    if o == "lscat":
        return mk("lscat", norm(a[0]), norm(a[1]), norm(a[2]),
                  strip_full(norm(a[3])), *_nargs(a[4:]))
    if o == "isnone":
        x = norm(a[0])
        return lift(lambda y: TRUE if y is NONE else (
            FALSE if y.op in ("const", "num", "tuple", "fstr", "poly", "full",
                            "comm")
            else mk("isnone", y)), [x])
    na = _nargs(a)
    return mk(o, *na)


def _b2n(x):
    if x.op == "const" and isinstance(cval(x), bool):
        return num(int(cval(x)))
    return x


def norm_b(t):
    return norm(t)


def _truth(x):
    if x.op == "const":
        return TRUE if cval(x) else FALSE
    if x.op == "num":
        return TRUE if x.args[0] else FALSE
    if x.op == "tuple":
        return TRUE if x.args else FALSE
    if is_boolean(x):
        return x
    if x.op in ("sizeof", "poly") or (x.op == "call" and is_integer(x)):
        return t_not(_cmp_eq(x, num(0)))
    return mk("truth", x)


def _cmp_eq(x, y):
    if x is y:
        return TRUE
    cx, cy = x.op in ("const", "num"), y.op in ("const", "num")
    if cx and cy:
        vx = x.args[0] if x.op == "num" else cval(x)
        vy = y.args[0] if y.op == "num" else cval(y)
        if isinstance(vx, bool):
            vx = Fraction(int(vx)) if isinstance(vy, Fraction) else vx
        if isinstance(vy, bool):
            vy = Fraction(int(vy)) if isinstance(vx, Fraction) else vy
        return TRUE if vx == vy else FALSE
    for u, v in ((x, y), (y, x)):
        if u.op == "const" and isinstance(cval(u), bool) and is_boolean(v):
            return v if cval(u) else t_not(v)
        if u is NONE:
            return mk("isnone", v)
        if u.op == "num" and is_boolean(v) and u.args[0] in (0, 1):
            return v if u.args[0] == 1 else t_not(v)
    if any(_is_nonnum(u) or u.op == "const" for u in (x, y)):
        p, q = sorted((x, y), key=lambda z: z.id)
        return mk("eq", p, q)
    d = p_add(to_poly(x), to_poly(y), -1)
    if not d:
        return TRUE
    if len(d) == 1 and () in d:
        return FALSE
    items = _canon_items(d)
    lead = items[-1][1]
    d = {m: c / lead for m, c in items}
    return mk("eq0", from_poly(d))


def _sgn(x, y, strict):
    """x > y (strict) or x >= y"""
    if _is_nonnum(x) or _is_nonnum(y):
        return mk("gt" if strict else "ge", x, y)
    d = p_add(to_poly(x), to_poly(y), -1)
    if not d:
        return FALSE if strict else TRUE
    if len(d) == 1 and () in d:
        v = d[()]
        return TRUE if (v > 0 or (v == 0 and not strict)) else FALSE
    items = _canon_items(d)
    lead = items[-1][1]
    if is_integer(from_poly(d)) and strict:
        # p > 0  <=>  p - 1 >= 0 on integers
        d2 = p_add(d, p_const(1), -1)
        return _ge0(d2)
    if lead > 0:
        q = from_poly({m: c / lead for m, c in items})
        return mk("gt0" if strict else "ge0", q)
    q = from_poly({m: c / lead for m, c in items})
    r = t_not(mk("ge0" if strict else "gt0", q))
    for a in {a.id: a for m in d for a, _ in m if _maynan(a)}.values():
        # every order comparison with a NaN is false
        r = t_and(r, t_not(norm(mk("call", "np.isnan", a))))
    return r


# input symbols that stand for raw pixels, which may hold NaN
NANSYMS = {"fb@2", "fr@2", "fz@2", "ib@2", "ir@2", "iz@2", "nanv"}


def _maynan(a):
    while a.op == "idx":
        a = a.args[0]
    return a.op == "sym" and a.args[0] in NANSYMS


def _ge0(d):
    if not d:
        return TRUE
    if len(d) == 1 and () in d:
        return TRUE if d[()] >= 0 else FALSE
    items = _canon_items(d)
    lead = items[-1][1]
    integer = is_integer(from_poly(d))
    if lead > 0:
        q = from_poly({m: c / lead for m, c in items}) if not integer \
            else from_poly(d)
        # x >= 1  with x a nonnegative count: same atom as x != 0
        return mk("ge0", q)
    if integer:
        # -p >= 0  <=> not (p - 1 >= 0)
        neg = {m: -c for m, c in items}
        return t_not(mk("ge0", from_poly(p_add(neg, p_const(1), -1))))
    q = from_poly({m: c / lead for m, c in items})
    return t_not(mk("gt0", q))


def _gt(x, y):
    return _sgn(x, y, True)


def _ge(x, y):
    return _sgn(x, y, False)


def _is_mask(i):
    return is_boolean(i) and kind(i) != "scal" and i.op != "const"


def _is_full_slice(i):
    return i.op == "slice" and i.args[0] in (NONE, ZERO, num(0)) \
        and i.args[1] is NONE and i.args[2] in (NONE, ONE, num(1))


def _norm_idx(b, i):
    if i.op == "slice" and i.args[0] is num(0):
        i = mk("slice", NONE, i.args[1], i.args[2])
    if _is_full_slice(i):
        return b
    if i.op == "slice" and i.args[1].op == "sizeof" and \
            i.args[1].args[0] is b:
        i = mk("slice", i.args[0], NONE, i.args[2])
        if _is_full_slice(i):
            return b
    if b.op == "full":
        if i.op == "slice":
            return b
        if ndim(b) > 1 and kind(i) == "scal":
            if b.args[0].op != "tuple":
                return mk("idx", b, i)
            sh = b.args[0].args[1:]
            return mk("full", sh[0] if len(sh) == 1 else mk("tuple", *sh),
                      b.args[1])
        return b.args[1]
    if _elem_index(i) and (b.op == "num" or (
            b.op == "const" and isinstance(cval(b), bool))):
        return b
    if b.op in ("ite", "phi"):
        c = b.args[0]
        if _is_mask(i) and b.op == "ite":
            b2 = restrict_mask(b, i)
            if b2 is not b:
                return _norm_idx(b2, i)
        if kind(c) == "scal" or _elem_index(i):
            if kind(c) == "scal":
                cc = c
            else:
                cc = _norm_idx(c, i)
            if b.op == "ite":
                return ite(cc, _norm_idx(b.args[1], i),
                           _norm_idx(b.args[2], i))
    if b.op == "tuple" and i.op == "num" and i.args[0].denominator == 1:
        k = int(i.args[0])
        if -len(b.args) <= k < len(b.args):
            return norm(b.args[k])
    if b.op == "upd" and b.args[1] is i and not (
            i.op == "num" and ndim(b.args[0]) > 1
            and ndim(b.args[2]) != ndim(b.args[0]) - 1):
        return b.args[2]
    if b.op == "upd" and _disjoint_index(b.args[1], i):
        return _norm_idx(b.args[0], i)
    if _elem_index(i):
        if b.op == "poly":
            return _poly_rebuild(b, lambda x: x if kind(x) == "scal"
                                 else _norm_idx(x, i)) \
                if all(kind(x) in ("scal", "arr") for m, c in b.args[0]
                       for x, e in m) else mk("idx", b, i)
        if b.op in ("gt0", "ge0", "eq0"):
            if kind(b.args[0]) == "arr":
                x = _norm_idx(b.args[0], i)
                return mk(b.op, x) if x.op != "idx" or True else None
        if b.op == "call" and b.args[0] in ELEM:
            if all(kind(x) in ("scal", "arr") for x in b.args[1:]):
                return mk("call", b.args[0], *[
                    x if kind(x) == "scal" else _norm_idx(x, i)
                    for x in b.args[1:]])
    # x[a:b][c:d] composition
    if b.op == "idx" and b.args[1].op == "slice" and i.op == "slice":
        s1, s2 = b.args[1], i
        if s1.args[2] is NONE and s2.args[2] is NONE and \
                s1.args[0] is not NONE and s2.args[0] is NONE and False:
            pass
    return mk("idx", b, i)


def _elem_index(i):
    return i.op == "slice" or _is_mask(i)


def _disjoint_index(i, j):
    def lit(x):
        return (x.op == "num") or (x.op == "const" and isinstance(
            cval(x), str))
    if lit(i) and lit(j) and i is not j:
        if i.op == "num" and j.op == "num" and \
                (i.args[0] < 0) != (j.args[0] < 0):
            return False
        return True
    if i.op == "tuple" and j.op == "tuple" and len(i.args) == len(j.args):
        return any(_disjoint_index(norm(x), norm(y))
                   for x, y in zip(i.args, j.args))
    return False


def restrict_mask(b, m):
    """value of b on the pixels selected by the boolean mask m."""
    return constrain(b, m)


def _norm_size(x):
    if x.op == "full":
        s = x.args[0]
        if s.op == "num" or kind(s) == "scal":
            return s
        if s.op == "shapeof":
            return _norm_size(s.args[0])
        if s.op == "tuple" and s.args:
            r = s.args[0]
            for y in s.args[1:]:
                r = mk("mul", r, y)
            return norm(r)
        return mk("sizeof", x)
    if x.op == "poly":
        arrs = [y for m, c in x.args[0] for y, e in m if kind(y) == "arr"]
        if arrs:
            return _norm_size(arrs[0])
    if x.op in ("gt0", "ge0", "eq0"):
        return _norm_size(x.args[0])
    if x.op == "ite" and kind(x.args[0]) == "arr":
        return _norm_size(x.args[0])
    if x.op == "ite":
        return ite(x.args[0], _norm_size(x.args[1]), _norm_size(x.args[2]))
    if x.op in ("upd", "lscat", "lupd"):
        return _norm_size(x.args[0] if x.op == "upd" else x.args[1])
    if x.op == "call":
        n = x.args[0]
        if n in ELEM:
            for y in x.args[1:]:
                if kind(y) == "arr":
                    return _norm_size(y)
        if n == "np.linspace" and len(x.args) > 3:
            return x.args[3]
        if n in ("np.argsort", "np.sort", "np.astype"):
            return _norm_size(x.args[1])
        if n == "np.array" and x.args[1].op in ("listv", "tuple") and \
                all(kind(y) == "scal" for y in x.args[1].args):
            return num(len(x.args[1].args))
    if x.op == "idx" and _is_mask(x.args[1]):
        return _norm_call("np.sum", [x.args[1]])
    return mk("sizeof", x)


def _indep(t, marks):
    for s in subterms(t):
        if s in marks:
            return False
    return True


def elem_marks(dom):
    return {mk("elem", dom), mk("pos", dom)}


def _norm_lsum(dom, x):
    """sum over loop iterations; pulls out iteration independent factors."""
    if x.op == "num" and x.args[0] == 0:
        return x
    marks = None
    if x.op == "ite":
        c = x.args[0]
        if _indep(c, _marks(dom)):
            return ite(c, _norm_lsum(dom, x.args[1]),
                       _norm_lsum(dom, x.args[2]))
        return mk("lsum", dom, x)
    p = to_poly(x)
    marks = _marks(dom)
    out = {}
    for m, c in p.items():
        ind = tuple((a, e) for a, e in m if _indep(a, marks))
        dep = tuple((a, e) for a, e in m if not _indep(a, marks))
        inner = from_poly({dep: Fraction(1)}) if dep else num(1)
        s = mk("count", dom) if not dep else mk("lsum", dom, inner)
        out = p_add(out, p_mul({ind: c}, to_poly(s)))
    return from_poly(out)


def _marks(dom):
    m = set()
    if dom.op == "doms":
        for d in dom.args:
            m |= elem_marks(d)
    else:
        m |= elem_marks(dom)
    return m


def _norm_sum(x, rest):
    """np.sum of a 1-D expression: scalar factors move out."""
    if rest:
        return mk("call", "np.sum", x, *rest)
    if ndim(x) >= 2:
        return mk("call", "np.sum", x)
    x = strip_full_keep(x)
    if x.op == "idx" and _is_mask(x.args[1]):
        return _norm_sum(ite(x.args[1], x.args[0], num(0)), ())
    if x.op == "ite" and kind(x.args[0]) == "scal":
        return ite(x.args[0], _norm_sum(x.args[1], ()),
                   _norm_sum(x.args[2], ()))
    if is_boolean(x):
        return mk("call", "np.sum", x)
    if x.op == "ite":
        lv = leaves(x)
        if len(lv) <= 40 and not any(l.op in ("phi", "blow") for _, l in lv):
            acc = {}
            for lits, leaf in lv:
                cond = conj([a if v else t_not(a) for a, v in lits])
                for m, c in to_poly(leaf).items():
                    sc = tuple((a, e) for a, e in m if kind(a) == "scal")
                    ar = tuple((a, e) for a, e in m if kind(a) != "scal")
                    k = (sc, ar, c)
                    acc[k] = t_or(acc.get(k, FALSE), cond)
            out = {}
            for (sc, ar, c), cond in acc.items():
                inner = from_poly({ar: Fraction(1)}) if ar else num(1)
                if inner.op == "num":
                    tt = mk("call", "np.sum", cond)
                else:
                    tt = mk("call", "np.sum", ite(cond, inner, num(0)))
                out = p_add(out, p_mul({sc: c}, to_poly(tt)))
            return from_poly(out)
        return mk("call", "np.sum", x)
    # masks inside monomials: sum over y[w]*z[w]
    p = to_poly(x)
    if x.op not in ("poly",):
        return mk("call", "np.sum", x)
    masks = set()
    plain = False
    for m, c in p.items():
        for a, e in m:
            if kind(a) == "scal":
                continue
            if a.op == "idx" and _is_mask(a.args[1]):
                masks.add(a.args[1])
            else:
                plain = True
    if len(masks) == 1 and not plain:
        w = masks.pop()
        full = _poly_rebuild(x, lambda a: a.args[0] if a.op == "idx" and
                             a.args[1] is w else a)
        return _norm_sum(ite(w, full, num(0)), ())
    out = {}
    for m, c in p.items():
        sc = tuple((a, e) for a, e in m if kind(a) == "scal")
        ar = tuple((a, e) for a, e in m if kind(a) != "scal")
        if not ar:
            return mk("call", "np.sum", x)
        inner = from_poly({ar: Fraction(1)})
        out = p_add(out, p_mul({sc: c}, to_poly(
            mk("call", "np.sum", inner))))
    return from_poly(out)


def strip_full_keep(x):
    return x


def _norm_call(n, xs):
    pos = [x for x in xs if x.op != "kw"]
    kws = [x for x in xs if x.op == "kw"]
    if n in ELEM:
        pos = [strip_full(x) for x in pos]
    if n == "np.sqrt" and len(pos) == 1:
        return lift(lambda x: _ARITH_F["pow"](x, num(Fraction(1, 2))), pos)
    if n == "np.dot" and len(pos) == 2 and not kws:
        if kind(pos[0]) == "scal" or not any(_is2d(x) for x in pos):
            return _norm_sum(lift(_ARITH_F["mul"], [
                strip_full(_b2n(x)) for x in pos]), ())
        return mk("call", n, *pos)
    if n == "np.sum" and len(pos) == 1:
        return _norm_sum(strip_full_sum(pos[0]), kws)
    if n == "np.mean" and len(pos) == 1 and not kws:
        return _ARITH_F["div"](_norm_sum(pos[0], ()), _norm_size(pos[0])) \
            if kind(pos[0]) == "arr" else mk("call", n, *pos)
    if n == "np.count_nonzero" and len(pos) == 1 and is_boolean(pos[0]):
        return _norm_sum(pos[0], ())
    if n in ELEM:
        return lift(lambda *ys: _elem_fold(n, ys), pos) if not kws else \
            mk("call", n, *(pos + kws))
    if n in ("np.any", "any") and len(pos) == 1 and not kws:
        return _any(pos[0])
    if n in ("np.all", "all") and len(pos) == 1 and not kws:
        return t_not(_any(t_not(_tb(pos[0]))))
    if n == "len" and len(pos) == 1:
        x = pos[0]
        if x.op == "tuple":
            return num(len(x.args))
        if kind(x) == "arr" and not _is2d(x):
            return _norm_size(x)
    if n == "int" and pos and is_integer(pos[0]):
        return pos[0]
    if n in ("float",) and pos and pos[0].op in ("num", "poly"):
        return pos[0]
    for r in EXTRA_RULES:
        y = r(n, pos, kws)
        if y is not None:
            return y
    return mk("call", n, *(pos + sorted(kws, key=lambda k: k.args[0])))


def strip_full_sum(x):
    return x


def _is2d(x):
    return ndim(x) >= 2


def _tb(x):
    return x if is_boolean(x) else _truth(x)


def _any(x):
    """existential over pixels, distributes over or."""
    if x.op == "const":
        return TRUE if cval(x) else FALSE
    return mk("call", "np.any", x)


def _elem_fold(n, ys):
    y = ys[0]
    if n in ("np.isnan", "np.isinf") and y.op in ("num",):
        return FALSE
    if n == "np.isfinite" and y.op == "num":
        return TRUE
    if n == "np.abs" and y.op == "num":
        return num(abs(y.args[0]))
    if n in ("np.log", ) and y.op == "num" and y.args[0] == 1:
        return num(0)
    if n == "np.exp" and y.op == "num" and y.args[0] == 0:
        return num(1)
    if n == "np.log":
        # ln(x^k) = k ln(x) is only used on single powers of one atom
        p = to_poly(y)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) >= 1 and all(e != 0 for a, e in m):
                if len(m) == 1 and m[0][1] != 1:
                    return from_poly({((mk("call", "np.log", m[0][0]),
                                        Fraction(1)),): m[0][1]})
    if n in ("np.fmin", "np.minimum", "np.fmax", "np.maximum"):
        ys = sorted(ys, key=lambda z: z.id)
    if n == "np.toint" and is_integer(y):
        return y
    if n == "np.tofloat":
        return y
    return mk("call", n, *ys)


# -------------------------------------------------------------- equality
EQ_DEPTH = [0]


def eq_terms(a, b):
    """equal normal forms (rational functions are cross multiplied)."""
    a, b = strip_full(norm(a)), strip_full(norm(b))
    if a is b:
        return True
    EQ_DEPTH[0] += 1
    if EQ_DEPTH[0] == 1:
        WORK[0] = 0
    try:
        d = lift(lambda x, y: TRUE if _leaf_eq(x, y) else FALSE, [a, b])
    except Blowup:
        return False
    except TooMuch:
        # give up on the symbolic proof; the caller falls back
        if EQ_DEPTH[0] > 1:
            raise
        return False
    finally:
        EQ_DEPTH[0] -= 1
    return d is TRUE


def _leaf_eq(x, y):
    if x is y:
        return True
    if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
        return all(eq_terms(p, q) for p, q in zip(x.args, y.args))
    if x.op == "const" or y.op == "const" or x.op == "tuple" \
            or y.op == "tuple":
        return False
    if is_boolean(x) != is_boolean(y):
        return False
    if x.op == y.op and x.op not in ("poly", "num", "sym") and \
            len(x.args) == len(y.args) and x.op != "const":
        ok = True
        for p, q in zip(x.args, y.args):
            if isinstance(p, T) and isinstance(q, T):
                if not eq_terms(p, q):
                    ok = False
                    break
            elif p != q:
                ok = False
                break
        if ok:
            return True
    d = p_add(to_poly(x), to_poly(y), -1)
    return _p_zero(d)


def _p_zero(d, depth=0):
    if not d:
        return True
    if depth > 6:
        return False
    # clear negative powers of polynomial atoms
    negs = {}
    for m in d:
        for a, e in m:
            if a.op == "poly" and e < 0:
                negs[a] = max(negs.get(a, 0), -e)
    # expand positive integer powers of poly atoms
    pos = any(a.op == "poly" and e > 0 and e.denominator == 1
              for m in d for a, e in m)
    if not negs and not pos:
        return False
    out = {}
    for m, c in d.items():
        q = {(): c}
        dm = dict(m)
        for a, n in negs.items():
            dm[a] = dm.get(a, 0) + n
        for a, e in dm.items():
            if e == 0:
                continue
            if a.op == "poly" and e > 0 and e.denominator == 1 and e <= 6:
                r = {(): Fraction(1)}
                base = dict(a.args[0])
                for _ in range(int(e)):
                    r = _p_mul_big(r, base)
                q = _p_mul_big(q, r)
            else:
                q = _p_mul_big(q, {((a, e),): Fraction(1)})
        out = p_add(out, q)
        if len(out) > 20000:
            return False
    if out == d:
        return False
    return _p_zero(out, depth + 1)


WORK = [0]
WORK_MAX = 60000


class TooMuch(Exception):
    pass


def _p_mul_big(p, q):
    r = {}
    WORK[0] += len(p) * len(q)
    if WORK[0] > WORK_MAX:
        raise TooMuch
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def has_opaque(t):
    return contains(t, lambda s: s.op in ("opaque", "blow"))
