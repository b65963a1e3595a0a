"""Meaning of everything outside the repository: Python builtins, numpy,
fitsio, MPI, argparse, multiprocessing.  Unknown functions become opaque
value terms (equal arguments give equal results) plus an effect event."""
from fractions import Fraction
from . import terms as t
from .terms import (mk, const, sym, tup, TRUE, FALSE, NONE, ite, t_not, t_and,
                    t_or, norm, cval, kind, is_boolean, num, leafset)

COMM = mk("comm")
RANK = sym("RANK", "scal")
SIZE = sym("SIZE", "scal")
ROOT = norm(mk("eq", RANK, const(0)))
UNINIT = mk("uninit")
UNINIT._kind = "scal"

DRIVER_BUILTINS = {"SYM", "TABLE", "ARR", "ARR2", "BOOL", "OBJ", "COMMOBJ", "SCAL",
                   "FN", "INTSYM", "RECORD", "VALUE", "STR", "ROWS", "ASSUME",
                   "LAZYDICT", "OPAQUE"}
ATTR_KINDS = {}
MUTATORS = {"fill": 1, "sort": 1, "append": 1, "extend": 1, "update": 1,
            "put": 1, "resize": 1, "itemset": 1, "partition": 1}
_AXIS_RED = {"sum", "mean", "median", "min", "max", "std", "var", "any",
             "all", "prod", "argmin", "argmax", "cumsum", "argsort"}
_ALIASES = {
    "np.amax": "np.max", "np.amin": "np.min", "np.absolute": "np.abs",
    "np.fabs": "np.abs", "np.logical_not": "not", "np.float64": "float",
    "np.product": "np.prod", "np.nansum": "np.nansum",
    "np.true_divide": "np.divide", "np.power": "np.power",
    "np.deg2rad": "np.radians", "np.rad2deg": "np.degrees",
    "np.matmul": "np.matmul", "np.around": "np.round",
    "np.square": "np.square", "np.negative": "np.negative",
    "np.in1d": "np.isin", "math.sqrt": "np.sqrt", "math.exp": "np.exp",
    "math.log": "np.log", "math.log10": "np.log10", "np.vdot": "np.dot",
    "np.inner": "np.dot", "math.fabs": "np.abs", "math.floor": "np.floor",
    "math.isnan": "np.isnan", "math.isfinite": "np.isfinite",
}
_BINFN = {"np.add": "Add", "np.subtract": "Sub", "np.multiply": "Mult",
          "np.divide": "Div", "np.power": "Pow", "np.floor_divide":
          "FloorDiv", "np.mod": "Mod", "np.remainder": "Mod",
          "np.bitwise_and": "BitAnd", "np.bitwise_or": "BitOr",
          "np.logical_and": "BitAnd", "np.logical_or": "BitOr",
          "operator.add": "Add", "operator.sub": "Sub",
          "operator.mul": "Mult", "operator.truediv": "Div"}
_CMPFN = {"np.equal": "Eq", "np.not_equal": "NotEq", "np.greater": "Gt",
          "np.less": "Lt", "np.greater_equal": "GtE", "np.less_equal":
          "LtE", "operator.eq": "Eq", "operator.lt": "Lt",
          "operator.gt": "Gt"}
PURE_PREFIX = ("np.", "os.path.", "math.", "scipy.", "numba.", "operator.",
               "healpy.", "numpy.")
COLLECTIVES = {"bcast", "Bcast", "scatter", "Scatter", "gather", "Gather",
               "reduce", "Reduce", "allreduce", "Allreduce", "allgather",
               "Allgather", "Barrier", "barrier", "alltoall", "Scatterv",
               "Gatherv", "Allgatherv", "exscan", "scan", "Split"}


# ------------------------------------------------------- rank divergence
_div_memo = {}


def divergent(x):
    """may this value differ between MPI ranks?"""
    r = _div_memo.get(x)
    if r is not None:
        return r
    if x is RANK or x.op in ("scatter", "exc", "rootonly", "anyexc"):
        r = True
    elif x.op in ("sym", "bsym"):
        r = str(x.args[0]).startswith("L_")
    elif x.op in ("bcast", "allreduce", "comm"):
        r = False
    elif x.op == "phi":
        r = any(divergent(a) for a in x.args)
    else:
        r = False
        for a in x.args:
            if isinstance(a, t.T):
                if divergent(a):
                    r = True
                    break
            elif isinstance(a, tuple):
                for y in _flat(a):
                    if divergent(y):
                        r = True
                        break
    _div_memo[x] = r
    return r


def _flat(a):
    for y in a:
        if isinstance(y, t.T):
            yield y
        elif isinstance(y, tuple):
            yield from _flat(y)


def to_root(x):
    """the value root holds, marked as shared by all ranks."""
    x = t.restrict(x, {ROOT: True})

    def go(y):
        if y.op == "ite":
            c = y.args[0]
            if divergent(c):
                c = mk("bcast", c)
            return ite(c, go(y.args[1]), go(y.args[2]))
        if y.op == "tuple":
            return tup([go(z) for z in y.args])
        if y.op in ("ref", "fn", "const", "num", "ext"):
            return y
        if divergent(y):
            return mk("bcast", y)
        return y
    return go(x)


def share(I, v, st):
    """what a rank receives when root sends it this list of arrays."""
    if I.is_ref(v, "list"):
        xs = [(g, share(I, x, st)) for g, x in I.items(st, v)]
        if any(x is None for _, x in xs):
            return None
        return I.new_list(st, [x for _, x in xs], [
            to_root(g) if g not in (TRUE, FALSE) else g for g, _ in xs])
    if I.is_arrayish(v, st):
        return I.new_arr(st, to_root(norm(I.val(v, st))))
    if v.op == "ite":
        ls = leafset(v)
        if not all(I.is_ref(x, "list") or I.is_arrayish(x, st) for x in ls):
            return None

        def go(y):
            if y.op != "ite":
                return share(I, y, st)
            return ite(to_root(y.args[0]), go(y.args[1]), go(y.args[2]))
        return go(v)
    if v.op in ("const", "num"):
        return v
    return None


# ----------------------------------------------------------- ext attrs
_CONSTS = {"np.pi": 3.141592653589793, "np.e": 2.718281828459045,
           "np.nan": None, "np.inf": None, "math.pi": 3.141592653589793}


def ext_attr(I, name):
    if name == "np.newaxis":
        return NONE
    if name in ("np.pi", "math.pi"):
        return sym("np.pi", "scal")
    if name in ("np.nan", "np.inf", "math.nan", "math.inf", "np.NaN",
                "np.NAN", "np.Inf"):
        return sym("np." + name.split(".")[1].lower(), "scal")
    if name == "np.finfo().eps":
        return sym("eps", "scal")
    if name in ("MPI.COMM_WORLD",):
        return COMM
    if name in ("MPI.IN_PLACE", "MPI.SUM", "MPI.MIN", "MPI.MAX",
                "MPI.LOGICAL_OR", "MPI.LOR"):
        return mk("ext", name)
    return mk("ext", name)


# ----------------------------------------------------------- utilities
def V(I, v, st):
    return I.deep(v, st)


def _kw(I, kw, st):
    return [mk("kw", k, I.deep(v, st)) for k, v in sorted(kw.items())]


def fn_key(I, f):
    return f


def mkcall(I, name, args, kw, st, k=None):
    r = mk("call", name, *([I.deep(a, st) for a in args] + _kw(I, kw, st)))
    if k and r._kind is None:
        r._kind = k
    return r


def shape_of(I, v, st):
    x = norm(I.val(v, st))
    if x.op == "full":
        return x.args[0]
    from .interp import _ndim
    if _ndim(x) > 1 or (x.op == "call" and x.args[0] not in t.ELEM):
        return mk("shapeof", x)
    return norm(mk("sizeof", x))


def is_bool_dtype(v):
    return v is not None and ((v.op == "ext" and v.args[0] in (
        "bool", "np.bool_", "np.bool")) or (
        v.op == "const" and cval(v) in ("bool", "?", "b1")))


def is_int_dtype(v):
    return v is not None and ((v.op == "ext" and v.args[0] in (
        "int", "np.int_", "np.int64", "np.int32", "np.intp", "np.uint")) or (
        v.op == "const" and isinstance(cval(v), str)
        and cval(v)[:1] in "iu"))


def is_float_dtype(v):
    return v is not None and ((v.op == "ext" and v.args[0] in (
        "float", "np.float_", "np.float64", "np.double", "np.float32")) or (
        v.op == "const" and isinstance(cval(v), str)
        and cval(v)[:1] in "fd"))


def shp(I, v, st):
    x = norm(I.deep(v, st))
    if x.op == "listv":
        x = tup(x.args)
    if x.op == "tuple" and len(x.args) == 1:
        x = x.args[0]
    return x


def full(I, shape, v):
    return mk("full", shape, v)


# ------------------------------------------------------------ call_ext
def call_ext(I, name, args, kw, st, node):
    name = _ALIASES.get(name, name)
    if name.startswith("$"):
        return driver_builtin(I, name[1:], args, kw, st, node)
    h = HANDLERS.get(name)
    if h is not None:
        r = h(I, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if name in _BINFN:
        return binfn(I, _BINFN[name], args, kw, st, node)
    if name in _CMPFN:
        return I.compare(_CMPFN[name], args[0], args[1], st, node)
    if name in ("np.logical_not", "not", "np.invert", "np.bitwise_not"):
        x = norm(I.val(args[0], st))
        return t_not(x) if is_boolean(x) else t_not(norm(mk("eq", x,
                                                            const(0))))
    if name in t.ELEM:
        out = kw.pop("out", None) if kw else None
        where = kw.pop("where", None) if kw else None
        r = mk("call", name, *[I.val(a, st) for a in args])
        return finish_out(I, r, out, where, st, node)
    from .interp import BUILTIN_EXC
    if name in BUILTIN_EXC:
        return mk("excinst", name, *[I.deep(a, st) for a in args])
    parts = name.split(".")
    if parts[0] == "np" and parts[-1] in _AXIS_RED and len(parts) == 2:
        return reduction(I, parts[-1], args, kw, st, node)
    if parts[0] == "logging" or parts[0] == "warnings":
        I.event("log", st, name=name, args=tuple(
            I.deep(a, st) for a in args))
        return NONE
    if name.startswith("MPI."):
        I.event("mpi", st, name=name)
        return mkcall(I, name, args, kw, st)
    if parts[-1] == "Pool" and "multiprocessing" in parts[0]:
        I.event("pool", st)
        return mk("pool")
    if not (name.startswith(PURE_PREFIX)) or name in (
            "np.loadtxt", "np.savetxt", "np.load", "np.save",
            "np.genfromtxt"):
        I.event("extcall", st, name=name,
                args=tuple(I.deep(a, st) for a in args),
                kw={k: I.deep(v, st) for k, v in kw.items()})
    # callbacks handed to external code are analysed once for effects
    I.opaque_calls[name] = I.opaque_calls.get(name, 0) + 1
    return mkcall(I, name, args, kw, st, "arr" if name.startswith(
        "np.lib.recfunctions.") else None)


def finish_out(I, r, out, where, st, node):
    if out is None:
        if where is not None:
            w = norm(I.val(where, st))
            return ite(w, r, UNINIT)
        return r
    if out.op == "tuple":
        out = out.args[0]
    if where is not None:
        w = norm(I.val(where, st))
        r = ite(w, norm(r), norm(I.val(out, st)))
    if not any(x.op in ("ref", "view") for x in t.leafset(out)):
        return r            # a new array nobody else holds
    I.arr_write(out, r, st, node)
    return out


def binfn(I, op, args, kw, st, node):
    kw = dict(kw)
    out, where = kw.get("out"), kw.get("where")
    if len(args) == 3:
        out = args[2]
    r = I.binop(op, I.val(args[0], st), I.val(args[1], st), st, node)
    return finish_out(I, r, out, where, st, node)


def reduction(I, m, args, kw, st, node):
    kw = {k: v for k, v in kw.items() if k not in ("dtype", "keepdims")
          or (k == "keepdims" and v is not FALSE)}
    kw.pop("out", None)
    args = list(args)
    if len(args) > 1 and "axis" not in kw:
        kw["axis"] = args.pop(1)
    if "axis" in kw and kw["axis"] is NONE:
        kw.pop("axis")
    x = I.deep(args[0], st)
    if x.op == "listv" and m in ("min", "max", "sum", "any", "all") \
            and not kw:
        if m in ("any", "all"):
            r = FALSE if m == "any" else TRUE
            for y in x.args:
                c = I.truth(y, st)
                r = t_or(r, c) if m == "any" else t_and(r, c)
            return r
        if m in ("min", "max"):
            return minmax("np." + m, x.args)
        r = num(0)
        for y in x.args:
            r = mk("add", r, y)
        return r
    return mk("call", "np." + m, x, *([I.deep(a, st) for a in args[1:]]
                                      + _kw(I, kw, st)))


def minmax(name, xs):
    xs = [norm(x) for x in xs]
    flat = []
    base = "min" if name.endswith("min") else "max"
    for x in xs:
        if x.op == "call" and x.args[0] == base + "s":
            flat += x.args[1:]
        else:
            flat.append(x)
    cs = [x for x in flat if x.op == "num"]
    rest = sorted({x for x in flat if x.op != "num"}, key=lambda z: z.id)
    if cs:
        f = min if base == "min" else max
        rest.append(num(f(c.args[0] for c in cs)))
    if len(rest) == 1:
        return rest[0]
    r = mk("call", base + "s", *rest)
    if r._kind is None:
        r._kind = "scal"
    return r


# -------------------------------------------------------- driver helpers
def driver_builtin(I, n, args, kw, st, node):
    def s(i=0):
        return cval(args[i])
    if n == "SYM":
        return sym(s())
    if n == "SCAL":
        return sym(s(), "scal")
    if n == "INTSYM":
        r = mk("call", "int", sym(s(), "scal"))
        r._kind = "scal"
        return r
    if n == "ARR":
        return I.new_arr(st, sym(s(), "arr"))
    if n == "TABLE":
        cols = norm(I.deep(args[1], st))
        cols = tuple(cval(y) for y in cols.args)
        name = f"{s()}@t{abs(hash(cols)) % 10**9}x"
        t.TABLES[name] = cols
        return I.new_arr(st, sym(name, "arr"))
    if n == "ARR2":
        return I.new_arr(st, sym(s() + "@2", "arr"))
    if n == "BOOL":
        return mk("bsym", s())
    if n == "STR":
        return sym(s(), "scal")
    if n == "OBJ":
        return I.exists(st, I.alloc("inst", lazy=sym(s()), site="driver"))
    if n == "LAZYDICT":
        r = I.new_dict(st)
        I.m(r).lazy = sym(s())
        return r
    if n == "COMMOBJ":
        return COMM
    if n == "OPAQUE":
        return mk("opaque", s())
    if n == "FN":
        # an unknown pure elementwise function of its arguments
        return mk("ufn", s())
    if n == "VALUE":
        return I.deep(args[0], st)
    if n == "RECORD":
        I.event("record", st, key=s(), value=I.deep(args[1], st),
                raw=args[1])
        return NONE
    if n == "ASSUME":
        c = I.truth(args[0], st)
        st.path = t_and(st.path, c)
        st.abs = t_and(st.abs, c)
        return NONE
    raise AssertionError(n)


# ------------------------------------------------------------- builtins
def b_len(I, args, kw, st, node):
    def leaf(v, s):
        if I.is_ref(v, "list"):
            return _count(I.items(s, v))
        if I.is_ref(v, "dict"):
            return _count([(g, k) for k, g in I.dict_keys(s, v)])
        if v.op in ("tuple", "listv"):
            return const(len(v.args))
        if v.op in ("dview", "lazyzip", "lazyenum", "lazyrev"):
            return _count(I.iter_items(v, s, node))
        if v.op == "range":
            a, b, c = v.args
            if c is const(1):
                return norm(mk("sub", b, a))
        if v.op == "const" and isinstance(cval(v), (str, bytes)):
            return const(len(cval(v)))
        if I.is_ref(v, "inst"):
            f = I.find_attr_cls(v, "__len__", s)
            if f is not None:
                return I.call(I.bind(f, v), [], {}, s, node)
        x = norm(I.val(v, s))
        from .interp import _ndim
        if kind(x) == "arr" and _ndim(x) == 1:
            return norm(mk("sizeof", x))
        r = mk("call", "len", x)
        r._kind = "scal"
        return norm(r)
    return I.lift1(args[0], leaf, st)


def _count(its):
    n, extra = 0, None
    for g, _ in its:
        if g is TRUE:
            n += 1
        else:
            x = ite(g, num(1), num(0))
            extra = x if extra is None else norm(mk("add", extra, x))
    if extra is None:
        return const(n)
    return norm(mk("add", num(n), extra))


def b_range(I, args, kw, st, node):
    a = [norm(I.val(x, st)) for x in args]
    if len(a) == 1:
        a = [const(0), a[0], const(1)]
    elif len(a) == 2:
        a = a + [const(1)]
    return mk("range", *a)


def b_enumerate(I, args, kw, st, node):
    start = kw.get("start") or (args[1] if len(args) > 1 else const(0))
    return mk("lazyenum", args[0], I.val(start, st))


def b_zip(I, args, kw, st, node):
    return mk("lazyzip", *args)


def b_map(I, args, kw, st, node, star=False):
    f = args[0]
    cols = [I.iter_items(a, st, node) for a in args[1:]]
    n = min(len(c) for c in cols)
    r = I.new_list(st, (), gen=True)
    for j in range(n):
        g = t.conj([c[j][0] for c in cols])

        def one(s):
            xs = [c[j][1] for c in cols]
            if star:
                xs = [y for _, y in I.iter_items(xs[0], s, node)]
            v = I.box(I.call(f, xs, {}, s, node), s)
            list_add(I, r, v, s)
        I.loopstack.append((I.where(), I.dom_of(args[1], st)))
        try:
            I.branch(g, st, one, lambda s: None)
        finally:
            I.loopstack.pop()
    return r


def b_filter(I, args, kw, st, node):
    r = I.new_list(st, (), gen=True)
    for g, v in I.iter_items(args[1], st, node):
        def one(s):
            c = I.truth(v if args[0] is NONE else I.call(
                args[0], [v], {}, s, node), s)
            I.branch(c, s, lambda x: list_add(I, r, v, x), lambda x: None)
        I.branch(g, st, one, lambda s: None)
    return r


def list_add(I, r, v, st):
    I.put(st, (r.args[0], "#items"), I.items(st, r) + ((TRUE, v),))
    note_growth(I, r)


def note_growth(I, r):
    if I.loopstack:
        m = I.m(r)
        tg = m.tag or {}
        for w, d in I.loopstack:
            tg[d] = w
        m.tag = tg


def b_list(I, args, kw, st, node):
    if not args:
        return I.new_list(st)

    def leaf(v, s):
        its = I.iter_items(v, s, node)
        if not I.is_ref(v) and v.op not in (
                "tuple", "dview", "lazyzip", "lazyenum", "lazyrev", "range",
                "const", "listv"):
            x = norm(I.val(v, s))
            return mk("call", "list", x)
        r = I.new_list(s, [x for _, x in its], [g for g, _ in its])
        if I.is_ref(v) and I.m(v).tag:
            I.m(r).tag = dict(I.m(v).tag)
        return r
    return I.lift1(args[0], leaf, st)


def b_tuple(I, args, kw, st, node):
    if not args:
        return tup([])
    its = I.iter_items(args[0], st, node)
    if all(g is TRUE for g, _ in its):
        return tup([x for _, x in its])
    return I.new_list(st, [x for _, x in its], [g for g, _ in its])


def b_set(I, args, kw, st, node):
    if args and args[0].op == "ite":
        return I.lift1(args[0], lambda x, s: b_set(I, [x], kw, s, node), st)
    r = I.new_list(st, (), isset=True)
    if args:
        v = args[0]
        if not (I.is_ref(v) or v.op in ("tuple", "dview", "listv", "lazyzip",
                                        "range")):
            x = norm(I.val(v, st))
            if x.op not in ("listv", "const"):
                return mk("call", "set", x)
        for g, x in I.iter_items(v, st, node):
            set_add(I, r, x, st, g)
    return r


def set_add(I, r, v, st, g=TRUE):
    its = I.items(st, r)
    k = I.key(v, st)
    out, hit = [], False
    for h, x in its:
        if I.key(x, st) is k:
            out.append((t_or(h, g), x))
            hit = True
        else:
            out.append((h, x))
    if not hit:
        out.append((g, v))
    I.put(st, (r.args[0], "#items"), tuple(out))
    note_growth(I, r)
    return NONE


def b_dict(I, args, kw, st, node):
    r = I.new_dict(st)
    dict_update(I, r, args, kw, st, node)
    return r


def dict_update(I, r, args, kw, st, node):
    for a in args:
        if I.is_ref(a, "dict"):
            for k, g in I.dict_keys(st, a):
                v = I.dict_get(st, a, k)[0]
                I.branch(g, st, lambda s, k=k, v=v: I.dict_set(s, r, k, v),
                         lambda s: None)
            if I.m(a).lazy is not None and I.m(r).lazy is None:
                I.m(r).lazy = I.m(a).lazy
        elif a.op == "ite":
            I.lift1(a, lambda x, s: (dict_update(
                I, r, [x], {}, s, node), NONE)[1], st)
        elif I.is_ref(a, "list") or a.op in ("tuple", "lazyzip", "lazyenum"):
            for g, p in I.iter_items(a, st, node):
                k, v = I.unpack(p, 2, st, node)
                I.branch(g, st, lambda s, k=k, v=v: I.dict_set(
                    s, r, I.key(k, s), v), lambda s: None)
        else:
            I.m(r).lazy = norm(I.deep(a, st))
    for k, v in kw.items():
        I.dict_set(st, r, const(k), I.box(v, st))
    return NONE


def b_int(I, args, kw, st, node):
    if not args:
        return const(0)
    x = norm(I.val(args[0], st))
    if x.op == "num":
        f = x.args[0]
        return const(int(f))
    if x.op == "const" and isinstance(cval(x), (str, bool)):
        try:
            return const(int(cval(x)))
        except ValueError:
            pass
    if t.is_integer(x):
        return x
    r = mk("call", "int", x)
    r._kind = "scal"
    return r


def b_float(I, args, kw, st, node):
    x = I.val(args[0], st)
    return x if x.op != "const" or not isinstance(cval(x), str) else \
        mk("call", "float", x)


def b_str(I, args, kw, st, node):
    from .interp import fold_str
    if not args:
        return const("")
    return fold_str([norm(I.val(args[0], st))])


def b_bool(I, args, kw, st, node):
    return I.truth(args[0], st)


def b_abs(I, args, kw, st, node):
    return mk("call", "np.abs", I.val(args[0], st))


def _minmax(name):
    def f(I, args, kw, st, node):
        if "key" in kw:
            return mkcall(I, name, args, kw, st)
        if len(args) == 1:
            v = args[0]
            if I.is_ref(v, "list") or v.op in ("tuple", "dview", "listv") \
                    or I.is_ref(v, "dict"):
                its = I.iter_items(v, st, node)
                if all(g is TRUE for g, _ in its):
                    return minmax(name, [I.val(x, st) for _, x in its])
                return mkcall(I, name, args, kw, st, "scal")
            return mk("call", "np." + name, I.val(v, st))
        return minmax(name, [I.val(x, st) for x in args])
    return f


def b_sum(I, args, kw, st, node):
    v = args[0]
    if I.is_ref(v, "list") or v.op in ("tuple", "dview", "listv"):
        r = args[1] if len(args) > 1 else kw.get("start", num(0))
        its = list(I.iter_items(v, st, node))
        objs = [x for _, x in its] + [r]
        if any(y.op in ("tuple", "listv") or (
                y.op == "ref" and I.m(y).kind != "arr")
               for x in objs for y in leafset(x)):
            if not all(g is TRUE for g, _ in its):
                return mkcall(I, "sum", args, kw, st)
            for _, x in its:
                r = I.binop("Add", r, x, st, node)
            return r
        r = I.val(r, st)
        for g, x in its:
            y = I.val(x, st)
            if is_boolean(y):
                y = ite(y, num(1), num(0)) if kind(y) == "scal" else y
            r = norm(mk("add", r, y if g is TRUE else ite(g, norm(y),
                                                         num(0))))
        return r
    return mk("call", "np.sum", I.val(v, st))


def _anyall(name):
    def f(I, args, kw, st, node):
        v = args[0]
        if I.is_ref(v, "list") or v.op in ("tuple", "dview", "listv") or \
                I.is_ref(v, "dict"):
            r = FALSE if name == "any" else TRUE
            for g, x in I.iter_items(v, st, node):
                c = I.truth(x, st)
                r = t_or(r, t_and(g, c)) if name == "any" else \
                    t_and(r, t_or(t_not(g), c))
            return r
        x = norm(I.val(v, st))
        return norm(mk("call", "np." + name, x))
    return f


def b_sorted(I, args, kw, st, node):
    v = args[0]
    if v.op == "ite":
        return I.lift1(v, lambda x, s: b_sorted(I, [x], kw, s, node), st)
    if I.is_ref(v, "list") or v.op in ("tuple", "dview", "listv") or \
            I.is_ref(v, "dict"):
        r = b_list(I, [v], {}, st, node)
        list_method(I, r, "sort", [], kw, st, node)
        return r
    return mkcall(I, "sorted", args, kw, st)


def b_reversed(I, args, kw, st, node):
    return mk("lazyrev", args[0])


def b_isinstance(I, args, kw, st, node):
    def one(v, c, s):
        if c.op == "tuple":
            r = FALSE
            for x in c.args:
                r = t_or(r, one(v, x, s))
            return r
        if v.op == "ref":
            m = I.m(v)
            if m.kind == "inst" and m.cls is not None:
                if I.is_ref(c, "class"):
                    return const(c in I.mro(m.cls))
                if c.op == "ext":
                    return const(c.args[0] in I.exc_names(v))
                return FALSE
            nm = c.args[0] if c.op == "ext" else None
            if m.kind == "list":
                return const(nm == ("set" if m.isset else "list"))
            if m.kind == "dict":
                return const(nm == "dict")
            if m.kind == "arr":
                return const(nm == "np.ndarray")
        if c.op == "ext":
            nm = c.args[0]
            if v.op == "tuple":
                return const(nm == "tuple")
            if v.op == "const":
                x = cval(v)
                tys = {"int": int, "float": float, "str": str, "bool": bool}
                if nm in tys:
                    return const(isinstance(x, tys[nm]))
                return FALSE
            if v.op == "num" or t.is_integer(v):
                if nm in ("int", "np.integer"):
                    return const(v.op != "num" or
                                 v.args[0].denominator == 1)
                if nm in ("tuple", "list", "str", "dict"):
                    return FALSE
        if I.is_ref(c, "class") and v.op in ("const", "num", "tuple", "fn"):
            return FALSE
        return mk("isinst", norm(I.deep(v, s)), c)
    return I.lift1(args[0], lambda v, s: one(v, args[1], s), st)


def b_print(I, args, kw, st, node):
    I.event("log", st, name="print", args=())
    return NONE


def b_getattr(I, args, kw, st, node):
    n = I.as_str(args[1])
    if n is None:
        return mkcall(I, "getattr", args, kw, st)
    v = args[0]
    if len(args) > 2 and I.is_ref(v, "inst") and I.m(v).lazy is None:
        x = st.heap.get((v.args[0], n))
        if (x is None or x.op == "undef") and \
                I.find_attr_cls(v, n, st) is None:
            return args[2]
    return I.getattr(v, n, st, node)


def b_setattr(I, args, kw, st, node):
    n = I.as_str(args[1])
    if n is not None:
        I.setattr(args[0], n, I.box(args[2], st), st, node)
    return NONE


def b_hasattr(I, args, kw, st, node):
    n = I.as_str(args[1])
    v = args[0]
    if n and I.is_ref(v, "inst") and I.m(v).lazy is None:
        x = st.heap.get((v.args[0], n))
        return const((x is not None and x.op != "undef") or
                     I.find_attr_cls(v, n, st) is not None)
    return mk("hasattr", norm(I.deep(v, st)), args[1])


def b_type(I, args, kw, st, node):
    v = args[0]
    if I.is_ref(v, "inst") and I.m(v).cls is not None:
        return I.m(v).cls
    return mkcall(I, "type", args, kw, st)


def b_open(I, args, kw, st, node):
    mode = kw.get("mode") or (args[1] if len(args) > 1 else const("r"))
    I.event("open", st, lib="open", fname=I.deep(args[0], st),
            mode=I.deep(mode, st), clobber=NONE)
    return mkcall(I, "open", args, kw, st)


def b_exit(I, args, kw, st, node):
    code = I.deep(args[0], st) if args else NONE
    I.event("exit", st, code=code)
    I.do_raise(mk("excinst", "SystemExit", code), st, I.frames[-1], node)


def b_round(I, args, kw, st, node):
    x = norm(I.val(args[0], st))
    if x.op == "num" and len(args) == 1:
        return const(round(x.args[0]))
    r = mk("call", "round", *[I.val(a, st) for a in args])
    r._kind = "scal"
    return r


def b_iter(I, args, kw, st, node):
    its = I.iter_items(args[0], st, node)
    return I.new_list(st, [x for _, x in its], [g for g, _ in its], gen=True)


def b_next(I, args, kw, st, node):
    v = args[0]
    if I.is_ref(v, "list"):
        its = I.items(st, v)
        if its and its[0][0] is TRUE:
            I.put(st, (v.args[0], "#items"), its[1:])
            return its[0][1]
        if its:
            r = I.guarded_pick(its, 0)
            if len(args) > 1:
                g = FALSE
                for h, _ in its:
                    g = t_or(g, h)
                r = ite(g, r, args[1])
            return r
        if len(args) > 1:
            return args[1]
    return mkcall(I, "next", args, kw, st)


def b_callable(I, args, kw, st, node):
    v = args[0]
    if v.op in ("fn", "bound", "ext", "partial"):
        return TRUE
    if v.op in ("const", "tuple", "num"):
        return FALSE
    if I.is_ref(v, "inst"):
        return const(I.find_attr_cls(v, "__call__", st) is not None)
    return mkcall(I, "callable", args, kw, st)


def b_slice(I, args, kw, st, node):
    a = [norm(I.val(x, st)) for x in args]
    if len(a) == 1:
        return mk("slice", NONE, a[0], NONE)
    if len(a) == 2:
        return mk("slice", a[0], a[1], NONE)
    return mk("slice", *a)


def b_partial(I, args, kw, st, node):
    return mk("partial", args[0], tuple(I.box(a, st) for a in args[1:]),
              tuple(sorted(((k, I.box(v, st)) for k, v in kw.items()),
                           key=lambda p: p[0])))


def b_defaultdict(I, args, kw, st, node):
    r = I.new_dict(st)
    I.m(r).default = args[0] if args else None
    return r


def b_pow(I, args, kw, st, node):
    return I.binop("Pow", args[0], args[1], st, node)


# ---------------------------------------------------------------- numpy
def _dtype(args, kw, pos):
    if "dtype" in kw:
        return kw["dtype"]
    if len(args) > pos:
        return args[pos]
    return None


def rec_dtype(I, d, st):
    """a structured dtype written as a list of (name, format)"""
    if d is not None and d.op == "call" and d.args[0] == "np.dtype":
        d = d.args[1]
    elif d is None or not I.is_ref(d, "list"):
        return None
    x = norm(I.deep(d, st))
    if x.op == "listv" and x.args and all(y.op == "tuple" for y in x.args):
        return x
    return None


def np_dtype(I, args, kw, st, node):
    if args and I.is_ref(args[0], "list"):
        return mk("call", "np.dtype", norm(I.deep(args[0], st)))
    return args[0] if args else mk("opaque", "dtype")


def is_struct(x):
    """is x a structured array built here?"""
    while x.op == "upd":
        x = x.args[0]
    return x.op == "call" and x.args[0] in ("recarray", "np.recarray")


def np_fill(v0, pos=1):
    def f(I, args, kw, st, node):
        n = shp(I, args[0] if args else kw["shape"], st)
        d = _dtype(args, kw, pos)
        rd = rec_dtype(I, d, st)
        if rd is not None:
            r = mk("call", "recarray", norm(n), rd)
            r._kind = "arr"
            return r
        v = v0
        if v0 in (num(0), num(1)) and is_bool_dtype(d):
            v = const(v0 is num(1))
        return full(I, n, v)
    return f


def np_full(I, args, kw, st, node):
    return full(I, shp(I, args[0], st), norm(I.val(args[1], st)))


def np_like(v0):
    def f(I, args, kw, st, node):
        x = norm(I.val(args[0], st))
        d = _dtype(args, kw, 1)
        v = v0
        if v0 in (num(0), num(1)) and (is_bool_dtype(d) or (
                d is None and is_boolean(x))):
            v = const(v0 is num(1))
        return full(I, shape_of(I, args[0], st), v)
    return f


def np_array(I, args, kw, st, node):
    v = args[0]
    if I.is_ref(v, "arr") or v.op == "view":
        return cast(norm(I.val(v, st)), kw.get("dtype"))
    if I.is_ref(v, "list") and I.items(st, v) and all(
            I.obj_only(x) for _, x in I.items(st, v)):
        its = I.items(st, v)
        return I.new_list(st, [x for _, x in its], [g for g, _ in its])
    x = I.deep(v, st)
    if x.op == "call" and x.args[0] == "list":
        x = x.args[1]
    if kind(x) == "arr":
        return x
    rd = rec_dtype(I, kw.get("dtype"), st)
    if rd is not None:
        r = mk("call", "np.recarray", x, rd)
        r._kind = "arr"
        return r
    r = mk("call", "np.array", x)
    r._kind = "arr"
    return r


def np_asarray(I, args, kw, st, node):
    v = args[0]
    if I.is_ref(v, "arr") or v.op == "view":
        return v
    return np_array(I, args, kw, st, node)


def np_copy(I, args, kw, st, node):
    return copy_of(I.val(args[0], st))


def copy_of(x):
    return x


def np_where(I, args, kw, st, node):
    c = norm(I.val(args[0], st))
    if len(args) == 3:
        a, b = I.val(args[1], st), I.val(args[2], st)
        if not is_boolean(c):
            c = t_not(norm(mk("eq", c, const(0))))
        return ite(c, norm(a), norm(b))
    x = mk("call", "np.nonzero0", c)
    x._kind = "arr"
    return tup([x])


def np_add_at(I, args, kw, st, node):
    r = mk("call", "np.add_at", norm(I.val(args[0], st)),
           norm(I.deep(args[1], st)), norm(I.deep(args[2], st)))
    r._kind = "arr"
    I.arr_write(args[0], r, st, node)
    return NONE


def ft_reduce(I, args, kw, st, node):
    its = I.iter_items(args[1], st, node)
    if any(g is not TRUE for g, _ in its):
        return NotImplemented
    if len(args) > 2:
        acc, rest = args[2], its
    elif its:
        acc, rest = its[0][1], its[1:]
    else:
        return NotImplemented
    for _, x in rest:
        acc = I.call(args[0], [acc, x], {}, st, node)
    return acc


def it_chain(I, args, kw, st, node):
    out = []
    for a in args:
        out.extend(I.iter_items(a, st, node))
    r = I.new_list(st, ())
    I.put(st, (r.args[0], "#items"), tuple(out))
    return r


def it_chain_from(I, args, kw, st, node):
    its = I.iter_items(args[0], st, node)
    out = []
    for g, x in its:
        for g2, y in I.iter_items(x, st, node):
            out.append((t_and(g, g2), y))
    r = I.new_list(st, ())
    I.put(st, (r.args[0], "#items"), tuple(out))
    return r


def b_fromkeys(I, args, kw, st, node):
    r = I.new_dict(st)
    v = args[1] if len(args) > 1 else NONE
    for g, k in I.iter_items(args[0], st, node):
        if g is not TRUE:
            return NotImplemented
        I.dict_set(st, r, I.key(k, st), v)
    return r


def np_outer(I, args, kw, st, node):
    r = mk("call", "np.outer", *[I.val(a, st) for a in args[:2]])
    return finish_out(I, r, kw.get("out"), None, st, node)


def np_dot(I, args, kw, st, node):
    return mk("call", "np.dot", *[I.val(a, st) for a in args])


def np_einsum(I, args, kw, st, node):
    return mkcall(I, "np.einsum", args, {}, st, "arr")


def np_copyto(I, args, kw, st, node):
    v = I.val(args[1], st)
    if "where" in kw:
        w = norm(I.val(kw["where"], st))
        v = ite(w, norm(v), norm(I.val(args[0], st)))
    I.arr_write(args[0], v, st, node)
    return NONE


def np_square(I, args, kw, st, node):
    return I.binop("Pow", args[0], const(2), st, node)


def np_negative(I, args, kw, st, node):
    return mk("neg", I.val(args[0], st))


def np_reciprocal(I, args, kw, st, node):
    return mk("div", const(1), I.val(args[0], st))


def np_searchsorted(I, args, kw, st, node):
    kws = [] if "side" not in kw or (
        kw["side"].op == "const" and cval(kw["side"]) == "left") else \
        [mk("kw", "side", kw["side"])]
    a = I.val(args[0], st)
    v = I.deep(args[1], st)
    r = mk("call", "np.searchsorted", norm(a), norm(v), *kws)
    if v.op == "listv":
        r._kind = "arr"
    return r


def np_isin(I, args, kw, st, node):
    return mkcall(I, "np.isin", args, kw, st, "arr")


def np_nonzero(I, args, kw, st, node):
    x = mk("call", "np.nonzero0", norm(I.val(args[0], st)))
    x._kind = "arr"
    return tup([x])


def np_linspace(I, args, kw, st, node):
    kw = dict(kw)
    args = list(args)
    if "num" in kw and len(args) == 2:
        args.append(kw.pop("num"))
    r = mk("call", "np.linspace", *[norm(I.val(a, st)) for a in args],
           *_kw(I, kw, st))
    r._kind = "arr"
    return r


def np_arange(I, args, kw, st, node):
    kw.pop("dtype", None) if kw else None
    r = mk("call", "np.arange", *[norm(I.val(a, st)) for a in args])
    r._kind = "arr"
    return r


def np_finfo(I, args, kw, st, node):
    return mk("ext", "np.finfo()")


def np_size(I, args, kw, st, node):
    return norm(mk("sizeof", I.val(args[0], st)))


def cast(x, d):
    if d is None or is_float_dtype(d):
        return x
    return astype(x, d)


def astype(x, d):
    if is_bool_dtype(d):
        return x if is_boolean(x) else t_not(norm(mk("eq", x, const(0))))
    if is_int_dtype(d):
        r = mk("call", "np.toint", x)
        return r
    if is_float_dtype(d):
        return x
    return mk("call", "np.astype", x, d)


def np_meth_passthrough(name):
    def f(I, args, kw, st, node):
        return arr_method(I, args[0], name, args[1:], kw, st, node)
    return f


def np_split(I, args, kw, st, node):
    v = args[0]
    if len(args) > 1 and I.is_ref(v, "list") and I.items(st, v) and all(
            g is TRUE and I.obj_only(x) for g, x in I.items(st, v)):
        # array of objects cut at symbolic positions
        its = I.items(st, v)
        cuts = norm(I.val(args[1], st)) if args[1].op != "listv" \
            else args[1]
        n = I.unrolled(mk("range", const(0), norm(
            mk("add", mk("sizeof", cuts), const(1))), const(1)), st)
        out = []
        for p in range(n):
            gs = []
            for j in range(len(its)):
                g = TRUE
                if p > 0:
                    g = t_and(g, I.cond(mk("le", norm(mk(
                        "idx", cuts, const(p - 1))), const(j))))
                if p < n - 1:
                    g = t_and(g, I.cond(mk("lt", const(j), norm(mk(
                        "idx", cuts, const(p))))))
                gs.append(g)
            out.append(I.new_list(st, [x for _, x in its], gs))
        return I.new_list(st, out)
    if len(args) > 1 and not kw and I.is_arrayish(I.box(v, st), st) and (
            args[1].op == "listv" or I.is_ref(args[1], "list") or
            kind(I.val(args[1], st)) == "arr"):
        v = I.box(v, st)
        cuts = norm(I.deep(args[1], st))
        ln = I.as_int(norm(mk("sizeof", cuts)))
        n = ln + 1 if ln is not None and ln < 12 else I.unrolled(
            mk("range", const(0), norm(mk("add", mk("sizeof", cuts),
                                          const(1))), const(1)), st)
        at = [NONE] + [norm(mk("idx", cuts, const(p)))
                       for p in range(n - 1)] + [NONE]
        return I.new_list(st, [mk("view", v, mk("slice", at[p], at[p + 1],
                                                NONE)) for p in range(n)])
    return mkcall(I, "np.split", args, kw, st)


def np_array_split(I, args, kw, st, node):
    if len(args) == 2 and not kw and kind(I.val(args[1], st)) != "arr" and \
            args[1].op != "listv" and not I.is_ref(args[1], "list") and \
            I.is_arrayish(I.box(args[0], st), st):
        # n nearly equal parts
        v = I.box(args[0], st)
        n = norm(I.val(args[1], st))
        size = norm(mk("sizeof", I.val(v, st)))
        m = I.as_int(n)
        if m is None or m > 12:
            m = I.unrolled(mk("range", const(0), n, const(1)), st)
        q, r = mk("floordiv", size, n), mk("mod", size, n)

        def at(p):
            if p in (0, m):
                return NONE
            return norm(mk("add", mk("mul", const(p), q), mk(
                "call", "min", const(p), r)))
        return I.new_list(st, [mk("view", v, mk(
            "slice", at(p), at(p + 1), NONE)) for p in range(m)])
    if len(args) > 1:
        return np_split(I, args, kw, st, node)
    return mkcall(I, "np.array_split", args, kw, st)


def np_concatenate(I, args, kw, st, node):
    x = I.deep(args[0], st)
    if x.op == "tuple":
        x = mk("listv", *x.args)
    kw = {k: v for k, v in kw.items()
          if not (k == "axis" and I.as_int(v) == 0)}
    r = mk("call", "np.concatenate", x, *_kw(I, kw, st))
    r._kind = "arr"
    return r


def fitsio_FITS(I, args, kw, st, node):
    mode = kw.get("mode") or (args[1] if len(args) > 1 else const("r"))
    I.event("open", st, lib="fitsio.FITS", fname=I.deep(args[0], st),
            mode=I.deep(mode, st),
            clobber=I.deep(kw.get("clobber", FALSE), st))
    return mk("call", "fitsio.FITS", norm(I.deep(args[0], st)),
              norm(I.deep(mode, st)))


def fitsio_read(I, args, kw, st, node):
    I.event("read", st, lib="fitsio.read", fname=I.deep(args[0], st),
            kw={k: I.deep(v, st) for k, v in kw.items()})
    return mkcall(I, "fitsio.read", args, kw, st)


def os_makedirs(I, args, kw, st, node):
    I.event("mkdir", st, name=I.deep(args[0], st),
            kw={k: I.deep(v, st) for k, v in kw.items()})
    I.event("extcall", st, name="os.makedirs", args=(), kw={})
    return NONE


def tqdm(I, args, kw, st, node):
    return args[0]


HANDLERS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip,
    "map": b_map, "filter": b_filter, "list": b_list, "tuple": b_tuple,
    "set": b_set, "frozenset": b_set, "dict": b_dict, "int": b_int,
    "float": b_float, "str": b_str, "bool": b_bool, "abs": b_abs,
    "min": _minmax("min"), "max": _minmax("max"), "sum": b_sum,
    "any": _anyall("any"), "all": _anyall("all"), "sorted": b_sorted,
    "reversed": b_reversed, "isinstance": b_isinstance, "print": b_print,
    "getattr": b_getattr, "setattr": b_setattr, "hasattr": b_hasattr,
    "type": b_type, "open": b_open, "exit": b_exit, "quit": b_exit,
    "sys.exit": b_exit, "round": b_round, "iter": b_iter, "next": b_next,
    "callable": b_callable, "slice": b_slice, "pow": b_pow,
    "functools.partial": b_partial, "collections.defaultdict": b_defaultdict,
    "collections.OrderedDict": b_dict, "np.int_": b_int, "np.int64": b_int,
    "np.zeros": np_fill(num(0)), "np.ones": np_fill(num(1)),
    "np.empty": np_fill(UNINIT), "np.full": np_full,
    "np.zeros_like": np_like(num(0)), "np.ones_like": np_like(num(1)),
    "np.empty_like": np_like(UNINIT), "np.array": np_array,
    "np.asarray": np_asarray, "np.ascontiguousarray": np_asarray,
    "np.asanyarray": np_asarray, "np.copy": np_copy, "copy.copy": None,
    "copy.deepcopy": None, "np.where": np_where, "np.add.at": np_add_at,
    "functools.reduce": ft_reduce, "itertools.chain": it_chain,
    "itertools.chain.from_iterable": it_chain_from,
    "dict.fromkeys": b_fromkeys,
    "np.outer": np_outer, "np.dot": np_dot, "np.copyto": np_copyto,
    "np.square": np_square, "np.negative": np_negative,
    "np.reciprocal": np_reciprocal, "np.searchsorted": np_searchsorted,
    "np.isin": np_isin, "np.nonzero": np_nonzero,
    "np.flatnonzero": lambda I, a, k, s, n: np_nonzero(
        I, a, k, s, n).args[0],
    "np.linspace": np_linspace, "np.arange": np_arange,
    "np.finfo": np_finfo, "np.dtype": np_dtype, "np.size": np_size, "np.split": np_split, "np.array_split": np_array_split,
    "np.concatenate": np_concatenate, "np.einsum": np_einsum,
    "np.ravel": np_meth_passthrough("ravel"),
    "np.transpose": np_meth_passthrough("transpose"),
    "np.reshape": np_meth_passthrough("reshape"),
    "fitsio.FITS": fitsio_FITS, "fitsio.read": fitsio_read,
    "os.makedirs": os_makedirs, "os.mkdir": os_makedirs, "tqdm.tqdm": tqdm,
    "np.float_": b_float, "np.bool_": b_bool,
}


def copy_copy(I, args, kw, st, node):
    return generic_copy(I, args[0], st, False)


def copy_deepcopy(I, args, kw, st, node):
    return generic_copy(I, args[0], st, True)


HANDLERS["copy.copy"] = copy_copy
HANDLERS["copy.deepcopy"] = copy_deepcopy


def generic_copy(I, v, st, deep, memo=None):
    memo = {} if memo is None else memo

    def leaf(x, s):
        if x in memo:
            return memo[x]
        if x.op == "ref":
            m = I.m(x)
            if m.kind == "arr":
                r = I.new_arr(s, s.heap[(x.args[0], "#a")])
                memo[x] = r
                return r
            if m.kind == "list":
                its = I.items(s, x)
                r = I.new_list(s, (), isset=m.isset)
                memo[x] = r
                new = tuple((g, generic_copy(I, y, s, True, memo)
                             if deep else y) for g, y in its)
                I.put(s, (r.args[0], "#items"), new)
                return r
            if m.kind == "dict":
                r = I.new_dict(s)
                memo[x] = r
                loc, nl = x.args[0], r.args[0]
                I.put(s, (nl, "#keys"), s.heap[(loc, "#keys")])
                I.m(r).lazy, I.m(r).default = m.lazy, m.default
                for k in s.heap[(loc, "#keys")]:
                    I.put(s, (nl, "g", k), s.heap.get((loc, "g", k), FALSE))
                    vv = s.heap.get((loc, "v", k))
                    if vv is not None:
                        I.put(s, (nl, "v", k), generic_copy(
                            I, vv, s, True, memo) if deep else vv)
                return r
            if m.kind == "inst":
                r = I.exists(s, I.alloc("inst", cls=m.cls, lazy=m.lazy,
                                        site=I.where()))
                memo[x] = r
                for k in [k for k in s.heap if k[0] == x.args[0]]:
                    vv = s.heap[k]
                    I.put(s, (r.args[0],) + k[1:], generic_copy(
                        I, vv, s, True, memo) if deep else vv)
                return r
            return x
        if x.op == "view":
            return I.new_arr(s, I.val(x, s))
        if x.op == "tuple" and deep:
            return tup([generic_copy(I, y, s, True, memo) for y in x.args])
        return x
    return I.lift1(v, leaf, st)


# -------------------------------------------------------- list methods
def _plain(I, st, b):
    its = I.items(st, b)
    return its, all(g is TRUE for g, _ in its)


def list_binop(I, op, a, b, st, node):
    la, lb = I.is_ref(a, "list"), I.is_ref(b, "list")
    if la and lb and not I.m(a).isset and op == "Add":
        its = I.items(st, a) + I.items(st, b)
        return I.new_list(st, [x for _, x in its], [g for g, _ in its])
    if la and op == "Mult":
        n = I.as_int(I.val(b, st))
        if n is not None:
            its = I.items(st, a) * n
            return I.new_list(st, [x for _, x in its], [g for g, _ in its])
        return mk("call", "list*", I.deep(a, st), norm(I.val(b, st)))
    if lb and op == "Mult" and not la:
        return list_binop(I, op, b, a, st, node)
    if la and I.m(a).isset and op in ("Sub", "BitAnd", "BitOr", "BitXor"):
        nm = {"Sub": "difference", "BitAnd": "intersection",
              "BitOr": "union", "BitXor": "symmetric_difference"}[op]
        return list_method(I, a, nm, [b], {}, st, node)
    return None


def set_compare(I, op, a, b, st):
    if not (I.is_ref(a, "list") and I.is_ref(b, "list")):
        return None
    if op == "LtE":
        return list_method(I, a, "issubset", [b], {}, st, None)
    if op == "GtE":
        return list_method(I, b, "issubset", [a], {}, st, None)
    return None


def list_method(I, b, name, args, kw, st, node):
    loc = b.args[0]
    its = I.items(st, b)
    m = I.m(b)
    if name == "append":
        I.put(st, (loc, "#items"), its + ((TRUE, I.box(args[0], st)),))
        note_growth(I, b)
        I.event("append", st, lst=b, value=args[0])
        return NONE
    if name == "add":
        return set_add(I, b, args[0], st)
    if name in ("discard",) or (name == "remove" and m.isset):
        k = I.key(args[0], st)
        I.put(st, (loc, "#items"), tuple(
            (t_and(g, t_not(I.equal(x, k, st))), x) for g, x in its))
        return NONE
    if name == "extend":
        new = I.iter_items(args[0], st, node)
        I.put(st, (loc, "#items"), its + tuple(new))
        note_growth(I, b)
        return NONE
    if name == "insert":
        ci = I.as_int(I.val(args[0], st))
        if ci is not None and all(g is TRUE for g, _ in its[:max(ci, 0)]):
            l = list(its)
            l.insert(ci, (TRUE, I.box(args[1], st)))
            I.put(st, (loc, "#items"), tuple(l))
            return NONE
    if name == "pop":
        if m.isset:
            if its and all(g is TRUE for g, _ in its) and len(its) == 1:
                I.put(st, (loc, "#items"), ())
                return its[0][1]
            # an arbitrary member
            r = None
            for g, x in reversed(its):
                r = x if r is None else ite(g, x, r)
            I.put(st, (loc, "#items"), its[1:])
            return r if r is not None else mk("opaque", "pop")
        ci = I.as_int(I.val(args[0], st)) if args else -1
        if its and all(g is TRUE for g, _ in its) and ci is not None and \
                -len(its) <= ci < len(its):
            l = list(its)
            x = l.pop(ci)[1]
            I.put(st, (loc, "#items"), tuple(l))
            return x
        if its and ci in (0, -1):
            r = I.guarded_pick(its, ci)
            l = list(its)
            rem = TRUE
            seq = range(len(l)) if ci == 0 else range(len(l) - 1, -1, -1)
            for j in seq:
                g, x = l[j]
                take = t_and(rem, g)
                l[j] = (t_and(g, t_not(take)), x)
                rem = t_and(rem, t_not(g))
            I.put(st, (loc, "#items"), tuple(
                p for p in l if p[0] is not FALSE))
            return r
    if name == "clear":
        I.put(st, (loc, "#items"), ())
        return NONE
    if name == "copy":
        r = I.new_list(st, [x for _, x in its], [g for g, _ in its],
                       isset=m.isset)
        m2 = I.m(r)
        m2.tag = dict(m.tag) if m.tag else None
        return r
    if name == "reverse":
        I.put(st, (loc, "#items"), tuple(reversed(its)))
        return NONE
    if name == "remove":
        ks = [j for j, (g, x) in enumerate(its)
              if I.equal(x, args[0], st) is TRUE]
        if ks:
            l = list(its)
            del l[ks[0]]
            I.put(st, (loc, "#items"), tuple(l))
            return NONE
        done = FALSE
        l = []
        for g, x in its:
            e = t_and(t_and(g, I.equal(x, args[0], st)), t_not(done))
            l.append((t_and(g, t_not(e)), x))
            done = t_or(done, e)
        I.put(st, (loc, "#items"), tuple(l))
        return NONE
    if name == "sort":
        key = kw.get("key")
        rev = kw.get("reverse", FALSE)
        keys = []
        for g, x in its:
            keys.append(norm(I.deep(I.call(key, [x], {}, st, node), st))
                        if key is not None and key is not NONE
                        else norm(I.deep(x, st)))
        if all(k.op in ("const", "num") for k in keys) and \
                all(g is TRUE for g, _ in its):
            try:
                order = sorted(range(len(its)), key=lambda j: (
                    cval(keys[j]) if keys[j].op == "const"
                    else keys[j].args[0]),
                               reverse=rev is TRUE)
                I.put(st, (loc, "#items"), tuple(its[j] for j in order))
                return NONE
            except TypeError:
                pass
        if len(its) == 2 and all(g is TRUE for g, _ in its):
            c = I.cond(mk("gt" if rev is not TRUE else "lt", keys[0],
                          keys[1]))
            (_, x), (_, y) = its
            I.put(st, (loc, "#items"), ((TRUE, ite(c, y, x)),
                                        (TRUE, ite(c, x, y))))
            return NONE
        if I.opts.get("sortkeep"):
            # the caller's claim does not depend on the order: any
            # permutation will do
            I.event("sort", st, lst=b, keys=tuple(keys), reverse=rev)
            return NONE
        if len(its) <= 3 and all(g is TRUE for g, _ in its) and \
                rev in (TRUE, FALSE):
            n = len(its)
            kl = mk("listv", *keys)
            rank = []
            for i in range(n):
                r = mk("call", "sortrank", const(i), rev, kl)
                r._kind = "scal"
                rank.append(r)
            out = []
            for p in range(n):
                r = its[-1][1]
                for i in range(n - 2, -1, -1):
                    r = ite(I.cond(mk("eq", rank[i], const(p))), its[i][1],
                            r)
                out.append((TRUE, r))
            I.put(st, (loc, "#items"), tuple(out))
            return NONE
        I.event("unsupported", st, what="sort of a list by unknown keys")
        I.event("sort", st, lst=b, keys=tuple(keys), reverse=rev)
        return NONE
    if name == "index":
        if all(g is TRUE for g, _ in its):
            for j, (g, x) in enumerate(its):
                e = I.equal(x, args[0], st)
                if e is TRUE:
                    return const(j)
                if e is not FALSE:
                    break
    if name == "count":
        r = num(0)
        for g, x in its:
            c = t_and(g, I.equal(x, args[0], st))
            r = norm(mk("add", r, ite(c, num(1), num(0))))
        return r
    if name in ("intersection", "difference", "union", "issubset",
                "issuperset", "isdisjoint", "update",
                "symmetric_difference", "intersection_update",
                "difference_update"):
        return set_method(I, b, name, args, st, node)
    if name == "join":
        pass
    if name in ("send", "close", "__next__"):
        return NONE
    return mkcall(I, "." + name, [b] + list(args), kw, st)


def set_method(I, b, name, args, st, node):
    its = list(I.items(st, b))
    if name in ("union", "update"):
        r = b if name == "update" else list_method(I, b, "copy", [], {}, st,
                                                   node)
        for a in args:
            for g, x in I.iter_items(a, st, node):
                set_add(I, r, x, st, g)
        return NONE if name == "update" else r
    if name in ("intersection", "difference", "intersection_update",
                "difference_update"):
        out = []
        for g, x in its:
            c = g
            for a in args:
                inn = I.contains(a, x, st, node)
                c = t_and(c, inn if name.startswith("inter") else t_not(inn))
            if c is not FALSE:
                out.append((c, x))
        if name.endswith("_update"):
            I.put(st, (b.args[0], "#items"), tuple(out))
            return NONE
        return I.new_list(st, [x for _, x in out], [g for g, _ in out],
                          isset=True)
    if name == "symmetric_difference":
        d1 = set_method(I, b, "difference", args, st, node)
        o = b_set(I, [args[0]], {}, st, node)
        d2 = set_method(I, o, "difference", [b], st, node)
        return set_method(I, d1, "union", [d2], st, node)
    if name == "issubset":
        r = TRUE
        for g, x in its:
            r = t_and(r, t_or(t_not(g), I.contains(args[0], x, st, node)))
        return r
    if name == "issuperset":
        r = TRUE
        for g, x in I.iter_items(args[0], st, node):
            r = t_and(r, t_or(t_not(g), I.contains(b, x, st, node)))
        return r
    r = TRUE
    for g, x in its:
        r = t_and(r, t_not(t_and(g, I.contains(args[0], x, st, node))))
    return r


# -------------------------------------------------------- dict methods
def dict_method(I, b, name, args, kw, st, node):
    if name in ("items", "keys", "values"):
        return mk("dview", b, name)
    if name == "get":
        k = I.key(args[0], st)
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        v, g = I.dict_get(st, b, k)
        g = I.prune(st, g)
        if g is TRUE:
            return v
        if g is FALSE:
            if I.m(b).lazy is not None:
                return mk("call", ".get", I.m(b).lazy, k, I.deep(d, st))
            return d
        return ite(g, v, d)
    if name == "pop":
        k = I.key(args[0], st)
        v, g = I.dict_get(st, b, k)
        g = I.prune(st, g)
        has_d = len(args) > 1
        I.dict_del(st, b, k)
        I.event("dictpop", st, d=b, key=k)
        if g is TRUE:
            return v
        if g is FALSE:
            if has_d:
                return args[1]
            if I.m(b).lazy is not None:
                return norm(mk("idx", I.m(b).lazy, k))
            I.do_raise(mk("excinst", "KeyError"), st, I.frames[-1], node,
                       implicit=True)
        return ite(g, v, args[1]) if has_d else v
    if name == "setdefault":
        k = I.key(args[0], st)
        v, g = I.dict_get(st, b, k)
        g = I.prune(st, g)
        d = I.box(args[1], st) if len(args) > 1 else NONE
        if g is TRUE:
            return v
        nv = d if g is FALSE else ite(g, v, d)
        I.dict_set(st, b, k, nv)
        return nv
    if name == "update":
        return dict_update(I, b, args, kw, st, node)
    if name == "copy":
        return generic_copy(I, b, st, False)
    if name == "clear":
        for k, g in I.dict_keys(st, b):
            I.dict_del(st, b, k)
        return NONE
    if name == "popitem":
        ks = I.dict_keys(st, b)
        if ks and ks[-1][1] is TRUE:
            k = ks[-1][0]
            v = I.dict_get(st, b, k)[0]
            I.dict_del(st, b, k)
            return tup([k, v])
    return mkcall(I, "." + name, [b] + list(args), kw, st)


# ------------------------------------------------------- array methods
def arr_attr(I, b, name, st, node):
    x = I.val(b, st)
    return term_attr_val(I, b, x, name, st)


def term_attr_val(I, b, x, name, st):
    from .interp import _ndim
    if name == "size":
        return norm(mk("sizeof", x))
    if name == "T":
        if t.sure1d(norm(x)):
            return b
        return transpose(x)
    if name == "shape":
        n = norm(x)
        if n.op == "full":
            s = n.args[0]
            return s if s.op == "tuple" else tup([s])
        return mk("attr", n, "shape")
    if name == "ndim":
        r = mk("attr", norm(x), "ndim")
        r._kind = "scal"
        return r
    if name in ("dtype", "flags", "itemsize", "nbytes", "strides", "base"):
        return mk("attr", norm(x), name)
    if name == "real" or name == "flat":
        return b
    return mk("meth", b, name)


def transpose(x):
    n = norm(x)
    if n.op == "call" and n.args[0] == "np.transpose" and len(n.args) == 2:
        return n.args[1]
    r = mk("call", "np.transpose", x)
    r._kind = "arr"
    return r


def arr_method(I, b, name, args, kw, st, node):
    x = I.val(b, st)
    if name in ("sum", "mean", "min", "max", "std", "var", "any", "all",
                "prod", "argmin", "argmax", "cumsum", "argsort"):
        return reduction(I, name, [x] + list(args), kw, st, node)
    if name == "copy":
        return copy_of(x)
    if name == "astype":
        d = args[0] if args else kw.get("dtype")
        r = astype(norm(x), d)
        return r if r is not norm(x) else x
    if name == "dot":
        return mk("call", "np.dot", x, I.val(args[0], st))
    if name in ("ravel", "flatten"):
        r = mk("call", "np.ravel", x)
        r._kind = "arr"
        return r
    if name == "reshape":
        a = args[0] if len(args) == 1 else tup(args)
        r = mk("call", "np.reshape", x, norm(I.deep(a, st)))
        r._kind = "arr"
        return r
    if name == "transpose":
        return transpose(x)
    if name == "fill":
        n = norm(x)
        s = n.args[0] if n.op == "full" else shape_of(I, b, st)
        I.arr_write(b, mk("full", s, norm(I.val(args[0], st))), st, node)
        return NONE
    if name == "sort":
        r = mk("call", "np.sort", x, *_kw(I, kw, st))
        r._kind = "arr"
        I.arr_write(b, r, st, node)
        return NONE
    if name == "item" and not args:
        return x
    if name == "clip":
        return mk("call", "np.clip", x, *[I.val(a, st) for a in args])
    if name == "tolist":
        return mk("call", "list", norm(x))
    if name == "nonzero":
        return np_nonzero(I, [b], {}, st, node)
    if name == "round":
        return mk("call", "np.round", x)
    if name == "searchsorted":
        return np_searchsorted(I, [b] + list(args), kw, st, node)
    if name == "view":
        return b
    if name == "repeat":
        return mkcall(I, "np.repeat", [b] + list(args), kw, st, "arr")
    return opaque_method(I, x, name, args, kw, st, node)


def term_attr(I, b, name, st, node):
    if b.op == "comm":
        return mk("meth", b, name)
    x = b
    if b.op == "excinst" and name == "code" and b.args[0] == "SystemExit":
        return b.args[1] if len(b.args) > 1 else NONE
    if b.op == "excinst" and name == "args":
        return tup(list(b.args[1:]))
    if b.op == "opaque":
        return mk("opaque", f"{b.args[0]}.{name}")
    if name in ("size", "T", "shape", "ndim"):
        if kind(b) == "arr" or name == "size":
            return term_attr_val(I, b, x, name, st)
        if name == "T":
            return transpose(x)
        return norm(mk("attr", x, name))
    if name == "eps" and b.op == "ext":
        return sym("eps", "scal")
    r = mk("attr", norm(x), name)
    return norm(r) if name == "names" else r


_STR_FOLD = {"upper", "lower", "strip", "split", "join", "replace",
             "startswith", "endswith", "format", "lstrip", "rstrip", "find",
             "title", "zfill", "isdigit", "rsplit", "capitalize", "count"}


def term_method(I, b, name, args, kw, st, node):
    """method of a value that is not a tracked object."""
    if b.op == "comm":
        return comm_method(I, name, args, kw, st, node)
    if b.op == "ext":
        return call_ext(I, b.args[0] + "." + name, args, kw, st, node)
    if b.op == "pool":
        if name in ("imap", "imap_unordered", "map", "starmap"):
            r = b_map(I, args[:2], {}, st, node, name == "starmap")
            I.m(r).gen = name.startswith("imap")
            return r
        return NONE
    if b.op == "const" and isinstance(cval(b), str):
        return str_method(I, b, name, args, kw, st, node)
    if b.op in ("fstr", "fmt"):
        return mkcall(I, "." + name, [b] + list(args), kw, st)
    if b.op == "tuple" or b.op == "listv":
        if name in ("index", "count"):
            r = I.new_list(st, b.args)
            return list_method(I, r, name, args, kw, st, node)
    if b.op == "dview":
        d = b.args[0]
        if name in ("isdisjoint", "intersection", "union"):
            r = b_set(I, [b], {}, st, node)
            return list_method(I, r, name, args, kw, st, node)
        if name == "__iter__":
            return b
    if b.op in ("bound", "fn", "partial"):
        return mkcall(I, "." + name, [b] + list(args), kw, st)
    if b.op == "ref":
        return opaque_method(I, b, name, args, kw, st, node)
    if b.op == "excinst" or b.op == "anyexc":
        return mkcall(I, "." + name, [b], kw, st)
    if kind(b) == "arr" or name in (
            "astype", "copy", "sum", "mean", "argmax", "argmin", "ravel",
            "dot", "argsort", "any", "all", "fill", "flatten", "std",
            "transpose", "reshape"):
        if b.op != "opaque":
            return arr_method(I, b, name, args, kw, st, node)
    return opaque_method(I, b, name, args, kw, st, node)


def str_method(I, b, name, args, kw, st, node):
    vals = [norm(I.deep(a, st)) for a in args]
    s = cval(b)
    if name == "join":
        v = args[0]
        if I.is_ref(v, "list") or I.is_ref(v, "dict") or \
                v.op in ("tuple", "listv", "dview"):
            its = I.iter_items(v, st, node)
            from .interp import fold_str
            if all(g is TRUE for g, _ in its):
                parts = []
                for j, (_, x) in enumerate(its):
                    if j:
                        parts.append(b)
                    parts.append(norm(I.val(x, st)))
                return fold_str(parts)
        return mk("call", ".join", b, *vals)
    if all(v.op == "const" or (v.op == "num" and
                               v.args[0].denominator == 1) for v in vals) \
            and not kw and name in _STR_FOLD:
        a = [cval(v) if v.op == "const" else int(v.args[0]) for v in vals]
        try:
            r = getattr(s, name)(*a)
        except Exception:
            return mk("call", "." + name, b, *vals)
        if isinstance(r, list):
            return I.new_list(st, [const(x) for x in r])
        return const(r)
    return mk("call", "." + name, b, *vals, *_kw(I, kw, st))


def opaque_method(I, b, name, args, kw, st, node):
    x = I.deep(b, st) if b.op != "ref" else (
        I.m(b).lazy if I.m(b).lazy is not None else b)
    x = norm(x) if x.op != "ref" else x
    a = tuple(I.deep(v, st) for v in args)
    k = {n: I.deep(v, st) for n, v in kw.items()}
    if name == "write":
        I.event("fitswrite", st, obj=x, args=a, kw=k, raw=tuple(args),
                rawkw=dict(kw))
        return NONE
    if name == "close":
        I.event("close", st, obj=x, via="call")
        return NONE
    if name == "add_argument":
        I.event("add_argument", st, obj=x, args=a, kw=k)
        return NONE
    if name == "parse_args":
        I.event("parse_args", st, obj=x)
        I.event("extcall", st, name="parse_args", args=(), kw={})
        key = ("args", x)
        r = I.opts.get("args_obj")
        if r is not None:
            return r
        return I.exists(st, I.alloc("inst", lazy=sym("args"), site="args"))
    if name in ("read", "read_header", "get_colnames", "read_column",
                "get_nrows"):
        I.event("read", st, lib="." + name, fname=x, kw=k, args=a)
    elif name in ("sort", "fill", "update", "append", "extend", "resize"):
        I.event("opaquemut", st, obj=x, name=name)
    elif name not in ("get", "keys", "items", "values", "copy", "lower",
                      "upper", "startswith", "endswith", "split", "strip",
                      "format", "replace"):
        I.event("extcall", st, name="." + name, args=(x,) + a, kw=k)
    I.opaque_calls["." + name] = I.opaque_calls.get("." + name, 0) + 1
    return mk("call", "." + name, x, *a, *[
        mk("kw", n, v) for n, v in sorted(k.items())])


def apply_opaque(I, f, args, kw, st, node):
    if f.op == "ufn":
        r = mk("call", "$" + f.args[0], *[norm(I.val(a, st)) for a in args],
               *_kw(I, kw, st))
        if args and kind(I.val(args[0], st)) == "arr":
            r._kind = "arr"
        return r
    if f.op == "opaque":
        return mk("opaque", f"call({f.args[0]})")
    I.event("extcall", st, name="apply", args=(norm(I.deep(f, st)),), kw={})
    r = mk("call", "apply", norm(I.deep(f, st)),
           *[norm(I.deep(a, st)) for a in args], *_kw(I, kw, st))
    if args and kind(norm(I.deep(args[0], st))) == "arr":
        r._kind = "arr"
    return r


# ------------------------------------------------------------------ MPI
def comm_method(I, name, args, kw, st, node):
    if name in ("Get_rank",):
        return RANK
    if name in ("Get_size",):
        return SIZE
    if name == "Abort":
        code = args[0] if args else kw.get("errorcode", const(0))
        I.event("abort", st, code=code)
        if I.opts.get("abort") == "raise":
            # seen by a driver as the end of the program
            I.do_raise(mk("excinst", "SystemExit", tup(
                [const("abort"), norm(I.val(code, st))])), st,
                I.frames[-1], node)
        st.kill()
        from .interp import Dead
        raise Dead()
    if name not in COLLECTIVES:
        I.event("extcall", st, name="comm." + name, args=(), kw={})
        return mk("call", "comm." + name, *[I.deep(a, st) for a in args])
    root = kw.get("root")
    if root is None and name in ("bcast", "Bcast", "scatter", "gather") and \
            len(args) > 1:
        root = args[1]
    payload = args[0] if args else kw.get("sendobj", kw.get("obj", NONE))
    op = kw.get("op")
    if op is None and name in ("allreduce", "reduce") and len(args) > 1:
        op = args[1]
    if op is None and name in ("Allreduce", "Reduce") and len(args) > 2:
        op = args[2]
    opn = "SUM" if op is None else (
        op.args[0].split(".")[-1] if op.op == "ext" else "?")
    e = I.event("coll", st, name=name, payload=payload,
                value=None if payload.op == "ext" else I.deep(payload, st),
                root=root, op=opn, args=tuple(args))
    if name in ("Barrier", "barrier"):
        return NONE
    if name == "bcast":
        return to_root(payload)
    if name == "Bcast":
        I.arr_write(payload, mk("bcast", I.val(payload, st)), st, node)
        return NONE
    if name == "allreduce":
        x = norm(I.deep(payload, st))
        e.data["target"] = payload
        return mk("allreduce", x, opn)
    if name == "Allreduce":
        dst = args[1]
        src = args[0]
        x = I.val(dst if (src.op == "ext") else src, st)
        e.data["target"] = dst
        e.data["value"] = x
        nx = norm(x)
        r = mk("allreduce", nx, opn)
        if r._kind is None:
            r._kind = "arr"
        I.arr_write(dst, r, st, node)
        return NONE
    if name == "scatter":
        src = t.restrict(payload, {ROOT: True})
        if I.is_ref(src, "list"):
            its = I.items(st, src)
            if its and all(g is TRUE for g, _ in its):
                r = share(I, its[-1][1], st)
                for j in range(len(its) - 2, -1, -1):
                    y = share(I, its[j][1], st)
                    if r is not None and y is not None:
                        r = ite(I.cond(mk("eq", RANK, const(j))), y, r)
                    else:
                        r = None
                if r is not None:
                    return r
        r = mk("scatter", norm(I.deep(t.restrict(payload, {ROOT: True}),
                                      st)))
        return r
    if name in ("gather", "reduce"):
        return ite(ROOT, mk("rootonly", norm(I.deep(payload, st)), name, opn),
                   NONE)
    if name == "allgather":
        return mk("allreduce", norm(I.deep(payload, st)), "gather")
    return mk("opaque", "coll:" + name)
