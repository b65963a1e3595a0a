"""Random interpretation of value graphs (Gulwani & Necula style).

Two value graphs that the normaliser could not prove equal are compared under
random, well typed assignments to their *free symbols*.  Only graphs are
folded here; no code of the repository runs.  A graph pair is reported as
different only if an assignment separates them, so a rewrite that the
normaliser does not recognise stays quiet.
"""
import hashlib
import re
from fractions import Fraction
import numpy as np
from . import terms as t
from .terms import T, TRUE, FALSE, NONE, cval, mk

np.seterr(all="ignore")
NRANK = 2


class Unsupported(Exception):
    pass


class Fails(Exception):
    """evaluating the expression itself is an error (index, shape)."""


def h64(*xs):
    m = hashlib.blake2b(digest_size=8)
    for x in xs:
        m.update(repr(x).encode())
        m.update(b"|")
    return int.from_bytes(m.digest(), "little")


def _fmt_differ(a, b):
    """Two formatted strings with the same literal parts whose only
    differing parts are plain numbers are different strings."""
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b
            and a[0] == b[0] == "S" and len(a) == len(b)):
        return False
    for x, y in zip(a[1:], b[1:]):
        if x != y and not (isinstance(x, (int, float, tuple)) and
                           isinstance(y, (int, float, tuple)) and
                           _plain(x) and _plain(y)):
            return False
    return True


def _plain(x):
    if isinstance(x, tuple):
        return bool(x) and all(_plain(y) or isinstance(y, str) and len(y) <= 2
                               for y in x)
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def canon(v):
    """hashable form of a value, floats rounded."""
    if isinstance(v, Opq):
        return ("O", v.key)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("oa",) + tuple(canon(x) for x in v.ravel())
        if v.dtype.names:
            return ("ra", v.shape) + tuple(
                (n, canon(v[n])) for n in sorted(v.dtype.names))
        return ("a", v.shape) + tuple(canon(x) for x in v.ravel().tolist())
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        if v != v:
            return "nan"
        if v == 0:
            return 0
        r = float("%.7g" % v)
        return int(r) if r == int(r) and abs(r) < 1e15 else r
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple(sorted(((canon(k), canon(x))
                                      for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted((canon(x) for x in v), key=repr))
    if isinstance(v, np.void):
        return ("row",) + tuple(canon(v[n]) for n in v.dtype.names or ())
    if isinstance(v, np.str_):
        return repr(str(v))
    if isinstance(v, slice):
        return ("sl", canon(v.start), canon(v.stop), canon(v.step))
    return repr(v)


class Opq:
    """an unknown value: only identity (and a derived number) matters."""
    __slots__ = ("key", "env", "n")

    def __init__(self, env, key, n=None):
        self.env, self.key, self.n = env, key, n

    def rng(self):
        return np.random.default_rng(h64(self.env.seed, self.key))

    def num(self):
        return float(self.rng().uniform(0.3, 2.5))

    def arr(self):
        return self.rng().uniform(0.3, 2.5, size=self.n or self.env.k)

    def __repr__(self):
        return f"?{self.key}"


class Env:
    def __init__(self, seed, gens=None, k=2, nrank=NRANK, ufn=None,
                 exc=None, n=6):
        self.seed = seed
        self.gens = gens or {}
        self.k = k
        self.n = n
        self.nrank = nrank
        self.memo = {}
        self.unk = set()
        self.unstable = False
        self.ufn = ufn or {}
        self.excprob = exc or 0.0
        self.syms = {}
        self.cur = None
        self.maxsteps = 400000
        self.steps = 0

    # --------------------------------------------------------- symbols
    def rng(self, *key):
        return np.random.default_rng(h64(self.seed, *key))

    def symval(self, x, rank):
        name = x.args[0]
        if name == "RANK":
            return rank
        if name == "SIZE":
            return self.nrank
        if name == "np.pi":
            return float(np.pi)
        if name == "np.nan":
            return float("nan")
        if name == "np.inf":
            return float("inf")
        if name == "eps":
            return 2e-9     # "tiny": larger than the rounding of E.ev
        base = name.split("@")[0]
        local = base.startswith("L_")
        key = (name, rank if local else 0)
        if key in self.syms:
            return self.syms[key]
        g = self.gens.get(base)
        if g is None:
            for p, gg in self.gens.items():
                if p.endswith("*") and base.startswith(p[:-1]):
                    g = gg
                    break
        if g is not None:
            v = g(self, self.rng("sym", *key), rank if local else 0)
        elif t.kind(x) == "arr":
            nd = t.ndim(x)
            v = self.rng("sym", *key).uniform(
                0.3, 2.5, size=(self.n,) * max(nd, 1))
        elif t.kind(x) == "scal":
            v = float(self.rng("sym", *key).uniform(0.3, 2.5))
        else:
            v = Opq(self, ("sym",) + key)
        self.syms[key] = v
        return v

    # ------------------------------------------------------------ eval
    def ev(self, x, rank=0):
        k = (x, rank)
        if k in self.memo:
            v = self.memo[k]
            if isinstance(v, Exception):
                raise v
            return v
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too large")
        try:
            v = self.ev0(x, rank)
        except (Unsupported, Fails) as e:
            self.memo[k] = e
            raise
        except RecursionError:
            raise Unsupported("deep")
        except Exception as e:      # numpy refused: the operation fails
            e2 = Fails(f"{type(e).__name__}: {e} in {t.show(x, 3)}"[:300])
            self.memo[k] = e2
            raise e2
        self.memo[k] = v
        return v

    def num(self, v, x=None):
        if isinstance(v, Opq):
            if x is not None and t.kind(x) == "arr":
                return v.arr()
            return v.num()
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if isinstance(v, (list, tuple)):
            return np.array([self.num(y) for y in v])
        if v is None or isinstance(v, (str, dict, set, slice)):
            raise Fails("arithmetic on a non number")
        return v

    def numev(self, x, r):
        v = self.num(self.ev(x, r), x)
        if isinstance(v, np.ndarray) and v.dtype == bool:
            return v.astype(float)
        return v

    def truth(self, v):
        if isinstance(v, Opq):
            return bool(h64(self.seed, "truth", v.key) & 1)
        if isinstance(v, np.ndarray):
            return v if v.dtype == bool else v != 0
        return bool(v)

    def boolev(self, x, r):
        return self.truth(self.ev(x, r))

    def ev0(self, x, r):
        o, a = x.op, x.args
        if o == "const":
            return cval(x)
        if o == "num":
            f = a[0]
            return int(f) if f.denominator == 1 else float(f)
        if o == "sym":
            return self.symval(x, r)
        if o == "bsym":
            name = a[0]
            g = self.gens.get(name)
            local = name.startswith("L_")
            if g is not None:
                return g(self, self.rng("b", name, r if local else 0),
                         r if local else 0)
            return bool(h64(self.seed, "b", name, r if local else 0) & 1)
        if o == "poly":
            return self.poly(a[0], r)
        if o == "blow":
            return self.ev(a[0], r)
        if o in ("gt0", "ge0", "eq0"):
            v = self.numev(a[0], r)
            if o == "eq0":
                # rounding noise must not flip equality
                return np.abs(v) <= 1e-11 if isinstance(v, np.ndarray) \
                    else abs(v) <= 1e-11
            return v > 0 if o == "gt0" else v >= 0
        if o in t.CMPS:
            return self.cmp(o, self.ev(a[0], r), self.ev(a[1], r), a)
        if o in ("ite", "phi"):
            return self.ite(x, r)
        if o in ("add", "sub", "mul", "div", "pow"):
            u, v = self.ev(a[0], r), self.ev(a[1], r)
            if o == "add" and isinstance(u, (str, list, tuple)) \
                    and type(u) is type(v):
                return u + v
            u, v = self.num(u, a[0]), self.num(v, a[1])
            if isinstance(u, np.ndarray) and u.dtype == bool:
                u = u.astype(float)
            return self.arith(o, u, v)
        if o == "neg":
            return -self.numev(a[0], r)
        if o in ("floordiv", "mod"):
            u, v = self.numev(a[0], r), self.numev(a[1], r)
            return np.floor_divide(u, v) if o == "floordiv" \
                else np.mod(u, v)
        if o in ("bitand", "bitor", "bitxor", "lshift", "rshift"):
            u, v = self.ev(a[0], r), self.ev(a[1], r)
            u, v = self.intify(u), self.intify(v)
            return {"bitand": np.bitwise_and, "bitor": np.bitwise_or,
                    "bitxor": np.bitwise_xor, "lshift": np.left_shift,
                    "rshift": np.right_shift}[o](u, v)
        if o == "invert":
            v = self.ev(a[0], r)
            if isinstance(v, (bool, np.bool_)):
                return not v
            return np.invert(self.intify(v))
        if o == "matmul":
            return np.matmul(self.numev(a[0], r), self.numev(a[1], r))
        if o == "full":
            v = self.ev(a[1], r)
            s = a[0]
            if s.op == "tuple":
                sh = tuple(int(self.numev(y, r)) for y in s.args)
            elif s.op == "shapeof":
                v0 = self.ev(s.args[0], r)
                sh = (v0.n or self.k) if isinstance(v0, Opq) else \
                    np.shape(self.num(v0, s.args[0]))
            else:
                sv = self.ev(s, r)
                if isinstance(sv, tuple):
                    sh = sv
                else:
                    sh = int(self.num(sv))
            if isinstance(v, Opq):
                v = v.num()
            return np.full(sh, v)
        if o == "uninit":
            return 7.7e17
        if o == "undef":
            return Opq(self, ("undef",))
        if o in ("sizeof", "shapeof"):
            v = self.ev(a[0], r)
            if isinstance(v, Opq):
                return v.n or self.k
            if isinstance(v, dict):
                return len(v)
            return int(np.size(v)) if o == "sizeof" else np.shape(v)
        if o == "tuple":
            return tuple(self.ev(y, r) for y in a)
        if o == "listv":
            return [self.ev(y, r) for y in a]
        if o == "setv":
            return frozenset(canon(self.ev(y, r)) for y in a)
        if o == "glistv":
            out = []
            for p in a:
                if self.boolev(p.args[0], r):
                    out.append(self.ev(p.args[1], r))
            return out
        if o == "dictv":
            d = {}
            for p in a:
                if self.boolev(p.args[1], r):
                    k = self.ev(p.args[0], r)
                    d[k if isinstance(k, (str, int)) else canon(k)] = \
                        self.ev(p.args[2], r)
            return d
        if o == "slice":
            def p(y):
                v = self.ev(y, r)
                return None if v is None else int(self.num(v))
            return slice(p(a[0]), p(a[1]), p(a[2]))
        if o == "kw":
            return (a[0], self.ev(a[1], r))
        if o == "ellipsis":
            return Ellipsis
        if o == "truth":
            v = self.ev(a[0], r)
            if isinstance(v, np.ndarray) and v.size != 1:
                raise Fails("truth of an array")
            return self.truth(v)
        if o == "isnone":
            v = self.ev(a[0], r)
            if isinstance(v, Opq):
                return bool(h64(self.seed, "isnone", v.key) % 3 == 0)
            return v is None
        if o == "is":
            u, v = self.ev(a[0], r), self.ev(a[1], r)
            return canon(u) == canon(v)
        if o == "in":
            u, c = self.ev(a[0], r), self.ev(a[1], r)
            if isinstance(c, Opq):
                return bool(h64(self.seed, "in", canon(u), c.key) & 1)
            if isinstance(c, str):
                if isinstance(u, str):
                    return u in c
                raise Unsupported("in str")
            if isinstance(c, frozenset):
                return canon(u) in c
            return any(canon(u) == canon(y) for y in c)
        if o in ("hasattr", "isinst"):
            v = self.ev(a[0], r)
            return bool(h64(self.seed, o, canon(v), repr(a[1])) & 1)
        if o == "exc":
            if not self.excprob:
                return False
            return (h64(self.seed, "exc", a[0], r) % 1000) < \
                1000 * self.excprob
        if o == "opaque" and str(a[0]).startswith("unbound:"):
            raise Fails(f"name {a[0][8:]} is not defined")
        if o == "range":
            vs = [self.ev(y, r) for y in a]
            if any(isinstance(v, Opq) for v in vs):
                raise Unsupported("range of unknown")
            return range(*[int(v) for v in vs])
        if o == "bcast":
            return self.ev(a[0], 0)
        if o == "rootonly":
            if a[1] == "gather":
                return [self.ev(a[0], q) for q in range(self.nrank)]
            if a[1] in ("reduce", "Reduce"):
                return self.ev(mk("allreduce", a[0], a[2]), r)
            return self.ev(a[0], 0)
        if o == "scatter":
            v = self.ev(a[0], 0)
            if isinstance(v, Opq):
                return Opq(self, ("scat", v.key, r))
            return v[r]
        if o == "allreduce":
            vs = [self.ev(a[0], q) for q in range(self.nrank)]
            if a[1] == "SUM":
                vs = [self.num(v, a[0]) for v in vs]
                s = vs[0]
                for v in vs[1:]:
                    s = s + v
                return s
            if a[1] in ("LOR", "LOGICAL_OR"):
                return any(self.truth(v) for v in vs)
            if a[1] in ("LAND",):
                return all(self.truth(v) for v in vs)
            if a[1] in ("MIN", "MAX", "min", "max"):
                vs = [self.num(v, a[0]) for v in vs]
                f = np.minimum if a[1].lower() == "min" else np.maximum
                return f.reduce(vs) if any(np.ndim(v) for v in vs) else \
                    (min if a[1].lower() == "min" else max)(vs)
            if a[1] == "gather":
                return vs
            if a[1] == "PROD":
                return np.prod([self.num(v, a[0]) for v in vs], axis=0)
            return Opq(self, ("allred", a[1], tuple(canon(v) for v in vs)))
        if o == "attr":
            return self.attr(x, r)
        if o == "idx":
            return self.idx(x, r)
        if o == "upd":
            return self.upd(x, r)
        if o == "call":
            return self.call(x, r)
        if o in ("fstr", "fmt", "cat"):
            vs = []
            if o in ("fstr", "fmt"):
                us = [self.ev(y, r) if isinstance(y, T) else y for y in a]
                if o == "fmt" and isinstance(us[0], (str, int, np.integer)) \
                        and isinstance(us[1], str):
                    try:
                        return format(us[0], us[1])
                    except (ValueError, TypeError):
                        pass
                if o == "fstr":
                    ps = []
                    for u in us:
                        if isinstance(u, (int, np.integer)):
                            u = str(u)
                        if isinstance(u, str) and ps and \
                                isinstance(ps[-1], str):
                            ps[-1] += u
                        else:
                            ps.append(u)
                    if len(ps) == 1 and isinstance(ps[0], str):
                        return ps[0]
                    us = ps
                vs = [canon(u) for u in us]
            else:
                for y in a:
                    vs.append(canon(self.ev(y, r)) if isinstance(y, T)
                              else y)
            if o == "cat":
                us = [self.ev(y, r) for y in a]
                if all(isinstance(u, list) for u in us):
                    return [z for u in us for z in u]
                if all(isinstance(u, tuple) for u in us):
                    return tuple(z for u in us for z in u)
            out = []
            for v in vs:        # merge literal pieces
                if isinstance(v, tuple) and v and v[0] == "S":
                    out.extend(v[1:])
                else:
                    out.append(v)
            return Opq(self, ("S",) + tuple(out))
        if o in ("ext", "comm", "fn", "mod", "bound", "partial", "meth",
                 "excinst", "anyexc", "ref", "property", "pool", "class"):
            ks = []
            for y in a:
                ks.append(canon(self.ev(y, r)) if isinstance(y, T)
                          else repr(y))
            return Opq(self, (o,) + tuple(ks))
        raise Unsupported(o)

    # --------------------------------------------------------- helpers
    def intify(self, v):
        if isinstance(v, Opq):
            return int(h64(self.seed, "int", v.key) % 8)
        if isinstance(v, np.ndarray):
            if v.dtype == bool or v.dtype.kind in "iu":
                return v
            return v.astype(np.int64)
        return v if isinstance(v, (bool, np.bool_)) else int(v)

    def arith(self, o, u, v):
        if o == "add":
            return u + v
        if o == "sub":
            return u - v
        if o == "mul":
            return u * v
        if o == "div":
            return np.true_divide(u, v)
        return np.power(np.asarray(u, float), v) if not (
            isinstance(u, int) and isinstance(v, int) and v >= 0) else u ** v

    def poly(self, items, r):
        s = 0
        if len(items) == 2 and sorted(c for _, c in items) == [-1, 1] and \
                all(len(m) == 1 and m[0][1] == 1 for m, _ in items):
            # the difference of two texts: only its sign is ever used
            x, y = sorted(items, key=lambda i: -i[1])
            u, v = self.numev(x[0][0][0], r), self.numev(y[0][0][0], r)
            if getattr(getattr(u, "dtype", None), "kind", "") in ("U", "S") \
                    or isinstance(u, str):
                return np.where(np.equal(u, v), 0, np.where(
                    np.less(u, v), -1, 1))[()]
            return 1 * u - 1 * v
        big = 0
        for m, c in items:
            p = int(c) if c.denominator == 1 else float(c)
            for y, e in m:
                v = self.numev(y, r)
                if e == 1:
                    p = p * v
                elif e == -1:
                    p = np.true_divide(p, v)
                elif e == 2:
                    p = p * (v * v)
                elif e.denominator == 1 and e > 0:
                    p = p * v ** int(e)
                else:
                    p = p * np.power(np.asarray(v, float), float(e))
            s = s + p
            if len(items) > 1 and m:
                big = np.maximum(big, np.abs(p))
        if len(items) > 1 and not isinstance(big, int):
            # an expanded sum whose terms cancel has no accuracy left
            e = big * 4e-16 > 1e-7 * np.maximum(1, np.abs(s))
            if np.any(e & np.isfinite(big)):
                self.unstable = True
        return s

    def cmp(self, o, u, v, a):
        if o in ("eq", "ne"):
            if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
                if isinstance(u, Opq):
                    u = u.num()
                if isinstance(v, Opq):
                    v = v.num()
                ku = np.asarray(u).dtype.kind
                kv = np.asarray(v).dtype.kind
                if ku in "US" and kv in "US":
                    e = np.asarray(u) == np.asarray(v)
                elif isinstance(u, str) or isinstance(v, str):
                    e = np.zeros(np.shape(u) or np.shape(v), bool)
                else:
                    e = np.abs(np.asarray(u, float) -
                               np.asarray(v, float)) <= 1e-11
            else:
                e = canon(u) == canon(v)
                if isinstance(u, Opq) != isinstance(v, Opq):
                    w = u if isinstance(u, Opq) else v
                    c = v if isinstance(u, Opq) else u
                    e = bool(h64(self.seed, "eq", w.key, canon(c)) & 1)
                elif isinstance(u, Opq) and not e:
                    # unknown values collide now and then
                    p = sorted((repr(u.key), repr(v.key)))
                    e = not _fmt_differ(u.key, v.key) and bool(
                        h64(self.seed, "eqq", *p) % 3 == 0)
            return ~e if o == "ne" and isinstance(e, np.ndarray) else (
                not e if o == "ne" else e)
        if isinstance(u, (Opq, str)) or isinstance(v, (Opq, str)):
            if isinstance(u, str) and isinstance(v, str):
                pass
            elif isinstance(u, str) or isinstance(v, str):
                w = h64(self.seed, "ord", canon(u), canon(v)) & 1
                return bool(w)
            else:
                u, v = self.num(u), self.num(v)
        return {"lt": u < v, "le": u <= v, "gt": u > v, "ge": u >= v}[o]

    def ite(self, x, r):
        # iterative descent for scalar conditions
        y = x
        while y.op in ("ite", "phi"):
            c = self.boolev(y.args[0], r)
            if isinstance(c, np.ndarray) and c.ndim:
                return self.where(c, y, r)
            y = y.args[1] if c else y.args[2]
        return self.ev(y, r)

    def where(self, c, y, r):
        need_a, need_b = c.any(), not c.all()
        if not need_a and not need_b:      # empty
            need_a = True
        va = vb = None
        isb = True
        if need_a:
            va = self.ev(y.args[1], r)
            isb = isb and np.asarray(va).dtype == bool
            va = self.num(va, y.args[1])
        if need_b:
            vb = self.ev(y.args[2], r)
            isb = isb and np.asarray(vb).dtype == bool
            vb = self.num(vb, y.args[2])
        if va is None:
            va = vb
        if vb is None:
            vb = va
        v = np.where(c, va, vb)
        return v.astype(bool) if isb else v

    def attr(self, x, r):
        v = self.ev(x.args[0], r)
        n = x.args[1]
        if v is None:
            raise Fails(f"None has no attribute {n}")
        if isinstance(v, Opq):
            if n == "size":
                return v.n or self.k
            return Opq(self, ("attr", v.key, n))
        if isinstance(v, np.ndarray):
            if n in ("size", "ndim", "T"):
                return getattr(v, n)
            if n == "shape":
                return tuple(v.shape)
            if n == "dtype":
                if v.dtype.names:
                    return v.dtype
                return Opq(self, ("dtype",))
        if isinstance(v, np.void) and n == "dtype":
            return v.dtype
        if isinstance(v, np.dtype):
            if n == "names":
                return tuple(v.names or ())
            return Opq(self, ("dtype", n))
        return Opq(self, ("attr", canon(v), n))

    def index(self, i, r):
        if i.op == "tuple":
            return tuple(self.index(y, r) for y in i.args)
        v = self.ev(i, r)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            return np.rint(v).astype(int)
        if isinstance(v, float):
            return int(round(v))
        if isinstance(v, list):
            return np.array(v) if v else np.zeros(0, int)
        return v

    def idx(self, x, r):
        b = self.ev(x.args[0], r)
        i = self.index(x.args[1], r)
        if isinstance(b, np.void):
            try:
                v = b[i]
            except (ValueError, IndexError, KeyError) as e:
                raise Fails(f"field {i}")
            return v.item() if isinstance(v, np.generic) and not \
                isinstance(v, np.void) else v
        if isinstance(b, np.ndarray) and b.dtype.names:
            if isinstance(i, np.ndarray) and i.dtype.kind == "U":
                i = [str(y) for y in i.ravel()]
            if isinstance(i, tuple) and i and all(
                    isinstance(y, str) for y in i):
                i = list(i)
            if isinstance(i, Opq):
                return Opq(self, ("idx", canon(b), canon(i)))
            try:
                v = b[i]
            except (ValueError, IndexError, KeyError) as e:
                raise Fails(f"column {i}")
            if isinstance(i, list) and v.dtype.names:
                from numpy.lib.recfunctions import repack_fields
                v = repack_fields(v)
            return v
        if isinstance(b, (np.ndarray, list, tuple)):
            if isinstance(i, (Opq, str)) or (isinstance(i, tuple) and any(
                    isinstance(y, (Opq, str)) for y in i)):
                return Opq(self, ("idx", canon(b), canon(i)))
            if isinstance(b, (list, tuple)) and not isinstance(
                    i, (int, slice, np.integer)):
                b = np.array([self.num(y) for y in b])
            if isinstance(b, np.ndarray):
                v = b[i]
                return v.item() if isinstance(v, np.generic) else v
            return b[i]
        if isinstance(b, dict):
            k = i if isinstance(i, (str, int)) else canon(i)
            if k not in b:
                raise Fails(f"key {k}")
            return b[k]
        if isinstance(b, Opq):
            k = canon(i)
            if isinstance(i, np.ndarray):
                n = int(i.sum()) if i.dtype == bool else i.size
                return Opq(self, ("idx", b.key, k), n)
            return Opq(self, ("idx", b.key, k))
        if isinstance(b, (int, float, bool, np.generic)):
            # scalar left over from an elementwise choice
            return b
        if isinstance(b, str):
            return b[i]
        if b is None:
            raise Fails("None is not subscriptable")
        raise Unsupported("idx " + type(b).__name__)

    def upd(self, x, r):
        b, i, v = x.args
        b = self.ev(b, r)
        i = self.index(i, r)
        v = self.ev(v, r)
        if isinstance(b, Opq):
            return Opq(self, ("upd", b.key, canon(i), canon(v)), b.n)
        if isinstance(v, Opq):
            v = v.num()
        b = np.array(b)
        if b.dtype.names:
            try:
                b[i] = v
            except (ValueError, IndexError, KeyError):
                raise Fails(f"column {i}")
            return b
        if b.dtype.kind in "iub" and np.asarray(v).dtype.kind == "f":
            b = b.astype(float)
        if isinstance(v, np.ndarray) and isinstance(i, np.ndarray) \
                and i.dtype == bool and v.shape == i.shape and \
                v.size != i.sum():
            v = v[i]
        if isinstance(v, np.ndarray) and v.ndim and v.size == 1 and \
                np.ndim(b[i]) == 0:
            v = v.reshape(-1)[0]
        b[i] = v
        return b

    # ---------------------------------------------------------- calls
    def call(self, x, r):
        n = x.args[0]
        pos = [y for y in x.args[1:] if y.op != "kw"]
        kws = {y.args[0]: y.args[1] for y in x.args[1:] if y.op == "kw"}
        f = CALLS.get(n)
        if f is not None:
            return f(self, x, pos, kws, r)
        vs = [self.ev(y, r) for y in pos]
        kv = {k: self.ev(y, r) for k, y in kws.items()}
        return self.unknown(n, x, vs, kv)

    def smooth(self, n, bv):
        """an arbitrary smooth function of numbers (insensitive to rounding),
        with values in (0.3, 2.5)"""
        rng = np.random.default_rng(h64(self.seed, "smooth", n, len(bv)))
        a = b = 0.
        for x in bv:
            k = rng.uniform(4, 9, 2) * rng.choice([-1, 1], 2)
            u = np.arcsinh(np.clip(x, -1e12, 1e12))
            a = a + k[0] * u
            b = b + k[1] * u
        ph = rng.uniform(0, 6.28, 2)
        return 1.4 + .6 * np.sin(a + ph[0]) + .5 * np.sin(b + ph[1])

    def unknown(self, n, x, vs, kv):
        key = ("call", n, tuple(canon(v) for v in vs),
               tuple(sorted((k, canon(v)) for k, v in kv.items())))
        if n in self.ufn:
            return self.ufn[n](self, *vs, **kv)
        if not n.startswith("$"):
            self.unk.add(n)
        if n.startswith("$") or t.kind(x) == "arr":
            sh = None
            for v in vs:
                if isinstance(v, np.ndarray) and v.ndim:
                    sh = v.shape
            if sh is not None:
                if n.startswith("$"):   # unknown elementwise function
                    bv = np.broadcast_arrays(*[
                        np.asarray(self.num(v), float) for v in vs])
                    return self.smooth(n, bv)
                return np.random.default_rng(h64(self.seed, key)).uniform(
                    0.3, 2.5, size=sh)
            if n.startswith("$"):
                if vs and all(isinstance(v, (int, float, np.number, Opq))
                              for v in vs):
                    return float(self.smooth(n, [
                        np.asarray(self.num(v), float) for v in vs]))
                return Opq(self, ("ufn", n, tuple(
                    canon(float(self.num(v))) if not isinstance(
                        v, (str, type(None), tuple, list)) else canon(v)
                    for v in vs))).num()
        return Opq(self, key)


def _np1(f):
    def g(E, x, pos, kws, r):
        vs = [E.numev(p, r) for p in pos]
        kv = {}
        for k, y in kws.items():
            v = E.ev(y, r)
            if isinstance(v, Opq):
                continue
            kv[k] = v
        v = f(*vs, **kv)
        return v.item() if isinstance(v, np.generic) else v
    return g


def _npk(f):
    """a function that moves elements and keeps their type."""
    def g(E, x, pos, kws, r):
        v0 = E.num(E.ev(pos[0], r), pos[0])
        vs = [E.ev(p, r) for p in pos[1:]]
        kv = {k: E.ev(y, r) for k, y in kws.items()}
        if any(isinstance(v, Opq) for v in vs + list(kv.values())):
            return E.unknown(x.args[0], x, [v0] + vs, kv)
        v = f(v0, *vs, **kv)
        return v.item() if isinstance(v, np.generic) else v
    return g


def _ix(E, x, pos, kws, r):
    vs = [E.index(p, r) for p in pos]
    if any(isinstance(v, Opq) for v in vs):
        return E.unknown("np.ix_", x, vs, {})
    return tuple(np.ix_(*vs))


def _npb(f):
    def g(E, x, pos, kws, r):
        vs = [E.boolev(p, r) for p in pos[:1]]
        kv = {k: E.ev(y, r) for k, y in kws.items()}
        v = f(*vs, **kv)
        return v.item() if isinstance(v, np.generic) else v
    return g


def _len(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq):
        return v.n or E.k
    return len(v)


def _int(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq):
        return int(h64(E.seed, "int", v.key) % 5)
    if isinstance(v, np.ndarray):
        return v.astype(int)
    return int(float("%.12g" % v)) if isinstance(v, float) else int(v)


def _toint(E, x, pos, kws, r):
    return _int(E, x, pos, kws, r)


def _list(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq):
        return [Opq(E, ("idx", v.key, j)) for j in range(v.n or E.k)]
    return list(v)


def _split(E, x, pos, kws, r):
    v, s = E.ev(pos[0], r), E.ev(pos[1], r)
    if isinstance(v, Opq) or isinstance(s, Opq):
        return Opq(E, ("call", "np.split", canon(v), canon(s)))
    return list(np.split(np.asarray(v), np.asarray(s, int)))


def _unique(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if isinstance(v, (list, tuple)):
        v = np.array([E.num(y) for y in v])
    if isinstance(v, Opq):
        if any(kv.values()):
            return tuple(Opq(E, ("call", "np.unique", v.key, j)) for j in
                         range(1 + sum(bool(z) for z in kv.values())))
        return Opq(E, ("call", "np.unique", v.key, 0))
    return np.unique(v, **kv)


def _intersect1d(E, x, pos, kws, r):
    u, v = E.ev(pos[0], r), E.ev(pos[1], r)
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if isinstance(u, Opq) or isinstance(v, Opq):
        key = ("call", "np.intersect1d", canon(u), canon(v),
               canon(kv.get("assume_unique", False)))
        if kv.get("return_indices"):
            return tuple(Opq(E, key + (j,)) for j in range(3))
        return Opq(E, key + (0,))
    return np.intersect1d(u, v, **kv)


def _concat(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq) or any(isinstance(y, Opq) for y in v):
        return Opq(E, ("call", "np.concatenate", canon(v)))
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if x.args[0] == "np.concatenate":
        return np.concatenate(v, **kv)
    return getattr(np, x.args[0].split(".")[1])(v)


def _array(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq):
        return Opq(E, ("call", "np.array", v.key), v.n)
    if isinstance(v, (list, tuple)):
        return np.array([E.num(y) for y in v])
    return np.array(v)


def _recdtype(E, y, r):
    out = []
    for f in E.ev(y, r):
        f = list(f)
        if isinstance(f[1], Opq):
            n = str(f[1]).replace("numpy.", "np.")
            m = re.findall(r"'(?:np\.)?(bool|int|float|int32|int64|float32|"
                           r"float64|uint8|int16)_?'", repr(f[1].key))
            if len(m) != 1:
                raise Unsupported(f"dtype {n}")
            f[1] = np.dtype(m[0])
        out.append(tuple(f))
    return np.dtype(out)


def _recarray(E, x, pos, kws, r):
    d = _recdtype(E, pos[-1], r)
    v = E.ev(pos[0], r)
    if x.args[0] == "recarray":
        return np.zeros(v if isinstance(v, tuple) else int(v), dtype=d)
    return np.array([tuple(E.num(z) if not isinstance(z, str) else z
                           for z in y) for y in v], dtype=d)


def _searchsorted(E, x, pos, kws, r):
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if len(pos) > 2:
        kv["side"] = E.ev(pos[2], r)
    v = np.searchsorted(E.numev(pos[0], r), E.numev(pos[1], r), **kv)
    return v.item() if isinstance(v, np.generic) else v


def _isin(E, x, pos, kws, r):
    u, v = E.ev(pos[0], r), E.ev(pos[1], r)
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if isinstance(v, frozenset):
        v = sorted(v, key=repr)
    if isinstance(u, Opq) or isinstance(v, Opq) or (
            isinstance(v, list) and any(
                isinstance(y, Opq) or isinstance(y, str) and
                np.asarray(u).dtype.kind not in "US" for y in v)):
        n = np.size(u) if not isinstance(u, Opq) else (u.n or E.k)
        b = np.random.default_rng(h64(E.seed, "isin", canon(u), canon(v))
                                  ).integers(0, 2, size=n).astype(bool)
        return ~b if kv.get("invert") else b
    return np.isin(u, v, **{k: z for k, z in kv.items() if k == "invert"})


def _einsum(E, x, pos, kws, r):
    return np.einsum(E.ev(pos[0], r), *[E.numev(p, r) for p in pos[1:]])


def _reshape(E, x, pos, kws, r):
    sh = E.ev(pos[1], r)
    sh = tuple(int(s) for s in sh) if isinstance(sh, (tuple, list)) \
        else int(sh)
    return np.reshape(E.numev(pos[0], r), sh)


def _minmaxs(f):
    def g(E, x, pos, kws, r):
        return f(E.numev(p, r) for p in pos)
    return g


def _get(E, x, pos, kws, r):
    b, k = E.ev(pos[0], r), E.ev(pos[1], r)
    d = E.ev(pos[2], r) if len(pos) > 2 else None
    if isinstance(b, dict):
        return b.get(k, d)
    if isinstance(b, Opq):
        if h64(E.seed, "in", canon(k), b.key) & 1:
            return Opq(E, ("idx", b.key, canon(k)))
        return d
    raise Unsupported(".get")


def _allclose(E, x, pos, kws, r):
    u, v = E.numev(pos[0], r), E.numev(pos[1], r)
    if np.shape(u) != np.shape(v) and np.ndim(u) and np.ndim(v):
        raise Fails("shape")
    return bool(np.allclose(u, v))


def _rangecall(E, x, pos, kws, r):
    return list(range(*[int(E.numev(p, r)) for p in pos]))


def _medfilt(E, x, pos, kws, r):
    vs = [E.ev(p, r) for p in pos]
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    return E.unknown(x.args[0], x, vs, kv)


def _liststar(E, x, pos, kws, r):
    v, n = E.ev(pos[0], r), E.ev(pos[1], r)
    return list(v) * int(E.num(n))


def _argsort(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if isinstance(v, Opq):
        return Opq(E, ("call", "np.argsort", canon(v),
                       canon(kv.get("order"))), getattr(v, "n", None))
    v = np.asarray(v)
    o = kv.get("order")
    if o is not None:
        return np.argsort(v, kind="stable",
                          order=o if isinstance(o, str) else list(o))
    if "axis" in kv:
        return np.argsort(v, axis=kv["axis"], kind="stable")
    return np.argsort(v, kind="stable")


def _recfn(name):
    import numpy.lib.recfunctions as rf
    f = getattr(rf, name)

    def g(E, x, pos, kws, r):
        vs = [E.ev(p, r) for p in pos]
        kv = {k: E.ev(y, r) for k, y in kws.items()}
        if any(isinstance(v, Opq) for v in vs):
            return E.unknown(x.args[0], x, vs, kv)
        if name == "rename_fields":
            d = vs[1]
            vs[1] = {str(k).strip("'"): v for k, v in d.items()}
        if name == "append_fields":
            kv.pop("dtypes", None)
            kv["usemask"] = False
            vs[2] = np.asarray(vs[2])
        if name == "merge_arrays":
            vs[0] = tuple(vs[0])
        v = f(*vs, **kv)
        return np.asarray(v)
    return g


def _lexsort(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq) or any(isinstance(y, Opq) for y in v):
        return Opq(E, ("call", "np.lexsort", canon(v)))
    return np.lexsort(tuple(v))


def _sort(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if isinstance(v, Opq):
        return Opq(E, ("call", "np.sort", v.key, canon(kv)), v.n)
    o = kv.get("order")
    if o is not None:
        kv["order"] = o if isinstance(o, str) else list(o)
    kv["kind"] = "stable"
    return np.sort(np.asarray(v), **kv)


def _sorted(E, x, pos, kws, r):
    v = E.ev(pos[0], r)
    if isinstance(v, Opq) or kws:
        return Opq(E, ("sorted", canon(v)))
    return sorted(v)


def _sortrank(E, x, pos, kws, r):
    """position of the i-th member in the stably sorted list"""
    i, rev = int(E.ev(pos[0], r)), bool(E.ev(pos[1], r))
    ks = list(E.ev(pos[2], r))
    if any(isinstance(k, (Opq, np.ndarray)) for k in ks):
        raise Unsupported("sort of unknown keys")
    return sorted(range(len(ks)), key=lambda j: ks[j],
                  reverse=rev).index(i)


def _asint(v):
    if isinstance(v, (float, np.floating)) and v == int(v):
        return int(v)
    return v


def _linspace(E, x, pos, kws, r):
    vs = [E.numev(p, r) for p in pos]
    kv = {k: E.ev(y, r) for k, y in kws.items()}
    if len(vs) > 2:
        vs[2] = _asint(vs[2])
    if "num" in kv:
        kv["num"] = _asint(kv["num"])
    return np.linspace(*vs, **kv)


def _arange(E, x, pos, kws, r):
    return np.arange(*[_asint(E.numev(p, r)) for p in pos])


def _add_at(E, x, pos, kws, r):
    b = np.array(E.numev(pos[0], r), dtype=float)
    i = E.index(pos[1], r)
    if isinstance(i, (list, tuple)) and i and not any(
            isinstance(y, (slice, list, np.ndarray, tuple)) for y in i):
        i = np.array(i)
    try:
        np.add.at(b, i, E.numev(pos[2], r))
    except (IndexError, ValueError) as e:
        raise Fails(str(e))
    return b


CALLS = {"np.add_at": _add_at, "len": _len, "int": _int, "np.toint": _toint, "list": _list,
         "np.split": _split, "sortrank": _sortrank, "np.unique": _unique,
         "np.intersect1d": _intersect1d, "np.concatenate": _concat,
         "np.hstack": _concat, "np.vstack": _concat,
         "np.column_stack": _concat, "np.array": _array,
         "recarray": _recarray, "np.recarray": _recarray,
         "np.lexsort": _lexsort, "np.sort": _sort,
         "np.searchsorted": _searchsorted, "np.isin": _isin,
         "np.einsum": _einsum, "np.reshape": _reshape,
         "mins": _minmaxs(min), "maxs": _minmaxs(max), ".get": _get,
         "np.allclose": _allclose, "range": _rangecall,
         "list*": _liststar, "np.argsort": _argsort, "sorted": _sorted,
         "np.any": _npb(np.any), "np.all": _npb(np.all),
         "any": _npb(np.any), "all": _npb(np.all),
         "np.nonzero0": lambda E, x, p, k, r: np.nonzero(
             E.boolev(p[0], r))[0],
         "float": lambda E, x, p, k, r: E.numev(p[0], r),
         "round": lambda E, x, p, k, r: (
             int(np.round(E.numev(p[0], r))) if len(p) == 1 else
             np.round(*[E.numev(q, r) for q in p])),
         "np.linspace": _linspace, "np.arange": _arange,
         "np.tofloat": lambda E, x, p, k, r: E.numev(p[0], r),
         "bool": lambda E, x, p, k, r: E.boolev(p[0], r),
         "np.ix_": _ix,
         }
for _n in ("sqrt exp log log10 abs isnan isfinite isinf sign radians degrees "
           "sin cos round floor ceil fmin fmax minimum maximum log2 log1p "
           "expm1 rint sum mean median dot min max std prod argmin argmax "
           "count_nonzero linspace arange logspace append outer diff repeat "
           "eye ravel bincount clip cumsum convolve pad sort transpose diag "
           "flip tile matmul cov var nansum average trace interp power cross "
           "argwhere trapz digitize nan_to_num isclose array_equal "
           "mod ndim shape nanmean nanmedian nanmin nanmax nanstd ptp "
           "square reciprocal exp2 cbrt hypot heaviside nonzero where "
           "flatnonzero cumprod amax amin fabs negative positive add "
           "subtract multiply divide true_divide floor_divide fliplr flipud "
           "logical_and logical_or logical_not logical_xor any all "
           "atleast_1d squeeze expand_dims swapaxes rollaxis moveaxis roll "
           "inner vdot tensordot meshgrid geomspace histogram percentile "
           "quantile take compress delete insert union1d setdiff1d in1d "
           "unravel_index triu tril triu_indices tril_indices full ones "
           "zeros polyval gradient trunc around copysign signbit "
           "broadcast_to flatten select choose piecewise identity ").split():
    if "np." + _n not in CALLS and hasattr(np, _n):
        CALLS["np." + _n] = (_npk if "np." + _n in t.SHAPEFN else _np1)(
            getattr(np, _n))


def _abs_fft(n):
    CALLS["np.fft." + n] = _np1(getattr(np.fft, n))


for _n in ("rfft", "irfft", "rfftfreq", "fft", "ifft"):
    _abs_fft(_n)


for _n in ("rename_fields", "append_fields", "drop_fields", "merge_arrays"):
    CALLS["np.lib.recfunctions." + _n] = _recfn(_n)


# ------------------------------------------------------------ comparing
def same(u, v, spec_free=True):
    """is code value u acceptable where the reference value is v?"""
    if isinstance(v, dict) or isinstance(u, dict):
        if not (isinstance(v, dict) and isinstance(u, dict)):
            return False
        return set(u) == set(v) and all(same(u[k], v[k]) for k in v)
    if isinstance(v, (tuple, list)) and not isinstance(u, np.ndarray):
        return isinstance(u, (tuple, list)) and len(u) == len(v) and \
            all(same(p, q) for p, q in zip(u, v))
    if isinstance(v, frozenset) or isinstance(u, frozenset):
        return u == v
    if isinstance(u, Opq) or isinstance(v, Opq):
        if isinstance(u, Opq) and isinstance(v, Opq):
            return u.key == v.key
        return False
    if isinstance(u, str) or isinstance(v, str) or u is None or v is None:
        return type(u) is type(v) and u == v
    try:
        a, b = np.asarray(u), np.asarray(v)
        if a.dtype == object or b.dtype == object:
            return canon(u) == canon(v)
        a, b = a.astype(complex), b.astype(complex)
    except (TypeError, ValueError):
        return canon(u) == canon(v)
    if a.shape != b.shape:
        return False
    ok = np.isfinite(b)
    d = np.abs(a - b)
    tol = 4e-7 * (np.abs(b) + np.abs(a)) + 4e-9
    good = (d <= tol) | ~ok
    return bool(np.all(good))


class Verdict:
    lens = None

    def __init__(self, kind, detail=None, n=0):
        self.kind, self.detail, self.n = kind, detail, n

    def __repr__(self):
        return f"<{self.kind} {self.detail}>"


def lengths(E, assumed, r):
    """lengths the unrolled domains have in world E: (sig, reason) where
    reason is None if they are the ones the graph was built for."""
    why, sig, off = None, {}, False
    for d, kk, pc in assumed:
        try:
            if pc is not TRUE:
                q = E.boolev(pc, r)
                if not (q.any() if isinstance(q, np.ndarray) else q):
                    continue
            if d.op == "whiledom":
                sig[d] = 3 * kk + 2
                off = True
                why = why or "more loop iterations"
                continue
            v = E.ev(d, r)
            m = (v.n or E.k) if isinstance(v, Opq) else len(v)
        except (Unsupported, TypeError) as e:
            why = why or f"length: {e}"
            continue
        except Fails:
            m = kk
        sig[d] = m
        if m != kk:
            off = True
            why = why or (f"length {m} instead of {kk} of "
                          + t.show(d, 4)[:120])
    return (sig if off else None), why


def rank_trace(E, evs, rc, r):
    """(calls, ending, sites, site of the ending) of rank r in world E; the
    ending is "?" from where the run is not known"""
    tr, sites = [], []
    try:
        for e in evs:
            g = E.boolev(e.guard, r)
            if isinstance(g, np.ndarray):
                g = bool(g.all())
            if not g:
                continue
            if e.kind == "abort":
                return tuple(tr), "Abort", sites, str(e.where)
            root = e.data.get("root")
            root = 0 if root is None else canon(E.ev(root, r))
            tr.append((e.data["name"], root, e.data["op"]))
            sites.append(str(e.where))
        for x in rc.raises:
            g = E.boolev(x.state.abs, r)
            if isinstance(g, np.ndarray):
                g = bool(g.all())
            if g:
                return tuple(tr), x.names[0], sites, str(x.where)
    except (Unsupported, Fails) as e:
        return tuple(tr), "?", sites, str(e)
    return tuple(tr), "return", sites, "end"


def trace_diff(a, b):
    """do two traces differ?  None = not known"""
    x = list(a[0]) + [("end", a[1])]
    y = list(b[0]) + [("end", b[1])]
    for u, v in zip(x, y):
        if ("end", "?") in (u, v):
            return None
        if u != v:
            return True
    return False


def decide(code, spec, gens=None, pre=TRUE, assumed=(), seeds=range(24),
           k=2, nrank=NRANK, ranks=(0, 1), need=8, exc=0.0, ufn=None, n=6):
    """compare two value graphs; Verdict.kind in proof/agree/differ/undecided.
    """
    code, spec = t.norm(code), t.norm(spec)
    if code is spec or t.eq_terms(code, spec):
        return Verdict("proof")
    done, why = 0, None
    bad = None
    lens = []
    names = callnames(spec)
    for s in seeds:
        E = Env(s, gens, k=k, nrank=nrank, exc=exc, ufn=ufn, n=n)
        for r in ranks:
            try:
                p = E.boolev(pre, r) if pre is not TRUE else True
                if isinstance(p, np.ndarray):
                    p = bool(p.all())
                if not p:
                    why = why or "no valuation meets the precondition"
                    continue
                w = None
                for q in range(nrank):  # collectives couple the ranks
                    sig, w = lengths(E, assumed, q)
                    if w:
                        break
                if w:
                    if not why or why.startswith("no valuation"):
                        why = w
                    if sig:
                        lens.append(sig)
                    continue
                v = E.ev(spec, r)
            except (Unsupported, Fails) as e:
                why = f"spec: {e}"
                continue
            known = names
            try:
                u = E.ev(code, r)
            except Unsupported as e:
                why = f"code: {e}"
                continue
            except Fails as e:
                if E.unk - known:
                    why = f"code calls {sorted(E.unk - known)[:3]}"
                    continue
                bad = dict(seed=s, rank=r, error=str(e), expected=brief(v))
                break
            if E.unstable and not same(u, v):
                why = "rounding errors are as large as the value"
                continue
            if E.unk - known and not same(u, v):
                # a function outside the model: no claim either way
                why = f"code calls {sorted(E.unk - known)[:3]}"
                continue
            done += 1
            if not same(u, v):
                where, uu, vv = diffpath(u, v)
                bad = dict(seed=s, rank=r, at=where, got=brief(uu),
                           expected=brief(vv),
                           symbols={str(q[0]): brief(w) for q, w in
                                    list(E.syms.items())[:12]})
                break
        if bad:
            return Verdict("differ", bad, done)
        if done >= need:
            break
    v = Verdict("agree", None, done) if done else Verdict(
        "undecided", why, 0)
    v.lens = lens
    return v


def callnames(x):
    """functions called anywhere in a value graph"""
    out, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if not isinstance(y, t.T) or id(y) in seen:
            if isinstance(y, tuple):
                todo.extend(y)
            continue
        seen.add(id(y))
        if y.op == "call":
            out.add(y.args[0])
        todo.extend(y.args)
    return out


def diffpath(u, v, p=""):
    if isinstance(u, dict) and isinstance(v, dict):
        for k in v:
            if k not in u:
                return p + f"[{k!r}]", "missing", v[k]
            if not same(u[k], v[k]):
                return diffpath(u[k], v[k], p + f"[{k!r}]")
        x = set(u) - set(v)
        return p, f"extra {sorted(map(str, x))}", None
    if isinstance(u, (list, tuple)) and isinstance(v, (list, tuple)):
        if len(u) != len(v):
            return p + ".len", len(u), len(v)
        for i, (a, b) in enumerate(zip(u, v)):
            if not same(a, b):
                return diffpath(a, b, p + f"[{i}]")
    return p, u, v


def decide_cond(code, spec, **kw):
    return decide(code, spec, **kw)


def brief(v, n=260):
    if isinstance(v, np.ndarray):
        s = np.array2string(v, precision=5, threshold=12)
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."
