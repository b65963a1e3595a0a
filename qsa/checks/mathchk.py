"""Numerical kernels and jackknife statistics."""
from .common import *

KER = '''
import numpy as np
from qsonic.mathtools import (FastLinear1DInterp, FastCubic1DInterp, mypoly1d,
                              _zero_function, _one_function,
                              block_covariance_of_square,
                              get_median_outlier_mask)

def tab(p, n):
    return np.array([SCAL(p + str(i)) for i in range(n)])

def at(n):
    q = (ARR('x') - SCAL('x0')) / SCAL('dx')
    i = np.clip(np.floor(q), 0, n - 2).astype(int)
    return i, q - i

def code_lin(n, copy):
    f = tab('f', n)
    I = FastLinear1DInterp(SCAL('x0'), SCAL('dx'), f, copy)
    a = I(ARR('x'))
    g = tab('g', n)
    I.reset(g, copy)
    b = I(ARR('x'))
    return {'first': a, 'second': b, 'table': f, 'x': ARR('x')}

def spec_lin(n, copy):
    i, t = at(n)
    f = tab('f', n)
    g = tab('g', n)
    return {'first': f[i] + t * (f[i + 1] - f[i]),
            'second': g[i] + t * (g[i + 1] - g[i]), 'table': f,
            'x': ARR('x')}

def cubic(f, y, n):
    i, t = at(n)
    y = np.array(y)
    s = 1 - t
    h = SCAL('dx')**2 / 6
    return (s * f[i] + t * f[i + 1] + h * ((s**3 - s) * y[i]
                                           + (t**3 - t) * y[i + 1]))

def code_cub(n, bc):
    f = tab('f', n)
    I = FastCubic1DInterp(SCAL('x0'), SCAL('dx'), f, False, None, bc)
    y = second(I, f, n)
    a = I(ARR('x'))
    r1 = resid(f, y, n, bc)
    g = tab('g', n)
    I.reset(g)
    z = second(I, g, n)
    b = I(ARR('x'))
    return {'first': a - cubic(f, y, n), 'eq': r1,
            'second': b - cubic(g, z, n), 'eq2': resid(g, z, n, bc),
            'table': f}

def second(I, f, n):
    """second derivatives at the knots, from values inside the segments"""
    h = SCAL('dx')**2 / 6
    y = []
    for i in range(n - 1):
        v = I(SCAL('x0') + SCAL('dx') * (i + np.array([0.25, 0.75])))
        d1 = (v[0] - (3 * f[i] + f[i + 1]) / 4) / h
        d2 = (v[1] - (f[i] + 3 * f[i + 1]) / 4) / h
        # d1 = -21/64 y0 - 15/64 y1,  d2 = -15/64 y0 - 21/64 y1
        y.append((15 * d2 - 21 * d1) * 64 / 216)
        if i == n - 2:
            y.append((15 * d1 - 21 * d2) * 64 / 216)
    return y

def resid(f, y, n, bc):
    """equations of the cubic spline with equally spaced knots"""
    h = SCAL('dx')**2
    out = []
    for i in range(1, n - 1):
        out.append((y[i - 1] + 4 * y[i] + y[i + 1]) * h / 6
                   - (f[i - 1] - 2 * f[i] + f[i + 1]))
    if bc == 'natural':
        out.append(y[0] * h)
        out.append(y[n - 1] * h)
    else:
        out.append((y[0] - 2 * y[1] + y[2]) * h)
        out.append((y[n - 1] - 2 * y[n - 2] + y[n - 3]) * h)
    return out

def spec_cub(n, bc):
    z = np.zeros(ARR('x').size)
    return {'first': z, 'eq': [0.0] * n, 'second': z, 'eq2': [0.0] * n,
            'table': tab('f', n)}

def code_store(cls):
    """what the interpolators keep: table, errors, independence of a copy"""
    I = cls(SCAL('x0'), SCAL('dx'), tab('f', 6), ep=tab('e', 6))
    a = VALUE(I.fp)
    b = VALUE(I.ep)
    g = tab('g', 6)
    I.reset(g, True, tab('h', 6))
    y = I(ARR('x'))
    g += 1
    r = {'fp': a, 'ep': b, 'fp2': I.fp, 'ep2': I.ep, 'same': I(ARR('x')) - y}
    I.reset(tab('f', 6))
    r['ep3'] = I.ep is None
    f = tab('f', 6)
    K = cls(SCAL('x0'), SCAL('dx'), f, True)
    z = K(ARR('x'))
    f *= 2
    r['copy'] = K(ARR('x')) - z
    r['noep'] = K.ep is None
    # by default splines end without a knot
    if cls is FastCubic1DInterp:
        E = cls(SCAL('x0'), SCAL('dx'), tab('g', 6), False, None,
                'not-a-knot')
        r['bc'] = cls(SCAL('x0'), SCAL('dx'), tab('g', 6))(
            ARR('x')) - E(ARR('x'))
    return r

def spec_store(cls):
    z = np.zeros(ARR('x').size)
    r = {'fp': tab('f', 6), 'ep': tab('e', 6), 'fp2': tab('g', 6),
         'ep2': tab('h', 6), 'same': z, 'ep3': True, 'copy': z, 'noep': True}
    if cls is FastCubic1DInterp:
        r['bc'] = z
    return r

def code_med(kw):
    import qsonic.mathtools as MT
    MT.median_filter = lambda x, n: medf(x, n)
    return {'mask': get_median_outlier_mask(ARR('fl'), ARR('iv'), *kw)}

def medf(x, n):
    return FN('medf')(x, n)

def spec_med(kw):
    es, nw = (3.5, 11)
    if kw:
        es, nw = kw
    f = ARR('fl')
    i = ARR('iv')
    w = i > 0
    m = np.ones(f.size, dtype=bool)
    d = np.abs(f[w] - medf(f[w], nw))
    sig = 1.4826 * medf(d, nw) + 1e-12
    n = 1 / np.sqrt(i[w])
    # the noise is at least one
    big = np.maximum(np.maximum(sig, 1), n)
    m[w] = d > es * big
    return {'mask': m}

def code_poly():
    return {'y': mypoly1d(tab('f', 4), ARR('x')),
            'z': _zero_function(ARR('x')), 'o': _one_function(ARR('x'))}

def spec_poly():
    f = tab('f', 4)
    x = ARR('x')
    return {'y': f[0] + x * (f[1] + x * (f[2] + x * f[3])),
            'z': 0, 'o': 1}

def code_bcov():
    return {'cov': block_covariance_of_square(ARR('m'), ARR('v'),
                                              ARR('c@3'))}

def spec_bcov():
    m = ARR('m')
    v = ARR('v')
    c = ARR('c@3')
    out = []
    for j in range(2):
        mj = m[3 * j:3 * j + 3]
        vj = v[3 * j:3 * j + 3]
        k = np.outer(vj, mj * mj)
        out.append(np.outer(vj, vj) + c[j] * c[j]
                   + 2 * c[j] * np.outer(mj, mj) + k + k.T)
    return {'cov': np.array(out)}
'''


def _xs(n):
    def g(E, rng, r):
        x = rng.uniform(-1.7, n + 1.5, size=9)
        x[0], x[1], x[2], x[3] = 0, n - 1, n - 1.0001, 1
        return x * 0.75 + 3.
    return g


def _iv(E, rng, r):
    return rng.uniform(.05, 9, size=8) * rng.integers(0, 3, size=8)


def check_C20(rep):
    for n in (2, 3, 6):
        for cp in (False, True):
            src = KER + f'''
def code():
    return code_lin({n}, {cp})
def spec():
    return spec_lin({n}, {cp})
'''
            rep.compare(f"linear/{n}/{int(cp)}", src,
                        "mathtools:FastLinear1DInterp.__call__",
                        gens=dict(x=_xs(n), x0=const(3.), dx=const(.75)))
    sizes = (5, 6, 9, 17, 19, 23) if rep.tier == "thorough" else (5, 8, 20)
    for n in sizes:
        for bc in ("natural", "not-a-knot"):
            src = KER + f'''
def code():
    return code_cub({n}, {bc!r})
def spec():
    return spec_cub({n}, {bc!r})
'''
            rep.compare(f"cubic/{n}/{bc}", src,
                        "mathtools:FastCubic1DInterp.__call__", n=9,
                        gens=dict(x=_xs(n), x0=const(3.), dx=const(.75)))
    for cls in ("FastLinear1DInterp", "FastCubic1DInterp"):
        src = KER + f"""
def code():
    return code_store({cls})
def spec():
    return spec_store({cls})
"""
        rep.compare(f"store/{cls}", src, f"mathtools:{cls}.reset", n=9,
                    gens=dict(x=_xs(6), x0=const(3.), dx=const(.75)))
    for kw in ((), (2.0, 5)):
        src = KER + f"""
def code():
    return code_med({kw})
def spec():
    return spec_med({kw})
"""
        rep.compare(f"outliers/{len(kw)}", src,
                    "mathtools:get_median_outlier_mask",
                    gens=dict(fl=arr(-9, 9, 8), iv=_iv))
    rep.compare("poly", KER, "mathtools:mypoly1d", code="code_poly",
                spec="spec_poly", gens=dict(x=arr(-1, 1)))
    rep.compare("bcov", KER, "mathtools:block_covariance_of_square",
                code="code_bcov", spec="spec_bcov",
                gens=dict(m=arr(-1, 1, 6), v=arr(.1, 1, 6),
                          c=arr(.1, 1, shape=(2, 3, 3))))


# ------------------------------------------------------------------ C19
JACK = '''
import numpy as np
from qsonic.mathtools import SubsampleCov
NS = 4
ND = 6

def fill(s, nadd, first):
    for k in range(nadd):
        s.add_measurement(ARR2('y' + str(k)), ARR('w' + str(k)))
    return s

def make(istart):
    return SubsampleCov((2, ND), NS, istart)

def code(nadd, istart, bias, blk, again):
    s = make(istart)
    if again:
        for k in range(2):
            s.add_measurement(ARR2('z' + str(k)), ARR('q' + str(k)))
        s.get_mean_n_var()
        s.reset()
    fill(s, nadd, istart)
    if not bias and istart:
        s.get_mean()
    if blk:
        m, c = s.get_mean_n_cov(None, 3, bias)
    else:
        m, c = s.get_mean_n_cov(None, None, bias)
    m2, v = s.get_mean_n_var(bias)
    return {'mean': m, 'cov0': c[0], 'cov1': c[1], 'mean2': m2, 'var': v}

def code_sel(k):
    """covariance of some of the data sets only; one-dimensional data"""
    s = SubsampleCov((2, ND), NS)
    fill(s, 6, 0)
    m, c = s.get_mean_n_cov([k])
    r = {'mean': m, 'cov': c[k], 'other': c[1 - k] is None,
         'attr': s.mean - m, 'attr2': s.covariance[k]}
    try:
        s.add_measurement(ARR2('y0'), ARR('w0'))
        r['closed'] = False
    except RuntimeError:
        r['closed'] = True
    q = SubsampleCov(ND, NS, 1)
    for j in range(6):
        q.add_measurement(ARR2('y' + str(j))[0], ARR('w' + str(j)))
    a, b = q.get_mean_n_var()
    r['m1'] = a[0]
    r['v1'] = b[0]
    r['v2'] = q.variance[0]
    try:
        SubsampleCov([2, ND], NS)
        r['list'] = False
    except Exception:
        r['list'] = True
    try:
        q.get_mean_n_cov(None, 4)
        r['blk'] = False
    except Exception:
        r['blk'] = True
    return r

def spec_sel(k):
    mean, D = jack(6, 0, False)
    f = (NS - 1) / NS
    u = [D[j][k] for j in range(NS)]
    c = (np.outer(u[0], u[0]) + np.outer(u[1], u[1])
         + np.outer(u[2], u[2]) + np.outer(u[3], u[3])) * f
    m1, E = jack(6, 1, False)
    v = (E[0]**2 + E[1]**2 + E[2]**2 + E[3]**2) * f
    return {'mean': mean, 'cov': c, 'other': True,
            'attr': np.zeros((2, ND)), 'attr2': c, 'closed': True,
            'm1': m1[0], 'v1': v[0], 'v2': v[0], 'list': True, 'blk': True}

def parts(nadd, istart):
    """weighted sums per subsample: round robin from istart"""
    Y = []
    W = []
    for j in range(NS):
        y = np.zeros((2, ND))
        w = np.zeros(ND)
        for k in range(nadd):
            if (istart + k) % NS == j:
                y = y + ARR2('y' + str(k))
                w = w + ARR('w' + str(k))
        Y.append(y)
        W.append(w)
    return Y, W

def jack(nadd, istart, bias):
    Y, W = parts(nadd, istart)
    tw = W[0] + W[1] + W[2] + W[3]
    ty = Y[0] + Y[1] + Y[2] + Y[3]
    mean = np.where(tw > 0, ty / np.where(tw > 0, tw, 1), 0)
    J = []
    for j in range(NS):
        r = tw - W[j]
        # leave one subsample out
        J.append(np.where(r > 0, (ty - Y[j]) / np.where(r > 0, r, 1), 0))
    mj = (J[0] + J[1] + J[2] + J[3]) / NS
    if bias:
        mean = NS * mean - (NS - 1) * mj
    return mean, [J[0] - mj, J[1] - mj, J[2] - mj, J[3] - mj]

def spec(nadd, istart, bias, blk, again):
    mean, D = jack(nadd, istart, bias)
    f = (NS - 1) / NS
    var = (D[0]**2 + D[1]**2 + D[2]**2 + D[3]**2) * f
    C = []
    for d in range(2):
        if blk:
            c = []
            for b in range(2):
                u = [D[j][d][3 * b:3 * b + 3] for j in range(NS)]
                c.append((np.outer(u[0], u[0]) + np.outer(u[1], u[1])
                          + np.outer(u[2], u[2]) + np.outer(u[3], u[3])) * f)
            C.append(np.array(c))
        else:
            u = [D[j][d] for j in range(NS)]
            C.append((np.outer(u[0], u[0]) + np.outer(u[1], u[1])
                      + np.outer(u[2], u[2]) + np.outer(u[3], u[3])) * f)
    return {'mean': mean, 'cov0': C[0], 'cov1': C[1], 'mean2': mean,
            'var': var}
'''


def _w(E, rng, r):
    return rng.integers(1, 6, size=6).astype(float)


def check_C19(rep):
    g = {"y*": arr(.2, 2, shape=(2, 6)), "w*": _w, "q*": _w,
         "z*": arr(.2, 2, shape=(2, 6))}
    cases = [(4, 0, False, False, False), (7, 1, False, True, False),
             (8, 3, True, False, True), (6, 2, True, True, True),
             (9, 6, False, False, True)]
    for k, c in enumerate(cases):
        a = ", ".join(map(str, c))
        src = JACK + f'''
def c():
    return code({a})
def s():
    return spec({a})
'''
        rep.compare(f"jackknife/{k}", src, "mathtools:SubsampleCov", code="c",
                    spec="s", gens=g)
    for k in (0, 1):
        src = JACK + f"""
def c():
    return code_sel({k})
def s():
    return spec_sel({k})
"""
        rep.compare(f"selected/{k}", src, "mathtools:SubsampleCov", code="c",
                    spec="s", gens=g)
    rep.also("C03", "subsamples")
