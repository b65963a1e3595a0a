"""Accumulators: stacked flux, variance statistics, subsamples."""
from .common import *

FS = '''
import numpy as np
from qsonic.picca_continuum import FluxStacker
NB = 4
NR = 3

def rf():
    e = np.array([1000., 1040., 1080., 1120.])
    return (e[1:] + e[:-1]) / 2

def add(s, k):
    s.add(ARR(k + 'wave'), ARR(k + 'rf'), ARR(k + 'f'), ARR(k + 'c'),
          ARR(k + 'w'))

def out(s):
    return {'flux': VALUE(s.stacked_flux), 'weight': VALUE(s.weights),
            'flux_rf': VALUE(s.stacked_flux_rf),
            'std_rf': VALUE(s.std_flux_rf), 'call': s(ARR('at')),
            'wave': s.waveobs}

def hist(x, edges, w):
    return np.array([np.sum(np.where((x >= edges[i]) & (x < edges[i + 1]),
                                     w, 0))
                     for i in range(len(edges) - 1)])

OE = [3600., 3700., 3800., 3900., 4000.]
RE = [1000., 1040., 1080., 1120.]

def total(ks, wave, val, edges):
    t = np.zeros(len(edges) - 1)
    for k in ks:
        t = t + hist(ARR(k + wave), edges, ARR(k + val))
    return t

def ref(ks, comm):
    f = total(ks, 'wave', 'f', OE)
    w = total(ks, 'wave', 'w', OE)
    fr = total(ks, 'rf', 'c', RE)
    wr = total(ks, 'rf', 'w', RE)
    if comm is not None:
        f, w, fr, wr = [comm.allreduce(x) for x in (f, w, fr, wr)]
    f = np.where(w > 0, f / np.where(w > 0, w, 1), 0)
    fr = np.where(wr > 0, fr / np.where(wr > 0, wr, 1), 0)
    return {'flux': f, 'weight': w, 'flux_rf': fr,
            'std_rf': np.where(wr > 0, 1 / np.sqrt(np.where(wr > 0, wr, 1)), 0),
            'call': np.interp(ARR('at'), [3650., 3750., 3850., 3950.], f),
            'wave': np.array([3650., 3750., 3850., 3950.])}

def code(rounds, comm):
    s = FluxStacker(3600., 4000., 100., rf(), 40., comm=comm)
    for j in range(len(rounds)):
        s.reset()
        for k in rounds[j]:
            add(s, k)
        s.calculate()
    return out(s)

def new_code():
    s = FluxStacker(3600., 4000., 100., rf(), 40.)
    return {'call': s(ARR('at'))}

def new_spec():
    return {'call': 1 + 0 * ARR('at')}
'''
LV = '''
import numpy as np
from qsonic.picca_continuum import VarLSSFitter
NW = 2
NV = 3
NS = 3

def out(v, cov):
    r = {'npix': v.num_pixels, 'nqso': v.num_qso, 'mean': v.mean_delta,
         'var': v.var_delta, 'var2': v.var2_delta, 'center': v.var_centers,
         'ecenter': v.e_var_centers}
    if cov:
        r['cov'] = v.cov_var_delta
    else:
        r['evar'] = v.e_var_delta
    return r

def code(rounds, cov, comm):
    v = VarLSSFitter(3600., 4000., NW, 1e-2, 10., NV, NS, cov, comm)
    for r in rounds:
        v.reset()
        for k in r:
            v.add(ARR(k + 'wave'), ARR(k + 'd'), ARR(k + 'iv'))
        v.calculate_subsampler_stats()
        v.calculate_subsampler_stats()
    return out(v, cov)

def bins(k):
    """(nv + 2) * wave bin + ivar bin, both counting the outside bins"""
    w = ARR(k + 'wave')
    iv = ARR(k + 'iv')
    e = [-1., 0., 1., 2.]
    n = 0 * w
    for x in (3600., 3800., 4000.):
        n = n + (w >= x)
    m = 0 * w
    for x in e:
        m = m + (iv > 10.**x)
    return (n * (NV + 2) + m).astype(int)

NT = (NV + 2) * (NW + 2)

def moment(k, p):
    b = bins(k)
    d = ARR(k + 'd')
    iv = ARR(k + 'iv')
    if p == 0:
        x = d
    elif p == 1:
        x = d**2
    elif p == 2:
        x = d**4
    elif p == 3:
        x = np.where(iv > 0, 1 / np.where(iv > 0, iv, 1), 0)
    else:
        x = 1 + 0 * d
    return np.bincount(b, weights=x, minlength=NT)

def sums(ks, p, start):
    S = []
    for j in range(NS):
        t = np.zeros(NT)
        for i in range(len(ks)):
            if (i + start) % NS == j:
                t = t + moment(ks[i], p)
        S.append(t)
    return S

def red(S, comm):
    return S if comm is None else [comm.allreduce(x) for x in S]

def inner(x):
    return np.concatenate([x[(NV + 2) * (i + 1) + 1:(NV + 2) * (i + 1) + 1 + NV]
                           for i in range(NW)])

def jack(ks, p, comm, start):
    W = red(sums(ks, 4, start), comm)
    Y = red(sums(ks, p, start), comm)
    tw = W[0] + W[1] + W[2]
    ty = Y[0] + Y[1] + Y[2]
    mean = np.where(tw > 0, ty / np.where(tw > 0, tw, 1), 0)
    J = []
    for j in range(NS):
        r = tw - W[j]
        J.append(np.where(r > 0, (ty - Y[j]) / np.where(r > 0, r, 1), 0))
    mj = (J[0] + J[1] + J[2]) / NS
    return mean, [x - mj for x in J], tw

def square(D):
    return (NS - 1) / NS * (D[0]**2 + D[1]**2 + D[2]**2)

def spec(rounds, cov, comm):
    ks = rounds[-1]
    start = 0
    if comm is not None:
        start = (comm.Get_rank() * NS) // comm.Get_size()
    m, dm, n = jack(ks, 0, comm, start)
    v, dv, n = jack(ks, 1, comm, start)
    q, dq, n = jack(ks, 2, comm, start)
    c, dc, n = jack(ks, 3, comm, start)
    nq = 0
    for k in ks:
        nq = nq + 1 * (moment(k, 4) > 0)
    if comm is not None:
        nq = comm.allreduce(nq)
    var = v - m**2
    var2 = (q - var**2) / np.where(n > 0, n, 1)
    vm = square(dm)
    ev = square(dv) + 4 * m**2 * vm + 2 * vm**2
    ev = np.where(ev > var2, ev, var2)
    r = {'npix': inner(n), 'nqso': inner(nq), 'mean': inner(m),
         'var': inner(var), 'var2': inner(var2), 'center': inner(c),
         'ecenter': np.sqrt(inner(square(dc)))}
    if not cov:
        r['evar'] = np.sqrt(inner(ev))
        return r
    C = []
    f = (NS - 1) / NS
    for i in range(NW):
        a = (NV + 2) * (i + 1) + 1
        b = a + NV
        x = [u[a:b] for u in dv]
        y = [u[a:b] for u in dm]
        M = m[a:b]
        V = vm[a:b]
        cv = f * (np.outer(x[0], x[0]) + np.outer(x[1], x[1])
                  + np.outer(x[2], x[2]))
        cm = f * (np.outer(y[0], y[0]) + np.outer(y[1], y[1])
                  + np.outer(y[2], y[2]))
        C.append(cv + BLOCK(M, V, cm))
    r['cov'] = np.array(C)
    return r
'''


def _cx(a, b, p=.3):
    """values biased to a narrow range so that bins are shared or empty"""
    def g(E, rng, r):
        n = 6
        x = rng.uniform(a, b, size=n)
        if rng.random() < p:
            x = a + (x - a) * .45
        return x
    return g


def _iv(E, rng, r):
    x = 10**rng.uniform(-1.6, 2.6, size=6)
    x[rng.random(6) < .25] = 0
    return x


def _w(E, rng, r):
    x = rng.uniform(.3, 2, size=6)
    x[rng.random(6) < .3] = 0
    return x


FG = {}
for _k in ("a", "b", "c", "L_a", "L_b", "L_c"):
    FG.update({_k + "wave": _cx(3600, 4000), _k + "rf": _cx(1000, 1120),
               _k + "f": arr(-1, 3, 6), _k + "c": arr(.2, 3, 6), _k + "w": _w,
               _k + "d": arr(-1, 1.5, 6), _k + "iv": _iv})
FG["at"] = arr(3650, 3950, 7)
VG = dict(FG)
for _k in ("a", "b", "c", "L_a", "L_b", "L_c"):
    VG[_k + "wave"] = _cx(3480, 4120)


def _two(E, rng, r):
    """every spectrum reaches the same two wavelength bins"""
    return np.concatenate((rng.uniform(3610, 3790, 3),
                           rng.uniform(3810, 3990, 3)))


DG = dict(FG)
for _k in ("a", "b", "c", "L_a", "L_b", "L_c"):
    DG[_k + "wave"] = _two
    DG[_k + "iv"] = arr(.2, .9, 6)


def stacker(rep, name, rounds, comm=False, **kw):
    c = "COMMOBJ()" if comm else "None"
    src = FS + f'''
def c():
    return code({rounds!r}, {c})
def s():
    return ref({rounds[-1]!r}, {c})
'''
    rep.compare(name, src, "picca_continuum:FluxStacker", code="c", spec="s",
                gens=FG, **kw)


def check_C18(rep):
    rep.compare("stack/new", FS, "picca_continuum:FluxStacker.__init__",
                code="new_code", spec="new_spec", gens=FG)
    stacker(rep, "stack/one", [["a"]])
    stacker(rep, "stack/two", [["a", "b"]])
    stacker(rep, "stack/rounds", [["a", "b"], ["c"]])
    varstat(rep, "variance/one", [["a", "b"]], False)
    varstat(rep, "variance/rounds", [["b"], ["a", "c"]], False)
    varstat(rep, "variance/cov", [["a", "b", "c"]], True)
    varstat(rep, "variance/dense", [["b"], ["a", "b", "c"]], False, gens=DG)
    varstat(rep, "variance/dense-cov", [["a", "b", "c"]], True, gens=DG)
    rep.also("C03", "stack_fluxes")
    rep.also("C05", "calibration file", fields=("added", "guess"))
    rep.compare("variance/defaults", DEF, "picca_continuum:VarLSSFitter."
                "__init__", code="code", spec="spec",
                gens=dict(y=uni(.1, 2)))

DEF = '''
import numpy as np
from qsonic.picca_continuum import VarLSSFitter

def code():
    v = VarLSSFitter(3600., 4080.)
    i = v.construct_interp(SCAL('y'))
    j = v.construct_interp()
    return {'nw': v.nwbins, 'wave': v.waveobs, 'nv': v.nvarbins,
            'edges': v.ivar_edges, 'dw': v.dwobs, 'x0': i.xp0, 'dx': i.dxp,
            'f': i.fp, 'e': i.ep, 'f1': j.fp}

def spec():
    return {'nw': 4, 'wave': np.array([3660., 3780., 3900., 4020.]),
            'nv': 100, 'dw': 120., 'x0': 3660., 'dx': 120.,
            'edges': 10.**(-np.log10(20.) + np.arange(101)
                           * (4 + np.log10(20.)) / 100),
            'f': SCAL('y') * np.ones(4), 'e': np.zeros(4), 'f1': np.ones(4)}
'''


def varstat(rep, name, rounds, cov, comm=False, gens=None, **kw):
    c = "COMMOBJ()" if comm else "None"
    src = LV + '''
from qsonic.mathtools import block_covariance_of_square
def BLOCK(m, v, c):
    return (np.outer(v, v) + c**2 + 2 * c * np.outer(m, m)
            + np.outer(v, m**2) + np.outer(m**2, v))
''' + f'''
def c():
    return code({rounds!r}, {cov!r}, {c})
def s():
    return spec({rounds!r}, {cov!r}, {c})
'''
    rep.compare(name, src, "picca_continuum:VarLSSFitter", code="c", spec="s",
                gens=gens or VG, **kw)
