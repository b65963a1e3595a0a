"""Symbol generators and driver fragments shared by the checks.

A driver is a small piece of analysed source: it builds unknown inputs (ARR,
SCAL, ...) and calls the public API; it is abstractly interpreted together
with the repository source, never executed."""
import numpy as np

N = 10
DW = 100.


def const(v):
    return lambda E, rng, r: v


def uni(a, b):
    return lambda E, rng, r: float(rng.uniform(a, b))


def pick(*xs):
    return lambda E, rng, r: xs[int(rng.integers(len(xs)))]


def integers(a, b):
    return lambda E, rng, r: int(rng.integers(a, b))


def arr(a, b, n=N, zeros=0., shape=None, nan=0., neg=0.):
    def g(E, rng, r):
        s = shape or (n,)
        x = rng.uniform(a, b, size=s)
        if zeros:
            x[rng.random(s) < zeros] = 0
        if neg:
            x[rng.random(s) < neg] = -1.3
        if nan:
            x[rng.random(s) < nan] = np.nan
        return x
    return g


def ints(a, b, n=N, shape=None):
    return lambda E, rng, r: rng.integers(a, b, size=shape or (n,))


def wave_b(E, rng, r):
    # sometimes not the bluest arm
    off = (0, 0, 5, 0, 8)[int(h(E.seed + 31) % 5)]
    return noisy(E, 3600. + DW * (off + np.arange(N)))


def noisy(E, x):
    """a grid that is even up to rounding"""
    q = np.random.default_rng(h(E.seed + 5))
    return x * (1 + 2e-12 * (q.random(x.size) - .5)) if E.seed % 2 else x


def wave_r(E, rng, r):
    # overlapping, touching or separated from the first arm by a gap
    off = int(h(E.seed) % 14)
    return noisy(E, 3600. + DW * (off + np.arange(N)))


def wave_z(E, rng, r):
    off = int(h(E.seed + 77) % 14)
    return 3600. + DW * (off + 6 + np.arange(N))


def h(s):
    return (int(s) * 2654435761) >> 7


def flux(E, rng, r, n=N, rows=3):
    x = rng.normal(1, 1, size=(rows, n))
    x[rng.random((rows, n)) < .1] = np.nan
    x[rng.random((rows, n)) < .1] = 0.
    return x


def ivar(E, rng, r, n=N, rows=3):
    x = rng.uniform(.2, 2, size=(rows, n))
    x[rng.random((rows, n)) < .25] = 0
    x[rng.random((rows, n)) < .1] = -1
    x[rng.random((rows, n)) < .05] = np.nan
    if rng.random() < .15:
        x[:] = 0
    return x


def bits(E, rng, r, n=N, rows=3):
    # any flag, the sign bit included
    m = 2**rng.integers(0, 32, size=(rows, n))
    m[m == 2**31] = -2**31
    m[rng.random((rows, n)) < .7] = 0
    return m


def reso(nd):
    return lambda E, rng, r: rng.uniform(.1, 1, size=(3, nd, N))


SPEC_GENS = dict(
    wb=wave_b, wr=wave_r, wz=wave_z,
    fb=flux, fr=flux, fz=flux, ib=ivar, ir=ivar, iz=ivar,
    mb=bits, mr=bits, mz=bits, Rb=reso(5), Rr=reso(3), Rz=reso(5),
    z=uni(2.1, 3.4), ra=uni(0, 360), dec=uni(-80, 80),
    w1=uni(3500, 3900), w2=uni(4000, 5600),
    l1=uni(1000, 1100), l2=uni(1150, 1300), i0=integers(0, 3))

# builds a spectrum from raw rows, and the same in plain formulas
MK = '''
import numpy as np
from qsonic.spectrum import Spectrum, Delta

ARMS = ['b', 'r']

def catrow():
    c = LAZYDICT('cat')
    c['Z'] = SCAL('z')
    c['RA'] = SCAL('ra')
    c['DEC'] = SCAL('dec')
    c['TARGETID'] = INTSYM('tid')
    return c

def raw():
    wave = {'b': ARR('wb'), 'r': ARR('wr')}
    flux = {'b': ARR2('fb'), 'r': ARR2('fr')}
    ivar = {'b': ARR2('ib'), 'r': ARR2('ir')}
    mask = {'b': ARR2('mb'), 'r': ARR2('mr')}
    return wave, flux, ivar, mask

def mkspec(idx=0, reso=False):
    wave, flux, ivar, mask = raw()
    rr = {}
    if reso:
        rr = {'b': ARR('Rb@3'), 'r': ARR('Rr@3')}
    return Spectrum(catrow(), wave, flux, ivar, mask, rr, idx)

def clean(a, idx=0):
    f = ARR2('f' + a)[idx]
    i = ARR2('i' + a)[idx]
    m = ARR2('m' + a)[idx]
    bad = (m != 0) | np.isnan(f) | np.isnan(i) | (i < 0)
    return np.where(bad, 0, f), np.where(bad, 0, i)

def limits():
    z = SCAL('z')
    return (max(SCAL('w1'), (1 + z) * SCAL('l1')),
            min(SCAL('w2'), (1 + z) * SCAL('l2')))

def forest(s):
    s.set_forest_region(SCAL('w1'), SCAL('w2'), SCAL('l1'), SCAL('l2'))
    return s

def cut(a, idx=0):
    """forest slice of an arm in plain terms"""
    l1, l2 = limits()
    w = ARR('w' + a)
    f, i = clean(a, idx)
    j1 = np.searchsorted(w, l1)
    j2 = np.searchsorted(w, l2)
    return w[j1:j2], f[j1:j2], i[j1:j2], j1, j2
'''
