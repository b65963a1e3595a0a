"""C07: every spectrum carries the data of its own target."""
from .common import *
from .catchk import TYPES

NC, NF, NP = 4, 4, 5
TY = dict(TYPES, FIBER="i8", NIGHT="i8", EXPID="i8",
          TRUE_CONT=("f8", (NP,)))

IO = '''
EXTRA = False
import numpy as np
import qsonic.io as IO
import qsonic.spectrum as SP
import qsonic.scripts.qsonic_fit as QF

CCOLS = ['TARGETID', 'SURVEY', 'HPXPIXEL', 'Z', 'RA', 'DEC', 'LASTNIGHT']
if EXTRA:
    CCOLS = CCOLS + ['TILEID', 'PETAL_LOC']
FCOLS = ['TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID']
NC = 4
NF = 4
ARMS = ['B', 'R']

def cat():
    return TABLE('cat', CCOLS)

def fm():
    """fibermaps of two files, one after the other"""
    return TABLE('fm', FCOLS)

class Img:
    def __init__(self, name, k, nd):
        self.name = name
        self.k = k
        self.nd = nd
    def a(self):
        if self.nd == 2:
            return ARR2(self.name)
        return ARR(self.name + '@3')
    def get_dims(self):
        return [NF] + list(self.a().shape[1:])
    def _get_image_numpy_dtype(self):
        return 'f8'
    def read(self, *b, **c):
        return self.a()[self.k * NF:(self.k + 1) * NF]
    def __getitem__(self, i):
        if isinstance(i, tuple):
            j = self.k * NF + i[0]
            if len(i) == 2:
                return self.a()[j:j + 1, i[1]]
            return self.a()[j:j + 1, i[1], i[2]]
        j = self.k * NF + i
        return self.a()[j:j + 1]

class Wav:
    def __init__(self, name):
        self.name = name
    def read(self, *b, **c):
        return ARR(self.name)

class Tab:
    def __init__(self, k):
        self.k = k
    def read(self, columns=None, **c):
        t = fm()[self.k * NF:(self.k + 1) * NF]
        if columns is None:
            return t
        if isinstance(columns, str):
            return t[columns]
        return t[list(columns)]

class True_:
    def read_header(self):
        return {'WMIN': SCAL('tw1'), 'WMAX': SCAL('tw2'), 'DWAVE': SCAL('tdw')}
    def read(self, *b, **c):
        return TABLE('tc', ['TARGETID', 'TRUE_CONT'])

class Fits:
    def __init__(self, fname):
        self.k = which(fname)
    def __contains__(self, x):
        return True
    def __getitem__(self, x):
        if x == 'FIBERMAP':
            return Tab(self.k)
        if x == 'TRUE_CONT':
            return True_()
        for a in ARMS:
            if x == a + '_WAVELENGTH':
                return Wav('w' + a)
            if x == a + '_FLUX':
                return Img('f' + a, self.k, 2)
            if x == a + '_IVAR':
                return Img('i' + a, self.k, 2)
            if x == a + '_MASK':
                return Img('m' + a, self.k, 2)
            if x == a + '_RESOLUTION':
                return Reso(a, self.k)
        raise IOError('no such extension')
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass

class Reso(Img):
    def __init__(self, a, k):
        Img.__init__(self, 'R' + a, k, 3)
        self.arm = a
    def read(self, *b, **c):
        if self.k == 2:
            return ARR2('T' + self.arm)
        return Img.read(self)

class fake_fitsio:
    @staticmethod
    def FITS(f, *a, **k):
        return Fits(f)

IO.fitsio = fake_fitsio

def clean(a, j):
    f = ARR2('f' + a)[j]
    i = ARR2('i' + a)[j]
    m = ARR2('m' + a)[j]
    bad = (m != 0) | np.isnan(f) | np.isnan(i) | (i < 0)
    return np.where(bad, 0, f), np.where(bad, 0, i)

def describe(s, exp=False):
    d = {'id': s.targetid, 'z': s.z_qso, 'ra': s.ra, 'dec': s.dec,
         'flux': s.flux, 'ivar': s.ivar, 'reso': s.reso, 'wave': s.wave}
    if exp:
        d['exp'] = (s.catrow['EXPID'], s.catrow['NIGHT'], s.catrow['FIBER'],
                    s.catrow['TILEID'], s.catrow['PETAL_LOC'])
    return d

def expect(i, j, reso, exp=False):
    c = cat()
    F = {}
    V = {}
    Q = {}
    for a in ARMS:
        f, v = clean(a, j)
        F[a] = f
        V[a] = v
        if reso:
            Q[a] = ARR('R' + a + '@3')[j]
    d = {'id': c['TARGETID'][i], 'z': c['Z'][i], 'ra': c['RA'][i],
         'dec': c['DEC'][i], 'flux': F, 'ivar': V, 'reso': Q,
         'wave': {a: ARR('w' + a) for a in ARMS}}
    if exp:
        t = fm()
        d['exp'] = (t['EXPID'][j], t['NIGHT'][j], t['FIBER'][j],
                    t['TILEID'][j], t['PETAL_LOC'][j])
    return d
'''

COADD = IO + '''
def which(fname):
    p = cat()['HPXPIXEL'][0]
    for k, s in ((0, 'main'), (1, 'sv3')):
        if fname == f'in/{s}/dark/{p // 100}/{p}/{KIND}-{s}-dark-{p}.fits':
            return k
    raise IOError('no such file')

def code():
    if KIND == 'coadd':
        l = IO.read_onehealpix_file_data_coadd(cat(), 'in', ARMS, SKIP)
    else:
        l = IO.read_onehealpix_file_data_uncoadd(cat(), 'in', ARMS, SKIP)
    ids = cat()['TARGETID']
    e = KIND != 'coadd'
    out = {'n': len(l)}
    for i in range(NC):
        if e:
            for j in range(2 * NF):
                x = fm()['EXPID'][j]
                out[str(i) + str(j)] = [
                    describe(s, True) for s in l
                    if s.targetid == ids[i] and s.catrow['EXPID'] == x]
        else:
            out[str(i)] = [describe(s) for s in l if s.targetid == ids[i]]
    return out

def spec():
    c = cat()
    t = fm()
    n = 0
    e = KIND != 'coadd'
    out = {}
    for i in range(NC):
        k = 0 if c['SURVEY'][i] == 'main' else 1
        r = []
        for j in range(NF):
            hit = t['TARGETID'][k * NF + j] == c['TARGETID'][i]
            if hit:
                n += 1
                if not e:
                    r.append(expect(i, k * NF + j, not SKIP))
        if not e:
            out[str(i)] = r
        else:
            for j in range(2 * NF):
                q = []
                if t['TARGETID'][j] == c['TARGETID'][i] and \\
                        (j < NF) == (k == 0):
                    q.append(expect(i, j, not SKIP, True))
                out[str(i) + str(j)] = q
    out['n'] = n
    return out
'''


TILE = IO.replace("EXTRA = False", "EXTRA = True") + '''
def which(fname):
    t = cat()['TILEID'][0]
    n = cat()['LASTNIGHT'][0]
    for p in (0, 1):
        if fname == f'in/{t}/{n}/coadd-{p}-{t}-thru{n}.fits':
            return p
    raise IOError('no such file')

def code():
    l = IO.read_onetile_coaddfile_data(cat(), 'in', ARMS, False)
    ids = cat()['TARGETID']
    out = {'n': len(l)}
    for i in range(NC):
        out[str(i)] = [describe(s) for s in l if s.targetid == ids[i]]
    return out

def spec():
    c = cat()
    t = fm()
    n = 0
    out = {}
    for i in range(NC):
        k = c['PETAL_LOC'][i]
        r = []
        for j in range(NF):
            if t['TARGETID'][k * NF + j] == c['TARGETID'][i]:
                n += 1
                r.append(expect(i, k * NF + j, True))
        out[str(i)] = r
    out['n'] = n
    return out
'''

MOCK = IO + '''
def which(fname):
    p = cat()['HPXPIXEL'][0]
    if fname == f'in/{p // 100}/{p}/spectra-16-{p}.fits':
        return 0
    if fname == f'in/{p // 100}/{p}/truth-16-{p}.fits':
        return 2
    raise IOError('no such file')

def code():
    l = IO.read_onehealpix_file_mock(cat(), 'in', ARMS, SKIP, TRUE)
    ids = cat()['TARGETID']
    out = {'n': len(l)}
    for i in range(NC):
        out[str(i)] = [full(s) for s in l if s.targetid == ids[i]]
    return out

def full(s):
    d = describe(s)
    if TRUE:
        p = s.cont_params
        d['true'] = (p['true_data'], p['true_data_w1'], p['true_data_dwave'])
    return d

def spec():
    c = cat()
    t = fm()
    tc = TABLE('tc', ['TARGETID', 'TRUE_CONT'])
    n = 0
    out = {}
    for i in range(NC):
        r = []
        for j in range(NF):
            if t['TARGETID'][j] == c['TARGETID'][i]:
                n += 1
                d = expect(i, j, False)
                if not SKIP:
                    d['reso'] = {a: ARR2('T' + a) for a in ARMS}
                if TRUE:
                    if not np.any(tc['TARGETID'] == c['TARGETID'][i]):
                        raise RuntimeError('no true continuum')
                    m = np.nonzero(tc['TARGETID'] == c['TARGETID'][i])[0][0]
                    d['true'] = (tc['TRUE_CONT'][m], SCAL('tw1'),
                                 SCAL('tdw'))
                r.append(d)
        out[str(i)] = r
    out['n'] = n
    return out
'''

RESO = IO + '''
def which(fname):
    p = cat()['HPXPIXEL'][0]
    for k, s in ((0, 'main'), (1, 'sv3')):
        if fname == f'in/{s}/dark/{p // 100}/{p}/coadd-{s}-dark-{p}.fits':
            return k
    raise IOError('no such file')

def mk(i):
    wave = {'B': ARR('wB'), 'R': ARR('wR')}
    flux = {'B': ARR2('fB'), 'R': ARR2('fR')}
    ivar = {'B': ARR2('iB'), 'R': ARR2('iR')}
    mask = {'B': ARR2('mB'), 'R': ARR2('mR')}
    s = SP.Spectrum(cat()[i], wave, flux, ivar, mask, {}, i)
    s.set_forest_region(SCAL('w1'), SCAL('w2'), 900., 1300.)
    return s

def code():
    l = IO.read_resolution_matrices_onehealpix_data(
        cat(), 'in', [mk(i) for i in range(NC)])
    return [(s.targetid, s.forestreso) for s in l]

def spec():
    out = []
    c = cat()
    t = fm()
    for i in range(NC):
        s = mk(i)
        k = 0 if c['SURVEY'][i] == 'main' else 1
        Q = {}
        for j in range(NF):
            if t['TARGETID'][k * NF + j] == c['TARGETID'][i]:
                for a in ARMS:
                    if a in s.forestwave:
                        w = ARR('w' + a)
                        l1 = max(SCAL('w1'), (1 + c['Z'][i]) * 900.)
                        l2 = min(SCAL('w2'), (1 + c['Z'][i]) * 1300.)
                        j1 = np.searchsorted(w, l1)
                        j2 = np.searchsorted(w, l2)
                        Q[a] = ARR('R' + a + '@3')[k * NF + j][:, j1:j2]
        out.append((c['TARGETID'][i], Q))
    return out
'''

READER = IO + '''
class Found(Exception):
    pass

def which(fname):
    got['f'] = fname
    raise Found()

got = {}

def code():
    r = IO.get_spectra_reader_function(
        'dir', ['B'], BOOL('mock'), BOOL('skip'), BOOL('true'), BOOL('tile'),
        BOOL('exp'), *PROG)
    try:
        r(cat())
    except Found:
        pass
    return got['f']

def spec():
    c = cat()
    s = c['SURVEY'][0]
    p = c['HPXPIXEL'][0]
    g = PROG[0] if PROG else 'dark'
    if BOOL('mock'):
        return f'dir/{p // 100}/{p}/spectra-16-{p}.fits'
    if BOOL('tile'):
        t = c['TILEID'][0]
        n = c['LASTNIGHT'][0]
        return (f'dir/{t}/{n}/coadd-{c["PETAL_LOC"][0]}-{t}-thru{n}.fits')
    k = 'spectra' if BOOL('exp') else 'coadd'
    return f'dir/{s}/{g}/{p // 100}/{p}/{k}-{s}-{g}-{p}.fits'
'''.replace("EXTRA = False", "EXTRA = True")

AFTER = '''
import numpy as np
import qsonic.scripts.qsonic_fit as QF
import qsonic.calibration as CL

CCOLS = ['TARGETID', 'SURVEY', 'HPXPIXEL', 'Z', 'RA', 'DEC', 'LASTNIGHT']
C = COMMOBJ('comm')

def cat():
    return TABLE('cat', CCOLS)

class Args:
    pass

class S:
    def __init__(self, row, key, n):
        self.catrow = row
        self.targetid = row['TARGETID']
        self.dwave = 100.
        self.key = key
        self.forestwave = {}
        if BOOL('b' + key):
            self.forestwave['B'] = 3600. + 100. * np.arange(
                INTSYM('o' + key), INTSYM('e' + key))
        self.forestwave['R'] = 4600. + 100. * np.arange(
            INTSYM('p' + key), INTSYM('q' + key))
        self.cont_params = {'valid': False, 'cont': {}, 'x': ARR('x' + key)}
        self.log = []
    def is_long(self, *a):
        return BOOL('long' + self.key)
    def get_effective_meansnr(self):
        return SCAL('snr' + self.key)
    def drop_short_arms(self, *a):
        pass
    def slice(self, arm, i1, i2):
        self.forestwave[arm] = self.forestwave[arm][i1:i2]
    def drop_arm(self, arm):
        self.forestwave.pop(arm, None)

NQ = 3

def coadds():
    l = []
    for i in range(NQ):
        s = S(cat()[i], 'c' + str(i), 4)
        s.cont_params['valid'] = True
        for a, w in s.forestwave.items():
            s.cont_params['cont'][a] = ARR('k' + a + str(i))[:w.size]
        l.append(s)
    return l

def exposures():
    return [S(cat()[INTSYM('t' + str(i))], 'x' + str(i), 3)
            for i in range(2)]

got = {}

def code():
    def again(queue, maskers, args, comm, rank):
        got['q'] = [q['TARGETID'] for q in queue]
        got['s'] = [q['SURVEY'] for q in queue]
        got['args'] = (args.exposures, args.coadd_arms, maskers)
        return exposures()
    QF.mpi_read_calibrate_mask_select_spectra = again
    a = Args()
    a.exposures = 'after'
    a.coadd_arms = 'before' if BOOL('cob') else (
        'after' if BOOL('coa') else 'disable')
    l = QF.mpi_read_exposures_after(coadds(), 'masks', a, C, 0)
    return {'args': got['args'], 'rows': [
        (np.sum([np.sum(q == cat()['TARGETID'][i]) for q in got['q']]))
        for i in range(NQ)],
            'one pixel': [np.all(cat()['HPXPIXEL'][np.isin(
                cat()['TARGETID'], q)] == cat()['HPXPIXEL'][np.isin(
                    cat()['TARGETID'], q)][0]) for q in got['q']],
            'grouped': [np.sum(s[1:] != s[:-1]) + 1 == np.unique(s).size
                        for s in got['s']],
            'n': len(l), 'out': [describe(s) for s in l]}

def iso_code():
    """spectra of the coadd after their exposures are changed"""
    QF.mpi_read_calibrate_mask_select_spectra = \
        lambda *k: exposures()
    a = Args()
    a.exposures = 'after'
    a.coadd_arms = 'disable'
    co = coadds()
    for s in QF.mpi_read_exposures_after(co, 'masks', a, C, 0):
        for k in s.cont_params['cont']:
            s.cont_params['cont'][k] *= 2
        for k in s.forestwave:
            s.forestwave[k] += 1
        s.cont_params['valid'] = False
        s.cont_params['chi2'] = -1
    return {'coadds': [describe(s) for s in co]}

def iso_spec():
    return {'coadds': [describe(s) for s in coadds()]}

class Step:
    def __init__(self, name):
        self.name = name
    def __call__(self, *a, **k):
        return self
    def apply(self, l):
        for s in (l if isinstance(l, list) else [l]):
            s.log.append(self.name)

def step_code():
    """what is done to the exposures that are read"""
    CL.NoiseCalibrator = Step('noise')
    CL.FluxCalibrator = Step('flux')
    QF.mpi_read_spectra_local_queue = lambda *k: exposures()
    a = Args()
    a.exposures = 'after'
    a.coadd_arms = 'disable'
    a.noise_calibration = 'n' if BOOL('nc') else None
    a.flux_calibration = 'f' if BOOL('fc') else None
    a.varlss_as_additive_noise = False
    a.forest_w1 = 1040.
    a.forest_w2 = 1200.
    a.skip = .2
    a.min_forestsnr = .5
    return [(s.targetid, s.log.count('noise'), s.log.count('flux'),
             s.log.count('mask'), len(s.log))
            for s in QF.mpi_read_exposures_after(
                coadds(), [Step('mask')], a, C, 0)]

def step_spec():
    n = 1 if BOOL('nc') else 0
    f = 1 if BOOL('fc') else 0
    return [(s.targetid, n, f, 1, n + f + 1) for s in exposures()
            if BOOL('long' + s.key) and SCAL('snr' + s.key) >= .5]

def describe(s):
    p = s.cont_params
    return (s.targetid, s.forestwave, p['cont'], p['x'], p['valid'])

def spec():
    out = []
    co = coadds()
    for e in exposures():
        W = {}
        K = {}
        x = 0
        for i in range(NQ):
            if cat()['TARGETID'][i] == e.targetid:
                x = ARR('xc' + str(i))
                for a, w in e.forestwave.items():
                    if a in co[i].forestwave:
                        v = co[i].forestwave[a]
                        lo = max(w[0], v[0])
                        hi = min(w[-1], v[-1])
                        W[a] = w[(w >= lo - 1) & (w <= hi + 1)]
                        K[a] = co[i].cont_params['cont'][a][
                            (v >= lo - 1) & (v <= hi + 1)]
        out.append((e.targetid, W, K, x, True))
    n = np.unique(cat()['HPXPIXEL'][:NQ]).size
    return {'args': ('before', 'disable' if not BOOL('cob')
                     and not BOOL('coa') else 'before', 'masks'),
            'rows': [1, 1, 1], 'one pixel': [True] * n,
            'grouped': [True] * n,
            'n': 2, 'out': out}
'''


def cat_gen(surveys=True, petals=False, extra=False):
    def g(E, rng, r):
        a = np.zeros(NC, dtype=[(c, TY[c]) for c in (
            'TARGETID', 'SURVEY', 'HPXPIXEL', 'Z', 'RA', 'DEC', 'LASTNIGHT')
            + ('TILEID', 'PETAL_LOC') * extra])
        a["TARGETID"] = ids(E)[:NC]
        a["SURVEY"] = "main"
        if surveys:
            a["SURVEY"] = rng.choice(["main", "sv3"], size=NC)
        a["HPXPIXEL"] = 100 + h(E.seed) % 900
        a["Z"] = rng.uniform(2, 3, NC)
        a["RA"] = rng.uniform(0, 360, NC)
        a["DEC"] = rng.uniform(-80, 80, NC)
        if extra:
            a["TILEID"] = 7 + h(E.seed) % 90
            a["PETAL_LOC"] = rng.integers(0, 2, NC) if petals else 3
        a["LASTNIGHT"] = 20210000 + h(E.seed) % 100
        a.sort(order=["PETAL_LOC"] * extra + ["SURVEY", "TARGETID"])
        return a
    return g


def ids(E):
    return np.random.default_rng(h(E.seed) % 10007).permutation(60) + 1


def fm_gen(repeat=False, full=.5):
    def g(E, rng, r):
        a = np.zeros(2 * NF, dtype=[(c, TY[c]) for c in (
            'TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID')])
        for k in (0, 1):
            p = list(ids(E)[:NC + 2])
            if rng.random() < full:
                p = p[:NF]
            a["TARGETID"][k * NF:(k + 1) * NF] = rng.choice(
                p, NF, replace=bool(repeat))
        a["FIBER"] = rng.integers(0, 5000, 2 * NF)
        a["NIGHT"] = rng.integers(20200000, 20210000, 2 * NF)
        a["EXPID"] = 1000 + rng.permutation(2 * NF)
        a["TILEID"] = rng.integers(1, 9, 2 * NF)
        a["PETAL_LOC"] = rng.integers(0, 9, 2 * NF)
        return a
    return g


def img(f, nd=None):
    def g(E, rng, r):
        return f(E, rng, r, n=NP, rows=2 * NF)
    return g


def cube(nd, rows=2 * NF):
    return lambda E, rng, r: rng.uniform(.1, 1, size=(rows, nd, NP))


GENS = dict(fB=img(flux), fR=img(flux), iB=img(ivar), iR=img(ivar),
            mB=img(bits), mR=img(bits), RB=cube(3), RR=cube(3),
            wB=lambda E, rng, r: 3600. + 100 * np.arange(NP),
            wR=lambda E, rng, r: 3900. + 100 * np.arange(NP))


def check_C07(rep):
    for kind, fn in (("coadd", "read_onehealpix_file_data_coadd"),
                     ("spectra", "read_onehealpix_file_data_uncoadd")):
        for skip in (False, True):
            one(rep, kind, fn, skip)
    one(rep, "spectra", fn, True, True)
    rep.compare("tile", TILE, "io:read_onetile_coaddfile_data", gens=dict(
        GENS, cat=cat_gen(False, True, True), fm=fm_gen()))
    for skip, true in ((True, True), (False, False), (False, True)):
        rep.compare(f"mock/{skip}/{true}", MOCK +
                    f"\nSKIP = {skip}\nTRUE = {true}\n",
                    "io:read_onehealpix_file_mock", gens=dict(
                        GENS, cat=cat_gen(False), fm=fm_gen(), tc=tc_gen,
                        TB=cube2(3), TR=cube2(3), tw1=uni(3000, 3600),
                        tw2=uni(6000, 7000), tdw=uni(.5, 2)))
    for prog in ("", "bright"):
        rep.compare("reader" + prog, READER + f"\nPROG = {[prog][:len(prog)]}\n",
                    "io:get_spectra_reader_function",
                    gens=dict(cat=cat_gen(extra=True)))
    rep.compare("resolution", RESO,
                "io:read_resolution_matrices_onehealpix_data", gens=dict(
                    GENS, cat=cat_gen(), fm=fm_gen(),
                    w1=uni(3500, 3900), w2=uni(4000, 4400)))
    g = dict(cat=cat_after)
    for k in ("c0", "c1", "c2", "x0", "x1"):
        g["o" + k] = integers(0, 3)
        g["e" + k] = integers(4, 7)
        g["p" + k] = integers(0, 3)
        g["q" + k] = integers(4, 7)
        g["x" + k] = arr(0, 1, 2)
    for k in "012":
        g["kB" + k] = arr(.5, 2, 8)
        g["kR" + k] = arr(.5, 2, 8)
        g["t" + k] = integers(0, 3)
    rep.compare("exposures after", AFTER,
                "scripts.qsonic_fit:mpi_read_exposures_after", gens=g)
    rep.compare("exposures apart", AFTER,
                "scripts.qsonic_fit:mpi_read_exposures_after",
                code="iso_code", spec="iso_spec", gens=g)
    rep.compare("exposures steps", AFTER,
                "scripts.qsonic_fit:mpi_read_exposures_after",
                code="step_code", spec="step_spec",
                gens=dict(g, snrx0=pick(.2, .5, 1.), snrx1=pick(.2, .5, 1.)))


def tc_gen(E, rng, r):
    a = np.zeros(NC + 2, dtype=[("TARGETID", "i8"), ("TRUE_CONT", "f8",
                                                     (NP,))])
    p = ids(E)[:NC + 3 - int(rng.random() < .7)]
    a["TARGETID"] = rng.permutation(p)[:NC + 2]
    a["TRUE_CONT"] = rng.uniform(1, 2, (NC + 2, NP))
    return a


def cube2(nd):
    return lambda E, rng, r: rng.uniform(.1, 1, size=(nd, NP))


def cat_after(E, rng, r):
    a = cat_gen()(E, rng, r)
    a["HPXPIXEL"] = rng.choice([5, 7], NC)
    return rng.permutation(a)


def one(rep, kind, fn, skip, extra=False):
    src = COADD.replace("EXTRA = False", f"EXTRA = {extra}") + \
        f"\nKIND = {kind!r}\nSKIP = {skip}\n"
    rep.compare(f"{kind}/{'skip' if skip else 'reso'}" + "/extra" * extra,
                src, "io:" + fn, gens=dict(
                    GENS, cat=cat_gen(extra=extra),
                    fm=fm_gen(kind != "coadd")))
