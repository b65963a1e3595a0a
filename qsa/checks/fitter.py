"""Iterative continuum fitting: which values every step uses and leaves."""
from .common import *

BASE = '''
import numpy as np
import qsonic.picca_continuum as PC
import qsonic.continuum_models.picca_continuum_model as PM
import qsonic.continuum_models.true_continuum_model as TM
import qsonic.continuum_models.input_continuum_model as IM
from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp
NB = 5
NW = 4
LOG = {'model': [], 'st': [], 'vf': [], 'fit': [], 'guess': [], 'added': [], 'made': [], 'init': [],
       'files': {}, 'open': [], 'closed': 0}

class Args:
    pass

def mkargs(**kw):
    a = Args()
    a.num_iterations = 2
    a.continuum_model = 'picca'
    a.input_continuum_dir = 'indir'
    a.fiducial_meanflux = None
    a.fiducial_varlss = None
    a.cont_order = 1
    a.var_fit_eta = False
    a.var_use_cov = False
    a.normalize_stacked_flux = False
    a.eta_calib_ivar = False
    a.rfdwave = 0.8
    a.minimizer = 'iminuit'
    a.forest_w1 = 1050.
    a.forest_w2 = 1054.
    a.wave1 = 3600.
    a.wave2 = 4080.
    a.outdir = 'out'
    for k, v in kw.items():
        setattr(a, k, v)
    return a

class Spl:
    """some smoothing spline"""
    def __init__(self, x, y, w=None, **k):
        self.y = VALUE(y)
        self.w = VALUE(w)
    def __call__(self, x):
        return FN('spl')(self.y, self.w / np.sum(self.w))

class Cub:
    def __init__(self, x, y, **k):
        self.x = VALUE(x)
        self.y = VALUE(y)
    def integrate(self, a, b):
        return np.sum(FN('cub')(self.y, self.x)) * (b - a)

def leg(n):
    return lambda x: FN('leg' + str(n))(x)

class Model:
    """stands for the continuum model: records what a fit starts from"""
    def __init__(self, mc, mf, vl, eta, order, rf0, denom, minimizer):
        self.i = (mc, mf, vl, eta)
        self.n = 0
        LOG['model'].append({'order': order, 'rf0': rf0, 'denom': denom,
                            'mini': minimizer})
    def init_spectra(self, l):
        LOG['init'].append(len(l))
    def fit_continuum(self, s):
        LOG['fit'].append({
            'spec': s.i, 'mc': VALUE(self.i[0].fp), 'mf': VALUE(self.i[1].fp),
            'vl': VALUE(self.i[2].fp), 'eta': VALUE(self.i[3].fp)})
        n = s.n
        s.n = n + 1
        ok = BOOL('ok' + str(s.i) + str(n))
        s.cont_params['valid'] = ok
        if ok:
            s.cont_params['cont'] = {
                a: FN('c' + str(s.i) + str(n))(w)
                for a, w in s.forestwave.items()}
        else:
            s.cont_params['cont'] = None
    def stack_spectra(self, l, st):
        for s in l:
            for a, w in s.forestwave.items():
                st.add(w, w / 3., s.forestflux[a], s.cont_params['cont'][a],
                       1 + 0 * w)
    def stacks_residual_flux(self):
        return RESID[0]

RESID = [True]

class TModel(Model):
    def __init__(self, mf, vl):
        self.i = (Z, mf, vl, Z)
        RESID[0] = False

class IModel(Model):
    def __init__(self, d, mf, vl, eta, nside=8):
        self.i = (Z, mf, vl, eta)
        RESID[0] = False
        LOG['model'].append({'dir': d})

class Z:
    fp = 0

class Stacker:
    def __init__(self, w1, w2, dw, waverf, dwrf, comm=None):
        self.waveobs = np.array([3604., 3612.])
        self.stacked_flux = np.ones(2)
        self.weights = np.zeros(2)
        self.nb = waverf.size
        self.stacked_flux_rf = np.ones(self.nb)
        self.std_flux_rf = np.zeros(self.nb)
        LOG['st'].append({'w1': w1, 'w2': w2, 'rf': VALUE(waverf),
                          'drf': dwrf, 'mpi': comm is not None})
        self.reset()
    def reset(self):
        self.t = 0
        self.n = 0
    def add(self, wave, rf, f, c, w):
        self.t = self.t + np.sum(f / c * w)
        self.n = self.n + np.sum(w)
    def calculate(self):
        self.t, self.n = SUMS(self.t, self.n)
        m = FN('mean')(self.t, self.n)
        self.stacked_flux = FN('st1')(np.array([1., 1.1]), m)
        self.stacked_flux_rf = FN('st2')(ARR('srf'), m)
        self.std_flux_rf = ARR('erf')
    def __call__(self, w):
        return FN('stk')(w, self.stacked_flux[0])

def SUMS(t, n):
    return t, n

def TOTAL(n):
    return n

class Fitter:
    def __init__(self, w1, w2, nwbins=None, use_cov=False, comm=None, **k):
        LOG['vf'].append({'w1': w1, 'w2': w2, 'cov': use_cov,
                            'mpi': comm is not None})
        self.nwbins = NW
        self.waveobs = np.array([3660., 3780., 3900., 4020.])
        self.l = []
        self.reset()
    def construct_interp(self, y0=1.):
        return FastCubic1DInterp(3660., 120., y0 * np.ones(NW),
                                 ep=np.zeros(NW))
    def reset(self):
        self.t = 0
    def add(self, wave, d, iv):
        LOG['added'].append({'w': VALUE(wave), 'd': VALUE(d),
                             'iv': VALUE(iv)})
        self.t = self.t + np.sum(d * d) + 0.2 * np.sum(iv)
    def fit(self, guess, smooth=True):
        g = VALUE(guess)
        LOG['guess'].append(g)
        r = FITTED(g, self.t)
        return r, 0.1 * r
    def write(self, saver, *a, **k):
        saver.write([FN('vst')(self.t, self.waveobs)], names=['wave'],
                    extname='VAR_STATS')

def FITTED(g, t):
    return FN('vfit')(g, t)

class Saver:
    def __init__(self, fname, rank):
        LOG['open'].append(fname)
    def write(self, data, names=None, extname=None, header=None, **k):
        d = {}
        for a, b in zip(names, data):
            d[a.lower()] = VALUE(b)
        if extname in LOG['files']:
            d['again'] = True
        LOG['files'][extname] = d
    def close(self):
        LOG['closed'] = LOG['closed'] + 1

class HDU:
    def __init__(self, fname):
        self.fname = fname
    def read(self, *a, **k):
        return FIDT(self.fname)

def FIDT(name):
    col = {'mf': 'MEANFLUX', 'vl': 'VAR_LSS'}[name]
    return {'LAMBDA': np.array([3600., 3750., 3900., 4050.]),
            col: np.array([SCAL(name + str(i)) for i in range(4)])}

class FITS:
    def __init__(self, fname, *a, **k):
        self.fname = fname
    def __getitem__(self, k):
        if k == 'STATS':
            return HDU(self.fname)
        raise OSError("no extension")
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass
    def close(self):
        pass

class fake_fitsio:
    @staticmethod
    def FITS(fname, *a, **k):
        return FITS(fname)
    @staticmethod
    def read(fname, ext=None, **k):
        return HDU(fname).read()

def patch():
    PM.PiccaContinuumModel = Model
    TM.TrueContinuumModel = TModel
    IM.InputContinuumModel = IModel
    PC.UnivariateSpline = Spl
    PC.CubicSpline = Cub
    PC.legendre = leg
    PC.FluxStacker = Stacker
    PC.VarLSSFitter = Fitter
    PC.MPISaver = Saver
    PC.fitsio = fake_fitsio

class Spec:
    def __init__(self, i, arms):
        self.i = i
        self.n = 0
        self.forestwave = {a: ARR('w' + str(i) + a) for a in arms}
        self.forestflux = {a: ARR('f' + str(i) + a) for a in arms}
        self.forestivar = {a: ARR('v' + str(i) + a) for a in arms}
        self.forestivar_sm = {a: 1.3 * ARR('v' + str(i) + a) + 0.1
                              for a in arms}
        self.cont_params = {'valid': False, 'cont': None, 'chi2': -1.}

def spectra():
    return [Spec(0, ['b']), Spec(1, ['b', 'r'])]
'''
IT = BASE + '''
def code(kw):
    patch()
    f = PC.PiccaContinuumFitter(mkargs(**kw))
    l = spectra()
    f.iterate(l)
    r = {'conts': [s.cont_params['cont'] for s in l],
         'ivars': [s.forestivar for s in l],
         'flux': [s.forestflux for s in l]}
    for k in ('fit', 'guess', 'added', 'init', 'open', 'files', 'closed',
              'model', 'st', 'vf'):
        r[k] = LOG[k]
    r['vl'] = f.varlss_interp.fp
    r['eta'] = f.eta_interp.fp
    return r

def newcont(mc, srf, erf, order, resid):
    w = erf > 0
    y = np.where(w, srf, np.sum(np.where(w, srf, 0)) / np.sum(w))
    e = np.where(w, erf, 10 * np.sum(np.where(w, erf, 0)) / np.sum(w))
    n = Spl(None, y, w=1 / e)(None)
    if resid:
        n = n * mc
    x = np.log(RF / RF[0]) / np.log(RF[-1] / RF[0])
    for c in range(1, order + 1):
        L = leg(c)(2 * x - 1)
        n = n - (2 * c + 1) * L * Cub(x, n * L).integrate(0, 1)
    m = Cub(x, n).integrate(0, 1)
    n = n / m
    e = e / m
    u = n / mc - 1
    conv = (np.sum((u / e)**2) / NB < 1e-3) or np.all(
        np.abs(u) < 0.33 * e)
    return n, e, conv

RF = np.array([1050.4, 1051.2, 1052., 1052.8, 1053.6])

def FID(name, col):
    return FIDT(name)[col]

def spec(kw):
    a = mkargs(**kw)
    ASSUME(np.any(ARR('erf') > 0))
    l = spectra()
    mc = np.ones(NB)
    emc = np.zeros(NB)
    v = 0.1 * np.ones(NW)
    eta = np.ones(NW)
    fid = a.fiducial_varlss is not None
    mf = np.ones(3)
    if a.fiducial_meanflux is not None:
        mf = FID('mf', 'MEANFLUX')
    if fid:
        v = FID('vl', 'VAR_LSS')
        eta = np.ones(4)
    ev = np.zeros(4)
    eeta = np.zeros(4)
    stk = np.ones(2)
    srf = np.ones(NB)
    erf = np.zeros(NB)
    t = 0
    fits = []
    guess = []
    added = []
    files = {}
    conv = False
    W = np.array([3660., 3780., 3900., 4020.])

    def save(suff, fid):
        files['CONT' + suff] = {'lambda_rf': RF, 'mean_cont': mc,
                                'e_mean_cont': emc}
        files['STACKED_FLUX' + suff] = {
            'lambda': np.array([3604., 3612.]), 'stacked_flux': stk}
        files['STACKED_FLUX_RF' + suff] = {
            'lambda_rf': RF, 'stacked_flux_rf': srf,
            'e_stacked_flux_rf': erf}
        if not fid:
            files['VAR_FUNC' + suff] = {
                'lambda': W, 'var_lss': v, 'e_var_lss': ev, 'eta': eta,
                'e_eta': eeta}

    def stats(v, eta):
        t = 0
        for s in l:
            if s.cont_params['valid']:
                for a, w in s.forestwave.items():
                    c = s.cont_params['cont'][a]
                    d = s.forestflux[a] / c - 1
                    iv = s.forestivar[a] * c**2
                    added.append({'w': w, 'd': d, 'iv': iv})
                    t = t + np.sum(d * d) + 0.2 * np.sum(iv)
        return t

    def stacked():
        t = 0
        n = 0
        for s in l:
            if s.cont_params['valid']:
                for a, w in s.forestwave.items():
                    t = t + np.sum(s.forestflux[a] / s.cont_params['cont'][a])
                    n = n + np.size(w)
        t, n = SUMS(t, n)
        m = FN('mean')(t, n)
        return FN('st1')(np.array([1., 1.1]), m), FN('st2')(ARR('srf'), m)

    model = a.continuum_model
    resid = model == 'picca'
    order = a.cont_order if resid else 0
    for it in range(1 if model == 'true' else a.num_iterations):
        if conv:
            break
        save('-' + str(it + 1), fid)
        nv = 0
        for s in l:
            fits.append({'spec': s.i, 'mc': mc if resid else 0, 'mf': mf,
                         'vl': v, 'eta': 0 if model == 'true' else eta})
            ok = BOOL('ok' + str(s.i) + str(it))
            s.cont_params['valid'] = ok
            if ok:
                nv = nv + 1
                s.cont_params['cont'] = {
                    x: FN('c' + str(s.i) + str(it))(w)
                    for x, w in s.forestwave.items()}
            else:
                s.cont_params['cont'] = None
        if TOTAL(nv) == 0:
            raise Exception("no valid fits")
        stk, srf = stacked()
        erf = ARR('erf')
        mc, emc, conv = newcont(mc, srf, erf, order, resid)
        if not fid:
            t = stats(v, eta)
            if a.var_fit_eta:
                g = np.vstack([v, eta]).T
                guess.append(g)
                y = FITTED(g, t)
                v = y[:, 0]
                eta = y[:, 1]
                ev = 0.1 * v
                eeta = 0.1 * eta
            else:
                guess.append(v)
                v = FITTED(v, t)
                ev = 0.1 * v
    if a.normalize_stacked_flux:
        for s in l:
            if s.cont_params['valid']:
                for x, w in s.forestwave.items():
                    s.cont_params['cont'][x] = s.cont_params['cont'][x] * (
                        FN('stk')(w, stk[0]))
    if a.eta_calib_ivar:
        I = FastCubic1DInterp(3660., 120., eta)
        if fid:
            c = FIDT('vl')['LAMBDA']
            I = FastCubic1DInterp(c[0], c[1] - c[0], eta)
        for s in l:
            for x, w in s.forestwave.items():
                s.forestivar[x] = s.forestivar[x] / I(w)
    save('', fid)
    v0 = v
    eta0 = eta
    if fid:
        v = 0.1 * np.ones(NW)
        eta = np.ones(NW)
        ev = np.zeros(4)
        eeta = np.zeros(4)
        t = stats(v, eta)
        if a.var_fit_eta:
            g = np.vstack([v, eta]).T
            guess.append(g)
            y = FITTED(g, t)
            v = y[:, 0]
            eta = y[:, 1]
            ev = 0.1 * v
            eeta = 0.1 * eta
        else:
            guess.append(v)
            v = FITTED(v, t)
            ev = 0.1 * v
        stk, srf = stacked()
        mc, emc, conv = newcont(mc, srf, erf, order, resid)
        save('-fit', False)
    files['VAR_STATS'] = {'wave': FN('vst')(t, W)}
    return {'conts': [s.cont_params['cont'] for s in l],
            'ivars': [s.forestivar for s in l],
            'flux': [s.forestflux for s in l], 'fit': fits, 'guess': guess,
            'added': added, 'init': [2], 'open': ['out/attributes.fits'],
            'files': files, 'closed': 1, 'vl': v0, 'eta': eta0,
            'vf': [{'w1': 3600., 'w2': 4080., 'cov': bool(a.var_use_cov),
                    'mpi': True}],
            'st': [{'w1': 3600., 'w2': 4080., 'rf': RF, 'drf': 0.8,
                    'mpi': True}],
            'model': {'picca': [{'order': order, 'rf0': 1050.4,
                                 'denom': np.log(1053.6 / 1050.4),
                                 'mini': a.minimizer}],
                      'input': [{'dir': 'indir'}], 'true': []}[model]}
'''


VF = '''
import numpy as np
import qsonic.picca_continuum as PC
NW = 3
NV = 7
CALLS = []
OUT = {}

def curve_fit(f, x, y, p0=None, sigma=None, **kw):
    CALLS.append({'x': VALUE(x), 'y': VALUE(y), 'p0': VALUE(p0),
                  'sigma': VALUE(sigma), 'abs': kw['absolute_sigma'],
                  'bounds': kw['bounds'], 'm1': f(x, SCAL('p1')),
                  'm2': f(x, SCAL('p1'), SCAL('p2'))})
    k = str(len(CALLS)) + 'z'
    return result(x, y, sigma, np.size(p0))

def result(x, y, sigma, n):
    m = FN('m')(np.sum(x), np.sum(y))
    if m < SCAL('thr'):
        raise RuntimeError("no convergence")
    e = FN('e')(m, np.sum(sigma))
    if n == 1:
        return np.array([m]), np.array([[e]])
    return np.array([m, 2 * m]), np.array([[e, 0.1], [0.1, 3 * e]])

class Spl:
    def __init__(self, x, y, w=None, **k):
        self.s = FN('s')(np.sum(x), np.sum(y), np.sum(w * y))
    def __call__(self, x):
        return FN('t')(x, self.s)

class Saver:
    def write(self, data, names=None, extname=None, header=None):
        d = {}
        for a, b in zip(names, data):
            d[a] = VALUE(b)
        OUT[extname] = {'data': d, 'header': header}

def guess(two):
    if two:
        return ARR2('g2')
    return ARR('g1')

def code(two, smooth, cov):
    PC.curve_fit = curve_fit
    PC.UnivariateSpline = Spl
    f = PC.VarLSSFitter(3600., 3960., NW, nvarbins=NV, nsubsamples=2,
                        use_cov=cov)
    f._stats_calculated = True
    f._num_pixels = ARR('np')
    f._num_qso = ARR('nq')
    f.subsampler.mean = ARR2('mean')
    f.subsampler.variance = ARR2('var')
    if cov:
        f.subsampler.covariance = [None, ARR('cov')]
    y, e = f.fit(guess(two), smooth)
    r = {'y': VALUE(y), 'e': VALUE(e), 'calls': CALLS}
    f.write(Saver(), SCAL('snr1'), SCAL('snr2'))
    r['file'] = OUT
    return r

def inner(x):
    return np.concatenate([x[(NV + 2) * i + 1:(NV + 2) * i + 1 + NV]
                           for i in range(1, NW + 1)])

def spec(two, smooth, cov):
    n = inner(ARR('np'))
    q = inner(ARR('nq'))
    M = ARR2('mean')
    V = ARR2('var')
    c = inner(M[3])
    d = inner(M[1])
    e = np.sqrt(inner(V[1]))
    W = np.array([3660., 3780., 3900.])
    g = guess(two)
    nf = 0
    Y = []
    E = []
    C = []
    for i in range(NW):
        a = NV * i
        b = a + NV
        w = (n[a:b] >= 500) & (q[a:b] >= 50)
        if np.sum(w) < 5:
            w = (n[a:b] >= 250) & (q[a:b] >= 25)
        p = np.zeros(2 if two else 1)
        s = np.zeros(2 if two else 1)
        if np.sum(w) < 5:
            nf = nf + 1
        else:
            x = c[a:b][w]
            y = d[a:b][w]
            sg = e[a:b][w]
            if cov:
                sg = ARR('cov')[i + 1][1:-1, 1:-1][:, w][w, :]
            C.append({'x': x, 'y': y, 'p0': g[i], 'sigma': sg, 'abs': True,
                      'bounds': (0, 2), 'm1': x + SCAL('p1'),
                      'm2': SCAL('p2') * x + SCAL('p1')})
            try:
                p, pc = result(x, y, sg, 2 if two else 1)
                s = np.sqrt(np.diag(pc))
            except RuntimeError:
                nf = nf + 1
        Y.append(p)
        E.append(s)
    if nf > 0.4 * NW:
        raise Exception("too many failures")
    Y = np.array(Y)
    E = np.array(E)
    if smooth:
        ok = Y[:, 0] > 0
        cols = []
        for j in range(2 if two else 1):
            cols.append(Spl(W[ok], Y[:, j][ok], w=1 / E[:, j][ok])(W))
        Y = np.array(cols).T
    if not two:
        Y = Y[:, 0]
        E = E[:, 0]
    cv = {}
    if cov:
        cv['cov_var_delta'] = np.concatenate([
            ARR('cov')[i][1:-1, 1:-1] for i in range(1, NW + 1)])
    ed = np.logspace(-np.log10(20.), 4, NV + 1)
    f = {'VAR_STATS': {
        'data': {'wave': np.repeat(W, NV),
                 'var_pipe': c, 'e_var_pipe': np.sqrt(inner(V[3])),
                 'var_delta': d, 'e_var_delta': e, 'mean_delta': inner(M[0]),
                 'var2_delta': inner(M[2]), 'num_pixels': n, 'num_qso': q,
                 **cv},
        'header': {'MINNPIX': 500, 'MINNQSO': 50, 'MINSNR': SCAL('snr1'),
                   'MAXSNR': SCAL('snr2'), 'WAVE1': 3660., 'WAVE2': 3900.,
                   'NWBINS': NW, 'IVAR1': ed[0], 'IVAR2': ed[-1],
                   'NVARBINS': NV}}}
    return {'y': Y, 'e': E, 'calls': C, 'file': f}
'''


def _cnt(lo, hi):
    """counts around the two thresholds"""
    def g(E, rng, r):
        x = rng.choice([hi - 1, hi, hi + 3, hi + 9, hi + 20], 45)
        if rng.random() < .7:
            b = int(rng.integers(1, 4))
            x[9 * b:9 * b + 9] = rng.choice(
                [lo - 1, lo, lo + 1, hi - 1, hi, hi], 9)
        return x
    return g


def _cov(E, rng, r):
    x = rng.normal(size=(5, 9, 12))
    return np.einsum("bij,bkj->bik", x, x) + np.eye(9)


VFG = {"np": _cnt(250, 500), "nq": _cnt(25, 50),
       "mean": arr(.1, 2, shape=(4, 45)), "var": arr(.1, 2, shape=(4, 45)),
       "thr": pick(0., 0., .6), "g1": arr(.1, 1, 3),
       "g2": arr(.1, 1, shape=(3, 2)), "cov": _cov}


def _varfit(rep, name, two, smooth, cov=False):
    src = VF + f'''
def c():
    return code({two}, {smooth}, {cov})
def s():
    return spec({two}, {smooth}, {cov})
'''
    rep.compare(name, src, "picca_continuum:VarLSSFitter.fit",
                code="c", spec="s", gens=VFG)


CHI = BASE + '''
class Out:
    def __init__(self, fname, *a, **k):
        LOG['open'].append(fname)
        LOG['made'].append(k.get('clobber', False))
    def write(self, data, extname=None, **k):
        LOG['files'][extname] = data
    def close(self):
        LOG['closed'] = LOG['closed'] + 1
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()

class out_fitsio:
    @staticmethod
    def FITS(fname, *a, **k):
        return Out(fname, *a, **k)

def fitter():
    patch()
    f = PC.PiccaContinuumFitter(mkargs())
    PC.fitsio = out_fitsio
    return f

class Q:
    def __init__(self, i, arms):
        k = str(i)
        self.targetid = INTSYM('tid' + k)
        self.z_qso = SCAL('z' + k)
        self.catrow = {'HPXPIXEL': INTSYM('pix' + k), 'TARGETID': self.targetid,
                       'Z': self.z_qso}
        self.mean_snr = {a: SCAL('snr' + k + a) for a in arms}
        self.rsnr = SCAL('rsnr' + k)
        self.cont_params = {'valid': BOOL('ok' + k), 'chi2': SCAL('chi' + k),
                            'dof': INTSYM('dof' + k), 'x': ARR('x' + k),
                            'xcov': ARR2('xc' + k)}

def code():
    f = fitter()
    l = [Q(0, ['b', 'r']), Q(1, ['b'])]
    f.save_contchi2_catalog(l)
    t = LOG['files']['CHI2_CAT']
    r = {c: [t[c][0], t[c][1]] for c in (
        'TARGETID', 'Z', 'HPXPIXEL', 'ARMS', 'MEANSNR', 'RSNR', 'MPI_RANK',
        'CONT_valid', 'CONT_chi2', 'CONT_dof', 'CONT_x', 'CONT_xcov')}
    r['file'] = LOG['open']
    r['closed'] = LOG['closed']
    r['clobber'] = LOG['made'][-1]
    return r

def spec():
    return {'TARGETID': [INTSYM('tid0'), INTSYM('tid1')],
            'Z': [SCAL('z0'), SCAL('z1')],
            'HPXPIXEL': [INTSYM('pix0'), INTSYM('pix1')],
            'ARMS': ['b,r', 'b'],
            'MEANSNR': [np.array([SCAL('snr0b'), SCAL('snr0r'), 0.]),
                        np.array([SCAL('snr1b'), 0., 0.])],
            'RSNR': [SCAL('rsnr0'), SCAL('rsnr1')],
            'MPI_RANK': [0, 0],
            'CONT_valid': [BOOL('ok0'), BOOL('ok1')],
            'CONT_chi2': [SCAL('chi0'), SCAL('chi1')],
            'CONT_dof': [INTSYM('dof0'), INTSYM('dof1')],
            'CONT_x': [ARR('x0'), ARR('x1')],
            'CONT_xcov': [ARR2('xc0').ravel(), ARR2('xc1').ravel()],
            'file': ['out/continuum_chi2_catalog.fits'], 'closed': 1,
            'clobber': True}
'''
CHG = {"x0": arr(.1, 2, 2), "x1": arr(.1, 2, 2),
       "xc0": arr(.1, 2, shape=(2, 2)), "xc1": arr(.1, 2, shape=(2, 2))}


def _chi(rep):
    rep.compare("chi2cat", CHI,
                "picca_continuum:PiccaContinuumFitter.save_contchi2_catalog",
                gens=CHG)


def _fid(col):
    def g(E, rng, r):
        n = 4
        x = np.zeros(n, dtype=[('LAMBDA', 'f8'), (col, 'f8')])
        x['LAMBDA'] = 3600 + 150. * np.arange(n)
        x[col] = rng.uniform(.2, .9, n)
        return x
    return g


def _erf(E, rng, r):
    x = 10**rng.uniform(-2.5, .8) * rng.uniform(.5, 1.5, 5)
    x[rng.random(5) < .15] = 0
    return x


def _srf(E, rng, r):
    return 1 + 10**rng.uniform(-3, -.3) * rng.normal(size=5)


IG = {"erf": _erf, "srf": _srf, "fid_mf": _fid("MEANFLUX"),
      "fid_vl": _fid("VAR_LSS")}
for _s, _a in (("0", "b"), ("1", "b"), ("1", "r")):
    IG["w" + _s + _a] = arr(3650, 4030, 3)
    IG["f" + _s + _a] = arr(-.5, 2, 3)
    IG["v" + _s + _a] = arr(0, 3, 3)


CONV = [("FN('spl')(self.y, self.w / np.sum(self.w))", "self.y"),
        ("np.sum(FN('cub')(self.y, self.x)) * (b - a)", "np.sum(self.y) / 5"),
        ("FN('st2')(ARR('srf'), m)", "ARR('srf')")]


def _iter(rep, name, conv=False, **kw):
    src = IT
    for a, b in CONV if conv else ():
        assert a in src
        src = src.replace(a, b)
    src += f'''
def c():
    return code({kw!r})
def s():
    return spec({kw!r})
'''
    rep.compare(name, src, "picca_continuum:PiccaContinuumFitter.iterate",
                code="c", spec="s", gens=IG)


RANKS = [
    ("n = s.n\n", "n = LOG['it']\n"),
    ("'closed': 0}", "'closed': 0, 'it': 0}"),
    ("def SUMS(t, n):\n    return t, n", "CM = COMMOBJ()\n"
     "def SUMS(t, n):\n    return CM.allreduce(t), CM.allreduce(n)"),
    ("        self.nb = waverf.size\n",
     "        self.nb = waverf.size\n        self.comm = comm\n"),
    ("        self.nwbins = NW\n",
     "        self.nwbins = NW\n        self.comm = comm\n"),
    ("        r = FITTED(g, self.t)\n",
     "        t = self.t\n        if self.comm is not None:\n"
     "            t = self.comm.allreduce(t)\n"
     "        r = FN('vfit')(g, t)\n"),
    ("        self.t, self.n = SUMS(self.t, self.n)\n",
     "        LOG['it'] = LOG['it'] + 1\n"
     "        if self.comm is not None:\n"
     "            self.t, self.n = SUMS(self.t, self.n)\n"),
    ("return [Spec(0, ['b']), Spec(1, ['b', 'r'])]",
     "return [Spec(i, ['b']) for i in range(2) if BOOL('L_has' + str(i))]"),
    ("ARR('w' + str(i) + a)", "ARR('L_w' + str(i) + a)"),
    ("ARR('f' + str(i) + a)", "ARR('L_f' + str(i) + a)"),
    ("ARR('v' + str(i) + a)", "ARR('L_v' + str(i) + a)"),
    ("BOOL('ok' + ", "BOOL('L_ok' + "),
    ("def TOTAL(n):\n    return n", "def TOTAL(n):\n    return CM.allreduce(n)"),
    ("return FN('vfit')(g, t)", "return FN('vfit')(g, CM.allreduce(t))"),
    ("saver.write([FN('vst')(self.t, ", "saver.write([FN('vst')(CM.allreduce(self.t), "),
    ("{'wave': FN('vst')(t, W)}", "{'wave': FN('vst')(CM.allreduce(t), W)}"),
]


CHIR = CHI
for _k in ("'tid'", "'z'", "'pix'", "'snr'", "'rsnr'", "'ok'", "'chi'",
           "'dof'", "'x'", "'xc'"):
    CHIR = CHIR.replace(_k + " + k", "'L_" + _k[1:] + " + k")
CHIR += '''
CM = COMMOBJ()
COLS = ('TARGETID', 'Z', 'HPXPIXEL', 'MEANSNR', 'RSNR', 'MPI_RANK',
        'CONT_valid', 'CONT_chi2', 'CONT_dof', 'CONT_x', 'CONT_xcov')

def code():
    f = fitter()
    f.save_contchi2_catalog([Q(0, ['b', 'r']), Q(1, ['b'])])
    if CM.Get_rank() != 0:
        return {'rows': None, 'opened': LOG['open']}
    t = LOG['files']['CHI2_CAT']
    return {'rows': {c: t[c] for c in COLS}, 'opened': LOG['open']}

def spec():
    def S(k, *a):
        return np.array([SCAL('L_' + k + '0'), SCAL('L_' + k + '1')])
    def I(k):
        return np.array([INTSYM('L_' + k + '0'), INTSYM('L_' + k + '1')])
    r = CM.Get_rank()
    l = {'TARGETID': I('tid'), 'Z': S('z'), 'HPXPIXEL': I('pix'),
         'MEANSNR': np.array([[SCAL('L_snr0b'), SCAL('L_snr0r'), 0.],
                              [SCAL('L_snr1b'), 0., 0.]]),
         'RSNR': S('rsnr'), 'MPI_RANK': np.array([r, r]),
         'CONT_valid': np.array([BOOL('L_ok0'), BOOL('L_ok1')]),
         'CONT_chi2': S('chi'), 'CONT_dof': I('dof'),
         'CONT_x': np.array([ARR('L_x0'), ARR('L_x1')]),
         'CONT_xcov': np.array([ARR2('L_xc0').ravel(),
                                ARR2('L_xc1').ravel()])}
    g = {c: CM.gather(v) for c, v in l.items()}
    if r != 0:
        return {'rows': None, 'opened': []}
    return {'rows': {c: np.concatenate(v) for c, v in g.items()},
            'opened': ['out/continuum_chi2_catalog.fits']}
'''


def chi_ranks(rep, trace=False):
    g = {"L_" + k: v for k, v in CHG.items()}
    a = "picca_continuum:PiccaContinuumFitter.save_contchi2_catalog"
    if trace:
        rep.trace("chi2cat", CHIR.replace(
            "[Q(0, ['b', 'r']), Q(1, ['b'])])\n    if",
            "[Q(i, ['b']) for i in range(2) if BOOL('L_has' + str(i))])\n"
            "    if"), a, gens=g, exc=0.)
    else:
        rep.compare("chi2cat", CHIR, a, gens=g, nrank=3, ranks=(0, 1, 2))


def ranks(rep, name, trace=False, **kw):
    """the same iteration with the quasars spread over several ranks"""
    src = IT
    for a, b in RANKS:
        assert a in src or a.startswith("{'wave'"), a
        src = src.replace(a, b)
    src += f'''
GLOBAL = ('guess', 'vl', 'eta', 'mean')
def c():
    r = code({kw!r})
    return {{'conts': r['conts'], 'ivars': r['ivars'], 'fit': r['fit'],
            'guess': r['guess'], 'vl': r['vl'], 'eta': r['eta'],
            'cont': r['files']['CONT']}}
def s():
    r = spec({kw!r})
    return {{'conts': r['conts'], 'ivars': r['ivars'], 'fit': r['fit'],
            'guess': r['guess'], 'vl': r['vl'], 'eta': r['eta'],
            'cont': r['files']['CONT']}}
'''
    g = {("L_" + k if k[0] in "wfv" and k[1] in "01" else k): v
         for k, v in IG.items()}
    a = "picca_continuum:PiccaContinuumFitter.iterate"
    if trace:
        rep.trace(name, src, a, fn="c", gens=g, exc=0.)
    else:
        rep.compare(name, src, a, code="c", spec="s", gens=g, nrank=3,
                    ranks=(0, 1, 2))


def check_C23(rep):
    _chi(rep)
    _iter(rep, "iterate/plain", num_iterations=1)
    _iter(rep, "iterate/two", num_iterations=2)
    _iter(rep, "iterate/convergence", True, num_iterations=2, cont_order=0)
    _iter(rep, "iterate/true", num_iterations=3, continuum_model='true',
          fiducial_meanflux='mf', fiducial_varlss='vl')
    _iter(rep, "iterate/input", num_iterations=2, continuum_model='input',
          cont_order=3)
    _iter(rep, "iterate/eta", num_iterations=2, var_fit_eta=True,
          eta_calib_ivar=True)
    _iter(rep, "iterate/norm", num_iterations=2, normalize_stacked_flux=True,
          var_use_cov=True, minimizer='l_bfgs_b')
    _iter(rep, "iterate/fiducial", num_iterations=1, fiducial_meanflux='mf',
          fiducial_varlss='vl', eta_calib_ivar=True,
          normalize_stacked_flux=True)
    _iter(rep, "iterate/fiducial-eta", num_iterations=1,
          fiducial_varlss='vl', var_fit_eta=True, var_use_cov=True)
    if all(rep.assigns("picca_continuum", "VarLSSFitter", x)
           for x in ("_num_pixels", "_num_qso", "_stats_calculated",
                     "subsampler")):
        _varfit(rep, "varfit/one", False, False)
        _varfit(rep, "varfit/smooth", False, True)
        _varfit(rep, "varfit/eta", True, False)
        _varfit(rep, "varfit/eta-smooth", True, True)
        _varfit(rep, "varfit/cov", False, False, True)
