"""Continuum models."""
from .common import *

BASE = MK + '''
import qsonic.spectrum as SP
from qsonic.spectrum import valid_spectra
ORDER = 1

class Rec:
    """stands for the flux stacker: records what is added"""
    def __init__(self):
        self.l = []
    def add(self, wave, wave_rf, wf, wc, w):
        self.l.append({'wave': VALUE(wave), 'rf': VALUE(wave_rf),
                       'f': VALUE(wf), 'c': VALUE(wc), 'w': VALUE(w)})

def start(i=0):
    s = forest(mkspec(i))
    SP.get_smooth_ivar = lambda iv, sig: 1.7 * iv
    s.set_smooth_forestivar(SCAL('sm'))
    return s

def out(s):
    p = s.cont_params
    return {'valid': p['valid'], 'cont': p['cont'], 'chi2': p['chi2'],
            'x': p['x'], 'xcov': p['xcov'], 'dof': p['dof'],
            'method': p['method'], 'weight': s.forestweight}

def weights(s, cont, eta):
    W = {}
    for a, w in s.forestwave.items():
        v = s.forestivar_sm[a]
        W[a] = v / (eta(w) + v * FN('vlss')(w) * cont[a]**2)
    return W

def chisq(s, cont, W):
    t = 0
    for a in s.forestwave:
        t = t + np.sum(W[a] * (s.forestflux[a] - cont[a])**2)
    return t

def nvalid(s):
    n = 0
    for a, v in s.forestivar.items():
        n = n + np.sum(v > 0)
    return n
'''
PICCA = BASE + '''
import qsonic.continuum_models.picca_continuum_model as PM
LOG = {}
NTH = ['']

class Minuit:
    LEAST_SQUARES = 1.0
    LIKELIHOOD = 0.5
    def __init__(self, cost, x0):
        LOG['x0'] = VALUE(x0)
        LOG['cost'] = cost(ARR('xt'))
        self.errordef = 0
        self.valid = False
        self.accurate = BOOL('accurate')
        self.values = ARR('xfit') * 0
        self.covariance = None
        self.ndim = self.npar = ORDER + 1
    def migrad(self, **kw):
        LOG['errordef'] = self.errordef
        self.valid = BOOL('ok' + NTH[0])
        self.fval = SCAL('fval')
        self.nfcn = INTSYM('nfcn')
        self.fmin = self
        self.is_valid = self.valid
        self.has_covariance = BOOL('hascov')
        self.has_accurate_covar = self.accurate
        self.has_posdef_covar = BOOL('posdef')
        self.is_above_max_edm = BOOL('edm')
        self.has_reached_call_limit = BOOL('limit')
        self.values = ARR('xfit' + NTH[0])
        self.covariance = ARR2('xcov')

class Sol:
    def __init__(self):
        self.success = BOOL('ok' + NTH[0])
        self.x = ARR('xfit' + NTH[0])
        self.hess_inv = self
        self.fun = SCAL('fval')
        self.status = INTSYM('status')
        self.nit = INTSYM('nit')
        self.nfev = INTSYM('nfcn')
        self.jac = ARR('xjac')
        self.message = STR('message')
    def todense(self):
        return ARR2('xcov')

def minimize(fun, x0, args=(), **kw):
    LOG['x0'] = VALUE(x0)
    LOG['cost'] = fun(ARR('xt'), *args)
    LOG['errordef'] = 1.0
    return Sol()

def model(which):
    PM.Minuit = Minuit
    PM.minimize = minimize
    return PM.PiccaContinuumModel(
        FN('mcont'), FN('mflux'), FN('vlss'), FN('eta'), ORDER,
        SCAL('rf0'), SCAL('denom'), which)

def code(which):
    m = model(which)
    s = start()
    m.init_spectra([s])
    m.fit_continuum(s)
    r = out(s)
    for k in ('x0', 'cost', 'errordef'):
        r[k] = LOG[k]
    return r

def refit(which):
    """a second fit of the same spectrum, whatever the first one gave"""
    m = model(which)
    s = start()
    m.init_spectra([s])
    m.fit_continuum(s)
    NTH[0] = '2'
    m.fit_continuum(s)
    r = out(s)
    r['x0'] = LOG['x0']
    if not r['valid']:
        r['x'] = 0
        r['xcov'] = 0
    return r

def respec(which):
    r = spec(which, '2')
    if not r['valid']:
        r['x'] = 0
        r['xcov'] = 0
    return r

def cmodel(s, x):
    C = {}
    for a, w in s.forestwave.items():
        wr = w / (1 + SCAL('z'))
        y = 2 * np.log(wr / SCAL('rf0')) / SCAL('denom') - 1
        p = x[0]
        for j in range(1, ORDER + 1):
            p = p + x[j] * y**j
        C[a] = FN('mcont')(wr) * p
    return C

def withflux(s, C):
    return {a: c * FN('mflux')(s.forestwave[a]) for a, c in C.items()}

def spec(which, nth=''):
    s = start()
    ASSUME(len(s.forestwave) > 0)
    a0 = s.cont_params['x'][0]
    t = 0
    n = 1e-6
    for a, v in s.forestivar_sm.items():
        t = t + np.sum(v * s.forestflux[a])
        n = n + np.sum(v)
    c = withflux(s, cmodel(s, ARR('xt')))
    W = weights(s, c, FN('eta'))
    cost = chisq(s, c, W)
    for a, w in W.items():
        cost = cost - np.sum(np.where(w > 0, np.log(np.where(w > 0, w, 1)), 0))
    x = ARR('xfit' + nth)
    C = cmodel(s, x)
    ok = BOOL('ok' + nth)
    neg = False
    for a, c in C.items():
        neg = neg or np.any(c < 0)
    ok = ok and not neg
    r = {'method': 'picca', 'valid': ok, 'dof': nvalid(s) - ORDER - 1,
         'cost': cost,
         'x0': np.array([t / n] + [0.] * ORDER), 'errordef': 1.0}
    if ok:
        F = withflux(s, C)
        W = weights(s, F, FN('eta'))
        r['cont'] = F
        r['weight'] = W
        r['chi2'] = chisq(s, F, W)
        r['x'] = x
        r['xcov'] = ARR2('xcov')
    else:
        r['cont'] = None
        r['weight'] = s.forestivar_sm
        r['chi2'] = -1
        r['x'] = np.array([a0] + [0.] * ORDER)
        r['xcov'] = np.eye(ORDER + 1)
    return r

def two(which):
    m = model(which)
    l = []
    for i in range(2):
        s = start(i)
        l.append(s)
    m.init_spectra(l)
    for i in range(2):
        l[i].cont_params['valid'] = BOOL('ok' + str(i))
        l[i].cont_params['cont'] = {a: FN('c' + str(i))(w)
                                    for a, w in l[i].forestwave.items()}
        l[i].set_forest_weight(FN('vlss'), FN('eta'))
    return m, l

def stack_code(which):
    m, l = two(which)
    rec = Rec()
    m.stack_spectra(valid_spectra(l), rec)
    return {'added': rec.l, 'residual': m.stacks_residual_flux()}

def stack_spec(which):
    m, l = two(which)
    L = []
    for i in range(2):
        s = l[i]
        if BOOL('ok' + str(i)):
            for a, w in s.forestwave.items():
                c = FN('c' + str(i))(w)
                v = s.forestivar_sm[a]
                q = v / (FN('eta')(w) + v * FN('vlss')(w) * c**2)
                L.append({'wave': w, 'rf': w / (1 + SCAL('z')),
                          'f': q * c * s.forestflux[a],
                          'c': q * c * s.forestflux[a], 'w': q * c**2})
    return {'added': L, 'residual': True}
'''

TRUE = BASE + '''
import qsonic.continuum_models.true_continuum_model as TM

def data():
    w = {'b': ARR('wb'), 'r': ARR('wr')}
    return {'wave': w, 'flux': {a: ARR2('f' + a) for a in w},
            'ivar': {a: ARR2('i' + a) for a in w},
            'mask': {a: ARR2('m' + a) for a in w}, 'reso': {},
            'cont': {'w1': SCAL('t0'), 'dwave': SCAL('td'),
                     'data': np.array([[SCAL('T' + str(i) + str(j))
                                        for j in range(4)]
                                       for i in range(3)])}}

def tstart(i):
    s = forest(Spectrum.from_dictionary(catrow(), data(), i))
    SP.get_smooth_ivar = lambda iv, sig: 1.7 * iv
    s.set_smooth_forestivar(SCAL('sm'))
    return s

def code(i):
    m = TM.TrueContinuumModel(FN('mflux'), FN('vlss'))
    s = tstart(i)
    m.init_spectra([s])
    m.fit_continuum(s)
    rec = Rec()
    m.stack_spectra([s], rec)
    r = out(s)
    del r['x']
    del r['xcov']
    r['added'] = rec.l
    r['residual'] = m.stacks_residual_flux()
    return r

def one(x):
    return 1 + 0 * x

def spec(i):
    s = tstart(i)
    ASSUME(len(s.forestwave) > 0)
    f = FastCubic1DInterp(SCAL('t0'), SCAL('td'), np.array(
        [SCAL('T' + str(i) + str(j)) for j in range(4)]))
    C = {}
    for a, w in s.forestwave.items():
        C[a] = f(w) * FN('mflux')(w)
    W = weights(s, C, one)
    L = []
    for a, w in s.forestwave.items():
        L.append({'wave': w, 'rf': w / (1 + SCAL('z')),
                  'f': W[a] * C[a] * s.forestflux[a],
                  'c': W[a] * C[a]**3, 'w': W[a] * C[a]**2})
    return {'valid': True, 'cont': C, 'chi2': chisq(s, C, W), 'weight': W,
            'dof': nvalid(s), 'method': 'true', 'added': L,
            'residual': False}
'''
INPUT = BASE + '''
import qsonic.continuum_models.input_continuum_model as IM
from qsonic.mathtools import FastCubic1DInterp
NC = 4

class HDU:
    def __init__(self, name, fname):
        self.name = name
        self.fname = fname
    def read(self, columns=None, **k):
        if self.name == 'FIBERMAP':
            return FILE(self.fname)[0]
        return FILE(self.fname)[1]
    def read_header(self):
        return {'WAVE1': SCAL('t0'), 'DWAVE': SCAL('td')}

class FITS:
    def __init__(self, fname, *a):
        self.fname = fname
        MISSING(fname)
    def __getitem__(self, k):
        return HDU(k, self.fname)
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass
    def close(self):
        pass

def MISSING(fname):
    if BOOL('nofile7'):
        if 'continuum-8-7.' in fname:
            raise OSError("no such file")
    if BOOL('nofile5'):
        if 'continuum-8-5.' in fname:
            raise OSError("no such file")

class fake_fitsio:
    @staticmethod
    def FITS(fname, *a, **k):
        return FITS(fname)

def FILE(fname):
    """fiber map and continua of a file: one file per sky pixel"""
    if 'continuum-8-5.' in fname:
        return ARR('fib5'), ARR2('con5')
    return ARR('fib7'), ARR2('con7')

def ang2pix(nside, ra, dec, nest=False, lonlat=False):
    if not nest or not lonlat:
        return np.where(np.array(ra) < 100, 6, 5)
    return np.where(np.array(ra) < 100, 5, 7)

class Nans:
    """an interpolator which may give NaN"""
    def __init__(self, *a, **k):
        pass
    def __call__(self, x):
        return ARR('nanv')[:x.size].copy()

def nan_code():
    IM.FastCubic1DInterp = Nans
    return code(0)

def nan_spec():
    return spec(0, Nans)

def istart(i):
    wave, flux, ivar, mask = raw()
    s = forest(Spectrum(ARR('cat')[i], wave, flux, ivar, mask, {}, i))
    SP.get_smooth_ivar = lambda iv, sig: 1.7 * iv
    s.set_smooth_forestivar(SCAL('sm'))
    s.cont_params['valid'] = BOOL('before')
    return s

def code(k):
    IM.fitsio = fake_fitsio
    IM.ang2pix = ang2pix
    m = IM.InputContinuumModel('dir', FN('mflux'), FN('vlss'), FN('eta'))
    l = [istart(0), istart(1), istart(2)]
    m.init_spectra(l)
    s = l[k]
    m.fit_continuum(s)
    r = out(s)
    del r['x']
    del r['xcov']
    r['residual'] = m.stacks_residual_flux()
    return r

def spec(k, interp=FastCubic1DInterp):
    s = istart(k)
    c = ARR('cat')
    any5 = np.any(c['RA'] < 100)
    any7 = np.any(c['RA'] >= 100)
    bad5 = not BOOL('nofile5') and any5 and len(ARR2('con5')) != 4
    bad7 = not BOOL('nofile7') and any7 and len(ARR2('con7')) != 4
    if bad5 or bad7:
        raise Exception("rows do not match")
    ASSUME(len(s.forestwave) > 0)
    p5 = c['RA'][k] < 100
    fib = ARR('fib5') if p5 else ARR('fib7')
    con = ARR2('con5') if p5 else ARR2('con7')
    tid = c['TARGETID'][k]
    have = np.any(fib == tid)
    if BOOL('nofile7'):
        have = have and p5
    if BOOL('nofile5'):
        have = have and not p5
    row = con[np.argmax(fib == tid)]
    C = {}
    ok = have
    f = interp(SCAL('t0'), SCAL('td'), row)
    for a, w in s.forestwave.items():
        x = f(w / (1 + c['Z'][k]))
        ok = ok and not np.any(x <= 0) and not np.any(np.isnan(x))
        C[a] = x * FN('mflux')(w)
    r = {'valid': ok, 'dof': nvalid(s), 'method': 'input', 'residual': False}
    if ok:
        W = weights(s, C, FN('eta'))
        r['cont'] = C
        r['weight'] = W
        r['chi2'] = chisq(s, C, W)
    else:
        r['cont'] = None
        r['weight'] = s.forestivar_sm
        r['chi2'] = -1
    return r
'''


def _cat(E, rng, r):
    x = np.zeros(3, dtype=[('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'),
                           ('DEC', 'f8'), ('HPXPIXEL', 'i8')])
    x['TARGETID'] = rng.permutation([11, 12, 13])
    if rng.random() < .2:
        x['TARGETID'][2] = x['TARGETID'][0]
    x['Z'] = rng.uniform(2.1, 3.4, 3)
    x['RA'] = rng.choice([50., 150.], 3)
    if rng.random() < .2:
        x['RA'][2] = x['RA'][0]
    x['DEC'] = rng.uniform(-10, 10, 3)
    x['HPXPIXEL'] = rng.integers(0, 90, 3)
    return x


def _fib(E, rng, r):
    return rng.permutation([10, 11, 12, 13, 14])[:4]


def _con(E, rng, r):
    n = 4 if rng.random() < .85 else int(rng.choice([3, 5]))
    x = rng.uniform(.5, 2, size=(n, 4))
    if rng.random() < .3:
        x[rng.integers(n), rng.integers(4)] = -.5
    return x


def _val(E, name):
    return E.gens[name](E, E.rng("sym", name, 0), 0)


def _xfit(E, rng, r):
    """a straight line: often one that changes sign within the forest"""
    m = rng.normal(0, .8)
    if rng.random() < .4:
        return np.array([rng.uniform(-.2, 1.5), m])
    # next to an edge of an arm, or anywhere
    w = np.sort(_val(E, str(rng.choice(["wb", "wr"]))))
    z = 1 + _val(E, "z")
    w = w[(w > max(_val(E, "w1"), z * _val(E, "l1")))
          & (w < min(_val(E, "w2"), z * _val(E, "l2")))]
    if not w.size:
        return np.array([rng.uniform(-.2, 1.5), m])
    w = w[int(rng.choice([0, w.size - 1, rng.integers(w.size)]))]
    w *= 1 + rng.choice([-1e-3, 1e-3])
    y = 2 * np.log(w / z / _val(E, "rf0")) / _val(E, "denom") - 1
    return np.array([-m * y, m])


CG = dict(SPEC_GENS, sm=pick(0., 150.), rf0=uni(1000, 1100),
          denom=uni(.1, .3), xt=arr(.5, 1.5, 2), xfit=_xfit,
          xcov=arr(.1, 1, shape=(2, 2)), t0=uni(3500, 3700),
          td=uni(600, 900), cat=_cat, fib5=_fib, fib7=_fib, con5=_con,
          con7=_con)
CG["xfit2"] = CG["xfit"]
REFIT = ("valid", "cont", "chi2", "x", "xcov", "dof", "method", "weight",
         "x0")
CG.update({f"T{i}{j}": uni(.5, 2) for i in range(3) for j in range(4)})


def _nan(E, rng, r):
    x = rng.uniform(.5, 2, size=60)
    k = rng.random()
    if k < .4:
        x[rng.integers(6)] = np.nan
    elif k < .6:
        x[rng.integers(6)] = rng.choice([-1., 0.])
    return x


CG["nanv"] = _nan
IG = dict(CG, t0=uni(900, 1000), td=uni(150, 220))


def check_C16(rep):
    for which in ("iminuit", "l_bfgs_b"):
        src = PICCA + f'''
def c():
    return code({which!r})
def s():
    return spec({which!r})
'''
        rep.compare(f"picca/{which}", src,
                    "continuum_models.picca_continuum_model:"
                    "PiccaContinuumModel.fit_continuum", code="c", spec="s",
                    gens=CG)
    for which in ("iminuit", "l_bfgs_b"):
        src = PICCA + f'''
def c():
    return refit({which!r})
def s():
    return respec({which!r})
'''
        rep.compare(f"refit/{which}", src,
                    "continuum_models.picca_continuum_model:"
                    "PiccaContinuumModel.fit_continuum", code="c", spec="s",
                    gens=CG, fields=REFIT)
    src = PICCA + '''
def c():
    return stack_code('iminuit')
def s():
    return stack_spec('iminuit')
'''
    rep.compare("picca/stack", src,
                "continuum_models.picca_continuum_model:"
                "PiccaContinuumModel.stack_spectra", code="c", spec="s",
                gens=CG)
    for i in (0, 2):
        src = TRUE + f'''
from qsonic.mathtools import FastCubic1DInterp
def c():
    return code({i})
def s():
    return spec({i})
'''
        rep.compare(f"true/{i}", src,
                    "continuum_models.true_continuum_model:"
                    "TrueContinuumModel.fit_continuum", code="c", spec="s",
                    gens=CG)
    for i in (0, 1, 2):
        src = INPUT + f'''
def c():
    return code({i})
def s():
    return spec({i})
'''
        rep.compare(f"input/{i}", src,
                    "continuum_models.input_continuum_model:"
                    "InputContinuumModel", code="c", spec="s",
                    gens=IG)
    rep.compare("input/nan", INPUT,
                "continuum_models.input_continuum_model:"
                "InputContinuumModel", code="nan_code", spec="nan_spec",
                gens=IG)
