"""Noise and flux calibration of spectra."""
from .common import *

CAL = MK + '''
import qsonic.calibration as K
from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp

NK = 5

def tab(p):
    return np.array([SCAL(p + str(i)) for i in range(NK)])

def knots():
    return np.array([SCAL('k0') + i * SCAL('dk') + (SCAL('off') if i == 3 else 0)
                     for i in range(NK)])

class HDU:
    def __init__(self, d):
        self.d = d
    def read(self, *a, **k):
        return self.d
    def __getitem__(self, k):
        return self.d[k]

class FITS:
    def __init__(self, fname, *a):
        self.h = {'VAR_FUNC': {'lambda': knots(), 'var_lss': tab('v'),
                               'eta': tab('e'), 'e_var_lss': tab('ev'),
                               'e_eta': tab('ee')},
                  'STACKED_FLUX': {'lambda': knots(),
                                   'stacked_flux': tab('s')}}
    def __getitem__(self, k):
        return HDU(self.h[k])
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass

class fake_fitsio:
    @staticmethod
    def FITS(fname, *a):
        return FITS(fname)
    @staticmethod
    def read(fname, ext=None, **k):
        return FITS(fname)[ext].read()

def state(s):
    return {'flux': s.forestflux, 'ivar': s.forestivar,
            'wave': s.forestwave, 'reso': s.forestreso}

def start(i, cont):
    s = forest(mkspec(i, True))
    if cont:
        s.cont_params['cont'] = {a: FN('cont')(w + i)
                                 for a, w in s.forestwave.items()}
    return s

def code_noise(add, noeta, cont):
    K.fitsio = fake_fitsio
    c = K.NoiseCalibrator('f', None, 0, add, noeta)
    S = [start(0, cont), start(1, cont)]
    c.apply(S)
    return {'s0': state(S[0]), 's1': state(S[1])}

def ip(t):
    return FastCubic1DInterp(knots()[0], knots()[1] - knots()[0], t)

def uneven():
    return np.abs(SCAL('off')) > 0.1

def spec_noise(add, noeta, cont):
    if uneven():
        raise Exception('not equally spaced')
    S = [start(0, cont), start(1, cont)]
    if add and not all(s.cont_params['cont'] for s in S):
        raise Exception('no continuum')
    e = tab('e')
    e = np.where(e == 0, 1, e)
    out = {}
    for j in range(2):
        s = S[j]
        o = state(s)
        I = {}
        for a, w in s.forestwave.items():
            i = s.forestivar[a]
            eta = 1 if noeta else ip(e)(w)
            if add:
                v = ip(tab('v'))(w) * s.cont_params['cont'][a]**2
                x = i / (eta + i * v)
                I[a] = np.where(x < 0, 0, x)
            else:
                I[a] = i / eta
        o['ivar'] = I
        out['s' + str(j)] = o
    return out

def code_flux():
    K.fitsio = fake_fitsio
    c = K.FluxCalibrator('f')
    S = [start(0, False), start(1, False)]
    c.apply(S)
    return {'s0': state(S[0]), 's1': state(S[1])}

def spec_flux():
    if uneven():
        raise Exception('not equally spaced')
    t = tab('s')
    t = np.where(t == 0, 1, t)
    out = {}
    S = [start(0, False), start(1, False)]
    for j in range(2):
        s = S[j]
        o = state(s)
        F = {}
        I = {}
        for a, w in s.forestwave.items():
            f = FastLinear1DInterp(knots()[0], knots()[1] - knots()[0], t)(w)
            F[a] = s.forestflux[a] / f
            I[a] = s.forestivar[a] * f**2
        o['flux'] = F
        o['ivar'] = I
        out['s' + str(j)] = o
    return out
'''

GENS = dict(SPEC_GENS, k0=const(3500.), dk=const(420.),
            off=pick(0., 0., 0., 0., 37.))
for _p, _a, _b in (("v", .01, .3), ("e", .7, 1.4), ("s", .8, 1.2)):
    for _i in range(5):
        GENS[_p + str(_i)] = (lambda a, b: lambda E, rng, r: float(
            rng.choice([0., rng.uniform(a, b), rng.uniform(a, b)])))(_a, _b)


for _i in range(5):
    GENS["v" + str(_i)] = lambda E, rng, r: float(
        rng.choice([0., .1, .3, -1.5, -.7]))


def check_C22(rep):
    for add in (False, True):
        for noeta in (False, True):
            for cont in (False, True):
                a = f"{add}, {noeta}, {cont}"
                src = CAL + f'''
def code():
    return code_noise({a})
def spec():
    return spec_noise({a})
'''
                rep.compare(f"noise/{int(add)}{int(noeta)}{int(cont)}", src,
                            "calibration:NoiseCalibrator.apply", gens=GENS)
    rep.compare("flux", CAL, "calibration:FluxCalibrator.apply",
                code="code_flux", spec="spec_flux", gens=GENS)
    rep.also("C07", "exposures steps")
    rep.also("C21", "mpi_continuum_fitting")
