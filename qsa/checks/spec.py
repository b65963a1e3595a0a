from .common import *

C08 = MK + '''
def code():
    i0 = INTSYM('i0')
    s = mkspec(i0)
    return {'flux': s.flux, 'ivar': s.ivar, 'wave': s.wave, 'rsnr': s.rsnr,
            'dwave': s.dwave}

def spec():
    i0 = INTSYM('i0')
    F = {}
    IV = {}
    num = 0
    den = 1e-6
    for a in ARMS:
        f, i = clean(a, i0)
        F[a] = f
        IV[a] = i
        red = ARR('w' + a) >= (1 + SCAL('z')) * 1215.67
        num += np.sum(np.where(red, f * np.sqrt(i), 0))
        den += np.sum(red & (i > 0))
    return {'flux': F, 'ivar': IV, 'wave': {'b': ARR('wb'), 'r': ARR('wr')},
            'rsnr': num / den, 'dwave': ARR('wb')[1] - ARR('wb')[0]}

def code2():
    s = forest(mkspec())
    return {'flux': s.forestflux, 'ivar': s.forestivar,
            'wave': s.forestwave, 'snr': s.mean_snr,
            'x0': s.cont_params['x'][0], 'ism': s.forestivar_sm,
            'weight': s.forestweight, 'n': s.get_real_size(),
            'esnr': s.get_effective_meansnr()}

def code3():
    s = forest(mkspec(0, True))
    return {'wave': s.forestwave, 'reso': s.forestreso}

def spec3():
    s = forest(mkspec(0, True))
    W = {}
    R = {}
    for a in ARMS:
        w, f, i, j1, j2 = cut(a)
        if np.any(i > 0):
            W[a] = w
            R[a] = ARR('R' + a + '@3')[0][:, j1:j2]
    return {'wave': W, 'reso': R}

def spec2():
    W = {}
    F = {}
    IV = {}
    S = {}
    num = 0
    den = 1e-6
    n = 0
    e3 = 0
    e2 = 1e-8
    for a in ARMS:
        w, f, i, j1, j2 = cut(a)
        if np.any(i > 0):
            W[a] = w
            F[a] = f
            IV[a] = i
            S[a] = np.sum(np.sqrt(i) * f) / np.sum(i > 0)
            num += np.sum(np.where(f > 0, f * i, 0))
            den += np.sum(np.where(f > 0, i, 0))
            n += np.sum(i > 0)
            e3 += S[a]**3
            e2 += S[a]**2
    return {'flux': F, 'ivar': IV, 'wave': W, 'snr': S, 'x0': num / den,
            'ism': IV, 'weight': IV, 'n': n, 'esnr': e3 / e2}
'''


def check_C08(rep):
    A = {None: "spectrum:Spectrum.__init__",
         "rsnr": "spectrum:Spectrum._set_rsnr"}
    rep.compare("constructor", C08, A, gens=SPEC_GENS)
    rep.compare("forest", C08, "spectrum:Spectrum.set_forest_region",
                code="code2", spec="spec2", gens=SPEC_GENS)
    # limits that fall on a pixel: first limit in, last limit out
    g = dict(SPEC_GENS, z=uni(2.05, 2.3), w1=pick(3700., 3900., 4000.),
             w2=pick(4200., 4400., 4500.), l1=uni(1000, 1100),
             l2=uni(1500, 1600))
    rep.compare("limits", C08, "spectrum:Spectrum.set_forest_region",
                code="code2", spec="spec2", gens=g,
                fields=("flux", "ivar", "wave"))
    rep.compare("resolution", C08, "spectrum:Spectrum.set_forest_region",
                code="code3", spec="spec3", gens=SPEC_GENS)
    rep.also("C24", "short|arms")
    rep.also("C12", "spectrum$", fields=("flux", "ivar"))
    rep.also("C13", "write/0")
    rep.also("C17", "weight/.1..$")


# ------------------------------------------------------------------ C10
C10 = MK + '''
def state(s):
    return {'wave': s.forestwave, 'flux': s.forestflux, 'ivar': s.forestivar,
            'ism': s.forestivar_sm, 'weight': s.forestweight,
            'reso': s.forestreso, 'cont': s.cont_params['cont']}

def setup(case):
    s = forest(mkspec(0, True))
    if case % 2 == 1:
        s.set_smooth_forestivar(SCAL('sm'))
    if case >= 2:
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {a: ARR('C' + a)[:w.size]
                                 for a, w in s.forestwave.items()}
        s.set_forest_weight(FN('vlss'), FN('eta'))
    return s

def dup(d, cut):
    out = {}
    for k, v in d.items():
        if cut is None:
            out[k] = v.copy()
        else:
            out[k] = v.copy()
    return out

def run(case, op):
    s = setup(case)
    before = {}
    for k, d in state(s).items():
        before[k] = {a: v.copy() for a, v in d.items()}
    j1 = INTSYM('j1')
    j2 = INTSYM('j2')
    if op == 'slice':
        if 'b' in s.forestwave:
            s.slice('b', j1, j2)
    elif op == 'drop':
        s.drop_arm('b')
    elif op == 'short':
        s.drop_short_arms(SCAL('l1'), SCAL('l2'), SCAL('skip'))
    elif op == 'nonforest':
        s.remove_nonforest_pixels()
    return before, state(s), s

def ref(case, op):
    before, after, s = run(case, 'none')
    j1 = INTSYM('j1')
    j2 = INTSYM('j2')
    n = int(SCAL('skip') * ((1 + SCAL('z')) * (SCAL('l2') - SCAL('l1'))
                            / (ARR('wb')[1] - ARR('wb')[0]))) + 1
    out = {}
    for k, d in before.items():
        e = {}
        for a, v in d.items():
            if op == 'slice' and a == 'b':
                e[a] = v[:, j1:j2] if k == 'reso' else v[j1:j2]
            elif op == 'drop' and a == 'b':
                pass
            elif op == 'short':
                if np.sum(before['ivar'][a] > 0) >= n:
                    e[a] = v
            else:
                e[a] = v
        out[k] = e
    return out
'''


def check_C10(rep):
    gens = dict(SPEC_GENS, sm=pick(0., 150., 300.), j1=integers(0, 4),
                j2=integers(3, 8), Cb=arr(.5, 2), Cr=arr(.5, 2),
                skip=uni(0., .8))
    for op, fn in (("slice", "slice"), ("drop", "drop_arm"),
                   ("short", "drop_short_arms"),
                   ("nonforest", "remove_nonforest_pixels")):
        for case in range(4):
            src = C10 + f'''
def code():
    b, a, s = run({case}, {op!r})
    return a
def spec():
    return ref({case}, {op!r})
'''
            rep.compare(f"{op}/{case}", src, "spectrum:Spectrum." + fn,
                        gens=gens)
    rep.compare("nonforest/full", C10 + """
def code():
    b, a, s = run(2, 'nonforest')
    return {'full': [s.wave, s.flux, s.ivar, s.reso]}
def spec():
    return {'full': [{}, {}, {}, {}]}
""", "spectrum:Spectrum.remove_nonforest_pixels", gens=gens)
    rep.also("C08", "forest|resolution")
    rep.also("C12", "forest")
    rep.also("C25", "coadd/[23]")


# ------------------------------------------------------------------ C12
C12 = MK + '''
def grid(waves):
    """common wavelength grid of the arms"""
    d = ARR('wb')[1] - ARR('wb')[0]
    lo = min(waves['b'][0], waves['r'][0])
    hi = max(waves['b'][-1], waves['r'][-1])
    return lo, hi, d

def place(x, w, lo, d, n):
    """values of an arm on the common grid, zero elsewhere"""
    return np.bincount(np.round((w - lo) / d).astype(int), weights=x,
                       minlength=n)

def wmean(waves, F, IV, WT, n, lo, d):
    num = np.zeros(n)
    den = np.zeros(n)
    v = np.zeros(n)
    for a in waves:
        num += place(WT[a] * F[a], waves[a], lo, d, n)
        den += place(WT[a], waves[a], lo, d, n)
        v += place(np.where(IV[a] > 0, WT[a]**2 / np.where(IV[a] > 0, IV[a],
                                                           1), 0),
                   waves[a], lo, d, n)
    has = den > 0
    den1 = np.where(has, den, 1)
    v1 = np.where(has, v, 1)
    return np.where(has, num / den1, 0), np.where(has, den**2 / v1, 0)

def creso(R, waves, WT, n, lo, d, nd):
    """weighted mean resolution; equal tiny weights where nothing is valid"""
    out = []
    den = np.zeros(n)
    for a in waves:
        den += place(np.where(WT[a] == 0, 1e-8, WT[a]), waves[a], lo, d, n)
    den = np.where(den > 0, den, 1)
    for k in range(nd):
        num = np.zeros(n)
        for a in waves:
            p = (nd - {'b': 5, 'r': 3}[a]) // 2
            if k >= p and k < nd - p:
                num += place(np.where(WT[a] == 0, 1e-8, WT[a]) * R[a][k - p],
                             waves[a], lo, d, n)
        out.append(num / den)
    return out

# ---- whole spectrum
def code():
    s = mkspec(0, True)
    s.simple_coadd()
    r = s.reso['brz']
    return {'wave': s.wave, 'flux': s.flux, 'ivar': s.ivar,
            'reso0': r[0], 'reso1': r[1], 'reso2': r[2], 'reso3': r[3],
            'reso4': r[4], 'rkeys': list(s.reso.keys())}

def spec():
    waves = {'b': ARR('wb'), 'r': ARR('wr')}
    lo, hi, d = grid(waves)
    n = int(round((hi - lo) / d)) + 1
    F = {}
    IV = {}
    for a in ARMS:
        F[a], IV[a] = clean(a)
    f, i = wmean(waves, F, IV, IV, n, lo, d)
    R = {'b': ARR('Rb@3')[0], 'r': ARR('Rr@3')[0]}
    r = creso(R, waves, IV, n, lo, d, 5)
    return {'wave': {'brz': lo + d * np.arange(n)}, 'flux': {'brz': f},
            'ivar': {'brz': i}, 'reso0': r[0], 'reso1': r[1], 'reso2': r[2],
            'reso3': r[3], 'reso4': r[4], 'rkeys': ['brz']}

# ---- forest, with and without a continuum
def fr(cont):
    s = forest(mkspec(0, True))
    if cont:
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {a: FN('cont')(w)
                                 for a, w in s.forestwave.items()}
        s.set_forest_weight(FN('vlss'), FN('eta'))
    ASSUME('b' in s.forestwave)
    ASSUME('r' in s.forestwave)
    return s

def res(s, cont):
    r = s.forestreso['brz']
    out = {'wave': s.forestwave, 'flux': s.forestflux,
           'ivar': s.forestivar, 'ism': s.forestivar_sm,
           'weight': s.forestweight, 'snr': s.mean_snr,
           'reso0': r[0], 'reso1': r[1], 'reso2': r[2],
           'reso3': r[3], 'reso4': r[4]}
    if cont:
        out['cont'] = s.cont_params['cont']
    return out

def code_f(cont):
    s = fr(cont)
    s.coadd_arms_forest(FN('vlss'), FN('eta'))
    return res(s, cont)

def spec_f(cont):
    s = fr(cont)
    waves = {}
    F = {}
    IV = {}
    W = {}
    C = {}
    R = {}
    for a in ARMS:
        w, f, i, j1, j2 = cut(a)
        waves[a] = w
        F[a] = f
        IV[a] = i
        R[a] = ARR('R' + a + '@3')[0][:, j1:j2]
        W[a] = i
        if cont:
            C[a] = FN('cont')(w)
            W[a] = i / (FN('eta')(w) + i * FN('vlss')(w) * C[a]**2)
    lo, hi, d = grid(waves)
    n = int(round((hi - lo) / d)) + 1
    f, i = wmean(waves, F, IV, W, n, lo, d)
    cw = lo + d * np.arange(n)
    wt = i
    c = np.zeros(n)
    if cont:
        cov = np.zeros(n)
        for a in ARMS:
            cov += place(np.ones(waves[a].size), waves[a], lo, d, n)
        c = np.where(cov > 0, FN('cont')(cw), 0)
        wt = i / (FN('eta')(cw) + i * FN('vlss')(cw) * c**2)
    r = creso(R, waves, W, n, lo, d, 5)
    out = {'wave': {'brz': cw}, 'flux': {'brz': f}, 'ivar': {'brz': i},
           'ism': {'brz': i}, 'weight': {'brz': wt},
           'snr': {'brz': np.sum(np.sqrt(i) * f) / np.sum(i > 0)},
           'reso0': r[0], 'reso1': r[1], 'reso2': r[2],
           'reso3': r[3], 'reso4': r[4]}
    if cont:
        out['cont'] = {'brz': c}
    return out

def code_f0():
    return code_f(False)
def spec_f0():
    return spec_f(False)
def code_f1():
    return code_f(True)
def spec_f1():
    return spec_f(True)
'''


def check_C12(rep):
    g = SPEC_GENS
    rep.compare("spectrum", C12, "spectrum:Spectrum.simple_coadd", gens=g)
    a = "spectrum:Spectrum.coadd_arms_forest"
    rep.compare("forest", C12, a, code="code_f0", spec="spec_f0", gens=g)
    rep.compare("forest-cont", C12, a, code="code_f1", spec="spec_f1",
                gens=g)


# ------------------------------------------------------------------ C13
SINK = '''
class DT():
    def __init__(self, names):
        self.names = names

class Row():
    """catalog row with known columns"""
    def __init__(self, d):
        self.d = d
        self.dtype = DT(tuple(d.keys()))
    def __getitem__(self, k):
        return self.d[k]

def row(extra):
    d = {'TARGETID': INTSYM('tid'), 'Z': SCAL('z'), 'RA': SCAL('ra'),
         'DEC': SCAL('dec'), 'HPXPIXEL': INTSYM('hpx')}
    for k in extra:
        d[k] = INTSYM('cat_' + k)
    return Row(d)

class Sink():
    """stands for an open FITS file: keeps what is written"""
    def __init__(self):
        self.out = []
        self.names = {}
    def write(self, data, names=None, header=None, extname=None, **kw):
        c = {}
        for i in range(len(names)):
            c[names[i]] = data[i]
            self.names[names[i]] = len(self.out)
        h = {}
        for k in (header or {}):
            h[k] = header[k]
        self.out.append({'cols': VALUE(c), 'header': VALUE(h),
                         'ext': extname, 'n': len(data), 'm': len(names)})
'''

C13 = MK + SINK + '''
class NS():
    pass

def build(extra, reso, sm):
    wave, flux, ivar, mask = raw()
    rr = {}
    if reso:
        rr = {'b': ARR('Rb@3'), 'r': ARR('Rr@3')}
    s = Spectrum(row(extra), wave, flux, ivar, mask, rr, 0)
    forest(s)
    if sm:
        s.set_smooth_forestivar(SCAL('sm'))
    s.cont_params['valid'] = True
    s.cont_params['cont'] = {a: FN('cont')(w)
                             for a, w in s.forestwave.items()}
    s.set_forest_weight(FN('vlss'), FN('eta'))
    return s

def blind():
    a = NS()
    a.mock_analysis = BOOL('mock')
    a.forest_w1 = SCAL('fw1')
    a.forest_w2 = SCAL('fw1') + SCAL('fdw')
    a.wave1 = 3600.
    a.wave2 = 6000.
    Spectrum.set_blinding(SCAL('night'), a)

def meanreso(a, w, wt, j1, j2):
    """velocity width of the weighted mean resolution, from the fall-off of
    its pixels next to the maximum"""
    R = ARR('R' + a + '@3')[0][:, j1:j2]
    m = [np.sum(R[k] * wt) / np.sum(wt) for k in range({'b': 7, 'r': 5}[a])]
    lam = np.sum(w * wt) / np.sum(wt)
    c = {'b': 3, 'r': 2}[a]
    tot = 0
    n = 0
    for k in (-2, -1, 1, 2):
        q = np.log(m[c] / m[c + k])
        tot += np.where(q > 0, abs(k) / np.sqrt(2 * np.where(q > 0, q, 1)), 0)
        n += np.where(q > 0, 1, 0)
    return tot / n * 3e5 * (ARR('wb')[1] - ARR('wb')[0]) / lam

def run(extra, reso, sm, times):
    blind()
    s = build(extra, reso, sm)
    f = Sink()
    for _ in range(times):
        s.write(f)
    return f.out

def ref(extra, reso, sm, times):
    s = build(extra, reso, sm)
    n = SCAL('night')
    if BOOL('mock') or SCAL('fw1') > 1215.67 or n < 20210514:
        name = 'DELTA'
        lab = 'none'
    else:
        name = 'DELTA_BLIND'
        lab = ('desi_m2' if n < 20210801 else
               'desi_y1' if n < 20220801 else 'desi_y3')
    out = []
    for _ in range(times):
        for a in s.forestwave:
            w, f, i, j1, j2 = cut(a)
            c = FN('cont')(w)
            snr = np.sum(np.sqrt(i) * f) / np.sum(i > 0)
            if snr != 0:
                cols = {'LAMBDA': w,
                        name: np.where(i == 0, 0, f / c - 1),
                        'IVAR': i * c**2,
                        'WEIGHT': s.forestweight[a] * c**2,
                        'CONT': c}
                h = {'LOS_ID': INTSYM('tid'), 'TARGETID': INTSYM('tid'),
                     'RA': np.radians(SCAL('ra')),
                     'DEC': np.radians(SCAL('dec')),
                     'Z': SCAL('z'), 'BLINDING': lab,
                     'WAVE_SOLUTION': 'lin', 'MEANSNR': snr,
                     'RSNR': s.rsnr,
                     'DELTA_LAMBDA': ARR('wb')[1] - ARR('wb')[0],
                     'SMSCALE': SCAL('sm') if sm else 0}
                e = ''
                for k in extra:
                    if k != 'OTHER':
                        h[k] = INTSYM('cat_' + k)
                    if k == 'EXPID':
                        e = f"-{INTSYM('cat_EXPID')}"
                if reso:
                    cols['RESOMAT'] = s.forestreso[a].T
                    h['MEANRESO'] = meanreso(a, w, s.forestweight[a], j1, j2)
                out.append({'cols': VALUE(cols), 'header': VALUE(h),
                            'ext': f"{INTSYM('tid')}-{a}{e}",
                            'n': len(cols), 'm': len(cols)})
    return out
'''

BLIND_GENS = dict(mock=lambda E, rng, r: bool(rng.random() < .2),
                  fw1=pick(1040., 1050., 1216., 1215.67, 1400., 1215.),
                  fdw=pick(60., 130., 600.), night=pick(20200101, 20210513, 20210514, 20210515,
                             20210731, 20210801, 20210802, 20220731,
                             20220801, 20220802, 20230101))


def peaked(nd):
    """resolution with its maximum in the middle"""
    def g(E, rng, r):
        k = np.abs(np.arange(nd) - nd // 2)[None, :, None]
        return np.exp(-k**2 * rng.uniform(.2, 1, size=(3, nd, N)))
    return g


def check_C13(rep):
    g = dict(SPEC_GENS, sm=uni(100., 300.), **BLIND_GENS)
    g.update(Rb=peaked(7), Rr=peaked(5))
    cases = [((), False, False, 1), ((), True, True, 1),
             (("EXPID", "NIGHT", "TILEID", "FIBER", "PETAL_LOC", "OTHER"),
              False, True, 1), ((), True, False, 2)]
    for k, c in enumerate(cases):
        a = ", ".join(map(repr, c))
        src = C13 + f'''
def code():
    return {{'hdus': run({a})}}
def spec():
    return {{'hdus': ref({a})}}
'''
        rep.compare(f"write/{k}", src, "spectrum:Spectrum.write", gens=g)


# ------------------------------------------------------------------ C11
C11 = MK + SINK + '''
def two():
    wave, flux, ivar, mask = raw()
    rr = {'b': ARR('Rb@3'), 'r': ARR('Rr@3')}
    r2 = {'b': ARR2('Pb'), 'r': ARR2('Pr')}
    one = Spectrum(row([]), wave, flux, ivar, mask, rr, 0)
    two = Spectrum(row([]), wave, flux, ivar, mask, rr, 1)
    three = Spectrum(row([]), wave, flux, ivar, mask, r2, 1)
    four = Spectrum(row([]), wave, flux, ivar, mask, r2, 0)
    return one, two, three, four, [wave, flux, ivar, mask, rr, r2]

def snap(s):
    return VALUE({'flux': s.flux, 'ivar': s.ivar, 'reso': s.reso,
            'wave': s.wave,
            'fw': s.forestwave, 'ff': s.forestflux, 'fi': s.forestivar,
            'fs': s.forestivar_sm, 'fwt': s.forestweight,
            'fr': s.forestreso, 'snr': s.mean_snr, 'rsnr': s.rsnr,
            'valid': s.cont_params['valid'], 'x': s.cont_params['x'],
            'xcov': s.cont_params['xcov'], 'chi2': s.cont_params['chi2'],
            'dof': s.cont_params['dof'], 'cont': s.cont_params['cont'],
            'method': s.cont_params['method']})

def scribble(s, how):
    if how == 0:
        for a in list(s.flux.keys()):
            s.flux[a][:] = 7
            s.ivar[a][:] = 7
            s.reso[a][:] = 7
    for a in list(s.forestflux.keys()):
        s.forestflux[a][:] = 9
        s.forestivar[a][:] = 9
        s.forestwave[a][:] = 9
        s.forestreso[a][:] = 9
    s.cont_params['x'][:] = 5
    s.cont_params['xcov'][:] = 5
    s.cont_params['valid'] = True
    s.cont_params['cont']['b'] = 3
    s.drop_arm('r')

def code():
    one, two_, three, four, raw_ = two()
    for s in [one, two_, three, four]:
        forest(s)
    a = [snap(two_), snap(four), VALUE(raw_)]
    scribble(one, 0)
    scribble(three, 0)
    b = [snap(two_), snap(four), VALUE(raw_)]
    return {'spectra': b[:2], 'inputs': b[2]}

def spec():
    one, two_, three, four, raw_ = two()
    for s in [one, two_, three, four]:
        forest(s)
    a = [snap(two_), snap(four), VALUE(raw_)]
    return {'spectra': a[:2], 'inputs': a[2]}

# changing the forest leaves the full spectrum alone
def code2():
    one, two_, three, four, raw_ = two()
    forest(one)
    scribble(one, 1)
    return {'flux': one.flux, 'ivar': one.ivar, 'reso': one.reso,
            'wave': one.wave}

def spec2():
    one, two_, three, four, raw_ = two()
    forest(one)
    return {'flux': one.flux, 'ivar': one.ivar, 'reso': one.reso,
            'wave': one.wave}

# reading operations change nothing
def setup3():
    one, two_, three, four, raw_ = two()
    s = forest(one)
    s.set_smooth_forestivar(SCAL('sm'))
    s.cont_params['valid'] = True
    s.cont_params['cont'] = {a: FN('cont')(w)
                             for a, w in s.forestwave.items()}
    s.set_forest_weight(FN('vlss'), FN('eta'))
    return s

def code3():
    s = setup3()
    s.write(Sink())
    for a in s.forestwave:
        s.mean_resolution(a)
    s.get_real_size()
    s.is_long(SCAL('dl'), SCAL('sk'))
    s.get_effective_meansnr()
    return {'state': snap(s), 'names': VALUE(Spectrum._fits_colnames)}

def spec3():
    s = setup3()
    return {'state': snap(s), 'names': VALUE(Spectrum._fits_colnames)}

# weights and smoothing leave flux, ivar and continuum alone
def pick3(s):
    return {'ff': s.forestflux, 'fi': s.forestivar, 'fw': s.forestwave,
            'fr': s.forestreso, 'cont': s.cont_params['cont']}

def code4():
    s = setup3()
    s.set_smooth_forestivar(SCAL('sm2'))
    s.set_forest_weight(FN('vlss2'), FN('eta2'))
    s.calc_continuum_chi2()
    s.set_forest_weight()
    return pick3(s)

def spec4():
    s = setup3()
    return pick3(s)

# coadding one spectrum leaves the other alone, also its wavelength grid
def code5():
    one, two_, three, four, raw_ = two()
    forest(one)
    forest(two_)
    ASSUME('b' in one.forestwave and 'r' in one.forestwave)
    one.coadd_arms_forest()
    three.simple_coadd()
    one.remove_nonforest_pixels()
    return {'other': snap(two_), 'inputs': VALUE(raw_)}

def spec5():
    one, two_, three, four, raw_ = two()
    forest(one)
    forest(two_)
    ASSUME('b' in one.forestwave and 'r' in one.forestwave)
    return {'other': snap(two_), 'inputs': VALUE(raw_)}
'''


def check_C11(rep):
    g = dict(SPEC_GENS, sm=uni(100., 300.), sm2=pick(0., -1., 200.),
             Pb=arr(.1, 1, shape=(5, N)), Pr=arr(.1, 1, shape=(3, N)))
    rep.compare("between-spectra", C11, "spectrum:Spectrum.__init__", gens=g)
    rep.compare("forest-vs-full", C11, "spectrum:Spectrum.set_forest_region",
                code="code2", spec="spec2", gens=g)
    rep.compare("read-only", C11, "spectrum:Spectrum.write",
                code="code3", spec="spec3", gens=g)
    rep.compare("weights", C11, "spectrum:Spectrum.set_forest_weight",
                code="code4", spec="spec4", gens=g)
    rep.compare("coadd", C11, "spectrum:Spectrum.coadd_arms_forest",
                code="code5", spec="spec5", gens=g)
    from . import maskchk
    maskchk.isolation(rep)
    rep.also("C22", "noise/101|flux")
    rep.also("C07", "exposures a")


# ------------------------------------------------------------------ C17
C17 = MK + '''
def build(sm):
    s = forest(mkspec())
    if sm:
        s.set_smooth_forestivar(SCAL('sm'))
    return s

def smooth(i):
    """reference smoothing: error smoothed by a Gaussian, masked stay 0"""
    from qsonic.mathtools import get_smooth_ivar
    return get_smooth_ivar(i, SCAL('sm') / (ARR('wb')[1] - ARR('wb')[0]))

def code(sm, valid, cont, deflt):
    s = build(sm)
    s.cont_params['valid'] = valid
    s.cont_params['cont'] = {}
    if cont:
        s.cont_params['cont'] = {a: FN('cont')(w)
                                 for a, w in s.forestwave.items()}
    if deflt:
        s.set_forest_weight()
    else:
        s.set_forest_weight(FN('vlss'), FN('eta'))
    c2 = s.calc_continuum_chi2()
    return {'weight': s.forestweight, 'chi2': c2,
            'stored': s.cont_params['chi2'],
            'ivar': s.forestivar, 'sm': s.forestivar_sm}

def spec(sm, valid, cont, deflt):
    s = build(False)
    W = {}
    S = {}
    chi2 = 0
    for a in s.forestwave:
        w, f, i, j1, j2 = cut(a)
        q = smooth(i) if sm else i
        S[a] = q
        W[a] = q
        if valid and cont:
            c = FN('cont')(w)
            if deflt:
                W[a] = q
            else:
                W[a] = q / (FN('eta')(w) + q * FN('vlss')(w) * c * c)
            chi2 += np.sum(W[a] * (f - c) * (f - c))
    if not valid or not cont:
        chi2 = -1
    elif len(s.forestwave) == 0:
        chi2 = -1
    return {'weight': W, 'chi2': chi2, 'stored': chi2,
            'ivar': s.forestivar, 'sm': S}
'''

STEPS = C17 + '''
def out(s):
    return {'weight': s.forestweight, 'sm': s.forestivar_sm,
            'ivar': s.forestivar, 'chi2': s.cont_params['chi2']}

def code1():
    s = build(True)
    return out(s)

def code2():
    s = build(True)
    s.set_smooth_forestivar(SCAL('sm2'))
    return out(s)

def code3():
    s = build(False)
    s.cont_params['valid'] = True
    s.cont_params['cont'] = {a: FN('cont')(w)
                             for a, w in s.forestwave.items()}
    s.set_forest_weight(FN('vlss'), FN('eta'))
    s.calc_continuum_chi2()
    s.cont_params['valid'] = False
    s.set_forest_weight(FN('vlss'), FN('eta'))
    s.calc_continuum_chi2()
    return out(s)

def ref(sm):
    s = build(False)
    S = {}
    I = {}
    for a in s.forestwave:
        w, f, i, j1, j2 = cut(a)
        I[a] = i
        S[a] = smooth(i) if sm else i
    return {'weight': S, 'sm': S, 'ivar': I, 'chi2': -1}

def spec1():
    return ref(True)

def spec2():
    return ref(False)
'''

SMOOTH = '''
import numpy as np
from qsonic.mathtools import get_smooth_ivar, fft_gaussian_smooth
def code():
    return {'ivar': get_smooth_ivar(ARR('iv'), SCAL('sig')),
            'g': fft_gaussian_smooth(ARR('x'), SCAL('sig'))}

def gauss(e, sig):
    p = max(1, int(3 * sig))
    n = e.size + 2 * p
    k = np.fft.rfftfreq(n)
    y = np.fft.irfft(np.fft.rfft(np.pad(e, p, mode='edge'))
                     * np.exp(-0.5 * k * k * sig * sig), n=n)
    return y[p:n - p]

def spec():
    i = ARR('iv')
    ok = i > 0
    err = 1 / np.sqrt(np.where(ok, i, 1))
    med = np.median(err[ok])
    dev = np.abs(err - med)
    mad = 1.4826 * np.median(dev[ok])
    e = np.where(ok, err, med)
    noisy = e - med > 3.5 * mad
    sm = np.where(noisy, e, gauss(np.where(noisy, med, e), SCAL('sig')))
    return {'ivar': np.where(ok, 1 / (sm * sm), 0),
            'g': gauss(ARR('x'), SCAL('sig'))}
'''


def _ivs(E, rng, r):
    n = 12 + E.seed % 2
    x = rng.uniform(.5, 2, size=n)
    x[rng.random(n) < .3] = 0
    x[rng.random(n) < .15] = 1e-3
    x[3] = 1.
    return x


def check_C17(rep):
    g = dict(SPEC_GENS, sm=uni(100., 300.))
    for sm in (False, True):
        for valid in (False, True):
            for cont in (False, True):
                for d in (False, True):
                    src = C17 + f'''
def c():
    return code({sm}, {valid}, {cont}, {d})
def s():
    return spec({sm}, {valid}, {cont}, {d})
'''
                    rep.compare(
                        f"weight/{int(sm)}{int(valid)}{int(cont)}{int(d)}",
                        src, "spectrum:Spectrum.set_forest_weight", code="c",
                        spec="s", gens=g)
    g["sm2"] = pick(0., -1.)
    fn = "spectrum:Spectrum.set_smooth_forestivar"
    rep.compare("smoothed", STEPS, fn, code="code1", spec="spec1", gens=g)
    rep.compare("unsmoothed", STEPS, fn, code="code2", spec="spec2", gens=g)
    rep.compare("invalidated", STEPS, "spectrum:Spectrum.calc_continuum_chi2",
                code="code3", spec="spec2", gens=g)
    rep.also("C08", "forest|constructor", fields=("snr", "esnr", "rsnr"))
    rep.also("C12", "forest", fields=("ism", "weight", "snr"))
    rep.also("C21", "mpi_continuum_fitting")
    rep.compare("smooth", SMOOTH, "mathtools:get_smooth_ivar",
                gens=dict(iv=_ivs, sig=uni(.2, 4.), x=lambda E, rng, r:
                          rng.uniform(0, 2, size=8 + E.seed % 5)))
