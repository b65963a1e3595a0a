"""Masks: only flux and ivar of the intended pixels change."""
from .common import *

SKY = MK + '''
import qsonic.masks as M

def sky_table(fname, names=None):
    return ARR('tab')

def snap(s):
    return {'flux': s.forestflux, 'ivar': s.forestivar,
            'wave': s.forestwave, 'reso': s.forestreso,
            'ism': s.forestivar_sm, 'weight': s.forestweight,
            'cont': s.cont_params['cont']}

def start():
    s = forest(mkspec(0, True))
    return s

def code():
    M.asread = sky_table
    m = M.SkyMask('f')
    s = start()
    m.apply(s)
    return snap(s)

def spec():
    s = start()
    o = snap(s)
    F = {}
    I = {}
    tab = ARR('tab')
    for a in s.forestwave:
        w = s.forestwave[a]
        hit = np.zeros(w.size, dtype=bool)
        for i in range(3):
            lo = tab['wave_min'][i]
            hi = tab['wave_max'][i]
            obs = (w >= lo) & (w < hi)
            q = w / (1 + SCAL('z'))
            rf = (q >= lo) & (q < hi)
            hit = hit | ((tab['frame'][i] == 'OBS') & obs)
            hit = hit | ((tab['frame'][i] == 'RF') & rf)
        F[a] = np.where(hit, 0, s.forestflux[a])
        I[a] = np.where(hit, 0, s.forestivar[a])
    o['flux'] = F
    o['ivar'] = I
    # not smoothed yet: both are the pipeline inverse variance
    o['ism'] = I
    o['weight'] = I
    return o
'''


def zdet(E, rng=None, r=None):
    return 2.1 + 1.3 * (h(E.seed) % 997) / 997


NP = 36
STEP = 24.
FINE = dict(
    SPEC_GENS, z=zdet, l1=uni(800, 1100), l2=uni(1150, 1600), w2=uni(4300, 5600),
    wb=lambda E, rng, r: 3600. + STEP * np.arange(NP),
    wr=lambda E, rng, r: 3600. + STEP * (h(E.seed) % 30 + np.arange(NP)),
    fb=lambda E, rng, r: flux(E, rng, r, NP),
    fr=lambda E, rng, r: flux(E, rng, r, NP),
    ib=lambda E, rng, r: ivar(E, rng, r, NP),
    ir=lambda E, rng, r: ivar(E, rng, r, NP),
    mb=lambda E, rng, r: bits(E, rng, r, NP),
    mr=lambda E, rng, r: bits(E, rng, r, NP),
    Rb=arr(.1, 1, shape=(3, 5, NP)), Rr=arr(.1, 1, shape=(3, 3, NP)))


def skytab(E, rng, r):
    """intervals whose edges fall on, just beside or between pixels"""
    x = np.zeros(3, dtype=[('type', 'U4'), ('wave_min', 'f8'),
                           ('wave_max', 'f8'), ('frame', 'U3')])
    one_z = 1 + zdet(E)
    for i in range(3):
        fr = rng.choice(['RF', 'OBS', 'OBS', 'RF', 'RF', 'XX'])
        lo = 3600 + STEP * int(rng.integers(-3, NP + 3))
        hi = lo + STEP * int(rng.integers(0, 9))
        lo += rng.choice([-1e-3, 1e-3, 0, 5.])
        hi += rng.choice([-1e-3, 1e-3, 0, 5.])
        if fr == 'RF':
            if lo == round(lo):
                lo += 1e-4
            if hi == round(hi):
                hi += 1e-4
            lo, hi = lo / one_z, hi / one_z
        x[i] = ('s', lo, max(lo, hi), fr)
    return x


BAL = SKY + '''
LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
         1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]
C = 299792.458

def bstart():
    s = forest(mkspec(0, True))
    s.catrow['VMIN_CIV_450'] = ARR('n1')
    s.catrow['VMAX_CIV_450'] = ARR('x1')
    s.catrow['VMIN_CIV_2000'] = ARR('n2')
    s.catrow['VMAX_CIV_2000'] = ARR('x2')
    return s

def bcode():
    s = bstart()
    M.BALMask.apply(s)
    return snap(s)

def bspec():
    s = bstart()
    o = snap(s)
    F = {}
    I = {}
    for a in s.forestwave:
        w = s.forestwave[a]
        hit = np.zeros(w.size, dtype=bool)
        for p in ('1', '2'):
            for j in range(2):
                n = ARR('n' + p)[j]
                x = ARR('x' + p)[j]
                on = (n > 0) & (x > 0)
                c = np.array(LINES)[:, None] * (1 + SCAL('z'))
                m = ((w >= c * (1 - max(n, x) / C))
                     & (w < c * (1 - min(n, x) / C)))
                hit = hit | (on & np.any(m, axis=0))
        F[a] = np.where(hit, 0, s.forestflux[a])
        I[a] = np.where(hit, 0, s.forestivar[a])
    o['flux'] = F
    o['ivar'] = I
    o['ism'] = I
    o['weight'] = I
    return o
'''


def _bal(k, hi):
    """velocity limits; two of the four troughs are real"""
    def g(E, rng, r):
        q = np.random.default_rng(h(E.seed))
        on = q.permutation(4) < 2
        lo = q.uniform(200, 9000, size=4)
        up = lo + q.choice([450, 2000, 8000, 30000], size=4) * q.uniform(
            .5, 1, size=4)
        bad = q.integers(0, 3, size=4)
        for i in range(4):
            if not on[i]:
                lo[i] = -1 if bad[i] < 2 else 0
                if bad[i] != 1:
                    up[i] = -1 if bad[i] == 0 else 0
        if q.random() < .25:       # limits given the other way round
            lo, up = up, lo
        v = up if hi else lo
        return v[:2] if k == 1 else v[2:]
    return g


BLINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
          1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


def _narrow(E):
    """limits of a narrow trough, and where it is found of some line"""
    q = np.random.default_rng(h(E.seed) + 3)
    lo = q.uniform(100, 3000)
    hi = lo + q.uniform(300, 600)
    one_z = 1 + 2.1 + 1.3 * (h(E.seed) % 997) / 997
    c = BLINES[E.seed % len(BLINES)] * one_z
    return lo, hi, c * (1 - hi / 299792.458) - q.uniform(5, 60)


def _narrow_lim(k, hi):
    def g(E, rng, r):
        lo, up, _ = _narrow(E)
        v = up if hi else lo
        first = h(E.seed + 9) % 2
        return np.array([v, -1.]) if (first == 0) == (k == 1) else \
            np.array([-1., 0.])
    return g


def _narrow_wave(E, rng, r):
    return _narrow(E)[2] + 3. * np.arange(NP)


DLA = SKY + '''
class HDU:
    def __init__(self, names):
        self.names = names
    def get_colnames(self):
        return self.names
    def read(self, columns=None):
        if 'Z_DLA' in self.names:
            return ARR('dlas2')[columns]
        return ARR('dlas')[columns]

class FITS:
    def __init__(self, names):
        self.names = names
    def __getitem__(self, k):
        if k != 'DLACAT':
            raise KeyError(k)
        return HDU(self.names)
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass

class fake_fitsio:
    @staticmethod
    def FITS(fname, *a):
        return FITS(COLS)

COLS = ['TARGETID', 'Z', 'NHI', 'OTHER']

def dother(cols):
    """other names of the redshift column"""
    COLS.clear()
    for c in cols:
        COLS.append(c)
    M.fitsio = fake_fitsio
    s = start()
    M.DLAMask('f', None).apply(s)
    return snap(s)

def dcode(local):
    M.fitsio = fake_fitsio
    s = start()
    lt = None
    if local:
        lt = ARR('ltid')
    m = M.DLAMask('f', lt)
    m.apply(s)
    return snap(s)

def dagain():
    """exposures of one target"""
    M.fitsio = fake_fitsio
    m = M.DLAMask('f', None)
    m.apply(start())
    s = start()
    m.apply(s)
    return snap(s)

def tau1(x, l, f, A, N):
    b = 10.
    c = 299792.458
    qe = 4.803204e-10
    me = 9.109384e-28
    a12 = np.pi * qe**2 / me / (c * 1e5) * f
    g = A * l * 1e-8 / 4 / np.pi / (c * 1e5)
    s = b / c
    u = (x / l - 1) / s
    a = g / s
    P = u * u + 1e-12
    Q = 1.5 / P
    R = np.exp(-P)
    H = R - a / P / 1.77245385091 * (R * R * (4 * P * P + 7 * P + 4 + Q)
                                     - Q - 1)
    return H * a12 * 10**(N - 13) * (l / b) / 1.77245385091

def pcode():
    a = M.DLAMask.get_dla_flux(ARR('pw'), SCAL('pz'), SCAL('pn'))
    b = M.DLAMask.get_dla_flux(ARR('pw'), SCAL('pz'), SCAL('pn'), 10.)
    return {'flux': a, 'b': b}

def pspec():
    x = ARR('pw') / (1 + SCAL('pz'))
    n = SCAL('pn')
    f = np.exp(-tau1(x, 1215.67, 4.1641e-01, 6.2648e+08, n)
               - tau1(x, 1025.7220, 7.9142e-02, 1.6725e+08, n))
    return {'flux': f, 'b': f}

def dspec(local):
    s = start()
    o = snap(s)
    F = {}
    I = {}
    tab = ARR('dlas')
    z = SCAL('z')
    for a in s.forestwave:
        w = s.forestwave[a]
        t = np.zeros(w.size)
        for i in range(5):
            mine = tab['TARGETID'][i] == INTSYM('tid')
            if local:
                mine = mine & np.any(ARR('ltid') == tab['TARGETID'][i])
            x = w / (1 + tab['Z'][i])
            n = tab['NHI'][i]
            e = (tau1(x, 1215.67, 4.1641e-01, 6.2648e+08, n)
                 + tau1(x, 1025.7220, 7.9142e-02, 1.6725e+08, n))
            t = t + np.where(mine, 1., 0.) * e
        T = np.where(w < (1 + z) * 1215.67, np.exp(-t), 1)
        low = T < 0.8
        F[a] = np.where(low, 0, s.forestflux[a] / np.where(low, 1, T))
        I[a] = np.where(low, 0, s.forestivar[a] * T**2)
    o['flux'] = F
    o['ivar'] = I
    o['ism'] = I
    o['weight'] = I
    return o
'''


def dlas(E, rng, r):
    x = np.zeros(5, dtype=[('TARGETID', 'i8'), ('Z', 'f8'), ('NHI', 'f8'),
                           ('OTHER', 'f8')])
    x['TARGETID'] = [int(rng.integers(11, 15)) for _ in range(5)]
    x['Z'] = rng.uniform(1.9, 3.3, size=5)
    x['NHI'] = rng.uniform(19.5, 21.5, size=5)
    return x


def _line(E, rng, r):
    """wavelengths within a few Doppler widths of the two lines"""
    z = 2 + (h(E.seed) % 97) / 97
    x = rng.choice([1215.67, 1025.722], size=8)
    return x * (1 + z) * (1 + rng.normal(0, 5e-5, size=8))


def check_C09(rep):
    rep.compare("dla profile", DLA, "masks:DLAMask.get_dla_flux",
                code="pcode", spec="pspec", gens=dict(
                    FINE, pw=_line, pn=uni(11.5, 14.5),
                    pz=lambda E, rng, r: 2 + (h(E.seed) % 97) / 97))
    g = dict(FINE, tab=skytab)
    rep.compare("sky", SKY, "masks:SkyMask.apply", gens=g)
    g = dict(FINE, n1=_bal(1, False), n2=_bal(2, False),
             x1=_bal(1, True), x2=_bal(2, True))
    rep.compare("bal", BAL, "masks:BALMask.apply", code="bcode",
                spec="bspec", gens=g)
    g = dict(FINE, n1=_narrow_lim(1, False), n2=_narrow_lim(2, False),
             x1=_narrow_lim(1, True), x2=_narrow_lim(2, True),
             wb=_narrow_wave, w1=const(2500.), w2=const(9000.),
             l1=const(700.), l2=const(1900.))
    rep.compare("bal lines", BAL, "masks:BALMask.apply", code="bcode",
                spec="bspec", gens=g)
    g = dict(FINE, dlas=dlas, tid=integers(11, 15),
             ltid=lambda E, rng, r: rng.permutation(np.arange(10, 16))[:4])
    for loc in (0, 1):
        src = DLA + f"""
def code():
    return dcode({loc})
def spec():
    return dspec({loc})
"""
        rep.compare(f"dla/{loc}", src, "masks:DLAMask.apply", gens=g)
    rep.compare("dla/again", DLA + """
def code():
    return dagain()
def spec():
    return dspec(0)
""", "masks:DLAMask.apply", gens=g)
    src = DLA + """
def code():
    return dother(['NHI', 'TARGETID', 'Z_DLA'])
def spec():
    return dspec(0)
def code2():
    return dother(['NHI', 'TARGETID', 'ZZ'])
def spec2():
    raise ValueError('no redshift column')
"""
    g["dlas"] = lambda E, rng, r: dlas(E, np.random.default_rng(E.seed), r)
    g["dlas2"] = lambda E, rng, r: ren(
        dlas(E, np.random.default_rng(E.seed), r))
    rep.compare("dla/Z_DLA", src, "masks:DLAMask.apply", gens=g)
    rep.compare("dla/no-redshift", src, "masks:DLAMask._read_catalog",
                code="code2", spec="spec2", gens=g)


def ren(x):
    y = x.copy()
    y.dtype.names = ["Z_DLA" if n == "Z" else n for n in x.dtype.names]
    return y


ISO = DLA + """
def pair():
    wave, flux, ivar, mask = raw()
    rr = {'b': ARR('Rb@3'), 'r': ARR('Rr@3')}
    S = [Spectrum(catrow(), wave, flux, ivar, mask, rr, i) for i in (0, 1)]
    for s in S:
        s.catrow['VMIN_CIV_450'] = ARR('n1')
        s.catrow['VMAX_CIV_450'] = ARR('x1')
        s.catrow['VMIN_CIV_2000'] = ARR('n2')
        s.catrow['VMAX_CIV_2000'] = ARR('x2')
        forest(s)
    return S, [wave, flux, ivar, mask, rr]

def rest(S, r):
    return {'other': VALUE(snap(S[1])), 'full': VALUE([S[0].flux, S[0].ivar]),
            'inputs': VALUE(r), 'grid': VALUE(S[0].forestwave)}

def icode(which):
    M.asread = sky_table
    M.fitsio = fake_fitsio
    S, r = pair()
    if which == 'sky':
        M.SkyMask('f').apply(S[0])
    elif which == 'bal':
        M.BALMask.apply(S[0])
    else:
        M.DLAMask('f').apply(S[0])
    return rest(S, r)

def ispec(which):
    S, r = pair()
    return rest(S, r)
"""


def isolation(rep):
    g = dict(FINE, tab=skytab, n1=_bal(1, False), n2=_bal(2, False),
             x1=_bal(1, True), x2=_bal(2, True), dlas=dlas,
             tid=integers(11, 15))
    for w in ("sky", "bal", "dla"):
        rep.compare("mask/" + w, ISO + f"""
def code():
    return icode({w!r})
def spec():
    return ispec({w!r})
""", "masks:" + dict(sky="SkyMask", bal="BALMask", dla="DLAMask")[w] +
                    ".apply", gens=g)
