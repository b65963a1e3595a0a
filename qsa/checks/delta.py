"""Delta files: reading, coadding exposures, writing back."""
from .common import *
from .spec import SINK

HDU = '''
import numpy as np
from qsonic.spectrum import Delta
class HDU():
    """stands for one table of a delta file"""
    def __init__(self, hdr, cols):
        self.hdr = hdr
        self.cols = cols
    def read_header(self):
        return self.hdr
    def get_colnames(self):
        return list(self.cols.keys())
    def read(self):
        return self.cols

def hdu(p, wcol='LAMBDA', dcol='DELTA', idkey='TARGETID', reso=False, nd=5):
    h = {idkey: INTSYM('tid'), 'MEANSNR': SCAL(p + 'snr'), 'RA': SCAL('ra'),
         'DEC': SCAL('dec'), 'Z': SCAL('z'), 'EXPID': INTSYM(p + 'expid')}
    c = {wcol: ARR(p + 'wave'), dcol: ARR(p + 'delta'), 'IVAR': ARR(p + 'ivar'),
         'WEIGHT': ARR(p + 'weight'), 'CONT': ARR(p + 'cont')}
    if reso:
        c['RESOMAT'] = ARR2(p + 'reso' + str(nd))
    return HDU(h, c)
'''

READ = HDU + SINK + '''
def attrs(d):
    return {'wave': d.wave, 'delta': d.delta, 'ivar': d.ivar,
            'weight': d.weight, 'cont': d.cont, 'reso': d.reso,
            'targetid': d.targetid, 'snr': d.mean_snr, 'ra': d.ra,
            'dec': d.dec}

def code_read(w, dc, i, reso):
    d = Delta(hdu('a', w, dc, i, reso))
    f = Sink()
    d.write(f)
    out = attrs(d)
    out['file'] = f.out
    return out

def spec_read(w, dc, i, reso):
    wave = ARR('awave')
    if w == 'LOGLAM':
        wave = 10**ARR('awave')
    iv = ARR('aivar')
    dl = np.where(iv == 0, 0, ARR('adelta'))
    out = {'wave': wave, 'delta': dl, 'ivar': iv, 'weight': ARR('aweight'),
           'cont': ARR('acont'), 'reso': None, 'targetid': INTSYM('tid'),
           'snr': SCAL('asnr'), 'ra': np.degrees(SCAL('ra')),
           'dec': np.degrees(SCAL('dec'))}
    cols = {'LAMBDA': wave, dc: dl, 'IVAR': iv, 'WEIGHT': ARR('aweight'),
            'CONT': ARR('acont')}
    if reso:
        out['reso'] = ARR2('areso5').T
        cols['RESOMAT'] = ARR2('areso5')
    h = {i: INTSYM('tid'), 'MEANSNR': SCAL('asnr'), 'RA': SCAL('ra'),
         'DEC': SCAL('dec'), 'Z': SCAL('z'), 'EXPID': INTSYM('aexpid')}
    out['file'] = [{'cols': VALUE(cols), 'header': VALUE(h),
                    'ext': f"{INTSYM('tid')}", 'n': len(cols),
                    'm': len(cols)}]
    return out

def raw_read(w, dc, i):
    return {'x': Delta(hdu('a', w, dc, i)).delta}

def raw_none(w, dc, i):
    raise RuntimeError('missing')
'''

COADD = HDU + SINK + '''
def pair(reso, nd2=5, dc='DELTA'):
    return (Delta(hdu('a', 'LAMBDA', dc, 'TARGETID', reso, 5)),
            Delta(hdu('b', 'LAMBDA', dc, 'TARGETID', reso, nd2)))

def code_coadd(reso, nd2, dc):
    a, b = pair(reso, nd2, dc)
    a.coadd(b, SCAL('dw'))
    f = Sink()
    a.write(f)
    out = {'wave': a.wave, 'delta': a.delta, 'ivar': a.ivar,
           'weight': a.weight, 'cont': a.cont, 'snr': a.mean_snr,
           'tid': a.targetid, 'hsnr': f.out[0]['header']['MEANSNR'],
           'file': f.names,
           'bdelta': b.delta, 'bivar': b.ivar, 'bweight': b.weight}
    if reso:
        for k in range(5):
            out['reso' + str(k)] = a.reso[k]
    return out

def place(x, w, lo, d, n):
    return np.bincount(np.round((w - lo) / d).astype(int), weights=x,
                       minlength=n)

def spec_coadd(reso, nd2, dc):
    d = SCAL('dw')
    W = {'a': ARR('awave'), 'b': ARR('bwave')}
    lo = min(W['a'][0], W['b'][0])
    hi = max(W['a'][-1], W['b'][-1])
    n = int(round((hi - lo) / d)) + 1
    num = np.zeros(n)
    con = np.zeros(n)
    den = np.zeros(n)
    var = np.zeros(n)
    lss = np.zeros(n)
    wr = np.zeros(n)
    for p in ['a', 'b']:
        iv = ARR(p + 'ivar')
        wt = ARR(p + 'weight')
        dl = np.where(iv == 0, 0, ARR(p + 'delta'))
        ok = (iv > 0) & (wt > 0)
        v = np.where(ok, 1 / np.where(ok, iv, 1), 0)
        num += place(wt * dl, W[p], lo, d, n)
        con += place(wt * ARR(p + 'cont'), W[p], lo, d, n)
        den += place(wt, W[p], lo, d, n)
        var += place(wt * wt * v, W[p], lo, d, n)
        lss += place(np.where(ok, 1 - wt * v, 0), W[p], lo, d, n)
        wr += place(np.where(wt == 0, 1e-8, wt), W[p], lo, d, n)
    has = den > 0
    dd = np.where(has, den, 1)
    delta = np.where(has, num / dd, 0)
    iv = np.where(has, den * den / np.where(has, var, 1), 0)
    lss = np.where(has, lss / dd, 0)
    snr = np.sum(np.sqrt(iv) * (delta + 1)) / np.sum(iv > 0)
    names = {'LAMBDA': 0, dc: 0, 'IVAR': 0, 'WEIGHT': 0, 'CONT': 0}
    biv = ARR('bivar')
    out = {'wave': lo + d * np.arange(n), 'delta': delta, 'ivar': iv,
           'weight': iv / (1 + iv * lss),
           'cont': np.where(has, con / dd, 0), 'snr': snr,
           'tid': INTSYM('tid'), 'hsnr': snr, 'file': names,
           'bdelta': np.where(biv == 0, 0, ARR('bdelta')), 'bivar': biv,
           'bweight': ARR('bweight')}
    if reso:
        names['RESOMAT'] = 0
        for k in range(5):
            rs = np.zeros(n)
            for p in ['a', 'b']:
                nd = 5 if p == 'a' else nd2
                q = (5 - nd) // 2
                wt = ARR(p + 'weight')
                if k >= q and k < 5 - q:
                    rs += place(np.where(wt == 0, 1e-8, wt)
                                * ARR2(p + 'reso' + str(nd)).T[k - q],
                                W[p], lo, d, n)
            out['reso' + str(k)] = rs / np.where(wr > 0, wr, 1)
    return out
'''

DN = 7


def _dw(E, rng, r):
    return DWV[int(h(E.seed) % 2)]


DWV = (0.8, 100.)


def _awave(E, rng, r):
    return 3600. + DWV[int(h(E.seed) % 2)] * np.arange(DN)


def _bwave(E, rng, r):
    off = int(h(E.seed * 31 + 5) % 19) - 9
    d = DWV[int(h(E.seed) % 2)]
    # the grids of two exposures agree up to rounding errors only
    eps = (0, 1e-7, -1e-7)[int(h(E.seed * 17 + 3) % 3)]
    return 3600. + d * (off + eps + np.arange(DN - 1))


def _iv(n):
    def g(E, rng, r):
        x = rng.uniform(.2, 3, size=n)
        # the same pixels are masked in ivar and weight
        x[np.random.default_rng(E.seed * 7 + n).random(n) < .3] = 0
        return x
    return g


GENS = dict(awave=_awave, bwave=_bwave, dw=_dw, adelta=arr(-1, 1, DN),
            bdelta=arr(-1, 1, DN - 1), aivar=_iv(DN), bivar=_iv(DN - 1),
            aweight=_iv(DN), bweight=_iv(DN - 1), acont=arr(.5, 2, DN),
            bcont=arr(.5, 2, DN - 1), areso5=arr(.1, 1, shape=(DN, 5)),
            breso5=arr(.1, 1, shape=(DN - 1, 5)),
            breso3=arr(.1, 1, shape=(DN - 1, 3)), ra=uni(0, 6), dec=uni(-1, 1))


def check_C14(rep):
    # wavelength column in log units must stay moderate
    g = dict(GENS, awave=arr(3.5, 3.8, DN), aweight=arr(.2, 3, DN, zeros=.3))
    for w in ("LAMBDA", "LOGLAM"):
        for dc in ("DELTA", "DELTA_BLIND"):
            for i, reso in (("TARGETID", False), ("MOCKID", True),
                            ("THING_ID", False)):
                a = f"{w!r}, {dc!r}, {i!r}, {reso}"
                src = READ + f'''
def code():
    return code_read({a})
def spec():
    return spec_read({a})
'''
                rep.compare(f"read/{w}-{dc}-{i}", src,
                            "spectrum:Delta.__init__", gens=g)
    for a in ("'WAVE', 'DELTA', 'TARGETID'", "'LAMBDA', 'FLUX', 'TARGETID'",
              "'LAMBDA', 'DELTA', 'NAME'"):
        src = READ + f'''
def code():
    return raw_read({a})
def spec():
    return raw_none({a})
'''
        r = rep.run(src, "code")
        from ..terms import TRUE
        rep.require(r.raise_cond("RuntimeError") is TRUE,
                    f"rejects {a}", "spectrum:Delta.__init__",
                    f"a delta table with only {a} is accepted")


def check_C25(rep):
    for k, a in enumerate(("False, 5, 'DELTA'", "False, 5, 'DELTA_BLIND'",
                           "True, 5, 'DELTA'", "True, 3, 'DELTA'")):
        src = COADD + f'''
def code():
    return code_coadd({a})
def spec():
    return spec_coadd({a})
'''
        rep.compare(f"coadd/{k}", src, "spectrum:Delta.coadd", gens=GENS)
    # weight without inverse variance and the reverse
    g = dict(GENS, aweight=arr(.2, 3, DN, zeros=.3),
             bweight=arr(.2, 3, DN - 1, zeros=.3))
    rep.compare("coadd/odd", COADD + """
def code():
    return code_coadd(False, 5, 'DELTA')
def spec():
    return spec_coadd(False, 5, 'DELTA')
""", "spectrum:Delta.coadd", gens=g, fields=("wave", "delta", "ivar",
                                             "weight", "cont"))
    from . import outchk
    outchk.coprog(rep)
