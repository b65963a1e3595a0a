"""Output files: who writes them, under which name, what goes in."""
from .common import *

FIO = '''
import numpy as np
import qsonic.io as IO
import qsonic.spectrum as SP
import qsonic.mpi_utils as MU
OUT = {}
OPEN = []
C = COMMOBJ('comm')
R = C.Get_rank()

class F:
    def __init__(self, name, mode='r', clobber=False, **k):
        self.name = name
        self.open = True
        OPEN.append([name, mode, clobber, self])
    def write(self, data, names=None, extname=None, header=None, **k):
        OUT[extname] = {'data': data, 'names': names, 'header': header,
                        'open': self.open, 'file': self.name}
    def close(self):
        self.open = False
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.open = False

class fio:
    @staticmethod
    def FITS(name, *a, **k):
        return F(name, *a, **k)

MU.fitsio = fio
IO.fitsio = fio

def opened():
    return [[o[0], o[1], o[2], o[3].open] for o in OPEN]
'''
SAVE = FIO + '''
class S:
    def __init__(self, i):
        self.i = i
        self.hpix = INTSYM('L_pix' + str(i))
        self.cont_params = {'valid': BOOL('L_ok' + str(i))}
    def write(self, fts):
        OUT[self.i] = OUT.get(self.i, 0) + FN('written')(fts.name, fts.open)

class A:
    mock_analysis = True
    forest_w1 = 1040.

def unblind():
    SP.Spectrum.set_blinding(None, A)

def name(s, hpx):
    return "out/delta-" + str(s.hpix if hpx else R) + ".fits"

def code(n, hpx, out):
    unblind()
    l = [S(i) for i in range(n)]
    IO.save_deltas(l, out, save_by_hpx=hpx, mpi_rank=R)
    r = {'written': [OUT.get(i, 0) for i in range(n)],
         'opened': [sum([1 for o in OPEN if o[0] == name(s, hpx)])
                    for s in l],
         'mode': [o[1] for o in OPEN if o[1] != 'rw' or not o[2]],
         'left_open': [o[0] for o in OPEN if o[3].open]}
    return r

def spec(n, hpx, out):
    l = [S(i) for i in range(n)]
    if not out:
        return {'written': [0 for s in l], 'opened': [0 for s in l],
                'mode': [], 'left_open': []}
    w = []
    for s in l:
        if s.cont_params['valid']:
            w.append(FN('written')(name(s, hpx), True))
        else:
            w.append(0)
    return {'written': w, 'opened': [1 for s in l], 'mode': [],
            'left_open': []}

def code_bad(how):
    if not how:
        unblind()
    IO.save_deltas([S(0)], 'out', False, R if how else None)
    return {}

def spec_bad(how):
    raise Exception("refused")
'''
SAVER = FIO + '''
def code(name):
    s = MU.MPISaver(name, R)
    s.write([ARR('x'), ARR('y')], names=['a', 'b'], extname='E1',
            header={'K': SCAL('k')})
    s.write([ARR('y')], names=['c'], extname='E2')
    s.close()
    return {'opened': opened(), 'out': OUT}

def spec(name):
    if R != 0 or not name:
        return {'opened': [], 'out': {}}
    return {'opened': [[name, 'rw', True, False]],
            'out': {'E1': {'data': [ARR('x'), ARR('y')], 'names': ['a', 'b'],
                           'header': {'K': SCAL('k')}, 'open': True,
                           'file': name},
                    'E2': {'data': [ARR('y')], 'names': ['c'],
                           'header': None, 'open': True, 'file': name}}}
'''

ITER = '''
import qsonic.mpi_utils as MU
OP = []
FILES = {}
class F5:
    def __init__(self, name, mode='r', clobber=False, **k):
        self.open = True
        OP.append([name, mode, clobber, self])
    def write(self, data, names=None, extname=None, header=None, **k):
        FILES[extname] = FILES.get(extname, 0) + (1 if self.open else 100)
    def close(self):
        self.open = False

class fio5:
    @staticmethod
    def FITS(name, *a, **k):
        return F5(name, *a, **k)

KEEP = PC.MPISaver

def c(kw):
    patch()
    PC.MPISaver = KEEP
    MU.fitsio = fio5
    f = PC.PiccaContinuumFitter(mkargs(**kw))
    f.iterate(spectra())
    return {'opened': [[o[0], o[1], o[2], o[3].open] for o in OP],
            'ext': FILES}

def s(kw):
    r = spec(kw)
    if COMMOBJ().Get_rank() != 0 or not mkargs(**kw).outdir:
        return {'opened': [], 'ext': {}}
    return {'opened': [['out/attributes.fits', 'rw', True, False]],
            'ext': {k: 1 for k in r['files']}}
'''
RUN = FIO + '''
import qsonic.scripts.qsonic_fit as QF
import qsonic.catalog as CA
LOG = []

class Args:
    pass

def code(out):
    def mk(*a, **k):
        x = Args()
        x.outdir = out
        x.save_by_hpx = BOOL('hpx')
        x.exposures = 'disable'
        x.forest_w1 = 1040.
        x.forest_w2 = 1200.
        x.wave1 = 3600.
        x.wave2 = 6000.
        x.skip = 0.2
        x.catalog = 'c'
        x.mock_analysis = True
        x.tile_format = False
        x.keep_surveys = None
        x.smoothing_scale = 0.
        return C.bcast(x)
    QF.mpi_parse = mk
    QF.os_makedirs = lambda d, *a, **k: LOG.append(d)
    CA.mpi_get_local_queue = lambda *a, **k: []
    QF.mpi_read_masks = lambda *a, **k: []
    QF.mpi_read_calibrate_mask_select_spectra = lambda *a, **k: []
    SP1 = [X(0), X(1)]
    QF.mpi_continuum_fitting = lambda *a, **k: SP1
    def save(l, outdir, save_by_hpx=False, mpi_rank=None):
        LOG.append([len(l), outdir, save_by_hpx, mpi_rank])
    IO.save_deltas = save
    QF.mpi_run_all(C, R, C.Get_size())
    return {'log': LOG}

class X:
    def __init__(self, i):
        self.i = i
    def drop_short_arms(self, *a):
        pass

def spec(out):
    r = []
    if R == 0 and out:
        r.append(out)
    r.append([2, out, BOOL('hpx'), R])
    return {'log': r}
'''
CALF = FIO + '''
import qsonic.scripts.qsonic_calib as QC
LOG = {'mk': [], 'added': [], 'guess': [], 'snr': [], 'vf': []}

class Args:
    pass

class D:
    def __init__(self, i):
        i = str(i)
        self.targetid = INTSYM('L_t' + i)
        self.mean_snr = 5.
        self.wave = ARR('L_w' + i)
        self.delta = ARR('L_d' + i)
        self.ivar = ARR('L_v' + i)
        self.weight = ARR('L_u' + i)
        self.cont = ARR('L_c' + i)
        self.header = {'DELTA_LAMBDA': 0.8}

class VF:
    def __init__(self, w1, w2, nwbins=None, var1=1e-4, var2=20., nvarbins=100,
                 nsubsamples=None, use_cov=False, comm=None):
        LOG['vf'].append(comm is not None)
        self.nwbins = 3
        self.waveobs = np.array([3660., 3780., 3900.])
    def add(self, w, d, v):
        LOG['added'].append({'w': VALUE(w), 'd': VALUE(d), 'v': VALUE(v)})
    def fit(self, guess, smooth=True):
        LOG['guess'].append(VALUE(guess))
        n = C.allreduce(len(LOG['added']))
        return FN('fit')(guess, n), FN('err')(guess, n)
    def write(self, s, lo=0, hi=100, *a, **k):
        s.write([self.waveobs], names=['wave'], extname='VAR_STATS')
        LOG['snr'].append((lo, hi))

def parse(*p, **k):
    a = Args()
    a.outdir = 'out'
    a.fbase = 'b'
    a.wave1 = 3600.
    a.wave2 = 3960.
    a.nwbins = None
    a.var1 = 1e-4
    a.var2 = 20.
    a.nvarbins = 100
    a.var_use_cov = False
    a.min_snr = 0
    a.max_snr = 100
    return C.bcast(a)

def mk(d, *a, **k):
    LOG['mk'].append(d)
    if R != 0 and not k.get('exist_ok', False):
        raise OSError('exists')

def code():
    QC.mpi_parse = parse
    QC.os_makedirs = mk
    QC.VarLSSFitter = VF
    QC.mpi_set_targetid_list_to_remove = lambda *a, **k: np.array([], dtype=int)
    QC.mpi_read_all_deltas = lambda *a, **k: [[D(0)], [D(1)]]
    QC.mpi_stack_fluxes = lambda *a, **k: (ARR('x'), C.allreduce(ARR('L_y')))
    QC.mpi_run_all(C, R, C.Get_size())
    f = {}
    for e, t in OUT.items():
        f[e] = {n: VALUE(d) for n, d in zip(t['names'], t['data'])}
        f[e]['open'] = t['open']
    return {'made': R != 0 or LOG['mk'] == ['out'], 'files': f,
            'opened': opened(), 'guess': LOG['guess'], 'added': LOG['added'],
            'snr': LOG['snr'], 'mpi': LOG['vf']}

def spec():
    g = np.array([[0.1, 1.], [0.1, 1.], [0.1, 1.]])
    n = C.allreduce(2)
    y = FN('fit')(g, n)
    e = FN('err')(g, n)
    s = C.allreduce(ARR('L_y'))
    f = {}
    o = []
    if R == 0:
        w = np.array([3660., 3780., 3900.])
        o = [['out/b-snr0.0-100.0-variance-stats.fits', 'rw', True, False]]
        f = {'VAR_STATS': {'wave': w, 'open': True},
             'VAR_FUNC': {'lambda': w, 'var_lss': y[:, 0],
                          'e_var_lss': e[:, 0], 'eta': y[:, 1],
                          'e_eta': e[:, 1], 'open': True},
             'STACKED_FLUX': {'lambda': ARR('x'), 'stacked_flux': s,
                              'open': True}}
    return {'made': True, 'files': f, 'opened': o, 'guess': [g],
            'added': [{'w': ARR('L_w' + i), 'd': ARR('L_d' + i),
                       'v': ARR('L_v' + i)} for i in ('0', '1')],
            'snr': [(0, 100)], 'mpi': [True]}
'''
COPROG = FIO + '''
import glob
import qsonic.scripts.qsonic_coadd_deltas as CO
CO.fitsio = fio

class D:
    def __init__(self, i):
        self.i = i
        self.targetid = INTSYM('tid' + str(i))
        self.ra = SCAL('ra' + str(i))
        self.dec = SCAL('dec' + str(i))
        self.v = SCAL('v' + str(i))
    def coadd(self, other):
        self.v = FN('co')(self.v, other.v)
    def write(self, fts):
        OUT[self.i] = OUT.get(self.i, 0) + FN('written')(
            fts.name, fts.open, self.v)

class Args:
    pass

class Parser:
    def parse_args(self):
        a = Args()
        a.input_dirs = ['d1', 'd2']
        a.output_dir = 'out'
        a.nside = 8
        a.nest = BOOL('nest')
        a.nproc = 2
        return a

class hp:
    @staticmethod
    def ang2pix(nside, ra, dec, lonlat=False, nest=False):
        return (ra // 1 + 4 * (dec // 1) + 100 * nside + 1000 * lonlat
                + 5000 * nest)

class gl:
    @staticmethod
    def glob(p):
        return {'d1/delta-*.fits': ['a', 'b'], 'd2/delta-*.fits': ['c']}[p]

FILES = {'a': [0, 1], 'b': [2], 'c': [3]}

def code():
    CO.get_parser = Parser
    CO.healpy = hp
    CO.glob = gl
    IO.read_deltas = lambda f: [D(i) for i in FILES[f]]
    CO.main()
    return {'written': [OUT.get(i, 0) for i in range(4)],
            'opened': [sum([1 for o in OPEN if o[0] == name(D(i))])
                       for i in range(4)],
            'mode': [o[1] for o in OPEN if o[1] != 'rw' or not o[2]],
            'left_open': [o[0] for o in OPEN if o[3].open]}

def name(d):
    p = hp.ang2pix(8, d.ra, d.dec, True, BOOL('nest'))
    return "out/delta-" + str(p) + ".fits"

def spec():
    l = [D(i) for i in range(4)]
    w = []
    n = []
    for i in range(4):
        d = l[i]
        first = True
        for j in range(i):
            if l[j].targetid == d.targetid:
                first = False
        if first:
            for j in range(i + 1, 4):
                if l[j].targetid == d.targetid:
                    d.coadd(l[j])
            w.append(FN('written')(name(d), True, d.v))
        else:
            w.append(0)
        k = 0
        for j in range(4):
            uniq = True
            for m in range(j):
                if l[j].targetid == l[m].targetid:
                    uniq = False
            if uniq and name(l[j]) == name(l[i]):
                k = 1
        n.append(k)
    return {'written': w, 'opened': n, 'mode': [], 'left_open': []}
'''

COG = {"tid*": integers(0, 3), "ra*": uni(0, 2), "dec*": uni(0, 2)}


def coprog(rep):
    rep.compare("program/coadd", COPROG, "scripts.qsonic_coadd_deltas:main",
                gens=COG)


def two(rep, name, src, anchor, args, c="code", s="spec", **kw):
    rep.compare(name, src + f'''
def c_():
    return {c}({args})
def s_():
    return {s}({args})
''', anchor, code="c_", spec="s_", **kw)


def check_C05(rep):
    rk = dict(nrank=3, ranks=(0, 1, 2))
    g = {"L_pix*": integers(0, 4), "x": arr(0, 1, 3), "y": arr(0, 1, 3)}
    a = "io:save_deltas"
    for n in (0, 1, 3):
        for h in (True, False):
            two(rep, f"save/{'hpx' if h else 'rank'}-{n}", SAVE, a,
                f"{n}, {h}, 'out'", gens=g, **rk)
    two(rep, "save/nowhere", SAVE, a, "2, True, ''", gens=g, **rk)
    for h in (True, False):
        two(rep, f"save/refused-{'blinding' if h else 'name'}", SAVE, a,
            str(h), "code_bad", "spec_bad", gens=g)
    for n in ("'out/f.fits'", "''"):
        two(rep, f"saver/{n}", SAVER, "mpi_utils:MPISaver", n, gens=g, **rk)
    from . import fitter
    src = fitter.IT + ITER
    it = "picca_continuum:PiccaContinuumFitter.iterate"
    for nm, kw in (("plain", dict(num_iterations=2)),
                   ("fiducial", dict(num_iterations=1, fiducial_varlss="vl")),
                   ("nowhere", dict(num_iterations=1, outdir=None))):
        two(rep, "attributes/" + nm, src, it, repr(kw), "c", "s",
            gens=fitter.IG, **rk)
    fitter.chi_ranks(rep)
    for o in ("'out'", "None"):
        two(rep, f"program/{o}", RUN, "scripts.qsonic_fit:mpi_run_all", o,
            gens=g, **rk)
    coprog(rep)
    rep.compare("calibration file", CALF, "scripts.qsonic_calib:mpi_run_all",
                gens=dict(g, L_y=arr(0, 1, 3)), **rk)
