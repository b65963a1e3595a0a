"""C24: selection cuts keep exactly what satisfies them."""
from .common import *
from .mpichk import PRE

METH = MK + '''
def short_code():
    s = forest(mkspec())
    s.drop_short_arms(SCAL('l1'), SCAL('l2'), SCAL('skip'))
    return {'ivar': s.forestivar, 'wave': s.forestwave, 'flux': s.forestflux}

def dw():
    return ARR('wb')[1] - ARR('wb')[0]

def short_spec():
    n = SCAL('skip') * ((1 + SCAL('z')) * (SCAL('l2') - SCAL('l1')) / dw())
    W = {}
    F = {}
    IV = {}
    for a in ARMS:
        w, f, i, j1, j2 = cut(a)
        have = np.sum(i > 0)
        if have > 0 and have >= int(n) + 1:
            W[a] = w
            F[a] = f
            IV[a] = i
    return {'ivar': IV, 'wave': W, 'flux': F}

def empty_code():
    """nothing left after a mask: the arm goes, default arguments"""
    s = forest(mkspec())
    for a, i in s.forestivar.items():
        i[ARR('w' + a)[:i.size] < SCAL('cutw')] = 0
    s.drop_short_arms()
    return {'ivar': s.forestivar, 'n': s.get_real_size()}

def empty_spec():
    IV = {}
    n = 0
    for a in ARMS:
        w, f, i, j1, j2 = cut(a)
        j = i.copy()
        if np.any(i > 0):
            j[ARR('w' + a)[:i.size] < SCAL('cutw')] = 0
            if np.any(j > 0):
                IV[a] = j
                n += np.sum(j > 0)
    return {'ivar': IV, 'n': n}

def long_code():
    return forest(mkspec()).is_long(SCAL('l2') - SCAL('l1'), SCAL('skip'))

def long_spec():
    n = 0
    for a in ARMS:
        w, f, i, j1, j2 = cut(a)
        n += np.sum(i > 0)
    return n > SCAL('skip') * ((1 + SCAL('z')) *
                               (SCAL('l2') - SCAL('l1')) / dw())
'''

# the steps of a pipeline on stand-in spectra that record what is done to them
STEP = PRE + '''
def mkargs():
    a = Args()
    for k in ('input_dir', 'catalog', 'outdir'):
        setattr(a, k, k)
    a.exposures = 'disable'
    a.coadd_arms = 'before' if BOOL('cob') else (
        'after' if BOOL('coa') else 'disable')
    a.arms = ['B', 'R']
    a.mock_analysis = BOOL('mock')
    a.skip_resomat = False
    a.true_continuum = False
    a.tile_format = False
    a.keep_surveys = ['main', 'sv3']
    a.save_by_hpx = BOOL('hpx')
    a.wave1 = SCAL('wave1')
    a.wave2 = SCAL('wave2')
    a.forest_w1 = SCAL('f1')
    a.forest_w2 = SCAL('f2')
    a.min_rsnr = SCAL('minr')
    a.min_forestsnr = SCAL('minf')
    a.skip = SCAL('skip')
    a.smoothing_scale = SCAL('smooth')
    a.noise_calibration = None
    a.flux_calibration = None
    a.varlss_as_additive_noise = False
    a.sky_mask = ''
    a.bal_mask = False
    a.dla_mask = ''
    return a

class S:
    def __init__(self, i):
        self.name = i
        self.log = []
        self.ncal = 0
        self.targetid = INTSYM('t' + i)
        self.rsnr = SCAL('r' + i)
        self.cont_params = {'valid': BOOL('ok' + i), 'cont': {}}
        self._smoothing_scale = SCAL('smooth')
        self.forestwave = {}
    def set_forest_region(self, *a, **k):
        self.log.append(('region', list(a), k))
        if BOOL('arm' + self.name):
            self.forestwave['B'] = ARR('w' + self.name)
    def remove_nonforest_pixels(self):
        self.log.append('trim')
    def coadd_arms_forest(self, *a):
        self.log.append(('coadd', list(a)))
    def calc_continuum_chi2(self):
        self.log.append('chi2')
    def drop_short_arms(self, *a):
        self.log.append(('short', list(a)))
    def set_smooth_forestivar(self, *a):
        if a[0] > 0:
            self.log.append(('smooth', list(a)))
    def set_forest_weight(self, *a):
        self.log.append(('weight', list(a)))
    def is_long(self, d, r):
        return SCAL('n' + self.name) > r * d
    def get_effective_meansnr(self):
        return SCAL('snr' + self.name)

def show(l):
    return [(s.name, s.log, s.ncal) for s in l]

def reader(*a, **k):
    return lambda cat: [S('c' + str(cat['i']) + str(j))
                        for j in range(cat['n'])]

QUEUE = [{'i': 0, 'n': 2}, {'i': 1, 'n': 0}, {'i': 2, 'n': 2}]

def read_code():
    IO.get_spectra_reader_function = reader
    return show(QF.mpi_read_spectra_local_queue(QUEUE, mkargs(), C))

def read_spec():
    out = []
    for n in ('c00', 'c01', 'c20', 'c21'):
        if BOOL('arm' + n) and SCAL('r' + n) >= SCAL('minr'):
            log = [('region', [SCAL('wave1'), SCAL('wave2'), SCAL('f1'),
                               SCAL('f2')], {}), 'trim']
            if mkargs().coadd_arms == 'before':
                log.append(('coadd', []))
            out.append((n, log, 0))
    return out

class Mask:
    def __init__(self, k):
        self.k = k
    def apply(self, s):
        s.log.append(('mask', self.k))

def three():
    return [S('a'), S('b'), S('c')]

def mask_code():
    l = three()
    QF.apply_masks([Mask(1), Mask(2)], l, R)
    m = three()
    QF.apply_masks([], m)
    return show(l), [s.name for s in m]

def mask_spec():
    lg = [('mask', 1), ('mask', 2), ('short', [])]
    return [('a', lg, 0), ('b', lg, 0), ('c', lg, 0)], ['a', 'b', 'c']

def short_code():
    return show(QF.remove_short_spectra(three(), SCAL('f1'), SCAL('f2'),
                                        SCAL('skip')))

def short_spec():
    return [(s.name, [], 0) for s in three()
            if SCAL('n' + s.name) > SCAL('skip') *
            (SCAL('f2') - SCAL('f1'))]

def select_code():
    QF.mpi_read_spectra_local_queue = lambda q, a, c: three()
    def cal(l, a, c, r):
        for s in l:
            s.ncal += 1
    QF.mpi_noise_flux_calibrate = cal
    return show(QF.mpi_read_calibrate_mask_select_spectra(
        QUEUE, [Mask(1)], mkargs(), C, R))

def select_spec():
    lg = [('mask', 1), ('short', [])]
    return [(s.name, lg, 1) for s in three()
            if SCAL('n' + s.name) > SCAL('skip') *
            (SCAL('f2') - SCAL('f1'))
            and SCAL('snr' + s.name) >= SCAL('minf')]

got = {}

def run_code():
    a = mkargs()
    QF.mpi_parse = lambda *b, **k: a
    QF.os_makedirs = lambda *b, **k: None
    def queue(fn, comm, rank, size, mock, tile, keep, zmin, zmax):
        got['z'] = (zmin, zmax)
        return [{'LASTNIGHT': np.array([20200101, 20210101])}]
    CA.mpi_get_local_queue = queue
    QF.mpi_read_masks = lambda *b, **k: []
    QF.mpi_read_calibrate_mask_select_spectra = lambda *b, **k: three()
    def fit(l, *b):
        got['fit'] = show(l)
        return [s for s in l if s.cont_params['valid']]
    QF.mpi_continuum_fitting = fit
    def save(l, o, save_by_hpx=False, mpi_rank=None):
        got['save'] = (show(l), o, save_by_hpx)
    IO.save_deltas = save
    QF.mpi_run_all(C, R, C.Get_size())
    return got

def run_spec():
    f1 = SCAL('f1')
    f2 = SCAL('f2')
    d = SCAL('skip') * (f2 - f1)
    sm = []
    if SCAL('smooth') > 0:
        sm = [('smooth', [SCAL('smooth')])]
    return {'z': (SCAL('wave1') / (f2 - d) - 1, SCAL('wave2') / (f1 + d) - 1),
            'save': ([(n, sm + [('short', [f1, f2, SCAL('skip')])], 0)
                      for n in ('a', 'b', 'c') if BOOL('ok' + n)],
                     'outdir', BOOL('hpx'))}

def run_code2():
    r = run_code()
    return {'z': r['z'], 'save': r['save']}
'''

CALIB = PRE + '''
def mkargs():
    a = Args()
    a.remove_targetid_list = 'x' if BOOL('rm') else None
    a.catalog = 'c' if BOOL('cat') else None
    a.mock_analysis = BOOL('mock')
    a.remove_bal_qsos = BOOL('bal')
    a.keep_surveys = ['main', 'sv3'] if BOOL('keep') else None
    a.input_dir = 'in'
    a.outdir = 'out'
    a.fbase = 'b'
    a.wave1 = 3600.
    a.wave2 = 3840.
    a.nwbins = 2
    a.var1 = 0.1
    a.var2 = 10.
    a.nvarbins = 6
    a.var_use_cov = False
    a.min_snr = SCAL('min')
    a.max_snr = SCAL('max')
    return a

def table(*a, **k):
    t = {'TARGETID': ARR('t'), 'SURVEY': ARR('sv'),
            'VMIN_CIV_450': ARR2('a1'), 'VMAX_CIV_450': ARR2('a2'),
            'VMIN_CIV_2000': ARR2('a3'), 'VMAX_CIV_2000': ARR2('a4')}
    return t

class Cat:
    def __init__(self):
        self.t = table()
        self.dtype = self
        self.names = tuple(self.t.keys())
        self.size = self.t['TARGETID'].size
    def __getitem__(self, k):
        return self.t[k]

def ids_code():
    QC.np = NPX
    how = []
    def rd(filename, comm=None, mpi_rank=0, is_mock=False, is_tile=False,
           keep_surveys=None, zmin=0, zmax=100):
        how.append((filename, mpi_rank, bool(is_mock), bool(is_tile)))
        return Cat()
    CA.mpi_read_quasar_catalog = rd
    r = QC.mpi_set_targetid_list_to_remove(mkargs(), C, R)
    return [np.any(r == ARR('t')[i]) for i in range(4)], np.any(r == 77), how

class NPX:
    array = np.array
    concatenate = np.concatenate
    isin = np.isin
    any = np.any
    all = np.all
    logical_or = np.logical_or
    logical_and = np.logical_and
    @staticmethod
    def loadtxt(f, *a, **k):
        return np.array([77, 78])

def ids_spec():
    out = []
    for i in range(4):
        b = (np.any((ARR2('a1')[i] > 0) & (ARR2('a2')[i] > 0))
             or np.any((ARR2('a3')[i] > 0) & (ARR2('a4')[i] > 0)))
        k = (ARR('sv')[i] != 'main') and (ARR('sv')[i] != 'sv3')
        out.append(BOOL('cat') and ((BOOL('bal') and b)
                                    or (BOOL('keep') and k)))
    how = [('c', R, BOOL('mock'), False)] if BOOL('cat') else []
    return out, BOOL('rm'), how

class D:
    def __init__(self, i):
        i = str(i)
        self.targetid = INTSYM('d' + i)
        self.mean_snr = SCAL('snr' + i)
        self.name = 'd' + i
        self.wave = 'w' + i
        self.delta = 'd' + i
        self.ivar = 'v' + i
        self.weight = 'u' + i
        self.cont = 'c' + i
        self.reso = 'r' + i
        self.header = {'DELTA_LAMBDA': 0.8, 'MEANSNR': SCAL('snr' + i)}
        self.ra = SCAL('ra' + i)
        self.dec = SCAL('dec' + i)
        self.z_qso = SCAL('z' + i)

got = []

class VF:
    def __init__(self, *a, **k):
        self.nwbins = 2
        self.waveobs = np.array([3660., 3780.])
    def add(self, w, d, v):
        got.append((w, d, v))
    def fit(self, g, *a, **k):
        return g, g
    def write(self, s, *a, **k):
        pass

class Saver:
    def __init__(self, *a):
        pass
    def write(self, *a, **k):
        pass
    def close(self):
        pass

def kept_code():
    QC.mpi_parse = lambda *a, **k: mkargs()
    QC.os_makedirs = lambda *a, **k: None
    QC.VarLSSFitter = VF
    QC.MPISaver = Saver
    QC.mpi_set_targetid_list_to_remove = lambda *a, **k: np.array([3, 5])
    QC.mpi_read_all_deltas = lambda *a, **k: [[D(0), D(1)], [], [D(2)]]
    def stack(a, c, l):
        got.append([d.name for d in l])
        return 1, 1
    QC.mpi_stack_fluxes = stack
    QC.mpi_run_all(C, R, C.Get_size())
    return got

def kept_spec():
    l = []
    for i in ('0', '1', '2'):
        if SCAL('snr' + i) > SCAL('min') and SCAL('snr' + i) < SCAL('max') \\
                and INTSYM('d' + i) != 3 and INTSYM('d' + i) != 5:
            l.append(i)
    return [('w' + i, 'd' + i, 'v' + i) for i in l] + [['d' + i for i in l]]
'''


def check_C24(rep):
    g = dict(SPEC_GENS, skip=pick(0., .1, .2, .25, .5, .5, 1.),
             cutw=uni(3500, 4600))
    edge = dict(g, z=pick(1., 3., 2.5), l1=const(1000.),
                l2=pick(1100., 1150., 1200.), w1=const(3500.),
                w2=const(6000.))
    for nm, gg in (("", g), (" at the boundary", edge)):
        rep.compare("drop_short_arms" + nm, METH,
                    "spectrum:Spectrum.drop_short_arms", code="short_code",
                    spec="short_spec", gens=gg)
        rep.compare("is_long" + nm, METH, "spectrum:Spectrum.is_long",
                    code="long_code", spec="long_spec", gens=gg)
    rep.compare("arm without valid pixels", METH,
                "spectrum:Spectrum.drop_short_arms", code="empty_code",
                spec="empty_spec", gens=g)
    s = dict(minr=pick(0., 1., 2.), minf=pick(0., 1., 2.),
             skip=pick(.1, .2, .5), f1=pick(1040., 1000.),
             f2=pick(1200., 1180.), wave1=pick(3600., 3700.),
             wave2=pick(5000., 6000.), smooth=pick(0., 16., -1., .5))
    for n in ("c00", "c01", "c20", "c21", "a", "b", "c"):
        s["r" + n] = pick(-1., 0., 1., 1.5, 2., 3.)
        s["snr" + n] = pick(-1., 0., 1., 1.5, 2., 3.)
        s["n" + n] = pick(10., 16., 18., 20., 32., 36., 40., 60., 80., 90.)
        s["t" + n] = integers(1, 1000)
    for fn, a in (("read", "mpi_read_spectra_local_queue"),
                  ("mask", "apply_masks"), ("short", "remove_short_spectra"),
                  ("select", "mpi_read_calibrate_mask_select_spectra")):
        rep.compare(a, STEP, "scripts.qsonic_fit:" + a, code=fn + "_code",
                    spec=fn + "_spec", gens=s)
    rep.compare("mpi_run_all", STEP, "scripts.qsonic_fit:mpi_run_all",
                code="run_code2", spec="run_spec", gens=s)
    c = dict(t=lambda E, rng, r: np.arange(11, 15),
             sv=lambda E, rng, r: rng.choice(np.array(
                 ['main', 'sv3', 'sv1', 'other']), 4),
             min=pick(0., 1.), max=pick(3., 100.))
    for k in ("a1", "a2", "a3", "a4"):
        c[k] = lambda E, rng, r: rng.choice([-1., 0., 500.], (4, 3),
                                            p=[.4, .4, .2])
    for k in "012":
        c["d" + k] = integers(1, 7)
        c["snr" + k] = pick(-1., 0., .5, 1., 2., 3., 50., 100., 200.)
    rep.compare("removed targets", CALIB,
                "scripts.qsonic_calib:mpi_set_targetid_list_to_remove",
                code="ids_code", spec="ids_spec", gens=c)
    rep.compare("kept deltas", CALIB, "scripts.qsonic_calib:mpi_run_all",
                code="kept_code", spec="kept_spec", gens=c)
    rep.also("C08", "forest", fields=("n", "snr", "esnr"))
    rep.also("C10", "short/[03]")
    rep.also("C07", "exposures steps")
