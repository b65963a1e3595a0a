"""C21: options are rejected or reach the code they control."""
from .common import *
from .mpichk import PRE

LOGIC = PRE + '''
def mk():
    a = Args()
    a.arms = ['B', 'R', 'B'] if BOOL('dup') else ['R', 'Z']
    a.true_continuum = BOOL('true')
    a.continuum_model = 'picca' if BOOL('m1') else (
        'true' if BOOL('m2') else 'input')
    a.mock_analysis = BOOL('mock')
    a.fiducial_meanflux = 'mf.fits' if BOOL('fm') else None
    a.fiducial_varlss = 'vl.fits' if BOOL('fv') else None
    a.input_continuum_dir = 'dir' if BOOL('dir') else None
    a.tile_format = BOOL('tile')
    a.save_by_hpx = BOOL('hpx')
    a.exposures = 'before' if BOOL('eb') else (
        'after' if BOOL('ea') else 'disable')
    a.wave1 = SCAL('w1')
    a.wave2 = SCAL('w2')
    a.forest_w1 = SCAL('f1')
    a.forest_w2 = SCAL('f2')
    return a

def code():
    a = mk()
    ok = QF.args_logic_fnc_qsonic_fit(a)
    if ok:
        return {'ok': True, 'model': a.continuum_model,
                'true': a.true_continuum,
                'arms': ('B' in a.arms, 'R' in a.arms, 'Z' in a.arms,
                         len(a.arms))}
    return {'ok': False}

def spec():
    a = mk()
    true = a.true_continuum or a.continuum_model == 'true'
    inp = a.input_continuum_dir is not None
    exp = a.exposures != 'disable'
    ok = True
    if true and not a.mock_analysis:
        ok = False
    if true and not (BOOL('fm') and BOOL('fv')):
        ok = False
    if true and inp:
        ok = False
    if a.continuum_model == 'input' and not inp:
        ok = False
    if not SCAL('w1') < SCAL('w2'):
        ok = False
    if not SCAL('f1') < SCAL('f2'):
        ok = False
    if a.tile_format and (a.mock_analysis or a.save_by_hpx or exp):
        ok = False
    if not ok:
        return {'ok': False}
    return {'ok': True,
            'model': 'true' if true else ('input' if inp else 'picca'),
            'true': true,
            'arms': (BOOL('dup'), True, not BOOL('dup'), 2)}
'''

# stand-in for argparse: collects the declared options
ARGP = PRE + '''
import qsonic.scripts.qsonic_coadd_deltas as QD

class Group:
    def __init__(self, owner):
        self.owner = owner
    def add_argument(self, *names, **kw):
        self.owner.add_argument(*names, **kw)
    def add_mutually_exclusive_group(self, *a, **k):
        return self

class Parser:
    def __init__(self, *a, **k):
        self.opts = {}
    def add_argument_group(self, *a, **k):
        return Group(self)
    def add_mutually_exclusive_group(self, *a, **k):
        return self
    def set_defaults(self, **k):
        for q, v in k.items():
            self.opts[q]['default'] = v
    def add_argument(self, *names, **kw):
        dest = kw.get('dest', None)
        short = []
        for n in names:
            if n[:2] == '--':
                if dest is None:
                    dest = n[2:].replace('-', '_')
            else:
                short.append(n)
        act = kw.get('action', 'store')
        d = {'short': short, 'action': act,
             'required': kw.get('required', False),
             'nargs': kw.get('nargs', None)}
        if 'choices' in kw:
            c = list(kw['choices'])
            d['choices'] = sorted(c)
        if act == 'store_true':
            d['default'] = kw.get('default', False)
        elif act == 'store_false':
            d['default'] = kw.get('default', True)
        else:
            d['default'] = kw.get('default', None)
            conv = kw.get('type', None)
            d['text'] = True
            if conv is not None and conv is not str:
                d['text'] = False
                try:
                    d['value'] = conv(SCAL('v'))
                except fake_argparse.ArgumentTypeError:
                    d['value'] = 'rejected'
                except ValueError:
                    d['value'] = 'rejected'
        self.opts[dest] = d

class fake_argparse:
    ArgumentParser = Parser
    ArgumentDefaultsHelpFormatter = 1
    class ArgumentTypeError(Exception):
        pass

for M in (IO, CL, MA, SP, PC, QF, QC, QD):
    M.argparse = fake_argparse

def opt(default=None, text=True, short=[], required=False, nargs=None,
        choices=None, value=None):
    d = {'short': short, 'action': 'store', 'required': required,
         'nargs': nargs, 'default': default, 'text': text}
    if choices is not None:
        d['choices'] = sorted(choices)
    if not text:
        d['value'] = value
    return d

def flag():
    return {'short': [], 'action': 'store_true', 'required': False,
            'nargs': None, 'default': False}

def num(default):
    return opt(default, False, value=SCAL('v'))

def integ(default):
    return opt(default, False, value=int(SCAL('v')))

def waves():
    return {'wave1': num(3600.), 'wave2': num(6000.),
            'forest_w1': num(1050.), 'forest_w2': num(1180.)}

def fit_code():
    return QF.get_parser().opts

def fit_spec():
    ok = SCAL('v') >= 0 and SCAL('v') <= 1
    when = ["before", "after", "disable"]
    d = {'input_dir': opt(short=['-i'], required=True),
         'catalog': opt(required=True), 'tile_format': flag(),
         'mock_analysis': flag(), 'skip_resomat': flag(),
         'keep_surveys': opt(['main'], nargs='+'),
         'arms': opt(['B', 'R'], nargs='+', choices=['B', 'R', 'Z']),
         'outdir': opt(short=['-o']),
         'coadd_arms': opt('before', choices=when),
         'exposures': opt('disable', choices=when),
         'save_by_hpx': flag(),
         'noise_calibration': opt(), 'varlss_as_additive_noise': flag(),
         'flux_calibration': opt(), 'smoothing_scale': num(16.),
         'min_rsnr': num(0), 'min_forestsnr': num(0),
         'skip': opt(0.2, False,
                     value=SCAL('v') if ok else 'rejected'),
         'sky_mask': opt(), 'bal_mask': flag(), 'dla_mask': opt(),
         'num_iterations': integ(10),
         'continuum_model': opt('picca', choices=["picca", "true", "input"]),
         'true_continuum': flag(), 'input_continuum_dir': opt(),
         'fiducial_meanflux': opt(), 'fiducial_varlss': opt(),
         'cont_order': integ(1), 'var_fit_eta': flag(),
         'var_use_cov': flag(), 'normalize_stacked_flux': flag(),
         'eta_calib_ivar': flag(), 'rfdwave': num(0.8),
         'minimizer': opt('iminuit', choices=["iminuit", "l_bfgs_b"])}
    d.update(waves())
    return d

def calib_code():
    return QC.get_parser().opts

def calib_spec():
    d = {'input_dir': opt(short=['-i'], required=True),
         'outdir': opt(short=['-o'], required=True),
         'fbase': opt('qsonic-eta-fits'), 'catalog': opt(),
         'mock_analysis': flag(), 'keep_surveys': opt(nargs='*'),
         'remove_bal_qsos': flag(), 'remove_targetid_list': opt(),
         'nvarbins': integ(100), 'var_use_cov': flag(),
         'nwbins': integ(None), 'var1': num(1e-4), 'var2': num(20.),
         'min_snr': num(0), 'max_snr': num(100)}
    d.update(waves())
    return d

def coadd_code():
    return QD.get_parser().opts

def coadd_spec():
    return {'input_dirs': opt(short=['-i'], nargs='+', required=True),
            'output_dir': opt(short=['-o'], required=True),
            'nside': integ(8), 'nest': flag(), 'nproc': integ(None)}
'''

# which function an accepted option selects, with which values
REACH = PRE + '''
def rec(name):
    def f(*a, **k):
        return (name, list(a), k)
    return f

def read_coadd(catalog_hpx, input_dir, arms_to_keep, skip_resomat,
               program="dark"):
    return ('coadd', catalog_hpx, input_dir, arms_to_keep, skip_resomat,
            program)

def read_uncoadd(catalog_hpx, input_dir, arms_to_keep, skip_resomat,
                 program="dark"):
    return ('uncoadd', catalog_hpx, input_dir, arms_to_keep, skip_resomat,
            program)

def read_tile(catalog_tile, input_dir, arms_to_keep, skip_resomat):
    return ('tile', catalog_tile, input_dir, arms_to_keep, skip_resomat)

def read_mock(catalog_hpx, input_dir, arms_to_keep, skip_resomat,
              read_true_continuum, nside=16):
    return ('mock', catalog_hpx, input_dir, arms_to_keep, skip_resomat,
            read_true_continuum, nside)

IO.read_onehealpix_file_data_coadd = read_coadd
IO.read_onehealpix_file_data_uncoadd = read_uncoadd
IO.read_onetile_coaddfile_data = read_tile
IO.read_onehealpix_file_mock = read_mock

def reader_code():
    return IO.get_spectra_reader_function(
        'dir', ['B'], BOOL('mock'), BOOL('skr'), BOOL('true'), BOOL('tile'),
        BOOL('exp'))('cat')

def reader_spec():
    if BOOL('mock'):
        return ('mock', 'cat', 'dir', ['B'], BOOL('skr'), BOOL('true'), 16)
    if BOOL('tile'):
        return ('tile', 'cat', 'dir', ['B'], BOOL('skr'))
    if BOOL('exp'):
        return ('uncoadd', 'cat', 'dir', ['B'], BOOL('skr'), 'dark')
    return ('coadd', 'cat', 'dir', ['B'], BOOL('skr'), 'dark')

def mkargs():
    a = Args()
    for k in ('input_dir', 'catalog', 'keep_surveys', 'arms', 'fbase'):
        setattr(a, k, 'v_' + k)
    a.outdir = 'out' if BOOL('out') else None
    a.exposures = 'before' if BOOL('expb') else (
        'after' if BOOL('expa') else 'disable')
    a.coadd_arms = 'before' if BOOL('cob') else (
        'after' if BOOL('coa') else 'disable')
    a.mock_analysis = BOOL('mock')
    a.skip_resomat = BOOL('skr')
    a.true_continuum = BOOL('true')
    a.tile_format = BOOL('tile')
    a.save_by_hpx = BOOL('hpx')
    a.wave1 = SCAL('w1')
    a.wave2 = SCAL('w2')
    a.forest_w1 = SCAL('f1')
    a.forest_w2 = SCAL('f2')
    a.min_rsnr = SCAL('minr')
    a.min_forestsnr = SCAL('minf')
    a.skip = SCAL('skip')
    a.smoothing_scale = SCAL('smooth')
    a.noise_calibration = 'ncal' if BOOL('nc') else None
    a.flux_calibration = 'fcal' if BOOL('fc') else None
    a.varlss_as_additive_noise = BOOL('vadd')
    a.sky_mask = 'sky' if BOOL('sm') else None
    a.bal_mask = BOOL('bm')
    a.dla_mask = 'dla' if BOOL('dm') else None
    a.num_iterations = INTSYM('nit')
    a.cont_order = INTSYM('order')
    a.var_fit_eta = BOOL('eta')
    a.var_use_cov = BOOL('cov')
    a.normalize_stacked_flux = BOOL('norm')
    a.eta_calib_ivar = BOOL('ecal')
    return a

class S:
    def __init__(self, i):
        self.name = i
        self.log = []
        self.cont_params = {'valid': BOOL('ok' + i), 'cont': {}}
        self._smoothing_scale = SCAL('smooth')
        self.forestwave = {'B': 1}
        self.rsnr = SCAL('minr')
    def set_forest_region(self, *a, **k):
        pass
    def remove_nonforest_pixels(self):
        pass
    def coadd_arms_forest(self, *a):
        self.log.append(('coadd', list(a)))
    def calc_continuum_chi2(self):
        self.log.append('chi2')
    def set_smooth_forestivar(self, *a):
        self.log.append(('smooth', list(a)))
    def set_forest_weight(self, *a):
        self.log.append(('weight', list(a)))
    def drop_short_arms(self, *a):
        pass

def two():
    return [S('a'), S('b')]

def show(l):
    return [(s.name, s.log) for s in l]

got = {}

# -- reading
def read_code():
    def g(input_dir, arms, mock, skip, true, tile, exp, program='dark'):
        got['r'] = (input_dir, arms, mock, skip, true, tile, exp, program)
        return lambda cat: [S(cat)]
    IO.get_spectra_reader_function = g
    l = QF.mpi_read_spectra_local_queue(['a', 'b'], mkargs(), C)
    return got['r'], show(l)

def read_spec():
    a = mkargs()
    log = [('coadd', [])] if a.coadd_arms == 'before' else []
    return (('v_input_dir', 'v_arms', BOOL('mock'), BOOL('skr'),
             BOOL('true'), BOOL('tile'), BOOL('expb'), 'dark'),
            [('a', log), ('b', log)])

# -- calibration
class NCal:
    def __init__(self, fname, comm=None, mpi_rank=0, add_varlss=False,
                 no_eta=False):
        self.k = ('noise', fname, add_varlss, no_eta)
    def apply(self, l):
        for s in l:
            s.log.append(self.k)

class FCal:
    def __init__(self, fname, comm=None, mpi_rank=0):
        self.k = ('flux', fname)
    def apply(self, l):
        for s in l:
            s.log.append(self.k)

def cal_code():
    CL.NoiseCalibrator = NCal
    CL.FluxCalibrator = FCal
    l = two()
    QF.mpi_noise_flux_calibrate(l, mkargs(), C, R)
    return [(s.name, ('noise', 'ncal', False, False) in s.log,
             ('flux', 'fcal') in s.log, len(s.log)) for s in l]

def cal_spec():
    n = 0
    if BOOL('nc'):
        n += 1
    if BOOL('fc'):
        n += 1
    return [(x, BOOL('nc'), BOOL('fc'), n) for x in ('a', 'b')]

# -- masks
class SkyM:
    def __init__(self, fname, comm=None, mpi_rank=0):
        self.k = ('sky', fname)

class BalM:
    k = 'bal'
    @staticmethod
    def check_catalog(c):
        got['bal'] = True

class DlaM:
    def __init__(self, fname, local_targetids=None, comm=None, mpi_rank=0,
                 dla_mask_limit=0.8, raw_dla_file=False):
        self.k = ('dla', fname, local_targetids, dla_mask_limit)

def masks_code():
    MA.SkyMask = SkyM
    MA.BALMask = BalM
    MA.DLAMask = DlaM
    q = [{'TARGETID': np.array([INTSYM('t0'), INTSYM('t1')])},
         {'TARGETID': np.array([INTSYM('t2')])}]
    got['bal'] = False
    l = QF.mpi_read_masks(q, mkargs(), C, R)
    return [m.k for m in l], got['bal']

def masks_spec():
    out = []
    if BOOL('sm'):
        out.append(('sky', 'sky'))
    if BOOL('bm'):
        out.append('bal')
    if BOOL('dm'):
        out.append(('dla', 'dla', np.array([INTSYM('t0'), INTSYM('t1'),
                                            INTSYM('t2')]), 0.8))
    return out, BOOL('bm')

# -- continuum fitting
class Fitter:
    def __init__(self, args):
        self.varlss_interp = 'vl'
        self.eta_interp = 'et'
    def iterate(self, l):
        got['it'] = [s.name for s in l]
    def save_contchi2_catalog(self, l):
        got['save'] = [s.name for s in l]

def cont_code():
    CL.NoiseCalibrator = NCal
    QF.PiccaContinuumFitter = Fitter
    l = QF.mpi_continuum_fitting(two(), mkargs(), C, R)
    return show(l), got['it'], got['save']

def cont_spec():
    a = mkargs()
    log = []
    if BOOL('nc') and BOOL('vadd'):
        log = log + [('noise', 'ncal', True, True),
                     ('smooth', [SCAL('smooth')]), ('weight', ['vl', 'et'])]
    if a.coadd_arms == 'after':
        log = log + [('coadd', ['vl', 'et']), 'chi2']
    return ([(n, log) for n in ('a', 'b') if BOOL('ok' + n)],
            ['a', 'b'], ['a', 'b'])

# -- whole programs
def run_code():
    a = mkargs()
    def parse(parser, comm, rank, options=None, args_logic_fnc=None):
        b = Args()
        got['checked'] = args_logic_fnc is QF.args_logic_fnc_qsonic_fit
        return a
    QF.get_parser = lambda *b, **k: 'parser'
    QF.mpi_parse = parse
    got['mkdir'] = []
    QF.os_makedirs = lambda d, **k: got['mkdir'].append(d)
    def queue(filename, comm=None, mpi_rank=0, mpi_size=1, is_mock=False,
              is_tile=False, keep_surveys=None, zmin=0, zmax=20.):
        got['queue'] = (filename, is_mock, is_tile, keep_surveys)
        return [{'LASTNIGHT': np.array([20200101, 20210101])},
                {'LASTNIGHT': np.array([20200303])}]
    CA.mpi_get_local_queue = queue
    def blind(night, args):
        got['blind'] = (night, args is a)
    SP.Spectrum.set_blinding = blind
    QF.mpi_read_masks = lambda *b, **k: 'masks'
    def sel(q, m, args, comm, rank):
        got['sel'] = (len(q), m, args is a)
        return two()
    QF.mpi_read_calibrate_mask_select_spectra = sel
    QF.mpi_continuum_fitting = lambda l, *b: l
    got['after'] = False
    def after(l, m, args, comm, rank):
        got['after'] = (show(l), m, args is a)
        return [S('e')]
    QF.mpi_read_exposures_after = after
    def save(l, outdir, save_by_hpx=False, mpi_rank=None):
        got['save'] = ([s.name for s in l], outdir, save_by_hpx, mpi_rank)
    IO.save_deltas = save
    QF.mpi_run_all(C, R, C.Get_size())
    return got

def run_spec():
    a = mkargs()
    aft = a.exposures == 'after'
    sm = [('smooth', [SCAL('smooth')])] if SCAL('smooth') > 0 else []
    out = BOOL('out')
    return {'checked': True, 'mkdir': ['out'] if out and R == 0 else [],
            'queue': ('v_catalog', BOOL('mock'), BOOL('tile'),
                      'v_keep_surveys'),
            'blind': (None if BOOL('mock') else 20210101, True),
            'sel': (2, 'masks', True),
            'after': ([('a', sm), ('b', sm)], 'masks', True) if aft
            else False,
            'save': (['e'] if aft else ['a', 'b'], a.outdir, BOOL('hpx'), R)}

class VF:
    def __init__(self, w1, w2, nwbins=None, var1=1e-4, var2=20., nvarbins=100,
                 nsubsamples=100, min_num_pix=500, min_num_qso=50,
                 use_cov=False, comm=None):
        got['vf'] = (w1, w2, nwbins, var1, var2, nvarbins, use_cov)
        self.nwbins = 2
        self.waveobs = np.array([3660., 3780.])
    def add(self, w, d, v):
        pass
    def fit(self, g, *a, **k):
        return g, g
    def write(self, s, lo=0, hi=100, *a, **k):
        got['snr'] = (lo, hi)

class Saver:
    def __init__(self, fname, rank):
        got['file'] = fname
        got['ext'] = []
    def write(self, data, names=None, extname=None, header=None):
        got['ext'].append((extname, names))
    def close(self):
        got['closed'] = True

def calib_args():
    a = mkargs()
    a.outdir = 'out'
    a.min_snr = INTSYM('lo')
    a.max_snr = INTSYM('hi')
    a.nwbins = INTSYM('nw')
    a.var1 = SCAL('v1')
    a.var2 = SCAL('v2')
    a.nvarbins = INTSYM('nv')
    return a

def calib_code():
    QC.mpi_parse = lambda *a, **k: calib_args()
    QC.get_parser = lambda *b, **k: 'parser'
    QC.os_makedirs = lambda *a, **k: None
    QC.VarLSSFitter = VF
    QC.MPISaver = Saver
    QC.mpi_set_targetid_list_to_remove = lambda *a, **k: np.array([3, 5])
    QC.mpi_read_all_deltas = lambda *a, **k: [[]]
    QC.mpi_stack_fluxes = lambda *a, **k: (1, 1)
    QC.mpi_run_all(C, R, C.Get_size())
    return got

def calib_spec():
    lo = INTSYM('lo')
    hi = INTSYM('hi')
    return {'vf': (SCAL('w1'), SCAL('w2'), INTSYM('nw'), SCAL('v1'),
                   SCAL('v2'), INTSYM('nv'), BOOL('cov')),
            'snr': (lo, hi),
            'file': f"out/v_fbase-snr{lo:.1f}-{hi:.1f}-variance-stats.fits",
            'ext': [('VAR_FUNC', ['lambda', 'var_lss', 'e_var_lss', 'eta',
                                  'e_eta']),
                    ('STACKED_FLUX', ['lambda', 'stacked_flux'])],
            'closed': True}
'''


def check_C21(rep):
    rep.compare("argument logic", LOGIC,
                "scripts.qsonic_fit:args_logic_fnc_qsonic_fit", seeds=4000,
                need=3000,
                gens=dict(w1=pick(3600., 3700.), w2=pick(3600., 6000., 6000.),
                          f1=pick(1040., 1100.),
                          f2=pick(1200., 1200., 1040.)))
    for p in ("fit", "calib", "coadd"):
        rep.compare("options of " + p, ARGP,
                    "scripts.qsonic_%s:get_parser" % p.replace(
                        "coadd", "coadd_deltas"),
                    code=p + "_code", spec=p + "_spec",
                    gens=dict(v=pick(-.5, 0., .2, .6, 1., 1.5, 3.)))
    g = dict(w1=pick(3600., 3700.), w2=pick(5000., 6000.),
             f1=pick(1040., 1000.), f2=pick(1200., 1180.),
             minr=pick(0., 1.), minf=pick(0., 1.), skip=pick(.1, .2, .5),
             smooth=pick(0., 16., -1., .5), t0=integers(1, 9),
             t1=integers(11, 19), t2=integers(21, 29), nit=integers(1, 9),
             order=integers(0, 4), lo=integers(0, 4), hi=integers(5, 99),
             nw=integers(2, 9), nv=integers(5, 99), v1=uni(0, 1),
             v2=uni(1, 20))
    rep.compare("reader", REACH, "io:get_spectra_reader_function",
                code="reader_code", spec="reader_spec", gens=g)
    for fn, a in (("read", "mpi_read_spectra_local_queue"),
                  ("cal", "mpi_noise_flux_calibrate"),
                  ("masks", "mpi_read_masks"),
                  ("cont", "mpi_continuum_fitting"),
                  ("run", "mpi_run_all")):
        rep.compare(a, REACH, "scripts.qsonic_fit:" + a, code=fn + "_code",
                    spec=fn + "_spec", gens=g)
    rep.compare("calib mpi_run_all", REACH,
                "scripts.qsonic_calib:mpi_run_all", code="calib_code",
                spec="calib_spec", gens=g)
