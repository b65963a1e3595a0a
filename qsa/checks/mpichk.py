"""SPMD: same collectives on every rank, failures, reductions, writers."""
from .common import *

PRE = '''
import argparse
import numpy as np
import qsonic
from qsonic import QsonicException
import qsonic.mpi_utils as MU
import qsonic.catalog as CA
import qsonic.masks as MA
import qsonic.calibration as CL
import qsonic.io as IO
import qsonic.spectrum as SP
import qsonic.mathtools as MT
import qsonic.picca_continuum as PC
import qsonic.scripts.qsonic_fit as QF
import qsonic.scripts.qsonic_calib as QC

C = COMMOBJ('comm')
R = C.Get_rank()

class Args:
    pass

def local(n, mk, key='L_has'):
    """what this rank holds: any subset, also nothing"""
    return [mk(i) for i in range(n) if BOOL(key + str(i))]
'''
FITS = '''
class HDU:
    def __init__(self, t):
        self.t = t
    def read(self, *a, **k):
        return self.t
    def read_header(self, *a, **k):
        return {}
    def get_colnames(self):
        return list(self.t.keys())

def TABLE(ext):
    return {'lambda': np.array([3600., 3700., 3800., 3900.]),
            'LAMBDA': np.array([3600., 3700., 3800., 3900.]),
            'stacked_flux': ARR('sf'), 'var_lss': ARR('vl'),
            'eta': ARR('et'), 'MEANFLUX': ARR('mf'), 'VAR_LSS': ARR('vl')}

class FITSf:
    def __init__(self, f, *a, **k):
        if BOOL('L_nofile'):
            raise OSError("no such file")
    def __getitem__(self, k):
        if BOOL('L_noext'):
            raise OSError("no such extension")
        return HDU(TABLE(k))
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass
    def write(self, *a, **k):
        pass
    def close(self):
        pass

class fake_fitsio:
    @staticmethod
    def FITS(f, *a, **k):
        return FITSf(f)
    @staticmethod
    def read(f, *a, **k):
        return FITSf(f)[1].read()

CL.fitsio = fake_fitsio
PC.fitsio = fake_fitsio
MA.fitsio = fake_fitsio
'''
UTIL = PRE + '''
def parse():
    p = argparse.ArgumentParser()
    p.add_argument("--a", default=1)
    return MU.mpi_parse(p, C, R, None, FN('logic'))

def reader(*a, **k):
    return OPAQUE('read')

def bcast():
    return MU.mpi_fnc_bcast(np.loadtxt, C, R, "msg", "f")

def queue():
    return CA.mpi_get_local_queue(
        "f", C, R, C.Get_size(), BOOL('mock'), BOOL('tile'))

def cat():
    return CA.mpi_read_quasar_catalog("f", C, R, BOOL('mock'))

def sky():
    return MA.SkyMask("f", C, R)

def dla():
    ids = np.array(local(2, lambda i: INTSYM('L_t' + str(i))))
    return MA.DLAMask("f", ids, C, R)

def ncal():
    return CL.NoiseCalibrator("f", C, R, add_varlss=BOOL('v'),
                              no_eta=BOOL('e'))

def fcal():
    return CL.FluxCalibrator("f", C, R)
'''


CALS = PRE + FITS + '''
def ncal():
    return CL.NoiseCalibrator("f", C, R, add_varlss=BOOL('v'),
                              no_eta=BOOL('e'))

def fcal():
    return CL.FluxCalibrator("f", C, R)

def interp():
    f = PC.PiccaContinuumFitter.__new__(PC.PiccaContinuumFitter)
    f.comm = C
    f.mpi_rank = R
    return f._get_fiducial_interp('f', 'MEANFLUX')
'''
ACC = PRE + '''
def curve_fit(f, x, y, **k):
    if BOOL('fail'):
        raise RuntimeError("no fit")
    return FN('cf')(y), FN('cv')(y)

class Spl:
    def __init__(self, x, y, w=None, **k):
        self.y = y
    def __call__(self, x):
        return FN('spl')(x)

PC.VarLSSFitter.min_num_pix = 0
PC.VarLSSFitter.min_num_qso = 0
PC.curve_fit = curve_fit
PC.UnivariateSpline = Spl

def stacker():
    s = PC.FluxStacker(3600., 4000., 100., np.array([1020., 1060., 1100.]),
                       40., comm=C)
    for i in local(2, lambda i: str(i)):
        s.add(ARR('L_w' + i), ARR('L_rf' + i), ARR('L_f' + i),
              ARR('L_c' + i), ARR('L_v' + i))
    s.calculate()

def varfit(cov):
    v = PC.VarLSSFitter(3600., 3840., 2, 0.1, 10., 6, nsubsamples=3,
                        use_cov=cov, comm=C)
    for i in local(2, lambda i: str(i)):
        v.add(ARR('L_w' + i), ARR('L_d' + i), ARR('L_v' + i))
    v.fit(0.1 * np.ones(2))

def varfit0():
    varfit(False)

def varfit1():
    varfit(True)

def subs():
    s = MT.SubsampleCov(3, 4)
    for i in local(2, lambda i: str(i)):
        s.add_measurement(ARR('L_x' + i), ARR('L_w' + i))
    s.allreduce(C, PC.MPI.IN_PLACE)
    s.get_mean_n_cov()
'''
CALIB = PRE + '''
class D:
    def __init__(self, i):
        i = str(i)
        self.targetid = INTSYM('L_t' + i)
        self.mean_snr = SCAL('L_snr' + i)
        self.wave = ARR('L_w' + i)
        self.delta = ARR('L_d' + i)
        self.ivar = ARR('L_v' + i)
        self.weight = ARR('L_u' + i)
        self.cont = ARR('L_c' + i)
        self.header = {'DELTA_LAMBDA': 100.}

def mkargs():
    a = Args()
    a.remove_targetid_list = 'x' if BOOL('rm') else None
    a.catalog = 'c' if BOOL('cat') else None
    a.mock_analysis = BOOL('mock')
    a.remove_bal_qsos = BOOL('bal')
    a.keep_surveys = ['main'] if BOOL('keep') else None
    a.input_dir = 'in'
    a.outdir = 'out'
    a.fbase = 'b'
    a.wave1 = 3600.
    a.wave2 = 3840.
    a.nwbins = 2
    a.var1 = 0.1
    a.var2 = 10.
    a.nvarbins = 6
    a.var_use_cov = BOOL('cov')
    a.min_snr = 0
    a.max_snr = 100.
    return a

def table(*a, **k):
    return {'TARGETID': ARR('t'), 'SURVEY': ARR('sv'),
            'VMIN_CIV_450': ARR2('a1'), 'VMAX_CIV_450': ARR2('a2'),
            'VMIN_CIV_2000': ARR2('a3'), 'VMAX_CIV_2000': ARR2('a4')}

def readcat(*a, **k):
    if BOOL('L_badcat'):
        raise OSError("cannot read")
    return table()

CA.read_quasar_catalog = readcat

def remove():
    return QC.mpi_set_targetid_list_to_remove(mkargs(), C, R)

def deltas():
    return QC.mpi_read_all_deltas(mkargs(), C, R, C.Get_size())

def stack():
    return QC.mpi_stack_fluxes(mkargs(), C, local(2, D))

class VF:
    def __init__(self, *a, **k):
        self.nwbins = 2
        self.waveobs = np.array([3660., 3780.])
        self.n = 0
    def add(self, w, d, v):
        self.n = self.n + 1
    def fit(self, g, *a, **k):
        C.allreduce(self.n)
        return g, g
    def write(self, s, *a, **k):
        pass

def run():
    QC.mpi_parse = lambda *a, **k: C.bcast(mkargs())
    QC.VarLSSFitter = VF
    QC.mpi_set_targetid_list_to_remove = \\
        lambda *a, **k: C.bcast(np.array([1, 2]))
    QC.mpi_read_all_deltas = lambda *a, **k: [local(2, D)]
    QC.mpi_stack_fluxes = lambda *a, **k: (C.allreduce(1), 1)
    QC.mpi_run_all(C, R, C.Get_size())
'''
FIT = PRE + FITS + '''
def mkargs():
    a = Args()
    for k in ('input_dir', 'catalog', 'outdir'):
        setattr(a, k, k)
    a.exposures = 'before' if BOOL('expb') else (
        'after' if BOOL('expa') else 'disable')
    a.coadd_arms = 'before' if BOOL('cob') else (
        'after' if BOOL('coa') else 'disable')
    a.arms = ['B', 'R']
    a.mock_analysis = BOOL('mock')
    a.skip_resomat = BOOL('skr')
    a.true_continuum = BOOL('true')
    a.tile_format = BOOL('tile')
    a.keep_surveys = ['main']
    a.save_by_hpx = BOOL('hpx')
    a.wave1 = 3600.
    a.wave2 = 6000.
    a.forest_w1 = 1040.
    a.forest_w2 = 1200.
    a.min_rsnr = SCAL('rsnr')
    a.min_forestsnr = SCAL('fsnr')
    a.skip = SCAL('skip')
    a.smoothing_scale = SCAL('smooth')
    a.noise_calibration = 'n' if BOOL('nc') else None
    a.flux_calibration = 'f' if BOOL('fc') else None
    a.varlss_as_additive_noise = BOOL('vadd')
    a.sky_mask = 's' if BOOL('sm') else ''
    a.bal_mask = BOOL('bm')
    a.dla_mask = 'd' if BOOL('dm') else ''
    a.eta_calib_ivar = False
    return a

class S:
    def __init__(self, i):
        i = str(i)
        self.i = i
        self.targetid = INTSYM('L_t' + i)
        self.hpix = INTSYM('L_h' + i)
        self.rsnr = SCAL('L_r' + i)
        self.z_qso = SCAL('L_z' + i)
        self.dwave = 0.8
        self.catrow = row(i)
        self.forestwave = {}
        if BOOL('L_arm' + i):
            self.forestwave['B'] = ARR('L_w' + i)
        self.cont_params = {'valid': BOOL('L_ok' + i),
                            'cont': {'B': ARR('L_c' + i)}}
        self._smoothing_scale = 1.
    def set_forest_region(self, *a):
        pass
    def remove_nonforest_pixels(self):
        pass
    def coadd_arms_forest(self, *a):
        pass
    def calc_continuum_chi2(self):
        pass
    def drop_short_arms(self, *a):
        pass
    def drop_arm(self, a):
        pass
    def slice(self, *a):
        pass
    def set_smooth_forestivar(self, *a):
        pass
    def set_forest_weight(self, *a):
        pass
    def is_long(self, *a):
        return BOOL('L_long' + self.i)
    def get_effective_meansnr(self):
        return SCAL('L_snr' + self.i)
    def write(self, f):
        pass

def row(i):
    return {'HPXPIXEL': INTSYM('L_h' + i), 'TARGETID': INTSYM('L_t' + i)}

class Cal:
    def __init__(self, f, comm, rank, *a, **k):
        comm.bcast(1)
    def apply(self, l):
        pass

class Cat:
    def __init__(self):
        self.c = {'TARGETID': np.array([INTSYM('L_t0'), INTSYM('L_t1')]),
                  'LASTNIGHT': ARR('L_n')}
        self.dtype = self
        self.names = ('TARGETID', 'LASTNIGHT')
    def __getitem__(self, k):
        return self.c[k]

def reader(*a, **k):
    return lambda cat: local(2, S)

def stub():
    QF.qsonic.io.get_spectra_reader_function = reader
    QF.qsonic.calibration.NoiseCalibrator = Cal
    QF.qsonic.calibration.FluxCalibrator = Cal

def read():
    stub()
    QF.mpi_read_spectra_local_queue(local(2, lambda i: Cat(), 'L_q'),
                                    mkargs(), C)

def calibrate():
    stub()
    QF.mpi_noise_flux_calibrate(local(2, S), mkargs(), C, R)

class Mask:
    def __init__(self, f, comm, rank, *a, **k):
        comm.bcast(1)
    def apply(self, s):
        pass

class DMask(Mask):
    def __init__(self, f, ids, comm, rank, *a, **k):
        comm.bcast(1)

class BMask:
    @staticmethod
    def check_catalog(c):
        pass
    @staticmethod
    def apply(s):
        pass

def masks():
    MA.SkyMask = Mask
    MA.BALMask = BMask
    MA.DLAMask = DMask
    QF.mpi_read_masks([Cat()] + local(2, lambda i: Cat(), 'L_q'),
                      mkargs(), C, R)

def masks0():
    MA.SkyMask = Mask
    MA.BALMask = BMask
    MA.DLAMask = DMask
    a = mkargs()
    a.bal_mask = False
    QF.mpi_read_masks(local(2, lambda i: Cat(), 'L_q'), a, C, R)

def select():
    stub()
    QF.mpi_read_calibrate_mask_select_spectra(
        local(1, lambda i: Cat(), 'L_q'), [Mask('', C, R)], mkargs(), C, R)

class Fitter:
    def __init__(self, args):
        C.bcast(2)
        self.varlss_interp = 1
        self.eta_interp = 1
    def iterate(self, l):
        C.allreduce(len(l))
    def save_contchi2_catalog(self, l):
        C.gather(len(l))

def cont():
    stub()
    QF.PiccaContinuumFitter = Fitter
    QF.mpi_continuum_fitting(local(2, S), mkargs(), C, R)

def expo():
    stub()
    QF.mpi_read_calibrate_mask_select_spectra = lambda q, m, a, c, r: (
        c.reduce(1), local(2, S, 'L_e'))[1]
    QF.np = NPX
    QF.mpi_read_exposures_after(local(1, S), [], mkargs(), C, R)

class NPX:
    array = np.array
    unique = np.unique
    split = np.split
    nonzero = np.nonzero
    concatenate = np.concatenate
    @staticmethod
    def hstack(rows):
        return hstack(rows)

class RowCat:
    def __init__(self, rows):
        self.rows = rows
        self.dtype = self
        self.names = ('TARGETID', 'SURVEY', 'HPXPIXEL')
    def __getitem__(self, k):
        if k in ('TARGETID', 'HPXPIXEL'):
            return np.array([r[k] for r in self.rows])
        return self
    def argsort(self, order=None):
        return np.arange(len(self.rows))

def hstack(rows):
    if len(rows) == 0:
        raise ValueError("need at least one array to concatenate")
    return RowCat(rows)

def run():
    QF.mpi_parse = lambda *a, **k: C.bcast(mkargs())
    QF.os_makedirs = lambda *a, **k: None
    CA.mpi_get_local_queue = lambda *a, **k: (
        C.scatter(1), [Cat()] + local(1, lambda i: Cat(), 'L_q'))[1]
    QF.mpi_read_masks = lambda *a, **k: (C.bcast(1), [])[1]
    QF.mpi_read_calibrate_mask_select_spectra = lambda *a, **k: (
        C.reduce(1), local(2, S))[1]
    QF.mpi_continuum_fitting = lambda *a, **k: (
        C.allreduce(1), local(2, S))[1]
    QF.mpi_read_exposures_after = lambda *a, **k: (
        C.reduce(1), local(2, S))[1]
    IO.save_deltas = lambda *a, **k: None
    QF.mpi_run_all(C, R, C.Get_size())
'''
def check_C01(rep):
    for fn, a in [("parse", "mpi_utils:mpi_parse"),
                  ("bcast", "mpi_utils:mpi_fnc_bcast"),
                  ("queue", "catalog:mpi_get_local_queue"),
                  ("cat", "catalog:mpi_read_quasar_catalog"),
                  ("sky", "masks:SkyMask.__init__"),
                  ("dla", "masks:DLAMask.__init__")]:
        rep.trace(fn, UTIL, a, fn=fn)
    g4 = dict(sf=arr(0, 2, 4), vl=arr(0, 2, 4), et=arr(0, 2, 4),
              mf=arr(0, 2, 4))
    for fn, a in [("ncal", "calibration:NoiseCalibrator.__init__"),
                  ("fcal", "calibration:FluxCalibrator.__init__"),
                  ("interp", "picca_continuum:PiccaContinuumFitter."
                             "_get_fiducial_interp")]:
        rep.trace(fn, CALS, a, fn=fn, gens=g4)
    for fn, a in [("stacker", "picca_continuum:FluxStacker.calculate"),
                  ("varfit0", "picca_continuum:VarLSSFitter.fit"),
                  ("varfit1", "picca_continuum:VarLSSFitter.fit"),
                  ("subs", "mathtools:SubsampleCov.allreduce")]:
        rep.trace(fn, ACC, a, fn=fn, gens=ACCG, exc=0.)
    for fn, a in [("remove", "scripts.qsonic_calib:"
                             "mpi_set_targetid_list_to_remove"),
                  ("deltas", "scripts.qsonic_calib:mpi_read_all_deltas"),
                  ("stack", "scripts.qsonic_calib:mpi_stack_fluxes"),
                  ("run", "scripts.qsonic_calib:mpi_run_all")]:
        rep.trace("calib/" + fn, CALIB, a, fn=fn, gens=ACCG)


    from . import fitter
    fitter.ranks(rep, "iterate/plain", True, num_iterations=2)
    fitter.ranks(rep, "iterate/eta", True, num_iterations=2,
                 var_fit_eta=True, normalize_stacked_flux=True,
                 eta_calib_ivar=True)
    fitter.ranks(rep, "iterate/fiducial", True, num_iterations=1,
                 fiducial_varlss='vl', fiducial_meanflux='mf')
    fitter.chi_ranks(rep, True)
    for fn in ("read", "calibrate", "masks", "masks0", "select", "cont",
               "expo", "run"):
        rep.trace("fit/" + fn, FIT, "scripts.qsonic_fit:" + {
            "read": "mpi_read_spectra_local_queue",
            "calibrate": "mpi_noise_flux_calibrate",
            "masks": "mpi_read_masks", "masks0": "mpi_read_masks",
            "select": "mpi_read_calibrate_mask_select_spectra",
            "cont": "mpi_continuum_fitting",
            "expo": "mpi_read_exposures_after",
            "run": "mpi_run_all"}[fn], fn=fn, gens=ACCG)


def few(a, b, n=3, zeros=0.):
    return arr(a, b, n, zeros)


ACCG = {"L_w*": few(3500, 4100), "L_rf*": few(950, 1150),
        "L_v*": few(.1, 4., zeros=.2), "L_x*": few(-1, 1),
        "L_u*": few(.1, 4., zeros=.2), "L_c*": few(.1, 4.)}


# ------------------------------------------------------------------ C03
SUBS = PRE + '''
NS = 3

def code(start):
    s = MT.SubsampleCov(4, NS, istart=start + (R if start == 2 else 0))
    if start == 2:
        # used before; every process begins with its own subsample again
        s.add_measurement(ARR('L_z'), ARR('L_q'))
        s.allreduce(C, PC.MPI.IN_PLACE)
        s.reset()
    for i in range(2):
        s.add_measurement(ARR('L_x' + str(i)), ARR('L_w' + str(i)))
    s.allreduce(C, PC.MPI.IN_PLACE)
    m, c = s.get_mean_n_cov()
    return {'mean': m[0], 'cov': c[0], 'var': s.get_mean_n_var()[1][0]}

def spec(start):
    W = []
    Y = []
    for j in range(NS):
        w = np.zeros(4)
        y = np.zeros(4)
        for i in range(2):
            if (i + start + (R if start == 2 else 0)) % NS == j:
                w = w + ARR('L_w' + str(i))
                y = y + ARR('L_x' + str(i))
        W.append(C.allreduce(w))
        Y.append(C.allreduce(y))
    tw = W[0] + W[1] + W[2]
    ty = Y[0] + Y[1] + Y[2]
    J = [(ty - Y[j]) / (tw - W[j]) for j in range(NS)]
    mj = (J[0] + J[1] + J[2]) / NS
    D = [x - mj for x in J]
    f = (NS - 1) / NS
    return {'mean': ty / tw,
            'cov': f * (np.outer(D[0], D[0]) + np.outer(D[1], D[1])
                        + np.outer(D[2], D[2])),
            'var': f * (D[0]**2 + D[1]**2 + D[2]**2)}
'''

SF = CALIB + '''
def stack_code():
    a = mkargs()
    a.wave2 = 4000.
    w, f = QC.mpi_stack_fluxes(a, C, local(2, D))
    return {'wave': w, 'flux': f}

def stack_spec():
    l = local(2, D)
    n = C.allreduce(len(l))
    ASSUME(n > 0)
    t = []
    u = []
    for j in range(5):
        a = 0
        b = 0
        for d in l:
            k = np.round((d.wave - 3600.) / 100.)
            a = a + np.sum(np.where(k == j, (1 + d.delta) * d.weight, 0))
            b = b + np.sum(np.where(k == j, d.weight, 0))
        t.append(a)
        u.append(b)
    t = C.allreduce(np.array(t))
    u = C.allreduce(np.array(u))
    return {'wave': np.array([3600., 3700., 3800., 3900., 4000.]),
            'flux': np.where(u > 0, t / np.where(u > 0, u, 1), 0)}
'''
NIGHT = FIT + '''
class QCat:
    def __init__(self, i):
        self.c = {'LASTNIGHT': ARR('L_n' + str(i))}
    def __getitem__(self, k):
        return self.c[k]

def night_code():
    got = []
    QF.mpi_parse = lambda *a, **k: C.bcast(mkargs())
    QF.os_makedirs = lambda *a, **k: None
    CA.mpi_get_local_queue = lambda *a, **k: [QCat(0), QCat(1)]
    SP.Spectrum.set_blinding = lambda n, a: got.append(n)
    QF.mpi_read_masks = lambda *a, **k: []
    QF.mpi_read_calibrate_mask_select_spectra = lambda *a, **k: []
    QF.mpi_continuum_fitting = lambda *a, **k: []
    QF.mpi_read_exposures_after = lambda *a, **k: []
    IO.save_deltas = lambda *a, **k: None
    QF.mpi_run_all(C, R, C.Get_size())
    return {'night': got}

def night_spec():
    if BOOL('mock'):
        return {'night': [None]}
    return {'night': [C.allreduce(np.max(np.concatenate(
        [ARR('L_n0'), ARR('L_n1')])), max)]}
'''


def grid(E, rng, r):
    x = 3600. + 100. * (int(rng.integers(-2, 4)) + np.arange(3))
    # exact up to rounding
    return x * (1 + 2e-12 * (rng.random(3) - .5)) if E.seed % 2 else x


def check_C03(rep):
    rk = dict(nrank=3, ranks=(0, 1, 2))
    rep.compare("stack_fluxes", SF, "scripts.qsonic_calib:mpi_stack_fluxes",
                code="stack_code", spec="stack_spec",
                gens={"L_w*": grid, "L_d*": few(-1, 1),
                      "L_v*": few(.1, 4., zeros=.3),
                      "L_u*": few(.1, 4., zeros=.3),
                      "L_c*": few(.1, 4.)}, **rk)
    rep.also("C05", "calibration file", fields=("mpi", "files", "guess"))
    rep.compare("last_night", NIGHT, "scripts.qsonic_fit:mpi_run_all",
                code="night_code", spec="night_spec",
                gens={"L_n*": ints(20210101, 20240101, 3)}, **rk)
    for st in (0, 1, 2):
        rep.compare(f"subsamples/{st}", SUBS + f'''
def c():
    return code({st})
def s():
    return spec({st})
''', "mathtools:SubsampleCov.allreduce", code="c", spec="s",
                    gens={"L_w*": arr(.3, 2, 4), "L_x*": arr(-1, 2, 4),
                          "L_q": arr(.3, 2, 4), "L_z": arr(-1, 2, 4)},
                    nrank=3, ranks=(0, 1, 2))

    from . import stack, fitter
    fitter.chi_ranks(rep)
    L = ["L_a", "L_b"]
    k = dict(comm=True, nrank=3, ranks=(0, 1, 2))
    stack.stacker(rep, "stack/ranks", [L], **k)
    stack.stacker(rep, "stack/rounds", [["L_c"], L], **k)
    stack.varstat(rep, "variance/ranks", [L], False, **k)
    stack.varstat(rep, "variance/cov", [["L_c"], L], True, **k)
    stack.varstat(rep, "variance/dense", [L], False, gens=stack.DG, **k)
    stack.varstat(rep, "variance/dense-cov", [["L_c"], L], True,
                  gens=stack.DG, **k)
    fitter.ranks(rep, "iterate/one", num_iterations=1)
    fitter.ranks(rep, "iterate/two", num_iterations=2)
    fitter.ranks(rep, "iterate/eta", num_iterations=2, var_fit_eta=True)
    fitter.ranks(rep, "iterate/fiducial", num_iterations=1,
                 fiducial_varlss='vl', fiducial_meanflux='mf')


MAINS = PRE + '''
def failing(comm, rank, size):
    if BOOL('expected'):
        raise QsonicException("expected")
    if BOOL('value'):
        raise ValueError("unexpected")
    if BOOL('os'):
        raise OSError("unexpected")
    if BOOL('memory'):
        raise RuntimeError("unexpected")

def ending(e):
    """(nonzero exit status, whole communicator ended)"""
    c = e.code
    if isinstance(c, tuple):
        return c[1] != 0 and c[1] is not None, True
    return c != 0 and c is not None, False

def end_of(M):
    M.mpi_run_all = failing
    try:
        M.main()
    except SystemExit as e:
        s, a = ending(e)
        return {'failed': bool(s), 'alone': BOOL('expected') or bool(a)}
    return {'failed': False, 'alone': True}

def spec():
    f = BOOL('expected') or BOOL('value') or BOOL('os') or BOOL('memory')
    return {'failed': f, 'alone': True}

def fit():
    return end_of(QF)

def calib():
    return end_of(QC)
'''

PARSE = PRE + '''
class Parser:
    def parse_args(self, o=None):
        if BOOL('L_bad'):
            raise SystemExit(2)
        if BOOL('L_help'):
            raise SystemExit(0)
        a = Args()
        a.x = SCAL('x')
        return a

def logic(a):
    return BOOL('L_logic')

def code():
    try:
        a = MU.mpi_parse(Parser(), C, R, None, logic)
    except SystemExit as e:
        return {'end': 'help' if e.code == 0 or e.code is None else 'bad',
                'x': 0}
    return {'end': 'run', 'x': a.x}

def spec():
    if C.bcast(BOOL('L_bad')):
        return {'end': 'bad', 'x': 0}
    if C.bcast(BOOL('L_help')):
        return {'end': 'help', 'x': 0}
    if not C.bcast(BOOL('L_logic')):
        return {'end': 'bad', 'x': 0}
    return {'end': 'run', 'x': SCAL('x')}
'''

ALLFAIL = PRE + FITS + '''
CA.fitsio = fake_fitsio

def cls_of(f):
    try:
        f()
    except QsonicException:
        return {'how': 'all'}
    except Exception as e:
        return {'how': 'other'}
    return {'how': 'ok'}

class Odd(Exception):
    pass

def reader(*a, **k):
    if BOOL('L_nofile'):
        raise OSError('x')
    if BOOL('L_key'):
        raise KeyError('x')
    if BOOL('L_bad'):
        raise Odd('x')
    return SCAL('x')

def spec_fnc():
    if C.bcast(BOOL('L_nofile') or BOOL('L_key') or BOOL('L_bad')):
        return {'how': 'all', 'x': 0}
    return {'how': 'ok', 'x': SCAL('x')}

def code_fnc():
    try:
        x = MU.mpi_fnc_bcast(reader, C, R, "msg", 1, a=2)
    except QsonicException:
        return {'how': 'all', 'x': 0}
    return {'how': 'ok', 'x': x}

def spec_serial():
    if BOOL('L_nofile') or BOOL('L_key') or BOOL('L_bad'):
        return {'how': 'all', 'x': 0}
    return {'how': 'ok', 'x': SCAL('x')}

def code_serial():
    try:
        x = MU.mpi_fnc_bcast(reader, None, 0, "msg", 1, a=2)
    except QsonicException:
        return {'how': 'all', 'x': 0}
    return {'how': 'ok', 'x': x}

def spec():
    if C.bcast(BOOL('L_nofile') or BOOL('L_noext')):
        return {'how': 'all'}
    return {'how': 'ok'}

def code_fcal():
    return cls_of(lambda: CL.FluxCalibrator("f", C, R))

def code_ncal():
    return cls_of(lambda: CL.NoiseCalibrator("f", C, R))

def fidu():
    f = PC.PiccaContinuumFitter.__new__(PC.PiccaContinuumFitter)
    f.comm = C
    f.mpi_rank = R
    return f._get_fiducial_interp('f', 'MEANFLUX')

def code_fidu():
    return cls_of(fidu)

def badcat():
    return BOOL('L_nofile')

def spec_cat():
    if C.bcast(BOOL('L_nofile')):
        return {'how': 'all'}
    return {'how': 'ok'}

def read_cat(*a, **k):
    if BOOL('L_nofile'):
        raise OSError('x')
    return SYM('catalog')

class Ext:
    def get_colnames(self):
        return ['TARGETID', 'Z_DLA', 'NHI']
    def read(self, *a, **k):
        return ARR('dlas')

class DFITS(FITSf):
    def __getitem__(self, k):
        if BOOL('L_noext'):
            raise OSError("no such extension")
        return Ext()

class dla_fitsio:
    @staticmethod
    def FITS(f, *a, **k):
        return DFITS(f)

def code_dla():
    MA.fitsio = dla_fitsio
    return cls_of(lambda: MA.DLAMask("f", None, C, R))

class Stop(Exception):
    pass

def code_dlafile():
    """what the shared reading of the file does when the file is bad"""
    MA.fitsio = dla_fitsio
    how = []
    def peek(fnc, comm=None, mpi_rank=0, msg="", *a, **k):
        try:
            fnc(*a, **k)
            how.append('ok')
        except Exception:
            how.append('all')
        raise Stop()
    MA.mpi_fnc_bcast = peek
    try:
        MA.DLAMask("f", None, C, R)
    except Stop:
        return {'how': how[0]}
    return {'how': OPAQUE('not seen')}

def spec_dlafile():
    if BOOL('L_nofile') or BOOL('L_noext'):
        return {'how': 'all'}
    return {'how': 'ok'}

def sky_read(*a, **k):
    if BOOL('L_nofile'):
        raise OSError('x')
    return ARR('sky')

def code_sky():
    MA.asread = sky_read
    return cls_of(lambda: MA.SkyMask("f", C, R))

def shared(*a, **k):
    if C.bcast(BOOL('L_nofile')):
        raise QsonicException("failed")
    return ARR('ids')

def code_ids():
    QC.mpi_fnc_bcast = shared
    a = Args()
    a.remove_targetid_list = 'x'
    a.catalog = None
    a.remove_bal_qsos = False
    a.keep_surveys = None
    return cls_of(lambda: QC.mpi_set_targetid_list_to_remove(a, C, R))

def shared_cat(*a, **k):
    if C.bcast(BOOL('L_nofile')):
        raise QsonicException("failed")
    return {'TARGETID': ARR('ids')}

def code_rmcat():
    CA.mpi_read_quasar_catalog = shared_cat
    a = Args()
    a.remove_targetid_list = None
    a.catalog = 'x'
    a.mock_analysis = BOOL('mock')
    a.remove_bal_qsos = False
    a.keep_surveys = None
    return cls_of(lambda: QC.mpi_set_targetid_list_to_remove(a, C, R))

def shared_list(*a, **k):
    if C.bcast(BOOL('L_nofile')):
        raise QsonicException("failed")
    return ['a', 'b', 'c']

def code_list():
    QC.mpi_fnc_bcast = shared_list
    IO.read_deltas = lambda f: []
    a = Args()
    a.input_dir = 'x'
    return cls_of(lambda: QC.mpi_read_all_deltas(a, C, R, 3))

class Failing:
    def __init__(self, f, *a, **k):
        if C.bcast(BOOL('L_nofile')):
            raise QsonicException("failed")
    def apply(self, l):
        pass

def code_calibrate():
    CL.NoiseCalibrator = Failing
    CL.FluxCalibrator = Failing
    a = Args()
    a.noise_calibration = 'x' if BOOL('nc') else None
    a.flux_calibration = 'x'
    return cls_of(lambda: QF.mpi_noise_flux_calibrate([], a, C, R))

def code_masks():
    MA.SkyMask = Failing
    a = Args()
    a.sky_mask = 'x'
    a.bal_mask = False
    a.dla_mask = None
    return cls_of(lambda: QF.mpi_read_masks([], a, C, R))

def balance(cats, n):
    return [[] for i in range(n)]

def code_queue():
    CA.balance_load = balance
    CA.read_quasar_catalog = read_cat
    return cls_of(lambda: CA.mpi_get_local_queue("f", C, R, 3))

def code_cat():
    CA.read_quasar_catalog = read_cat
    return cls_of(lambda: CA.mpi_read_quasar_catalog("f", C, R))

def loadtxt(*a, **k):
    if BOOL('L_nofile'):
        raise OSError('x')
    return ARR2('sky')

class NPX:
    loadtxt = loadtxt

def none_valid():
    f = PC.PiccaContinuumFitter.__new__(PC.PiccaContinuumFitter)
    f.comm = C
    f.mpi_rank = R
    class M:
        def fit_continuum(self, s):
            pass
    class S:
        pass
    f.model = M()
    S1 = S()
    S1.cont_params = {'valid': BOOL('L_v0')}
    S2 = S()
    S2.cont_params = {'valid': BOOL('L_v1')}
    f.fit_continua([S1, S2])

def code_valid():
    return cls_of(none_valid)

def spec_valid():
    n = C.allreduce((1 if BOOL('L_v0') else 0) + (1 if BOOL('L_v1') else 0))
    if n == 0:
        return {'how': 'all'}
    return {'how': 'ok'}
'''


def check_C02(rep):
    rk = dict(nrank=3, ranks=(0, 1, 2))
    for m in ("fit", "calib"):
        rep.compare(f"main/{m}", MAINS, f"scripts.qsonic_{m}:main", code=m,
                    opts=dict(abort="raise"), **rk)
    rep.compare("parse", PARSE, "mpi_utils:mpi_parse", **rk)
    rep.compare("fnc", ALLFAIL, "mpi_utils:mpi_fnc_bcast", code="code_fnc",
                spec="spec_fnc", **rk)
    rep.compare("serial", ALLFAIL, "mpi_utils:mpi_fnc_bcast",
                code="code_serial", spec="spec_serial", **rk)
    for n, a in (("fcal", "calibration:FluxCalibrator.__init__"),
                 ("ncal", "calibration:NoiseCalibrator.__init__"),
                 ("fidu", "picca_continuum:PiccaContinuumFitter."
                          "_get_fiducial_interp")):
        rep.compare(n, ALLFAIL, a, code="code_" + n, **rk)
    g = dict(dlas=lambda E, rng, r: np.zeros(2, dtype=[
        ("TARGETID", "i8"), ("Z_DLA", "f8"), ("NHI", "f8")]),
        sky=lambda E, rng, r: np.zeros(2, dtype=[
            ("type", "U5"), ("wave_min", "f8"), ("wave_max", "f8"),
            ("frame", "U5")]), ids=ints(0, 5))
    rep.compare("dla", ALLFAIL, "masks:DLAMask.__init__", code="code_dla",
                gens=g, **rk)
    rep.compare("dla file", ALLFAIL, "masks:DLAMask.__init__",
                code="code_dlafile", spec="spec_dlafile", gens=g, **rk)
    q = "scripts.qsonic_"
    for n, a in (("sky", "masks:SkyMask.__init__"),
                 ("ids", q + "calib:mpi_set_targetid_list_to_remove"),
                 ("rmcat", q + "calib:mpi_set_targetid_list_to_remove"),
                 ("list", q + "calib:mpi_read_all_deltas"),
                 ("calibrate", q + "fit:mpi_noise_flux_calibrate"),
                 ("masks", q + "fit:mpi_read_masks")):
        rep.compare(n, ALLFAIL, a, code="code_" + n, spec="spec_cat",
                    gens=g, **rk)
    for n, a in (("queue", "catalog:mpi_get_local_queue"),
                 ("cat", "catalog:mpi_read_quasar_catalog")):
        rep.compare(n, ALLFAIL, a, code="code_" + n, spec="spec_cat", **rk)
    rep.compare("no_valid_fit", ALLFAIL,
                "picca_continuum:PiccaContinuumFitter.fit_continua",
                code="code_valid", spec="spec_valid", **rk)
