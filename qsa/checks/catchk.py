"""The catalog: validation, selection, order, and its distribution."""
from .common import *

NQ = 9
TYPES = dict(TARGETID="i8", Z="f8", TARGET_RA="f8", RA="f8", TARGET_DEC="f8",
             DEC="f8", SURVEY="U7", COADD_LASTNIGHT="i8", LAST_NIGHT="i8",
             LASTNIGHT="i8", TILEID="i8", PETAL_LOC="i8", HPXPIXEL="i8",
             VMIN_CIV_450=("f8", (3,)), EXTRA="f8", PROGRAM="U6")


def table(cols, dup=.15, n=NQ, zs=(2., 2.1, 2.5, 3., 3.4)):
    """any table with these columns; now and then a repeated target"""
    def g(E, rng, r):
        a = np.zeros(n, dtype=[(c,) + (TYPES[c] if isinstance(
            TYPES[c], tuple) else (TYPES[c],)) for c in cols])
        for c in cols:
            x = a[c]
            if c == "TARGETID":
                x[:] = rng.permutation(50)[:n] + 100
                if rng.random() < dup:
                    x[int(rng.integers(n))] = x[int(rng.integers(n))]
                if "TILEID" in cols and rng.random() < .5:
                    x[1] = x[4]
            elif c == "Z":
                x[:] = rng.choice(zs, size=n)
            elif c == "SURVEY":
                x[:] = rng.choice(["main", "sv1", "sv3"], size=n)
            elif c == "PROGRAM":
                x[:] = rng.choice(["dark", "bright"], size=n)
            elif x.dtype.kind == "i":
                x[:] = rng.integers(1, 4, size=n) + 7 * cols.index(c)
            else:
                x[...] = rng.uniform(5, 60, size=x.shape)
        return a
    return g


CAT = '''
import numpy as np
from healpy import ang2pix
import qsonic.catalog as CA

class HDU:
    def __init__(self, name, t, cols):
        self.name = name
        self.t = t
        self.cols = cols
    def get_extname(self):
        return self.name
    def get_colnames(self):
        return list(self.cols)
    def read(self, *a, **k):
        if 'columns' in k:
            return self.t[list(k['columns'])]
        return self.t
    def __getitem__(self, k):
        return self.t[k]

class FITS:
    def __init__(self, hdus):
        self.h = hdus
    def __iter__(self):
        return iter(self.h)
    def __len__(self):
        return len(self.h)
    def __contains__(self, k):
        return k in [h.name for h in self.h]
    def __getitem__(self, k):
        for i in range(len(self.h)):
            if k == i or k == self.h[i].name:
                return self.h[i]
        raise IOError('no such extension')
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        pass

def catfits():
    hdus = [HDU('', TABLE('other', ['X']), ['X'])]
    if POS == 2:
        hdus.append(HDU('EXTRA', TABLE('other', ['X']), ['X']))
    hdus.append(HDU(EXTNAME, TABLE('cat', COLS), COLS))
    return FITS(hdus)

class fake_fitsio:
    @staticmethod
    def FITS(fname, *a, **k):
        return catfits()
    @staticmethod
    def read(fname, ext=None, columns=None, **k):
        f = catfits()
        return f[ext].read(columns=columns)

CA.fitsio = fake_fitsio

def one(*names):
    for n in names:
        if n in COLS:
            return n
    raise Exception('missing column')

def selected():
    """the rows in the order the documentation promises"""
    c = TABLE('cat', COLS)
    ra = one('RA', 'TARGET_RA')
    dec = one('DEC', 'TARGET_DEC')
    one('TARGETID')
    one('Z')
    if not MOCK:
        one('SURVEY')
        one('LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT')
    if TILE:
        one('TILEID')
        one('PETAL_LOC')
        u = np.unique(c[['TARGETID', 'TILEID']])
    else:
        u = np.unique(c['TARGETID'])
    if u.size != c['TARGETID'].size:
        raise Exception('duplicates')
    w = (c['Z'] >= SCAL('z1')) & (c['Z'] <= SCAL('z2'))
    if KEEP is not None and 'SURVEY' in COLS:
        s = c['SURVEY'] == KEEP[0]
        for k in KEEP[1:]:
            s = s | (c['SURVEY'] == k)
        w = w & s
    idx = np.nonzero(w)[0]
    if idx.size == 0:
        raise Exception('empty')
    if 'HPXPIXEL' in COLS:
        pix = c['HPXPIXEL'][idx]
    else:
        pix = ang2pix(16 if MOCK else 64, c[ra][idx], c[dec][idx],
                      lonlat=True, nest=True)
    if TILE:
        o = np.lexsort((c['TARGETID'][idx], c['PETAL_LOC'][idx],
                        c['TILEID'][idx]))
    elif 'SURVEY' in COLS:
        o = np.lexsort((c['TARGETID'][idx], c['SURVEY'][idx], pix))
    else:
        o = np.lexsort((c['TARGETID'][idx], pix))
    idx = idx[o]
    out = {'HPXPIXEL': pix[o], 'RA': c[ra][idx], 'DEC': c[dec][idx]}
    for n in COLS:
        if n in ('TARGETID', 'Z', 'SURVEY', 'TILEID', 'PETAL_LOC', 'PROGRAM',
                 'VMIN_CIV_450', 'LASTNIGHT'):
            out[n] = c[n][idx]
    if 'LASTNIGHT' not in COLS:
        for n in ('COADD_LASTNIGHT', 'LAST_NIGHT'):
            if n in COLS and 'LASTNIGHT' not in out:
                out['LASTNIGHT'] = c[n][idx]
    return out

def spec():
    return selected()

def names():
    n = ['RA', 'DEC', 'HPXPIXEL'] + [
        k for k in ('TARGETID', 'Z', 'SURVEY', 'TILEID', 'PETAL_LOC',
                    'PROGRAM', 'VMIN_CIV_450') if k in COLS]
    if [k for k in COLS if 'NIGHT' in k]:
        n.append('LASTNIGHT')
    return n

def code():
    c = CA.read_quasar_catalog('f', MOCK, TILE, KEEP, SCAL('z1'),
                               SCAL('z2'))
    return {n: c[n] for n in names()}

def code_def():
    c = CA.read_quasar_catalog('f', keep_surveys=KEEP)
    d = CA.mpi_read_quasar_catalog('f', keep_surveys=KEEP)
    return {'r': {n: c[n] for n in names()}, 'm': {n: d[n] for n in names()}}

def spec_def():
    s = selected()
    return {'r': s, 'm': s}

ARGS = []

def rec(filename, is_mock=False, is_tile=False, keep_surveys=None, zmin=0,
        zmax=100.0):
    ARGS.append({'f': filename, 'm': is_mock, 't': is_tile,
                 'k': keep_surveys, 'z1': zmin, 'z2': zmax})
    return TABLE('cat', COLS)

def code_args():
    CA.read_quasar_catalog = rec
    CA.mpi_read_quasar_catalog('f', None, 0, BOOL('mock'), BOOL('tile'),
                               ['main'], SCAL('z1'), SCAL('z2'))
    CA.mpi_read_quasar_catalog('g', is_tile=BOOL('tile'))
    return ARGS

def spec_args():
    return [{'f': 'f', 'm': BOOL('mock'), 't': BOOL('tile'), 'k': ['main'],
             'z1': SCAL('z1'), 'z2': SCAL('z2')},
            {'f': 'g', 'm': False, 't': BOOL('tile'), 'k': None, 'z1': 0,
             'z2': 100.}]

def code_mpi():
    c = CA.mpi_read_quasar_catalog('f', None, 0, MOCK, TILE, KEEP,
                                   SCAL('z1'), SCAL('z2'))
    return {n: c[n] for n in names()}
'''

FULL = ["TARGETID", "Z", "TARGET_RA", "TARGET_DEC", "SURVEY",
        "COADD_LASTNIGHT", "EXTRA", "PROGRAM"]
MOCKC = ["TARGETID", "RA", "DEC", "Z", "EXTRA"]
TILEC = ["Z", "TARGETID", "RA", "TARGET_DEC", "SURVEY", "LASTNIGHT",
         "TILEID", "PETAL_LOC", "LAST_NIGHT"]
CASES = [
    ("data", FULL, 0, 0, ["main"]),
    ("data-surveys", FULL, 0, 0, ["sv1", "main"]),
    ("data-all", FULL, 0, 0, None),
    ("data-lastnight", ["TARGETID", "Z", "TARGET_RA", "RA", "TARGET_DEC",
                        "DEC", "SURVEY", "LAST_NIGHT", "HPXPIXEL"],
     0, 0, ["sv3", "main"]),
    ("data-night3", ["LAST_NIGHT", "COADD_LASTNIGHT", "TARGETID", "Z", "RA",
                     "DEC", "SURVEY", "VMIN_CIV_450", "PROGRAM"],
     0, 0, None),
    ("mock", MOCKC, 1, 0, None),
    ("mock-pix", MOCKC + ["HPXPIXEL"], 1, 0, ["main"]),
    ("mock-survey", MOCKC + ["SURVEY"], 1, 0, ["main", "sv1"]),
    ("tile", TILEC, 0, 1, ["main", "sv1", "sv3"]),
    ("tile-all", TILEC, 0, 1, None),
]


def head(cols, mock, tile, keep, ext="ZCATALOG", pos=1):
    return (f"MOCK = {bool(mock)}\nTILE = {bool(tile)}\nKEEP = {keep!r}\n"
            f"COLS = {cols!r}\nEXTNAME = {ext!r}\nPOS = {pos}\n")


def gens(cols, **k):
    return dict(cat=table(cols, **k), other=lambda E, rng, r: np.zeros(3, dtype=[('X', 'f8')]),
                z1=pick(0., 2., 2.1, 2.4), z2=pick(2.5, 3., 3.2, 3.4, 2.1))


def pix(E, ns, ra, dec, lonlat=False, nest=False, **k):
    s = (3 if ns == 16 else 5) + (1 if lonlat else 0) + 2 * bool(nest)
    return (np.asarray(ra) * s + np.asarray(dec) * 1.7).astype(int) % 5


UFN = {"healpy.ang2pix": pix, "ang2pix": pix}


def check_C06(rep):
    a = {None: "catalog:read_quasar_catalog",
         "HPXPIXEL": "catalog:_add_healpix"}
    for name, cols, mock, tile, keep in CASES:
        rep.compare("read/" + name, head(cols, mock, tile, keep) + CAT, a,
                    gens=gens(cols), ufn=UFN)
    for ext, pos in (("QSO_CAT", 2), ("METADATA", 2), ("FOO", 1)):
        rep.compare(f"read/ext-{ext}", head(FULL, 0, 0, ["main"], ext, pos)
                    + CAT, "catalog:_read", gens=gens(FULL), ufn=UFN)
    for drop, cols, mock, tile in (
            ("TARGETID", FULL, 0, 0), ("Z", FULL, 0, 0),
            ("TARGET_RA", FULL, 0, 0), ("TARGET_DEC", FULL, 0, 0),
            ("SURVEY", FULL, 0, 0), ("COADD_LASTNIGHT", FULL, 0, 0),
            ("TARGETID", MOCKC, 1, 0), ("RA", MOCKC, 1, 0),
            ("TILEID", TILEC, 0, 1), ("PETAL_LOC", TILEC, 0, 1),
            ("SURVEY", TILEC, 0, 1)):
        c = [x for x in cols if x != drop]
        rep.compare(f"missing/{drop}-{'mt'[tile] if mock or tile else 'd'}",
                    head(c, mock, tile, ["main"]) + CAT,
                    "catalog:_check_required_columns", gens=gens(c), ufn=UFN)
    rep.compare("mpi-read", head(FULL, 0, 0, ["main", "sv1"]) + CAT,
                "catalog:mpi_read_quasar_catalog", code="code_mpi",
                gens=gens(FULL), ufn=UFN)
    rep.compare("mpi-arguments", head(FULL, 0, 0, ["main"]) + CAT,
                "catalog:mpi_read_quasar_catalog", code="code_args",
                spec="spec_args", gens=gens(FULL), ufn=UFN)
    rep.compare("defaults", head(FULL, 0, 0, ["main", "sv1"]) + CAT,
                "catalog:read_quasar_catalog", code="code_def",
                spec="spec_def", ufn=UFN,
                gens=dict(gens(FULL, zs=(.5, 2.3, 6., 50.)), z1=const(0.),
                          z2=const(100.)))


BAL = '''
import numpy as np
import qsonic.mpi_utils as MU

class Cat:
    def __init__(self, i, n):
        self.id = i
        self.size = n
    def __len__(self):
        return self.size

def counts(q, n):
    return [sum([1 for x in q for c in x if c.id == i]) for i in range(n)]

def code_bal(n, m):
    q = MU.balance_load([Cat(i, INTSYM('n' + str(i))) for i in range(n)], m)
    return {'ranks': len(q), 'counts': counts(q, n)}

def spec_bal(n, m):
    return {'ranks': m, 'counts': [1 for i in range(n)]}
'''

QUEUE = CAT + '''
C = COMMOBJ('comm')

def queue():
    return CA.mpi_get_local_queue('f', C, C.Get_rank(), NR, MOCK,
                                  TILE, KEEP, SCAL('z1'), SCAL('z2'))

def code():
    q = queue()
    key = 'TILEID' if TILE else 'HPXPIXEL'
    out = {}
    # how often each row of the file is handled, over all ranks
    if TILE:
        n = [sum([np.sum((c['TARGETID'] == t) & (c['TILEID'] == l))
                  for c in q]) for t, l in rows()]
    else:
        n = [sum([np.sum(c['TARGETID'] == t) for c in q]) for t, l in rows()]
    out['handled'] = C.allreduce(np.array(n))
    # ranks that hold a pixel, pieces it is cut into
    m = [sum([1 for c in q if np.any(c[key] == p)]) for p in pixels()]
    out['pieces'] = C.allreduce(np.array(m))
    out['empty'] = C.allreduce(sum([1 for c in q if c.size == 0]))
    out['mixed'] = C.allreduce(sum([1 for c in q if np.unique(
        c[key]).size > 1]))
    return out

def rows():
    c = TABLE('cat', COLS)
    t = c['TARGETID']
    l = c['TILEID'] if TILE else t
    return [(t[i], l[i]) for i in range(NQ)]

def pixels():
    return [7 * COLS.index('TILEID' if TILE else 'HPXPIXEL') + i
            for i in range(1, 4)]

def spec():
    s = selected()
    key = 'TILEID' if TILE else 'HPXPIXEL'
    if TILE:
        n = [np.sum((s['TARGETID'] == t) & (s['TILEID'] == l))
             for t, l in rows()]
    else:
        n = [np.sum(s['TARGETID'] == t) for t, l in rows()]
    m = [1 * np.any(s[key] == p) for p in pixels()]
    return {'handled': np.array(n), 'pieces': np.array(m), 'empty': 0,
            'mixed': 0}
'''

FILES = '''
import glob
import numpy as np
import qsonic.io
import qsonic.scripts.qsonic_calib as QC

class fake_glob:
    @staticmethod
    def glob(p, *a, **k):
        return ['f' + str(i) for i in range(NF)]

class A:
    input_dir = 'd'

def read(f):
    return [f]

def mine(r, m):
    return QC.mpi_read_all_deltas(A(), None, r, m)

class Ranked:
    """a communicator seen by one rank after the other"""
    def __init__(self, r, m, log):
        self.r = r
        self.m = m
        self.log = log
        self.k = 0
    def bcast(self, x, root=0):
        if self.r == 0:
            self.log.append(x)
        self.k += 1
        return self.log[self.k - 1]
    def Get_rank(self):
        return self.r
    def Get_size(self):
        return self.m

def code_shared(m):
    """the order of a directory listing is that of each rank"""
    qsonic.io.read_deltas = read
    log = []
    got = []
    for r in range(m):
        class Order:
            @staticmethod
            def glob(p, *a, **k):
                return ['f' + str((i + r) % NF) for i in range(NF)]
        QC.glob = Order
        for x in QC.mpi_read_all_deltas(A(), Ranked(r, m, log), r, m):
            for f in x:
                got.append(f)
    return {'counts': [len([g for g in got if g == 'f' + str(i)])
                       for i in range(NF)], 'n': len(got)}

def code_files(m):
    QC.glob = fake_glob
    qsonic.io.read_deltas = read
    got = [f for r in range(m) for x in mine(r, m) for f in x]
    return {'counts': [len([g for g in got if g == 'f' + str(i)])
                       for i in range(NF)], 'n': len(got)}

def spec_files(m):
    return {'counts': [1 for i in range(NF)], 'n': NF}
'''


def check_C04(rep):
    deep = rep.tier == "thorough"
    for n, m in ((0, 2), (1, 1), (2, 3), (3, 2), (4, 3), (5, 2)) + (
            ((5, 4), (6, 3), (7, 2)) if deep else ()):
        src = BAL + f"""
def code():
    return code_bal({n}, {m})
def spec():
    return spec_bal({n}, {m})
"""
        rep.compare(f"balance/{n}-{m}", src, "mpi_utils:balance_load",
                    opts=dict(sortkeep=True),
                    gens={f"n{i}": integers(0, 6) for i in range(n)})
    h = FULL + ["HPXPIXEL"]
    for name, cols, mock, tile, keep in (
            ("data", h, 0, 0, ["main", "sv1"]), ("all", h, 0, 0, None),
            ("mock", MOCKC + ["HPXPIXEL"], 1, 0, None),
            ("tile", TILEC, 0, 1, None)):
        for nr in (1, 2, 4) if name == "data" or deep else (2, 3):
            src = f"NQ = 6\nNR = {nr}\n" + head(cols, mock, tile, keep) + QUEUE
            rep.compare(f"queue/{name}-{nr}", src,
                        "catalog:mpi_get_local_queue",
                        opts=dict(sortkeep=True),
                        gens=gens(cols, n=6, dup=.05), ufn=UFN, nrank=nr,
                        ranks=tuple(range(nr)))
    for nf, m in ((2, 2), (4, 3), (5, 2)) + ((7, 4), (9, 3)) * deep:
        rep.compare(f"files/shared-{nf}", f"NF = {nf}\n" + FILES + f"""
def code():
    return code_shared({m})
def spec():
    return spec_files({m})
""", "scripts.qsonic_calib:mpi_read_all_deltas")
    for m in range(1, 5 + 4 * deep):
        for nf in range(0, 8 + 5 * deep):
            src = f"NF = {nf}\n" + FILES + f"""
def code():
    return code_files({m})
def spec():
    return spec_files({m})
"""
            rep.compare(f"files/{nf}-{m}", src,
                        "scripts.qsonic_calib:mpi_read_all_deltas")
