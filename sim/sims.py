"""What each property is decided by: where its scenarios come from, what runs them, how many."""
import importlib


class Sim(object):
    """quick/thorough: (number of runs, cap in seconds)."""

    def __init__(self, pid, mod, quick, thorough, nontrivial, rule, level='exploration', real=(), stub=(), faults='', note='', size='ops'):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def scenario(self, seed, dry):
        return importlib.import_module(self.mod).scenario(self.pid, seed, dry)

    def run(self, aipy, scn, log=False):
        return importlib.import_module(self.mod).run(aipy, scn, log)


UVREAL = ['aipy/_miriad/miriad_wrap.cpp', 'aipy/_miriad/mir/{uvio,hio,dio,headio,pack,maskio,bug,scrio,...}.c', 'aipy/miriad.py']
UVSTUB = ['the disk: open/read/write/lseek/close/mkdir/rename/unlink/opendir/stat of the extension go to an in-memory file system (sim/simdisk.cpp, ld --wrap)']


def has(*kinds):
    return lambda res: sum(1 for s in res.get('sig', []) if s.rstrip('!') in kinds) >= 2


def fired(res):
    return any(s.endswith('!') for s in res.get('sig', []))


def crashed(res):
    return res.get('stats', {}).get('crashes', 0) >= 10


RW = 'a run whose sequence of ops and outcomes differs from every other run and which has at least two successful %s'
RF = 'a run whose sequence of ops and outcomes differs from every other run and in which an injected fault fired'
RC = 'a run whose sequence of ops and outcomes differs from every other run and which was crashed at 10 points or more'


def uv(pid, q, t, nt, rule, **kw):
    return Sim(pid, 'uvrun', q, t, nt, rule, real=UVREAL, stub=UVSTUB, **kw)


AAREAL = ['aipy/phs.py, amp.py, fit.py, pol.py, coord.py, healpix.py', 'aipy/_alm.cpp, _healpix.cpp', 'ephem', 'numpy']
AASTUB = ['the clock: ephem.now and ephem.julian_date', "numpy as aipy's modules see it: a proxy which can fail any call (MemoryError)"]


def aa(pid, q, t, nt, rule, **kw):
    return Sim(pid, 'aasim', q, t, nt, rule, real=AAREAL, stub=AASTUB, **kw)


def dec(pid, q, t, nt, rule, **kw):
    return Sim(pid, 'decsim', q, t, nt, rule, real=['aipy/deconv.py', 'aipy/_deconv/deconv.cpp', 'numpy'], stub=["numpy as aipy.deconv sees it: a proxy which can fail any call (MemoryError)", 'malloc of the extension: can fail'], **kw)

IMSTUB = ["numpy as aipy's modules see it: a proxy which can fail any call (MemoryError)", 'the disk of FITS files: a scratch directory with a seeded limit on file size (full disk), and files cut short']


SIMS = {s.pid: s for s in [
    uv('C01', (3200, 150), (40000, 780), has('write:ok', 'readall:ok', 'read:ok'), RW % 'record ops'),
    uv('C02', (3200, 150), (40000, 780), has('setvar:ok', 'write:ok'), RW % 'variable ops'),
    uv('C03', (4000, 150), (50000, 780), has('setitem:ok'), RW % 'header item ops'),
    uv('C04', (3200, 150), (40000, 780), has('open:ok', 'write:ok'), RW % 'open/write ops'),
    uv('C05', (900, 150), (8000, 780), crashed, RC, level='fault_enumeration'),
    uv('C06', (800, 150), (6000, 780), crashed, RC, level='fault_enumeration'),
    uv('C07', (3000, 150), (40000, 780), fired, RF),
    uv('C08', (3000, 150), (40000, 780), fired, RF),
    uv('C09', (2400, 150), (40000, 780), has('write:ok', 'readall:ok', 'read:ok'), RW % 'record ops'),
    uv('C10', (2400, 150), (30000, 780), fired, RF),
    uv('C11', (6000, 150), (50000, 780), has('read:ok', 'readall:ok', 'select:ok'), RW % 'selections or reads'),
    uv('C12', (3000, 150), (40000, 780), has('pipe:ok', 'copy1:ok', 'init:ok'), RW % 'copying ops'),
    uv('C13', (960, 150), (25000, 780), has('readfiles:ok'), RW % 'reads of sets of files'),
    uv('C14', (3000, 150), (40000, 780), has('write:ok', 'foreign:ok', 'read:ok', 'readall:ok'), RW % 'record ops'),
    Sim('C22', 'uvrun', (2000, 150), (40000, 780), fired, RF, real=UVREAL, stub=UVSTUB + ['malloc of the extension and the data of numpy arrays made during a call: any request can be refused']),
    Sim('C15', 'rotsim', (4000, 150), (60000, 780), lambda res: res.get('stats', {}).get('fault.damage') and sum(1 for s in res.get('sig', []) if s.split(':')[0] not in ('damage', 'open')) >= 1, 'a run whose sequence of ops and outcomes differs from every other run, with damage done to a data set and at least one call on it', real=UVREAL, stub=UVSTUB + ['malloc of the extension and of numpy: fresh and freed memory is filled, in two ways; requests over 32 MB are refused']),
    aa('C16', (4000, 150), (60000, 780), has('sim:ok', 'phs:ok', 'compute:ok'), RW % 'observations'),
    aa('C17', (3600, 150), (50000, 780), has('aset:ok', 'cset:ok', 'restore:ok', 'crestore:ok'), RW % 'parameter changes'),
    Sim('C19', 'imgsim', (2400, 150), (50000, 780), has('put:ok', 'get:ok', 'image:ok', 'grid:ok', 'fits:ok'), RW % 'imaging ops', real=['aipy/img.py', 'aipy/_dsp (grid.c, dsp.c)', 'astropy.io.fits', 'numpy'], stub=IMSTUB),
    Sim('C20', 'mapsim', (4000, 150), (80000, 780), has('add:ok', 'put:ok', 'read:ok', 'from:ok', 'alm:ok', 'fits:ok'), RW % 'map ops', real=['aipy/map.py, healpix.py, coord.py', 'aipy/_alm.cpp, _healpix.cpp, utils.cpp', 'astropy.io.fits', 'healpy', 'numpy'], stub=IMSTUB),
    Sim('C21', 'catsim', (3600, 150), (50000, 780), has('srcs:ok', 'catalog:ok', 'own:ok', 'meta:ok', 'compute:ok', 'srcs:missing', 'catalog:missing'), RW % 'catalogue requests', real=['aipy/src.py, aipy/_src/*.py', 'aipy/cal.py, fit.py, amp.py, phs.py', 'the Helmboldt files which come with aipy (one run in ten)', 'ephem', 'numpy'], stub=['catalogue files as VizieR writes them: generated, in a scratch directory', "open() as aipy's catalogue modules see it: can fail, or fail half-way through a file", "numpy as aipy's modules see it: a proxy which can fail any call (MemoryError)"]),
    dec('C18', (5000, 150), (100000, 780), lambda res: sum(1 for s in res.get('sig', []) if s.split(':')[0] != 'recenter') >= 2, RW % 'deconvolutions'),
]}
