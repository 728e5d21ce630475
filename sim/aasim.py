"""C16: the instrument model (antenna arrays, beams, source catalogues) against a simulated clock.

One run is one observing session: a virtual clock that is stepped, jumps and runs backwards, one or two
arrays, a catalogue they share, and interleaved ops that move the time, select channels, change, save
and restore parameters, point antennas, compute sources and observe.  Every call into numpy made by
aipy's modules goes through a seam that can fail it (MemoryError).  Observations are compared with a
reference that keeps nothing but the present time, channels and parameters."""
from __future__ import print_function
import copy, hashlib, json, math, random, sys, types
import numpy as np
import ephem, healpy
from scipy.special import j1
from uvsim import Violation

JD0 = 2415020.
FLAV = ('fit', 'fit', 'fit', 'amp', 'phs', 'pol')
STARS = [('s0', 0.3, 0.7), ('s1', 2.1, 0.45), ('s2', 3.9, -0.2), ('s3', 5.6, 1.1), ('s4', 1.2, 1.45), ('s5', 4.7, 0.6)]


# ------------------------------------------------------------------------------ workload
def scenario(pid, seed, dry):
    rng = random.Random(seed * 7919 + 13)
    flav = rng.choice(FLAV if pid == 'C16' else ('fit', 'fit', 'pol'))
    nch = rng.choice([1, 2, 3, 5, 8])
    cfg = {'flav': flav, 'nch': nch, 'f0': round(rng.uniform(.05, .2), 4), 'df': round(rng.uniform(.001, .01), 5),
           'clock': round(rng.uniform(2453000, 2459000), 5), 'arrays': [], 'srcs': []}
    for k in range(rng.choice([1, 1, 2])):
        cfg['arrays'].append(gen_array(rng, flav))
    if len(cfg['arrays']) == 2 and rng.random() < .5:
        # the second array is built alike, so that parameters can be carried over
        cfg['arrays'][1] = copy.deepcopy(cfg['arrays'][0])
        cfg['alike'] = True
    cfg['share_src'] = rng.random() < .3
    cfg['cal'] = rng.random() < .3
    cfg['cat'] = rng.choice(['list', 'args', 'add'])
    for nm, ra, dec in rng.sample(STARS, rng.randint(1, 5)):
        cfg['srcs'].append(['fixed', nm, ra + rng.uniform(-.3, .3), dec + rng.uniform(-.2, .2), src_prms(rng)])
    if rng.random() < .6:
        for nm in rng.sample(['Sun', 'Moon', 'Jupiter'], rng.randint(1, 2)):
            cfg['srcs'].append(['special', nm, 0, 0, src_prms(rng)])
    n = rng.choice([12, 30, 60, 110])
    faults = rng.random() < .5
    ops = []
    for k in range(len(cfg['arrays'])):
        ops.append(['jul', k, None])
        if flav != 'phs':
            ops.append(['pol', k, rng.choice(['xx', 'yy', 'xy', 'yx'])])
    if flav in ('fit', 'pol'):
        ops += [['snap', 0, 'A'], ['csnap', 'A']]
    todo = []
    while len(ops) < n:
        if not todo and flav != 'phs' and rng.random() < .08:
            # time moves, the sky is worked out, cached and simulated, with other ops in between
            a = rng.randrange(len(cfg['arrays']))
            todo = [['clock', rf(rng, -4e4, 4e4)], ['jul', a, None], ['compute', a], ['simcache', a] + ([None, rng.sample(['mfreq', 'ionref', 'srcshape'], rng.randint(1, 3))] if rng.random() < .2 else [])]
            for _ in range(rng.choice([1, 2, 4])):
                i, j = sel_ant(rng, cfg, a), sel_ant(rng, cfg, a)
                todo += [[rng.choice(['sim', 'sim', 'bm']), a, i, j]]
                if rng.random() < .6:
                    todo += [gen_op(rng, cfg)]
        o = todo.pop(0) if todo else gen_op(rng, cfg, pid)
        if faults and rng.random() < .25 and o[0] not in ('clock',):
            ops.append(['fault', rng.choice([1, 1, 2, 3, 4, 6, 9, 14])] + [o])
        else:
            ops.append(o)
    return {'seed': seed, 'profile': pid, 'cfg': cfg, 'ops': ops}


def rf(rng, a, b):
    return round(rng.uniform(a, b), 6)


def src_prms(rng):
    return {'jys': rf(rng, 1, 100), 'index': rf(rng, -2, 1), 'mfreq': rng.choice([.15, .15, .12, .178]),
            'ionref': [rf(rng, -.002, .002), rf(rng, -.002, .002)] if rng.random() < .5 else [0., 0.],
            'srcshape': [rf(rng, 0, .02), rf(rng, 0, .02), rf(rng, 0, 3)] if rng.random() < .5 else [0., 0., 0.]}


def gen_beam(rng, flav):
    t = rng.choice(['flat', 'gauss', 'poly', 'alm'] if flav != 'phs' else ['flat'])
    if t == 'gauss':
        return {'t': t, 'xw': rf(rng, .3, 2), 'yw': rf(rng, .3, 2)}
    if t == 'poly':
        a, f = rng.randint(1, 3), rng.randint(1, 3)
        if rng.random() < .25:
            return {'t': t, 'poly': [[.5]]}      # what a beam has when none is given
        return {'t': t, 'poly': [[rf(rng, .3, 1.) if (i, j) == (0, 0) else rf(rng, -.02, .02) for j in range(f)] for i in range(a)]}
    if t == 'alm':
        deg = rng.choice([0, 1, 2] * 4 + [10, 11])
        return {'t': t, 'deg': deg, 'nside': rng.choice([1, 2, 4]), 'coeffs': {str(c): [[rf(rng, -1, 1), rf(rng, -1, 1)] for _ in range(6)] for c in range(deg + rng.choice([1, 1, 1, 2])) if rng.random() < .8}}
    return {'t': 'flat'}


def pcoef(rng, n=None):
    return [rf(rng, -2, 2) for _ in range(n or rng.randint(1, 3))]


def gen_array(rng, flav):
    n = rng.choice([2, 2, 3, 4])
    shared = rng.random() < .6
    beams = [gen_beam(rng, flav) for _ in range(1 if shared else n)]
    ants = []
    for i in range(n):
        a = {'pos': [rf(rng, -300, 300), rf(rng, -300, 300), rf(rng, -50, 50)], 'beam': 0 if shared else i}
        if flav == 'pol':
            a['phsoff'] = {p: [rf(rng, -20, 20), rf(rng, -1, 1)] for p in 'xy'}
            for k in ('bp_r', 'bp_i'):
                a[k] = {p: pcoef(rng) for p in 'xy'}
            a['amp'] = {p: rf(rng, .5, 2) for p in 'xy'}
        else:
            if rng.random() < .6:
                a['phsoff'] = pcoef(rng, rng.choice([2, 2, 3]))
            if flav != 'phs':
                if rng.random() < .6:
                    a['bp_r'], a['bp_i'] = pcoef(rng), pcoef(rng)
                if rng.random() < .6:
                    a['amp'] = rf(rng, .5, 2)
        ants.append(a)
    return {'loc': [rf(rng, -60, 60), rf(rng, -180, 180), rng.choice([None, rf(rng, 0, 2000)])], 'beams': beams, 'ants': ants,
            'share': rng.random() < .5}   # hand the same coefficient objects to several antennas


def sel_ant(rng, cfg, a):
    return rng.randrange(len(cfg['arrays'][a]['ants']))


def gen_set(rng, cfg, a):
    """Parameters to set on array a."""
    arr = cfg['arrays'][a]
    out = {}
    for i in rng.sample(range(len(arr['ants'])), rng.randint(1, len(arr['ants']))):
        p = {}
        bt = arr['beams'][arr['ants'][i]['beam']]
        cands = ['x', 'y', 'z']
        if cfg['flav'] == 'pol':
            cands += [k + '_' + q for k in ('dly', 'off', 'phsoff', 'bp_r', 'bp_i', 'amp') for q in 'xy']
        else:
            cands += ['dly', 'off', 'phsoff', 'bp_r', 'bp_i', 'amp']
        cands += {'gauss': ['bm_xwidth', 'bm_ywidth'], 'poly': ['bm_poly'], 'alm': ['alm%d' % c for c in range(bt.get('deg', 0) + 1)]}.get(bt['t'], [])
        for k in rng.sample(cands, min(len(cands), rng.choice([1, 1, 2, 4]))):
            b = k.split('_')[0] if not k.startswith('b') else k
            if k in 'xyz':
                p[k] = rf(rng, -300, 300)
            elif b in ('dly', 'off', 'amp'):
                p[k] = rf(rng, .2, 5)
            elif b == 'phsoff':
                p[k] = pcoef(rng, rng.choice([2, 3]))
            elif k.startswith('bp_'):
                p[k] = pcoef(rng)
            elif k.startswith('bm_') and k != 'bm_poly':
                p[k] = rf(rng, .3, 2)
            elif k == 'bm_poly':
                sh = np.shape(bt['poly'])
                p[k] = [rf(rng, .3, 1.) if q == 0 else rf(rng, -.02, .02) for q in range(sh[0] * sh[1])]
            else:
                p[k] = [rf(rng, -1, 1) for _ in range(12)]
        out[str(i)] = p
    return out


def gen_op(rng, cfg, pid='C16'):
    a = rng.randrange(len(cfg['arrays']))
    i, j = sel_ant(rng, cfg, a), sel_ant(rng, cfg, a)
    flav = cfg['flav']
    names = [s[1] for s in cfg['srcs']]
    kinds = [('clock', 8), ('jul', 7), ('eph', 4), ('chans', 6), ('compute', 9), ('bl', 4), ('uvw', 3), ('phs', 6), ('p2s', 2), ('src', 3), ('two', 3), ('srcs', 2), ('site', 1)]
    if flav != 'phs':
        kinds += [('point', 3), ('pol', 4), ('simcache', 8), ('sim', 14), ('bm', 4), ('pass', 3)]
    if flav in ('fit', 'pol'):
        kinds += [('aset', 8), ('cset', 4), ('get', 4), ('snap', 4), ('restore', 5), ('csnap', 2), ('crestore', 3), ('cget', 2)]
    if pid == 'C17':
        kinds = [(k, w * (4 if k in ('aset', 'cset', 'get', 'snap', 'restore', 'csnap', 'crestore', 'cget') else 1)) for k, w in kinds]
    t = rng.uniform(0, sum(w for _, w in kinds))
    for k, w in kinds:
        t -= w
        if t < 0:
            break
    if k == 'clock':
        return ['clock', rng.choice([rf(rng, 0, 60), rf(rng, 0, 3600), rf(rng, 0, 86400), rf(rng, -86400, 0), rf(rng, -3e7, 3e7), 0.])]
    if k in ('jul', 'eph'):
        return [k, a, None if rng.random() < .6 else round(cfg['clock'] + rng.choice([0, rf(rng, -1, 1), rf(rng, -400, 400)]) - (JD0 if k == 'eph' else 0), 6)]
    if k == 'chans':
        n = cfg['nch']
        how = rng.random()
        if how < .2:
            ch = list(range(n))
        elif how < .35:
            ch = None
        elif how < .85:
            ch = sorted(rng.sample(range(n), rng.randint(1, n)))
        else:
            ch = [rng.randrange(n) for _ in range(rng.randint(1, n + 1))]
        return [k, a, ch] + (['each'] if rng.random() < .25 else [])
    if k == 'site':
        return [k, a, rf(rng, -60, 60), rf(rng, -180, 180)]
    if k == 'simcache' and rng.random() < .25:
        return [k, a, rng.sample(names, rng.randint(1, len(names)))]
    if k == 'simcache' and rng.random() < .25:
        return [k, a, None, rng.sample(['mfreq', 'ionref', 'srcshape'], rng.randint(1, 3))]
    if k in ('compute', 'simcache'):
        return [k, a]
    if k in ('bl', 'uvw'):
        return [k, a, i, j, rng.choice(['e', 'z', 'r'] + names)]
    if k == 'phs':
        kw = {}
        if rng.random() < .3:
            kw['ionref'] = [rf(rng, -.002, .002), rf(rng, -.002, .002)]
            kw['mfreq'] = rf(rng, .1, .2)
        if rng.random() < .5:
            kw['resolve_src'] = True
        return [k, a, i, j, rng.choice(names + ['z']), kw]
    if k == 'p2s':
        return [k, a, i, j, rng.choice(names)] + ([{'ionref': [rf(rng, -.002, .002), rf(rng, -.002, .002)], 'mfreq': rf(rng, .1, .2)}] if rng.random() < .3 else [])
    if k == 'two':
        return [k, a, i, j, rng.sample(names, rng.randint(1, len(names)))] + rng.choice([[], [], ['ion'], ['shape'], ['plain']])
    if k == 'srcs':
        return [k, rng.choice([None, rng.sample(names, rng.randint(1, len(names)))])]
    if k == 'src':
        return [k, rng.choice(names)]
    if k == 'point':
        return [k, a, i, rf(rng, 0, 6.28), rf(rng, .3, 1.57), rf(rng, -1, 1)]
    if k == 'pol':
        return [k, a, rng.choice(['xx', 'yy', 'xy', 'yx'])]
    if k in ('sim', 'bm', 'pass'):
        return [k, a, i, j]
    if k == 'aset':
        return [k, a, gen_set(rng, cfg, a)]
    if k == 'cset':
        p = {}
        for nm in rng.sample(names, rng.randint(1, len(names))):
            q = {'jys': rf(rng, 1, 100), 'index': rf(rng, -2, 1), 'a1': rf(rng, 0, .02), 'a2': rf(rng, 0, .02), 'th': rf(rng, 0, 3), 'dra': rf(rng, -.002, .002), 'ddec': rf(rng, -.002, .002)}
            if nm.startswith('s'):
                q.update(ra=rf(rng, 0, 6.28), dec=rf(rng, -.5, 1.5))
            p[nm] = {x: q[x] for x in rng.sample(sorted(q), rng.randint(1, 3))}
        return [k, p]
    if k == 'get':
        return [k, a, rng.choice([{'*': '*'}, {'*': ['x', 'dly' if flav == 'fit' else 'dly_x', 'amp', 'bp_r']}, {str(i): ['y', 'phsoff', 'bm_poly', 'alm0']}])]
    if k == 'snap':
        return [k, a, rng.choice('AB')]
    if k == 'csnap':
        return [k, rng.choice('AB')]
    if k == 'crestore':
        return [k, rng.choice('AB'), rng.choice(['plain', 'list', 'array'])]
    if k == 'cget':
        return [k, rng.choice([{'*': '*'}, {'*': ['jys', 'index', 'nosuch', 'th']}, {rng.choice(names): ['a1', 'dra', 'ddec']}, {rng.choice(names): '*', 'nosuch': '*'}])]
    b = rng.randrange(len(cfg['arrays'])) if cfg.get('alike') else a
    return ['restore', a, rng.choice('AB'), rng.choice(['plain', 'list', 'array']), b]


# ------------------------------------------------------------------------------ seams
class Clock(object):
    now = 0.


class Fault(MemoryError):
    pass


class Fn(object):
    """A function of numpy which can be made to fail; all else of it (ufunc.at, ...) is as it is."""

    def __init__(self, ctl, fn):
        self.__dict__.update(_ctl=ctl, _fn=fn, __doc__=fn.__doc__)

    def __call__(self, *a, **k):
        self._ctl.tick()
        return self._fn(*a, **k)

    def __getattr__(self, nm):
        v = getattr(self._fn, nm)
        if isinstance(self._fn, np.ufunc) and callable(v):
            return Fn(self._ctl, v)
        return v


class NP(object):
    """numpy as aipy's modules see it: a call can be made to fail."""

    def __init__(self, ctl, mod=np):
        self.__dict__.update(_ctl=ctl, _w={}, _mod=mod)

    def __getattr__(self, nm):
        v = getattr(self._mod, nm)
        sub = nm in ('fft', 'linalg') and self._mod is np
        if not sub and (isinstance(v, type) or not callable(v)):
            return v
        w = self._w.get(nm)
        if w is None:
            w = self._w[nm] = NP(self._ctl, v) if sub else Fn(self._ctl, v)
        return w


class Ctl(object):
    left = None
    fired = 0

    def arm(self, k):
        self.left = k

    def disarm(self):
        f = self.left is not None and self.left <= 0
        self.left = None
        return f

    def tick(self):
        if self.left is not None and self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.fired += 1
                raise Fault('injected allocation failure')


def install(aipy, ctl, mods=('phs', 'amp', 'fit', 'pol', 'coord', 'healpix')):
    p = NP(ctl)
    for m in mods:
        mod = getattr(aipy, m)
        if getattr(mod, 'np', None) is np:
            mod.np = p
    ephem.julian_date = lambda *a: Clock.now if not a else float(ephem.Date(a[0])) + JD0
    ephem.now = lambda: ephem.Date(Clock.now - JD0)


# ------------------------------------------------------------------------------ the reference
def eq2top(H, d):
    """Rotation of equatorial baseline coordinates to those seen by (hour angle, declination)."""
    sH, cH, sd, cd = math.sin(H), math.cos(H), math.sin(d), math.cos(d)
    return np.array([[sH, cH, 0], [-sd * cH, sd * sH, cd], [cd * cH, -cd * sH, sd]])


def rot(ang, ax):
    c, s = math.cos(ang), math.sin(ang)
    if ax == 'z':
        return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])
    return np.array([[c, 0, s], [0, 1., 0], [-s, 0, c]])


def poly(c, x):
    r = np.zeros_like(x)
    for k, v in enumerate(c):
        r = r + v * x ** (len(c) - 1 - k)
    return r


def airy(x):

    with np.errstate(all='ignore'):
        return np.where(x == 0, 1., 2 * j1(x) / np.where(x == 0, 1., x))


class Beam(object):
    def __init__(self, d):
        self.d = copy.deepcopy(d)

    def response(self, f, top):
        """-> (nfreq, nsrc)"""
        x, y, z = top
        t = self.d['t']
        if t == 'flat':
            return np.ones((f.size, x.size))
        if t == 'gauss':
            g = np.sqrt(np.exp(-.5 * ((np.arcsin(x) / self.d['xw']) ** 2 + (np.arcsin(y) / self.d['yw']) ** 2)))
            return np.ones((f.size, 1)) * g[None, :]
        if t == 'poly':
            p = np.array(self.d['poly'])
            sig = sum(p[:, n, None] * f[None, :] ** n for n in range(p.shape[1]))      # (az terms, freqs)
            az = np.pi / 2 - np.arctan2(y, x)
            zang = np.arctan2(np.hypot(x, y), z)
            s = .5 * sig[0][:, None] * np.ones((1, x.size))
            for m in range(1, p.shape[0]):
                s = s + sig[m][:, None] * np.cos(2 * m * az)[None, :]
            return np.sqrt(np.exp(-(zang[None, :] / s) ** 2))

        ns, deg = self.d['nside'], self.d['deg']
        th, phi = healpy.vec2ang(np.array([x, y, z]).T)
        px, w = healpy.get_interp_weights(ns, th, phi)
        out = np.zeros((f.size, x.size))
        for c in range(deg + 1):
            co = self.d['coeffs'].get(str(c))
            if co is None:
                continue
            m = healpy.alm2map(np.array([complex(*q) for q in co]), ns, lmax=2, mmax=2)
            out = out + (m[px] * w).sum(axis=0)[None, :] * f[:, None] ** c
        return out


class Arr(object):
    def __init__(self, cfg, d):
        self.flav = cfg['flav']
        self.freqs = np.arange(cfg['nch']) * cfg['df'] + cfg['f0']
        self.chans = list(range(cfg['nch']))
        self.beams = [Beam(b) for b in d['beams']]
        self.loc = d['loc']
        self.ants = []
        for a in d['ants']:
            a = copy.deepcopy(a)
            if self.flav != 'pol':
                a.setdefault('phsoff', [0., 0.])
                a.setdefault('bp_r', [1.])
                a.setdefault('bp_i', [0.])
                a.setdefault('amp', 1.)
            a['point'] = [0., math.pi / 2, 0.]
            self.ants.append(a)
        if d['share']:
            # the same objects were handed over; each antenna starts with the values of the first
            for a in self.ants[1:]:
                for k in ('phsoff', 'bp_r', 'bp_i', 'amp'):
                    a[k] = copy.deepcopy(self.ants[0][k])
        self.t = None           # ephem date
        self.pol = None
        self.cache = None       # sources of the last sim_cache, or None when time has moved since
        self.dirty = True       # something the cache depends on changed since
        self.lst = None

    def f(self):
        return self.freqs[self.chans]

    def observer(self):
        o = ephem.Observer()
        o.pressure = 0
        o.lat, o.long = math.radians(self.loc[0]), math.radians(self.loc[1])
        if self.loc[2] is not None:
            o.elev = self.loc[2]
        if self.t is not None:
            o.date, o.epoch = self.t, self.t
        return o

    def settime(self, t):
        self.t = t
        o = self.observer()
        self.date = float(o.date)
        self.lst = float(o.sidereal_time())
        self.lat = float(o.lat)
        self.cache, self.dirty = None, True

    def off(self, i, end):
        a = self.ants[i]
        c = a['phsoff'][self.pol[-1 if end else 0]] if self.flav == 'pol' else a['phsoff']
        return poly(c, self.f())

    def gain(self, i, end):
        a = self.ants[i]
        if self.flav == 'pol':
            p = self.pol[-1 if end else 0]
            br, bi, am = a['bp_r'][p], a['bp_i'][p], a['amp'][p]
        else:
            br, bi, am = a['bp_r'], a['bp_i'], a['amp']
        return am * (poly(br, self.f()) + 1j * poly(bi, self.f()))

    def bl(self, i, j):
        return np.array(self.ants[j]['pos']) - np.array(self.ants[i]['pos'])

    def params(self, i):
        a = self.ants[i]
        x, y, z = a['pos']
        r = {'x': x, 'y': y, 'z': z}
        if self.flav == 'pol':
            for p in 'xy':
                r.update({'dly_' + p: a['phsoff'][p][-2], 'off_' + p: a['phsoff'][p][-1], 'phsoff_' + p: list(a['phsoff'][p]),
                          'bp_r_' + p: list(a['bp_r'][p]), 'bp_i_' + p: list(a['bp_i'][p]), 'amp_' + p: a['amp'][p]})
        else:
            r.update({'dly': a['phsoff'][-2], 'off': a['phsoff'][-1], 'phsoff': list(a['phsoff']), 'bp_r': list(a['bp_r']), 'bp_i': list(a['bp_i']), 'amp': a['amp']})
        b = self.beams[a['beam']].d
        if b['t'] == 'gauss':
            r.update(bm_xwidth=b['xw'], bm_ywidth=b['yw'])
        elif b['t'] == 'poly':
            r.update(bm_poly=list(np.array(b['poly']).flatten()))
        elif b['t'] == 'alm':
            for c in range(b['deg'] + 1):
                r['alm%d' % c] = list(np.array(b['coeffs'].get(str(c), [[0., 0.]] * 6)).flatten())
        return r

    def setparams(self, i, p):
        a = self.ants[i]
        b = self.beams[a['beam']].d
        for q, k in enumerate('xyz'):
            if k in p:
                a['pos'][q] = p[k]
        for s in (('_x', '_y') if self.flav == 'pol' else ('',)):
            tgt = (lambda k: a[k][s[1]]) if s else (lambda k: a[k])

            def put(k, v):
                if s:
                    a[k][s[1]] = v
                else:
                    a[k] = v
            if 'dly' + s in p:
                tgt('phsoff')[-2] = p['dly' + s]
            if 'off' + s in p:
                tgt('phsoff')[-1] = p['off' + s]
            for k in ('phsoff', 'bp_r', 'bp_i'):
                if k + s in p:
                    put(k, list(p[k + s]))
            if 'amp' + s in p:
                put('amp', p['amp' + s])
        if b['t'] == 'gauss':
            b['xw'], b['yw'] = p.get('bm_xwidth', b['xw']), p.get('bm_ywidth', b['yw'])
        elif b['t'] == 'poly' and 'bm_poly' in p:
            b['poly'] = np.array(p['bm_poly']).reshape(np.shape(b['poly'])).tolist()
        elif b['t'] == 'alm':
            for c in range(b['deg'] + 1):
                if 'alm%d' % c in p:
                    b['coeffs'][str(c)] = np.array(p['alm%d' % c]).reshape(-1, 2).tolist()

    def ant_resp(self, i, pol, top):
        a = self.ants[i]
        az, alt, tw = a['point']
        m = rot(-tw, 'z') @ np.eye(3)
        m = m @ rot(alt - math.pi / 2, 'y')
        m = m @ rot(-(math.pi / 2 - az), 'z')
        if pol == 'y':
            m = rot(-math.pi / 2, 'z') @ m
        return self.beams[a['beam']].response(self.f(), m @ top)


# ------------------------------------------------------------------------------ execution
class Run(object):
    def __init__(self, scn, aipy):
        self.scn, self.aipy, self.cfg = scn, aipy, scn['cfg']
        self.stats, self.sig, self.log = {}, [], []
        self.i = -1
        self.simtime = 0.
        self.ctl = Ctl()
        Clock.now = self.cfg['clock']
        install(aipy, self.ctl)
        self.build()
        self.snaps = {}

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def build(self):
        A, cfg = self.aipy, self.cfg
        mod = getattr(A, cfg['flav'])
        bmod = A.fit if cfg['flav'] == 'pol' else mod
        smod = A.fit if cfg['flav'] == 'pol' else mod
        freqs = np.arange(cfg['nch']) * cfg['df'] + cfg['f0']
        self.aas, self.arr, self.given = [], [], []
        for d in cfg['arrays']:
            beams = []
            for b in d['beams']:
                if b['t'] == 'flat':
                    beams.append(bmod.Beam(freqs.copy()))
                elif b['t'] == 'gauss':
                    beams.append(bmod.Beam2DGaussian(freqs.copy(), xwidth=b['xw'], ywidth=b['yw']))
                elif b['t'] == 'poly':
                    p = np.array(b['poly'])
                    beams.append(bmod.BeamPolynomial(freqs.copy(), **({} if b['poly'] == [[.5]] else {'poly_azfreq': p})))
                    self.given.append((p, p.copy()))
                else:
                    beams.append(bmod.BeamAlm(freqs.copy(), lmax=2, mmax=2, deg=b['deg'], nside=b['nside'],
                                              coeffs={int(c): np.array([complex(*q) for q in v]) for c, v in b['coeffs'].items()}))
            ants, first = [], None
            for a in d['ants']:
                kw = {k: copy.deepcopy(a[k]) for k in ('phsoff', 'bp_r', 'bp_i', 'amp') if k in a}
                if d['share']:
                    first = first if first is not None else kw
                    kw = first
                ants.append(mod.Antenna(*(list(a['pos']) + [beams[a['beam']]]), **kw))
            la, lo, el = d['loc']
            loc = (math.radians(la), math.radians(lo)) + ((el,) if el is not None else ())
            if cfg.get('cal'):
                # handed out by a calibration module of its own
                m = types.ModuleType('simcal%d' % len(self.aas))
                m.get_aa = lambda f, ants=ants, loc=loc: mod.AntennaArray(loc, ants) if np.allclose(f, freqs, rtol=1e-12) else None
                m.get_catalog = lambda srcs=None, cutoff=None, catalogs=None: self.cat0(srcs)
                sys.modules[m.__name__] = m
                self.aas.append(A.cal.get_aa(m.__name__, cfg['df'], cfg['f0'], cfg['nch']))
            else:
                self.aas.append(mod.AntennaArray(loc, ants))
            self.arr.append(Arr(cfg, d))
        self.src, self.srcs = {}, []
        objs = []
        first = None
        for kind, nm, ra, dec, p in cfg['srcs']:
            kw = copy.deepcopy(p)
            if cfg.get('share_src'):
                # the same lists are handed to all sources
                first = first or kw
                kw.update(ionref=first['ionref'], srcshape=first['srcshape'])
                p = copy.deepcopy(kw)
            if p['index'] < 0 and not cfg.get('share_src'):      # what is so by default is not always said
                kw = {k: v for k, v in kw.items() if v != {'mfreq': .15, 'ionref': [0., 0.], 'srcshape': [0., 0., 0.]}.get(k)}
            if kind == 'fixed':
                objs.append(smod.RadioFixedBody(ra, dec, name=nm, **kw))
            else:
                objs.append(smod.RadioSpecial(nm, **kw))
            self.src[nm] = dict(copy.deepcopy(p), kind=kind, ra=ra, dec=dec, comp=None)
            self.srcs.append(nm)
        for b in objs:
            str(b)          # a source can be shown before it is computed
        if cfg.get('cat') == 'args':
            self.cat = smod.SrcCatalog(*objs)
        elif cfg.get('cat') == 'add':
            self.cat = smod.SrcCatalog()
            for b in objs:
                self.cat.add_srcs(b)
        else:
            self.cat = smod.SrcCatalog(objs)
        self.objs = dict(zip(self.srcs, objs))
        if cfg.get('cal'):
            self.cat0 = lambda srcs: smod.SrcCatalog([self.objs[n] for n in (srcs or self.srcs)])
            self.cat = A.cal.get_catalog('simcal0', srcs=list(self.srcs))

    def op_srcs(self, names):
        def check(r):
            if isinstance(r, Exception):
                return
            want = [self.objs[n] for n in (names or self.srcs)]
            if len(r) != 3 or any(len(x) != len(want) or any(p is not q for p, q in zip(x, want)) for x in r[:2 if names is None else 3]):
                raise Violation('catalogue', 'op %d: get_srcs gives %s, expected %s' % (self.i, [[getattr(b, 'src_name', b) for b in x] for x in r], names or self.srcs))
        c = self.cat
        nms = names or self.srcs
        comp = [self.src[n]['comp'] for n in nms]
        known = all(x is not None for x in comp) and not any(self.src[n].get('stale') for n in nms)

        def act():
            kw = {} if names is None else {'srcs': names}
            r = (c.get_srcs(), list(c.values()), None) if names is None else (c.get_srcs(names), c.get_srcs(*names), [c[n] for n in names])
            return r, [c.get_crds(x, ncrd=n, **kw) for x in ('eq', 'top') for n in (2, 3)] if known else None, [c.get(x, **kw) for x in ('src_name', 'srcshape', 'ionref')]

        def check2(r):
            if isinstance(r, Exception):
                return
            check(r[0])
            if r[1] is not None:
                for n, (x, y) in enumerate((('ra', 'dec'), ('az', 'alt'))):
                    self.close('angles of the catalogue', r[1][2 * n].astype(float), np.array([[q[x] for q in comp], [q[y] for q in comp]]))
                v = lambda p, q: [math.cos(q) * math.cos(p), math.cos(q) * math.sin(p), math.sin(q)]
                w = lambda p, q: [math.cos(q) * math.sin(p), math.cos(q) * math.cos(p), math.sin(q)]
                self.close('equatorial vectors of the catalogue', r[1][1], np.array([v(q['ra'], q['dec']) for q in comp]).T)
                self.close('topocentric vectors of the catalogue', r[1][3], np.array([w(q['az'], q['alt']) for q in comp]).T)
            if list(r[2][0]) != list(nms):
                raise Violation('catalogue', 'op %d: the names of %s are %s' % (self.i, nms, r[2][0]))
            self.close('shapes of the catalogue', r[2][1], np.array([self.src[n]['srcshape'] for n in nms]).T)
            self.close('offsets of the catalogue', r[2][2], np.array([self.src[n]['ionref'] for n in nms]).T)
        return act, check2

    # -- reference sources
    def compute(self, m, nm):
        s = self.src[nm]
        o = m.observer()
        if s['kind'] == 'fixed':
            b = ephem.FixedBody()
            b._ra, b._dec, b._epoch = s['ra'], s['dec'], ephem.J2000
        else:
            b = getattr(ephem, nm)()
        b.compute(o)
        s['comp'] = {'ra': float(b.ra), 'dec': float(b.dec), 'az': float(b.az), 'alt': float(b.alt), 'lst': m.lst,
                     'jys': s['jys'] * (m.f() / s['mfreq']) ** s['index']}

    def close(self, what, got, exp, tol=1e-7):
        got = np.asarray(got)
        exp = np.asarray(exp)
        g, e = np.squeeze(got), np.squeeze(exp)
        if g.shape != e.shape:
            raise Violation('shape', 'op %d: %s has shape %s, expected %s' % (self.i, what, got.shape, exp.shape))
        if g.size == 0:
            return
        sc = max(1e-12, float(np.max(np.abs(e))))
        d = np.abs(g - e)
        if not np.all(np.isfinite(g)) or float(np.max(d)) > tol * max(sc, 1.):
            raise Violation('memory', 'op %d: %s is %s, expected %s from the present time, channels and parameters' % (self.i, what, short(g), short(e)))
        self.st('comparisons')

    def known(self, m, nm):
        """uvw-map of source nm as of its last compute, or None if there was none."""
        c = self.src[nm]['comp']
        return None if c is None else eq2top(c['lst'] - c['ra'], c['dec'])

    def uvw(self, m, i, j, M):
        b = M @ m.bl(i, j)
        f = m.f()
        return b[0] * f, b[1] * f, b[2] * f

    def phasor(self, m, i, j, M, ion, mf, shp):
        u, v, w = self.uvw(m, i, j, M)
        if ion is not None:
            w = w + (ion[0] * u + ion[1] * v) * mf ** 2 / m.f() ** 2
        e = np.exp(-2j * np.pi * (w + m.off(j, 1) - m.off(i, 0)))
        if shp is not None:
            a1, a2, th = shp
            ru, rv = a1 * (u * math.cos(th) - v * math.sin(th)), a2 * (u * math.sin(th) + v * math.cos(th))
            e = e * airy(2 * np.pi * np.sqrt(ru ** 2 + rv ** 2))
        return e

    def run(self):
        try:
            for self.i, o in enumerate(self.scn['ops']):
                self.step(o)
            self.i += 1
            for g, keep in self.given:
                if not np.array_equal(g, keep):
                    raise Violation('argument', 'a beam changed the polynomial it was given')
            self.final()
        finally:
            self.ctl.disarm()
        return self.result()

    def result(self, **kw):
        h = hashlib.sha1(json.dumps(self.log).encode()).hexdigest()
        return dict({'stats': self.stats, 'sig': self.sig, 'log': h, 'disk': '', 'simtime': self.simtime}, **kw)

    def step(self, o):
        k = None
        if o[0] == 'fault':
            k, o = o[1], o[2]
        f = getattr(self, 'op_' + o[0])
        call = f(*o[1:])
        if call is None:
            self.sig.append(o[0] + ':skip')
            return
        act, check = call
        fired = False
        if k is not None:
            self.ctl.arm(k)
            try:
                res = act()
                fired = self.ctl.disarm()
                if fired:
                    raise Violation('swallowed', 'op %d: %s succeeded although an allocation failed in it' % (self.i, o[0]))
            except Fault:
                fired = True
                self.st('fault.numpy')
                self.st('faulted.' + o[0])
            except Violation:
                raise
            except Exception as e:
                res = e
            finally:
                self.ctl.disarm()
        if k is None or fired:
            # after a failure the same call is made again
            try:
                res = act()
            except Violation:
                raise
            except Exception as e:
                res = e
        out = check(res)
        if isinstance(res, Exception) and out != 'refused':
            raise Violation('raised', 'op %d: %s raised %s: %s' % (self.i, o[0], type(res).__name__, str(res)[:200]))
        self.st('op.' + o[0])
        self.sig.append(o[0] + ':' + (out or 'ok') + ('!' if fired else ''))
        self.log.append([o[0], out or 'ok', bool(fired), round(Clock.now, 6)])

    # -- each op: (call, check) or None when it does not apply
    def op_clock(self, dt):
        def act():
            Clock.now += dt / 86400.
            self.simtime += abs(dt)
        return act, lambda r: None

    def op_jul(self, a, t):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            m.settime(float(ephem.date((Clock.now if t is None else t) - JD0)))
            if not isinstance(r, Exception):
                self.close('the time', aa.get_jultime() - JD0, m.date, 1e-12)
        return (lambda: aa.set_jultime() if t is None else aa.set_jultime(t)), check

    def op_eph(self, a, t):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            m.settime(float(ephem.date((Clock.now - JD0) if t is None else t)))
            if not isinstance(r, Exception):
                self.close('the time', aa.get_jultime() - JD0, m.date, 1e-12)
        return (lambda: aa.set_ephemtime() if t is None else aa.set_ephemtime(t)), check

    def op_chans(self, a, ch, how=None):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            m.chans = list(range(len(m.freqs))) if ch is None else list(ch)
            m.dirty = True
            if not isinstance(r, Exception):
                self.close('the active channels', aa.get_afreqs(), m.f())
                self.close('the channels', aa.get_freqs(), m.freqs)

        def act():
            c = None if ch is None else np.array(ch)
            if how == 'each':
                for x in aa:
                    x.select_chans(c)
            else:
                aa.select_chans(c)
        return act, check

    def op_site(self, a, lat, lon):
        """The array is somewhere else than it was thought to be."""
        aa, m = self.aas[a], self.arr[a]
        if m.t is None:
            return None

        def act():
            aa.lat, aa.long = math.radians(lat), math.radians(lon)
            aa.update()
            aa.set_ephemtime(m.t)

        def check(r):
            m.loc = [lat, lon] + list(m.loc[2:])
            m.settime(m.t)
            for n in self.srcs:
                self.src[n]['stale'] = True
        return act, check

    def op_pol(self, a, p):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            m.pol = p
            if not isinstance(r, Exception) and aa.get_active_pol() != p:
                raise Violation('memory', 'op %d: the active polarization is %s after setting %s' % (self.i, aa.get_active_pol(), p))
        return (lambda: aa.set_active_pol(p)), check

    def op_point(self, a, i, az, alt, tw):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            m.ants[i]['point'] = [az, alt, tw]
            m.dirty = True
        return (lambda: aa[i].set_pointing(az, alt, tw)), check

    def op_compute(self, a):
        aa, m = self.aas[a], self.arr[a]
        if m.t is None:
            return None

        def check(r):
            for nm in self.srcs:
                self.compute(m, nm)
                self.src[nm]['stale'] = False
        return (lambda: self.cat.compute(aa)), check

    def op_src(self, nm):
        s = self.src[nm]
        c = s['comp']
        if c is None or s.get('stale'):
            return None

        def act():
            b = self.cat[nm]
            j = b.get_jys() if self.cfg['flav'] != 'phs' else None
            return b.get_crds('eq', ncrd=2), b.get_crds('top', ncrd=2), b.get_crds('eq'), b.get_crds('top'), j

        def check(r):
            if isinstance(r, Exception):
                return
            self.close('ra,dec of ' + nm, np.array(r[0], float), [c['ra'], c['dec']])
            self.close('az,alt of ' + nm, np.array(r[1], float), [c['az'], c['alt']])
            cd = math.cos(c['dec'])
            self.close('equatorial vector of ' + nm, r[2], [cd * math.cos(c['ra']), cd * math.sin(c['ra']), math.sin(c['dec'])])
            ca = math.cos(c['alt'])
            self.close('topocentric vector of ' + nm, r[3], [ca * math.sin(c['az']), ca * math.cos(c['az']), math.sin(c['alt'])])
            if r[4] is not None:
                self.close('flux of ' + nm, r[4], c['jys'])
        return act, check

    def direction(self, m, src):
        """-> (what to pass, map, expected refusal)"""
        if src == 'e':
            return src, rot(-m.lst, 'z'), False
        if src == 'z':
            return src, eq2top(0., m.lat), False
        if src == 'r':
            return src, np.eye(3), False
        s = self.src[src]
        if s['comp'] is None or s.get('stale') or abs(s['comp']['alt']) < 1e-6:
            return None
        return self.cat[src], self.known(m, src), s['comp']['alt'] < 0

    def refused(self, r, low):
        if low:
            if isinstance(r, self.aipy.phs.PointingError):
                return True
            raise Violation('horizon', 'op %d: a source below the horizon was accepted (%r)' % (self.i, r))
        return False

    def op_bl(self, a, i, j, src):
        aa, m = self.aas[a], self.arr[a]
        if m.t is None:
            return None
        d = self.direction(m, src)
        if d is None:
            return None
        obj, M, low = d

        def check(r):
            if self.refused(r, low):
                return 'refused'
            if not isinstance(r, Exception):
                self.close('baseline (%d,%d) toward %s' % (i, j, src), r, M @ m.bl(i, j))
                n = len(m.d['ants']) if hasattr(m, 'd') else len(aa)
                for auto in (True, False):
                    for cross in (True, False):
                        exp = [256 * (p + 1) + q + 1 for p in range(n) for q in range(p, n) if (auto if p == q else cross)]
                        if list(aa.bl_indices(auto=auto, cross=cross)) != exp or auto and cross and (list(aa.bl_indices()) != exp or [aa.ij2bl(*aa.bl2ij(x)) for x in exp] != exp):
                            raise Violation('baselines', 'op %d: bl_indices(auto=%s, cross=%s) gives %s, expected %s' % (self.i, auto, cross, aa.bl_indices(auto=auto, cross=cross), exp))
        return (lambda: aa.get_baseline(i, j, src=obj)), check

    def op_uvw(self, a, i, j, src):
        aa, m = self.aas[a], self.arr[a]
        if m.t is None:
            return None
        d = self.direction(m, src)
        if d is None:
            return None
        obj, M, low = d

        def act():
            r = aa.gen_uvw(i, j, src=obj)
            return r, aa.gen_uvw(i, j, src=obj, w_only=True)

        def check(r):
            if self.refused(r, low):
                return 'refused'
            if not isinstance(r, Exception):
                e = np.array(self.uvw(m, i, j, M))
                self.close('uvw of (%d,%d) toward %s' % (i, j, src), r[0], e)
                self.close('w of (%d,%d) toward %s' % (i, j, src), r[1], e[2])
        return act, check

    def op_phs(self, a, i, j, src, kw):
        aa, m = self.aas[a], self.arr[a]
        if m.t is None or (m.flav == 'pol' and m.pol is None):
            return None
        if src == 'z' and (kw.get('resolve_src') or 'ionref' in kw):
            kw = dict(kw, srcshape=None)
        d = self.direction(m, src)
        if d is None:
            return None
        obj, M, low = d
        s = self.src.get(src, {})
        ion = kw.get('ionref', s.get('ionref'))
        shp = s.get('srcshape') if kw.get('resolve_src') else None

        def check(r):
            if self.refused(r, low):
                return 'refused'
            if not isinstance(r, Exception):
                self.close('phase of (%d,%d) toward %s' % (i, j, src), r, self.phasor(m, i, j, M, ion, kw.get('mfreq', .150), shp), 1e-6)
        return (lambda: aa.gen_phs(obj, i, j, **copy.deepcopy(kw))), check

    def op_p2s(self, a, i, j, src, kw={}):
        aa, m = self.aas[a], self.arr[a]
        if m.t is None or (m.flav == 'pol' and m.pol is None):
            return None
        d = self.direction(m, src)
        if d is None:
            return None
        obj, M, low = d
        data = np.arange(1., len(m.chans) + 1) * (1 + 2j)

        def act():
            x = aa.phs2src(data.copy(), obj, i, j, **copy.deepcopy(kw))
            return x, aa.unphs2src(x.copy(), obj, i, j, **copy.deepcopy(kw))

        def check(r):
            if self.refused(r, low):
                return 'refused'
            if not isinstance(r, Exception):
                self.close('data phased to ' + src, r[0], data * self.phasor(m, i, j, M, kw.get('ionref', self.src[src]['ionref']), kw.get('mfreq', .150), None), 1e-6)
                self.close('data phased to %s and back' % src, r[1], data, 1e-6)
        return act, check

    def op_two(self, a, i, j, names, how=''):
        """Phases towards several directions at once, given as arrays which stay as they were."""
        aa, m = self.aas[a], self.arr[a]
        if m.t is None or (m.flav == 'pol' and m.pol is None) or any(self.src[n]['comp'] is None or self.src[n].get('stale') for n in names):
            return None
        cs = [self.src[n] for n in names]
        eq = np.array([[math.cos(c['comp']['dec']) * math.cos(c['comp']['ra']), math.cos(c['comp']['dec']) * math.sin(c['comp']['ra']), math.sin(c['comp']['dec'])] for c in cs]).T
        ion = [np.array([c['ionref'][k] for c in cs]) for k in (0, 1)]
        shp = [np.array([c['srcshape'][k] for c in cs]) for k in (0, 1, 2)]
        mf = np.array([c['mfreq'] for c in cs])
        args = [eq.copy(), [x.copy() for x in ion], [x.copy() for x in shp], mf.copy()]

        def act():
            kw = {} if how in ('shape', 'plain') else {'ionref': args[1], 'mfreq': args[3]}
            if how not in ('ion', 'plain'):
                kw.update(srcshape=args[2], resolve_src=True)
            return aa.gen_phs(args[0], i, j, **kw)

        def check(r):
            flat = [args[0]] + args[1] + args[2] + [args[3]]
            for g, e in zip(flat, [eq] + ion + shp + [mf]):
                if g.shape != e.shape or not np.array_equal(g, e):
                    raise Violation('argument', 'op %d: gen_phs changed an array of its caller: %s %s became %s %s' % (self.i, e.shape, short(e), g.shape, short(g)))
            if not isinstance(r, Exception):
                exp = [self.phasor(m, i, j, eq2top(m.lst - c['comp']['ra'], c['comp']['dec']), None if how in ('shape', 'plain') else c['ionref'], c['mfreq'], None if how in ('ion', 'plain') else c['srcshape']) for c in cs]
                self.close('phases of (%d,%d) toward %s' % (i, j, names), r, np.array(exp), 1e-6)
        return act, check

    def op_pass(self, a, i, j):
        aa, m = self.aas[a], self.arr[a]
        if m.flav == 'pol' and m.pol is None:
            return None

        def check(r):
            if not isinstance(r, Exception):
                self.close('passband of (%d,%d)' % (i, j), r, m.gain(j, 1) * np.conj(m.gain(i, 0)))
        return (lambda: aa.passband(i, j)), check

    def op_simcache(self, a, names=None, drop=()):
        aa, m = self.aas[a], self.arr[a]
        if m.t is None or any(self.src[n]['comp'] is None or self.src[n].get('stale') or len(self.src[n]['comp']['jys']) != len(m.chans) for n in self.srcs):
            return None
        cat = self.cat
        kw = {} if names is None else {'srcs': names}

        def act():
            aa.sim_cache(cat.get_crds('eq', ncrd=3, **kw), cat.get_jys(**kw), **{k: cat.get(q, **kw) for k, q in (('mfreqs', 'mfreq'), ('ionrefs', 'ionref'), ('srcshapes', 'srcshape')) if q not in drop})

        def check(r):
            m.cache = []
            for n in names or self.srcs:
                c = self.src[n]['comp']
                H = m.lst - c['ra']
                cd, sd, cl, sl = math.cos(c['dec']), math.sin(c['dec']), math.cos(m.lat), math.sin(m.lat)
                top = np.array([-cd * math.sin(H), sd * cl - cd * math.cos(H) * sl, sd * sl + cd * math.cos(H) * cl])
                if abs(top[2]) < 1e-9:
                    m.cache = None
                    break
                if top[2] > 0:
                    m.cache.append((n, top, eq2top(H, c['dec']), dict(copy.deepcopy(self.src[n]), **{q: {'mfreq': .15, 'ionref': [0., 0.], 'srcshape': [0., 0., 0.]}[q] for q in drop})))
            m.dirty = m.cache is None
        return act, check

    def op_sim(self, a, i, j):
        aa, m = self.aas[a], self.arr[a]
        if m.pol is None or m.t is None:
            return None
        if m.cache is None and m.dirty:
            # the time has moved (or was just set): there is nothing to simulate from
            def check0(r):
                if isinstance(r, RuntimeError):
                    return 'refused'
                raise Violation('stale', 'op %d: sim() answered from sources cached at another time' % self.i) if not isinstance(r, Exception) else \
                    Violation('raised', 'op %d: sim raised %s: %s' % (self.i, type(r).__name__, str(r)[:200]))
            return (lambda: aa.sim(i, j)), check0
        if m.dirty or m.cache is None:
            return None

        def check(r):
            if isinstance(r, Exception):
                return
            G = m.gain(j, 1) * np.conj(m.gain(i, 0))
            V = np.zeros(len(m.chans), complex)
            for n, top, M, s in m.cache:
                B = m.ant_resp(j, m.pol[-1], top[:, None])[:, 0] * np.conj(m.ant_resp(i, m.pol[0], top[:, None])[:, 0])
                E = np.conj(self.phasor(m, i, j, M, s['ionref'], s['mfreq'], s['srcshape']))
                V = V + G * B * s['comp']['jys'] * E
            self.close('simulated visibility of (%d,%d) %s' % (i, j, m.pol), r, V, 1e-6)
            self.st('simulated')
        return (lambda: aa.sim(i, j)), check

    def op_bm(self, a, i, j):
        aa, m = self.aas[a], self.arr[a]
        if m.pol is None or m.dirty or not m.cache:
            return None

        def check(r):
            if isinstance(r, Exception):
                return
            exp = []
            for n, top, M, s in m.cache:
                exp.append(m.ant_resp(j, m.pol[-1], top[:, None])[:, 0] * np.conj(m.ant_resp(i, m.pol[0], top[:, None])[:, 0]))
            self.close('beam response of (%d,%d) %s' % (i, j, m.pol), r, np.array(exp))
        return (lambda: aa.bm_response(i, j)), check

    def native(self, p, form='plain'):
        """Parameters as a user holds them."""
        out = {}
        for n, d in p.items():
            out[n] = {k: (np.array(v) if isinstance(v, list) and (form == 'array' or k == 'bm_poly' or k.startswith('alm')) else copy.deepcopy(v)) for k, v in d.items()}
        return out

    def op_aset(self, a, prms):
        aa, m = self.aas[a], self.arr[a]
        given = self.native(prms)
        keep = copy.deepcopy(given)

        def check(r):
            self.same_arg('set_params', given, keep)
            for n in sorted(prms, key=int):
                m.setparams(int(n), prms[n])
            if any(k.startswith(('bm_', 'alm')) for d in prms.values() for k in d):
                m.dirty = True
            for d in given.values():
                for v in d.values():
                    scribble(v)
        return (lambda: aa.set_params(given)), check

    def same_arg(self, what, got, exp):
        for n in exp:
            for k in exp[n]:
                g, e = got[n][k], exp[n][k]
                if np.shape(g) != np.shape(e) or not np.array_equal(np.asarray(g, float), np.asarray(e, float)):
                    raise Violation('argument', 'op %d: %s changed the parameters of its caller: %s %s' % (self.i, what, n, k))

    def op_cset(self, prms):
        given = copy.deepcopy(prms)

        def check(r):
            self.same_arg('set_params', given, prms)
            for n, d in prms.items():
                s = self.src[n]
                for k, v in d.items():
                    if k in ('a1', 'a2', 'th'):
                        s['srcshape'][('a1', 'a2', 'th').index(k)] = v
                    elif k in ('dra', 'ddec'):
                        s['ionref'][('dra', 'ddec').index(k)] = v
                    else:
                        s[k] = v
                        s['stale'] = True
        return (lambda: self.cat.set_params(given)), check

    def same_params(self, what, got, exp):
        if sorted(got) != sorted(exp):
            raise Violation('params', 'op %d: %s lists %s, expected %s' % (self.i, what, sorted(got), sorted(exp)))
        for n in exp:
            if sorted(got[n]) != sorted(exp[n]):
                raise Violation('params', 'op %d: %s of %s has %s, expected %s' % (self.i, what, n, sorted(got[n]), sorted(exp[n])))
            for k in exp[n]:
                self.close('%s %s %s' % (what, n, k), np.asarray(got[n][k], float), np.asarray(exp[n][k], float), 1e-10)

    def op_get(self, a, sel):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            if isinstance(r, Exception):
                return
            exp = {}
            for n in range(len(m.ants)):
                if '*' not in sel and str(n) not in sel:
                    continue
                want = sel.get('*') or sel[str(n)]
                p = m.params(n)
                exp[str(n)] = p if '*' in want else {k: v for k, v in p.items() if k in want}
            self.same_params('get_params', r, exp)
            for d in r.values():
                for v in d.values():
                    scribble(v)
        return (lambda: aa.get_params(sel)), check

    def op_snap(self, a, name):
        aa, m = self.aas[a], self.arr[a]

        def check(r):
            if isinstance(r, Exception):
                return
            exp = {str(n): m.params(n) for n in range(len(m.ants))}
            self.same_params('get_params', r, exp)
            self.snaps[a, name] = (r, copy.deepcopy(exp))
        return (lambda: aa.get_params()), check

    def src_params(self):
        out = {}
        for n in self.srcs:
            s = self.src[n]
            d = {'jys': s['jys'], 'index': s['index'], 'a1': s['srcshape'][0], 'a2': s['srcshape'][1], 'th': s['srcshape'][2], 'dra': s['ionref'][0], 'ddec': s['ionref'][1]}
            if s['kind'] == 'fixed':
                d.update(ra=s['ra'], dec=s['dec'], mfreq=s['mfreq'])
            out[n] = d
        return out

    def op_cget(self, sel):
        def check(r):
            if isinstance(r, Exception):
                return
            exp = {}
            for k, want in sel.items():
                for n, p in self.src_params().items():
                    if k in ('*', n):
                        exp[n] = p if want == '*' else {x: v for x, v in p.items() if x in want}
            self.same_params('get_params of the catalogue', r, exp)
        return (lambda: self.cat.get_params(sel)), check

    def op_csnap(self, name):
        def check(r):
            if isinstance(r, Exception):
                return
            self.same_params('get_params of the catalogue', r, self.src_params())
            self.snaps['c', name] = (r, copy.deepcopy(self.src_params()))
        return (lambda: self.cat.get_params()), check

    def op_crestore(self, name, via):
        if ('c', name) not in self.snaps:
            return None
        p, exp = self.snaps['c', name]
        self.same_params('what get_params returned earlier, now', p, exp)

        def act():
            q = p
            if via != 'plain':
                lst, keys = self.aipy.fit.flatten_prms(p)
                q = self.aipy.fit.reconstruct_prms(np.array(lst, float) if via == 'array' else lst, keys)
            self.cat.set_params(q)

        def check(r):
            for n, d in exp.items():
                s = self.src[n]
                if s['kind'] == 'fixed' and (s['ra'], s['dec']) != (d['ra'], d['dec']):
                    s.update(ra=d['ra'], dec=d['dec'], stale=True)
                s.update(jys=d['jys'], index=d['index'], srcshape=[d['a1'], d['a2'], d['th']], ionref=[d['dra'], d['ddec']])
            if not isinstance(r, Exception):
                self.same_params('get_params after restoring', self.cat.get_params(), self.src_params())
        return act, check

    def op_restore(self, a, name, via, b=None):
        aa, m = self.aas[a], self.arr[a]
        if b is None:
            b = a
        if (b, name) not in self.snaps:
            return None
        p, exp = self.snaps[b, name]
        self.same_params('what get_params returned earlier, now', p, exp)
        fit = self.aipy.fit

        def act():
            q = p
            if via != 'plain':
                lst, keys = fit.flatten_prms(p)
                q = fit.reconstruct_prms(np.array(lst, float) if via == 'array' else lst, keys)
            aa.set_params(q)

        def check(r):
            for n in sorted(exp, key=int):
                m.setparams(int(n), copy.deepcopy(exp[n]))
            m.dirty = True
            if not isinstance(r, Exception):
                self.same_params('get_params after restoring', aa.get_params(), {str(n): m.params(n) for n in range(len(m.ants))})
        return act, check

    def final(self):
        """Everything that can be observed, once more, at a newly set time."""
        for a, m in enumerate(self.arr):
            if m.t is None:
                continue
            self.step(['jul', a, None])
            if m.flav == 'pol' and m.pol is None:
                self.step(['pol', a, 'xy'])
            self.step(['compute', a])
            n = len(m.ants)
            for j in range(n):
                self.step(['phs', a, 0, j, 'z', {}])
                for s in self.srcs:
                    self.step(['phs', a, j, 0, s, {'resolve_src': True}])
            for s in self.srcs:
                self.step(['src', s])
            if m.flav in ('fit', 'pol'):
                self.step(['get', a, {'*': '*'}])
                self.step(['cget', {'*': '*'}])
            if m.flav != 'phs':
                self.step(['pass', a, 0, n - 1])
                if m.pol is not None:
                    self.step(['simcache', a])
                    for j in range(n):
                        self.step(['sim', a, j, (j + 1) % n])
        for (a, name), (p, exp) in sorted(self.snaps.items(), key=str):
            self.same_params('what get_params returned earlier, now', p, exp)


def short(x):
    return np.array2string(np.asarray(x).flatten()[:4], precision=6, separator=',').replace('\n', '')


def scribble(v):
    """The caller goes on to use its own arrays and lists."""
    if isinstance(v, np.ndarray):
        v *= 0
        v += 99.
    elif isinstance(v, list):
        for k in range(len(v)):
            v[k] = 99.


def run(aipy, scn, log=False):
    r = None
    try:
        with np.errstate(all='ignore'):
            r = Run(scn, aipy)
            return r.run()
    except Violation as v:
        r.ctl.disarm()
        return r.result(violation=v.cls, msg=v.msg, op=r.i)
