"""C20: sky-map sessions.

One run is a session over a few weighted sky maps and harmonic coefficients: samples are put and added by pixel,
angle or vector, maps are read back nearest or interpolated, reordered, resampled into each other, reset, copied,
written to FITS files on a disk that fills up and read back, with allocations failing in between.  The model keeps,
for every map, plain arrays in RING order."""
from __future__ import print_function
import copy, hashlib, json, os, pickle, random, resource, shutil, tempfile, warnings
import numpy as np
import healpy
from aasim import Ctl, Fault, NP
from uvsim import Violation


def rf(rng, a, b):
    return round(rng.uniform(a, b), 6)


# ------------------------------------------------------------------------------ workload
def scenario(pid, seed, dry):
    rng = random.Random(seed * 3571 + 23)
    cfg = {'maps': [gen_map(rng) for _ in range(rng.choice([1, 2, 3]))], 'alm': [[l, rng.randint(0, l)] for l in [rng.choice([0, 1, 3, 6]) for _ in range(2)]]}
    ops, n, faults = [], rng.choice([6, 12, 25, 40]), rng.random() < .5
    while len(ops) < n:
        o = gen_op(rng, cfg)
        if faults and rng.random() < .3 and o[0] not in ('fits',):
            ops.append(['fault', rng.choice([1, 1, 2, 3, 4, 6, 9, 14]), o])
        else:
            ops.append(o)
    return {'seed': seed, 'profile': pid, 'cfg': cfg, 'ops': ops}


def gen_map(rng):
    return {'nside': rng.choice([1, 2, 2, 4, 8]), 'scheme': rng.choice(['RING', 'RING', 'NEST']), 'dt': rng.choice(['f8', 'f8', 'f8', 'f4']), 'nind': rng.choice([None, None, 0, 1, 2]), 'interp': rng.random() < .3}


def gen_crd(rng):
    return {'n': rng.choice([1, 1, 2, 3, 8, 20]), 'how': rng.choice(['px', 'px', 'ang', 'vec', 'list', 'one', 'pix']), 'seed': rng.randint(0, 10 ** 6), 'few': rng.random() < .4}


def gen_op(rng, cfg):
    m, q = rng.randrange(len(cfg['maps'])), rng.randrange(len(cfg['maps']))
    k = rng.random()
    if k < .16:
        return ['add', m, gen_crd(rng), rng.choice(['all', 'all', 'none', 'scalar'])] + ([] if rng.random() < .7 else [rng.choice([1e-8, 1e-5, 1e4])])
    if k < .28:
        return ['put', m, gen_crd(rng), rng.choice(['all', 'all', 'none', 'zero'])] + ([] if rng.random() < .7 else [rng.choice([1e-8, 1e-5, 1e4])])
    if k < .48:
        return ['read', m, gen_crd(rng), rng.choice(['item', 'get', 'hpm'])]
    if k < .53:
        return ['interp', m, rng.random() < .5]
    if k < .57:
        return ['nind', m, rng.choice([0, 1, 2, 3, None])]
    if k < .61:
        return ['reset', m, rng.choice([None, None, 1, 2., .5])]
    if k < .66:
        return ['scheme', m, rng.choice(['RING', 'NEST']), rng.choice(['map', 'map', 'there'])]
    if k < .73:
        return ['from', m, q]
    if k < .77:
        return ['hpm', m, q]
    if k < .81:
        return ['setitem', m, gen_crd(rng), rng.choice(['f8', 'f4', 'i8'])]
    if k < .85:
        return ['copy', m, rng.choice(['copy', 'pickle'])]
    if k < .88:
        return ['set', m, rng.choice(['RING', 'NEST']), rng.choice(['f8', 'f8', '>f8', 'f4']), rng.randint(0, 10 ** 6)]
    if k < .91:
        return ['alm', rng.randrange(2), rng.choice(['set', 'get', 'map', 'tomap', 'data', 'smooth']), m, rng.randint(0, 10 ** 6)]
    if k < .92:
        return ['facets', rng.choice([1, 2, 3, 5, 16, 31]), rng.choice([2, 3]), rng.randint(0, 10 ** 6)]
    if k < .94:
        if rng.random() < .5:
            return ['pixels', m, rng.choice([None, 2, 3]), rng.choice(['map', 'map', 'wgt', 'ind']), rng.randint(0, 10 ** 6)]
        return ['a2a', rng.choice(['c', 'f', 'strided', 'swapped', 'readonly', 'kind', 'bad', 'neg', 'swap1']), rng.choice(['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'f16', 'c8', 'c16', 'c32', 'f2', 'O']), rng.choice([1, 2, 3]), rng.randint(0, 10 ** 6)]
    return ['fits', m, rng.choice(['map', 'map', 'hpm']), rng.choice([None, None, 'full', 'torn', 'exists', 'again', 'into']), rf(rng, 0, 1)]


# ------------------------------------------------------------------------------ the reference
class Model(object):
    """the pixels of map, weights and indices, in RING order"""

    def __init__(self, g):
        self.nside, self.scheme, self.interp, self.dt = g['nside'], g['scheme'], g['interp'], g['dt']
        n = 12 * self.nside ** 2
        self.p = [np.zeros(n, self.dt) for _ in range(2 + (g['nind'] or 0))]
        self.mag = [np.zeros(n) for _ in self.p]

    def ring(self, px):
        return healpy.nest2ring(self.nside, px) if self.scheme == 'NEST' else px

    def pixels(self, crd):
        if not isinstance(crd, tuple):
            return self.ring(np.atleast_1d(np.asarray(crd)).astype(np.int64))
        c = [np.atleast_1d(np.asarray(x, float)) for x in crd]
        return healpy.ang2pix(self.nside, *c) if len(c) == 2 else healpy.vec2pix(self.nside, *c)

    def look(self, a, crd, interp):
        if isinstance(crd, tuple) and interp:
            c = [np.atleast_1d(np.asarray(x, float)) for x in crd]
            if len(c) == 3:
                c = healpy.vec2ang(np.array(c).T)
            px, w = healpy.get_interp_weights(self.nside, *c)
            return np.sum(a[px] * w, axis=0)
        return a[self.pixels(crd)]

    def own(self, a):
        """a in the order of the map"""
        return a[self.ring(np.arange(len(a)))]


def resample(a, n0, n1):
    if n1 > n0:
        th, ph = healpy.pix2ang(n1, np.arange(12 * n1 ** 2))
        px, w = healpy.get_interp_weights(n0, th, ph)
        return np.sum(a[px] * w, axis=0)
    if n1 < n0:
        out = np.zeros(12 * n1 ** 2)
        th, ph = healpy.pix2ang(n0, np.arange(12 * n0 ** 2))
        np.add.at(out, healpy.ang2pix(n1, th, ph), a)
        return out
    return a.copy()


# ------------------------------------------------------------------------------ the run
class Run(object):
    def __init__(self, scn, aipy):
        self.scn, self.map, self.hp, self.utils = scn, aipy.map, aipy.healpix, aipy.utils
        self.ctl = Ctl()
        self.map.np = self.hp.np = NP(self.ctl)
        self.dir = tempfile.mkdtemp(prefix='mapsim')
        self.ms, self.ds = [], [Model(g) for g in scn['cfg']['maps']]
        for g in scn['cfg']['maps']:
            kw = {} if g['nind'] is None else {'nindices': g['nind']}
            self.ms.append(self.map.Map(g['nside'], g['scheme'], dtype=np.dtype(g['dt']).type, interp=g['interp'], **kw) if g['dt'] != 'f8' else self.map.Map(nside=g['nside'], scheme=g['scheme'], interp=g['interp'], **kw))
        self.eps = 1e-5 if any(g['dt'] == 'f4' for g in scn['cfg']['maps']) else 1e-11
        self.alms = [self.hp.Alm(l, m) for l, m in scn['cfg']['alm']]
        self.ad = [np.zeros(a.size(), complex) for a in self.alms]
        self.stats, self.sig, self.log, self.i = {}, [], [], 0
        self.nfile, self.facets = 0, {}

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def result(self, **kw):
        h = hashlib.sha1(json.dumps(self.log).encode()).hexdigest()
        return dict({'stats': self.stats, 'sig': self.sig, 'log': h, 'disk': ''}, **kw)

    def fail(self, cls, msg):
        raise Violation(cls, 'op %d: %s' % (self.i, msg))

    def run(self):
        for g, x in zip(self.scn['cfg']['maps'], self.ms):
            if any(h.map.dtype != np.dtype(g['dt']) for h in [x.map, x.wgt] + x.ind):
                self.fail('type', 'a map of type %s was made with %s' % (g['dt'], [str(h.map.dtype) for h in [x.map, x.wgt] + x.ind]))
        for self.i, o in enumerate(self.scn['ops']):
            self.step(o)
            for m in range(len(self.ms)):
                self.compare(m)
            for k, a in enumerate(self.alms):
                if not np.array_equal(a.get_data(), self.ad[k]):
                    self.fail('alm', 'the coefficients of %d are not what they were set to' % k)
        return self.result()

    def step(self, o):
        self.armed, self.fired = None, False
        if o[0] == 'fault':
            self.armed, o = o[1], o[2]
        how = getattr(self, 'op_' + o[0])(*o[1:]) or 'ok'
        self.st('op.' + o[0])
        self.sig.append('%s:%s%s' % (o[0], how, '!' if self.fired else ''))
        self.log.append([o[0], how, self.fired])

    def state(self, m):
        x = self.ms[m]
        return [(h, h.map.copy(), h._scheme, h._nside, h._use_interpol) for h in [x.map, x.wgt] + x.ind], list(x.ind), x.map, x.wgt, x.args, dict(x.kwargs)

    def restore(self, m, s):
        """put a map back after a call that failed half way"""
        x = self.ms[m]
        for h, a, sc, ns, it in s[0]:
            h.map, h._scheme, h._nside, h._use_interpol = a.copy(), sc, ns, it
        x.ind, x.map, x.wgt, x.args, x.kwargs = list(s[1]), s[2], s[3], s[4], dict(s[5])

    def call(self, what, fn, m=None, args=()):
        copies = [(n, a, a.tobytes()) for n, a in args if isinstance(a, np.ndarray)]

        def same():
            for n, a, b in copies:
                if a.tobytes() != b:
                    self.fail('argument', '%s changed its argument %s' % (what, n))
        if self.armed:
            before = None if m is None else self.state(m)
            self.ctl.arm(self.armed)
            self.armed, r = None, None
            try:
                r = fn()
                done = True
            except MemoryError:
                done = False
            except Exception as e:
                if not self.ctl.fired:
                    self.fail('raised', '%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
                self.fail('fault', '%s raised %s: %s when an allocation failed' % (what, type(e).__name__, e))
            finally:
                fired = self.ctl.disarm()
            same()
            if not fired:
                return r
            self.fired = True
            self.st('fault.numpy')
            if done:
                self.fail('swallowed', '%s succeeded although an allocation failed in it' % what)
            if before:
                self.restore(m, before)
            for k in range(len(self.ms)):
                self.compare(k)
        try:
            r = fn()
        except Exception as e:
            self.fail('raised', '%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
        same()
        return r

    def near(self, got, exp, mag, what):
        got = np.asarray(got)
        if got.shape != np.shape(exp):
            self.fail('shape', '%s has the shape %r, expected %r' % (what, got.shape, np.shape(exp)))
        eps = self.eps
        with np.errstate(all='ignore'):
            bad = ~(np.abs(got - exp) <= eps * (mag + np.abs(exp)) + 1e-13) & ~(np.isnan(got) & np.isnan(exp))
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            self.fail('value', '%s is %r at %d, expected %r' % (what, got.ravel()[i].item(), i, np.ravel(exp)[i].item()))

    def compare(self, m):
        x, d = self.ms[m], self.ds[m]
        h = [x.map, x.wgt] + list(x.ind)
        if len(h) != len(d.p):
            self.fail('indices', 'map %d has %d indices, expected %d' % (m, len(h) - 2, len(d.p) - 2))
        for k, (a, b) in enumerate(zip(h, d.p)):
            nm = '%s of map %d' % (['the signal', 'the weights'][k] if k < 2 else 'index %d' % (k - 2), m)
            if (a.nside(), a.scheme()) != (d.nside, d.scheme):
                self.fail('geometry', '%s has the geometry %r, expected %r' % (nm, (a.nside(), a.scheme()), (d.nside, d.scheme)))
            if bool(a._use_interpol) != d.interp:
                self.fail('interpolation', '%s is %sinterpolated' % (nm, '' if a._use_interpol else 'not '))
            self.near(a.map, d.own(b), d.own(d.mag[k]), nm)
        if (x.nside(), x.scheme(), x.npix()) != (d.nside, d.scheme, 12 * d.nside ** 2):
            self.fail('geometry', 'map %d says it has nside %r and scheme %r' % (m, x.nside(), x.scheme()))

    def crd(self, m, c):
        d = self.ds[m]
        r = np.random.RandomState(c['seed'])
        n = 1 if c['how'] == 'one' else c['n']
        px = r.randint(0, 12 * d.nside ** 2, size=n)
        if c['few']:
            px = px[r.randint(0, min(2, n), size=n)]
        if c['how'] in ('px', 'list', 'one'):
            return (int(px[0]) if c['how'] == 'one' else px.astype(r.choice(['i8', 'i4'])) if c['how'] == 'px' else [int(v) for v in px]), n, r
        if c['how'] == 'pix':
            return tuple(np.array(v) for v in healpy.pix2ang(d.nside, px)), n, r
        th, ph = np.arccos(r.uniform(-1, 1, n)), r.uniform(0, 2 * np.pi, n)
        if c['few']:
            i = r.randint(0, min(2, n), size=n)
            th, ph = th[i], ph[i]
        if c['how'] == 'ang':
            return (th, ph), n, r
        return (np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)), n, r

    def carg(self, crd):
        return [('crds', x) for x in (crd if isinstance(crd, tuple) else [crd])]

    # -- ops
    def samples(self, m, c, how, scale):
        crd, n, r = self.crd(m, c)
        w, f = r.uniform(.1, 2, n) * scale, r.standard_normal(n) * 10
        if how == 'zero':
            w = w * (r.uniform(size=n) < .5)
        inds = [r.standard_normal(n) for _ in self.ds[m].p[2:]]
        given = [] if how == 'none' else inds
        return crd, w, f, given

    def op_add(self, m, c, how, scale=1):
        crd, w, f, inds = self.samples(m, c, how, scale)
        x, d = self.ms[m], self.ds[m]
        if how == 'scalar':
            w = float(w[0])
        self.call('add', lambda: x.add(crd, w, f, inds) if inds else x.add(crd, w, f), m, self.carg(crd) + [('wgts', w), ('fluxes', f)] + [('inds', i) for i in inds])
        px = d.pixels(crd)
        for k, v in enumerate([f * w, w + 0 * f] + [i * w for i in inds]):
            a = d.p[k].astype(float)
            np.add.at(a, px, v)
            d.p[k] = a.astype(d.dt)
            np.add.at(d.mag[k], px, np.abs(v))

    def op_put(self, m, c, how, scale=1):
        crd, w, f, inds = self.samples(m, c, how, scale)
        x, d = self.ms[m], self.ds[m]
        self.call('put', lambda: x.put(crd, w, f, inds) if inds else x.put(crd, w, f), m, self.carg(crd) + [('wgts', w), ('fluxes', f)] + [('inds', i) for i in inds])
        for k, v in enumerate([f * w, w] + [i * w for i in inds]):
            self.assign(d, k, d.pixels(crd), v)

    def assign(self, d, k, px, v):
        s, g = np.zeros(len(d.p[k])), np.zeros(len(d.p[k]))
        np.add.at(s, px, v)
        np.add.at(g, px, np.abs(v))
        hit = np.zeros(len(s), bool)
        hit[px] = True
        d.p[k] = np.where(hit, s, d.p[k]).astype(d.dt)
        d.mag[k] = np.where(hit, g, d.mag[k])

    def op_setitem(self, m, c, dt):
        crd, n, r = self.crd(m, c)
        v = (r.standard_normal(n) * 10).astype(dt)
        x, d = self.ms[m], self.ds[m]

        def act():
            x.wgt[crd] = v
        self.call('assignment', act, m, self.carg(crd) + [('val', v)])
        self.assign(d, 1, d.pixels(crd), v)

    def blurred(self, m):
        """some weights are zero but for rounding"""
        return ((self.ms[m].wgt.map > 0) != (self.ds[m].own(self.ds[m].p[1]) > 0)).any()

    def op_read(self, m, c, how):
        crd, n, r = self.crd(m, c)
        x, d = self.ms[m], self.ds[m]
        args = self.carg(crd)
        vals = [d.look(p.astype(float), crd, d.interp) for p in d.p]
        mags = [d.look(p, crd, d.interp) + (1e-4 * np.max(p) if d.interp else 0) for p in d.mag]
        if how == 'hpm':
            got = [self.call('HealpixMap[]', lambda: x.map[crd], args=args)]
        elif how == 'get':
            g = self.call('get', lambda: x.get(crd), args=args)
            if len(g) != 3 or len(g[2]) != len(d.p) - 2:
                self.fail('shape', 'get gives %r' % (g,))
            got = [g[1], g[0]] + list(g[2])
        else:
            got = self.call('Map[]', lambda: x[crd], args=args)
            if len(d.p) > 2:
                if len(got) != 2 or len(got[1]) != len(d.p) - 2:
                    self.fail('shape', 'Map[] gives %r' % (got,))
                got = [got[0]] + list(got[1])
            else:
                got = [got]
            w = np.where(vals[1] > 0, vals[1], 1)
            if self.blurred(m) or np.any((np.abs(vals[1]) < 1e-4 * mags[1] + 1e-12) & ((vals[1] != 0) | (mags[1] != 0))):
                return 'skip'
            vals = [v / w for v in [vals[0]] + vals[2:]]
            mags = [v / np.abs(w) * (1 + mags[1] / np.abs(w)) for v in [mags[0]] + mags[2:]]
        for k, g in enumerate(got):
            self.near(g, vals[k], mags[k] * 2, 'the value number %d read from map %d' % (k, m))

    def op_interp(self, m, on):
        self.ms[m].set_interpol(on)
        self.ds[m].interp = on

    def op_pixels(self, m, ncrd, of, seed):
        x, d = self.ms[m], self.ds[m]
        r = np.random.RandomState(seed)
        n = 12 * d.nside ** 2
        px = r.randint(0, n, r.randint(1, 9))
        h = x.wgt if of == 'wgt' else x.ind[0] if of == 'ind' and len(x.ind) else x
        if (h.nside(), h.npix(), h.scheme(), h.order()) != (d.nside, n, d.scheme, int(np.log2(d.nside))):
            self.fail('geometry', 'map %d says it has nside %r, %r pixels, scheme %r and order %r' % (m, h.nside(), h.npix(), h.scheme(), h.order()))
        kw = {} if ncrd is None else {'ncrd': ncrd}
        c = self.call('px2crd', lambda: h.px2crd(px, **kw), args=[('px', px)])
        ref = (healpy.pix2ang if ncrd == 2 else healpy.pix2vec)(d.nside, d.ring(px))
        if len(c) != len(ref) or any(np.shape(a) != np.shape(b) or np.max(np.abs(a - b)) > 1e-12 for a, b in zip(c, ref)):
            self.fail('geometry', 'the pixels %s of map %d are not where they should be' % (px.tolist(), m))
        got = self.call('crd2px', lambda: h.crd2px(*c), args=list(zip('xyz', c)))
        if not np.array_equal(got, px):
            self.fail('geometry', 'the pixels at the coordinates of %s in map %d are %s' % (px.tolist(), m, np.asarray(got).tolist()))
        got, w = self.call('crd2px', lambda: h.crd2px(*c, interpolate=True), args=list(zip('xyz', c)))
        rp, rw = healpy.get_interp_weights(d.nside, *healpy.pix2ang(d.nside, d.ring(px)))
        a, b = np.zeros((len(px), n)), np.zeros((len(px), n))
        for k in range(len(px)):
            np.add.at(a[k], d.ring(np.asarray(got)[k]), np.asarray(w)[k])
            np.add.at(b[k], rp[:, k], rw[:, k])
        if np.max(np.abs(a - b)) > 1e-6:
            self.fail('geometry', 'interpolating at %s in map %d takes other pixels or weights' % (px.tolist(), m))

    def op_nind(self, m, n):
        x, d = self.ms[m], self.ds[m]
        self.call('set_nindices', lambda: x.set_nindices(n), m)
        if n is not None:
            z = np.zeros(12 * d.nside ** 2)
            d.p = d.p[:2 + n] + [z.astype(d.dt) for _ in range(2 + n - len(d.p))]
            d.mag = d.mag[:2 + n] + [z.copy() for _ in range(2 + n - len(d.mag))]

    def op_reset(self, m, w):
        x, d = self.ms[m], self.ds[m]
        if self.blurred(m) or np.any((np.abs(d.p[1]) < 1e-4 * d.mag[1] + 1e-12) & ((d.p[1] != 0) | (d.mag[1] != 0))):
            return 'skip'                                   # what is left of weights that cancelled
        self.call('reset_wgt', lambda: x.reset_wgt() if w is None else x.reset_wgt(w), m)
        old, on = d.p[1].astype(float), d.p[1] > 0
        f = np.where(on, (1. if w is None else w) / np.where(on, old, 1), 1)
        rel = 1 + d.mag[1] / np.where(on, old, 1)
        for k in range(len(d.p)):
            if k != 1:
                d.p[k] = (d.p[k] * f).astype(d.dt)
                d.mag[k] = d.mag[k] * f * rel
        d.p[1] = np.where(on, 1. if w is None else w, 0).astype(d.dt)
        d.mag[1] = np.zeros(len(old))

    def op_scheme(self, m, s, how):
        x, d = self.ms[m], self.ds[m]
        d0 = d.scheme
        self.call('change_scheme', lambda: x.change_scheme(s), m)
        if how == 'there':
            self.call('change_scheme', lambda: x.change_scheme(d0), m)
        else:
            d.scheme = s

    def op_from(self, m, q):
        x, d, y, e = self.ms[m], self.ds[m], self.ms[q], self.ds[q]
        self.call('from_map', lambda: x.from_map(y), m)
        if m != q:
            for k in range(min(len(d.p), len(e.p))):
                d.p[k] = resample(e.p[k].astype(float), e.nside, d.nside).astype(d.dt)
                d.mag[k] = resample(np.abs(e.mag[k]), e.nside, d.nside) * 2 + np.abs(d.p[k]) + (1e-4 * np.max(e.mag[k]) if e.nside < d.nside else 0)

    def op_hpm(self, m, q):
        """the weights of one map from the signal of another"""
        x, d, y, e = self.ms[m], self.ds[m], self.ms[q], self.ds[q]
        self.call('from_hpm', lambda: x.wgt.from_hpm(y.map), m)
        d.p[1] = resample(e.p[0].astype(float), e.nside, d.nside).astype(d.dt)
        d.mag[1] = resample(np.abs(e.mag[0]), e.nside, d.nside) * 2 + np.abs(d.p[1]) + (1e-4 * np.max(e.mag[0]) if e.nside < d.nside else 0)

    def op_copy(self, m, how):
        x = self.ms[m]
        try:
            y = copy.deepcopy(x) if how == 'copy' else pickle.loads(pickle.dumps(x))
        except Exception as e:
            self.fail('raised', 'a map cannot be copied: %s: %s' % (type(e).__name__, str(e)[:100]))
        for h in [x.map, x.wgt] + x.ind:                    # the copy stays what it was
            h.map = h.map * np.nan
        self.ms[m] = y

    def op_set(self, m, s, dt, seed):
        x, d = self.ms[m], self.ds[m]
        a = (np.random.RandomState(seed).standard_normal(12 * d.nside ** 2)).astype(dt)
        h = self.hp.HealpixMap(nside=1)
        self.call('set_map', lambda: h.set_map(a.copy(), scheme=s))
        if h.nside() != d.nside or h.scheme() != s:
            self.fail('geometry', 'set_map makes a map of nside %r, scheme %r' % (h.nside(), h.scheme()))
        px = np.array([0, 0, 1, len(a) - 1])
        h[px] = np.array([1., 2., 3., 4.])
        ref = a.astype(float)
        ref[px] = [3, 3, 3, 4]
        self.near(h.map, ref, np.zeros(len(a)), 'the map which was set')
        self.near(h[np.arange(len(a))], ref, np.zeros(len(a)), 'what is read of the map which was set')
        h.change_scheme('RING')
        self.call('from_hpm', lambda: x.map.from_hpm(h), m)
        d.p[0] = (ref[healpy.ring2nest(d.nside, np.arange(len(a)))] if s == 'NEST' else ref).astype(d.dt)
        d.mag[0] = np.abs(d.p[0]).astype(float)

    def op_alm(self, k, how, m, seed):
        a, d = self.alms[k], self.ds[m]
        r = np.random.RandomState(seed)
        lmax, mmax = self.scn['cfg']['alm'][k]
        idx = [(l, q) for q in range(mmax + 1) for l in range(q, lmax + 1)]
        if a.size() != len(idx) or (a.lmax(), a.mmax()) != (lmax, mmax):
            self.fail('alm', 'there are %d coefficients to l=%d, m=%d, expected %d' % (a.size(), a.lmax(), a.mmax(), len(idx)))
        if [tuple(map(int, v)) for v in self.call('lm_indices', a.lm_indices)] != idx:
            self.fail('alm', 'lm_indices are not those of the coefficients')
        i = r.randint(len(idx))
        if how == 'set':
            v = complex(*r.standard_normal(2))
            a[idx[i]] = v
            self.ad[k][i] = v
        elif how == 'data':
            v = r.standard_normal(len(idx)) + 1j * r.standard_normal(len(idx))
            keep = v.copy()
            self.call('set_data', lambda: a.set_data(v))
            v[:] = 0                                        # it keeps its own
            self.ad[k] = keep
        elif how == 'get':
            if a[idx[i]] != self.ad[k][i]:
                self.fail('alm', 'coefficient %r is not what it was set to' % (idx[i],))
        elif how == 'smooth' and lmax != mmax:
            return 'skip'                                   # healpy cannot
        elif how in ('tomap', 'smooth'):
            h = self.hp.HealpixMap(d.nside, d.scheme)
            sig = 0.
            if how == 'smooth':
                sig = float(r.uniform(.05, 1.))
                h.set_map(self.call('to_map', lambda: a.to_map(d.nside, **[{'sigma': sig}, {'fwhm': sig * np.sqrt(8 * np.log(2))}][seed % 2])), scheme='RING')
            else:
                self.call('from_alm', lambda: h.from_alm(a))
            th, ph = healpy.pix2ang(d.nside, np.arange(12 * d.nside ** 2), nest=h.scheme() == 'NEST')
            from scipy.special import lpmv, gammaln
            exp = np.zeros(len(th))
            for (l, q), c in zip(idx, self.ad[k]):
                y = np.sqrt((2 * l + 1) / 4 / np.pi * np.exp(gammaln(l - q + 1) - gammaln(l + q + 1))) * lpmv(q, l, np.cos(th))
                c = c * np.exp(-.5 * l * (l + 1) * sig ** 2)
                exp += (c.real if q == 0 else 2 * (c * np.exp(1j * q * ph)).real) * y
            if np.max(np.abs(h.map - exp)) > 1e-8 * (1 + np.sum(np.abs(self.ad[k]))):
                self.fail('alm', 'the map made of the coefficients is not that of the harmonics')
        else:
            if d.nside < 4 or lmax > d.nside:
                return 'skip'
            h = self.hp.HealpixMap(d.nside)
            h.from_alm(a)
            b = self.call('to_alm', lambda: h.to_alm(lmax, mmax, iter=8))
            exp = self.ad[k] if mmax else self.ad[k]
            exp = np.array([c.real if q == 0 else c for (l, q), c in zip(idx, exp)])
            if b.size() != len(exp) or np.max(np.abs(b.get_data() - exp)) > 1e-4 * (1 + np.max(np.abs(exp))):
                self.fail('alm', 'the coefficients of the map are not those it was made of')

    def op_facets(self, n, ncrd, seed):
        random.seed(seed)                                   # what the rest of the program does
        got = self.call('facet_centers', lambda: self.map.facet_centers(n, ncrd=ncrd))
        key = (n, ncrd)
        if self.facets.setdefault(key, got.tobytes()) != got.tobytes():
            self.fail('facets', 'facet_centers(%d) gives another order than before' % n)
        got3 = got if ncrd == 3 else np.array([np.cos(got[1]) * np.cos(got[0]), np.cos(got[1]) * np.sin(got[0]), np.sin(got[1])])
        p = self.map.pack_sphere(n)
        if got3.shape != (3, n) or np.any(np.abs(np.sum(got3 ** 2, axis=0) - 1) > 1e-9):
            self.fail('facets', 'facet_centers(%d) is not %d directions' % (n, n))
        o, q = np.argsort(got3[2]), np.argsort(p[2])
        if not np.allclose(got3[:, o], p[:, q], atol=1e-9):
            self.fail('facets', 'facet_centers(%d) are not the points of pack_sphere' % n)

    def op_a2a(self, how, dt, nd, seed):
        r = np.random.RandomState(seed)
        shape = tuple(r.randint(1, 5, size=nd))
        n = r.randint(0, 12)
        ind = np.array([r.randint(0, s, size=n) for s in shape], dtype=np.int64).T.reshape(n, nd)
        big = np.iinfo(dt).max if dt[0] in 'iu' else 1 if dt == '?' else 9
        gen = lambda sh: np.array([r.randint(0, 2 ** 31) * 2 ** 31 % big if big > 9 else r.randint(0, big + 1) for _ in range(int(np.prod(sh)))]).reshape(sh).astype(dt)
        a, dat = gen(shape), gen(n)
        if how == 'f':
            a = np.asfortranarray(a)
        elif how == 'strided':
            buf = np.zeros([2 * s for s in shape], dt)
            sl = tuple(slice(None, None, 2) for _ in shape)
            buf[sl] = a
            a = buf[sl]
            d2 = np.zeros(2 * n, dt)
            d2[::2] = dat
            dat = d2[::2]
            ind = np.asfortranarray(ind)
        elif how == 'swapped':
            a = a.astype(a.dtype.newbyteorder())
            dat = dat.astype(dat.dtype.newbyteorder())
        elif how == 'swap1':
            if seed % 2:
                a = a.astype(a.dtype.newbyteorder())
            else:
                dat = dat.astype(dat.dtype.newbyteorder())
        elif how == 'kind':
            ind = [ind, ind.astype('i4'), ind.tolist(), ind.astype('>i8')][seed % 4]
            if seed % 5 == 0:
                dat = dat.tolist()
        elif how == 'bad' and n:
            k = r.randint(nd)
            ind[r.randint(n), k] = r.choice([shape[k], -shape[k] - 1, 7, -7, 2 ** 32, -2 ** 32, 2 ** 62])
        elif how == 'neg':
            ind = ind - np.array(shape)
        start = np.array(a)
        if how == 'readonly':
            a.flags.writeable = False
        try:
            self.utils.add2array(a, ind, dat)
        except (ValueError, TypeError):
            if how in ('c', 'f', 'strided', 'neg') and dt not in ('f2', 'O'):
                self.fail('refusal', 'add2array refused good arrays')
            if how != 'bad' and not np.array_equal(a, start):
                self.fail('refusal', 'add2array which refused changed the array')
            return 'refused'
        if how == 'bad' and n or how == 'readonly' and n:
            self.fail('refusal', 'add2array took %s' % ('an index that is out of the array' if how == 'bad' else 'an array that cannot be written'))
        exp = np.array(start)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.add.at(exp, tuple(np.asarray(ind).T) if n else tuple(np.zeros((nd, 0), int)), np.asarray(dat, exp.dtype))
        if not np.array_equal(a, exp):
            self.fail('add', 'add2array on %s %s arrays does not add' % (how, dt))

    # -- files
    def limit(self, n):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY if n is None else n, resource.RLIM_INFINITY))

    def op_fits(self, m, kind, fault, at):
        x, d = self.ms[m], self.ds[m]
        self.armed = None
        self.nfile += 1
        f = os.path.join(self.dir, 'm%d.fits' % self.nfile)
        obj = x if kind == 'map' else x.map

        def write(**k):
            obj.to_fits(f, **k)
        try:
            if fault == 'full':
                write()
                n = os.path.getsize(f)
                os.unlink(f)
                self.limit(int(at * n))
                done = True
                try:
                    write()
                except (OSError, IOError):
                    done = False
                finally:
                    self.limit(None)
                if done:
                    self.fail('swallowed', 'to_fits succeeded although only %d of %d bytes fit on the disk' % (int(at * n), n))
                self.st('fault.full')
                self.fired = True
                if os.path.exists(f):
                    os.unlink(f)
            if fault == 'again':
                with open(f, 'wb') as h:
                    h.write(b'old' * 1000)
            write(**({'clobber': True} if fault == 'again' else {}))
            whole = open(f, 'rb').read()
            if fault == 'exists':
                keep = x.map.map
                x.map.map = x.map.map + 1
                try:
                    write(clobber=False)
                except (OSError, IOError):
                    if open(f, 'rb').read() != whole:
                        self.fail('clobber', 'to_fits which refused to overwrite a file changed it')
                else:
                    self.fail('clobber', 'to_fits with clobber=False overwrote a file')
                x.map.map = keep
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if fault == 'torn':
                    with open(f, 'wb') as h:
                        h.write(whole[:int(at * (len(whole) - 2880))])
                    try:
                        g = self.map.Map(fromfits=f)
                        got = [g.map, g.wgt] + g.ind
                    except Exception:
                        got = None
                    if got is not None and (len(got) != (len(d.p) if kind == 'map' else 2) or not np.array_equal(got[0].map, x.map.map)):
                        self.fail('torn', 'a map read of a file cut short is not the one which was written')
                    with open(f, 'wb') as h:
                        h.write(whole)
                    self.st('fault.torn')
                    self.fired = True
                if kind == 'map' or at >= .5:
                    other = healpy.read_map(f, nest=False, dtype=None)
                    if not np.array_equal(other, d.own(x.map.map)[()] if d.scheme == 'RING' else x.map.map[healpy.ring2nest(d.nside, np.arange(x.map.map.size))]):
                        self.fail('fits', 'another reader of FITS files gets another map than the one which was written')
                if fault == 'into':
                    g = self.map.Map(2, 'NEST') if at < .3 else self.map.Map(2, dtype=np.float32, nindices=2) if at < .6 else self.map.Map(nside=2, nindices=1)
                    g.from_fits(f)
                elif kind == 'hpm' and at < .5:
                    g = None
                    h = self.hp.HealpixMap(fromfits=f)
                else:
                    g = self.map.Map(fromfits=f)
                if g is not None:
                    h = g.map
        except Violation:
            raise
        except Exception as e:
            self.fail('raised', 'FITS i/o raised %s: %s' % (type(e).__name__, str(e)[:200]))
        got = [h] if g is None else [g.map, g.wgt] + list(g.ind)
        want = [x.map, x.wgt] + list(x.ind)
        if kind == 'hpm':
            want = [x.map] + ([] if g is None else [None])
        if len(got) != len(want):
            self.fail('fits', 'a map read from a file has %d indices, expected %d' % (len(got) - 2, len(want) - 2))
        for k, (p, q) in enumerate(zip(got, want)):
            if (p.nside(), p.scheme()) != (d.nside, d.scheme):
                self.fail('geometry', 'a map read from a file has the geometry %r, written was %r' % ((p.nside(), p.scheme()), (d.nside, d.scheme)))
            e = np.ones(12 * d.nside ** 2) if q is None else q.map
            if not p.map.dtype.isnative or not np.array_equal(p.map, e):
                self.fail('fits', 'column %d read from a file is not the one which was written' % k)
        os.unlink(f)
        if kind == 'map' and g is not None and fault in (None, 'into'):
            # go on with what was read
            if d.interp:
                g.set_interpol(True)
            self.ms[m] = g
            if d.dt != 'f8':
                g.kwargs['dtype'] = np.dtype(d.dt).type


def run(aipy, scn, log=False):
    r = Run(scn, aipy)
    try:
        with np.errstate(all='ignore'):
            return r.run()
    except Violation as v:
        return r.result(violation=v.cls, msg=v.msg, op=r.i)
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
