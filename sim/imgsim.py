"""C19: imaging sessions.

One run is a session over a few images: visibilities are gridded in batches of seeded sizes, orders and forms,
looked up, imaged, some of it with allocations failing and calls refused, and written to and read from FITS files
on a disk that fills up.  What is in an image is compared with the sum over the visibilities that were put in it,
one by one, in double precision."""
from __future__ import print_function
import hashlib, json, os, random, resource, shutil, tempfile, warnings, contextlib
import numpy as np
from aasim import Ctl, Fault, NP
from uvsim import Violation

C = .63661977236758149


# ------------------------------------------------------------------------------ workload
def rf(rng, a, b):
    return round(rng.uniform(a, b), 6)


def scenario(pid, seed, dry):
    rng = random.Random(seed * 4211 + 19)
    cfg = {'imgs': [gen_img(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}
    ops, n, faults = [], rng.choice([6, 12, 25]), rng.random() < .5
    while len(ops) < n:
        o = gen_op(rng, cfg)
        if faults and rng.random() < .3:
            ops.append(['fault', rng.choice([1, 2, 3, 4, 6, 9, 14, 22]), o])
        else:
            ops.append(o)
    return {'seed': seed, 'profile': pid, 'cfg': cfg, 'ops': ops}


def gen_img(rng):
    dim, res = rng.choice([4, 7, 8, 15, 16, 24, 32]), rng.choice([.4, .5, .7, 1., 1.5, 2.])
    return {'w': rng.random() < .4, 'dim': dim, 'res': res, 'mf': rng.choice([0, 0, 0, 1, 2]), 'wres': rng.choice([.3, .5, 1.5])}


def gen_batch(rng):
    return {'n': rng.choice([0, 1, 1, 2, 3, 8, 20, 40]), 'seed': rng.randint(0, 10 ** 6), 'spread': rng.choice([.3, .45, .5, 2.]), 'on': rng.random() < .2,
            'wspread': rng.choice([0., 1., 30.]), 'dt': rng.choice(['c8', 'c16', 'c16', 'f8', 'f4', 'i8']), 'ut': rng.choice(['f8', 'f8', 'f4']), 'form': rng.choice(['c', 'c', 'strided', 'reversed']),
            'wt': rng.choice(['f8', 'f4', 'c8', 'c16']), 'dup': rng.random() < .2}


def gen_op(rng, cfg):
    m = rng.randrange(len(cfg['imgs']))
    k = rng.random()
    if k < .45:
        return ['put', m, gen_batch(rng), {'w': rng.choice(['none', 'list', 'list', 'bare', '2d', 'tuple']), 'apply': rng.random() < .75, 'herm': rng.random() < .4, 'ker2': rng.random() < .2}]
    if k < .50:
        return ['bad', m, gen_batch(rng), rng.choice(['data', 'wgts', 'nwgts', 'u'])]
    if k < .65:
        return ['get', m, gen_batch(rng)]
    if k < .75:
        return ['image', m, [rng.choice([0, rng.randint(-40, 40)]), rng.choice([0, rng.randint(-40, 40)])], rng.choice([None, None, 0, 1])]
    if k < .80:
        return ['crd', m, [rng.choice([0, rng.randint(-40, 40)]), rng.choice([0, rng.randint(-40, 40)])], rf(rng, 0, 6.28), rf(rng, -1.5, 1.5)]
    if k < .82:
        return ['recenter', [rng.randint(1, 9), rng.randint(1, 9)], [rng.choice([rng.randint(-30, 30), rf(rng, -9, 9)]) for _ in range(2)], rng.random() < .4, rng.randint(0, 10 ** 6)]
    if k < .85:
        return ['source', rng.choice([16, 24, 32]), rng.choice([.5, 1., 2.]), rng.random() < .5, rng.randint(0, 10 ** 6)]
    if k < .90:
        return ['grid', [rng.choice([1, 2, 5, 8, 13]) for _ in range(rng.choice([1, 2, 2]))], gen_batch(rng), rng.choice(['c', 'f', 'strided', 'buf', 'short'])]
    return ['fits', m, gen_fits(rng), rng.choice([None, None, 'full', 'torn', 'again', 'exists'])]


def gen_fits(rng):
    return {'what': rng.choice(['image', 'bm', 'cube', 'cube', 'big', 'flat']), 'dt': rng.choice(['f4', 'f8', 'i2', 'i4', '>f8']), 'seed': rng.randint(0, 10 ** 6), 'form': rng.choice(['c', 'f', 'strided']),
            'kw': {k: v for k, v in (('object', 'J%d' % rng.randint(0, 999)), ('telescope', 'PAPER'), ('instrument', 'x'), ('observer', 'me'), ('obs_date', '01/02/13'), ('cur_date', '03/04/15'), ('origin', 'here'),
                   ('ra', rf(rng, 0, 360)), ('dec', rf(rng, -90, 90)), ('d_ra', rf(rng, -1, 1)), ('d_dec', rf(rng, .01, 1)), ('epoch', rng.choice([1950., 2000.])), ('freq', rf(rng, 1e8, 2e8)), ('d_freq', rf(rng, 1e5, 1e6)),
                   ('history', rng.choice(['one\n#two\n' + 'long words ' * rng.randint(1, 20), 'x' * 100]))) if rng.random() < .5},
            'stokes': rng.random() < .3, 'glon': rng.random() < .15, 're': gen_refits(rng) if rng.random() < .4 else None, 'at': rf(rng, 0, 1)}


def gen_refits(rng):
    kw = {'object': 'K%d' % rng.randint(0, 999), 'telescope': 'GMRT', 'instrument': 'y', 'observer': 'you', 'obs_date': '05/06/17', 'cur_date': '07/08/19', 'origin': 'there', 'ra': rf(rng, 0, 360), 'dec': rf(rng, -90, 90),
          'd_ra': rf(rng, -1, -.1), 'd_dec': rf(rng, .01, 1), 'epoch': rng.choice([1950., 2000.]), 'freq': rf(rng, 1e8, 2e8), 'd_freq': rf(rng, 1e5, 1e6)}
    p = rng.random()
    return {'kw': {k: v for k, v in kw.items() if rng.random() < p}, 'seed': rng.randint(0, 10 ** 6), 'history': rng.choice([None, 'made\nagain']), 'over': rng.random() < .3}


# ------------------------------------------------------------------------------ the reference
def lay(a, form):
    if form == 'strided':
        b = np.zeros(2 * len(a), a.dtype)
        b[::2] = a
        return b[::2]
    if form == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    return a


class Batch(object):
    def __init__(self, d, g, wgts):
        r = np.random.RandomState(d['seed'])
        n, size = d['n'], g['dim'] * g['res']
        uvw = r.uniform(-d['spread'], d['spread'], size=(3, n)) * size
        if d['on']:
            uvw = np.round(uvw / g['res']) * g['res']
        uvw[2] = r.uniform(-1, 1, size=n) * d['wspread']
        if d['dup'] and n > 1:
            uvw[:, n // 2:] = uvw[:, :n - n // 2]
        dat = r.standard_normal(n) + 1j * r.standard_normal(n)
        dat = (dat * 10).real if d['dt'][0] != 'c' else dat
        self.u, self.v, self.w = [lay(x.astype(d['ut']), d['form']) for x in uvw]
        self.d = lay(dat.astype(d['dt']), d['form'])
        self.wgts = [lay(r.uniform(.2, 2, size=n).astype(d['wt']), d['form']) for _ in range(wgts)]


def kern(ind, j0, n):
    d = np.asarray(ind, np.float64) - j0
    return np.exp(-2 * d * d), j0 % n


def spread(shape, inds, vals):
    """-> (what inds/vals add to the grid, by how much at most in rounding)"""
    out = np.zeros(shape, complex)
    mag = np.zeros(shape)
    if not len(vals):
        return out, mag
    ax = []
    for i, n in zip(inds, shape):
        i = np.asarray(i, np.float32)
        a = np.zeros((len(i), n))
        f = np.floor(i).astype(np.int64)
        for k in range(-5, 7):
            w, j = kern(i, f + k, n)
            np.add.at(a, (np.arange(len(i)), j), np.where(np.abs(i - (f + k)) <= 5, w, 0))
        ax.append(a)
    vals = np.asarray(vals).astype(np.complex64).astype(complex)
    if len(shape) == 1:
        ax.append(np.ones((len(vals), 1)))
        c = .79788456080286541
    else:
        c = C
    out = np.einsum('k,ki,kj->ij', vals, ax[0], ax[1]) * c
    mag = np.einsum('k,ki,kj->ij', np.abs(vals), ax[0], ax[1]) * c
    return out.reshape(shape), mag.reshape(shape)


def lookup(buf, a, b):
    a, b = np.asarray(a, np.float32), np.asarray(b, np.float32)
    out = np.zeros(len(a), complex)
    tot = np.zeros(len(a))
    fa, fb = np.floor(a).astype(np.int64), np.floor(b).astype(np.int64)
    for i in range(-5, 7):
        wa, ja = kern(a, fa + i, buf.shape[0])
        for j in range(-5, 7):
            wb, jb = kern(b, fb + j, buf.shape[1])
            out += wa * wb * buf[ja, jb]
            tot += wa * wb
    return out / tot


class Model(object):
    def __init__(self, g):
        self.g = g
        self.n = g['dim']
        self.planes = [np.zeros((self.n, self.n), complex) for _ in range(g['mf'] + 2)]
        self.mag = [np.zeros((self.n, self.n)) for _ in self.planes]
        self.cache = {}
        k = np.arange(self.n)
        L = np.where(k > self.n // 2, self.n - k, -k) / float(self.n) / g['res']
        self.L, self.M = np.broadcast_arrays(L[None, :], -L[:, None])
        self.r2 = self.L ** 2 + self.M ** 2

    def ker(self, w):
        with np.errstate(all='ignore'):
            G = np.where(self.r2 < 1, np.exp(-2j * np.pi * w * (np.sqrt(np.maximum(1 - self.r2, 0)) - 1)), 0)
        i = -np.arange(self.n) % self.n
        return G[i][:, i] / G.size

    def chunks(self, w):
        s = np.sqrt(np.abs(w)) * np.sign(w)
        i = 0
        while i < len(w):
            j = int(s.searchsorted(s[i] + self.g['wres']))
            yield i, j, np.average(w[i:j]), np.round(np.average(s[i:j]) / self.g['wres']) * self.g['wres']
            i = j

    def contrib(self, b, u, v, w, data, wgts, ker2=None):
        """-> ([uv, bm...], [their scales]) that a batch adds"""
        g = self.g
        out = [(np.zeros((self.n, self.n), complex), np.zeros((self.n, self.n))) for _ in self.planes]
        if not g['w']:
            ind = -v / g['res'], u / g['res']
            return [spread((self.n, self.n), ind, x) for x in [data] + wgts]
        if not len(u):
            return out
        o = np.argsort(w, kind='stable')
        u, v, w, data, wgts = u[o], v[o], w[o], data[o], [x[o] for x in wgts]
        for i, j, aw, _ in self.chunks(w):
            ker = self.ker(aw)
            if ker2 is not None:
                ker = ker * ker2
            for k, x in enumerate([data] + wgts):
                s, m = spread((self.n, self.n), (-v[i:j] / g['res'], u[i:j] / g['res']), x[i:j])
                p, q = out[k]
                out[k] = p + np.fft.ifft2(np.fft.fft2(s) * ker), q + np.sum(m) / ker.size * (1 + abs(aw)) * (1 if ker2 is None else np.max(np.abs(ker2)))
        return out

    def get(self, u, v, w):
        if not self.g['w']:
            a, b = u / self.g['res'], -v / self.g['res']
            return lookup(self.planes[0], a, b), lookup(self.planes[1], a, b), 1.
        o = np.argsort(w, kind='stable')
        u_, v_, w_ = u[o], v[o], w[o]
        U, B = np.zeros(len(u), complex), np.zeros(len(u), complex)
        for i, j, aw, iid in self.chunks(w_):
            aw = self.cache.setdefault(iid, aw)
            ker = self.ker(-aw)
            a, b = u_[i:j] / self.g['res'], -v_[i:j] / self.g['res']
            U[o[i:j]] = lookup(np.fft.ifft2(np.fft.fft2(self.planes[0]) * ker), a, b)
            B[o[i:j]] = lookup(np.fft.ifft2(np.fft.fft2(self.planes[1]) * ker), a, b)
        return U, B, 1. / self.n ** 2


# ------------------------------------------------------------------------------ the run
class Run(object):
    def __init__(self, scn, aipy):
        self.scn, self.img, self.dsp = scn, aipy.img, aipy._dsp
        self.ctl = Ctl()
        self.img.np = NP(self.ctl)
        self.dir = tempfile.mkdtemp(prefix='imgsim')
        self.ims = [self.make(g) for g in scn['cfg']['imgs']]
        self.mds = [Model(g) for g in scn['cfg']['imgs']]
        self.stats, self.sig, self.log, self.i = {}, [], [], 0
        self.nfile = 0

    def make(self, g):
        size = g['dim'] * g['res']
        if g['w']:
            return self.img.ImgW(size, g['res'], wres=g['wres'], mf_order=g['mf'], verbose=False)
        return self.img.Img(size, g['res'], mf_order=g['mf'])

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def result(self, **kw):
        h = hashlib.sha1(json.dumps(self.log).encode()).hexdigest()
        return dict({'stats': self.stats, 'sig': self.sig, 'log': h, 'disk': ''}, **kw)

    def fail(self, cls, msg):
        raise Violation(cls, 'op %d: %s' % (self.i, msg))

    def run(self):
        for self.i, o in enumerate(self.scn['ops']):
            self.step(o)
            for m in range(len(self.ims)):
                self.compare(m)
        return self.result()

    def step(self, o):
        self.armed, self.fired = None, False
        if o[0] == 'fault':
            self.armed, o = o[1], o[2]
        how = getattr(self, 'op_' + o[0])(*o[1:]) or 'ok'
        self.st('op.' + o[0])
        self.sig.append('%s:%s%s' % (o[0], how, '!' if self.fired else ''))
        self.log.append([o[0], how, self.fired])

    def call(self, what, fn, undo=None, args=()):
        """fn(), first with a failing allocation where the op is to have one"""
        copies = [(n, a, a.tobytes()) for n, a in args] if args else []

        def same():
            for n, a, b in copies:
                if a.tobytes() != b:
                    self.fail('argument', '%s changed its argument %s' % (what, n))
        if self.armed:
            self.ctl.arm(self.armed)
            self.armed = None
            try:
                r = fn()
                done = True
            except MemoryError:
                done = False
            except Exception as e:
                done = None
                if not self.ctl.fired:
                    raise
                self.fail('fault', '%s raised %s: %s when an allocation failed' % (what, type(e).__name__, e))
            finally:
                fired = self.ctl.disarm()
            same()
            if not fired:
                return r
            self.fired = True
            self.st('fault.numpy')
            if done:
                self.fail('swallowed', '%s succeeded although an allocation failed in it' % what)
            if undo:
                undo()
        try:
            r = fn()
        except Exception as e:
            self.fail('raised', '%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
        same()
        return r

    # -- what an image holds
    def snap(self, m):
        im = self.ims[m]
        return [im.uv.copy()] + [b.copy() for b in im.bm], dict(getattr(im, 'wcache', {}))

    def back(self, m, s):
        im = self.ims[m]
        for p, q in zip([im.uv] + im.bm, s[0]):
            p[...] = q

    def near(self, got, exp, mag, what, k=3e-6):
        if got.shape != exp.shape:
            self.fail('shape', '%s has the shape %r, expected %r' % (what, got.shape, exp.shape))
        with np.errstate(all='ignore'):
            d = np.abs(got - exp)
        if not np.all(d <= k * np.max(mag, initial=0) + k * 10 * mag + 1e-12):
            i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            self.fail('image', '%s is %r at %r, expected %r' % (what, got[i].item(), tuple(map(int, i)), exp[i].item()))

    def compare(self, m):
        im, md = self.ims[m], self.mds[m]
        planes = [im.uv] + list(im.bm)
        if len(planes) != len(md.planes):
            self.fail('terms', 'image %d has %d beams, expected %d' % (m, len(im.bm), len(md.planes) - 1))
        for k, p in enumerate(planes):
            self.near(p, md.planes[k], md.mag[k], '%s of image %d' % ('uv' if not k else 'beam %d' % (k - 1), m), 1e-5)

    # -- ops
    def op_put(self, m, bd, kw):
        im, md, g = self.ims[m], self.mds[m], self.scn['cfg']['imgs'][m]
        form = kw['w']
        if form == 'bare' and g['mf']:
            form = 'list'
        b = Batch(bd, g, g['mf'] + 1)
        given = None if form == 'none' else list(b.wgts) if form == 'list' else tuple(b.wgts) if form == 'tuple' else b.wgts[0] if form == 'bare' else np.array(b.wgts)
        u, v, w, data = b.u, b.v, b.w, b.d
        wgts = b.wgts if given is not None else [np.ones(len(u))] + [np.zeros(len(u))] * g['mf']
        args = [('u', u), ('v', v), ('w', w), ('data', data)] + [('wgts', x) for x in b.wgts]
        if form == '2d':
            args.append(('wgts', given))
        if kw['herm']:
            if form in ('tuple', '2d'):
                given = list(b.wgts)
            keep = given if not isinstance(given, list) else list(given)
            r = self.call('append_hermitian', lambda: im.append_hermitian((u, v, w), data, given), args=args)
            if isinstance(given, list) and (len(given) != len(keep) or any(x is not y for x, y in zip(given, keep))):
                self.fail('argument', 'append_hermitian changed the list of weights it was given')
            if len(r) != (2 if given is None else 3):
                self.fail('hermitian', 'append_hermitian returns %d things' % len(r))
            (u, v, w), data = r[0], r[1]
            cat = lambda x, s: np.concatenate([x, s * x])
            for nm, x, e in [('u', u, cat(b.u, -1)), ('v', v, cat(b.v, -1)), ('w', w, cat(b.w, -1)), ('data', data, np.concatenate([b.d, np.conj(b.d)]))]:
                if x.shape != e.shape or not np.array_equal(x, e):
                    self.fail('hermitian', 'append_hermitian gives another %s than expected' % nm)
            wgts = [np.concatenate([x, x]) for x in wgts]
            if given is not None:
                given = r[2]
                if len(given) != len(wgts) or any(not np.array_equal(x, y) for x, y in zip(given, wgts)):
                    self.fail('hermitian', 'append_hermitian gives other weights than expected')
            args = args + [('data', data)]
        ker2 = None
        if g['w'] and kw['ker2']:
            ker2 = np.random.RandomState(bd['seed']).uniform(.5, 1.5, size=(md.n, md.n))
            args = args + [('invker2', ker2)]
        c = md.contrib(b, u, v, w, data, wgts, ker2)
        before = self.snap(m)
        if g['w']:
            r = self.call('put', lambda: im.put((u, v, w), data, given, **({} if ker2 is None else {'invker2': ker2})), undo=lambda: self.back(m, before), args=args)
        else:
            def undo():
                self.compare(m)
            r = self.call('put', lambda: im.put((u, v, w), data, given, apply=kw['apply']), undo=undo, args=args)
            if not kw['apply']:
                if any(x.tobytes() != y.tobytes() for x, y in zip([im.uv] + im.bm, before[0])):
                    self.fail('apply', 'put with apply=False changed the image')
                for k, (p, q) in enumerate(c):
                    self.near(([r[0]] + list(r[1]))[k], p, q, 'plane %d of what put with apply=False returns' % k)
                return 'noapply'
        if r is not None:
            self.fail('put', 'put returns %r' % (r,))
        for k, (p, q) in enumerate(c):
            md.planes[k] = md.planes[k] + p
            md.mag[k] = md.mag[k] + q
        if len(u):
            md.cache = {}

    def op_recenter(self, sh, c, ma, seed):
        r = np.random.RandomState(seed)
        a = r.standard_normal(sh)
        if ma:
            a = np.ma.array(a, mask=r.uniform(size=sh) < .3)
        got = self.call('recenter', lambda: self.img.recenter(a, tuple(c)), args=[('a', np.ma.getdata(a))])
        k = [-int(x % n) for x, n in zip(c, sh)]
        roll = lambda x: np.roll(x, k, axis=(0, 1))
        if np.ma.isMA(got) != ma or not np.array_equal(np.ma.getmaskarray(got), roll(np.ma.getmaskarray(a))) or not np.array_equal(np.ma.getdata(got), roll(np.ma.getdata(a))):
            self.fail('recenter', 'recenter of %r by %r is not the array moved there' % (sh, c))

    def op_bad(self, m, bd, how):
        im, g = self.ims[m], self.scn['cfg']['imgs'][m]
        if g['w']:
            return 'skip'
        b = Batch(bd, g, g['mf'] + 1)
        if not len(b.u):
            return 'skip'
        u, v, w, data, wgts = b.u, b.v, b.w, b.d, list(b.wgts)
        if how == 'data':
            data = np.concatenate([data, data[:1]])
        elif how == 'wgts':
            wgts[-1] = np.concatenate([wgts[-1], wgts[-1][:1]])
        elif how == 'nwgts':
            wgts.append(wgts[0])
        else:
            u = u[:-1]
        before = self.snap(m)
        try:
            im.put((u, v, w), data, wgts)
        except Exception:
            pass
        else:
            self.fail('refusal', 'put took %s of another size' % how)
        if any(x.tobytes() != y.tobytes() for x, y in zip([im.uv] + im.bm, before[0])):
            self.fail('refusal', 'put which was refused changed the image')

    def op_get(self, m, bd):
        im, md, g = self.ims[m], self.mds[m], self.scn['cfg']['imgs'][m]
        b = Batch(bd, g, 0)
        if not len(b.u):
            return 'skip'
        args = [('u', b.u), ('v', b.v), ('w', b.w)]
        with np.errstate(all='ignore'):
            got = self.call('get', lambda: im.get((b.u, b.v, b.w)), args=args)
            U, B, s = md.get(b.u, b.v, b.w)
            exp = U / B
        if got.shape != exp.shape:
            self.fail('shape', 'get of %d gives %r' % (len(b.u), got.shape))
        big = 1 + np.max(np.abs(b.w)) if g['w'] else 1.
        mu, mb = np.max(md.mag[0], initial=0) * big * s, np.max(md.mag[1], initial=0) * big * s
        # where the beam is next to nothing, anything may come out
        with np.errstate(all='ignore'):
            ok = np.abs(B) > 3e-2 * mb
            tol = (1e-5 * mu + 1e-5 * mb * np.abs(exp)) / np.abs(B) + 1e-5 * np.abs(exp)
            bad = ok & ~(np.abs(got - exp) <= tol)
        if bad.any():
            i = int(np.argmax(bad))
            self.fail('get', 'get number %d gives %r, expected %r' % (i, got[i].item(), exp[i].item()))
        self.st('got', int(ok.sum()))

    def op_image(self, m, c, term):
        im, md = self.ims[m], self.mds[m]
        roll = lambda a: np.roll(np.fft.ifft2(a).real, (-c[0], -c[1]), (0, 1))
        got = self.call('image', lambda: im.image(center=tuple(c)))
        tot = lambda k: np.sum(md.mag[k]) * 1e-6 + np.zeros(md.mag[k].shape)
        self.near(got, roll(md.planes[0]), tot(0), 'the image', 1.)
        if term is not None and term < len(im.bm):
            b = [self.call('bm_image', lambda: im.bm_image(center=tuple(c), term=term))]
            exp = [term]
        else:
            b = self.call('bm_image', lambda: im.bm_image(center=tuple(c)))
            exp = list(range(len(md.planes) - 1))
        if len(b) != len(exp):
            self.fail('terms', 'bm_image gives %d images, expected %d' % (len(b), len(exp)))
        for x, k in zip(b, exp):
            self.near(x, roll(md.planes[k + 1]), tot(k + 1), 'the beam image %d' % k, 1.)

    def op_crd(self, m, c, ra, dec):
        im, md = self.ims[m], self.mds[m]
        roll = lambda a: np.roll(a, (-c[0], -c[1]), (0, 1))
        L, M = self.call('get_LM', lambda: im.get_LM(tuple(c)))
        x, y, z = self.call('get_top', lambda: im.get_top(tuple(c)))
        eq = self.call('get_eq', lambda: im.get_eq(ra, dec, tuple(c)))
        mask = roll(md.r2 >= 1)
        edge = np.abs(roll(md.r2) - 1) < 1e-5
        got = np.ma.getmaskarray(L)
        if np.any((got != mask) & ~edge):
            self.fail('mask', 'get_LM masks other pixels than those beyond the horizon')
        ok = ~mask & ~edge
        e = [roll(md.L), roll(md.M)]
        e.append(np.sqrt(np.maximum(1 - e[0] ** 2 - e[1] ** 2, 0)))
        sa, ca, sd, cd = np.sin(ra), np.cos(ra), np.sin(dec), np.cos(dec)
        q = [-sa * e[0] - sd * ca * e[1] + cd * ca * e[2], ca * e[0] - sd * sa * e[1] + cd * sa * e[2], cd * e[1] + sd * e[2]]
        for nm, a, b in [('L', L, e[0]), ('M', M, e[1])] + list(zip('xyz', (x, y, z), e)) + list(zip(('eq x', 'eq y', 'eq z'), eq, q)):
            if a.shape != b.shape or np.any(np.ma.getmaskarray(a) & ok) or np.any(np.abs(np.ma.getdata(a) - b)[ok] > 2e-5 + 1e-6 / np.maximum(e[2], 1e-3)[ok]):
                self.fail('coordinates', 'the %s coordinates of the pixels are not as expected' % nm)
        uu, vv = self.call('get_uv', im.get_uv)
        k = np.arange(md.n)
        k = np.where(k < md.n // 2, k, k - md.n) * float(self.scn['cfg']['imgs'][m]['res'])
        if not np.allclose(uu, np.broadcast_to(k[:, None], uu.shape)) or not np.allclose(vv, np.broadcast_to(k[None, :], vv.shape)):
            self.fail('coordinates', 'get_uv gives other coordinates than expected')

    def op_source(self, n, res, wproj, seed):
        """A source shows up in the pixel which has its coordinates."""
        r = np.random.RandomState(seed)
        im = self.make({'dim': n, 'res': res, 'w': wproj, 'wres': .1, 'mf': 0})
        L, M = im.get_LM()
        L, M = np.ma.getdata(L).astype(float), np.ma.getdata(M).astype(float)
        k = np.argwhere((np.abs(L) <= .25 / res) & (np.abs(M) <= .25 / res) & (L ** 2 + M ** 2 < .8))
        at = tuple(k[r.randint(len(k))])
        l, m = L[at], M[at]
        N = 150
        u, v = [np.round(r.uniform(-.4, .4, N) * n) * res for _ in 'uv']
        w = r.uniform(-3, 3, N) if wproj else np.zeros(N)
        d = np.exp(2j * np.pi * (u * l + v * m + w * (np.sqrt(1 - l * l - m * m) - 1)))
        uvw, d = im.append_hermitian((u, v, w), d)
        im.put(tuple(uvw), d)
        i = im.image()
        p = np.unravel_index(np.argmax(i), i.shape)
        if p != at:
            self.fail('source', 'a source at pixel %r shows up at %r' % (tuple(map(int, at)), tuple(map(int, p))))
        whole = np.fft.ifft2(im.uv)
        if not wproj and np.max(np.abs(whole.imag)) > 1e-4 * np.max(np.abs(whole.real)):
            self.fail('hermitian', 'the image of visibilities and their conjugates is not real')

    def op_grid(self, shape, bd, how):
        b = Batch(dict(bd, form='c'), {'dim': 40, 'res': 1.}, 0)
        inds = [np.ascontiguousarray(x, np.float32) for x in (b.u, b.v)[:len(shape)]]
        dat = b.d.astype(np.complex64)
        r = np.random.RandomState(bd['seed'])
        buf = (r.standard_normal(shape) + 1j * r.standard_normal(shape)).astype(np.complex64)
        start = buf.copy()
        refused = False
        if how == 'short' and len(dat):
            dat, refused = dat[:-1], True
        elif how == 'strided':
            inds = [lay(x, 'strided') for x in inds]
            dat = lay(dat, 'reversed')
        elif how == 'f':
            buf = np.asfortranarray(buf)
        elif how == 'buf':
            big = np.zeros([2 * n for n in shape], np.complex64)
            sl = tuple(slice(None, None, 2) for _ in shape)
            big[sl] = buf
            buf = big[sl]
        exp, mag = spread(tuple(shape), inds, dat) if not refused else (None, None)

        def either(fn):
            try:
                fn()
                return False
            except ValueError:
                return True
        fn = self.dsp.grid1D_c if len(shape) == 1 else self.dsp.grid2D_c
        no = either(lambda: fn(buf, *(inds + [dat])))
        if no:
            if how == 'c':
                self.fail('refusal', 'the gridding refused good arrays')
            if not np.array_equal(buf, start):
                self.fail('refusal', 'the gridding which refused changed the grid')
        else:
            if refused:
                self.fail('refusal', 'the gridding took %d indices and %d data' % (len(inds[0]), len(dat)))
            self.near(buf, start + exp, mag + np.abs(start), 'the grid %r' % (shape,))
        if len(shape) == 2 and not refused:
            out = np.zeros(len(dat), np.complex64)
            src = buf.copy(order='K')
            if how == 'buf':
                src = buf
            keep = np.array(src)
            if either(lambda: self.dsp.degrid2D_c(src, inds[0], inds[1], out)):
                if how == 'c':
                    self.fail('refusal', 'the degridding refused good arrays')
            else:
                self.near(out, lookup(keep.astype(complex), *inds), np.max(np.abs(keep)) + np.zeros(len(dat)), 'what is read from the grid %r' % (shape,), 1e-5)
            if not np.array_equal(src, keep):
                self.fail('argument', 'degridding changed the grid')
        return 'refused' if no else 'ok'

    # -- files
    def op_fits(self, m, d, fault):
        im, md = self.ims[m], self.mds[m]
        self.armed = None
        r = np.random.RandomState(d['seed'])
        what = d['what']
        axes = ['ra--sin', 'dec--sin']
        if what in ('image', 'bm'):
            data = (im.image() if what == 'image' else im.bm_image(term=0))
        elif what == 'flat':
            data = r.standard_normal((5, 7)) * 100
        else:
            axes.append('freq')
            data = r.standard_normal((3, 4, 5) if what == 'cube' else (8, 20, 20)) * 100
        if what == 'cube' and d.get('stokes'):
            data = data[..., None] * np.arange(1, 3)
            axes.append('stokes')
        if d.get('glon'):
            axes[:2] = ['glon-sin', 'glat-sin']
        data = data.astype(d['dt'])
        if d['form'] == 'f':
            data = np.asfortranarray(data)
        elif d['form'] == 'strided':
            big = np.zeros([2 * n for n in data.shape], data.dtype)
            sl = tuple(slice(None, None, 2) for _ in data.shape)
            big[sl] = data
            data = big[sl]
        kw = dict(d['kw'])
        self.nfile += 1
        f = os.path.join(self.dir, 'i%d.fits' % self.nfile)
        args = [('data', data)]

        def write(**k):
            self.img.to_fits(f, data, axes=tuple(axes), **dict(kw, **k))

        def same(x, exp=None):
            exp = data if exp is None else exp
            return x.shape == exp.shape and np.array_equal(x, exp)
        if fault == 'full':
            n = self.size(write, f)
            lim = int(d['at'] * n)
            try:
                self.limit(lim)
                try:
                    write()
                    done = True
                except (OSError, IOError):
                    done = False
                finally:
                    self.limit(None)
            except Exception as e:
                self.fail('full', 'to_fits on a full disk raised %s: %s' % (type(e).__name__, e))
            if done:
                self.fail('swallowed', 'to_fits succeeded although only %d of %d bytes fit on the disk' % (lim, n))
            self.st('fault.full')
            self.fired = True
            if os.path.exists(f):
                os.unlink(f)
        try:
            write()
            if fault in ('again', 'exists'):
                first = open(f, 'rb').read()
                keep = data
                if fault == 'again':
                    write(clobber=True)
                else:
                    try:
                        self.img.to_fits(f, np.zeros_like(data), axes=tuple(axes), **kw)
                    except (OSError, IOError):
                        if open(f, 'rb').read() != first:
                            self.fail('clobber', 'to_fits which refused to overwrite a file changed it')
                    else:
                        self.fail('clobber', 'to_fits overwrote a file without being told to')
            if fault == 'torn':
                whole = open(f, 'rb').read()
                with open(f, 'wb') as h:
                    h.write(whole[:int(d['at'] * (len(whole) - 2880))])
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        got = self.img.from_fits(f)[0]
                        if not same(got):
                            self.fail('torn', 'from_fits of a file cut short gives data which was not written')
                    except Violation:
                        raise
                    except Exception:
                        pass
                with open(f, 'wb') as h:
                    h.write(whole)
                self.st('fault.torn')
                self.fired = True
            got, k = self.img.from_fits(f)
        except Violation:
            raise
        except Exception as e:
            self.fail('raised', 'FITS i/o raised %s: %s' % (type(e).__name__, str(e)[:200]))
        if not same(got):
            self.fail('fits', 'from_fits gives other data than to_fits was given')
        if k.get('axes') != axes:
            self.fail('fits', 'from_fits gives the axes %r, expected %r' % (k.get('axes'), axes))
        off = (('freq', 'd_freq') if 'freq' not in axes else ()) + (('ra', 'd_ra', 'dec', 'd_dec') if d.get('glon') else ())
        exp = {nm: -abs(v) if nm == 'd_ra' else v for nm, v in kw.items() if nm != 'history' and nm not in off}
        for nm, v in exp.items():
            if k.get(nm) != v:
                self.fail('fits', 'from_fits gives %s as %r, it was written as %r' % (nm, k.get(nm), v))
        if d.get('re'):
            self.refits(f, data, axes, off, exp, d['re'])
        os.unlink(f)

    def refits(self, f, data, axes, off, exp, d):
        """The header of a file with other data: what is given replaces what it says, the rest stays."""
        g = f if d['over'] else f + '.copy'
        r = np.random.RandomState(d['seed'])
        new = (r.standard_normal(data.shape) * 100).astype(data.dtype)
        keep = new.copy()
        try:
            nul = open(os.devnull, 'w')
            with warnings.catch_warnings(), contextlib.redirect_stdout(nul):
                warnings.simplefilter('ignore')
                self.img.from_fits_to_fits(f, g, new, dict(d['kw']), **({} if d['history'] is None else {'history': d['history']}))
                got, k = self.img.from_fits(g)
                ph = self.img.pyfits.open(g)[0]
        except Exception as e:
            self.fail('raised', 'from_fits_to_fits raised %s: %s' % (type(e).__name__, str(e)[:200]))
        self.st('refits')
        if not np.array_equal(new, keep):
            self.fail('argument', 'from_fits_to_fits changed the data it was given')
        if got.shape != new.shape or not np.array_equal(got, new):
            self.fail('fits', 'from_fits_to_fits wrote other data than it was given')
        if k.get('axes') != axes:
            self.fail('fits', 'from_fits_to_fits: the axes are %r, expected %r' % (k.get('axes'), axes))
        for nm, v in dict(exp, **{nm: v for nm, v in d['kw'].items() if nm not in off}).items():
            if k.get(nm) != v:
                self.fail('fits', 'from_fits_to_fits: %s is %r, expected %r' % (nm, k.get(nm), v))
        h = ' '.join(str(x) for x in ph.header.get('HISTORY', []))
        for w in (d['history'] or 'from_fits_to_fits:').split():
            if w not in h:
                self.fail('fits', 'from_fits_to_fits: the history is %r, expected %r in it' % (h, w))
        for i, ax in enumerate(axes):
            try:
                n = self.img.find_axis(ph, ax[:4].strip('-'))
            except Exception as e:
                n = e
            if n != i + 1:
                self.fail('fits', 'find_axis gives %r for %s, which is axis %d' % (n, ax, i + 1))
        if g != f:
            os.unlink(g)

    def size(self, write, f):
        try:
            write()
        except Exception as e:
            self.fail('raised', 'to_fits raised %s: %s' % (type(e).__name__, str(e)[:200]))
        n = os.path.getsize(f)
        os.unlink(f)
        return n

    def limit(self, n):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY if n is None else n, resource.RLIM_INFINITY))


def run(aipy, scn, log=False):
    r = Run(scn, aipy)
    try:
        with np.errstate(all='ignore'):
            return r.run()
    except Violation as v:
        return r.result(violation=v.cls, msg=v.msg, op=r.i)
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
