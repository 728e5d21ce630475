"""C18: deconvolution sessions.

One run is a session over a few images and kernels which clean, lsq, maxent, maxent_findvar and anneal share:
images are deconvolved, resumed from earlier models, annealed with a seeded random generator, in seeded order;
numpy calls and the allocations of the C code are made to fail and the call is made again.  Each result is checked
for what holds of any result, against the same call made before, and clean against a direct rendering of the
algorithm it documents."""
from __future__ import print_function
import glob, hashlib, json, os, random, resource
import numpy as np
from aasim import Ctl, Fault, NP
from uvsim import Violation

RTYPES = ('f4', 'f8', 'f8', 'f16')
CTYPES = ('c8', 'c16', 'c16', 'c32')
CPU = 12


# ------------------------------------------------------------------------------ workload
def rf(rng, a, b):
    return round(rng.uniform(a, b), 6)


def scenario(pid, seed, dry):
    rng = random.Random(seed * 6151 + 7)
    cfg = {'probs': [gen_prob(rng) for _ in range(rng.choice([1, 2, 3]))]}
    ops, n, faults = [], rng.choice([4, 8, 14]), rng.random() < .5
    while len(ops) < n:
        o = gen_op(rng, cfg)
        if faults and rng.random() < .35:
            ops.append(['fault', rng.choice(['numpy', 'malloc', 'numpy']), rng.choice([1, 1, 2, 3, 5, 8]), o])
        else:
            ops.append(o)
    return {'seed': seed, 'profile': pid, 'cfg': cfg, 'ops': ops}


def gen_prob(rng):
    nd = rng.choice([1, 2, 2])
    cplx = rng.random() < .4
    if nd == 1:
        shape = [rng.choice([2, 3, 8, 15, 16, 31, 64])]
    else:
        shape = [rng.choice([1, 2, 3, 5, 8, 13]), rng.choice([1, 2, 4, 7, 8, 12])]
    return {'shape': shape, 'dtype': rng.choice(CTYPES if cplx else RTYPES), 'ker': rng.choice(['delta', 'narrow', 'wide', 'noisy', 'wild']), 'amp': rf(rng, .3, 3),
            'im': rng.choice(['points', 'points', 'noise', 'zero', 'positive', 'negative', 'exact']), 'area': rng.choice([None, None, 'some', 'few', 'bool']),
            'form': rng.choice(['c', 'c', 'f', 'strided']), 'seed': rng.randint(0, 10 ** 6)}


def gen_op(rng, cfg):
    p = rng.randrange(len(cfg['probs']))
    q = cfg['probs'][p]
    real2d = len(q['shape']) == 2 and q['dtype'][0] == 'f'
    k = rng.random()
    if k < .55 or not real2d:
        kw = {'gain': rng.choice([.1, .1, .3, .7, 1., 1.9, rf(rng, .01, 2)]), 'maxiter': rng.choice([1, 2, 3, 10, 50, 200]), 'tol': rng.choice([1e-3, 1e-3, 1e-2, 0., 1e-6]),
              'stop_if_div': rng.random() < .6, 'pos_def': rng.random() < .3}
        if not kw['stop_if_div'] and not kw['tol']:        # goes on until nothing is left of the residual
            kw['gain'] = max(kw['gain'], .3)
            if q['dtype'] in ('f16', 'c32') or q['ker'] not in ('delta', 'narrow'):
                kw['tol'] = 1e-6
        return ['clean', p, kw, rng.choice(['none', 'none', 'last', 'given'])]
    if k < .68:
        return ['lsq', p, {'gain': rng.choice([.1, .05, .5]), 'maxiter': rng.choice([1, 2, 10, 50]), 'tol': rng.choice([1e-3, 1e-6]), 'bounds': rng.choice([None, [0., 5.], [-1., 1.], [1e-3, 1e3]])}, rng.choice(['none', 'last', 'given'])]
    if k < .78:
        return ['maxent', p, {'gain': rng.choice([.1, .05, .3]), 'maxiter': rng.choice([1, 2, 10, 50]), 'tol': rng.choice([1e-3, 1e-1]), 'var0': rf(rng, .001, 1), 'bounds': rng.choice([None, [1e-3, 1e3]])}, rng.choice(['none', 'given+'])]
    if k < .82:
        return ['findvar', p, {'maxiter': rng.choice([20, 60]), 'var': rng.choice([None, rf(rng, .01, 1)]), 'tol': .5, 'maxiterok': True}, 'none']
    if k < .94:
        return ['anneal', p, {'maxiter': rng.choice([1, 5, 30]), 'bounds': rng.choice([None, [0., 5.], [-1., 1.]]), 'cooling': rng.choice([None, None, .1, .5])}, rng.choice(['none', 'last', 'given']), rng.randint(0, 10 ** 6)]
    return ['recenter', p, [rng.randint(-20, 20), rng.randint(-20, 20)]]


# ------------------------------------------------------------------------------ problems
def conv(a, b):
    f, g = (np.fft.fft, np.fft.ifft) if a.ndim == 1 else (np.fft.fft2, np.fft.ifft2)
    return g(f(np.asarray(a, complex)) * f(np.asarray(b, complex)))


class Prob(object):
    def __init__(self, d):
        r = np.random.RandomState(d['seed'])
        sh = tuple(d['shape'])
        cplx = d['dtype'][0] == 'c'
        rnd = (lambda: r.standard_normal(sh) + 1j * r.standard_normal(sh)) if cplx else (lambda: r.standard_normal(sh))
        ker = np.zeros(sh, complex if cplx else float)
        idx = np.indices(sh)
        d2 = sum(np.minimum(i, n - i) ** 2. for i, n in zip(idx, sh))
        if d['ker'] == 'narrow':
            ker = ker + .3 * np.exp(-d2)
        elif d['ker'] == 'wide':
            ker = ker + .8 * np.exp(-d2 / 8.)
        elif d['ker'] == 'noisy':
            ker = ker + .2 * rnd()
        elif d['ker'] == 'wild':
            ker = ker + .9 * rnd()
        z = (0,) * len(sh)
        ker[z] = 1.
        if cplx:
            ker[z] = np.exp(1j * r.uniform(0, 6.28))
        ker = np.where(np.abs(ker) > 1, ker / np.abs(ker) * .97, ker)      # the peak is at the origin
        ker[z] = ker[z] / np.abs(ker[z])
        ker = ker * d['amp']
        pts = np.zeros(sh, ker.dtype)
        for _ in range(r.randint(1, 5)):
            pts[tuple(r.randint(0, n) for n in sh)] = 3 * r.standard_normal() * (np.exp(1j * r.uniform(0, 6)) if cplx else 1)
        k = d['im']
        if k == 'points':
            im = conv(pts, ker) + .01 * rnd()
        elif k == 'exact':
            im = conv(pts, ker)
        elif k == 'noise':
            im = rnd()
        elif k == 'zero':
            im = np.zeros(sh)
        else:
            im = conv(np.abs(pts), np.abs(ker)) + .1 * np.abs(rnd())
            if k == 'negative':
                im = -im
        if not cplx:
            im, ker = np.real(im), np.real(ker)
        self.d, self.sh, self.cplx = d, sh, cplx
        self.im, self.ker = self.lay(im, d), self.lay(ker, d)
        self.given = self.lay(np.real(.2 * r.standard_normal(sh)) if not cplx else .2 * rnd(), d)
        self.positive = np.abs(r.standard_normal(sh)) + .1
        self.area = None
        if d['area']:
            a = (r.uniform(size=sh) < {'some': .7, 'few': .2, 'bool': .5}[d['area']]).astype(np.int_)
            a[z] = 1
            self.area = a.astype(bool) if d['area'] == 'bool' else a
        self.last = None

    def lay(self, a, d):
        a = np.ascontiguousarray(a, d['dtype'])
        if d['form'] == 'f':
            return np.asfortranarray(a)
        if d['form'] == 'strided':
            b = np.zeros([2 * n for n in a.shape], a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            return b[tuple(slice(None, None, 2) for _ in a.shape)]
        return a

    def mdl(self, how):
        if how == 'given':
            return self.given
        if how == 'given+':
            return self.positive
        return self.last if how == 'last' else None

    def args(self):
        return [('im', self.im), ('ker', self.ker), ('mdl', self.given), ('mdl', self.positive), ('area', self.area), ('mdl', self.last)]


def ref_clean(im, ker, mdl0, area, gain, maxiter, tol, stop, pos_def, cplx):
    """The algorithm clean documents, or None where it is a toss-up."""
    mdl = np.zeros(im.shape, im.dtype) if mdl0 is None else np.array(mdl0)
    res = np.array(im) if mdl0 is None else im - (conv(mdl0, ker) if cplx else conv(mdl0, ker).real)
    ok = np.ones(im.shape, bool) if area is None else area.astype(np.int_) != 0
    peak = ker.flat[np.argmax(np.where(ok, np.abs(ker), -1))]
    score = first = np.sqrt(np.mean(np.abs(res) ** 2))
    best = None
    if maxiter < 1 or first == 0:
        return None
    i, n = 1, score
    for _ in range(1500):
        if i >= maxiter:
            break
        cand = ok & (res > 0) if pos_def and not cplx else ok
        if not cand.any():
            return None
        mag = np.where(cand, np.abs(res), -1.)
        m = np.sort(mag.ravel())
        big = max(first, score)
        if len(m) > 1 and m[-1] - m[-2] < 1e-7 * big:
            return None
        at = np.unravel_index(np.argmax(mag), im.shape)
        step = gain * res[at] / peak
        nres = res - step * np.roll(ker, at, axis=tuple(range(im.ndim)))
        n = np.sqrt(np.mean(np.abs(nres) ** 2))
        if not n < 1e100 or abs(n - score) < 1e-9 * big or abs(abs(n - score) / first - tol) < 1e-9:
            return None
        if best is not None and (abs(n - best[0]) < 1e-9 * big or abs(score - best[0]) < 1e-9 * big and n > score):
            return None
        nmdl = mdl.copy()
        nmdl[at] += step
        if n > score:
            if stop:
                return mdl, i, 'divergence'
            if best is None or score < best[0]:
                best = score, mdl
                i = 0
        elif (score - n) / first < tol:
            return nmdl, i, 'tol'
        elif not stop and (best is None or n < best[0]):
            i = 0
        mdl, res, score = nmdl, nres, n
        i += 1
    else:
        return None
    return (best[1] if best is not None and not n <= best[0] else mdl), maxiter, 'maxiter'


def ref_lsq(im, ker, mdl0, area, gain, tol, maxiter, lower, upper):
    """Each step moves a pixel by a fraction of its residual, which is what is left of the gradient; or None where it is
    a toss-up when to stop."""
    x = np.zeros(im.shape) if mdl0 is None else np.array(mdl0, float)
    q = np.sqrt((np.abs(np.asarray(ker, float)) ** 2).sum())
    ok = np.ones(im.shape) if area is None else (area.astype(np.int_) != 0)
    last = 0.
    for i in range(maxiter):
        d = (np.asarray(im, float) - conv(x, ker).real) * ok
        score = np.mean(d ** 2)
        if not 1e-200 < score < 1e200 or abs(abs(1 - last / score) - tol) < 1e-7:
            return None
        if abs(1 - last / score) < tol:
            return x, i + 1, 'tol'
        last = score
        x = np.clip(x + gain * d / (2 * q), lower, upper)
    return x, maxiter, 'maxiter'


# ------------------------------------------------------------------------------ the run
class Run(object):
    def __init__(self, scn, aipy):
        self.scn, self.dec = scn, aipy.deconv
        self.ctl = Ctl()
        self.dec.np = NP(self.ctl)
        self.real_random = np.random
        import ctypes, disk
        so = glob.glob(os.path.dirname(aipy.__file__) + '/_deconv*.so')[0]
        self.L = ctypes.CDLL(so)
        self.L.sim_plan_add.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        self.L.sim_plan_fired.restype = self.L.sim_heap_live.restype = ctypes.c_long
        self.mid, self.err = disk.CID['malloc'], disk.ERR
        self.probs = [Prob(d) for d in scn['cfg']['probs']]
        self.stats, self.sig, self.log, self.i = {}, [], [], 0
        self.before = {}
        resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 2))

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def result(self, **kw):
        h = hashlib.sha1(json.dumps(self.log).encode()).hexdigest()
        return dict({'stats': self.stats, 'sig': self.sig, 'log': h, 'disk': ''}, **kw)

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def run(self):
        for self.i, o in enumerate(self.scn['ops']):
            self.step(o)
        return self.result()

    def step(self, o):
        how = None
        if o[0] == 'fault':
            how, k, o = o[1:]
        p = self.probs[o[1]]
        call = getattr(self, 'op_' + o[0])(p, *o[2:])
        if call is None:
            self.sig.append(o[0] + ':skip')
            return
        act, check = call
        copies = [(n, a, a.tobytes()) for n, a in p.args() if a is not None]

        def same():
            for n, a, b in copies:
                if a.tobytes() != b:
                    self.fail('argument', 'op %d: %s changed its argument %s' % (self.i, o[0], n))
        fired = False
        live = self.L.sim_heap_live()
        if how:
            if how == 'numpy':
                self.ctl.arm(k)
            else:
                self.L.sim_malloc(1)
                self.L.sim_plan_add(self.mid, (k - 1) % 2, self.err, 12, 0, 0)
            try:
                act()
                done = True
            except MemoryError:
                done = False
            except Exception as e:
                done = True
                if how == 'malloc' and self.L.sim_plan_fired(0):
                    self.fail('fault', 'op %d: %s raised %s: %s when an allocation failed' % (self.i, o[0], type(e).__name__, e))
            if how == 'numpy':
                fired = self.ctl.disarm()
            else:
                fired = bool(self.L.sim_plan_fired(0))
                self.L.sim_plan_clear()
                self.L.sim_malloc(0)
            if fired:
                self.st('fault.' + how)
                if done:
                    self.fail('swallowed', 'op %d: %s succeeded although an allocation failed in it' % (self.i, o[0]))
            same()
        try:
            r = act()
        except Exception as e:
            self.fail('raised', 'op %d: %s raised %s: %s' % (self.i, o[0], type(e).__name__, str(e)[:200]))
        same()
        if self.L.sim_heap_live() != live:
            self.fail('memory-leak', 'op %d: %s leaves %d blocks of memory behind' % (self.i, o[0], self.L.sim_heap_live() - live))
        check(r)
        key = json.dumps(o) + repr(None if p.last is None or 'last' not in o else p.last.tobytes())
        now = self.digest(r)
        if self.before.setdefault(key, now) != now:
            self.fail('repeat', 'op %d: %s gives another answer than when it was first called' % (self.i, o[0]))
        if o[0] != 'recenter' and r[0].shape == p.sh and np.all(np.isfinite(r[0])):
            # the model of one is where the next may start
            p.last = p.lay(r[0], p.d)
        self.st('op.' + o[0])
        self.sig.append('%s:%s%s' % (o[0], r[1]['term'] if isinstance(r, tuple) else 'ok', '!' if fired else ''))
        self.log.append([o[0], now, fired])

    def digest(self, r):
        if not isinstance(r, tuple):
            return hashlib.sha1(r.tobytes()).hexdigest()
        # long doubles have padding
        f = lambda a: np.asarray(a, complex).tobytes()
        return hashlib.sha1(f(r[0]) + f(r[1]['res']) + repr([(k, str(v)) for k, v in sorted(r[1].items()) if k != 'res']).encode()).hexdigest()

    def eps(self, p):
        return {'f4': 1e-4, 'c8': 1e-4}.get(p.d['dtype'], 1e-9)

    def scale(self, p, mdl, m0):
        return float(np.max(np.abs(p.im)) + max(np.max(np.abs(mdl)), 0 if m0 is None else np.max(np.abs(m0))) * np.sum(np.abs(p.ker))) + 1e-290

    def common(self, p, r, score, m0=None):
        mdl, info = r
        if mdl.shape != p.sh or info['res'].shape != p.sh:
            self.fail('shape', 'op %d: the model has the shape %r, the image %r' % (self.i, mdl.shape, p.sh))
        if not np.all(np.isfinite(mdl)):
            return False
        got = info['res']
        exp = p.im - conv(mdl, p.ker)
        if not p.cplx:
            exp = exp.real
        scale = self.scale(p, mdl, m0)
        if scale and not np.max(np.abs(np.asarray(got, complex) - exp)) <= self.eps(p) * scale:
            self.fail('residual', 'op %d: the residual is not image - model * kernel (off by %g of %g)' % (self.i, np.max(np.abs(got - exp)), scale))
        if score is not None:
            s = score(got)
            if not abs(info['score'] - s) <= self.eps(p) * max(scale, scale ** 2):
                self.fail('score', 'op %d: the score is %r, of the residual it is %r' % (self.i, info['score'], s))
        return True

    # -- ops
    def op_clean(self, p, kw, how):
        m0 = p.mdl(how)

        def act():
            return self.dec.clean(p.im, p.ker, mdl=m0, area=p.area, **kw)

        def check(r):
            mdl, info = r
            rms = lambda a: float(np.sqrt(np.mean(np.abs(np.asarray(a, complex)) ** 2)))
            if not np.all(np.isfinite(mdl)):
                self.fail('finite', 'op %d: clean gives a model that is not finite' % self.i)
            self.common(p, r, rms, m0)
            if mdl is m0 or mdl.dtype != p.im.dtype:
                self.fail('model', 'op %d: the model returned is %s' % (self.i, 'the argument' if mdl is m0 else mdl.dtype))
            start = p.im if m0 is None else p.im - (conv(m0, p.ker) if p.cplx else conv(m0, p.ker).real)
            d = mdl - (0 if m0 is None else m0)
            mx = max(np.max(np.abs(d)), np.max(np.abs(mdl)), np.max(np.abs(p.im)) / np.max(np.abs(p.ker)), 1e-300)
            if p.area is not None and np.max(np.abs(d[p.area == 0]), initial=0) > 0:
                self.fail('area', 'op %d: clean changed the model outside of the area' % self.i)
            if kw['pos_def'] and not p.cplx and np.min(d.real) < -self.eps(p) * mx:
                self.fail('positive', 'op %d: clean took away from the model, which was to be positive' % self.i)
            if info['term'] not in ('tol', 'maxiter', 'divergence') or not 0 <= info['iter'] <= kw['maxiter'] or (info['term'] == 'maxiter') != (info['iter'] == kw['maxiter']) and info['term'] != 'divergence' \
                    or info['success'] != (info['term'] == 'tol' and info['iter'] > 0) or info['tol'] != kw['tol']:
                self.fail('info', 'op %d: clean reports %r' % (self.i, {k: v for k, v in info.items() if k != 'res'}))
            s0 = rms(start)
            if kw['stop_if_div']:
                if info['score'] > s0 + self.eps(p) * self.scale(p, mdl, m0):
                    self.fail('worse', 'op %d: clean which stops when it diverges went from a score of %r to %r' % (self.i, s0, info['score']))
            elif info['term'] == 'divergence':
                self.fail('info', 'op %d: clean stopped for divergence, which it was not to' % self.i)
            if p.d['dtype'] in ('f8', 'c16', 'f16', 'c32') and s0 > 1e-5 * self.scale(p, mdl, m0):
                ref = ref_clean(p.im, p.ker, m0, p.area, kw['gain'], kw['maxiter'], kw['tol'], kw['stop_if_div'], kw['pos_def'], p.cplx)
                if ref is not None:
                    self.st('clean.compared' if kw['stop_if_div'] else 'clean.compared.on')
                    if (info['iter'], info['term']) != ref[1:]:
                        self.fail('steps', 'op %d: clean stopped at %r, expected %r' % (self.i, (info['iter'], info['term']), ref[1:]))
                    if np.max(np.abs(mdl - ref[0])) > 1e-7 * mx:
                        self.fail('clean', 'op %d: the model differs by %g of %g from that of the documented algorithm' % (self.i, np.max(np.abs(mdl - ref[0])), mx))
        return act, check

    def bounds(self, kw):
        kw = dict(kw)
        b = kw.pop('bounds')
        if b:
            kw.update(lower=b[0], upper=b[1])
        return kw, (b or [self.dec.lo_clip_lev, np.inf])

    def inside(self, p, x, b, m0):
        if np.all(np.isfinite(x)) and m0 is not None and x is not m0 and not (np.all(x >= b[0]) and np.all(x <= b[1])) and not np.array_equal(x, m0):
            self.fail('bounds', 'op %d: the model goes from %g to %g, the bounds are %r' % (self.i, np.min(x), np.max(x), b))

    def op_lsq(self, p, kw, how):
        kw, b = self.bounds(kw)
        m0 = p.mdl(how)

        def check(r):
            self.common(p, r, None, m0)
            self.inside(p, r[0], b, np.zeros(p.sh) if m0 is None else m0)
            if r[1]['term'] not in ('tol', 'maxiter') or not 1 <= r[1]['iter'] <= kw['maxiter']:
                self.fail('info', 'op %d: lsq reports %r' % (self.i, {k: v for k, v in r[1].items() if k != 'res'}))
            if p.d['dtype'] in ('f8', 'f16') and np.max(np.abs(p.im)) > 0:
                ref = ref_lsq(p.im, p.ker, m0, p.area, kw['gain'], kw['tol'], kw['maxiter'], *b)
                if ref is not None and np.all(np.isfinite(r[0])):
                    self.st('lsq.compared')
                    mx = max(np.max(np.abs(ref[0])), np.max(np.abs(p.im)) / np.max(np.abs(p.ker)))
                    if (r[1]['iter'], r[1]['term']) != ref[1:] or np.max(np.abs(r[0] - ref[0])) > 1e-7 * mx:
                        self.fail('lsq', 'op %d: lsq stopped at %r, expected %r, with a model off by %g of %g' % (self.i, (r[1]['iter'], r[1]['term']), ref[1:], np.max(np.abs(r[0] - ref[0])), mx))
        return (lambda: self.dec.lsq(p.im, p.ker, mdl=m0, area=p.area, **kw)), check

    def op_maxent(self, p, kw, how):
        kw, b = self.bounds(kw)
        m0 = p.mdl(how)

        def check(r):
            self.common(p, r, None, m0)
            self.inside(p, r[0], b, np.ones(p.sh) * np.average(p.im) / p.ker.sum() if m0 is None else m0)
            if r[1]['term'] not in ('tol', 'maxiter', 'divergence') or r[1]['success'] != (r[1]['term'] != 'divergence'):
                self.fail('info', 'op %d: maxent reports %r' % (self.i, {k: v for k, v in r[1].items() if k != 'res'}))
        return (lambda: self.dec.maxent(p.im, p.ker, mdl=m0, **kw)), check

    def op_findvar(self, p, kw, how):
        m0 = None
        if p.d['im'] not in ('positive',) or p.d['ker'] not in ('delta', 'narrow'):
            return None                                    # it searches until it finds one

        def check(r):
            self.common(p, r, None, m0)
            if not r[1]['success']:
                self.fail('info', 'op %d: maxent_findvar gives back a failure' % self.i)

        def act():
            real, left = self.dec.maxent, [200]

            def maxent(*a, **k):
                left[0] -= 1
                if left[0] < 0:
                    raise OverflowError
                return real(*a, **k)
            self.dec.maxent = maxent
            try:
                return self.dec.maxent_findvar(p.im, p.ker, **kw)
            except OverflowError:                          # there is none, or not soon
                return np.zeros(p.sh), {'res': p.im, 'success': True, 'term': 'none'}
            finally:
                self.dec.maxent = real
        return act, check

    def op_anneal(self, p, kw, how, seed):
        kw, b = self.bounds(kw)
        m0 = p.mdl(how)
        c = kw.pop('cooling', None)
        if c:
            kw['cooling'] = lambda i, x: c * np.abs(x) / (i + 1)

        def act():
            np.random.seed(seed)
            return self.dec.anneal(p.im, p.ker, mdl=m0, **kw)

        def check(r):
            self.common(p, r, lambda a: float(np.mean(np.asarray(a, float) ** 2)), m0)
            start = p.im - (0 if m0 is None else conv(m0, p.ker).real)
            s0 = float(np.mean(np.asarray(start, float) ** 2))
            if r[1]['score'] > s0 + self.eps(p) * self.scale(p, r[0], m0) ** 2 + 1e-290:
                self.fail('worse', 'op %d: annealing went from a score of %r to %r' % (self.i, s0, r[1]['score']))
            self.inside(p, r[0], b, np.zeros(p.sh) if m0 is None else m0)
            if kw['maxiter'] > 1:
                # half the steps with the same random numbers cannot have come further
                np.random.seed(seed)
                h = self.dec.anneal(p.im, p.ker, mdl=m0, **dict(kw, maxiter=kw['maxiter'] // 2))
                if h[1]['score'] < r[1]['score'] * (1 - 1e-6):
                    self.fail('worse', 'op %d: annealing came to %r and went back to %r' % (self.i, h[1]['score'], r[1]['score']))
        return act, check

    def op_recenter(self, p, c):
        if len(p.sh) != 2:
            return None

        def check(r):
            exp = np.roll(p.im, (-c[0], -c[1]), axis=(0, 1))
            if r.shape != exp.shape or not np.array_equal(r, exp) or not np.array_equal(self.dec.recenter(r, (-c[0], -c[1])), p.im):
                self.fail('recenter', 'op %d: recenter by %r is not the image moved there and back' % (self.i, c))
        return (lambda: self.dec.recenter(p.im, tuple(c))), check


def run(aipy, scn, log=False):
    r = None
    try:
        with np.errstate(all='ignore'):
            r = Run(scn, aipy)
            return r.run()
    except Violation as v:
        return r.result(violation=v.cls, msg=v.msg, op=r.i)
