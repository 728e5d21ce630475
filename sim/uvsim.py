"""Lock-step execution of one scenario: the real MIRIAD UV engine on the simulated disk next to a
small reference model (lists and dicts).

A scenario is {"cfg": {...}, "ops": [[kind, ...], ...]}; ops name handles and data sets, so the
interleaving of everything that is open at a time is the order of the list.  An op whose
precondition does not hold in the model (its handle is not open, ...) is skipped, which keeps every
sub-list of a scenario a scenario: the minimiser only deletes ops.

Rules the model checks (see DESIGN.md for the statement per property):
  * an op the model expects to succeed raises only if an injected fault fired during it;
  * an op the model expects to be refused raises, and has no effect;
  * what is read equals what was written: preamble, data, mask, and variables as of that record;
  * after the last op every handle is closed and every data set is read again, fault-free.
"""
from __future__ import print_function
import collections, errno, gc, json, math, os, struct, sys
import numpy as np
import disk, mirfmt

R = '/simfs/'
UNSET = '<unset>'            # no value
MAXANT, MAXWIN = 2048, 16    # of MIRIAD
ANY = '<any>'                # the model does not constrain it
BUILTIN = ('corr', 'wcorr', 'coord', 'time', 'baseline', 'nchan', 'tscale')


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls, self.msg = cls, msg


# ------------------------------------------------------------------------------ values and data
def dec_val(typ, v, form='np'):
    """The Python object handed to aipy for a JSON value."""
    if typ == 'a':
        return v
    if isinstance(v, list) and not (typ == 'c' and len(v) == 2 and not isinstance(v[0], list)):
        dt = {'i': np.int64 if form == 'i64' else np.int32, 'j': np.int16 if form == 'i16' else np.int64,
              'r': np.float32, 'd': np.float64, 'c': np.complex128}[typ]
        a = np.array([complex(*x) for x in v] if typ == 'c' else v, dtype=dt)
        if form == 'strided':
            b = np.zeros(2 * len(a) + 1, dtype=dt)
            b[:-1:2] = a
            b[1::2] = 77
            a = b[:-1:2]
        elif form == 'rev':
            a = a[::-1].copy()[::-1]
        elif form == 'swap':
            a = a.astype(a.dtype.newbyteorder('S'))
        return a
    if typ == 'c':
        return complex(*v)
    if form == 'npscalar':
        return np.float64(v) if typ in 'rd' else v
    return v


def canon(typ, v):
    """A comparable form of a JSON value as it is expected back."""
    if typ == 'a':
        return v
    if typ == 'c':
        vs = v if isinstance(v[0], list) else [v]
        return [np.complex64(complex(*x)).tobytes() for x in vs]
    vs = v if isinstance(v, list) else [v]
    dt = {'i': np.int64, 'j': np.int64, 'r': np.float32, 'd': np.float64}[typ]
    return [np.array(x, dtype=dt).tobytes() for x in vs]


def canon_got(typ, v):
    """The same form of what aipy returned, or a description of why it has none."""
    if typ == 'a':
        return v if isinstance(v, str) else '<not text: %r>' % (v,)
    if isinstance(v, np.ndarray):
        if v.ndim != 1 or len(v) == 1:
            return '<an array of shape %r>' % (v.shape,)
        vs = list(v)
    else:
        vs = [v]
    try:
        if typ == 'c':
            return [np.complex64(x).tobytes() for x in vs]
        if typ in 'ij':
            if not all(isinstance(x, (int, np.integer)) for x in vs):
                return '<not integers: %r>' % (v,)
            return [np.array(x, dtype=np.int64).tobytes() for x in vs]
        return [np.array(x, dtype=np.float32 if typ == 'r' else np.float64).tobytes() for x in vs]
    except Exception as e:
        return '<%r: %s>' % (v, e)


_cache = {}


def gen_data(spec):
    kind, n, seed = spec[0], spec[1], spec[2]
    k = (kind, n, seed)
    if k in _cache:
        return _cache[k].copy()
    r = np.random.RandomState((seed * 7919 + n * 31 + len(kind)) % (2 ** 31))
    if kind == 'ramp':
        d = (np.arange(n) + seed % 1000) + 1j * (seed % 97 - np.arange(n))
    elif kind == 'zero':
        d = np.zeros(n, dtype=complex)
    elif kind == 'const':
        d = np.ones(n) * complex(seed % 13 - 6, seed % 7)
    elif kind == 'wide':
        d = r.randn(n) * 10.0 ** r.randint(-30, 30, n) + 1j * r.randn(n) * 10.0 ** r.randint(-30, 30, n)
    elif kind == 'nonfin':
        d = r.randn(n) + 1j * r.randn(n)
        for bad in (np.nan, np.inf, -np.inf, complex(1, np.nan), complex(np.inf, 2)):
            if n:
                d[r.randint(n)] = bad
    else:
        d = r.randn(n) * 10 + 1j * r.randn(n) * 10
    d = d.astype(np.complex64)
    _cache[k] = d
    return d.copy()


def gen_mask(spec, n):
    kind, seed = spec[0], spec[1]
    if kind == 'none':
        return np.zeros(n, dtype=bool)
    if kind == 'all':
        return np.ones(n, dtype=bool)
    r = np.random.RandomState((seed * 104729 + n * 17 + 5) % (2 ** 31))
    if kind == 'alt':
        return (np.arange(n) + seed) % 2 == 0
    if kind == 'runs':
        m = np.zeros(n, dtype=bool)
        for _ in range(3):
            a = r.randint(0, n) if n else 0
            m[a:a + r.randint(1, 80)] = True
        return m
    return r.rand(n) < 0.3


def canon_ij(i, j):
    return i, j


Rec = collections.namedtuple('Rec', 'uvw t ij data valid vars corr')


def same_rec(exp, got, raw):
    """'' or what differs between a model record and what read() returned."""
    if raw:
        (uvw, t, ij), data, flags = got
        mask = np.asarray(flags)
    else:
        (uvw, t, ij), data = got
        mask = np.ma.getmaskarray(data)
        data = np.ma.getdata(data)
    uvw = np.asarray(uvw)
    if uvw.shape != (3,) or uvw.tolist() != list(exp.uvw):
        return 'uvw %r, written as %r' % (uvw.tolist(), list(exp.uvw))
    if t != exp.t:
        return 'time %r, written as %r' % (t, exp.t)
    if tuple(ij) != tuple(exp.ij):
        return 'baseline %r, written as %r' % (tuple(ij), tuple(exp.ij))
    if data.shape != exp.data.shape:
        return '%d channels, %d were written' % (len(data), len(exp.data))
    if data.dtype != np.complex64:
        return 'data of type %s' % data.dtype
    bad = np.nonzero(mask.astype(bool) != ~exp.valid)[0]
    if len(bad):
        k = int(bad[0])
        return 'mask of channel %d is %s, written as %s (%d channels differ)' % (k, bool(mask[k]), not exp.valid[k], len(bad))
    a, b = data.view(np.float32), exp.data.view(np.float32)
    if exp.corr == 'r':
        ok = (a.view(np.uint32) == b.view(np.uint32)) | (np.isnan(a) & np.isnan(b))
    else:
        mx = float(np.max(np.abs(b))) if len(b) else 0.0
        ok = np.abs(a.astype(float) - b) <= 1.05 * mx / 32767 + 1e-37
    bad = np.nonzero(~ok)[0]
    if len(bad):
        k = int(bad[0])
        return 'channel %d is %r, written as %r (%d numbers differ)' % (k // 2, complex(data[k // 2]), complex(exp.data[k // 2]), len(bad))
    return ''


# ------------------------------------------------------------------------------ selection model
class Selection(object):
    """Reference semantics of UV.select()."""
    RANGE = ('visibility', 'time', 'uvnrange', 'increment', 'ra', 'dec', 'polarization', 'on', 'lst')

    def __init__(self):
        self.clauses = []
        self.dec, self.phs = 1, 0
        self.amp = self.win = None
        self.reset()

    def reset(self):
        self.intcnt, self.cur = -1, -1

    def add(self, name, a, b, inc):
        if name == 'decimate':
            self.dec, self.phs = int(a), int(b)
            return
        if name == 'clear':
            self.clauses = []
            return
        if not self.clauses:
            if name in ('and', 'or'):
                return                                   # there is nothing to combine with yet
            self.clauses.append({'and': True, 'ants': None, 'ops': []})
        if name in ('and', 'or'):
            self.clauses.append({'and': name == 'and', 'ants': None, 'ops': []})
            return
        c = self.clauses[-1]
        if name in ('antennae', 'auto'):
            if c['ants'] is None:
                c['ants'] = []
                c['default'] = bool(inc)              # what is not listed: discarded if these are included
            c['ants'].append(('auto',) if name == 'auto' else (max(a, b), min(a, b)))
            c.setdefault('disc', []).append(not inc)
        elif name == 'window':
            k = int(a + .5) - 1
            w = c.get('win') or (k, k)
            c['win'] = (min(w[0], k), max(w[1], k))
        elif name == 'amplitude':
            c['amp'] = (a, b, inc)
        else:
            c['ops'].append((name, a, b, not inc))

    def clause(self, c, rec, callno):
        if c['ants'] is not None:
            hi, lo = max(rec.ij), min(rec.ij)
            disc = c['default']
            for what, d in zip(c['ants'], c['disc']):
                if what[0] == 'auto':
                    hit = hi == lo
                elif what == (-1, -1):
                    hit = True
                elif what[1] == -1:
                    hit = what[0] in (hi, lo)
                else:
                    hit = what == (hi, lo)
                if hit:
                    disc = d
            if disc:
                return False
        win = c.get('win') or self.win
        by = collections.OrderedDict()
        for o in c['ops']:
            by.setdefault(o[0], []).append(o)
        for name, ops in by.items():
            disc = not ops[0][3]
            for _, a, b, d in ops:
                if self.match(name, a, b, rec, callno, win):
                    disc = d
            if disc:
                return False
        return True

    def match(self, name, a, b, rec, callno, win=None):
        if name == 'visibility':
            return a <= callno <= b
        if name == 'time':
            t0 = rec.t - int(rec.t - 0.5) - 0.5
            return a <= rec.t <= b or a <= t0 <= b
        r2 = rec.uvw[0] * rec.uvw[0] + rec.uvw[1] * rec.uvw[1]
        if name == 'uvnrange':
            return a * a <= r2 <= b * b
        if name == 'increment':
            return (callno - 1) % int(a + 0.5) == 0

        def num(k):
            t, v = rec.vars[k]
            v = v if isinstance(v, list) else [v]
            return [float(np.float32(x)) for x in v] if t == 'r' else v

        def off(k):
            return num(k)[0] if k in rec.vars else 0.0
        if name == 'polarization':
            return a == (num('pol')[0] if 'pol' in rec.vars else 1)
        if name == 'on':
            return a == num('on')[0]
        if name == 'lst':
            v = num('lst')[0]
            return (a <= v <= b) if a < b else (v >= a or v <= b)
        if name in ('dazim', 'delev'):
            return name in rec.vars and any(a <= x <= b for x in num(name))
        if name in ('dra', 'ddec'):
            return a <= off(name) <= b
        if name == 'dec':
            return a <= num('dec')[0] + off('ddec') <= b
        if name == 'ra':
            v = num('ra')[0]
            if 'dra' in rec.vars:
                v += off('dra') / math.cos(num('dec')[0] + off('ddec'))
            return a <= v <= b
        if name == 'pointing':
            v = num('axisrms')
            return a <= max(v[2 * i + k] for i in rec.ij for k in (0, 1)) <= b
        if name in ('uvrange', 'frequency'):
            ns, i = num('nschan'), win[0] if win else 0
            start = sum(ns[:i])
            i = 0
            while start >= ns[i]:
                start -= ns[i]
                i += 1
            f = num('sfreq')[i] + start * num('sdf')[i]
            return a <= f <= b if name == 'frequency' else a * a <= r2 * f * f <= b * b
        if name == 'ha':
            return a <= num('lst')[0] - num('obsra')[0] <= b
        if name == 'elevation':
            return a <= float(np.float32(num('antel')[0])) <= b
        if name == 'bin':
            return int(a + .5) <= num('bin')[0] <= int(b + .5)
        if name == 'shadow':
            d = b if b > 0 else num('antdiam')[0]
            lim = (d / 299792.458 * 1e6) ** 2
            ha, dec = num('lst')[0] - num('obsra')[0], num('obsdec')[0]
            p = num('antpos')
            n = len(p) // 3
            uvw = []
            for x, y, z in zip(p[:n], p[n:2 * n], p[2 * n:]):
                bxy = x * math.sin(ha) + y * math.cos(ha)
                byx = -x * math.cos(ha) + y * math.sin(ha)
                uvw.append((bxy, byx * math.sin(dec) + z * math.cos(dec), -byx * math.cos(dec) + z * math.sin(dec)))
            if rec.ij[0] == rec.ij[1]:
                near = rec.ij[:1]
            else:
                near = rec.ij
            for i0 in near:
                for i in range(n):
                    if i != i0:
                        u, v, w = (q - q0 for q, q0 in zip(uvw[i], uvw[i0]))
                        if u * u + v * v <= lim and w >= 0:
                            return True
            return False
        raise ValueError(name)

    def keep(self, rec, callno):
        prev = True
        self.amp = self.win = None
        for c in self.clauses:
            if (not prev and c['and']) or (prev and not c['and']):
                continue
            prev = self.clause(c, rec, callno)
            if prev:
                self.amp = c.get('amp') or self.amp
                self.win = c.get('win') or self.win
        return prev

    def view(self, rec):
        """What is read of a record that is selected: windows leave channels out, amplitudes flag some."""
        if self.amp is not None:
            lo, hi, inc = self.amp
            x = rec.data.view(np.float32)
            with np.errstate(all='ignore'):
                a2 = x[::2] * x[::2] + x[1::2] * x[1::2]
                hit = (np.float32(lo) * np.float32(lo) <= a2) & (a2 <= np.float32(hi) * np.float32(hi))
            rec = rec._replace(valid=rec.valid & (hit if inc else ~hit))
        if self.win is not None:
            ns = rec.vars['nschan'][1]
            ns = ns if isinstance(ns, list) else [ns]
            a, b = sum(ns[:self.win[0]]), sum(ns[:self.win[1] + 1])
            rec = rec._replace(valid=rec.valid[a:b], data=rec.data[a:b])
        return rec

    def decimate(self, t):
        """Whether a selected record at time t is returned."""
        if t != self.cur:
            self.intcnt += 1
            self.cur = t
        return (self.intcnt - self.phs) % self.dec == 0


# ------------------------------------------------------------------------------ model objects
class DS(object):
    """What is known of a data set on disk."""

    def __init__(self):
        self.recs = []           # certainly there, in order
        self.tail = []           # after these, any prefix of this may be there
        self.items = {}          # name -> list of allowed values (UNSET among them if it may be absent)
        self.vt = {}             # variables -> type
        self.vstate = {}         # current value of each at the end of recs
        self.sure = True         # False: the data set was never closed cleanly, opening it may fail
        self.corr = 'r'
        self.damaged = False
        self.nchan0 = None
        self.sizes = None


class W(object):
    def __init__(self, path, ds, status, corr):
        self.path, self.ds, self.status, self.corr = path, ds, status, corr
        self.vt = {'corr': corr}                 # the vartable of the Python object
        self.vars = {}                           # name -> (type, JSON value) or (type, ANY)
        self.newtypes = {}
        self.recs = []
        self.items = {}                          # name -> [values]
        self.poison = False
        self.src = None
        self.tracked = set()


class RH(object):
    def __init__(self, path, ds):
        self.path, self.ds = path, ds
        self.n0 = len(ds.recs)
        self.pos = 0                             # next record of the stream (scanned)
        self.last = None                         # record whose variables are current
        self.sel = Selection()
        self.tracked = set()
        self.lost = False                        # a read failed; position unknown until rewind
        self.items = dict(ds.items)
        self.high = 1                            # the first record is read when the data set is opened

    def unset(self, name):
        """Nothing this handle has been past gave the variable a value."""
        return self.high <= self.n0 and name in self.ds.vt and not any(name in q.vars for q in self.ds.recs[:max(self.high, self.pos)])


class Runner(object):
    def __init__(self, scn, aipy, trace=None):
        self.scn, self.aipy, self.miriad = scn, aipy, aipy.miriad
        self.cfg = scn.get('cfg', {})
        self.h = {}                              # name -> (uv object, model)
        self.ds = {}                             # path -> DS
        self.stats = collections.Counter()
        self.sig = []
        self.outcome = []
        self.unraisable = []
        self.open_paths = collections.Counter()
        self.skipped = 0
        self.faults_active = False
        self.jmarks = []                         # (op index, journal length after it)
        self.commits = []                        # (journal length, path, snapshot)
        self.inflight = []
        self.dry = [] if scn.get('dry') else None    # disk calls of each kind, per op

    # ---- plumbing
    def fired(self):
        n = disk.capacity_hits() + self.base_fired
        for k in range(len(self.plan)):
            n += disk.plan_fired(k)
        return n

    def fd_set(self):
        return disk.nfds()

    def run(self):
        disk.reset()
        disk.fd_base(self.cfg.get('fd_base', 1000))
        self.npfault = 1 if self.cfg.get('malloc') else 0
        disk.malloc(self.npfault)
        self.plan, self.kinds, self.base_fired, self.cap_seen = [], [], 0, 0
        sys.unraisablehook = lambda h: self.unraisable.append((h.exc_type.__name__, str(h.exc_value)))
        disk.mark()
        ops = self.scn['ops']
        self.crash = self.cfg.get('crash')
        self.snaps = []
        if self.cfg.get('slots'):
            self.nslots = self.slots()
            if self.nslots < 8:
                self.fail('slots', 'only %d data sets can be open at a time' % self.nslots)
        for i, op in enumerate(ops):
            self.i = i
            self.step(op)
        if self.dry is not None:
            return {'dry': self.dry}
        self.finish()
        return self.result()

    def result(self):
        return {'stats': dict(self.stats), 'sig': self.sig}

    def step(self, op):
        kind = op[0]
        fn = getattr(self, 'op_' + kind)
        disk.note('> ' + json.dumps(op)[:300])
        self.j0 = disk.njournal()
        f0 = self.fired()
        self._f0 = f0
        c0 = [disk.count(k) for k in range(len(disk.CLASSES))] if self.dry is not None else None
        self.stats['op.' + kind] += 1
        self.result_ = 'ok'
        try:
            r = fn(*op[1:])
        finally:
            self.jmarks.append(disk.njournal())
            if self.crash is not None:
                self.snaps.append(self.snap())
        if c0 is not None:
            self.dry.append([disk.count(k) - n for k, n in enumerate(c0)])
        f = self.fired() - f0
        if r == 'skip':
            self.stats['skip'] += 1
            self.stats['op.' + kind] -= 1
        else:
            self.sig.append('%s:%s%s' % (kind, self.result_, '!' if f else ''))
            disk.note('= %s%s' % (self.result_, ' fault' if f else ''))
        if f:
            self.stats['faulted.' + kind] += 1

    def call(self, fn, refuse=False, what=''):
        """Run a call on the real code.  Returns (ok, value)."""
        f0 = self.fired()
        disk.np(self.npfault)
        try:
            v = fn()
        except Violation:
            raise
        except Exception as e:
            f = self.fired() - f0
            err = '%s: %s' % (type(e).__name__, e)
            e.__traceback__ = None
            del e
            gc_needed = True
            self.result_ = 'err'
            if refuse or f:
                self.err = err
                return False, None
            raise Violation('spurious-error', '%s raised %s though nothing went wrong' % (what or self.cur(), err))
        finally:
            disk.np(0)
        if refuse:
            raise Violation('not-refused', '%s was accepted' % (what or self.cur()))
        return True, v

    def cur(self):
        return json.dumps(self.scn['ops'][self.i])[:200] if self.i is not None else 'the final check'

    def fail(self, cls, msg):
        raise Violation(cls, '%s [op %s: %s]' % (msg, self.i, self.cur()))

    # ---- opening and closing
    def op_open(self, h, path, status, corr='r'):
        if h in self.h:
            return 'skip'
        ds = self.ds.get(path)
        p = R + path
        if status == 'new':
            if ds is not None:
                return 'skip'
        else:
            if ds is None or not ds.sure or ds.damaged or ds.tail:
                return 'skip'
            ws = [m for _, m in self.h.values() if isinstance(m, W) and m.path == path]
            if ws:
                return 'skip'
            if status == 'append' and any(m.path == path for _, m in self.h.values()):
                return 'skip'
            if any(m.path == path and getattr(m, 'rhitems', None) for _, m in self.h.values()):
                return 'skip'                                # its header is being edited
            if not ds.recs:
                return 'skip'
        ok, uv = self.call(lambda: self.miriad.UV(p, status=status, corrmode=corr))
        if not ok:
            if status == 'new':
                # nothing of it may stand in the way of another attempt, unless it is on disk
                if disk.exists(p.encode()):
                    self.ds[path] = d = DS()
                    d.sure = False
                    d.items = collections.defaultdict(lambda: [UNSET, ANY])
            return
        if status == 'new':
            ds = self.ds[path] = DS()
            ds.sure = False
            ds.corr = corr
            m = W(path, ds, status, corr)
        elif status == 'append':
            m = W(path, ds, status, ds.corr)
            m.vt = {'corr': corr}
        else:
            m = RH(path, ds)
            m.last = ds.recs[0]
            if not getattr(ds, 'vtloose', False) and sorted(self.vt_of(uv)) != sorted(self.expect_vt(ds)):
                self.fail('vartable', 'variables are %r, expected %r' % (sorted(self.vt_of(uv)), sorted(self.expect_vt(ds))))
        self.h[h] = (uv, m)

    def vt_of(self, uv):
        return ['%s:%s' % (k, v) for k, v in uv.vartable.items() if k not in BUILTIN]

    def expect_vt(self, ds):
        return ['%s:%s' % (k, v) for k, v in ds.vt.items() if k not in BUILTIN]

    def op_close(self, h):
        if h not in self.h:
            return 'skip'
        uv, m = self.h.pop(h)
        if isinstance(m, W) and m.src is not None:
            pass
        f0 = self.fired()
        self.unraisable = []
        del uv
        gc.collect(0)
        f = self.fired() - f0
        err = self.unraisable
        self.unraisable = []
        if err:
            self.result_ = 'err'
            if not f:
                self.fail('spurious-error', 'closing raised %r though nothing went wrong' % (err,))
        if isinstance(m, RH):
            if err:
                for k, v in getattr(m, 'rhitems', {}).items():
                    m.ds.items[k] = m.ds.items[k] + v[0] + v[1:]
            return
        self.commit(m, not err)

    OBS = {1: 'autocorrelation', 2: 'crosscorrelation', 3: 'mixed-auto-cross'}

    def commit(self, m, ok):
        ds = m.ds
        # the engine keeps obstype itself, when records were written
        fl = {0}
        if m.status == 'append':
            fl = set()
            for v in ds.items.get('obstype', [UNSET]):
                fl.add({b: a for a, b in self.OBS.items()}.get(v, 0) if v != ANY else ANY)
        for q in m.recs + getattr(m, 'limbo', []):
            fl = {f if f == ANY else f | (1 if q.ij[0] == q.ij[1] else 2) for f in fl}
        if fl != {0}:
            own = [ANY if f == ANY else self.OBS[f] for f in sorted(fl, key=str) if f] + ([self.items_now(m, 'obstype')[0]] if 0 in fl else [])
            if getattr(m, 'limbo', None) or m.poison:
                own = [ANY, UNSET]
            m.items['obstype'] = own if ok else m.items.get('obstype', []) + own
        for k, t in m.newtypes.items():
            ds.vt[k] = t
        if ok:
            ds.recs = ds.recs + m.recs
            if getattr(m, 'limbo', None):
                ds.tail = list(m.limbo)              # a pipe failed at it: before or after it was written
            for k, v in m.items.items():
                ds.items[k] = v
            ds.sure = True
            for k, v in m.vars.items():
                ds.vstate[k] = v
            ds.unc_types = {}
        else:
            ds.tail = list(m.recs)
            for k, v in m.items.items():
                # an earlier, longer value has a file of its own, which may be there already
                ds.items[k] = list(ds.items.get(k, [UNSET])) + list(v) + m.__dict__.get('allitems', {}).get(k, [])
            if m.status == 'new':
                for k in ds.items:
                    ds.items[k] = ds.items[k] + [UNSET]
            ds.maybe = True
            ds.failed_vars = dict(m.vars)
        self.commits.append((disk.njournal(), m.path, ok))

    # ---- writing
    def w(self, h):
        x = self.h.get(h)
        return x if x and isinstance(x[1], W) and not x[1].poison else (None, None)

    def op_addvar(self, h, name, typ):
        uv, m = self.w(h)
        if uv is None:
            return 'skip'
        t0 = m.newtypes.get(name) or m.ds.vt.get(name) or (name in m.vt and m.vt[name])
        if t0 and t0 != typ:
            return 'skip'
        self.call(lambda: uv.add_var(name, typ))
        m.vt[name] = typ

    def op_setvar(self, h, name, val, form='np'):
        uv, m = self.w(h)
        if uv is None or name not in m.vt or name in BUILTIN and name != 'nchan':
            return 'skip'
        typ = m.vt[name]
        v = dec_val(typ, val, form)
        def f():
            uv[name] = v
        ok, _ = self.call(f)
        if ok:
            m.vars[name] = (typ, val)
            m.newtypes[name] = typ
            if name == 'nchan':
                m.nchan_set = val
        else:
            old = m.vars.get(name)
            m.vars[name] = (typ, ANY)        # old or new: re-set before it is relied on
            m.newtypes[name] = typ
            m.half = getattr(m, 'half', {})
            m.half[name] = [old, (typ, val)]
            if self.npfault:
                m.ds.vtloose = True              # it may have failed before the variable came to be

    def op_setitem(self, h, name, val):
        x = self.h.get(h)
        if not x:
            return 'skip'
        uv, m = x
        if isinstance(m, W) and m.poison:
            return 'skip'
        if isinstance(m, RH) and sum(1 for _, k in self.h.values() if k.path == m.path) != 1:
            return 'skip'
        if name in m.__dict__.get('vt', {}):
            return 'skip'
        v = self.item_arg(name, val)
        def f():
            uv[name] = v
        ok, _ = self.call(f)
        if isinstance(m, RH):
            cur = list(m.ds.items.get(name, [UNSET]))
            m.rhitems = getattr(m, 'rhitems', {})        # not on disk for sure before the handle is closed
            m.rhitems.setdefault(name, [cur])[0:1] = [m.rhitems.get(name, [cur])[0], val]
            m.ds.items[name] = [val] if ok else cur + self.part(name, val, cur)
            m.items = m.ds.items
        else:
            cur = m.items.get(name)
            if cur is None:
                cur = list(m.ds.items.get(name, [UNSET]))
            m.items[name] = [val] if ok else cur + self.part(name, val, cur)
            m.allitems = getattr(m, 'allitems', {})
            m.allitems.setdefault(name, []).append(val)

    def part(self, name, val, cur):
        """What a failed write of an item may leave: all of it or nothing."""
        return [val]

    def item_arg(self, name, val):
        t = self.miriad.itemtable[name]
        if t == 'c':
            return [complex(*x) for x in val]
        return val

    def items_now(self, m, name):
        if isinstance(m, W):
            v = m.items.get(name)
            if v is not None:
                return v
            return m.ds.items.get(name, [UNSET])
        return m.ds.items.get(name, [UNSET])

    def same_item(self, name, got, val):
        if val is ANY or val == ANY:
            return True
        t = self.miriad.itemtable[name]
        if isinstance(val, Prefix):
            return isinstance(got, str) and val.s.startswith(got)
        if t == 'a':
            return isinstance(got, str) and got == val
        if t == '?':
            return isinstance(got, list) and got == val
        want = [complex(*x) for x in val] if t == 'c' else val
        if len(want) == 1:
            if isinstance(got, np.ndarray):
                return False
            got = [got]
        elif not isinstance(got, np.ndarray):
            return False
        if len(got) != len(want):
            return False
        if t == 'c':
            return all(np.complex64(a) == np.complex64(b) for a, b in zip(got, want))
        return all(a == b for a, b in zip(got, want))

    def op_getitem(self, h, name):
        x = self.h.get(h)
        if not x:
            return 'skip'
        uv, m = x
        if isinstance(m, W) and m.poison:
            return 'skip'
        if name in getattr(m, 'vt', {}) or name in m.ds.vt:
            return 'skip'
        allowed = self.items_now(m, name)
        miss = allowed == [UNSET]
        maybe = UNSET in allowed
        if maybe and not miss:
            try:
                got = uv[name]
            except Exception:
                self.result_ = 'err'
                return
        else:
            ok, got = self.call(lambda: uv[name], refuse=miss, what='reading item %s' % name)
            if not ok:
                return
        for a in allowed:
            if a != UNSET and self.same_item(name, got, a):
                return
        self.fail('item', 'item %s reads %r, expected %s' % (name, short(got), short(allowed)))

    def op_items(self, h):
        x = self.h.get(h)
        if not x:
            return 'skip'
        uv, m = x
        if isinstance(m, W) and m.poison:
            return 'skip'
        ok, got = self.call(lambda: uv.items())
        if not ok:
            return
        names = set(m.ds.items) | set(getattr(m, 'items', {}))
        got = set(got) - {'vartable'}
        for k in names:
            al = self.items_now(m, k)
            if al == [UNSET] and k in got:
                self.fail('items', 'items() lists %s, which was never written' % k)
            if UNSET not in al and k not in got:
                self.fail('items', 'items() leaves out %s' % k)
        if got - names and isinstance(m, RH):
            self.fail('items', 'items() lists %r, never written' % sorted(got - names))

    def op_write(self, h, rec):
        uv, m = self.w(h)
        if uv is None:
            return 'skip'
        n = rec['d'][1]
        data = gen_data(rec['d'])
        mask = gen_mask(rec['m'], n)
        api = rec.get('api', 'ma')
        if api in ('plain', 'nomask'):
            mask = np.zeros(n, dtype=bool)
        self.write_rec(uv, m, rec['uvw'], rec['t'], rec['ij'], data, mask, api, rec.get('pf', 'd'))

    def write_rec(self, uv, m, uvw, t, ij, data, mask, api='ma', pf='d'):
        n = len(data)
        uvwa = np.array(uvw, dtype=np.float64)
        if pf == 'strided':
            b = np.zeros(7)
            b[0:6:2] = uvwa
            uvwa = b[0:6:2]
        pre = (uvwa, t, (ij[0], ij[1]))
        if api == 'ma':
            f = lambda: uv.write(pre, np.ma.array(data, mask=mask))
        elif api == 'ma128':
            f = lambda: uv.write(pre, np.ma.array(data.astype(np.complex128), mask=mask))
        elif api == 'nomask':
            f = lambda: uv.write(pre, np.ma.array(data))
        elif api == 'plain':
            f = lambda: uv.write(pre, data)
        elif api == 'flags':
            f = lambda: uv.write(pre, data, flags=mask)
        elif api == 'flagsi':
            f = lambda: uv.write(pre, data, flags=mask.astype(np.int32))
        elif api == 'raw':
            f = lambda: uv.raw_write(pre, data, (~mask).astype(np.int32))
        elif api == 'strided':
            d2 = np.zeros(2 * n, dtype=np.complex64)
            d2[::2] = data
            m2 = np.zeros(2 * n, dtype=bool)
            m2[::2] = mask
            m2[1::2] = ~mask
            f = lambda: uv.write(pre, np.ma.array(d2[::2], mask=m2[::2]))
        else:
            raise ValueError(api)
        ok, _ = self.call(f)
        if not ok:
            self.stats['write.failed'] += 1
            return False
        m.vars['nchan'] = ('i', n)
        m.newtypes['nchan'] = 'i'
        self.ack(m, uvw, t, ij, data, mask)
        return True

    def ack(self, m, uvw, t, ij, data, mask):
        v = dict(m.ds.vstate)
        v.update(m.vars)
        m.recs.append(Rec(tuple(float(x) for x in uvw), float(t), tuple(ij), data, ~mask, v, m.corr))
        self.stats['records'] += 1
        self.stats['channels'] += len(data)

    # ---- reading
    def r(self, h):
        x = self.h.get(h)
        return x if x and isinstance(x[1], RH) else (None, None)

    def next_rec(self, m):
        """Advance the model; the record read() is to return, or None at the end."""
        recs = m.ds.recs
        while m.pos < m.n0:
            rec = recs[m.pos]
            m.pos += 1
            m.high = max(m.high, m.pos)
            if not m.sel.keep(rec, m.pos):
                continue
            if m.sel.decimate(rec.t):
                return m.sel.view(rec)
        m.high = m.n0 + 1                        # and whatever was set after the last record
        return None

    def fits(self, m, rec):
        return len(rec.data) <= len(m.ds.recs[0].data)

    def save(self, m):
        return (m.pos, m.sel.intcnt, m.sel.cur)

    def back(self, m, s):
        m.pos, m.sel.intcnt, m.sel.cur = s

    def op_read(self, h, raw=False, vars=True):
        uv, m = self.r(h)
        if uv is None or m.lost:
            return 'skip'
        return self.read_one(uv, m, raw, vars)

    def read_one(self, uv, m, raw, vars):
        scanned0 = m.pos
        exp = self.next_rec(m)
        # records scanned and dropped by decimation are read whole as well
        wide = any(not self.fits(m, q) for q in m.ds.recs[scanned0:m.pos]) if exp is not None or m.sel.dec > 1 else False
        f0 = self.fired()
        if wide:
            m.lost = True
            try:
                got = uv.read(raw=raw)
            except Exception:
                self.result_ = 'err'
                return
            if exp is not None and not self.fits(m, exp):
                self.fail('wide', 'a record of %d channels read into %d' % (len(exp.data), len(m.ds.recs[0].data)))
            m.lost = False
        else:
            ok, got = self.call(lambda: uv.read(raw=raw), refuse=exp is None, what='reading record %d' % (m.pos - 1) if exp is not None else 'reading past the end')
            if not ok:
                if self.fired() - f0:
                    m.lost = True
                    self.stats['read.failed'] += 1
                m.last = None
                return
        d = same_rec(exp, got, raw)
        if d:
            self.fail('data', 'record %d of %s: %s' % (m.pos - 1, m.path, d))
        m.last = exp
        self.stats['read'] += 1
        if vars:
            self.check_vars(uv, m, exp)
        return got

    def check_vars(self, uv, m, rec):
        for k, tv in sorted(rec.vars.items()):
            typ, val = tv
            if val == ANY:
                continue
            ok, got = self.call(lambda: uv[k], what='variable %s' % k)
            if not ok:
                continue
            g = canon_got(typ, got)
            if g != canon(typ, val):
                self.fail('variable', 'at record %d of %s, %s is %s, expected %s' % (m.pos - 1, m.path, k, short(got), short(val)))
            self.stats['vars'] += 1
        if not getattr(m.ds, 'vtloose', False):
            for k in sorted(m.ds.vt):
                if k not in rec.vars and k not in BUILTIN and m.unset(k):
                    ok, got = self.call(lambda: uv[k], refuse=True, what='variable %s of %s, which has no value up to record %d,' % (k, m.path, m.pos - 1))
                    self.stats['unset'] += 1
        self.result_ = 'ok'

    def op_getvar(self, h, name):
        x = self.h.get(h)
        if not x:
            return 'skip'
        uv, m = x
        if isinstance(m, W):
            if m.poison or name in BUILTIN:
                return 'skip'
            tv = m.vars.get(name)
            if name in m.vt and tv is None:
                tv = m.ds.vstate.get(name)
            if name not in m.vt:
                if name in self.miriad.itemtable:
                    return 'skip'
                self.call(lambda: uv[name], refuse=True)
                return
            if tv is None:
                if m.status == 'append':
                    return 'skip'
                self.call(lambda: uv[name], refuse=True)
                return
        else:
            if m.lost or name in BUILTIN:
                return 'skip'
            if name not in m.ds.vt:
                if name in self.miriad.itemtable:
                    return 'skip'
                self.call(lambda: uv[name], refuse=True)
                return
            tv = m.last.vars.get(name) if m.last is not None else None
            if tv is None:
                return 'skip'
        typ, val = tv
        if val == ANY:
            return 'skip'
        if isinstance(m, W) and m.status == 'append' and name not in m.vars:
            return 'skip'
        ok, got = self.call(lambda: uv[name])
        if ok and canon_got(typ, got) != canon(typ, val):
            self.fail('variable', '%s of %s is %s, expected %s' % (name, m.path, short(got), short(val)))

    def op_vars(self, h):
        uv, m = self.r(h)
        if uv is None:
            return 'skip'
        ok, got = self.call(lambda: uv.vars())
        if ok and not getattr(m.ds, 'vtloose', False) and sorted(set(got) - set(BUILTIN)) != sorted(set(m.ds.vt) - set(BUILTIN)):
            self.fail('vartable', 'vars() is %r, expected %r' % (sorted(got), sorted(m.ds.vt)))

    def op_readall(self, h, raw=False, vars=True, via='all'):
        uv, m = self.r(h)
        if uv is None or m.lost:
            return 'skip'
        if via == 'read' or m.sel.dec > 1 or any(not self.fits(m, q) for q in m.ds.recs):
            for _ in range(len(m.ds.recs) + 1):
                got = self.read_one(uv, m, raw, vars)
                if got is None:
                    break
            return
        it = uv.all(raw=raw)
        while True:
            s = self.save(m)
            exp = self.next_rec(m)
            f0 = self.fired()
            try:
                got = next(it)
            except StopIteration:
                if self.fired() - f0:
                    if exp is not None:
                        self.fail('silent-end', 'all() ended quietly at record %d of %s when a read failed' % (m.pos - 1, m.path))
                    m.lost = True
                    m.last = None
                    return
                if exp is not None:
                    self.fail('data', 'all() ended at record %d of %d of %s' % (m.pos - 1, m.n0, m.path))
                m.last = None
                return
            except Exception as e:
                if not self.fired() - f0:
                    self.fail('spurious-error', 'all() raised %s: %s' % (type(e).__name__, e))
                self.result_ = 'err'
                self.stats['read.failed'] += 1
                m.lost = True
                m.last = None
                return
            if exp is None:
                self.fail('data', 'all() returned a record past the end of %s' % m.path)
            d = same_rec(exp, got, raw)
            if d:
                self.fail('data', 'record %d of %s: %s' % (m.pos - 1, m.path, d))
            m.last = exp
            self.stats['read'] += 1
            if vars:
                self.check_vars(uv, m, exp)

    POLS = {'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8, 'I': 1}

    def op_readfiles(self, paths, inc, exc, pol, dec, phs, kw):
        """read_files over several data sets, against the records which were written."""
        need = ('pol', 'lst', 'nants', 'sdf', 'sfreq', 'inttime')
        if kw['one']:
            paths = paths[:1]
        dss = [self.ds.get(p) for p in paths]
        for p, d in zip(paths, dss):
            if d is None or not d.sure or d.damaged or d.tail or not d.recs or any(k not in q.vars or q.vars[k][1] == ANY for q in d.recs for k in need):
                return 'skip'
            if any(m.path == p and (isinstance(m, W) or getattr(m, 'rhitems', None)) for _, m in self.h.values()):
                return 'skip'
        if len({len(q.data) for d in dss for q in d.recs}) != 1:
            return 'skip'
        if len({d.recs[0].vars['nants'][1] for d in dss}) != 1:
            return 'skip'

        def text(t, sign=''):
            if t[0] == 'bl':
                return '%s%d_%d' % (sign, t[1], t[2])
            if t[0] == 'blp':
                return '%d%s_%d%s' % (t[1], t[3], t[2], t[4])
            if t[0] == 'ant':
                return '%s%d' % (sign, t[1])
            if t[0] == 'prod':
                return '(%s)_(%s)' % (','.join('%d' % i for i in t[1]), ','.join('%d' % i for i in t[2]))
            return t[0]
        ants = ','.join([text(t) for t in inc] + [text(t, '-') for t in exc])
        pols = None if pol == -1 else [self.POLS[q] for q in pol.split(',')]

        def hit(t, q, pv):
            i, j = sorted(q.ij)
            if t[0] == 'bl':
                return (i, j) == tuple(sorted(t[1:]))
            if t[0] == 'blp':
                return (i, j) == tuple(sorted(t[1:3])) and pv == self.POLS[t[3] + t[4]]
            if t[0] == 'ant':
                return t[1] in (i, j)
            if t[0] == 'prod':
                return any((i, j) == tuple(sorted((a, b))) for a in t[1] for b in t[2])
            return {'all': True, 'auto': i == j, 'cross': i != j}[t[0]]
        times, lsts, data = [], [], collections.OrderedDict()
        name = {v: k for k, v in self.POLS.items()}
        for d in dss:
            s = Selection()
            s.dec, s.phs = (dec, phs) if dec > 1 else (1, 0)
            for q in d.recs:
                pv = q.vars['pol'][1]
                if inc and not any(hit(t, q, pv) for t in inc) or any(hit(t, q, pv) for t in exc):
                    continue
                if pols is not None and pv not in pols and not any(t[0] == 'blp' for t in inc):
                    continue
                if not s.decimate(q.t):
                    continue
                if not times or times[-1] != q.t:
                    times.append(q.t)
                    lsts.append(q.vars['lst'][1])
                data.setdefault((q.ij[0], q.ij[1], name[pv]), []).append(q)
        names = [R + p for p in paths]
        call = lambda: self.miriad.read_files(names[0] if kw['one'] else names, ants, pol, decimate=dec, decphs=phs, recast_as_array=kw['recast'])
        ok, got = self.call(call, what='read_files(%r, %r, %r)' % (paths, ants, pol))
        gc.collect(0)
        if not ok:
            return
        info, dat, flg = got
        what = 'read_files(%r, %r, %r, %d, %d)' % (paths, ants, pol, dec, phs)
        if list(info['times']) != times:
            self.fail('data', '%s: times %r, expected %r' % (what, list(info['times'])[:9], times[:9]))
        if list(info['lsts']) != lsts:
            self.fail('data', '%s: lsts %r, expected %r' % (what, list(info['lsts'])[:9], lsts[:9]))
        if sorted(dat) != sorted(data) or sorted(flg) != sorted(data):
            self.fail('data', '%s: data of %r, expected %r' % (what, sorted(dat), sorted(data)))
        for k, recs in data.items():
            if len(dat[k]) != len(recs) or len(flg[k]) != len(recs):
                self.fail('data', '%s: %d records of %r, expected %d' % (what, len(dat[k]), k, len(recs)))
            if kw['recast'] and not (isinstance(dat[k], np.ndarray) and isinstance(flg[k], np.ndarray)):
                self.fail('data', '%s: %r is not an array' % (what, k))
            for n, (x, f, q) in enumerate(zip(dat[k], flg[k], recs)):
                e = same_rec(q, ((q.uvw, q.t, q.ij), np.ascontiguousarray(x), f), True)
                if e:
                    self.fail('data', '%s: record %d of %r: %s' % (what, n, k, e))
                self.stats['read'] += 1
        v = dss[-1].recs[-1].vars
        fr = np.arange(len(dss[-1].recs[-1].data)) * v['sdf'][1] + v['sfreq'][1]
        if len(info['freqs']) != len(fr) or np.max(np.abs(np.asarray(info['freqs']) - fr)) > 1e-12 or info['sdf'] != v['sdf'][1] or info['inttime'] != v['inttime'][1]:
            self.fail('data', '%s: freqs %r sdf %r inttime %r' % (what, list(info['freqs'])[:4], info['sdf'], info['inttime']))
        self.stats['readfiles'] += 1

    def op_rewind(self, h):
        uv, m = self.r(h)
        if uv is None:
            return 'skip'
        ok, _ = self.call(uv.rewind)
        if ok:
            m.pos = 0
            m.sel.reset()
            m.last = None
            m.lost = False

    def op_retry(self, h, raw=False):
        """Read again after a failed read, without rewinding: the record which failed or the one after it."""
        uv, m = self.r(h)
        if uv is None or not m.lost or m.sel.clauses or m.sel.dec > 1 or any(not self.fits(m, q) for q in m.ds.recs):
            return 'skip'
        # m.pos is one past the record which failed
        k = m.pos - 1
        f0 = self.fired()
        try:
            got = uv.read(raw=raw)
        except Exception as e:
            self.result_ = 'err'
            if self.fired() - f0:
                return
            if isinstance(e, IOError) and k >= m.n0 - 1:
                return                                # the end
            self.fail('spurious-error', 'reading again after a failed read raised %s: %s' % (type(e).__name__, e))
        bad = []
        for q in (k, k + 1):
            if 0 <= q < m.n0:
                d = same_rec(m.ds.recs[q], got, raw)
                if not d:
                    m.pos = q + 1
                    m.lost = False
                    m.last = m.ds.recs[q]
                    self.check_vars(uv, m, m.last)
                    self.stats['retried'] += 1
                    return
                bad.append(d)
        self.fail('data', 'reading again after record %d failed gave neither it nor the next: %s' % (k, ' / '.join(bad)))

    SELNEEDS = {'polarization': [('?pol', 'i')], 'on': [('on', 'i')], 'ra': [('ra', 'rd'), ('?dra', 'r'), ('?ddec', 'r'), ('dec', 'rd')], 'dec': [('dec', 'rd'), ('?ddec', 'r')],
                'lst': [('lst', 'd')], 'dra': [('?dra', 'r')], 'ddec': [('?ddec', 'r')], 'dazim': [('?dazim', 'd')], 'delev': [('?delev', 'd')],
                'pointing': [('axisrms', 'r')], 'uvrange': [('nschan', 'i'), ('sfreq', 'd'), ('sdf', 'd')], 'frequency': [('nschan', 'i'), ('sfreq', 'd'), ('sdf', 'd')],
                'window': [('nschan', 'i'), ('sfreq', 'd'), ('sdf', 'd')], 'ha': [('lst', 'd'), ('obsra', 'd')], 'elevation': [('antel', 'd')], 'bin': [('bin', 'i')],
                'shadow': [('lst', 'd'), ('obsra', 'd'), ('obsdec', 'd'), ('antpos', 'd'), ('?antdiam', 'r')], 'amplitude': []}

    def badsel(self, name, a, b, cl):
        """Is this a selection of nothing that exists? It is refused, and leaves what was selected as it was."""
        if name in ('time', 'ra', 'dec', 'ha', 'elevation', 'dra', 'ddec', 'dazim', 'delev', 'uvrange', 'uvnrange', 'pointing', 'frequency', 'amplitude'):
            return a >= b or a < 0 and name in ('uvrange', 'uvnrange', 'pointing', 'amplitude') or a <= 0 and name == 'frequency'
        if name in ('visibility', 'bin'):
            return a > b or a < 1
        if name == 'antennae':
            return max(a, b) >= MAXANT or min(a, b) < -2
        return name == 'increment' and a < 1 or name == 'shadow' and (a != 0 or b < 0) or name == 'window' and not 1 <= a <= MAXWIN

    def op_select(self, h, name, a, b, inc=1):
        uv, m = self.r(h)
        if uv is None or m.lost:
            return 'skip'
        if self.badsel(name, a, b, m.sel.clauses):
            self.call(lambda: uv.select(name, a, b, inc), refuse=True)
            self.stats['select.refused'] += 1
            return
        recs = m.ds.recs
        if not recs and name in self.SELNEEDS:
            return 'skip'
        nant = max([0] + [max(q.ij) for q in recs]) + 1
        for nm, t in self.SELNEEDS.get(name, ()):
            opt = nm[0] == '?'
            nm = nm.lstrip('?')
            have = [q.vars.get(nm, (None, ANY)) for q in recs]
            if opt and nm not in m.ds.vt and not getattr(m.ds, 'vtloose', False):
                if nm != 'antdiam' or b > 0:
                    continue
                return 'skip'
            if any(tv[0] is None or tv[0] not in t or tv[1] == ANY or tv[1] == [] for tv in have):
                return 'skip'
            n = {'axisrms': 2 * nant, 'antpos': 3 * nant}.get(nm, 1)
            if any((len(tv[1]) if isinstance(tv[1], list) else 1) < n for tv in have):
                return 'skip'
        cl = m.sel.clauses
        if name in ('uvrange', 'frequency', 'window'):
            for q in recs:
                ns, sf, sd = [q.vars[k][1] if isinstance(q.vars[k][1], list) else [q.vars[k][1]] for k in ('nschan', 'sfreq', 'sdf')]
                if not len(ns) == len(sf) == len(sd) or sum(ns) != len(q.data) or min(ns) < 1 or name == 'window' and a > len(ns):
                    return 'skip'
        if name == 'window':
            w = cl[-1].get('win') if cl else None
            if not inc or any(not c['and'] or c.get('win') and c is not cl[-1] for c in cl) or w and not w[0] - 1 <= a - 1 <= w[1] + 1:
                return 'skip'
        if name in ('amplitude', 'window') and (any(q.corr != 'r' for q in recs) or any(c.get('amp') for c in cl) and name == 'amplitude'):
            return 'skip'
        if name == 'or' and any(c.get('win') for c in cl):
            return 'skip'
        if any(c.get('win') for c in cl) and any(not self.fits(m, q) for q in recs):
            return 'skip'
        ok, _ = self.call(lambda: uv.select(name, a, b, inc))
        if ok:
            self.stats['select.' + name] += 1
            m.sel.add(name, a, b, inc)

    # ---- copying
    def op_init(self, dst, src, override=None, exclude=None):
        du, dm = self.w(dst)
        su, sm = self.r(src)
        if du is None or su is None or sm.lost or dm.recs or dm.status != 'new':
            return 'skip'
        if sm.last is None:
            return 'skip'
        override, exclude = override or {}, exclude or []
        types = dict(sm.ds.vt)
        if getattr(sm.ds, 'vtloose', False):
            types = dict(x.split(':') for x in self.vt_of(su))
            types.update({k: t for k, t in sm.ds.vt.items() if k in BUILTIN})
        for k in override:
            if k in types and k in ('nchan',):
                return 'skip'
        ov = {}
        for k, v in override.items():
            if k in types:
                ov[k] = dec_val(types[k], v)
            elif k in self.miriad.itemtable:
                ov[k] = self.item_arg(k, v)
        if any(len(v) != 1 for v in sm.ds.items.values()):
            return 'skip'
        ok, _ = self.call(lambda: du.init_from_uv(su, override=ov, exclude=list(exclude)))
        if not ok:
            dm.poison = True
            dm.items = {k: dm.items.get(k, [UNSET]) + [UNSET, ANY] for k in set(dm.items) | set(sm.ds.items)}
            return
        for k, v in sm.ds.items.items():
            if v == [UNSET] or k in exclude:
                continue
            dm.items[k] = [override[k]] if k in override else list(v)
        dm.vt = {}
        for k, t in types.items():
            if k in exclude or k == 'corr':
                sm.tracked.discard(k)
                continue
            dm.vt[k] = t
            if k in override:
                dm.vars[k] = (t, override[k])
                dm.newtypes[k] = t
                sm.tracked.discard(k)
            else:
                tv = sm.last.vars.get(k)
                if tv is not None and (tv[1] != ANY or k in BUILTIN):
                    dm.vars[k] = tv
                    dm.newtypes[k] = t
                elif k not in BUILTIN and not (tv is None and sm.unset(k)):
                    dm.vars[k] = (t, ANY)
                    dm.maybe_types = getattr(dm, 'maybe_types', {})
                    dm.maybe_types[k] = t
                    dm.ds.vtloose = True
                sm.tracked.add(k)
        dm.src = src
        dm.excl = set(exclude)

    def mf(self, spec):
        """(real callback, model callback) for the recordings a copy makes."""
        kind = spec[0]
        if kind == 'echo':
            return lambda p, d, m, k: (p, d, m)
        if kind == 'drop':
            return lambda p, d, m, k: (p, None, None) if k % spec[1] == spec[2] % spec[1] else (p, d, m)
        if kind == 'scale':
            return lambda p, d, m, k: (p, (d * np.float32(spec[1])).astype(np.complex64), m)
        if kind == 'flag':
            return lambda p, d, m, k: (p, d, m | (((np.arange(len(d)) + k) % 3) == 0))
        if kind == 'pre':
            return lambda p, d, m, k: (((p[0] + spec[1]), p[1] + spec[2], p[2]), d, m)
        if kind == 'ij':
            return lambda p, d, m, k: ((p[0], p[1], tuple(a + spec[1] if max(p[2]) + spec[1] < 2047 else a for a in p[2])), d, m)
        if kind == 'chan':
            return lambda p, d, m, k: (p, d[::spec[1]].copy(), m[::spec[1]].copy())
        raise ValueError(kind)

    def apply_vars(self, dm, sm, rec):
        """copyvr: what is tracked on the source is now as it is at rec."""
        for k in sm.tracked:
            if k in BUILTIN and k != 'nchan':
                continue
            tv = rec.vars.get(k)
            if tv is not None:
                dm.vars[k] = tv
                if tv[1] != ANY or k in BUILTIN:
                    dm.newtypes[k] = tv[0]
                elif k not in dm.newtypes:
                    dm.ds.vtloose = True

    def op_pipe(self, dst, src, spec, append='', raw=False):
        du, dm = self.w(dst)
        su, sm = self.r(src)
        if du is None or su is None or sm.lost or dm.src != src:
            return 'skip'
        hist = self.items_now(sm, 'history')
        dh = self.items_now(dm, 'history')
        if len(dh) != 1 or dh == [UNSET] or dh == [ANY]:
            return 'skip'
        if any(not self.fits(sm, q) for q in sm.ds.recs):
            return 'skip'
        cb = self.mf(spec)
        cnt = [0]
        exp = []
        while True:
            e = self.next_rec(sm)
            if e is None:
                break
            exp.append(e)
        done = []

        def real(*a):
            disk.np(0)
            try:
                return real1(*a)
            finally:
                disk.np(self.npfault)

        def real1(uv, p, d, f=None):
            k = cnt[0]
            cnt[0] += 1
            if f is None:
                dd, mm = np.ma.getdata(d), np.ma.getmaskarray(d)
            else:
                dd, mm = d, f
            # the callback sees the record and its variables
            if k >= len(exp):
                self.fail('pipe', 'the callback was given record %d of %d' % (k, len(exp)))
            x = same_rec(exp[k], ((p, d, f) if f is not None else (p, d)), f is not None)
            if x:
                self.fail('data', 'the callback was given, as record %d: %s' % (k, x))
            for vk, tv in exp[k].vars.items():
                if tv[1] != ANY and canon_got(tv[0], uv[vk]) != canon(tv[0], tv[1]):
                    self.fail('variable', 'in the callback at record %d, %s is %s, expected %s' % (k, vk, short(uv[vk]), short(tv[1])))
            np_, nd, nm = cb(p, dd, mm, k)
            if f is not None:
                return np_, nd, nm
            return np_, None if nd is None else np.ma.array(nd, mask=nm)

        def model(k):
            e = exp[k]
            self.apply_vars(dm, sm, e)
            np_, nd, nm = cb((np.array(e.uvw), e.t, e.ij), e.data if e.corr == 'r' else None, ~e.valid, k)
            if nd is None:
                return
            self.clone_nchan(dm, sm, e, len(nd))
            self.ack(dm, [float(x) for x in np_[0]], np_[1], np_[2], nd, nm)
        if any(e.corr != 'r' for e in exp):
            return 'skip'
        ok, _ = self.call(lambda: du.pipe(su, mfunc=real, append2hist=append, raw=raw))
        sm.last = None
        newh = dh[0] + append
        if ok:
            if cnt[0] != len(exp):
                self.fail('pipe', 'the callback was called for %d records of %d' % (cnt[0], len(exp)))
            for k in range(len(exp)):
                model(k)
            dm.items['history'] = [newh]
        else:
            n = cnt[0]
            for k in range(max(0, n - 1)):
                model(k)
            n0 = len(dm.recs)
            dm.items['history'] = list(dh) + [newh]
            if n:
                model(n - 1)
                dm.limbo = dm.recs[n0:]
                dm.recs = dm.recs[:n0]
            dm.poison = dm.ds.vtloose = True
            sm.lost = True

    def op_copy1(self, dst, src, spec=('echo',), raw=False):
        """One step of the loop users write by hand: read, copyvr, write."""
        du, dm = self.w(dst)
        su, sm = self.r(src)
        if du is None or su is None or sm.lost or dm.src != src:
            return 'skip'
        if any(not self.fits(sm, q) for q in sm.ds.recs) or any(q.corr != 'r' for q in sm.ds.recs):
            return 'skip'
        k = sm.pos
        got = self.read_one(su, sm, raw, True)
        if got is None or sm.last is None:
            return
        e = sm.last
        ok, _ = self.call(lambda: du.copyvr(su), what='copyvr')
        if not ok:
            dm.poison = dm.ds.vtloose = True         # some variables may have been copied
            return
        self.apply_vars(dm, sm, e)
        np_, nd, nm = self.mf(spec)((np.array(e.uvw), e.t, e.ij), e.data, ~e.valid, k)
        if nd is None:
            return
        self.write_rec(du, dm, [float(x) for x in np_[0]], np_[1], np_[2], nd, nm)
        if dm.recs:
            self.clone_nchan(dm, sm, e, len(nd))
            if dm.recs[-1].vars.get('nchan', ANY) != ANY and dm.vars['nchan'][1] == ANY:
                dm.recs[-1].vars['nchan'] = ('i', ANY)

    def clone_nchan(self, dm, sm, e, n):
        """nchan is copied like any variable: what it is in a clone with fewer channels is not promised."""
        if n != len(e.data) or dm.vars.get('nchan', (0, 0))[1] == ANY or e.vars.get('nchan', (0, 0))[1] == ANY:
            n = ANY
        dm.vars['nchan'] = ('i', n)
        dm.newtypes['nchan'] = 'i'

    # ---- refused calls
    def op_bad(self, what, *a):
        m_ = self.miriad
        if what == 'missing':
            p = R + 'nosuch%s' % a[0]
            if a[1] == 'new' and len(p) < 4096:
                return 'skip'
            if disk.exists(p.encode()):
                return 'skip'
            self.call(lambda: m_.UV(p, status=a[1]), refuse=True)
            if disk.exists(p.encode()):
                self.fail('side-effect', 'opening %s, which does not exist, created it' % p)
            return
        if what == 'newover':
            path = a[0]
            if path not in self.ds or not disk.exists((R + path).encode()):
                return 'skip'
            h0 = disk.hash()
            self.call(lambda: m_.UV(R + path, status='new'), refuse=True)
            if disk.hash() != h0:
                self.fail('side-effect', 'creating %s over an existing data set changed it' % path)
            return
        if what == 'notuv':
            p = R + 'junk'
            if not disk.exists(p.encode()):
                disk.mkdirs(p.encode())
                disk.write(p + '/readme', b'not a data set')
            self.call(lambda: m_.UV(p, status=a[0]), refuse=True)
            return
        if what == 'status':
            self.call(lambda: m_.UV(R + 'zz', status='w'), refuse=True)
            return
        if what == 'corrmode':
            self.call(lambda: m_.UV(R + 'zz', status='new', corrmode='x'), refuse=True)
            if disk.exists((R + 'zz').encode()):
                self.fail('side-effect', 'a refused open created a data set')
            return
        x = self.h.get(a[0])
        if not x:
            return 'skip'
        uv, m = x
        if getattr(m, 'poison', False):
            return 'skip'
        if what == 'unknown':
            self.call(lambda: uv['nosuchv'], refuse=True)
        elif what == 'setunknown':
            def f(): uv['nosuchv'] = 3
            self.call(f, refuse=True)
        elif what == 'select':
            if not isinstance(m, RH):
                return 'skip'
            self.call(lambda: uv.select('bogus', 0, 1), refuse=False)     # MIRIAD warns and ignores it
        elif what == 'decimate0':
            if not isinstance(m, RH):
                return 'skip'
            self.call(lambda: uv.select('decimate', 0, 0), refuse=True)
        elif what == 'readw':
            if not isinstance(m, W):
                return 'skip'
            self.call(lambda: uv.read(), refuse=True)
        elif what == 'shape':
            if not isinstance(m, W):
                return 'skip'
            self.call(lambda: uv.raw_write((np.zeros(3), 1.0, (0, 1)), np.zeros(4, dtype=np.complex64), np.zeros(3, dtype=np.int32)), refuse=True)
        elif what == 'dtype':
            if not isinstance(m, W):
                return 'skip'
            self.call(lambda: uv.raw_write((np.zeros(3), 1.0, (0, 1)), np.zeros(4, dtype=np.complex128), np.zeros(4, dtype=np.int32)), refuse=True)
        elif what == 'uvw':
            if not isinstance(m, W):
                return 'skip'
            self.call(lambda: uv.write((np.zeros(2), 1.0, (0, 1)), np.ma.zeros(4, dtype=np.complex64)), refuse=True)
        elif what == 'vartype':
            if not isinstance(m, W) or a[1] not in m.vt or m.vt[a[1]] == 'a':
                return 'skip'
            def f(): uv[a[1]] = 'text'
            self.call(f, refuse=True)
        elif what == 'range':
            if not isinstance(m, W) or a[1] not in m.vt or m.vt[a[1]] not in 'ij':
                return 'skip'
            def f(): uv[a[1]] = 2 ** 40
            self.call(f, refuse=True)
        elif what == 'longname':
            if not isinstance(m, W):
                return 'skip'
            # the name does not fit; refused by MIRIAD, and no trace of it is left
            name = 'v' * a[1]
            uv.add_var(name, 'i')
            try:
                def f(): uv[name] = 1
                self.call(f, refuse=True)
            finally:
                uv.vartable.pop(name, None)
        elif what == 'noitem':
            for n in ('gains', 'wflags'):
                def f(): return uv[n]
                self.call(f, refuse=True)
        else:
            raise ValueError(what)

    # ---- the environment
    def op_fault(self, cls, nth, kind, err, arg=0, sticky=0):
        self.plan.append(disk.plan_fault(cls, nth, kind, err, arg, sticky))
        self.kinds.append('%s.%s' % (cls, 'short' if kind == disk.SHORT else errno.errorcode.get(err, err)))

    def op_clearfaults(self):
        for k in range(len(self.plan)):
            n = disk.plan_fired(k)
            self.stats['fault.' + self.kinds[k]] += n
            self.base_fired += n
        if disk.capacity_hits() > self.cap_seen:
            self.stats['fault.full'] += disk.capacity_hits() - self.cap_seen
            self.cap_seen = disk.capacity_hits()
        disk.plan_clear()
        disk.capacity(-1)
        self.plan, self.kinds = [], []

    def op_capacity(self, room):
        disk.capacity(disk.used() + room)

    def op_probe(self):
        """Descriptors: exactly those of the data sets open now (a data set open holds at most 4)."""
        n = len(self.h)
        k = disk.nfds()
        if k > 6 * n:
            self.fail('fd-leak', '%d descriptors are open for %d data sets' % (k, n))

    # ---- other programs' data sets
    def op_foreign(self, path, spec):
        """A data set as another program writes it, put on the disk; from here on it is one like any other."""
        if path in self.ds:
            return 'skip'
        ds, state, raw = DS(), {}, []
        ds.corr = 'j' if spec['corr'] == 'j' else 'r'
        ds.sure = True
        types = {'corr': spec['corr'], 'nchan': 'i'}
        types.update(spec['vars'])
        for q in spec['recs']:
            data = gen_data(q['d'])
            valid = ~gen_mask(q['m'], len(data)) if not spec['style'].get('noflags') else np.ones(len(data), bool)
            state['nchan'] = ('i', len(data))
            for k, v in q['set'].items():
                state[k] = (types[k], v)
            raw.append({'uvw': q['uvw'], 't': q['t'], 'ij': q['ij'], 'data': data, 'valid': valid, 'vars': {k: (t, self.foreign_val(t, v, spec)) for k, (t, v) in state.items()}})
            ds.recs.append(Rec(tuple(float(x) for x in q['uvw']), float(q['t']), tuple(q['ij']), data, valid, dict(state), ds.corr))
            for k, (t, v) in state.items():
                ds.vt[k] = t
        ds.vstate = dict(state)
        used = {k: t for k, t in types.items() if k == 'corr' or k in ds.vt}
        items = []
        for k, v in spec['items'].items():
            t = self.miriad.itemtable[k]
            ds.items[k] = [v]
            items.append((k, v.encode() if k == 'history' else (b'\0\0\0\1' + v.encode()) if t == 'a' else mirfmt.pack_item(t, [complex(*x) for x in v] if t == 'c' else v)))
        ds.over = {}
        spec_size = {}
        for q in ds.recs:
            for k, (t, v) in q.vars.items():
                spec_size.setdefault(k, set()).add(len(v) if isinstance(v, list) else 1)
        for k, (t, v) in sorted(spec.get('over', {}).items()):
            items.append((k, b'\0\0\0\1' + v.encode() if t == 'a' else mirfmt.pack_item(t, v)))
            if (types[k] == 'a') == (t == 'a') and types[k] not in 'jc' and (t == 'a' or len(v) == 1):
                ds.over[k] = v if t == 'a' else v[0]
                for q in ds.recs:
                    n = 1
                    if t != 'a' and isinstance(spec_size.get(k), set):
                        n = len(q.vars[k][1]) if k in q.vars and isinstance(q.vars[k][1], list) else 1 if k in q.vars or spec_size[k] == {1} else None
                    q.vars[k] = (types[k], ANY if n is None else ds.over[k] if n == 1 else [ds.over[k]] * n)   # its length before it first occurs is not specified
                self.stats['over'] += 1
        disk.mkdirs((R + path).encode())
        for k, b in mirfmt.encode(raw, used, items, spec['style'], spec['seed']).items():
            disk.write(R + path + '/' + k, b)
        ds.foreign = True
        self.ds[path] = ds

    def foreign_val(self, t, v, spec):
        if t == 'a':
            return v.encode('utf-8') + (b'\0' if spec.get('nul') else b'')
        return np.frombuffer(b''.join(canon(t, v)), {'i': 'i8', 'j': 'i8', 'r': 'f4', 'd': 'f8', 'c': 'c8'}[t])

    def decode_check(self, path, ds):
        """The bytes on the disk, read after the format's description and not by the code under test."""
        pre = R + path + '/'
        files = {p[len(pre):]: disk.read(p) for p in disk.paths() if p.startswith(pre)}
        try:
            got = mirfmt.decode(files, not getattr(ds, 'foreign', False), self.fired() > 0)
        except (mirfmt.Bad, KeyError, ValueError, IndexError, struct.error) as e:
            self.fail('format', '%s is not a data set to another program: %s: %s' % (path, type(e).__name__, e))
        t = sorted('%s:%s' % (k, v) for k, v in got['types'].items() if k not in BUILTIN)
        if t != sorted(self.expect_vt(ds)) and not getattr(ds, 'vtloose', False):
            self.fail('format-vartable', 'another program finds the variables %r in %s, expected %r' % (t, path, sorted(self.expect_vt(ds))))
        if len(got['recs']) != len(ds.recs):
            self.fail('format-records', 'another program finds %d records in %s, %d were written' % (len(got['recs']), path, len(ds.recs)))
        for n, (exp, q) in enumerate(zip(ds.recs, got['recs'])):
            d = same_rec(exp, ((q['uvw'], q['t'], q['ij']), q['data'], ~q['valid']), True)
            if d:
                self.fail('format-data', 'another program finds in record %d of %s: %s' % (n, path, d))
            for k, (typ, val) in sorted(exp.vars.items()):
                if val == ANY or k in getattr(ds, 'over', ()):
                    continue
                if k not in q['vars']:
                    self.fail('format-variable', 'another program finds no value of %s at record %d of %s' % (k, n, path))
                b = q['vars'][k][1]
                if typ == 'a':
                    ok = isinstance(b, bytes) and b in (val.encode('utf-8'), val.encode('utf-8') + b'\0')
                else:
                    dt = {'i': np.int64, 'j': np.int64, 'r': np.float32, 'd': np.float64, 'c': np.complex64}[typ]
                    ok = [x.astype(dt).tobytes() for x in b] == canon(typ, val)
                if not ok:
                    self.fail('format-variable', 'another program finds %s of %s at record %d of %s, expected %s' % (short(b), k, n, path, short(val)))
            self.stats['decoded.records'] += 1
        for name in sorted(ds.items):
            t = self.miriad.itemtable[name]
            b = mirfmt.item(files, name)
            allowed = ds.items[name]
            if b is None:
                if UNSET not in allowed:
                    self.fail('format-item', 'another program finds no item %s in %s' % (name, path))
                continue
            if t == '?':
                continue
            try:
                if name == 'history':
                    v = b.decode('utf-8')
                elif t == 'a':
                    if b[:4] not in (b'\0\0\0\1',):
                        raise mirfmt.Bad('it begins with %r' % b[:4])
                    v = b[4:].decode('utf-8')
                else:
                    v = mirfmt.item_value(b, t)
                    v = v[0] if len(v) == 1 else v
            except (mirfmt.Bad, UnicodeDecodeError) as e:
                self.fail('format-item', 'item %s of %s is not readable to another program: %s' % (name, path, e))
            if not any(a != UNSET and self.same_item(name, v, a) for a in allowed):
                self.fail('format-item', 'another program finds item %s of %s to be %s, expected %s' % (name, path, short(v), short(allowed)))
        self.stats['decoded'] += 1

    # ---- the end
    def finish(self):
        self.i = None
        if self.crash is not None:
            return self.crash_phase()
        self.op_clearfaults()
        for h in sorted(self.h):
            uv, m = self.h[h]
            uv = None
            self.unraisable = []
            f0 = self.fired()
            self.op_close(h)
            gc.collect(0)
        uv = m = None
        gc.collect(0)
        n = disk.nfds()
        if n:
            self.fail('fd-leak', '%d descriptors are still open after everything was closed: %s' % (n, disk.fd_path(0)))
        for path in sorted(self.ds):
            ds = self.ds[path]
            self.audit(path, ds)
            if self.cfg.get('decode') and ds.sure and ds.recs and not ds.tail and not getattr(ds, 'maybe', False) and not ds.damaged and not getattr(ds, 'wide', False):
                self.decode_check(path, ds)
        n = disk.nfds()
        if n:
            self.fail('fd-leak', '%d descriptors are still open after the final reading: %s' % (n, disk.fd_path(0)))
        if self.cfg.get('slots'):
            n = self.slots()
            if n < self.nslots:
                self.fail('slot-leak', 'only %d data sets can be open at a time, at first it was %d' % (n, self.nslots))

    def read_back(self, path):
        """Everything readable in a data set: (records, items, variable table, error)."""
        try:
            uv = self.miriad.UV(R + path)
        except Exception as e:
            return None, {}, {}, '%s: %s' % (type(e).__name__, e)
        return uv

    def audit(self, path, ds, base=None, tail=None, must_open=None, items=None, cls='final', vt=None):
        """Read a data set with the real code and compare: base exactly, then a prefix of tail."""
        base = ds.recs if base is None else base
        tail = ds.tail if tail is None else tail
        must_open = (ds.sure and bool(base)) if must_open is None else must_open
        items = ds.items if items is None else items
        exact = ds.sure and not tail and not getattr(ds, 'maybe', False) and not getattr(ds, 'vtloose', False) if vt is None else vt
        try:
            uv = self.miriad.UV(R + path)
        except Exception as e:
            if must_open:
                self.fail(cls + '-open', '%s cannot be opened: %s: %s' % (path, type(e).__name__, e))
            self.stats['final.unopenable'] += 1
            return 'closed'
        try:
            if exact and sorted(self.vt_of(uv)) != sorted(self.expect_vt(ds)):
                self.fail(cls + '-vartable', 'variables of %s are %r, expected %r' % (path, sorted(self.vt_of(uv)), sorted(self.expect_vt(ds))))
            allr = base + tail
            n = 0
            wide = len(allr[0].data) if allr else 0
            while True:
                over = n < len(allr) and len(allr[n].data) > wide
                try:
                    got = uv.read()
                except IOError as e:
                    if n < len(base) and not over:
                        self.fail(cls + '-lost', '%s ends after %d records of %d' % (path, n, len(base)))
                    if over and n < len(base):
                        self.fail(cls + '-wide', 'a record too long to be read was taken for the end')
                    break
                except Exception as e:
                    if over:
                        n += 1
                        if getattr(self, '_skipwide', True):
                            # the record cannot be read through this handle; the rest is not reached
                            break
                    if n < len(base) or not tail:
                        self.fail(cls + '-error', 'reading record %d of %d of %s: %s: %s' % (n, len(base), path, type(e).__name__, e))
                    break
                if n >= len(allr):
                    self.fail(cls + '-extra', '%s has more than the %d records written' % (path, len(allr)))
                d = same_rec(allr[n], got, False)
                if d:
                    self.fail(cls + '-data', 'record %d of %s: %s' % (n, path, d))
                for k, (typ, val) in sorted(allr[n].vars.items()):
                    if val == ANY:
                        continue
                    try:
                        g = uv[k]
                    except Exception as e:
                        self.fail(cls + '-variable', 'at record %d of %s, %s: %s: %s' % (n, path, k, type(e).__name__, e))
                    if canon_got(typ, g) != canon(typ, val):
                        self.fail(cls + '-variable', 'at record %d of %s, %s is %s, expected %s' % (n, path, k, short(g), short(val)))
                if exact and not getattr(ds, 'vtloose', False):
                    for k in sorted(ds.vt):
                        if k not in BUILTIN and not any(k in q.vars for q in allr[:n + 1]):
                            try:
                                g = uv[k]
                            except KeyError:
                                continue
                            self.fail(cls + '-variable', 'at record %d of %s, %s is %s, it has no value yet' % (n, path, k, short(g)))
                n += 1
                self.stats['final.records'] += 1
            for name in sorted(items):
                allowed = items[name]
                try:
                    got = uv._rdhd(name)
                except Exception as e:
                    if UNSET in allowed:
                        continue
                    self.fail(cls + '-item', 'item %s of %s: %s: %s' % (name, path, type(e).__name__, e))
                if not any(a != UNSET and self.same_item(name, got, a) for a in allowed):
                    self.fail(cls + '-item', 'item %s of %s reads %s, expected %s' % (name, path, short(got), short(allowed)))
            return n
        finally:
            del uv
            gc.collect(0)

    def slots(self):
        """How many data sets the engine can hold open at a time."""
        path = 'slotds'
        if not disk.exists((R + path).encode()):
            uv = self.miriad.UV(R + path, status='new')
            uv['history'] = 'x'
            uv.write((np.zeros(3), 1.0, (0, 1)), np.ma.zeros(2, dtype=np.complex64))
            del uv
        hs = []
        u = None
        try:
            for k in range(200):
                hs.append(self.miriad.UV(R + path))
        except Exception as e:
            e.__traceback__ = None
        n = len(hs)
        for u in hs:
            u.read()
        del hs, u
        gc.collect(0)
        if disk.nfds():
            self.fail('fd-leak', '%d descriptors are left open by a data set that could not be opened or was closed' % disk.nfds())
        return n

    def op_soak(self, n, ops):
        """The same few ops over and over."""
        live = []
        for _ in range(n):
            for o in ops:
                self.step(o)
            live.append((disk.L.sim_heap_live() - disk.L.sim_np_live(), disk.L.sim_np_live()))
        # what a call leaves behind adds up; the records of a data set which was written are the model's own arrays
        if n >= 20:
            a, b = live[n // 4], live[-1]
            k = n - n // 4 - 1
            self.stats['soaked'] += 1
            if b[0] - a[0] >= k * .5:
                self.fail('memory-leak', '%d blocks of memory are left behind by %d rounds of %s' % (b[0] - a[0], k, json.dumps(ops)[:300]))
            if b[1] - a[1] >= k * .5 and not any(o[0] == 'soak1' for o in ops):
                self.fail('memory-leak', '%d arrays are left behind by %d rounds of %s' % (b[1] - a[1], k, json.dumps(ops)[:300]))

    def op_soak1(self, h, f, more=()):
        """A data set is begun, goes wrong and is left behind; another name is used the next time."""
        self.nsoak = getattr(self, 'nsoak', 0) + 1
        path = 'soak%d' % self.nsoak
        for o in (['open', h, path, 'new', 'r'], ['setitem', h, 'history', 'h']) + tuple(more) + (f,
                  ['write', h, {'uvw': [1., 2., 3.], 't': 2450000.5, 'ij': [0, 1], 'd': ['rand', 3, self.nsoak], 'm': ['none', 1], 'api': 'ma', 'pf': 'd'}],
                  ['close', h], ['clearfaults']):
            self.step(o)

    def op_audit(self, path):
        """Read what a failed session left, and go on from there."""
        ds = self.ds.get(path)
        if ds is None or any(m.path == path for _, m in self.h.values()) or self.plan:
            return 'skip'
        n = self.audit(path, ds)
        if n == 'closed':
            ds.damaged = True
            return
        self.settle(path, ds, n)

    def settle(self, path, ds, n):
        """The n records just read are what the data set holds now."""
        if not ds.tail and not getattr(ds, 'maybe', False):
            return
        ds.vtloose = True
        if any(not len(q.data) <= len((ds.recs + ds.tail)[0].data) for q in ds.recs + ds.tail):
            ds.wide = True                               # the reading stopped at a record it has no room for
        ds.recs = (ds.recs + ds.tail)[:n]
        for q in ds.tail:
            for k, tv in q.vars.items():
                if ds.vstate.get(k) != tv:
                    ds.vstate[k] = (tv[0], ANY)
        for k in getattr(ds, 'failed_vars', {}):
            t = ds.failed_vars[k][0]
            ds.vstate[k] = (t, ANY)
        ds.tail = []
        ds.maybe = False
        uv = self.miriad.UV(R + path)
        ds.sure = True
        for name in list(ds.items):
            allowed = ds.items[name]
            if len(allowed) == 1 and allowed[0] != ANY:
                continue
            try:
                got = uv._rdhd(name)
            except Exception:
                ds.items[name] = [UNSET]
                continue
            ok = [a for a in allowed if a not in (UNSET, ANY) and self.same_item(name, got, a)]
            ds.items[name] = ok[:1] or [ANY]
        del uv

    # ---- crash points
    def snap(self):
        """What is durable and what is in flight, per data set, between two ops."""
        out = {}
        for path, ds in self.ds.items():
            pend, items, durable = [], {}, {k: list(v) for k, v in ds.items.items()}
            for _, m in self.h.values():
                if isinstance(m, W) and m.path == path:
                    pend = list(m.recs)
                    items = {k: list(v) for k, v in getattr(m, 'allitems', {}).items()}
                    for k, v in m.items.items():
                        items.setdefault(k, []).extend(v)
                    if m.recs or getattr(m, 'limbo', None):
                        items.setdefault('obstype', []).extend(self.OBS.values())
                elif isinstance(m, RH) and m.path == path:
                    for k, v in getattr(m, 'rhitems', {}).items():
                        durable[k] = list(v[0])
                        items[k] = [x for x in v[1:]]
            out[path] = (ds.recs, ds.sure, durable, pend, items)
        return out

    def crash_phase(self):
        """The process dies between or during any two disk writes; what a new one finds."""
        nj = disk.njournal()
        jl = disk.journal()
        disk.stash()
        marks = list(self.jmarks)
        snaps = self.snaps
        ds0 = dict(self.ds)
        self.unraisable = []
        hs = sorted(self.h)
        for h in hs:
            uv, m = self.h.pop(h)
            del uv
        gc.collect(0)
        pts = self.crash
        if pts == 'all':
            pts = []
            for k in range(nj + 1):
                pts.append((k, 0))
                if k < nj and jl[k][0] == 'write' and jl[k][2] > 1:
                    n = jl[k][2]
                    for t in sorted({1, n // 2, n - 1, (k * 7919) % n}):
                        if 0 < t < n:
                            pts.append((k, t))
            lim = self.cfg.get('maxcrash', 400)
            if len(pts) > lim:
                step = len(pts) / float(lim)
                off = self.cfg.get('crashoff', 0)
                pts = [pts[int(x * step + off % max(1, int(step))) % len(pts)] for x in range(lim)]
        for k, torn in pts:
            if k > nj:
                continue
            self.crash_one(k, torn, marks, snaps)
            self.stats['crashes'] += 1
            if torn:
                self.stats['crashes.torn'] += 1

    def crash_one(self, k, torn, marks, snaps):
        # the op in flight: the first whose end is at or past k (past k when a write is torn)
        i = 0
        while i < len(marks) and (marks[i] < k or (torn and marks[i] <= k)):
            i += 1
        before = snaps[i - 1] if i else {}
        after = snaps[i] if i < len(snaps) else before
        done = i < len(marks) and marks[i] == k and not torn
        disk.crash(k, torn)
        self.crash_at = '%d+%d' % (k, torn)
        for path in sorted(after):
            recs, sure, items, pend, pit = after[path]
            brecs, bsure, bitems, bpend, bpit = before.get(path, ([], False, {}, [], {}))
            if done:
                base, must = recs, sure
            else:
                base, must = brecs, bsure
            full = recs + pend
            tail = full[len(base):]
            allowed = {}
            for src in (bitems, items, bpit, pit):
                for n, v in src.items():
                    allowed.setdefault(n, [])
                    allowed[n] += [x for x in v if x not in allowed[n]]
            if not (must and base):
                for n in allowed:
                    allowed[n] = allowed[n] + [UNSET]
                    if self.miriad.itemtable[n] == 'a':
                        allowed[n] = allowed[n] + [Prefix(v) for v in allowed[n] if isinstance(v, str) and v not in (UNSET, ANY)]
                    else:
                        allowed[n] = [ANY] + allowed[n]
            else:
                for n in allowed:
                    if n not in (items if done else bitems) or UNSET in allowed[n]:
                        allowed[n] = allowed[n] + [UNSET, ANY]
            ds = DS()
            ds.recs, ds.tail = base, tail
            try:
                n = self.audit(path, ds, must_open=bool(must and base), items=allowed, cls='crash', vt=False)
            except Violation as v:
                v.msg += ' (crash after %d disk writes%s)' % (k, ', the next one torn at byte %d' % torn if torn else '')
                v.args = ('%s: %s' % (v.cls, v.msg),)
                v.crash = [k, torn]
                raise
            if n == 'closed':
                self.stats['crash.unopenable'] += 1
                continue
            if n > len(base):
                self.stats['crash.partial'] += 1
            if must and base and self.cfg.get('resume'):
                try:
                    self.resume(path, base, tail, n)
                except Violation as v:
                    v.msg += ' (crash after %d disk writes%s)' % (k, ', the next one torn at byte %d' % torn if torn else '')
                    v.args = ('%s: %s' % (v.cls, v.msg),)
                    v.crash = [k, torn]
                    raise
        if disk.nfds():
            self.fail('fd-leak', 'descriptors left open after recovery')

    def resume(self, path, base, tail, n):
        """After the crash the data set can be appended to again, and nothing closed before is lost."""
        def go():
            uv = self.miriad.UV(R + path, status='append')
            for q in new:
                uv.write((np.array(q.uvw), q.t, q.ij), np.ma.array(q.data, mask=~q.valid))
            del uv
        new = []
        for x in range(2):
            c = base[0]
            d = gen_data(['rand', len(c.data), 900 + x])
            m = gen_mask(['rand', 77 + x], len(d))
            new.append(Rec((5.0 + x, 6.0, 7.0), 2459000.5 + x, (1, 2 + x), d, ~m, {}, c.corr))
        self.unraisable = []
        try:
            go()
        except Exception as e:
            self.fail('crash-append', '%s cannot be appended to after the crash: %s: %s' % (path, type(e).__name__, e))
        gc.collect(0)
        if self.unraisable:
            self.fail('crash-append', 'appending to %s after the crash: %r' % (path, self.unraisable))
        ds = DS()
        err = None
        for k in range(len(tail), -1, -1):               # how much of the lost session survived is not promised
            ds.recs = base + tail[:k] + new
            try:
                self.audit(path, ds, must_open=True, items={}, cls='crash-resumed', vt=False)
                self.stats['crash.resumed'] += 1
                return
            except Violation as v:
                err = v
        raise err


class Prefix(object):
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'a prefix of %r' % self.s


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:150] + '...'
