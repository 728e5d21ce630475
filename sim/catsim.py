"""C21: source catalogue sessions.

One run is a session over the catalogues of aipy._src: files in the formats they come in are put into a scratch
directory, catalogues are asked for sources by name, by flux and whole, directly and through aipy.src and aipy.cal,
read again into instances of their own, in seeded order, while files are missing, cannot be opened or fail in the
middle of being read, and allocations fail.  Every source returned is compared with the entry it was written from."""
from __future__ import print_function
import hashlib, io, json, math, os, random, re, shutil, tempfile
import numpy as np
from aasim import Ctl, Fault, NP
from uvsim import Violation

# module: (file constants, class, columns in a line, ra, dec, name (None: ra_dec), flux, unit, GHz, index column)
TSV = {
    'nvss': (['NVSSFILE'], 'NVSSCatalog', 12, 3, 4, 2, 7, 1e-3, 1.40, None),
    'vlss': (['VLSSFILE'], 'VLSSCatalog', 9, 3, 4, 2, 5, 1., .074, None),
    'three_c': (['THREECFILE'], 'ThreeCCatalog', 11, 0, 1, 2, 9, 1., .159, None),
    'three_cr': (['THREECRFILE'], 'ThreeCRCatalog', 9, 0, 1, 2, 7, 1., .178, None),
    'four_c': (['FOURCFILE'], 'FourCCatalog', 7, 0, 1, 2, 5, 1., .178, None),
    'gbsix': (['GBSIXFILE'], 'GBSixCatalog', 20, 0, 1, 18, 8, 1e-3, 4.85, None),
    'parkes': (['PARKESFILE'], 'ParkesCatalog', 14, 0, 1, 11, 9, 1., 2.70, None),
    'seven_c': (['SEVENCFILE'], 'SevenCCatalog', 8, 0, 1, None, 5, 1., .151, None),
    'six_c': (['SIXCFILES'], 'SixCCatalog', 7, 0, 1, None, 4, 1., .151, None),
    'txs': (['TXSFILE'], 'TXSCatalog', 12, 0, 1, 2, 7, 1., .365, 10),
    'wenss': (['WENSSFILE'], 'WenssCatalog', 11, 4, 5, 2, 9, 1e-3, .330, None),
    'culgoora': (['CULGOORAFILE'], 'CulgooraCatalog', 11, 0, 1, 2, None, 1., None, None),
    'paper': (['PAPERFILE'], 'PAPERCatalog', 6, 1, 2, 3, 4, 1., .150, None),
    'mrt': (['MRTFILE'], 'MRTCatalog', None, None, None, None, None, 1., .150, None),
}
# the sources of aipy._src.misc as published: name, ra, dec, Jy, GHz, index, angular size
MISC = """Moon - - 0 .15 0 0;Mercury - - 0 .15 0 0;Venus - - 0 .15 0 0;Mars - - 0 .15 0 0;Jupiter - - 0 .15 0 0
Saturn - - 0 .15 0 0;Uranus - - 0 .15 0 0;Neptune - - 0 .15 0 0;Sun - - 57000 .15 2 4.6e-3
for 03:22:41.7 -37:12:30 170 .15 -.8 0;pic 05:19:49.7 -45:46:45 452 .16 -.8 0;hyd 09:18:05.7 -12:05:44 1860 .16 -2.3 0
cen 13:25:27.6 -43:01:09 5144 .15 -.65 0;her 16:51:08.15 4:59:33.3 300 .159 -1 .000669;sgr 17:45:40.0 -29:00:28 121 .16 -4.21 0
crab 05:34:32.0 +22:00:52 1838 .15 -.3 0;vir 12:30:49.4 +12:23:28 1446 .15 -.86 0;cyg 19:59:28.3 +40:44:02 10900 .15 -.69 0
cas 23:23:27.94 +58:48:42.4 9160 .15 -.73 0"""
ALL = sorted(TSV) + ['helm', 'misc']
GHZ = (.05, .074, .1, .15, .16, .178, .408, 1.4, 5.)


def sexa(s):
    neg = s.strip().startswith('-')
    v = [abs(float(x)) for x in re.split('[: ]+', s.strip())] + [0., 0.]
    v = v[0] + v[1] / 60. + v[2] / 3600.
    return -v if neg else v


class Src(object):
    """An entry of a catalogue as it should come out."""

    def __init__(self, name, ra, dec, jys, mfreq, index, shape=0., special=False):
        self.name, self.ra, self.dec, self.jys, self.mfreq, self.index, self.shape, self.special = name, ra, dec, jys, mfreq, index, shape, special

    def flux(self, ghz):
        x = np.asarray(ghz, float) / self.mfreq
        if isinstance(self.index, list):                     # Helmboldt: log S = A + B log x + C exp(D log x)
            b, c, d = (self.index + [0., 0., 0.])[:3]
            return 10 ** (math.log10(self.jys) + b * np.log10(x) + c * np.exp(d * np.log10(x)))
        return self.jys * x ** self.index


# ------------------------------------------------------------------------------ files
def coords(rng):
    sg = rng.choice('+-')
    return '%02d %02d %05.2f' % (rng.randrange(24), rng.randrange(60), rng.randrange(6000) / 100.), '%s%02d %02d %04.1f' % (sg, rng.randrange(90), rng.randrange(60), rng.randrange(600) / 10.)


def junk(rng, ncol):
    return [rng.choice(['', ' ', '1', '12.5', 'x', '-3', '0000', '<', 'B']) for _ in range(ncol)]


def flux(rng):
    return rng.choice(['%.2f', '%6.1f', '%.3f', ' %.2f ']) % (10 ** rng.uniform(-.5, 3))


def mk_file(rng, cat):
    """-> (text, [Src])"""
    n = rng.choice([0, 1, 2, 5, 12, 30])
    out, srcs = [], []
    if cat == 'mrt':
        out = ['MRT\n', '\n', 'Name RA DEC S\n', '-----\n']
        for i in range(n):
            ra, dec = [c.replace(' ', ':') for c in coords(rng)]
            s = flux(rng).strip()
            nm = 'MRT%d' % rng.randrange(40)
            out.append('  '.join([nm, ra, dec, s] + [x for x in junk(rng, rng.choice([0, 3])) if x.strip()]) + '\n')
            srcs.append(Src(nm, ra, dec, float(s), .15, 0.))
        return ''.join(out), srcs
    if cat == 'helm':
        return None, None
    files, cls, ncol, ra_, dec_, name_, jy_, unit, mfreq, ind_ = TSV[cat]
    for _ in range(rng.choice([0, 3, 8])):
        out.append(rng.choice(['#\n', '#   VizieR\n', '#Column\t_RAJ2000\t(A12)\tRight ascension\t1\t2\t3\n', '\n', '#1\t2\t3\t4\t5\t6\t7\t8\t9\t10\t11\t12\n']))
    out.append('\t'.join(['_RAJ2000', '_DEJ2000', 'Name'] + ['c%d' % i for i in range(ncol - 3)]) + '\n')
    out.append('\t'.join(['"h:m:s"', '"d:m:s"'] + [' ' for i in range(ncol - 2)]) + '\n')
    out.append('\t'.join(['-' * 10 for i in range(ncol)]) + '\n')
    for i in range(n):
        if rng.random() < .1:
            out.append(rng.choice(['\n', '1 2 3\n', '#0\t1\t2\t3\t4\t5\t6\t7\t8\t9\t10\t11\t12\t13\n']))
        ra, dec = coords(rng)
        row = junk(rng, ncol)
        row[0] = rng.choice(['%02d 00 00' % rng.randrange(24), '%d' % rng.randrange(400), '0.5'])
        if cat == 'paper':
            row[0] = rng.choice(['', ' ']) + '%d' % rng.randrange(400)
            ra, dec = ra.replace(' ', ':'), dec.replace(' ', ':')
        row[ra_], row[dec_] = ra, dec
        if name_ is None:
            nm = '%s_%s' % (ra.replace(' ', ':'), dec.replace(' ', ':'))
        else:
            nm = '%s%d' % (rng.choice(['J0', 'B1', 'x ']), rng.randrange(60))
            row[name_] = rng.choice(['', ' ', '  ']) + nm + rng.choice(['', ' '])
        ra, dec = ra.replace(' ', ':'), dec.replace(' ', ':')
        if cat == 'culgoora':
            row[6] = row[8] = ''
            k = rng.randrange(6)
            f160, f80, ind = flux(rng), flux(rng), '%.2f' % rng.uniform(-2, 1)
            if k == 0:
                row[7], row[9], row[10] = f160, f80, ind
                s = Src(nm, ra, dec, float(f160), .16, float(ind))
                if rng.random() < .4:   # limits do not matter once there is an index
                    row[rng.choice([6, 8])] = '<'
            elif k in (1, 2):           # one measurement
                row[7], row[9], row[10] = f160, '    ', ' '
                s = Src(nm, ra, dec, float(f160), .16, 0.)
            elif k == 3:
                row[7], row[9], row[10] = '', f80, ''
                s = Src(nm, ra, dec, float(f80), .08, 0.)
            else:                       # an upper limit in one of them
                row[7], row[9], row[10] = f160, f80, '     '
                row[6 if k == 4 else 8] = '<'
                s = Src(nm, ra, dec, float(f80), .08, 0.) if k == 4 else Src(nm, ra, dec, float(f160), .16, 0.)
            s.meta = [None if not row[9].strip() or (k == 5) else float(f80), None if not row[7].strip() or k == 4 else float(f160), float(ind) if k == 0 else None]
        else:
            f = flux(rng)
            row[jy_] = f
            ind = 0.
            if ind_ is not None:
                row[ind_] = rng.choice(['', '  ', '%.2f' % rng.uniform(-2, 1)])
                ind = float(row[ind_]) if row[ind_].strip() else 0.
            s = Src(nm, ra, dec, float(f) * unit, mfreq, ind)
            if cat == 'parkes' and rng.random() < .2:        # no measurement at this frequency: left out
                row[jy_], s = '     ', None
        out.append('\t'.join(row) + rng.choice(['\n', '\n', '\t\n']))
        if s:
            srcs.append(s)
    if rng.random() < .3:
        out.append('#END#\n')
    return ''.join(out), srcs


def mk_helm(rng):
    """The two files of the Helmboldt catalogue, in columns. -> (positions, fits, [Src])"""
    pos, fit, srcs = ['Title: x\n', '-' * 80 + '\n'], ['Title: y\n', '-' * 80 + '\n'], []
    names = []
    while len(names) < rng.choice([1, 2, 5, 12]):
        nm = 'J%04d%s%03d' % (rng.randrange(2400), rng.choice('+-'), rng.randrange(900))
        if nm not in names:
            names.append(nm)
    for nm in names:
        ra, dec = coords(rng)
        ra = '%s %s %04.1f' % (ra[:2], ra[3:5], float(ra[6:]) if float(ra[6:]) < 59.9 else 59.)
        nc = rng.randrange(1, 6)
        md = []
        for _ in range(rng.choice([1, 2, 4])):
            q = (rng.choice([74, 327, 1400, 4850]), rng.randrange(10000) / 100., rng.randrange(1000) / 100.)
            pos.append('%-9s %-22s %d %s %s %6d %8.2f %7.2f\n' % (nm, rng.choice(['', '3C 1', 'NGC 12 J1']), nc, ra, dec, q[0], q[1], q[2]))
            md.append((q[0] / 1e3, q[1], q[2]))
        f74, alp, ext = rng.randrange(5, 9000) / 10., -rng.randrange(10, 150) / 100., rng.randrange(5, 9000) / 10.
        line = '%-9s %2d %7.1f ' % (nm, rng.randrange(3, 40), f74)
        k = rng.randrange(4)
        rms = -1
        if k == 0:                      # no fit
            line += '%5.2f %6.1f' % (alp, ext)
            s = Src(nm, ra, dec, f74, .074, alp)
        elif k == 1:                    # not even a slope
            s = Src(nm, ra, dec, f74, .074, -99.)
        else:
            A, B, C, D = rng.randrange(50, 350) / 100., -rng.randrange(30, 180) / 100., -rng.randrange(5, 150) / 100., -rng.randrange(10, 2000) / 100.
            line += '%5.2f %6.1f %6.2f %6.2f ' % (alp, ext, A, B)
            ind = [B]
            if k == 3:
                line += '%6.2f %7.2f ' % (C, D)
                ind = [B, C, D]
            rms = rng.randrange(300) / 1000.
            line = '%-62s %7.3f ' % (line.rstrip(), rms)
            s = Src(nm, ra, dec, 10 ** A, .074, ind)
        s.rms, s.ncomp, s.md = rms, nc, md
        fit.append('%-70s\n' % line)
        srcs.append(s)
    return ''.join(pos), ''.join(fit), srcs


# ------------------------------------------------------------------------------ workload
def scenario(pid, seed, dry):
    rng = random.Random(seed * 7919 + 31)
    cats = rng.sample(ALL, rng.choice([1, 2, 3]))
    for c in ('misc', 'helm', 'six_c', 'culgoora'):
        if rng.random() < .25 and c not in cats:
            cats.append(c)
    cfg = {'cats': cats, 'seed': rng.randrange(10 ** 6), 'gone': [c for c in cats if c != 'misc' and rng.random() < .25], 'realhelm': rng.random() < .1}
    ops, n, faults = [], rng.choice([4, 8, 16, 24]), rng.random() < .6
    while len(ops) < n:
        o = gen_op(rng, cats)
        if faults and rng.random() < .35 and o[0] not in ('restore',):
            ops.append(['fault', rng.choice(['open', 'read', 'read', 'read', 'numpy']), rng.choice([0, 0, 0, 1, 2, 3, 5]), o])
        else:
            ops.append(o)
    return {'seed': seed, 'profile': pid, 'cfg': cfg, 'ops': ops}


def gen_q(rng):
    k = rng.random()
    if k < .25:
        return {'how': 'all'}
    if k < .65:
        return {'how': 'names', 'seed': rng.randrange(10 ** 6), 'n': rng.choice([0, 1, 2, 5]), 'as': rng.choice(['list', 'list', 'tuple']), 'own': rng.choice([0, 0, 1, 2])}
    if rng.random() < .3:
        return {'how': 'cut', 'jy': 1., 'ghz': rng.choice(GHZ), 'pick': rng.randrange(10 ** 6)}
    return {'how': 'cut', 'jy': rng.choice([0., round(10 ** rng.uniform(-1, 3.5), 3), -1.]), 'ghz': rng.choice(GHZ)}


def gen_op(rng, cats):
    c = rng.choice(cats)
    k = rng.random()
    if k < .3:
        return ['srcs', c, gen_q(rng)]
    if k < .6:
        return ['catalog', rng.choice(['src', 'src', 'cal', 'cal?']), [rng.choice(cats + ['nosuch']) for _ in range(rng.choice([0, 1, 2, 3]))], gen_q(rng)]
    if k < .72:
        return ['own', c, rng.randrange(3), rng.random() < .4]
    if k < .8:
        return ['meta', rng.choice(['culgoora', 'helm'])]
    if k < .9:
        return ['compute', rng.choice(cats), rng.randrange(10 ** 6)]
    return ['restore', c]


# ------------------------------------------------------------------------------ files which fail
class Raw(io.RawIOBase):
    def __init__(self, b, left):
        self.b, self.p, self.left = b, 0, left

    def readable(self):
        return True

    def readinto(self, buf):
        if self.left <= 0:
            raise OSError(5, 'Input/output error')
        k = min(len(buf), len(self.b) - self.p, self.left)
        buf[:k] = self.b[self.p:self.p + k]
        self.p += k
        self.left -= k
        return k


class Disk(object):
    """What open() does in the modules of aipy._src."""

    def __init__(self):
        self.plan = None
        self.fired = False

    def __call__(self, path, *a, **k):
        if self.plan:
            how, n = self.plan
            if n > 0:
                self.plan = (how, n - 1)
            else:
                self.plan = None
                if how == 'open':
                    self.fired = True
                    raise OSError(24, 'Too many open files')
                b = open(path, 'rb').read()
                self.fired = True
                return io.TextIOWrapper(io.BufferedReader(Raw(b, len(b) // 2), 64), encoding='utf-8')
        return open(path, *a, **k)


# ------------------------------------------------------------------------------ run
class Run(object):
    def __init__(self, scn, aipy):
        self.scn, self.cfg, self.aipy = scn, scn['cfg'], aipy
        self.i, self.log, self.sig, self.stats = 0, [], [], {}
        self.dir = tempfile.mkdtemp(prefix='catsim')
        self.disk, self.ctl = Disk(), Ctl()
        self.truth, self.present, self.texts, self.inst = {}, {}, {}, {}
        import aipy._src as S
        self.S = S
        for m in ALL:
            mod = getattr(S, m)
            mod.open = self.disk
            if getattr(mod, 'np', None) is np:
                mod.np = NP(self.ctl)
        aipy.amp.np = NP(self.ctl)
        rng = random.Random(self.cfg['seed'])
        self.extra, self.gone = {}, {}
        for c in self.cfg['cats']:
            self.setup(c, rng)

    def setup(self, c, rng):
        mod = getattr(self.S, c)
        if c == 'misc':
            t = []
            for l in MISC.replace('\n', ';').split(';'):
                nm, ra, dec, jy, f, ind, sh = l.split()
                t.append(Src(nm, ra, dec, float(jy), float(f), float(ind), float(sh), ra == '-'))
            self.truth[c], self.present[c] = self.table(t), True
            return
        if c == 'helm':
            if self.cfg['realhelm']:
                t = real_helm(mod.POSFILE, mod.FITFILE)
            else:
                pos, fit, t = mk_helm(rng)
                mod.POSFILE, mod.FITFILE = self.put(c, 0, pos), self.put(c, 1, fit)
            self.texts[c] = [mod.POSFILE, mod.FITFILE]
        elif c == 'six_c':
            t, fs = [], []
            for i in range(6):
                txt, s = mk_file(rng, c)
                fs.append(self.put(c, i, txt))
                t += s
            mod.SIXCFILES = self.texts[c] = fs
        else:
            txt, t = mk_file(rng, c)
            f = self.put(c, 0, txt)
            setattr(mod, (TSV[c][0] if c in TSV else ['MRTFILE'])[0], f)
            self.texts[c] = [f]
        self.truth[c] = self.table(t)
        self.extra[c] = []
        for v in range(2):                                 # other files of this format
            if c == 'helm':
                pos, fit, t2 = mk_helm(rng)
                self.extra[c].append(([self.put(c, 'p%d' % v, pos), self.put(c, 'f%d' % v, fit)], t2))
            else:
                txt, t2 = mk_file(rng, c)
                self.extra[c].append(([self.put(c, 'x%d' % v, txt)], t2))
        self.present[c] = True
        if c in self.cfg['gone'] and not (c == 'helm' and self.cfg['realhelm']):
            f = rng.choice(self.texts[c])
            os.rename(f, f + '.away')
            self.gone[c] = f
            self.present[c] = False

    def table(self, t):
        d = {}
        for s in t:
            d[s.name] = s                                  # the last one of a name is the one
        return d

    def put(self, c, i, txt):
        p = os.path.join(self.dir, '%s_%s.txt' % (c, i))
        with open(p, 'w') as f:
            f.write(txt)
        return p

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def st(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def run(self):
        try:
            for self.i, o in enumerate(self.scn['ops']):
                self.step(o)
            return self.result()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def result(self, **kw):
        d = {'stats': self.stats, 'sig': self.sig, 'nevents': len(self.log), 'log': hashlib.sha1(json.dumps(self.log).encode()).hexdigest(), 'disk': '0'}
        d.update(kw)
        return d

    def step(self, o):
        how = None
        if o[0] == 'fault':
            how, k, o = o[1:]
        r = getattr(self, 'op_' + o[0])(*o[1:])
        if r is None:
            self.sig.append(o[0] + ':skip')
            return
        act, check, needs = r
        missing = [c for c in needs if not self.present[c]]
        fired = False
        if how:
            self.disk.fired = False
            if how == 'numpy':
                self.ctl.arm(k + 1)
            else:
                self.disk.plan = (how, k)
            err = None
            try:
                v = act()
            except (OSError, MemoryError) as e:
                err = e
            except Exception as e:
                self.fail('raised', 'op %d: %s raised %s: %s' % (self.i, o[0], type(e).__name__, str(e)[:200]))
            finally:
                self.disk.plan = None
                fired = self.ctl.disarm() if how == 'numpy' else self.disk.fired
            if fired:
                self.st('fault.' + how)
            if err is None:
                if missing:
                    self.fail('no-error', 'op %d: %s succeeded although a file of %s is missing' % (self.i, o[0], missing))
                if not fired:
                    check(v)                               # once asked, or nothing of it was read
                else:
                    self.fail('swallowed', 'op %d: %s succeeded although a file could not be read' % (self.i, o[0]))
                self.done(o, fired)
                return
            if not fired and not missing:
                self.fail('raised', 'op %d: %s raised %s: %s' % (self.i, o[0], type(err).__name__, err))
        if missing:
            try:
                act()
            except OSError:
                self.done(o, fired, 'missing')
                return
            except Exception as e:
                self.fail('raised', 'op %d: %s raised %s: %s' % (self.i, o[0], type(e).__name__, str(e)[:200]))
            self.fail('no-error', 'op %d: %s succeeded although a file of %s is missing' % (self.i, o[0], missing))
        try:
            v = act()
        except Exception as e:
            self.fail('raised', 'op %d: %s raised %s: %s' % (self.i, o[0], type(e).__name__, str(e)[:200]))
        check(v)
        self.done(o, fired)

    def done(self, o, fired, how='ok'):
        self.st('op.' + o[0])
        self.sig.append('%s:%s%s' % (o[0], how, '!' if fired else ''))
        self.log.append([o[0], how, fired])

    # -------------------------------------------------------------------- checks
    def src(self, s, t, where):
        """One source against its entry."""
        bad = lambda what, a, b: self.fail('wrong-source', 'op %d: %s: %s of %s is %r, listed as %r' % (self.i, where, what, t.name, a, b))
        if s.src_name != t.name:
            bad('name', s.src_name, t.name)
        close = lambda a, b: abs(a - b) <= 1e-9 * abs(b) + 1e-12
        if not t.special:
            ra, dec = math.radians(sexa(t.ra) * 15), math.radians(sexa(t.dec))
            if not close(float(s._ra), ra):
                bad('ra', float(s._ra), ra)
            if not close(float(s._dec), dec):
                bad('dec', float(s._dec), dec)
        if not close(s._jys, t.jys):
            bad('flux', s._jys, t.jys)
        if not close(s.mfreq, t.mfreq):
            bad('frequency', s.mfreq, t.mfreq)
        a, b = np.atleast_1d(np.asarray(s.index, float)), np.atleast_1d(np.asarray(t.index, float))
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12):
            bad('index', s.index, t.index)
        sh = [float(x) for x in s.srcshape]
        if sh != [t.shape, t.shape, 0.]:
            bad('shape', sh, t.shape)
        if [float(x) for x in s.ionref] != [0., 0.]:
            bad('offset', s.ionref, 0)
        try:
            p = s.get_params()
        except Exception as e:
            self.fail('raised', 'op %d: %s: get_params() of %s raised %s: %s' % (self.i, where, t.name, type(e).__name__, e))
        if not close(p['jys'], t.jys) or not np.allclose(np.atleast_1d(p['index']), b, rtol=1e-9, atol=1e-12) or not t.special and not close(p['ra'], ra):
            bad('parameters', p, (t.jys, t.index))

    def listing(self, got, want, where, ordered):
        """Names of what was returned against those wanted."""
        names = [s.src_name for s in got]
        if (names != want) if ordered else (sorted(names) != sorted(want)):
            miss, more = sorted(set(want) - set(names)), sorted(set(names) - set(want))
            self.fail('wrong-sources', 'op %d: %s gives %d sources, expected %d (missing %s, not asked for %s)' % (self.i, where, len(names), len(want), miss[:3], more[:3]))

    def query(self, q, cats):
        """-> (srcs, cutoff, names wanted in this catalogue: f(cat) or None if a rounding decides, own sources)"""
        if q['how'] == 'all':
            return None, None, lambda c: list(self.truth[c]), []
        if q['how'] == 'cut':
            if q.get('pick') is not None:              # a cut at the very flux of a source
                fl = [float(t.flux(q['ghz'])) for c in cats if c in self.truth for t in self.truth[c].values()]
                if fl:
                    q = dict(q, jy=fl[q['pick'] % len(fl)])

            def f(c):
                out = []
                with np.errstate(all='ignore'):
                    for n, t in self.truth[c].items():
                        fl = float(t.flux(q['ghz']))
                        if abs(fl - q['jy']) <= 1e-9 * abs(fl) and (fl != q['jy'] or c in ('nvss', 'gbsix', 'wenss') or isinstance(t.index, list) or t.index != 0 and q['ghz'] != t.mfreq):
                            return None
                        if fl > q['jy']:
                            out.append(n)
                return out
            return None, (q['jy'], q['ghz']), f, []
        rng = random.Random(q['seed'])
        pool = [n for c in cats if c in self.truth for n in list(self.truth[c])[:40]] + ['nobody', 'J9999+999']
        names = [rng.choice(pool) for _ in range(q['n'])]
        own = []
        for i in range(q['own']):
            own.append(self.aipy.fit.RadioFixedBody('1:00', '2:00', name=rng.choice(['mine%d' % i, rng.choice(pool)]), jys=3. + i, index=-1., mfreq=.2))
        srcs = names + own
        return (tuple if q['as'] == 'tuple' else list)(srcs), None, lambda c: [n for n in names if n in self.truth[c]], own

    def op_srcs(self, c, q):
        srcs, cut, want, own = self.query(q, [c])
        mod = getattr(self.S, c)
        keep = None if srcs is None else list(srcs)

        def check(v):
            w = want(c)
            if srcs is not None and list(srcs) != keep:
                self.fail('argument', 'op %d: get_srcs changed the list it was given' % self.i)
            if w is not None:
                self.listing(v, w, 'get_srcs of %s' % c, q['how'] == 'names')
            for s in v:
                if s.src_name not in self.truth[c]:
                    self.fail('wrong-sources', 'op %d: %s has no source %s' % (self.i, c, s.src_name))
                self.src(s, self.truth[c][s.src_name], 'get_srcs of ' + c)
            if cut:
                for s in v:
                    f = float(self.truth[c][s.src_name].flux(cut[1]))
                    if not np.allclose(s.jys, f, rtol=1e-9):
                        self.fail('wrong-flux', 'op %d: %s of %s is %r Jy at %g GHz, expected %r' % (self.i, s.src_name, c, s.jys, cut[1], f))
        return (lambda: mod.get_srcs(srcs=srcs, cutoff=cut)), check, [c]

    def op_catalog(self, via, cats, q):
        cats = [c for i, c in enumerate(cats) if c not in cats[:i]]
        srcs, cut, want, own = self.query(q, cats)
        real = [c for c in cats if c in self.truth]
        kw = {'srcs': srcs, 'cutoff': cut, 'catalogs': list(cats)}

        def act():
            if via == 'src':
                return self.aipy.src.get_catalog(**kw)
            return self.aipy.cal.get_catalog(None if via == 'cal' else 'no_such_calibration', **kw)

        def check(v):
            exp = {}
            for c in real:
                w = want(c)
                if w is None:
                    exp = None
                    break
                for n in w:
                    exp[n] = self.truth[c][n]
            for s in own:
                if exp is not None:
                    exp[s.src_name] = s
            if kw['catalogs'] != cats:
                self.fail('argument', 'op %d: get_catalog changed the list of catalogues' % self.i)
            if type(v) is not self.aipy.fit.SrcCatalog:
                self.fail('wrong-type', 'op %d: get_catalog returned %s' % (self.i, type(v)))
            for n in v:
                if v[n].src_name != n:
                    self.fail('wrong-source', 'op %d: %s is under the name %s' % (self.i, v[n].src_name, n))
            if exp is not None:
                self.listing(list(v.values()), list(exp), 'get_catalog', False)
                for n, t in exp.items():
                    if isinstance(t, Src):
                        self.src(v[n], t, 'get_catalog')
                    elif v[n] is not t:
                        self.fail('wrong-source', 'op %d: the source %s which was handed in is not the one in the catalogue' % (self.i, n))
        return act, check, real

    def op_own(self, c, v, again):
        """A catalogue of one's own read from a file (or a second one into the same)."""
        if c == 'misc':
            return None
        mod = getattr(self.S, c)
        key = c
        files, t = (self.texts[c], list(self.truth[c].values())) if v == 2 else self.extra[c][v]
        if not again or key not in self.inst:
            inst, tab = getattr(mod, 'HelmboldtCatalog' if c == 'helm' else TSV[c][1] if c in TSV else 'MRTCatalog')(), {}
        else:
            inst, tab = self.inst[key]
        before = dict(tab)

        def act():
            if c == 'helm':
                inst.fromfile(*files)
            else:
                try:
                    for f in files:
                        inst.fromfile(f)
                except Exception:
                    if len(files) > 1:                     # the first of the files may be in it already
                        self.inst.pop(key, None)
                    raise
            return inst

        def check(x):
            for s in t:
                before[s.name] = s
            self.listing(list(x.values()), list(before), 'fromfile of ' + c, False)
            for n in x:
                self.src(x[n], before[n], 'fromfile of ' + c)
            self.inst[key] = (inst, before)
        return act, check, [c] if v == 2 else []

    def op_meta(self, c):
        """What is told about the measurements: of every source read, as listed in a file it was read from."""
        if c not in self.truth:
            return None
        mod = getattr(self.S, c)
        cls = mod.HelmboldtCatalog if c == 'helm' else mod.CulgooraCatalog

        def act():
            x = cls()
            x.fromfile(*(self.texts[c]))
            return x

        def check(x):
            md = x.get_metadata()
            for n, t in self.truth[c].items():
                if n not in md:
                    self.fail('metadata', 'op %d: no metadata of %s' % (self.i, n))
                if c == 'culgoora':
                    if list(md[n]) != t.meta:
                        self.fail('metadata', 'op %d: metadata of %s is %r, listed as %r' % (self.i, n, md[n], t.meta))
                else:
                    if [tuple(m) for m in md[n]] != t.md:
                        self.fail('metadata', 'op %d: metadata of %s is %r, listed as %r' % (self.i, n, md[n], t.md))
                    if x.get_rms()[n] != t.rms or x.get_ncomp()[n] != t.ncomp:
                        self.fail('metadata', 'op %d: rms, components of %s are %r, %r, listed as %r, %r' % (self.i, n, x.get_rms()[n], x.get_ncomp()[n], t.rms, t.ncomp))
        return act, check, [c]

    def op_compute(self, c, seed):
        """A whole catalogue at a time and place: fluxes in its channels."""
        a = self.aipy
        rng = random.Random(seed)
        freqs = np.array(sorted(rng.uniform(.05, 1.5) for _ in range(rng.choice([1, 2, 5]))))
        mod = getattr(self.S, c)

        def act():
            cat = a.src.get_catalog(catalogs=[c])
            aa = a.amp.AntennaArray((.1, .2), [a.amp.Antenna(0, 0, 0, a.amp.Beam(freqs))])
            aa.set_jultime(2455000.5 + rng.random())
            cat.compute(aa)
            return cat, (cat.get_jys() if len(cat) else None), cat.get('mfreq')

        def check(v):
            cat, j, mf = v
            self.listing(list(cat.values()), list(self.truth[c]), 'get_catalog', False)
            for k, n in enumerate(cat):
                with np.errstate(all='ignore'):
                    w = self.truth[c][n].flux(freqs)
                if np.shape(j[k]) != w.shape or not np.allclose(j[k], w, rtol=1e-9, equal_nan=True) or mf[k] != self.truth[c][n].mfreq:
                    self.fail('wrong-flux', 'op %d: %s of %s is %r Jy at %s GHz, expected %r' % (self.i, n, c, j[k], freqs, w))
        return act, check, [c]

    def op_restore(self, c):
        g = self.gone.pop(c, None)
        if g is None:
            return None

        def act():
            os.rename(g + '.away', g)
            self.present[c] = True
        return act, lambda v: None, []


def real_helm(posf, fitf):
    """The files which come with aipy, by the byte positions their headers give."""
    num = lambda s: float(s) if s.strip() else None
    pos, out = {}, []
    for l in open(posf):
        if l[0] != 'J':
            continue
        p = pos.setdefault(l[:9], [None, None, int(l[33:34]), []])
        p[0], p[1] = ' '.join([l[35:37], l[38:40], l[41:45]]), l[46:47] + ' '.join([l[47:49], l[50:52], l[53:57]])
        p[3].append((int(l[58:64]) / 1e3, float(l[65:73]), float(l[74:81])))
    for l in open(fitf):
        if l[0] != 'J':
            continue
        l = l.rstrip('\n').ljust(72)
        f74, alp, A, B, C, D, rms = [num(l[a:b]) for a, b in ((13, 20), (21, 26), (34, 40), (41, 47), (48, 54), (55, 62), (63, 70))]
        nm = l[:9]
        if A is None or A == -99.:
            s = Src(nm, pos[nm][0], pos[nm][1], f74, .074, -99. if alp is None else alp)
        else:
            s = Src(nm, pos[nm][0], pos[nm][1], 10 ** A, .074, [x for x in (B, C, D) if x is not None])
        s.rms, s.ncomp, s.md = -1 if rms is None else rms, pos[nm][2], pos[nm][3]
        out.append(s)
    return out


def run(aipy, scn, log=False):
    r = None
    try:
        with np.errstate(all='ignore'):
            r = Run(scn, aipy)
            return r.run()
    except Violation as v:
        return r.result(violation=v.cls, msg=v.msg, op=r.i)
