"""Scenarios from a seed: actors (writers, appenders, readers, cloners) are Python generators of ops,
and a seeded scheduler decides at every step whose op comes next."""
from __future__ import print_function
import errno, math, random
import disk

ITEMS_NUM = ['ngains', 'nfeeds', 'ntau', 'nsols', 'interval', 'leakage', 'freq0', 'bandpass', 'nspect0', 'nchan0', 'stopt', 'duration']
ITYPE = {'ngains': 'i', 'nfeeds': 'i', 'ntau': 'i', 'nsols': 'i', 'interval': 'd', 'leakage': 'c', 'freq0': 'd', 'bandpass': 'c',
         'nspect0': 'i', 'nchan0': 'i', 'stopt': 'd', 'duration': 'd', 'history': 'a', 'obstype': 'a', 'freqs': '?'}
VNAMES = ['alpha', 'beta', 'gain', 'telescop', 'source', 'v1', 'v2', 'v3', 'antpos', 'bandw', 'phase', 'note', 'q', 'epoch', 'flag8chr', 'jj', 'zc']
TEXTS = ['', 'a', 'zenith', 'Cyg A', 'line one\nline two\n', 'tab\there', 'x' * 63, 'y' * 64, 'z' * 65, 'd\xe9j\xe0 vu', '\u03b1\u03b2', 'nul\0inside', 'end\0', ' lead', 'trail ']


class G(object):
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.np, self.paths = 0, []
        self.nh = 0
        self.info = {}          # path -> {'ready', 'writer', 'readers', 'vars', 'n', 'ants', ...}
        self.serial = 0

    # -- values
    def text(self, big=False):
        r = self.r
        if big and r.random() < 0.3:
            return ''.join(r.choice('abcdefghij klm\n') for _ in range(r.choice([500, 4000, 16383, 16384, 16385, 20000])))
        if r.random() < 0.5:
            return r.choice(TEXTS)
        return ''.join(r.choice('abcdef XYZ_09-') for _ in range(r.randint(1, 40)))

    def fl(self):
        r = self.r
        k = r.random()
        if k < 0.1:
            return r.choice([0.0, -0.0, 1.0, -1.0, float('inf'), float('nan'), 1e300, 1e-300])
        if k < 0.5:
            return r.uniform(-10, 10)
        return r.uniform(-1, 1) * 10 ** r.randint(-12, 12)

    def f32(self):
        x = self.fl()
        return x if x != x or abs(x) < 3e38 else 7.25

    def val(self, t):
        r = self.r
        n = r.choice([None, None, None, None, 1, 2, 3, 5, 8, 13] + ([40, 300] if r.random() < 0.2 else []))
        if t == 'a':
            v = self.text()
            if self.p.get('bigvar') and r.random() < 0.1:
                v = 'k' * r.choice([1000, 16000, 32000])
            return v
        def one():
            if t == 'i':
                return r.choice([0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, r.randint(-10 ** 6, 10 ** 6)])
            if t == 'j':
                return r.choice([0, 1, -1, 32767, -32768, r.randint(-30000, 30000)])
            if t == 'r':
                return self.f32()
            if t == 'd':
                return self.fl()
            return [self.f32(), self.f32()]
        return one() if n is None else [one() for _ in range(n)]

    def form(self):
        return self.r.choice(['np', 'np', 'np', 'strided', 'rev', 'i64', 'npscalar', 'swap'])

    def item_val(self, name):
        t = ITYPE[name]
        r = self.r
        if name == 'history':
            return self.text(big=True)
        if t == 'a':
            return self.text()
        if t == '?':
            n = r.randint(1, 4)
            out = [n]
            for _ in range(n):
                out += [r.randint(1, 64), r.uniform(0.1, 0.3), r.uniform(-1e-3, 1e-3)]
            return out
        n = r.choice([1, 1, 2, 3, 7, 8, 9, 20, 200 if r.random() < 0.1 else 4])
        if r.random() < 0.04:
            n = 0
        if t == 'i':
            return [r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-1000, 1000)]) for _ in range(n)]
        if t == 'd':
            return [r.uniform(-1e6, 1e6) for _ in range(n)]
        return [[float(r.randint(-999, 999)) / 8, float(r.randint(-999, 999)) / 8] for _ in range(n)]

    def nchan(self):
        r = self.r
        if self.p.get('small'):
            return r.choice([1, 2, 3, 4, 7, 16])
        k = r.random()
        if k < 0.6:
            return r.choice([1, 2, 3, 4, 5, 8, 13])
        if k < 0.9:
            return r.choice([30, 31, 32, 33, 61, 62, 63, 64, 93, 100, 128])
        return r.choice([1024, 1023, 2047, 2048, 3967, 3968, 3969, 4096, 1025])

    # -- records
    def ants(self):
        r = self.r
        k = r.random()
        if k < 0.7:
            n = r.choice([2, 3, 4, 8, 32])
            a = list(range(n))
        else:
            a = r.sample([0, 1, 2, 254, 255, 256, 257, 300, 1000, 2000, 2046], 4)
        return a

    def rec(self, st):
        r = self.r
        self.serial += 1
        if r.random() < 0.4 or st.get('t') is None:
            st['t'] = (st.get('t') or 2450000.0 + r.randint(0, 9000) + r.random()) + r.choice([0.001, 1.0 / 86400, 0.5, 1.0])
            ts = st.setdefault('ts', [])
            if self.p.get('unordered') and ts and r.random() < 0.3:
                st['t'] = r.choice(ts)                     # sorted some other way than by time
            elif len(ts) > 1 and not self.p.get('sel') and r.random() < 0.1:
                st['t'] = math.nextafter(ts[-1], r.choice([-math.inf, math.inf]))     # as close as times can be
            ts.append(st['t'])
        i, j = r.choice(st['ants']), r.choice(st['ants'])
        if i > j and not (self.p.get('unordered') and r.random() < 0.5):
            i, j = j, i
        if r.random() < 0.2 and st.get('uvw'):
            uvw = st['uvw']
        else:
            uvw = [round(r.uniform(-500, 500), r.choice([0, 3, 9])) for _ in range(3)]
            if r.random() < 0.05:
                uvw = [0.0, 0.0, 0.0]
            if r.random() < 0.2 and st.get('uvw'):
                k = r.randint(0, 2)                        # one of the three alone is another
                uvw = [x if q == k else y for q, (x, y) in enumerate(zip(uvw, st['uvw']))]
        st['uvw'] = uvw
        kinds = ['rand', 'rand', 'ramp', 'const', 'zero', 'wide'] + (['nonfin'] if st['corr'] == 'r' and self.p.get('nonfin', True) else [])
        if st['corr'] == 'j':
            kinds = ['rand', 'ramp', 'const', 'zero']
        n = st['nchan']
        if self.p.get('varchan') and r.random() < 0.15:
            n = r.choice([n, max(1, n - 1), max(1, n // 2), n])
            if self.p.get('wide') and r.random() < 0.2:
                n = n + r.randint(1, 5)
        api = r.choice(['ma', 'ma', 'ma', 'ma128', 'nomask', 'plain', 'flags', 'flagsi', 'raw', 'strided'])
        return {'uvw': uvw, 't': st['t'], 'ij': [i, j], 'd': [r.choice(kinds), n, self.serial * 37 + r.randint(0, 999)],
                'm': [r.choice(['rand', 'rand', 'none', 'all', 'alt', 'runs']), r.randint(0, 10 ** 6)], 'api': api,
                'pf': 'strided' if r.random() < 0.1 else 'd'}

    def newpath(self):
        self.np += 1
        n = 'd%d' % self.np
        if self.r.random() < .06:       # names of any length and letters
            n += self.r.choice(['e', '\xe9', '\u4e2d', '\u0100', ' ', '.']) * self.r.choice([1, 2, 7, 30, 80])
            if self.r.random() < .1:
                n = n[:1] * self.r.choice([120, 150, 250]) + n
        while len(n.encode()) > 240:
            n = n[:-1]
        while n in self.paths:
            n += 'x'
        self.paths.append(n)
        return n

    def newh(self):
        self.nh += 1
        return 'h%d' % self.nh

    # -- actors
    def pick_vars(self, n):
        r = self.r
        names = r.sample(VNAMES, min(n, len(VNAMES)))
        if n > len(VNAMES):
            names += ['x%d' % k for k in range(n - len(VNAMES))]
        return {k: r.choice('airdcj') for k in names}

    def writer(self, sel=False, rf=False):
        r, p = self.r, self.p
        path, h = self.newpath(), self.newh()
        corr = 'j' if r.random() < p.get('pj', 0.15) else 'r'
        st = {'corr': corr, 'nchan': self.nchan(), 'ants': self.ants()}
        info = self.info[path] = {'writer': True, 'readers': 0, 'ready': False, 'vars': {}, 'n': 0, 'st': st, 'items': ['history'], 'corr': corr}
        if sel:
            st['ants'] = r.choice([[0, 1, 2], [0, 1, 2, 3, 4], [0, 2, 5, 254, 255, 300], [1, 3]])
        yield ['open', h, path, 'new', corr]
        yield ['setitem', h, 'history', self.item_val('history') or 'h']
        for _ in range(r.choice(p.get('nitems', [0, 0, 1, 2]))):
            nm = r.choice(ITEMS_NUM + ['obstype', 'freqs', 'history'])
            info['items'].append(nm)
            yield ['setitem', h, nm, self.item_val(nm)]
        for nm, t in self.pick_vars(r.choice(p.get('nvars', [0, 1, 2, 3, 5]))).items():
            info['vars'][nm] = t
            yield ['addvar', h, nm, t]
        late = {}
        if sel:
            for nm, t in (('pol', 'i'), ('on', 'i'), ('ra', r.choice('rd')), ('dec', r.choice('rd')), ('lst', 'd')):
                if nm == 'pol' or r.random() < 0.6:
                    info['vars'][nm] = t
                    yield ['addvar', h, nm, t]
                    yield ['setvar', h, nm, self.selval(nm)]
            for x in self.selmore(h, info, st):
                yield x
        if r.random() < p.get('setnchan', 0.5):
            yield ['addvar', h, 'nchan', 'i']
            yield ['setvar', h, 'nchan', st['nchan']]
        for x in self.session(h, info, st, sel):
            yield x
        yield ['close', h]
        info['writer'], info['ready'] = False, True

    # -- observations which are read with read_files
    def survey(self, path=None):
        """A stretch of an observation: integrations of every baseline and polarization, with gaps."""
        r = self.r
        sv = getattr(self, 'sv', None)
        if sv is None:
            na = r.choice([2, 3, 4, 5])
            sv = self.sv = {'nchan': r.choice([1, 2, 5, 16, 32]), 'ants': r.choice([list(range(na))] * 4 + [[0, 2, 3]] * 3 + [[1, 254, 255, 256], [0, 5, 300]]),
                            'pols': r.choice([[-5], [-5, -6], [-5, -6, -7, -8], [1], [-5, 1]]), 't': 2455000. + r.randint(0, 999) + round(r.random(), 6), 'dt': r.choice([1e-4, .001, .25]), 'lst': r.uniform(0, 6)}
        h = self.newh()
        new = path is None
        if new:
            path = self.newpath()
            self.info[path] = {'writer': True, 'readers': 0, 'ready': False, 'vars': {}, 'n': 0, 'st': {'corr': r.choice('rrrj'), 'nchan': sv['nchan'], 'ants': sv['ants']}, 'items': ['history'], 'survey': True}
            self.info[path]['corr'] = self.info[path]['st']['corr']
        info = self.info[path]
        info['writer'], info['ready'] = True, False
        yield ['open', h, path, 'new' if new else 'append', info['corr']]
        if new:
            yield ['setitem', h, 'history', 'survey']
        for nm, t in (('nants', 'i'), ('sdf', 'd'), ('sfreq', 'd'), ('inttime', 'r'), ('lst', 'd'), ('pol', 'i')):
            yield ['addvar', h, nm, t]
            info['vars'][nm] = t
        if new:
            info['setup'] = [['nants', max(sv['ants']) + 1], ['sdf', r.choice([1e-3, 2e-3, 1e-4])], ['sfreq', r.choice([.1, .15])], ['inttime', float(r.choice([1, 10, 14.5]))]]
            for nm, v in info['setup']:
                yield ['setvar', h, nm, v, 'np']
        gap = r.random() < .5
        bls = [(i, j) for i in sv['ants'] for j in sv['ants'] if i <= j]
        if r.random() < .3:
            r.shuffle(bls)
        if r.random() < .15:
            sv['t'] -= sv['dt']                            # the file before ended in this integration
        lastpol = None
        for _ in range(r.choice([1, 2, 3, 4])):
            sv['t'] += sv['dt']
            sv['lst'] = (sv['lst'] + sv['dt'] * 6.3) % 6.283
            yield ['setvar', h, 'lst', sv['lst'], 'np']
            for i, j in bls:
                for pol in sv['pols']:
                    if gap and r.random() < .3:
                        continue
                    if pol != lastpol:
                        yield ['setvar', h, 'pol', pol, 'np']
                        lastpol = pol
                    self.serial += 1
                    yield ['write', h, {'uvw': [float(i), float(j), 1.], 't': sv['t'], 'ij': [i, j], 'd': [r.choice(['rand', 'ramp']), sv['nchan'], self.serial], 'm': [r.choice(['rand', 'none', 'all']), r.randint(0, 99)], 'api': 'ma', 'pf': 'd'}]
                    info['n'] += 1
                    if info['n'] > 60:
                        break
        yield ['close', h]
        info['writer'], info['ready'] = False, True

    def rdfiles(self):
        r = self.r
        for _ in range(r.choice([1, 2, 3])):
            paths = [x for x in self.ready() if self.info[x].get('survey')]
            if not paths:
                return
            if r.random() < .8:
                n = r.choice([1, 2, 2, 3])
                paths = [r.choice(paths) for _ in range(n)] if r.random() < .15 else r.sample(paths, min(n, len(paths)))
            a = self.sv['ants']
            inc, exc = [], []
            k = r.random()
            one = lambda: ['bl', r.choice(a), r.choice(a)] if r.random() < (.66 if max(a) < 100 else .97) else ['ant', r.choice(a)]   # naming a high antenna takes as many selections
            if k < .15:
                inc = [['all']]
            elif k < .25:
                inc = [['auto']]
            elif k < .35:
                inc = [['cross']]
            elif k < .65:
                inc = [r.choice([one(), one(), ['prod', r.sample(a, min(2, len(a))), r.sample(a, min(2, len(a)))]]) for _ in range(r.choice([1, 1, 2, 3]))]
            elif k < .75:
                i, j = sorted([r.choice(a), r.choice(a)])
                inc = [['blp', i, j, r.choice('xy'), r.choice('xy')]]
            else:
                inc = [['all']] if r.random() < .3 else []
            if k < .65 and r.random() < .3 or not inc:
                exc = [one() for _ in range(r.choice([1, 1, 2]))]
            pols = [{-5: 'xx', -6: 'yy', -7: 'xy', -8: 'yx', 1: 'I'}[q] for q in self.sv['pols']]
            pol = r.choice([-1] + [r.choice(pols)] * 4 + [','.join(r.sample(pols, min(2, len(pols))))] * 2)
            dec = r.choice([1, 1, 1, 2, 3])
            yield ['readfiles', paths, inc, exc, pol, dec, r.randint(0, dec - 1), {'one': r.random() < .3, 'recast': r.random() < .8}]

    def foreign(self):
        """A data set another program made."""
        r, p = self.r, self.p
        path = self.newpath()
        corr = r.choice('rrrj')
        st = {'corr': 'j' if corr == 'j' else 'r', 'nchan': self.nchan(), 'ants': self.ants()}
        vars = self.pick_vars(r.choice(p.get('nvars', [0, 1, 2, 3, 5])))
        recs, have = [], {}
        for k in range(r.choice([1, 2, 3, 5, 8])):
            q = self.rec(st)
            recs.append({'uvw': q['uvw'], 't': q['t'], 'ij': q['ij'], 'd': q['d'], 'm': q['m'], 'set': {}})
            for nm, t in sorted(vars.items()):
                if r.random() < (.25 if nm in have else .7):
                    v = self.val(t)
                    recs[-1]['set'][nm] = have[nm] = v.replace('\0', '_') or '-' if t == 'a' else v
        items = {'history': self.item_val('history') or 'h'}
        for _ in range(r.choice([0, 1, 2, 4])):
            nm = r.choice(ITEMS_NUM)
            items[nm] = self.item_val(nm)
            if items[nm] == []:
                del items[nm]
        over = {}
        if have and r.random() < .25:                  # a header item of a variable's name stands for its value
            for nm in r.sample(sorted(have), r.choice([1, min(2, len(have))])):
                t = vars[nm]
                if t == 'a':
                    x = self.text().replace('\0', '_')[:40]
                    if x:
                        over[nm] = ['a', x]
                elif t in 'ird':
                    it = 'i' if t == 'i' else r.choice('ird')
                    x = [r.randint(-999, 999) if it == 'i' else r.randint(-999, 999) / 8. for _ in range(1 if r.random() < .85 else 2)]
                    over[nm] = [it, x]
                else:
                    over[nm] = ['i', [r.randint(-9, 9)]]
        style = {k: True for k in ('repeat', 'resize', 'wide_bl', 'order', 'junk', 'wflags', 'ownfile', 'int_len', 'small_vt') if r.random() < .3}
        if r.random() < .1:
            style['noflags'] = True
        if r.random() < .2 and not (vars.get('lst') and vars.get('obsra') and vars.get('obsdec')):
            style['uv2'] = True                         # two coordinates: w is zero
            for q in recs:
                q['uvw'] = q['uvw'][:2] + [0.]
            st.pop('uvw', None)
        noapp = style.get('noflags') or corr == 'c' or over
        self.info[path] = {'writer': bool(noapp), 'readers': 0, 'ready': True, 'vars': {k: vars[k] for k in have}, 'n': len(recs), 'st': st, 'items': sorted(items), 'corr': st['corr']}
        yield ['foreign', path, {'corr': corr, 'vars': {k: vars[k] for k in have}, 'recs': recs, 'items': items, 'over': over, 'style': style, 'seed': r.randint(0, 10 ** 6), 'nul': r.random() < .5}]
        if noapp:
            for x in self.reader(path):
                yield x

    SELMORE = (('spect', ('nschan', 'i'), ('sfreq', 'd'), ('sdf', 'd')), ('shadow', ('lst', 'd'), ('obsra', 'd'), ('obsdec', 'd'), ('antpos', 'd'), ('antdiam', 'r')), ('', ('axisrms', 'r')),
               ('', ('dazim', 'd')), ('', ('delev', 'd')), ('', ('dra', 'r')), ('', ('ddec', 'r')), ('', ('bin', 'i')), ('', ('antel', 'd')))

    def selmore(self, h, info, st):
        """Variables which the less usual selections look at."""
        r = self.r
        p = r.choice([0, .3, .7, 1])
        for g in self.SELMORE:
            if r.random() >= p:
                continue
            for nm, t in g[1:]:
                if nm in info['vars'] or nm == 'antdiam' and r.random() < .5:
                    continue
                info['vars'][nm] = t
                info.setdefault('sel', {})[nm] = True
                if nm == 'nschan':
                    k = r.choice([1, 1, 2, 3])
                    cuts = sorted(r.sample(range(1, st['nchan']), k - 1)) if st['nchan'] > k else []
                    st['nschan'] = [y - x for x, y in zip([0] + cuts, cuts + [st['nchan']])]
                yield ['addvar', h, nm, t]
                yield ['setvar', h, nm, self.selval(nm, st)]

    def vval(self, nm, t, info=None):
        if nm in ('pol', 'on', 'ra', 'dec', 'lst') or info and nm in info.get('sel', ()):
            return self.selval(nm, info and info['st'])
        return self.val(t)

    def selval(self, nm, st=None):
        r = self.r
        if nm == 'nschan':
            return list(st['nschan']) if len(st['nschan']) > 1 else st['nschan'][0]
        if nm in ('sfreq', 'sdf'):
            v = [r.choice([.1, .15, 1.4, .12]) if nm == 'sfreq' else r.choice([1e-3, -1e-3, .01]) for _ in st['nschan']]
            return v if len(v) > 1 else v[0]
        if nm in ('axisrms', 'dazim', 'delev', 'antpos'):
            n = (max(st['ants']) + 1) * {'axisrms': 2, 'antpos': 3}.get(nm, 1)
            q = {'antpos': 30, 'axisrms': 5}.get(nm, 1)
            return [round(r.uniform(0 if nm == 'axisrms' else -q, q), 2) for _ in range(n)]
        if nm == 'bin':
            return r.randint(1, 4)
        if nm == 'antdiam':
            return float(r.choice([1, 5, 20]))
        if nm in ('dra', 'ddec'):
            return r.choice([0., .25, -.5, 1.])
        if nm == 'pol':
            return r.choice([-5, -6, -7, -8, 1])
        if nm == 'on':
            return r.choice([0, 1])
        if nm == 'lst':
            return round(r.uniform(0, 6.28), 3)
        return round(r.uniform(-3, 3), 3)

    def session(self, h, info, st, sel=False):
        r, p = self.r, self.p
        nrec = r.choice(p.get('nrec', [0, 1, 2, 3, 5, 8]))
        if not info['n'] and not nrec and not p.get('empty'):
            nrec = 1
        if st['nchan'] > 1000:
            nrec = min(nrec, 6)
        names = sorted(info['vars'])
        started = set()
        for k in range(nrec):
            for nm in names:
                first = nm not in started
                if r.random() < (p.get('pvarfirst', 0.75) if first else p.get('pvar', 0.25)):
                    started.add(nm)
                    yield ['setvar', h, nm, self.vval(nm, info['vars'][nm], info), self.form()]
            yield ['write', h, self.rec(st)]
            info['n'] += 1
            if r.random() < p.get('wget', 0.1) and names:
                yield ['getvar', h, r.choice(names)]
            if r.random() < p.get('midvar', 0.05):
                nm = r.choice([x for x in VNAMES if x not in info['vars']] or ['zz%d' % k])
                t = r.choice('airdcj')
                if nm not in info['vars']:
                    info['vars'][nm] = t
                    names.append(nm)
                    started.add(nm)
                    yield ['addvar', h, nm, t]
                    yield ['setvar', h, nm, self.val(t)]
            if r.random() < p.get('miditem', 0.05):
                nm = r.choice(ITEMS_NUM + ['obstype', 'freqs', 'history', 'history'])
                info['items'].append(nm)
                yield ['setitem', h, nm, self.item_val(nm)]
                if r.random() < 0.5:
                    yield ['getitem', h, nm]
            if r.random() < p.get('bad', 0.03):
                yield self.bad(h, names)
            if r.random() < p.get('witems', 0.02):
                yield ['items', h]

    def bad(self, h, names):
        r = self.r
        k = r.choice(['unknown', 'setunknown', 'shape', 'dtype', 'uvw', 'vartype', 'range', 'longname', 'noitem', 'missing', 'missing', 'newover', 'notuv', 'status', 'corrmode', 'readw', 'select', 'decimate0'])
        if k == 'missing':
            return ['bad', k, r.choice([r.randint(0, 9)] * 3 + ['\xe9' * 9, 'x' * 60, 'x' * 100, 'x' * 200, '/x' * 400, '/x' * 1900, '/x' * 2500, 'x' * 9000]), r.choice(['old', 'append', 'old', 'append', 'new'])]
        if k == 'longname':
            return ['bad', k, h, r.choice([9, 10, 13, 50, 100, 130, 200, 1000])]
        if k == 'newover':
            return ['bad', k, r.choice(self.paths or ['d1'])]
        if k == 'notuv':
            return ['bad', k, r.choice(['old', 'append', 'new'])]
        if k in ('status', 'corrmode'):
            return ['bad', k]
        if k in ('vartype', 'range'):
            return ['bad', k, h, r.choice(names) if names else 'none']
        return ['bad', k, h]

    def appender(self, path, sel=False):
        r, p = self.r, self.p
        h = self.newh()
        info = self.info[path]
        info['writer'] = True
        info['ready'] = False
        yield ['open', h, path, 'append', r.choice('rrj') if r.random() < 0.2 else info['corr']]
        st = info['st']
        if r.random() < 0.3:
            st['ants'] = self.ants() if not sel else st['ants']
        if r.random() < 0.2 and not sel:
            st['nchan'] = max(1, r.choice([st['nchan'], st['nchan'] - 1, st['nchan'] // 2]))
        if r.random() < 0.5:
            yield ['setitem', h, 'history', self.item_val('history') or 'h']
        if r.random() < 0.3:
            nm = r.choice(ITEMS_NUM + ['obstype', 'freqs'])
            yield ['setitem', h, nm, self.item_val(nm)]
        for nm in sorted(info['vars']):
            if r.random() < 0.6:
                yield ['addvar', h, nm, info['vars'][nm]]
        if r.random() < 0.3 and len(info['vars']) < 14:
            for nm, t in self.pick_vars(1).items():
                if nm not in info['vars']:
                    info['vars'][nm] = t
                    yield ['addvar', h, nm, t]
        for x in self.session(h, info, st, sel):
            yield x
        yield ['close', h]
        info['writer'], info['ready'] = False, True

    def itemeditor(self, path):
        """Header items rewritten through a handle opened for reading (as scripts that append to history do)."""
        r = self.r
        h = self.newh()
        info = self.info[path]
        info['writer'] = True
        info['ready'] = False
        yield ['open', h, path, 'old']
        for _ in range(r.randint(1, 3)):
            nm = r.choice(ITEMS_NUM + ['obstype', 'freqs', 'history', 'history', 'history'])
            yield ['setitem', h, nm, self.item_val(nm)]
            if r.random() < 0.5:
                yield ['getitem', h, nm]
            if r.random() < 0.3:
                yield ['read', h]
        yield ['close', h]
        info['writer'], info['ready'] = False, True

    def selops(self, h, info):
        r = self.r
        st = info['st']
        n = max(1, info['n'])
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            k = r.random()
            inc = 0 if r.random() < 0.3 else 1
            if k < 0.12 and out:
                out.append(['select', h, r.choice(['and', 'or']), 0, 0, 1])
                continue
            nm = r.choice(['antennae', 'antennae', 'antennae', 'auto', 'polarization', 'polarization', 'time', 'visibility', 'increment', 'uvnrange', 'on', 'ra', 'dec', 'lst', 'decimate', 'clear'])
            if nm == 'clear' and r.random() < 0.7:
                nm = 'antennae'
            if info.get('sel') and r.random() < .6 or r.random() < .03:
                have = info.get('sel', {})
                nm = ['amplitude', 'dra', 'ddec', 'ra', 'dec'] + [x for x in ('dazim', 'delev', 'bin') if x in have] + (['pointing'] if 'axisrms' in have else [])
                nm += (['uvrange', 'window', 'frequency'] if 'nschan' in have else []) + (['shadow', 'shadow'] if 'antpos' in have and 'lst' in info['vars'] else [])
                nm += (['ha'] if 'obsra' in have and 'lst' in info['vars'] else []) + (['elevation'] if 'antel' in have else [])
                nm = r.choice(nm + nm[5:] * 3)
                if r.random() < .05:
                    nm = r.choice(['dazim', 'delev'])
            if out and out[-1][2] == 'or' and r.random() < .25:
                nm = 'amplitude'
            if out and r.random() < .2 and out[-1][2] not in ('and', 'or', 'clear', 'decimate'):
                nm = out[-1][2]                       # more than one range of the same
            a = b = 0
            if nm == 'antennae':
                a = r.choice(st['ants'] + [-1, 7])
                b = r.choice(st['ants'] + [-1])
            elif nm == 'polarization':
                a = r.choice([-5, -6, -7, -8, 1])
            elif nm == 'time':
                t = st.get('t') or 2450000.
                if r.random() < 0.5:
                    a = t - r.choice([0.002, 0.5, 1.1, 3.3]); b = a + r.choice([0.001, 0.7, 2.2, 10])
                else:
                    a = r.uniform(0, 0.9); b = a + r.uniform(0.01, 0.6)
            elif nm == 'visibility':
                a = r.randint(1, n); b = a + r.randint(0, n)
            elif nm == 'increment':
                a = r.randint(1, 4)
            elif nm == 'uvnrange':
                a = r.uniform(0, 400); b = a + r.uniform(1, 400)
            elif nm == 'on':
                a = r.choice([0, 1])
            elif nm in ('dra', 'ddec', 'dazim', 'delev', 'ha', 'elevation'):
                a = r.choice([-3, -1, -.5, 0., .25, .1]); b = a + r.choice([.1, .5, 1, 3, 6])
            elif nm == 'pointing':
                a = r.choice([0, 0, 1, 2, 4, 4.5]); b = a + r.choice([.4, 1, 4])
            elif nm == 'amplitude':
                a = r.choice([0, 0, .1, .5, 1, 10]); b = a + r.choice([.1, .5, 1, 10, 1e6])
            elif nm == 'uvrange':
                a = r.choice([0, 0, 10, 50, 100]); b = a + r.choice([20, 50, 300])
            elif nm == 'frequency':
                a = r.choice([.05, .1, .11, .13, 1]); b = a + r.choice([.02, .05, 1])
            elif nm == 'bin':
                a = r.randint(1, 4); b = a + r.randint(0, 2)
            elif nm == 'window':
                a = r.randint(1, len(st.get('nschan', [0])))
                inc = 1
            elif nm == 'shadow':
                b = r.choice([0, 1, 5, 20, 100])
            elif nm in ('ra', 'dec'):
                a = round(r.uniform(-3, 2.5), 3); b = a + round(r.uniform(0.1, 3), 3)
            elif nm == 'lst':
                a = round(r.uniform(0, 6.28), 3); b = round(r.uniform(0, 6.28), 3)
                if a == b:
                    b += 0.1
            elif nm == 'decimate':
                a = r.randint(1, 4); b = r.randint(0, a - 1)
            if self.p.get('badsel', True) and r.random() < .06:
                out.append(['select', h] + r.choice([['time', 3., 2.], ['time', 1., 1.], ['antennae', 2048, 1], ['antennae', 0, 5000], ['antennae', 2048, -1], ['antennae', 1, -4], ['visibility', 0, 3], ['visibility', 4, 3],
                    ['increment', 0, 0], ['uvnrange', -1., 5.], ['uvnrange', 5., 5.], ['ra', 1., .5], ['dec', 1., 1.], ['bin', 0, 1], ['pointing', 2., 1.], ['window', 0, 0], ['shadow', 1, 1], ['amplitude', 2., 1.],
                    ['frequency', 0., 1.], ['delev', 1., 0.], ['ha', 2., -2.]]) + [inc])
                if r.random() < .3:
                    out.append(['select', h, 'or', 0, 0, 1])
            out.append(['select', h, nm, a, b, inc])
        if any(o[2] == 'visibility' for o in out) and r.random() < 0.3:
            out += [['read', h]] * r.randint(0, 2) + [['select', h, 'clear', 0, 0, 1]]
        return out

    def reader(self, path, sel=False):
        r, p = self.r, self.p
        h = self.newh()
        info = self.info[path]
        info['readers'] += 1
        yield ['open', h, path, 'old']
        if sel:
            for x in self.selops(h, info):
                yield x
        for _ in range(r.choice(p.get('nread', [1, 2, 3, 5]))):
            k = r.random()
            if k < 0.35:
                yield ['readall', h, r.random() < 0.3, r.random() < 0.8, r.choice(['all', 'read'])]
                if r.random() < 0.7:
                    yield ['rewind', h]
            elif k < 0.65:
                for _ in range(r.randint(1, 4)):
                    yield ['read', h, r.random() < 0.3, r.random() < 0.8]
            elif k < 0.72:
                yield ['rewind', h]
            elif k < 0.8 and info['vars']:
                yield ['getvar', h, r.choice(sorted(info['vars']))]
            elif k < 0.9:
                yield ['getitem', h, r.choice(info['items'] + [r.choice(ITEMS_NUM)])]
            elif k < 0.94:
                yield ['items', h]
            elif k < 0.97:
                yield ['vars', h]
            else:
                yield self.bad(h, sorted(info['vars']))
            if sel and r.random() < 0.3:
                yield ['rewind', h]
                for x in self.selops(h, info):
                    yield x
        yield ['close', h]
        info['readers'] -= 1

    def cloner(self, path):
        r, p = self.r, self.p
        src, dst, out = self.newh(), self.newh(), self.newpath()
        info = self.info[path]
        info['readers'] += 1
        oi = self.info[out] = {'writer': True, 'readers': 0, 'ready': False, 'vars': dict(info['vars']), 'n': info['n'], 'st': dict(info['st']), 'items': list(info['items']), 'corr': 'r', 'sel': dict(info.get('sel', {}))}
        yield ['open', src, path, 'old']
        nclones = 1
        if p.get('sel') and r.random() < 0.5:
            for x in self.selops(src, info):
                yield x
        if r.random() < 0.2:
            for _ in range(r.randint(1, 3)):
                yield ['read', src]
        elif r.random() < 0.3:
            yield ['readall', src]
            yield ['rewind', src]
        yield ['open', dst, out, 'new', 'r']
        ov, ex = {}, []
        for nm in sorted(info['vars']):
            k = r.random()
            if k < 0.2:
                ov[nm] = self.vval(nm, info['vars'][nm], info)
            elif k < 0.35:
                ex.append(nm)
                oi['vars'].pop(nm, None)
        for nm in sorted(set(info['items'])):
            k = r.random()
            if nm == 'history':
                if k < 0.1:
                    ov[nm] = 'over'
                continue
            if k < 0.2:
                ov[nm] = self.item_val(nm)
            elif k < 0.35:
                ex.append(nm)
        yield ['init', dst, src, ov, ex]
        if r.random() < 0.5:
            for nm, t in self.pick_vars(2).items():
                if nm not in info['vars']:
                    oi['vars'][nm] = t
                    yield ['addvar', dst, nm, t]
                    yield ['setvar', dst, nm, self.val(t)]
        for nm in ex:
            if nm in info['vars'] and r.random() < 0.3:
                t = info['vars'][nm]
                oi['vars'][nm] = t
                yield ['addvar', dst, nm, t]
                yield ['setvar', dst, nm, self.vval(nm, t, info)]
        mine = sorted(nm for nm in ov if nm in info['vars'])   # no longer follow the source
        if r.random() < .5:
            for nm in mine[:2]:
                yield ['setvar', dst, nm, self.vval(nm, info['vars'][nm], info)]
                yield ['getvar', dst, nm]
            for nm in sorted(info['vars'])[:2]:
                yield ['getvar', dst, nm]
        if r.random() < 0.3:
            yield ['rewind', src]
        spec = r.choice([['echo'], ['echo'], ['drop', r.randint(2, 4), r.randint(0, 3)], ['scale', 2.0], ['flag'], ['pre', r.choice([0.0, 1.5]), r.choice([0.0, 0.25])], ['ij', r.choice([0, 1, 260])], ['chan', 2]])
        if r.random() < 0.6:
            yield ['pipe', dst, src, spec, r.choice(['', 'appended\n', self.text()]), r.random() < 0.3]
        else:
            for _ in range(info['n'] + 1):
                yield ['copy1', dst, src, spec, r.random() < 0.3]
                if mine and r.random() < .1:
                    nm = r.choice(mine)
                    yield ['setvar', dst, nm, self.vval(nm, info['vars'][nm], info)]
        if r.random() < 0.2:
            for _ in range(2):
                yield ['write', dst, self.rec(dict(oi['st'], corr='r'))]
        yield ['close', dst]
        oi['writer'], oi['ready'] = False, True
        if r.random() < 0.35:
            # the same source handle, cloned once more with other choices
            dst2, out2 = self.newh(), self.newpath()
            o2 = self.info[out2] = {'writer': True, 'readers': 0, 'ready': False, 'vars': {}, 'n': 0, 'st': dict(info['st']), 'items': ['history'], 'corr': 'r', 'sel': dict(info.get('sel', {}))}
            yield ['rewind', src]
            yield ['read', src]
            yield ['open', dst2, out2, 'new', 'r']
            ov, ex = {}, []
            for nm in sorted(info['vars']):
                k = r.random()
                if k < 0.3:
                    ov[nm] = self.vval(nm, info['vars'][nm], info)
                elif k < 0.5:
                    ex.append(nm)
            yield ['init', dst2, src, ov, ex]
            yield ['rewind', src]
            yield ['pipe', dst2, src, ['echo'], 'again', False]
            yield ['close', dst2]
            o2['writer'] = False
        yield ['close', src]
        info['readers'] -= 1

    # -- faults
    def wfault(self):
        r = self.r
        k = r.random()
        e = r.choice([errno.EIO, errno.ENOSPC, errno.EIO, errno.EDQUOT])
        if k < 0.45:
            return ['fault', 'write', r.choice([0, 0, 0, 1, 1, 2, 3, 5, 8]), disk.ERR, e, 0, 1 if r.random() < 0.15 else 0]
        if k < 0.65:
            return ['fault', 'write', r.choice([0, 0, 1, 2, 3]), disk.SHORT, 0, r.randint(0, 20000), 0]
        if k < 0.75:
            return ['fault', 'open', r.choice([0, 1, 2, 3]), disk.ERR, r.choice([errno.EMFILE, errno.EACCES, errno.EIO, errno.ENOSPC]), 0, 0]
        if k < 0.82:
            return ['fault', 'close', r.choice([0, 1, 2, 3, 4]), disk.ERR, errno.EIO, 0, 0]
        if k < 0.87:
            return ['fault', 'mkdir', 0, disk.ERR, r.choice([errno.ENOSPC, errno.EACCES]), 0, 0]
        if k < 0.92:
            return ['fault', 'lseek', r.choice([0, 1, 2, 3]), disk.ERR, errno.EIO, 0, 0]
        if k < 0.96:
            return ['fault', 'rename', 0, disk.ERR, errno.EIO, 0, 0]
        return ['fault', 'read', r.choice([0, 1, 2]), disk.ERR, errno.EIO, 0, 0]

    def rfault(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return ['fault', 'read', r.choice([0, 0, 0, 1, 1, 2, 3, 5]), disk.ERR, r.choice([errno.EIO, errno.EIO, errno.EINTR]), 0, 1 if r.random() < 0.1 else 0]
        if k < 0.75:
            return ['fault', 'read', r.choice([0, 0, 1, 2]), disk.SHORT, 0, r.randint(0, 20000), 0]
        if k < 0.9:
            return ['fault', 'open', r.choice([0, 0, 1, 2, 3]), disk.ERR, r.choice([errno.EMFILE, errno.EACCES, errno.EIO, errno.ENFILE]), 0, 0]
        if k < 0.95:
            return ['fault', 'lseek', r.choice([0, 1, 2]), disk.ERR, errno.EIO, 0, 0]
        return ['fault', 'close', r.choice([0, 1]), disk.ERR, errno.EIO, 0, 0]

    # -- the scheduler
    def ready(self, excl=False):
        return [k for k, i in sorted(self.info.items()) if i['ready'] and not i['writer'] and (not excl or not i['readers']) and i['n']]

    def spawn(self):
        r, p = self.r, self.p
        w = p.get('mix', {'writer': 3, 'appender': 2, 'reader': 4, 'itemeditor': 0.5})
        kinds, weights = zip(*sorted(w.items()))
        k = r.choices(kinds, weights)[0]
        sel = bool(p.get('sel'))
        if k == 'writer' and self.np < p.get('maxds', 5):
            return self.writer(sel)
        if k == 'survey' and self.np < p.get('maxds', 5):
            return self.survey()
        if k == 'resurvey':
            c = [x for x in self.ready(True) if self.info[x].get('survey')]
            if c:
                return self.survey(r.choice(c))
        if k == 'rdfiles' and hasattr(self, 'sv'):
            return self.rdfiles()
        if k == 'foreign' and self.np < p.get('maxds', 5):
            return self.foreign()
        if k in ('appender', 'itemeditor'):
            c = self.ready(True)
            if c:
                q = r.choice(c)
                return self.appender(q, sel) if k == 'appender' else self.itemeditor(q)
        if k == 'cloner':
            c = [x for x in self.ready() if self.info[x]['corr'] == 'r']
            if c and self.np < p.get('maxds', 5) + 3:
                return self.cloner(r.choice(c))
        if k == 'reader':
            c = self.ready()
            if c:
                return self.reader(r.choice(c), sel and r.random() < 0.9)
        if not self.info:
            return self.writer(sel)
        return None

    def generate(self):
        r, p = self.r, self.p
        ops, live = [], []
        conc = r.choice(p.get('conc', [1, 2, 3]))
        budget = r.choice(p.get('actors', [3, 4, 6, 8]))
        maxops = p.get('maxops', 120)
        guard = 0
        burst = r.choice([1, 1, 3, 10])
        cur = None
        while (live or budget > 0) and len(ops) < maxops and guard < 2000:
            guard += 1
            if budget > 0 and len(live) < conc:
                a = self.spawn()
                budget -= 1
                if a is not None:
                    live.append(a)
                    # an actor takes what it needs at once
                    try:
                        ops.append(next(a))
                    except StopIteration:
                        live.remove(a)
                continue
            if not live:
                continue
            if cur not in live or r.random() < 1.0 / burst:
                cur = r.choice(live)
            f = None
            if p.get('fault') and r.random() < p['fault']:
                f = self.wfault() if p.get('fkind', 'w') == 'w' or (p['fkind'] == 'b' and r.random() < 0.5) else self.rfault()
                if p.get('fkind', 'w') != 'r' and r.random() < 0.08:
                    f = ['capacity', r.choice([0, 0, 10, 100, 1000, 16384, 20000])]
                ops.append(f)
                nf = r.choice([1, 1, 2, 3, 5])
            try:
                for _ in range(nf if f else 1):
                    ops.append(next(cur))
            except StopIteration:
                live.remove(cur)
            if f:
                ops.append(['clearfaults'])
                self.after_fault(ops)
        if p.get('last'):
            for a in live:                                # everyone finishes, and then it is looked at
                ops += list(a)
            ops += list(getattr(self, p['last'])())
        # what is still going on stays open: finish() closes it
        if p.get('soak'):
            for _ in range(r.choice([0, 1, 1, 2] if p['soak'] is True else p['soak'])):
                ops.insert(r.randint(len(ops) // 2, len(ops)), self.soak())
        return ops

    def soak(self):
        """A few ops to repeat, so that whatever they leave behind adds up."""
        r = self.r
        path = r.choice(self.paths or ['d1'])
        h = self.newh()
        n = r.choice([30, 30, 60, 250, 1100])
        nf = lambda f: ['fault', f[1], f[2], f[3], f[4], f[5], 0]
        f = nf(self.rfault() if r.random() < 0.6 else self.wfault())
        if self.p.get('malloc') and r.random() < 0.9:
            f = ['fault', r.choice(['malloc', 'malloc', 'malloc', 'numpy']), r.choice([0, 1, 2, 3, 5, 8, 12, 20, r.randint(0, 40)]), disk.ERR, errno.ENOMEM, 0, 0]
        k = r.choice(['openfail', 'openfail', 'appfail', 'missing', 'new', 'item', 'items', 'readfail', 'itemw', 'bad', 'plain', 'plain', 'select', 'vars'])
        if k == 'plain':
            return ['soak', min(n, 60), [['open', h, path, 'old'], ['readall', h, r.random() < .3, r.random() < .3, r.choice(['all', 'read'])], ['items', h], ['getitem', h, 'history'], ['rewind', h], ['read', h], ['close', h]]]
        if k == 'select':
            if path not in self.info or r.random() < .3:
                return ['soak', min(n, 60), [['open', h, path, 'old'], ['select', h, 'antennae', 0, 1], ['select', h, 'decimate', 2, 0], f, ['readall', h], ['clearfaults'], ['close', h]]]
            ops = self.selops(h, self.info[path])
            if r.random() < .5:
                ops = [['select', h, 'visibility', 1, r.randint(1, 9), r.randint(0, 1)]]
            return ['soak', n, [['open', h, path, 'old']] + ops + [f] * r.randint(0, 1) + [['readall', h], ['clearfaults'], ['close', h]]]
        if k == 'vars':
            vs = self.pick_vars(3)
            more = [['addvar', h, nm, t] for nm, t in vs.items()] + [['setvar', h, nm, self.vval(nm, t), self.form()] for nm, t in vs.items()]
            more += [self.bad(h, sorted(vs)) for _ in range(3)]
            return ['soak', 30, [['soak1', h, f, more]]]
        if k == 'openfail':
            return ['soak', n, [f, ['open', h, path, 'old'], ['clearfaults'], ['close', h]]]
        if k == 'appfail':
            return ['soak', min(n, 250), [['open', h, path, 'append'], f, ['close', h], ['clearfaults'], ['audit', path]]]
        if k == 'missing':
            return ['soak', n, [self.bad(h, []) for _ in range(3)]]
        if k == 'new':
            # the data set cannot be made, or cannot be closed
            return ['soak', 30, [['soak1', h, f]]]
        if k == 'item':
            nm = r.choice(ITEMS_NUM + ['history', 'history', 'obstype'])
            return ['soak', min(n, 250) if n < 1100 else 1100, [['open', h, path, 'old'], f, ['getitem', h, nm], ['clearfaults']]]
        if k == 'items':
            return ['soak', min(n, 60), [['open', h, path, 'old'], f, ['items', h], ['clearfaults']]]
        if k == 'readfail':
            return ['soak', min(n, 250), [['open', h, path, 'old'], f, ['read', h], ['clearfaults'], ['rewind', h]]]
        if k == 'itemw':
            nm = r.choice(ITEMS_NUM + ['history'])
            return ['soak', n, [['open', h, path, 'old'], f, ['setitem', h, nm, self.item_val(nm)], ['clearfaults']]]
        return ['soak', min(n, 250), [['open', h, path, 'old'], self.bad(h, []), self.bad(h, []), ['close', h]]]

    def after_fault(self, ops):
        r, p = self.r, self.p
        last = [o for o in ops[-7:-1] if o[0] not in ('fault', 'capacity')]
        for o in last:
            if o[0] in ('write', 'setvar', 'setitem') and r.random() < 0.7:
                ops.append(list(o))                         # the caller tries again
            elif o[0] == 'open' and r.random() < 0.6:
                ops.append(list(o))
            elif o[0] in ('read', 'readall'):
                k = r.random()
                if k < 0.4:
                    ops.append(['retry', o[1]])
                elif k < 0.8:
                    ops.append(['rewind', o[1]])
                    ops.append(['readall', o[1]])
            elif o[0] == 'close':
                # the data set it belonged to is looked at
                for q in ops:
                    if q[0] == 'open' and q[1] == o[1]:
                        ops.append(['audit', q[2]])
                        break
