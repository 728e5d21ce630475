"""Damaged data sets (C15): the bytes of a data set's files change under the code, before it is opened or while it is.

A run has data sets of known content (encoded by mirfmt or copied by aipy from such), a sequence of damages, and calls.  It is
executed twice, with other fillings of fresh memory: what differs between the two executions was read from memory which the
code never wrote."""
from __future__ import print_function
import ctypes, gc, hashlib, json, random, struct, warnings
import numpy as np
import core, disk, mirfmt, profiles, uvgen, uvsim

PADS = 1
R = disk.ROOT + '/'
PROFILE = dict(small=True, nvars=[0, 1, 2, 4], nonfin=False, pj=0.25)


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls, self.msg = cls, msg


# ------------------------------------------------------------------------------ content
def encode(spec):
    """The files of a data set after a spec of uvgen.foreign."""
    raw, state = [], {}
    types = {'corr': spec['corr'], 'nchan': 'i'}
    types.update(spec['vars'])
    fv = uvsim.Runner.foreign_val
    for q in spec['recs']:
        data = uvsim.gen_data(q['d'])
        valid = ~uvsim.gen_mask(q['m'], len(data)) if not spec['style'].get('noflags') else np.ones(len(data), bool)
        state['nchan'] = ('i', len(data))
        for k, v in q['set'].items():
            state[k] = (types[k], v)
        raw.append({'uvw': q['uvw'], 't': q['t'], 'ij': q['ij'], 'data': data, 'valid': valid,
                    'vars': {k: (t, fv(None, t, v, spec)) for k, (t, v) in state.items()}})
    have = set(k for q in raw for k in q['vars'])
    used = {k: t for k, t in types.items() if k == 'corr' or k in have}
    items = []
    tab = itemtable
    for k, v in spec['items'].items():
        t = tab[k]
        items.append((k, v.encode() if k == 'history' else (b'\0\0\0\1' + v.encode()) if t == 'a' else mirfmt.pack_item(t, [complex(*x) for x in v] if t == 'c' else v)))
    for k, (t, v) in sorted(spec.get('over', {}).items()):
        items.append((k, b'\0\0\0\1' + v.encode() if t == 'a' else mirfmt.pack_item(t, v)))
    return mirfmt.encode(raw, used, items, spec['style'], spec['seed'])


itemtable = {}


def layout(files):
    """Where the headers of the stream's entries are, and where its records end."""
    vt = mirfmt.vartable(mirfmt.item(files, 'vartable'))
    b, o, size, heads, ends = files['visdata'], 0, {}, [], []
    while o + 4 <= len(b):
        v, kind = b[o], b[o + 2]
        heads.append(o)
        if kind == 2:
            o = mirfmt.up(o + 4, 8)
            ends.append(o)
        elif kind == 0:
            size[v] = struct.unpack('>i', b[o + 4:o + 8])[0]
            o += 8
        else:
            o = mirfmt.up(o + max(4, mirfmt.SIZE[vt[v][1]]) + size[v], 8)
    return heads, ends


# ------------------------------------------------------------------------------ scenarios
LENS = [0, 1, 2, 3, 4, 7, 8, 64, 255, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000002, 0x20000001, 0x10000004, 0x00fffff8, 0x00010000, 0xfffffff8, 0xc0000000, 0x08000000]
NAMES = ['visdata', 'flags', 'header', 'vartable', 'history']


def gen_damage(r, files):
    """-> an op which changes the bytes of one file"""
    names = [n for n in sorted(files)]
    f = r.choice([n for n in NAMES if n in files] * 2 + names)
    if r.random() < .45:
        f = r.choice(['visdata', 'visdata', 'header'])
    b = files[f]
    n = max(len(b), 1)
    k = r.random()
    if f == 'visdata' and k < .5:
        heads, _ = layout(files)
        o = r.choice(heads[:40] if r.random() < .5 else heads)
        j = r.random()
        if j < .3:
            return ['damage', f, 'put', o + r.choice([0, 2]), [r.choice([0, 1, 2, 3, 4, 5, 7, 255, 128, r.randint(0, 255)])]]
        if j < .4:
            return ['damage', f, 'put', o, [r.randint(0, 12), 0, r.randint(0, 3), 0]]
        if j < .75:
            return ['damage', f, 'put', o + 4, list(struct.pack('>I', r.choice(LENS + [r.randint(0, 400)])))]
        if j < .85:
            o2 = r.choice(heads)
            return ['damage', f, 'move', o, o2, r.choice([4, 8, 8, 16, 24, 64])]
        if j < .93:
            return ['damage', f, 'cut', o, r.choice([8, 8, 16, 24])]
        return ['damage', f, 'flip', o + r.randint(0, 7), r.randint(0, 7)]
    if f == 'header' and k < .55:
        o = 16 * r.randint(0, max(0, (n - 1) // 16))
        j = r.random()
        if j < .3:
            return ['damage', f, 'put', o + 15, [r.choice([0, 1, 3, 4, 5, 7, 8, 12, 16, 64, 65, 100, 127, 128, 200, 255])]]
        if j < .5:
            nm = r.choice(['history', 'vislen', 'ncorr', 'vartable', 'flags', 'visdata', 'obstype', 'nchan', 'time', 'coord', 'baseline', 'tscale', 'corr', 'header', 'x' * 15, '../../x', '.', '..', '', 'pol', 'freqs', 'nspect0', 'a b', 'antpos'])
            return ['damage', f, 'put', o, list(nm.encode().ljust(15, b'\0'))]
        if j < .7:
            return ['damage', f, 'put', o + 16, [0, 0, 0, r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255])]]
        if j < .85:
            return ['damage', f, 'put', o + r.choice([16, 20, 24]), list(struct.pack('>I', r.choice(LENS)))]
        return ['damage', f, 'flip', o + r.randint(0, 31), r.randint(0, 7)]
    if f == 'vartable' and k < .7:
        t = b.decode('latin1')
        l = t.split('\n')
        i = r.randrange(len(l))
        j = r.random()
        if j < .2:
            l[i] = r.choice('airdcjlzA') + l[i][1:]
        elif j < .45:
            l[i] = l[i][:2] + r.choice(['x' * 9, 'y' * 30, 'z' * 100, 'w' * 300, 'v' * 3000, 'corr', 'time', 'coord', 'baseline', 'nchan', 'tscale', 'pol', 'wcorr', '', '\xe9\xff', 'a b'])
        elif j < .6:
            l = l[:i] + l[i + 1:]
        elif j < .7:
            l = l[:i] + ['r v%d' % q for q in range(r.choice([20, 300, 700]))] + l[i:]
        elif j < .8:
            l[i] = r.choice(['', ' ', 'r', 'r ', 'x' * 10, '\0', 'r\tlst', '  r lst', 'r' * 2000])
        elif j < .9:
            l.insert(i, r.choice(l))
        else:
            r.shuffle(l)
        return ['damage', f, 'set', list('\n'.join(l).encode('latin1'))]
    k = r.random()
    if k < .4:
        return ['damage', f, 'flip', r.randrange(n), r.randint(0, 7)]
    if k < .5:
        a = r.randrange(n)
        return ['damage', f, 'fill', a, r.choice([1, 4, 8, 16, 64, 512, n]), r.choice([0, 255, 0x7f, r.randint(0, 255)])]
    if k < .7:
        return ['damage', f, 'trunc', r.choice([0, 1, 3, 4, n // 2, n - 1, max(0, n - 4), max(0, n - 8), r.randrange(n), r.randrange(n)])]
    if k < .76:
        return ['damage', f, 'extend', r.choice([1, 3, 4, 8, 100, 3000]), r.choice([0, 255, r.randint(0, 255)])]
    if k < .82:
        return ['damage', f, 'lose']
    if k < .9:
        return ['damage', f, 'move', r.randrange(n), r.randrange(n), r.choice([1, 4, 8, 64, 512])]
    if k < .94:
        return ['damage', f, 'other', r.choice(names)]
    if k < .96:
        return ['damage', f, 'dir']
    a = r.randrange(n)
    return ['damage', f, 'put', a, [r.randint(0, 255) for _ in range(r.choice([1, 4, 8, 32]))]]


SEL = [('antennae', lambda r: (r.randint(-1, 6), r.randint(-1, 6))), ('polarization', lambda r: (r.choice([-5, -6, 1, 0]), 0)), ('time', lambda r: (2454000. + r.random(), 2455000. + r.random() * 1e4)),
       ('visibility', lambda r: (r.randint(1, 3), r.randint(1, 9))), ('increment', lambda r: (r.randint(1, 3), 0)), ('uvrange', lambda r: (0., r.choice([1., 1e3, 1e9]))), ('auto', lambda r: (0, 0)),
       ('ra', lambda r: (0., 3.)), ('dec', lambda r: (-1., 1.)), ('lst', lambda r: (0., 3.)), ('on', lambda r: (1, 0)), ('uvnrange', lambda r: (0., 1e6)), ('pointing', lambda r: (0., 100.)),
       ('dra', lambda r: (-1., 1.)), ('ddec', lambda r: (-1., 1.)), ('elevation', lambda r: (0., 1.)), ('frequency', lambda r: (0., 10.)), ('bin', lambda r: (1, 2)), ('ha', lambda r: (-1., 1.)),
       ('dazim', lambda r: (-1., 1.)), ('delev', lambda r: (-1., 1.)), ('window', lambda r: (1, 0)), ('amplitude', lambda r: (0., 10.)), ('shadow', lambda r: (r.choice([0., 5.]), 0)), ('seeing', lambda r: (0., 10.))]


def windows(r, spec):
    """The channels in spectral windows, each with its frequencies."""
    n = min(q['d'][1] for q in spec['recs'])
    k = r.choice([1, 2, 2, 3])
    if n < k:
        return
    cut = sorted(r.sample(range(1, n), k - 1)) if k > 1 else []
    ns = [b - a for a, b in zip([0] + cut, cut + [n])]
    if r.random() < .3:                                   # the last ones beyond, or not all of the channels
        ns[-1] = max(1, ns[-1] + r.choice([-1, 1, 1000]))
    f = [r.randint(80, 2400) / 8. for _ in ns]
    for nm, t, v in (('nspect', 'i', k), ('nschan', 'i', ns if k > 1 else ns[0]), ('ischan', 'i', [1 + sum(ns[:i]) for i in range(k)] if k > 1 else 1),
                     ('sfreq', 'd', f if k > 1 else f[0]), ('sdf', 'd', [x / 1024 for x in f] if k > 1 else f[0] / 1024), ('restfreq', 'd', f if k > 1 else f[0])):
        if nm not in spec['over']:
            spec['vars'][nm] = t
            for q in spec['recs']:
                q['set'].pop(nm, None)
            spec['recs'][0]['set'][nm] = v


def scenario(pid, seed, dry):
    r = random.Random('C15/%d' % seed)
    g = uvgen.G('C15/%d/ops' % seed, dict(PROFILE))
    sets = {}
    for nm in ('v', 'w') if r.random() < .7 else ('v',):
        while True:
            try:
                spec = [o for o in g.foreign() if o[0] == 'foreign'][0][2]
            except (StopIteration, KeyError, IndexError):
                continue
            if sum(q['d'][1] for q in spec['recs']) <= 4000:
                break
        if r.random() < .7:
            spec['over'] = {}
        if r.random() < .35:
            windows(r, spec)
        sets[nm] = {'spec': spec, 'by': r.choice(['mirfmt', 'mirfmt', 'aipy']) if not spec['style'].get('noflags') and not spec['over'] else 'mirfmt'}
    import aipy
    itemtable.update(aipy.miriad.itemtable)
    files = encode(sets['v']['spec'])       # where damage is put; a copy by aipy looks much the same
    ops, live = [], []
    dmg = lambda: ops.append(gen_damage(r, files))
    early = r.random() < .75
    if early:
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            dmg()
    nh = 0

    def open_(p):
        nh = len(live) + sum(o[0] == 'close' for o in ops)
        h = 'h%d' % nh
        ops.append(['open', h, p])
        live.append((h, p))
    open_('v')
    if 'w' in sets and r.random() < .6:
        open_('w')
    if not early:
        if r.random() < .7:
            ops.append(['read', live[0][0], r.choice([0, 1, 2]), False])
        dmg()
    for _ in range(r.choice([3, 6, 10])):
        k = r.random()
        if not live or k < .12:
            if len(live) < 4:
                open_(r.choice(['v', 'v', 'v', 'w']) if 'w' in sets else 'v')
            continue
        h, p = r.choice(live)
        if k < .45:
            ops.append([r.choice(['read', 'readall', 'readall']), h, r.randint(1, 4), r.random() < .3])
        elif k < .55:
            ops.append(['rewind', h])
        elif k < .68:
            ops.append(['look', h])
        elif k < .76:
            nm, f = r.choice(SEL)
            if 'nschan' in sets['v']['spec']['vars'] and r.random() < .4:
                nm, f = r.choice([('window', lambda r: (r.randint(1, 4), 0)), ('frequency', lambda r: (0., 1e4))])
            n1, n2 = f(r)
            ops.append(['select', h, nm, n1, n2, r.choice([1, 1, 0])])
        elif k < .79:
            ops.append(['select', h, 'decimate', r.choice([1, 2, 3]), 0, 1])
        elif k < .84:
            ops.append(['clone', h, 'c%d' % len(ops), r.random() < .4])
        elif k < .88:
            ops.append(['append', 'v'])
            dmg() if r.random() < .4 else None
        elif k < .91:
            ops.append(['edit', 'v', r.choice(['history', 'nsols', 'obstype', 'freqs'])])
        elif k < .94:
            ops.append(['files', ['v', 'w'] if 'w' in sets and r.random() < .4 else ['v'], r.choice(['all', 'cross', 'auto', '0_1'])])
        elif k < .96:
            dmg()
        else:
            ops.append(['close', h])
            live.remove((h, p))
    return {'seed': seed, 'profile': 'C15', 'cfg': {'fd_base': r.choice([0, 1000, 3]), 'sets': sets}, 'ops': ops}


# ------------------------------------------------------------------------------ execution
def num(v):
    if isinstance(v, np.ma.MaskedArray):
        return [hashlib.sha1(np.ma.getdata(v).tobytes()).hexdigest(), hashlib.sha1(np.ma.getmaskarray(v).tobytes()).hexdigest(), list(v.shape), str(v.dtype)]
    if isinstance(v, np.ndarray):
        return [hashlib.sha1(v.tobytes()).hexdigest(), list(v.shape), str(v.dtype)] if v.dtype != object else [num(x) for x in v]
    if isinstance(v, (tuple, list)):
        return [num(x) for x in v]
    if isinstance(v, dict):
        return [[str(k), num(v[k])] for k in sorted(v, key=str)]
    if isinstance(v, float):
        return struct.pack('>d', v).hex()
    if isinstance(v, complex):
        return struct.pack('>dd', v.real, v.imag).hex()
    return str(v) if not isinstance(v, (int, str, type(None))) else v


class Run(object):
    def __init__(self, scn, aipy, variant):
        self.scn, self.aipy, self.M = scn, aipy, aipy.miriad
        self.variant = variant
        self.h, self.trace, self.sig, self.stats, self.i = {}, [], [], {}, -1
        itemtable.update(self.M.itemtable)

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, cls, msg):
        raise Violation(cls, 'op %d: %s' % (self.i, msg))

    def files(self, p):
        pre = R + p + '/'
        return {x[len(pre):]: disk.read(x) for x in disk.paths() if x.startswith(pre)}

    def setup(self):
        gc.freeze()         # what was there before is not looked at again
        disk.reset()
        disk.fd_base(self.scn['cfg']['fd_base'])
        if self.variant:
            disk.fill(0x5A, 0x22, 0x7E)
        disk.malloc_max(1 << 25)
        self.truth = {}
        for p, d in sorted(self.scn['cfg']['sets'].items()):
            src = p if d['by'] == 'mirfmt' else p + '0'
            disk.mkdirs((R + src).encode())
            for k, b in sorted(encode(d['spec']).items()):
                disk.write(R + src + '/' + k, b)
            if d['by'] == 'aipy':
                a = self.M.UV(R + src)
                b = self.M.UV(R + p, 'new', corrmode='j' if d['spec']['corr'] == 'j' else 'r')
                b.init_from_uv(a)
                b.pipe(a)
                del a, b
                gc.collect()
            f = self.files(p)
            t = mirfmt.decode(f, False)
            t['ends'] = layout(f)[1]
            t['over'] = set(d['spec']['over'])
            t['good'], t['gflag'], t['data'] = len(f['visdata']), 1 << 60, True
            self.truth[p] = t

    # -- damage
    def op_damage(self, f, kind, *a):
        p = R + 'v/' + f
        b = disk.read(p)
        if b is None:
            return 'skip'
        n, at = len(b), 0
        if kind == 'flip':
            at, bit = a[0] % max(n, 1), a[1]
            b = b[:at] + bytes([b[at] ^ (1 << bit)]) + b[at + 1:] if n else b
        elif kind == 'put':
            at = min(a[0], n)
            b = b[:at] + bytes(a[1]) + b[at + len(a[1]):]
        elif kind == 'fill':
            at = min(a[0], n)
            m = min(a[1], n - at)
            b = b[:at] + bytes([a[2]]) * m + b[at + m:]
        elif kind == 'trunc':
            at = min(a[0], n)
            b = b[:at]
        elif kind == 'extend':
            at = n
            b = b + bytes([a[1]]) * a[0]
        elif kind == 'cut':
            at = min(a[0], n)
            b = b[:at] + b[at + a[1]:]
        elif kind == 'move':
            at = min(a[1], n)
            x = b[a[0]:a[0] + a[2]]
            b = b[:at] + x + b[at + len(x):]
        elif kind == 'set':
            b = bytes(a[0])
        elif kind == 'other':
            x = disk.read(R + 'v/' + a[0])
            b = b if x is None else x
        t = self.truth['v']
        if kind in ('lose', 'dir'):
            disk.rmtree(p.encode())
            if kind == 'dir':
                disk.mkdirs(p.encode())
        else:
            disk.write(p, b)
        if f == 'visdata':
            t['good'] = min(t['good'], at)
        elif f == 'flags':
            t['gflag'] = min(t['gflag'], max(0, (at - 4) // 4) * 31)
        elif f != 'history':
            t['data'] = False
        self.st('damage.%s.%s' % (f if f in NAMES else 'item', kind))
        return 'ok'

    # -- calls
    def op_open(self, h, p):
        self.h[h] = [self.M.UV(R + p), p, 0, False]
        return sorted(self.h[h][0].vars())

    def record(self, q, got, raw):
        """What was read must be the next record, as long as that lies before the damage."""
        t = self.truth.get(q[1])
        q[2] += 1
        if t is None or q[3] or not t['data'] or q[2] > len(t['recs']) or t['ends'][q[2] - 1] > t['good']:
            return
        e = t['recs'][q[2] - 1]
        where = '%s record %d (the damage begins at %d, it ends at %d)' % (q[1], q[2] - 1, t['good'], t['ends'][q[2] - 1])
        (uvw, tm, ij), d = got[0], got[1]
        if len(d) != len(e['data']) or np.ma.getdata(d).tobytes() != e['data'].tobytes():
            self.fail('wrong-data', where + ': other data than written')
        n0 = sum(len(x['data']) for x in t['recs'][:q[2] - 1])
        if n0 + len(d) <= t['gflag']:
            m = got[2] if raw else np.ma.getmaskarray(d)
            if not np.array_equal(np.asarray(m, bool), ~e['valid']):
                self.fail('wrong-data', where + ': another mask than written')
        x = [0., 0., 0.]
        x[:len(e['uvw'])] = e['uvw'][:3]
        if list(uvw) != x and 'coord' not in t['over'] or tm != e['t'] and 'time' not in t['over'] or tuple(ij) != tuple(e['ij']) and 'baseline' not in t['over']:
            self.fail('wrong-data', where + ': other coordinates than written')
        if t['over']:
            return
        uv = q[0]
        for k, (ty, v) in sorted(e['vars'].items()):
            g = uv[k]
            if ty == 'a':
                v = (v[:-1] if v.endswith(b'\0') else v).decode('utf-8', 'replace')
                ok = g == v
            else:
                g = np.atleast_1d(g)
                ok = g.shape == v.shape and np.array_equal(g.astype('c16'), v.astype('c16'), equal_nan=True)
            if not ok:
                self.fail('wrong-var', where + ': %s is %r, written as %r' % (k, g, v))
        self.st('compared')

    def must(self, q):
        """How many records must come before an error or the end."""
        t = self.truth.get(q[1])
        if t is None or q[3] or not t['data']:
            return 0
        n = sum(1 for e in t['ends'] if e <= t['good'])
        # its flags may be gone
        k = tot = 0
        for x in t['recs'][:n]:
            tot += len(x['data'])
            if tot > t['gflag']:
                break
            k += 1
        return k

    def op_read(self, h, n, raw):
        q = self.h[h]
        out = []
        for _ in range(n):
            try:
                x = q[0].read(raw=raw)
            except Exception as e:
                if not isinstance(e, Violation):
                    if q[2] < self.must(q):
                        self.fail('lost', '%s: %s: %s at record %d, of which %d lie before the damage' % (q[1], type(e).__name__, e, q[2], self.must(q)))
                    q[3] = q[3] or True
                raise
            out.append(num(x))
            self.record(q, x, raw)
        return out

    def op_readall(self, h, n, raw):
        q = self.h[h]
        out = []
        try:
            for x in q[0].all(raw=raw):
                out.append(num(x))
                self.record(q, x, raw)
        except Violation:
            raise
        except Exception as e:
            if q[2] < self.must(q):
                self.fail('lost', '%s: %s: %s at record %d, of which %d lie before the damage' % (q[1], type(e).__name__, e, q[2], self.must(q)))
            q[3] = q[3] or True
            raise
        if q[2] < self.must(q):
            self.fail('lost', '%s ends after %d records, of which %d lie before the damage' % (q[1], q[2], self.must(q)))
        q[3] = q[3] or True
        return out

    def op_rewind(self, h):
        q = self.h[h]
        q[0].rewind()
        if q[3] != 'sel':
            q[2], q[3] = 0, False
        return 'ok'

    def op_look(self, h):
        uv, out = self.h[h][0], []
        out.append(sorted(uv.items()))
        for k in sorted(uv.vars()) + sorted(itemtable):
            try:
                out.append([k, num(uv[k])])
            except (KeyError, IOError, RuntimeError, ValueError, AssertionError, MemoryError, TypeError, UnicodeError, struct.error) as e:
                out.append([k, type(e).__name__, str(e)])
        return out

    def op_select(self, h, nm, n1, n2, inc):
        q = self.h[h]
        q[3] = 'sel'
        q[0].select(nm, n1, n2, include=inc)
        return 'ok'

    def op_clone(self, h, dst, raw):
        q = self.h[h]
        a = q[0]
        q[3] = True if q[3] != 'sel' else 'sel'
        a.rewind()
        b = None
        try:
            b = self.M.UV(R + dst, 'new', corrmode='r')
            b.init_from_uv(a)
            b.pipe(a, raw=raw) if not raw else b.pipe(a, mfunc=lambda uv, p, d, f: (p, d, f), raw=True)
            del b
            b = None
            gc.collect()
            c = self.M.UV(R + dst)
            return [num(x) for x in c.all()]
        finally:
            b = None
            gc.collect()

    def op_append(self, p):
        self.truth[p]['data'] = False
        a = self.M.UV(R + p, 'append')
        a.add_var('lst', 'd')
        a['lst'] = 1.5
        a.write((np.array([1., 2., 3.]), 2455000.25, (0, 1)), np.ma.array(np.arange(5) + 1j, mask=np.arange(5) == 2))
        del a
        gc.collect()
        return 'ok'

    def op_edit(self, p, nm):
        self.truth[p]['data'] = False
        a = self.M.UV(R + p, 'append')
        a._wrhd(nm, {'history': 'new', 'nsols': 3, 'obstype': 'mixed', 'freqs': [2, 3, .1, .2, 3, .1, .2]}[nm])
        del a
        gc.collect()
        return 'ok'

    def op_files(self, ps, ant):
        r = self.M.read_files([R + p for p in ps], ant, -1)
        return num([{k: r[0][k] for k in r[0]}, [[list(k), r[1][k]] for k in sorted(r[1])], [[list(k), r[2][k]] for k in sorted(r[2])]])

    def op_close(self, h):
        uv = self.h.pop(h)
        uv[0] = None
        gc.collect()
        return 'ok'

    def step(self, o):
        if o[0] in ('read', 'readall', 'rewind', 'look', 'select', 'clone', 'close') and o[1] not in self.h:
            return self.sig.append(o[0] + ':skip')
        quiet = o[0] in ('open', 'read', 'readall', 'rewind', 'look', 'select', 'files')
        before = disk.hash() if quiet else None
        self.st('op.' + o[0])
        try:
            res = getattr(self, 'op_' + o[0])(*o[1:])
            kind = 'skip' if res == 'skip' else 'ok'
            if o[0] == 'damage':
                self.st('fault.damage')
        except Violation:
            raise
        except Exception as e:
            res = [type(e).__name__, str(e)]
            kind = 'refused' if o[0] != 'read' or type(e) is not IOError else 'end'
            self.st('refused')
            if o[0] == 'open' and o[2] == 'w' or o[0] == 'files' and o[1] == ['w']:
                self.fail('unexpected-error', '%s of the undamaged data set: %s: %s' % (o[0], type(e).__name__, e))
            if isinstance(e, (NameError, AttributeError, RecursionError, SystemError)):
                self.fail('unexpected-error', '%s: %s: %s' % (o[0], type(e).__name__, e))
            e = None
        gc.collect()
        if quiet and disk.hash() != before:
            self.fail('changed', '%s changed the disk' % o[0])
        self.trace.append(json.dumps([o[0], res], default=str))
        self.sig.append('%s:%s' % (o[0], kind))

    def run(self):
        self.setup()
        for self.i, o in enumerate(self.scn['ops']):
            self.step(o)
        self.i += 1
        # the data set next to it is as it was
        if 'w' in self.truth:
            self.h.clear()
            gc.collect()
            self.op_open('fin', 'w')
            self.op_readall('fin', 0, False)
        self.h.clear()
        gc.collect()
        if disk.nfds():
            self.fail('fd-leak', 'with every handle closed these are open: ' + ', '.join(disk.fd_path(k).decode() for k in range(disk.nfds())))
        return self.result()

    def result(self, **kw):
        return dict({'stats': self.stats, 'sig': self.sig, 'trace': self.trace, 'log': hashlib.sha1('\n'.join(self.trace).encode('utf-8', 'replace')).hexdigest(), 'disk': '%016x' % disk.hash()}, **kw)


def one(aipy, scn, variant):
    r = Run(scn, aipy, variant)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return r.run()
    except Violation as v:
        return r.result(violation=v.cls, msg=v.msg, op=r.i)


def run(aipy, scn, log=False):
    a = core.run_forked(lambda s: one(aipy, s, 0), scn)
    if 'violation' not in a and 'harness' not in a and 'killed' not in a:
        b = core.run_forked(lambda s: one(aipy, s, 1), scn)
        if 'harness' in b or 'killed' in b:
            return b
        if 'violation' in b:
            a = dict(a, violation=b['violation'], msg='with other memory contents: ' + b['msg'])
        elif a['trace'] != b['trace']:
            k = [x != y for x, y in zip(a['trace'], b['trace'])].index(True)
            a = dict(a, violation='uninitialised', msg='op %d: %s gave what was in memory: %s or %s' % (k, scn['ops'][k][0], a['trace'][k][:150], b['trace'][k][:150]))
        elif PADS and a['disk'] != b['disk']:
            a = dict(a, violation='uninitialised', msg='what was in memory was written to disk')
    a.pop('trace', None)
    return a
