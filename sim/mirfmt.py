"""The MIRIAD uv data-set format, read and written without the code under test.

After the MIRIAD programmers' guide: a data set is a directory.  `vartable` names the variables ("type name" per
line, the line number is the variable's index).  `visdata` is a stream of entries, each beginning at a multiple of
eight with a header [index, 0, kind, 0]; kind 0 gives the variable's size in bytes as an integer, kind 1 its value at
the next multiple of its own size, kind 2 ends a record.  `flags` is an item of integers holding 31 channel flags
each, low bit first, set for good, channel after channel, record after record.  Numbers are big-endian; an item other
than text starts with [0, 0, 0, type].  Items of at most 64 bytes, except `history`, are kept in `header`: 15 bytes of name, one of
size, the value, padded to 16."""
import random, struct
import numpy as np

SIZE = {'a': 1, 'i': 4, 'j': 2, 'r': 4, 'd': 8, 'c': 8, 'l': 8}
FMT = {'i': '>i4', 'j': '>i2', 'r': '>f4', 'd': '>f8', 'c': '>c8', 'l': '>i8'}
TYPE = {'a': 1, 'i': 2, 'j': 3, 'r': 4, 'd': 5, 'c': 7, 'l': 8}
BYNUM = {v: k for k, v in TYPE.items()}


class Bad(Exception):
    pass


def up(x, n):
    return (x + n - 1) // n * n


# ------------------------------------------------------------------------------ items
def unpack_header(b):
    out, o = {}, 0
    while o < len(b):
        if len(b) - o < 16:
            raise Bad('header ends within an entry at %d' % o)
        name, n = b[o:o + 15].split(b'\0')[0].decode('latin1'), b[o + 15]
        o += 16
        if not name or name in out:
            raise Bad('header has the name %r at %d%s' % (name, o - 16, ' again' if name else ''))
        if o + n > len(b):
            raise Bad('item %s runs over the end of the header' % name)
        out[name] = b[o:o + n]
        o = min(up(o + n, 16), max(len(b), o + n))
    return out


def item(files, name):
    """The bytes of an item, or None.  What the header holds counts, should there also be a file."""
    h = unpack_header(files.get('header', b''))
    return h.get(name, files.get(name))


def item_value(b, typ):
    if typ == 'a':
        return b.decode('utf-8')
    if len(b) < 4 or b[:3] != b'\0\0\0' or b[3] != TYPE[typ]:
        raise Bad('an item of type %s begins with %r' % (typ, b[:4]))
    o = up(4, SIZE[typ])
    if len(b) == 4:
        return np.zeros(0, FMT[typ])
    if (len(b) - o) % SIZE[typ]:
        raise Bad('an item of type %s is %d bytes long' % (typ, len(b)))
    return np.frombuffer(b[o:], FMT[typ])


def pack_item(typ, v):
    if typ == 'a':
        return v.encode('utf-8')
    b = bytes([0, 0, 0, TYPE[typ]])
    return b + b'\0' * (up(4, SIZE[typ]) - 4) + np.asarray(v, FMT[typ]).tobytes()


def pack_header(items):
    out = b''
    for k, b in items:
        out += k.encode().ljust(15, b'\0') + bytes([len(b)]) + b
        out += b'\0' * (up(len(out), 16) - len(out))
    return out


# ------------------------------------------------------------------------------ the stream
def vartable(b):
    out = []
    for l in b.decode('ascii').split('\n'):
        if l:
            t, n = l.split()
            if t not in SIZE:
                raise Bad('vartable has type %r' % t)
            out.append((n, t))
    if len(set(n for n, _ in out)) != len(out):
        raise Bad('vartable names a variable twice')
    return out


def value(typ, b):
    return b if typ == 'a' else np.frombuffer(b, FMT[typ])


def entries(b, vt):
    """-> (kind, name, type, value) ... of a whole stream"""
    size = {}
    o = 0
    while o < len(b):
        if len(b) - o < 4:
            raise Bad('the stream ends within a header')
        v, z1, kind, z2 = b[o:o + 4]
        if kind == 2:
            yield 'eor', None, None, None
            o = up(o + 4, 8)
            continue
        if v >= len(vt) or kind > 2:
            raise Bad('entry %r at %d' % (b[o:o + 4], o))
        n, t = vt[v]
        if kind == 0:
            size[n] = struct.unpack('>i', b[o + 4:o + 8])[0]
            if size[n] < 0 or size[n] % SIZE[t]:
                raise Bad('%s is of %d bytes' % (n, size[n]))
            yield 'size', n, t, size[n]
            o += 8
            continue
        if n not in size:
            raise Bad('value of %s before its size' % n)
        o += max(4, SIZE[t])
        if o + size[n] > len(b):
            raise Bad('the stream ends within %s' % n)
        yield 'data', n, t, value(t, b[o:o + size[n]])
        o = up(o + size[n], 8)


def decode(files, needflags=True, loose=False):
    """files: name -> bytes.  -> {'vars', 'items' (bytes), 'recs': [{'uvw','t','ij','data','valid','vars'}]}"""
    vt = vartable(item(files, 'vartable'))
    types = dict(vt)
    cur, fresh, recs = {}, {}, []
    nflag = 0
    fl = item(files, 'flags')
    bits = None
    if fl is not None:
        w = item_value(fl[:len(fl) // 4 * 4] if loose else fl, 'i').astype('u4')
        bits = ((w[:, None] >> np.arange(31, dtype='u4')) & 1).astype(bool).ravel()
    stream = files['visdata']
    b = item(files, 'vislen')
    if b is None:
        raise Bad('there is no item vislen')
    b = item_value(b, BYNUM.get(b[3]))
    if len(b) != 1:
        raise Bad('vislen is %r' % (b,))
    if int(b[0]) < len(stream) and not loose:
        raise Bad('vislen is %d, visdata is of %d bytes' % (b[0], len(stream)))
    stream = stream[:int(b[0])]
    for kind, n, t, v in entries(stream, vt):
        if kind == 'size':
            continue
        if kind == 'data':
            cur[n] = v
            fresh[n] = True
            continue
        if 'corr' not in fresh:
            raise Bad('record %d has no data' % len(recs))
        d = cur['corr']
        if types['corr'] == 'r':
            c = d.astype('f4').view('c8')
        elif types['corr'] == 'c':
            c = d.astype('c8')
        else:
            c = (d.astype('f4') * np.float32(cur['tscale'][0])).astype('f4').view('c8')
        k = len(c)
        if bits is None:
            valid = np.ones(k, bool)
        else:
            if nflag + k > len(bits):
                raise Bad('record %d has no flags' % len(recs))
            valid = bits[nflag:nflag + k]
        nflag += k
        bl = int(cur['baseline'][0])
        i, j = ((bl - 65536) // 2048, (bl - 65536) % 2048) if bl > 65536 else (bl // 256, bl % 256)
        recs.append({'uvw': [float(x) for x in cur['coord']] + [0.] * (3 - len(cur['coord'])), 't': float(cur['time'][0]), 'ij': (i - 1, j - 1), 'data': c.copy(), 'valid': valid.copy(),
                     'vars': {x: (types[x], cur[x]) for x in cur if x not in ('corr', 'coord', 'time', 'baseline', 'tscale')}})
        fresh = {}
    if 'corr' in fresh:
        raise Bad('the stream ends within a record')
    if bits is not None and len(bits) - nflag >= 31 and not loose:
        raise Bad('%d flags for %d channels' % (len(bits), nflag))
    if bits is None and nflag and needflags:
        raise Bad('there are no flags')
    for n, want in (('vislen', up(len(stream), 8)), ('ncorr', nflag)):
        b = item(files, n)
        if b is None:
            raise Bad('there is no item ' + n)
        v = item_value(b, BYNUM.get(b[3]))
        if len(v) != 1 or int(v[0]) != want:
            raise Bad('%s is %s, it should be %d' % (n, v, want))
    return {'types': types, 'recs': recs}


def encode(recs, types, items, style, seed):
    """The files of a data set with these records, as another program might have written them.
    recs: [{'uvw','t','ij','data','valid','vars': {name: (type, numpy array or bytes)}}]"""
    r = random.Random(seed)
    names = ['corr', 'coord', 'time', 'baseline'] + (['tscale'] if types['corr'] == 'j' else []) + [n for n in types if n != 'corr']
    r.shuffle(names)
    types = dict(types, coord='d', time='d', baseline='r', tscale='r')
    out = bytearray()
    size, last = {}, {}
    flags = []

    def put(n, v, force=False):
        t = types[n]
        b = v if isinstance(v, bytes) else np.asarray(v, FMT[t]).tobytes()
        if last.get(n) == b and not force and not (style.get('repeat') and r.random() < .5):
            return
        if size.get(n) != len(b) or (style.get('resize') and r.random() < .3):
            out.extend(bytes([names.index(n), 0, 0, 0]) + struct.pack('>i', len(b)))
            size[n] = len(b)
        out.extend(bytes([names.index(n), 0, 1, 0]))
        out.extend(b'\0' * (max(4, SIZE[t]) - 4))
        out.extend(b)
        out.extend(b'\0' * (up(len(out), 8) - len(out)))
        last[n] = b
    for q in recs:
        i, j = q['ij'][0] + 1, q['ij'][1] + 1
        todo = [('coord', q['uvw'][:2] if style.get('uv2') else q['uvw']), ('time', [q['t']]), ('baseline', [256 * i + j if j < 256 and i < 256 and not (style.get('wide_bl') and i <= j) else 2048 * i + j + 65536])]
        todo += [(n, v) for n, (t, v) in q['vars'].items()]
        d = np.ascontiguousarray(q['data'], 'c8').view('f4')
        if types['corr'] == 'j':
            sc = np.float32(max(float(np.max(np.abs(d))), 1e-6) / 32767.)
            d = np.rint(d / sc).astype('i2')
            todo.append(('tscale', [sc]))
        if style.get('order'):
            r.shuffle(todo)
        for n, v in todo:
            put(n, v)
        put('corr', d, True)
        out.extend(bytes([0, 0, 2, 0]))
        out.extend(b'\0' * (up(len(out), 8) - len(out)))
        flags += [bool(x) for x in q['valid']]
    files = {'visdata': bytes(out), 'vartable': ''.join('%s %s\n' % (types[n], n) for n in names).encode()}
    if not style.get('noflags'):
        n = up(len(flags), 31)
        f = np.zeros(n, 'u4')
        f[:len(flags)] = flags
        f[len(flags):] = [r.random() < .5 for _ in range(n - len(flags))] if style.get('junk') else 0
        files['flags'] = pack_item('i', (f.reshape(-1, 31) << np.arange(31, dtype='u4')).sum(axis=1).astype('i4'))
    if style.get('wflags'):
        files['wflags'] = pack_item('i', [0])
    t = 'l' if not style.get('int_len') else 'i'
    items = items + [('vislen', pack_item(t, [up(len(out), 8)])), ('ncorr', pack_item(t, [len(flags)])), ('nwcorr', pack_item(t, [0]))]
    if style.get('small_vt') and len(files['vartable']) <= 64:
        items.append(('vartable', files.pop('vartable')))
    if style.get('order'):
        r.shuffle(items)
    small = []
    for k, b in items:
        if k != 'history' and len(b) <= 64 and not (style.get('ownfile') and r.random() < .4):
            small.append((k, b))
        else:
            files[k] = b
    files['header'] = pack_header(small)
    return files
