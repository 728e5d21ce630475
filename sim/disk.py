"""ctypes surface of the simulated disk (simdisk.cpp) linked into the _miriad simulation build."""
import ctypes, errno
L = None
CLASSES = ['open', 'read', 'write', 'lseek', 'close', 'mkdir', 'rmdir', 'unlink', 'opendir', 'readdir', 'stat', 'sync', 'rename', 'malloc', 'numpy']
CID = {n: i for i, n in enumerate(CLASSES)}
ERR, SHORT = 1, 2
MUT = ['create', 'trunc', 'write', 'unlink', 'mkdir', 'rmdir', 'rename', 'setsize']
ROOT = '/simfs'


def attach(so):
    global L
    L = ctypes.CDLL(so)
    ll, l, i, s, v = ctypes.c_longlong, ctypes.c_long, ctypes.c_int, ctypes.c_char_p, None
    for name, res, args in [
            ('reset', v, []), ('fd_base', v, [i]), ('malloc', v, [i]), ('np', v, [i]), ('capacity', v, [ll]), ('used', ll, []), ('capacity_hits', l, []),
            ('plan_clear', v, []), ('plan_add', i, [i, l, i, i, l, i]), ('plan_fired', l, [i]), ('count', l, [i]),
            ('nevents', l, []), ('event', s, [l]), ('note', v, [s]), ('events_clear', v, []), ('nfds', l, []), ('fd_path', s, [l]),
            ('mark', v, []), ('njournal', l, []), ('jkind', i, [l]), ('jpath', s, [l]), ('jlen', ll, [l]), ('jevent', l, [l]),
            ('stash', v, []), ('crash', v, [l, ll]), ('restore', v, []), ('exists', i, [s]), ('size', ll, [s]),
            ('get', ll, [s, s, ll]), ('put', v, [s, s, ll]), ('mkdirs', v, [s]), ('rmtree', v, [s]), ('npaths', l, []), ('path', s, [l]),
            ('hash', ctypes.c_ulonglong, []), ('fill', v, [i, i, i]), ('malloc_max', v, [l]), ('bump', v, [s, ll, i])]:
        f = getattr(L, 'sim_' + name)
        f.restype, f.argtypes = res, args
        if name != 'note':
            globals()[name] = f
    L.sim_reset()


def heap(sos):
    """-> a function which says how many heap blocks of these extensions (and numpy arrays) were written past their end."""
    libs = [ctypes.CDLL(so) for so in sos]
    for l in libs:
        l.sim_heap.restype = l.sim_heap_size.restype = ctypes.c_long

    def damage():
        n = [(l.sim_heap(), l.sim_heap_size(), so) for l, so in zip(libs, sos)]
        return [x for x in n if x[0]]
    return damage


def numpy_heap(np):
    """From here on numpy's arrays live between canaries too, and fresh ones are filled with a fixed pattern."""
    if not hasattr(L, 'sim_np_malloc'):
        return
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype, api.PyCapsule_GetPointer.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype, api.PyCapsule_New.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    core = getattr(np, '_core', None) or np.core
    table = ctypes.cast(api.PyCapsule_GetPointer(core._multiarray_umath._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))

    class Handler(ctypes.Structure):
        _fields_ = [('name', ctypes.c_char * 127), ('version', ctypes.c_uint8), ('ctx', ctypes.c_void_p), ('malloc', ctypes.c_void_p),
                    ('calloc', ctypes.c_void_p), ('realloc', ctypes.c_void_p), ('free', ctypes.c_void_p)]
    adr = lambda n: ctypes.cast(getattr(L, 'sim_np_' + n), ctypes.c_void_p).value
    h = Handler(b'sim', 1, None, adr('malloc'), adr('calloc'), adr('realloc'), adr('free'))
    cap = api.PyCapsule_New(ctypes.addressof(h), b'mem_handler', None)
    numpy_heap.keep = h, cap
    ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])(cap)       # PyDataMem_SetHandler

def plan_fault(cls, nth, kind, err=0, arg=0, sticky=0):
    return L.sim_plan_add(CID[cls], nth, kind, err, arg, sticky)


def events():
    return [L.sim_event(k).decode('utf-8', 'replace') for k in range(L.sim_nevents())]


def note(s):
    L.sim_note(s.encode('utf-8', 'replace'))


def journal():
    return [(MUT[L.sim_jkind(k)], L.sim_jpath(k).decode(), L.sim_jlen(k)) for k in range(L.sim_njournal())]


def paths():
    return [L.sim_path(k).decode() for k in range(L.sim_npaths())]


def read(p):
    p = p.encode()
    n = L.sim_size(p)
    if n < 0:
        return None
    b = ctypes.create_string_buffer(max(n, 1))
    L.sim_get(p, b, n)
    return b.raw[:n]


def write(p, data):
    L.sim_put(p.encode(), data, len(data))
