"""Fork runner: every scenario runs in a fresh child of a warmed-up parent, so the C library's static
state is new each time and a crash of the library is an observation, not the end of the check."""
from __future__ import print_function
import glob, hashlib, json, os, resource, select, signal, struct, sys, time, traceback

# one thread per run: no scheduling of threads inside a run, and no more of them than cores
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
heap = list              # set by load(): the damaged heap blocks
CPU_LIMIT = 60           # seconds of CPU a scenario may use; a normal one takes 0.01-2


def load():
    """Import aipy from a build of /repo's working tree, with its disk attached."""
    import build
    d = build.build()
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    import warnings
    warnings.simplefilter('ignore')
    import aipy
    assert aipy.__file__.startswith(d), aipy.__file__
    import disk
    disk.attach(glob.glob(d + '/aipy/_miriad*.so')[0])
    global heap
    heap = disk.heap(sorted(glob.glob(d + '/aipy/*.so')))
    import numpy
    disk.numpy_heap(numpy)
    return aipy


def read_all(fd):
    out = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return b''.join(out)
        out.append(b)


def run_forked(fn, arg):
    """Run fn(arg) in a forked child -> its result dict, or one which says how it died."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            nul = os.open('/dev/null', os.O_WRONLY)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            try:
                res = fn(arg)
                bad = heap()
                if bad and 'violation' not in res:
                    res.update(violation='heap', msg='%d blocks of memory of %s were written past their end (one of %d bytes)' % (bad[0][0], os.path.basename(bad[0][2]).split('.')[0], bad[0][1]))
            except BaseException:
                res = {'harness': traceback.format_exc()[-3000:]}
            b = json.dumps(res).encode()
            while b:
                b = b[os.write(wr, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    b = read_all(rd)
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGKILL:
            return {'killed': True}                       # out of memory: says nothing about the code
        if sig == signal.SIGXCPU:
            return {'violation': 'hang', 'msg': 'the call did not come back within %d s of CPU time' % CPU_LIMIT}
        return {'violation': 'process-death', 'msg': 'the process died of signal %d (%s)' % (sig, signal.Signals(sig).name)}
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) != 0 or not b:
        return {'violation': 'process-death', 'msg': 'the process exited with status %s' % os.WEXITSTATUS(st)}
    return json.loads(b.decode())


def uv_run(aipy, scn, want_log=False):
    import uvsim, disk
    r = uvsim.Runner(scn, aipy)
    out = {}
    try:
        out = r.run()
    except uvsim.Violation as v:
        out = {'violation': v.cls, 'msg': v.msg, 'stats': dict(r.stats), 'sig': r.sig, 'op': r.i}
        if hasattr(v, 'crash'):
            out['crash'] = v.crash
    ev = disk.events()
    out['nevents'] = len(ev)
    out['log'] = hashlib.sha1('\n'.join(ev).encode('utf-8', 'replace')).hexdigest()
    out['disk'] = '%016x' % disk.hash()
    if want_log:
        out['events'] = ev
    return out


def main():
    aipy = load()
    import uvgen, profiles
    prof = profiles.PROFILES[sys.argv[1]]
    a, b = int(sys.argv[2]), int(sys.argv[3])
    t = time.time()
    n = 0
    import collections
    tot = collections.Counter()
    for seed in range(a, b):
        scn = profiles.scenario(sys.argv[1], seed, lambda q: run_forked(lambda s: uv_run(aipy, s), q))
        res = run_forked(lambda s: uv_run(aipy, s), scn)
        n += 1
        tot.update(res.get('stats', {}))
        if 'harness' in res or 'violation' in res or 'killed' in res:
            print(seed, len(scn['ops']), {k: v for k, v in res.items() if k not in ('stats', 'sig', 'harness')})
            if 'harness' in res:
                print(res['harness'])
            if len(sys.argv) > 4:
                for o in scn['ops']:
                    print('  ', json.dumps(o))
    print('%d in %.1fs' % (n, time.time() - t), dict(tot))


if __name__ == '__main__':
    main()
