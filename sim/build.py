"""Build the simulation copy of aipy from /repo's current working tree.

The package's Python files are copied and its four extension modules are compiled, out of tree,
into /verif/build/<digest of every input>/.  Nothing is written under /repo.  _miriad is linked
together with simdisk.cpp with `ld --wrap`, so its disk calls and allocations go to the simulator.
"""
from __future__ import print_function
import ast, fcntl, hashlib, os, shutil, subprocess, sys, sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('AIPY_SIM_REPO', '/repo')
BUILD = os.environ.get('AIPY_SIM_BUILD', os.path.join(VERIF, 'build'))
PY = '/opt/venv/bin/python'

WRAPS = ['open', 'open64', 'creat', 'lseek', 'lseek64', 'read', 'pread', 'pread64', 'write', 'pwrite', 'pwrite64',
         'close', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'ftruncate', 'fsync', 'fdatasync', 'stat', 'lstat',
         'fstat', 'stat64', 'lstat64', 'fstat64', 'ftruncate64', 'readdir64', 'access', 'opendir', 'readdir', 'closedir', 'fcntl', 'fcntl64', 'dup', 'malloc', 'calloc', 'realloc',
         'free', '_Znam', '_ZdaPv', '_ZdaPvm']


class BuildError(Exception):
    pass


def inputs():
    out = []
    for top in ('aipy', 'scripts', 'setup.py', 'VERSION'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'build'))
            for f in sorted(files):
                if top == 'aipy' and not (d.endswith('_src') and f.endswith('.txt')) and not f.endswith(('.py', '.c', '.cpp', '.cc', '.h', '.hpp', '.cxx', '.hh')):
                    continue
                out.append(os.path.join(d, f))
    return sorted(out)


def digest(extra=''):
    h = hashlib.sha256()
    for p in inputs() + [os.path.join(HERE, 'simdisk.cpp'), os.path.join(HERE, 'build.py')]:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(extra.encode())
    return h.hexdigest()[:20]


def extensions():
    """The extension modules as setup.py declares them (name, sources, include dirs, macros)."""
    code = r'''
import sys, json, os, setuptools
got = []
def setup(**kw):
    for e in kw.get("ext_modules", []):
        got.append(dict(name=e.name, sources=list(e.sources), include_dirs=list(e.include_dirs),
                        macros=[list(m) for m in e.define_macros], libs=list(e.libraries),
                        cargs=list(e.extra_compile_args or []), largs=list(e.extra_link_args or [])))
setuptools.setup = setup
sys.argv = ["setup.py"]
exec(compile(open("setup.py").read(), "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
print("@@" + json.dumps(got))
'''
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', SETUPTOOLS_SCM_PRETEND_VERSION='3.0.2')
    r = subprocess.run([PY, '-W', 'ignore', '-c', code], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    line = [l for l in r.stdout.decode().splitlines() if l.startswith('@@')]
    if not line:
        raise BuildError('setup.py: ' + r.stderr.decode()[-2000:])
    import json
    return json.loads(line[0][2:])


def run(cmd):
    r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:400] + '\n' + r.stdout.decode(errors='replace')[-4000:])


def build(verbose=False, asan=False):
    """Return the directory to put first on sys.path."""
    tag = 'asan' if asan else 'opt'
    dig = digest(tag)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, tag + '-' + dig)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, '.done')):
            return out
        for d in os.listdir(BUILD):                       # one build per tag is kept
            if d.startswith(tag + '-') or d.startswith('tmp-' + tag):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = os.path.join(BUILD, 'tmp-%s-%d' % (tag, os.getpid()))
        os.makedirs(tmp)
        pkg = os.path.join(tmp, 'aipy')
        for p in inputs():
            rel = os.path.relpath(p, REPO)
            if rel.endswith(('.py', '.txt')) and rel.startswith('aipy' + os.sep) or rel.startswith('scripts' + os.sep):
                dst = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(p, dst)
        suffix = sysconfig_suffix()
        inc = sysconfig_include()
        jobs = []
        opt = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-omit-frame-pointer'] if asan else ['-O2', '-g0']
        from concurrent.futures import ThreadPoolExecutor
        links = []
        pool = ThreadPoolExecutor(8)
        for e in extensions():
            objs = []
            srcs = [os.path.join(REPO, s) for s in e['sources']]
            sim = e['name'] == 'aipy._miriad'
            sim = True                      # every extension gets the allocator seam
            srcs.append(os.path.join(HERE, 'simdisk.cpp'))
            for i, s in enumerate(srcs):
                o = os.path.join(tmp, '%s.%d.o' % (e['name'], i))
                cc = 'gcc' if s.endswith('.c') else 'g++'
                cmd = [cc, '-fPIC', '-w', '-fwrapv', '-DNDEBUG', '-U_FORTIFY_SOURCE', '-c', s, '-o', o] + opt
                cmd += ['-I' + os.path.join(REPO, d) if not os.path.isabs(d) else '-I' + d for d in e['include_dirs']]
                cmd += ['-I' + inc] + ['-D%s%s' % (m[0], '' if m[1] is None else '=' + m[1]) for m in e['macros']] + e['cargs']
                objs.append(o)
                jobs.append(pool.submit(run, cmd))
            so = os.path.join(tmp, e['name'].replace('.', os.sep) + suffix)
            os.makedirs(os.path.dirname(so), exist_ok=True)
            links.append(['g++', '-shared', '-o', so] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS), '-Wl,-Bsymbolic']
                         + (['-fsanitize=address,undefined'] if asan else []) + e['largs'] + ['-l' + l for l in e['libs']])
        for j in jobs:
            j.result()
        for r in [pool.submit(run, l) for l in links]:
            r.result()
        pool.shutdown()
        for f in os.listdir(tmp):
            if f.endswith('.o'):
                os.unlink(os.path.join(tmp, f))
        open(os.path.join(tmp, '.done'), 'w').close()
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


def sysconfig_suffix():
    return subprocess.check_output([PY, '-c', 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))']).decode().strip()


def sysconfig_include():
    return subprocess.check_output([PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])']).decode().strip()


if __name__ == '__main__':
    print(build(asan='--asan' in sys.argv))
