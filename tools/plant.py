"""plant.py ID [CHECK...]: try the planted bug seeded/ID on /repo: does it apply, build, pass the stable tests, does its
demonstration tell it from the unchanged tree, and which checks catch it.  Leaves /repo as it was."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors='replace')


def demo(bid):
    d = tempfile.mkdtemp()
    try:
        shutil.copytree(os.path.join(VERIF, 'seeded', bid), d + '/x', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        return sh('timeout 300 bash %s/x/demo.sh' % d, cwd=REPO)
    finally:
        shutil.rmtree(d)


def main():
    bid = sys.argv[1]
    fast = '--checks-only' in sys.argv
    d = os.path.join(VERIF, 'seeded', bid)
    meta = json.load(open(d + '/meta.json'))
    checks = [a for a in sys.argv[2:] if not a.startswith('-')] or [meta['property']]
    base = 'b53ae75'
    assert not sh('git -C /repo status --porcelain')[1].strip(), '/repo is not clean'
    if not fast:
        sh('bash /opt/vp/build.sh')
        rc, out = demo(bid)
        print('%s: demo on the unchanged tree: %d' % (bid, rc), '' if rc == 0 else out[-800:])
    rc, out = sh('git -C /repo apply %s/patch.diff' % d)
    if rc:
        print('does not apply', out)
        return
    try:
        # the lines changed must be lines of the original repository
        files = sh('git -C /repo diff --name-only')[1].split()
        for f in files:
            diff = sh('git -C /repo diff -U0 -- %s' % f)[1].splitlines()
            old = [l for l in diff if l.startswith('-') and not l.startswith('---')]
            orig = sh('git -C /repo show %s:%s' % (base, f))[1].splitlines()
            new = [l[1:] for l in old if l[1:] not in orig]
            print('%s: %s: %d lines taken away, %d of them not in the original' % (bid, f, len(old), len(new)))
        if not fast:
            rc, out = sh('bash /opt/vp/build.sh')
            print('%s: build: %d' % (bid, rc))
            rc, out = sh('bash /opt/vp/test.sh /tmp/plant-out.json')
            bl = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
            print('%s: tests:' % bid, [l for l in out.splitlines() if ' passed' in l])
            rc, out = demo(bid)
            print('%s: demo with the patch: %d' % (bid, rc), '' if rc else out[-500:])
        for c in checks:
            t = time.time()
            rc, out = sh('bash run.sh %s quick' % c, cwd=VERIF, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            print('%s: check %s: %s in %.0f s' % (bid, c, 'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'ERROR %d' % rc, time.time() - t))
            print('    ' + '\n    '.join([l[:220] for l in out.splitlines() if l.startswith(('violation', '  '))][:3]) if rc == 1 else out[-400:])
    finally:
        sh('git -C /repo checkout -- .')
        if not fast:
            sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    main()
