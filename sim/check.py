"""check.py PROPERTY [--replay FILE] [--tier quick|thorough] [--seed N] [--runs N]

Decides one property by seeded simulation.  Exit 0: it held on every run; exit 1 and a line
"VIOLATION property=<id> replay=<path>": it did not."""
from __future__ import print_function
import argparse, collections, hashlib, json, mmap, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
import core, sims

VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
WORKERS = 8
MIN_TIME = 90


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ :: (.*)$', l.rstrip('\n'))
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def is_known(known, res):
    for k, (cls, rx, txt) in enumerate(known):
        if res['violation'] == cls and rx.search(res.get('msg', '')):
            return k
    return None


class Engine(object):
    def __init__(self, pid):
        self.pid = pid
        self.sim = sims.SIMS[pid]
        self.aipy = core.load()

    def once(self, scn):
        res = core.run_forked(lambda s: self.sim.run(self.aipy, s), scn)
        if 'harness' in res:
            # the simulator itself met something it did not expect of the code
            res = dict(res, violation='harness-exception', msg=res['harness'].strip().splitlines()[-1][:300])
        return res

    def scenario(self, seed):
        return self.sim.scenario(seed, self.once)


def worker(eng, seeds, deadline, flag, known, wr):
    stats, sigs = collections.Counter(), set()
    out = {'runs': 0, 'killed': 0, 'viol': [], 'known': {}, 'samples': [], 'simtime': 0.0}
    nt = set()
    for idx, seed in seeds:
        if time.time() > deadline or flag[0]:
            break
        scn = eng.scenario(seed)
        res = eng.once(scn)
        out['runs'] += 1
        if res.get('killed'):
            out['killed'] += 1
            continue
        stats.update(res.get('stats', {}))
        out['simtime'] += res.get('simtime', 0.0)
        h = hashlib.sha1('|'.join(res.get('sig', [])).encode()).hexdigest()[:16]
        sigs.add(h)
        if eng.sim.nontrivial(res):
            nt.add(h)
        if 'violation' in res:
            k = is_known(known, res)
            if k is not None:
                out['known'][str(k)] = out['known'].get(str(k), 0) + 1
                continue
            out['viol'].append([idx, seed, res['violation'], res.get('msg', '')])
            flag[0] = 1
            break
        if len(out['samples']) < 1 and eng.sim.nontrivial(res):
            out['samples'].append({'seed': seed, 'cfg': scn.get('cfg'), 'ops': [json.dumps(o)[:160] for o in scn['ops'][:25]],
                                   'of_ops': len(scn['ops']), 'outcome': res.get('sig', [])[:25]})
    out['stats'] = dict(stats)
    out['sigs'] = sorted(sigs)
    out['nt'] = sorted(nt)
    b = json.dumps(out).encode()
    while b:
        b = b[os.write(wr, b):]


def explore(eng, seed, n, cap, known):
    flag = mmap.mmap(-1, 1)
    flag[0] = 0
    deadline = time.time() + cap
    kids = []
    base = seed * 10000000
    for w in range(WORKERS):
        rd, wr = os.pipe()
        # runs of six follow one another in one worker: the placements of faults on one workload
        seeds = [(i, base + i) for i in range(n) if (i // 6) % WORKERS == w]
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for r, _ in kids:
                    os.close(r)
                worker(eng, seeds, deadline, flag, known, wr)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        os.close(wr)
        kids.append((rd, pid))
    tot = {'runs': 0, 'killed': 0, 'viol': [], 'known': collections.Counter(), 'samples': [], 'stats': collections.Counter(),
           'sigs': set(), 'nt': set(), 'simtime': 0.0, 'lost': 0}
    for rd, pid in kids:
        b = core.read_all(rd)
        os.close(rd)
        os.waitpid(pid, 0)
        if not b:
            tot['lost'] += 1
            continue
        o = json.loads(b.decode())
        tot['runs'] += o['runs']
        tot['killed'] += o['killed']
        tot['viol'] += o['viol']
        tot['known'].update(o['known'])
        tot['samples'] += o['samples']
        tot['stats'].update(o['stats'])
        tot['sigs'].update(o['sigs'])
        tot['nt'].update(o['nt'])
        tot['simtime'] += o['simtime']
    tot['viol'].sort()
    return tot


def minimise(eng, scn, cls, deadline):
    """Delete ops while the same class of violation remains (ddmin)."""
    def bad(ops):
        r = eng.once(dict(scn, ops=ops))
        return r.get('violation') == cls

    limit = core.CPU_LIMIT
    if cls == 'hang':
        core.CPU_LIMIT = 12
    ops = list(scn['ops'])
    try:
        # nothing after the op that shows it matters, unless it shows at the end
        n = 2
        while len(ops) >= 2 and time.time() < deadline:
            step = max(1, len(ops) // n)
            for a in range(0, len(ops), step):
                if time.time() > deadline:
                    break
                cand = ops[:a] + ops[a + step:]
                if cand and bad(cand):
                    ops = cand
                    n = max(n - 1, 2)
                    break
            else:
                if step == 1:
                    break
                n = min(len(ops), n * 2)
        # the repetitions of a repeated op, and the width of what is written
        for i, o in enumerate(ops):
            if o and o[0] == 'soak':
                for k in (1, 5, 30):
                    if k < o[1] and time.time() < deadline and bad(ops[:i] + [[o[0], k] + o[2:]] + ops[i + 1:]):
                        ops[i] = [o[0], k] + o[2:]
                        break
    finally:
        core.CPU_LIMIT = limit
    return dict(scn, ops=ops)


def report(eng, args, tot):
    """Turn the first reproducible violation into a replay file -> its path or None."""
    for idx, seed, cls, msg in tot['viol'][:8]:
        scn = eng.scenario(seed)
        res = None
        for _ in range(3):
            res = eng.once(scn)
            if res.get('violation'):
                break
        if not res or not res.get('violation') or is_known(known_findings(eng.pid), res) is not None:
            continue
        cls = res['violation']
        small = minimise(eng, scn, cls, time.time() + MIN_TIME)
        res = eng.once(small)
        if res.get('violation') != cls:
            small = scn
            res = eng.once(small)
        if res.get('crash'):
            small = dict(small, cfg=dict(small['cfg'], crash=[res['crash']]))
            r2 = eng.once(small)
            if r2.get('violation') == cls:
                res = r2
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (eng.pid, seed))
        with open(p, 'w') as f:
            json.dump({'property': eng.pid, 'seed': seed, 'scenario': small, 'expect': {k: res.get(k) for k in ('violation', 'msg', 'log', 'disk', 'crash')}}, f, indent=1)
        r = subprocess.run([PY, os.path.abspath(__file__), eng.pid, '--replay', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, PYTHONHASHSEED='4242'))
        exact = b'reproduced exactly' in r.stdout
        print('violation of %s (seed %d): %s: %s' % (eng.pid, seed, res.get('violation'), res.get('msg')))
        print('  %d ops (of %d) in %s; a new process %s' % (len(small['ops']), len(scn['ops']), p, 'reproduces it exactly' if exact else 'gives: ' + r.stdout.decode(errors='replace')[-300:]))
        for o in small['ops']:
            print('    ' + json.dumps(o)[:200])
        return p
    return None


def replay(eng, path):
    rep = json.load(open(path))
    res = eng.once(rep['scenario'])
    exp = rep['expect']
    if not res.get('violation'):
        print('replay: the run is now without violation')
        return 0
    same = all(res.get(k) == exp.get(k) for k in ('violation', 'msg', 'log', 'disk'))
    print('%s: %s' % (res['violation'], res.get('msg')))
    print('reproduced exactly' if same else 'a violation, but not the recorded one: %s: %s' % (exp.get('violation'), exp.get('msg')))
    print('VIOLATION property=%s replay=%s' % (eng.pid, path))
    return 1


def selftest(eng, seed, k=3):
    """The same seeds here and in another process (with another hash seed) must be the same execution."""
    out = []
    for i in range(k):
        res = eng.once(eng.scenario(seed * 10000000 + i))
        out.append([res.get('log'), res.get('disk'), hashlib.sha1(json.dumps(res.get('sig', [])).encode()).hexdigest()])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    args = ap.parse_args()
    t0 = time.time()
    eng = Engine(args.pid)
    if args.replay:
        sys.exit(replay(eng, args.replay))
    if args.selftest:
        print('@@' + json.dumps(selftest(eng, args.seed)))
        return
    sim = eng.sim
    n, cap = sim.thorough if args.tier == 'thorough' else sim.quick
    known = known_findings(args.pid)
    t1 = time.time()
    tot = explore(eng, args.seed, args.runs or n, cap, known)
    wall = time.time() - t1
    for k, c in sorted(tot['known'].items()):
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (args.pid, known[int(k)][2], c))
    path = report(eng, args, tot) if tot['viol'] else None
    if tot['viol'] and not path:
        print('note: %d violation(s) could not be repeated and are not reported: %s' % (len(tot['viol']), tot['viol'][:2]))
    r = subprocess.run([PY, os.path.abspath(__file__), args.pid, '--selftest', '--seed', str(args.seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(os.environ, PYTHONHASHSEED=str(1000 + args.seed)))
    st = [json.loads(l[2:]) for l in r.stdout.decode().splitlines() if l.startswith('@@')]
    same = bool(st) and st[0] == selftest(eng, args.seed)
    ops = {k[3:]: v for k, v in sorted(tot['stats'].items()) if k.startswith('op.') and v}
    faults = {k[6:]: v for k, v in sorted(tot['stats'].items()) if k.startswith('fault.') and v}
    faulted = {k[8:]: v for k, v in sorted(tot['stats'].items()) if k.startswith('faulted.') and v}
    other = {k: v for k, v in sorted(tot['stats'].items()) if k.split('.')[0] not in ('op', 'fault', 'faulted') and v}
    ev = {'property': args.pid, 'tier': args.tier, 'seed': args.seed, 'level': sim.level, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if path else 0,
          'coverage': {
              'evaluations': tot['runs'], 'distinct_nontrivial': len(tot['nt']),
              'rule': 'Each seed is one simulated run: %s' % sim.rule,
              'samples': tot['samples'][:2],
              'distinct_runs': len(tot['sigs']),
              'distinct_measure': 'hash of the sequence of ops, each with its outcome and whether a fault fired during it',
              'runs_per_hour': int(tot['runs'] / max(wall, 1e-3) * 3600),
              'seeds': [args.seed * 10000000, args.seed * 10000000 + tot['runs'] - 1] if tot['runs'] else [],
              'simulated_time': ('%.1f simulated seconds' % tot['simtime']) if tot['simtime'] else (sim.note or 'the code under test reads no clock: simulated time is the order of ops and disk calls'),
              'ops_executed': ops, 'faults_fired': faults, 'ops_hit_by_faults': faulted, 'counts': other,
              'components_real': list(sim.real), 'components_stub': list(sim.stub),
              'determinism_selftest': 'identical event logs, disks and outcomes in another process' if same else 'DIFFERENT: ' + json.dumps(st)[:300],
              'runs_ended_for_memory': tot['killed'], 'workers_lost': tot['lost'],
              'known_findings_met': {known[int(k)][2]: c for k, c in tot['known'].items()}}}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (args.pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, args.pid + '.json'))
    if not path and (tot['runs'] == 0 or tot['lost'] == WORKERS):
        print('nothing was run')
        sys.exit(3)
    if path:
        print('VIOLATION property=%s replay=%s' % (args.pid, path))
        sys.exit(1)
    print('%s held on %d runs (%d distinct and non-trivial) in %.1f s' % (args.pid, tot['runs'], len(tot['nt']), wall))


if __name__ == '__main__':
    main()
