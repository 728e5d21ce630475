"""The workload and fault profile of each property decided on the UV engine."""
import random
import uvgen, uvfault

PROFILES = {
    'C01': dict(),
    'C02': dict(nvars=[3, 5, 8, 12], pvar=0.5, midvar=0.15, nrec=[1, 3, 6, 10], bigvar=True, small=True, mix={'writer': 3, 'appender': 3, 'reader': 4}),
    'C03': dict(nitems=[1, 3, 6, 10], miditem=0.3, nrec=[1, 2, 3], nvars=[0, 1], small=True, mix={'writer': 3, 'appender': 3, 'reader': 4, 'itemeditor': 4}),
    'C04': dict(nvars=[0, 2, 4], varchan=True, nrec=[0, 1, 2, 4, 8], mix={'writer': 1.5, 'appender': 6, 'reader': 2}, maxds=2, actors=[5, 8, 12]),
    'C05': dict(crash='all', small=False, mix={'writer': 3, 'reader': 1, 'cloner': 2}, maxds=3, nitems=[0, 1, 2, 4], nrec=[1, 2, 3, 5], conc=[1, 2], actors=[1, 2, 3], maxops=45),
    'C06': dict(crash='all', resume=True, mix={'writer': 1, 'appender': 6, 'itemeditor': 2}, maxds=2, nitems=[0, 1, 2], nrec=[0, 1, 2, 4], conc=[1, 2], actors=[3, 4, 5], maxops=45),
    'C07': dict(varchan=True, place=6, winfault=0.12, fkind='w', nonfin=False, mix={'writer': 4, 'appender': 4, 'reader': 2, 'itemeditor': 1, 'foreign': .6}),
    'C08': dict(place=6, winfault=0.15, fkind='r', mix={'writer': 2, 'appender': 1, 'reader': 7, 'foreign': 1}),
    'C09': dict(conc=[4, 6, 8, 12], actors=[10, 16, 24], maxops=220, maxds=12, bad=0.12, small=True, nrec=[1, 3, 5, 8], mix={'writer': 4, 'appender': 3, 'reader': 6, 'itemeditor': 1, 'cloner': 1}),
    'C10': dict(slots=True, soak=True, fault=0.2, fkind='b', small=True, bad=0.1, nrec=[1, 2, 3], conc=[1, 3, 6], actors=[4, 8, 12], nonfin=False, mix={'writer': 3, 'appender': 3, 'reader': 4, 'itemeditor': 1}),
    'C11': dict(sel=True, small=True, nrec=[4, 8, 14, 20], nvars=[0, 1], unordered=True, mix={'writer': 2, 'appender': 1, 'reader': 6, 'foreign': .6}, maxds=3, actors=[4, 6, 9]),
    'C12': dict(small=True, pvarfirst=0.55, nvars=[1, 3, 5], nrec=[2, 4, 7], nitems=[0, 2, 4], midvar=0.2, mix={'writer': 2, 'appender': 1.5, 'reader': 1, 'cloner': 6}, maxds=4, pj=0),
    'C13': dict(place=4, on='readfiles', last='rdfiles', winfault=0.1, fkind='r', small=True, nonfin=False, maxds=5, conc=[1, 2, 3], actors=[4, 6, 9], maxops=160, mix={'survey': 3, 'resurvey': 1, 'rdfiles': 5, 'reader': 1, 'cloner': .5}),
    'C22': dict(malloc=True, soak=[0, 0, 1], place=8, winfault=0.0, fkind='m', nonfin=False, sel=True, varchan=True, nvars=[0, 2, 4], nitems=[0, 1, 3], nrec=[1, 3, 6], conc=[1, 2, 4], mix={'writer': 3, 'appender': 3, 'reader': 4, 'itemeditor': 1, 'cloner': 1.5, 'foreign': .5}),
    'C14': dict(decode=True, place=3, winfault=0.0, fkind='w', nvars=[0, 2, 4, 6], nitems=[0, 1, 3, 5], nrec=[1, 2, 3, 5], pj=0.25, varchan=True, nonfin=False, mix={'writer': 3, 'foreign': 4, 'appender': 3, 'reader': 3, 'itemeditor': 1, 'cloner': 1}, maxds=5),
}


def scenario(pid, seed, dry=None):
    """dry: a function running a scenario without faults -> the disk calls of each op."""
    p = dict(PROFILES[pid])
    if p.get('place'):
        # several placements of faults are tried on each workload
        base, n = divmod(seed, p['place'])
        if n == 0:
            p['fault'] = p['winfault']
            return build(pid, base, p)
        p.pop('fault', None)
        scn = build(pid, base, p)
        d = dry(dict(scn, dry=True))
        if 'dry' in d:
            scn['ops'] = uvfault.place(scn['ops'], d['dry'], '%s/%d/faults' % (pid, seed), p['fkind'], p.get('on'))
        scn['seed'] = seed
        return scn
    return build(pid, seed, p)


def build(pid, seed, p):
    r = random.Random('%s/%d' % (pid, seed))
    g = uvgen.G('%s/%d/ops' % (pid, seed), p)
    if pid == 'C12':
        p['sel'] = r.random() < 0.3
    cfg = {'fd_base': r.choice([0, 1000, 3])}
    if p.get('slots'):
        cfg['slots'] = True
    if p.get('malloc'):
        cfg['malloc'] = True
    if p.get('decode'):
        cfg['decode'] = True
    if p.get('crash'):
        cfg['crash'] = p['crash']
        cfg['maxcrash'] = p.get('maxcrash', 150)
        cfg['crashoff'] = r.randint(0, 97)
        cfg['resume'] = bool(p.get('resume'))
    return {'seed': seed, 'profile': pid, 'cfg': cfg, 'ops': g.generate()}
