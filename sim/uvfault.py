"""Fault placement: the scenario is run once without faults, in a process of its own, to learn which disk
calls each op makes; the faults are then put at calls that happen."""
import errno, random
import disk

WERR = [errno.EIO, errno.ENOSPC, errno.EIO, errno.EDQUOT]
OERR = [errno.EMFILE, errno.EACCES, errno.EIO, errno.ENOSPC]
RERR = [errno.EIO, errno.EIO, errno.EINTR]
# class weights
KINDS = {'w': {'write': 5, 'open': 2, 'close': 1, 'mkdir': 0.5, 'lseek': 1, 'rename': 1, 'read': 0.5, 'full': 1.5},
         'r': {'read': 6, 'open': 3, 'lseek': 1, 'close': 0.5},
         'm': {'malloc': 16, 'numpy': 6, 'write': 0.5, 'read': 0.5, 'open': 0.5}}


def pick(r, counts, kind, near=None):
    w = KINDS[kind]
    for _ in range(20):
        c = r.choices(*zip(*sorted(w.items())))[0]
        k = disk.CID['write' if c == 'full' else c]
        ops = [i for i, n in enumerate(counts) if n[k] and (near is None or i in near)]
        if ops:
            i = r.choice(ops)
            n = counts[i][k]
            nth = r.randrange(n) if r.random() < 0.7 else r.choice([0, n - 1])
            return i, c, nth
    return None


def fault_op(r, c, nth):
    sticky = 1 if r.random() < 0.15 else 0
    if c == 'full':
        return ['capacity', r.choice([0, 0, 1, 10, 100, 1000, 5000, 16384, 20000])]
    if c in ('write', 'read') and r.random() < 0.3:
        return ['fault', c, nth, disk.SHORT, 0, r.choice([0, 1, r.randint(0, 20000)]), 0]
    e = {'write': WERR, 'read': RERR, 'open': OERR, 'mkdir': [errno.ENOSPC, errno.EACCES], 'malloc': [errno.ENOMEM], 'numpy': [errno.ENOMEM]}.get(c, [errno.EIO])
    return ['fault', c, nth, disk.ERR, r.choice(e), 0, sticky]


def place(base, counts, seed, kind, on=None):
    r = random.Random(seed)
    near = {i for i, o in enumerate(base) if o[0] == on} if on else None      # where most of the faults go
    at = {}
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        p = pick(r, counts, kind, near if near and r.random() < 0.8 else None)
        if p:
            at.setdefault(p[0], []).append(fault_op(r, p[1], p[2]))
    ops, pending = [], 0
    for i, o in enumerate(base):
        if i in at:
            ops += at[i]
            pending = r.choice([1, 1, 1, 1, 2, 4])        # how long the disk stays bad
        ops.append(o)
        if pending:
            pending -= 1
            if not pending:
                ops.append(['clearfaults'])
                after(ops, o, r)
    return ops


def after(ops, o, r):
    """What a caller does about it."""
    if o[0] in ('write', 'setvar', 'setitem', 'addvar'):
        if r.random() < 0.75:
            ops.append(list(o))                         # tries again
    elif o[0] == 'open':
        if r.random() < 0.7:
            ops.append(list(o))
    elif o[0] in ('read', 'readall'):
        k = r.random()
        if k < 0.4:
            ops.append(['retry', o[1]])
        elif k < 0.8:
            ops.append(['rewind', o[1]])
            ops.append(['readall', o[1]])
    elif o[0] in ('getitem', 'items', 'readfiles'):
        ops.append(list(o))
    elif o[0] == 'close':
        for q in ops:
            if q[0] == 'open' and q[1] == o[1]:
                ops.append(['audit', q[2]])
                break
