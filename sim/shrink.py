"""Minimise a failing history: same violation class, fewer and simpler operations."""
import copy
import time

from .run1 import fails


SECONDS = 60      # of processor time; a minimisation cut short still replays


def shrink(prop, ops, cfg, cls, limit=600):
    n = [0]
    hang = cls == 'hang'
    t0 = time.process_time()

    def bad(c):
        n[0] += 1
        if n[0] > limit or time.process_time() - t0 > SECONDS:
            return False
        try:
            f, i = fails(prop, c, cfg, hang)
        except Exception:
            return False
        return f is not None and f[0] == cls

    f, i = fails(prop, ops, cfg, hang)
    if f is None or f[0] != cls:
        return ops
    cut = ops[:i + 1]
    if len(cut) < len(ops) and bad(cut):
        ops = cut
    # drop chunks
    size = max(1, len(ops) // 2)
    while size >= 1 and n[0] < limit:
        j = 0
        ch = False
        while j < len(ops):
            # what dates mean depends on the time zone: its changes stay
            c = ops[:j] + [o for o in ops[j:j + size] if o['op'] == 'tz'] + ops[j + size:]
            if c and len(c) < len(ops) and bad(c):
                ops = c
                ch = True
            else:
                j += size
        if not ch or size > 1:
            if size == 1:
                break
            size //= 2
    c = [o for o, n1 in zip(ops, ops[1:] + [None]) if o['op'] != 'tz' or n1 is not None and n1['op'] != 'tz']
    if len(c) < len(ops) and bad(c):
        ops = c
    # simplify inside operations
    changed = True
    while changed and n[0] < limit:
        changed = False
        for j in range(len(ops)):
            for alt in simpler(ops[j]):
                c = ops[:j] + [alt] + ops[j + 1:]
                if bad(c):
                    ops = c
                    changed = True
                    break
    return ops


def simpler(op):
    op = copy.deepcopy(op)
    if op['op'] == 'chk' and len(op['it']) > 1:
        its = op['it']
        yield dict(op, it=its[:len(its) // 2])
        yield dict(op, it=its[len(its) // 2:])
        for k in range(len(its)):
            yield dict(op, it=its[:k] + its[k + 1:])
    if op['op'] == 'fresh' and len(op['reads']) > 1:
        for k in range(len(op['reads'])):
            yield dict(op, reads=[op['reads'][k]])
    if op['op'] == 'fresh' and len(op['reads']) == 1 and len(op['reads'][0][1]) > 1:
        for x in op['reads'][0][1]:
            yield dict(op, reads=[[op['reads'][0][0], [x]]])
    if op['op'] == 'new' and op['kind'] == 'points':
        p = op['a']['pts']
        for k in range(len(p)):
            yield dict(op, a=dict(op['a'], pts=p[:k] + p[k + 1:]))
        if op['a'].get('alias'):
            a = dict(op['a'])
            del a['alias']
            yield dict(op, a=a)
        for k in range(len(p)):
            if p[k][1] not in (0, 1, None):
                yield dict(op, a=dict(op['a'], pts=p[:k] + [[p[k][0], 1]] + p[k + 1:]))
    if op['op'] in ('extend', 'set') and len(op['v']) > 1:
        for k in range(len(op['v'])):
            yield dict(op, v=op['v'][:k] + op['v'][k + 1:])
    if op['op'] == 'obs' and op.get('scripts'):
        sc = op['scripts']
        for k in list(sc):
            if sc[k]:
                for j in range(len(sc[k])):
                    yield dict(op, scripts=dict(sc, **{k: sc[k][:j] + sc[k][j + 1:]}))
            else:
                q = dict(sc)
                del q[k]
                yield dict(op, scripts=q)
