"""One run: generate (or replay) a history against the world."""
import gc
import json
import signal
import sys
import hashlib

from .world import World, Violation, SimHang, HarnessError, SimFault, lib
from .profiles import PROFILES

OP_SECONDS = 20


class Result:
    __slots__ = ('seed', 'fail', 'ops', 'cfg', 'stats', 'steps', 'skeleton', 'digest', 'at')


def _alarm(sig, frm):
    raise SimHang()


def make_gen(prop, seed):
    prof = PROFILES[prop]
    sp = prof.get('special')
    if sp:
        from . import special
        return special.SPECIAL[sp](prop, seed, prof)
    from .gen import Gen
    return Gen(prop, seed, prof)


def generate(prop, seed):
    r = Result()
    r.seed, r.fail = seed, None
    g = None
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, OP_SECONDS)
    try:
        g = make_gen(prop, seed)
        g.run()
    except Violation as v:
        r.fail = (v.cls, v.msg)
    except SimHang:
        r.fail = ('hang', 'an operation did not finish')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    r.ops, r.cfg = g.ops, g.cfg
    finish(r, g.w)
    if r.fail is None and PROFILES[prop].get('variants'):
        f = variants(prop, r)
        if f:
            r.fail = f
    return r


def finish(r, w):
    r.stats, r.steps = w.stats, w.steps
    r.digest = hashlib.sha1(repr(w.log).encode()).hexdigest()
    r.skeleton = hashlib.sha1('|'.join(skeleton(r.ops)).encode()).hexdigest()[:16]
    w.close()


def skeleton(ops):
    out = []
    for o in ops:
        k = o['op']
        if k == 'new':
            out.append(f"{k}:{o['kind']}:{len(o.get('src', ()))}")
        elif k == 'chk':
            out.append('c' + o['node'])
        elif k == 'poke':
            out.append('p' + o['k'] + o['node'])
        else:
            out.append(k + str(o.get('node', '')))
    return out


def execute(ops, cfg, seconds=OP_SECONDS, budget=None, keep=False):
    """-> (failure or None, index of the failing op, world)"""
    w = World(cfg)
    signal.signal(signal.SIGVTALRM, _alarm)
    i = -1
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
        if budget:
            left = [budget]

            def prof(frame, ev, arg):
                if ev == 'call':
                    left[0] -= 1
                    if left[0] < 0:
                        left[0] = budget
                        raise SimHang()
            sys.setprofile(prof)
        for i, op in enumerate(ops):
            if budget:
                left[0] = budget
            w.run_op(op)
        return None, None, w
    except Violation as v:
        return (v.cls, v.msg), i, w
    except SimHang:
        return ('hang', 'an operation did not finish'), i, w
    except HarnessError:
        raise
    finally:
        sys.setprofile(None)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if not keep:
            w.close()


CALL_BUDGET = 3_000_000


def confirm_hang(ops, cfg):
    """deterministic: the hang is one only if a single operation makes CALL_BUDGET calls"""
    f, i, _ = execute(ops, cfg, seconds=40, budget=CALL_BUDGET)
    return f is not None and f[0] == 'hang'


def answers(w, drop=()):
    return [e for e in w.log if not (e[0] == 'a' and e[1] in drop)]


def variants(prop, r):
    """C22: the same history under other hash orders, collection moments, clocks and zones"""
    import os
    import time
    dropped = {o['node'] for o in r.ops if o['op'] == 'drop'}
    # observers of curves dropped later are judged only by the plain variants
    dobs = {o['id'] for o in r.ops if o['op'] == 'obs' and o['node'] in dropped}
    base = None
    rnd = r.cfg['salt']
    vs = [('same', r.ops, {}), ('hash order', r.ops, {'salt': rnd + 17}), ('hash order', r.ops, {'salt': rnd * 3 + 5})]
    eager = []
    for o in r.ops:
        eager.append(o)
        if o['op'] in ('drop', 'chk', 'append'):
            eager.append({'op': 'gc'})
    vs.append(('collection after every step', eager, {}))
    never = [o for o in r.ops if o['op'] not in ('gc', 'drop')]
    vs.append(('nothing dropped', never, {}))
    tz0 = os.environ.get('TZ')
    t0 = time.time
    vs.append(('clock and zone', r.ops, {'_tz': 'Asia/Tokyo'}))
    for name, ops, ch in vs:
        cfg = dict(r.cfg, **ch)
        try:
            if '_tz' in ch:
                os.environ['TZ'] = ch['_tz']
                time.tzset()
                time.time = lambda: 4e9
            f, i, w = execute(ops, cfg, keep=True)
        finally:
            time.time = t0
            if '_tz' in ch:
                if tz0 is None:
                    os.environ.pop('TZ', None)
                else:
                    os.environ['TZ'] = tz0
                time.tzset()
        if f:
            w.close()
            return f[0], f'{f[1]} (variant: {name})'
        log = [e for e in w.log if not (e[0] == 'a' and e[1] in dropped) and not (e[0] == 'n' and e[1] in dobs)]
        w.close()
        rep = [repr(e) for e in log]
        if base is None:
            base = rep
        elif rep != base:
            j = next((j for j, (a, b) in enumerate(zip(base, rep)) if a != b), min(len(base), len(rep)))
            a = base[j] if j < len(base) else 'nothing'
            b = rep[j] if j < len(rep) else 'nothing'
            return 'replay', f'variant "{name}" differs at event {j}: {a[:200]} against {b[:200]}'
    return None


def fails(prop, ops, cfg, hang=False):
    """replay including the property's whole-run oracles"""
    f, i, w = execute(ops, cfg, keep=True) if not hang else execute(ops, cfg, seconds=40, budget=CALL_BUDGET, keep=True)
    w.close()
    if f and f[0] == 'hang' and not hang and not confirm_hang(ops, cfg):
        f = None
    if f is None and PROFILES[prop].get('variants'):
        r = Result()
        r.ops, r.cfg = ops, cfg
        f = variants(prop, r)
        i = len(ops) - 1
    return f, i
