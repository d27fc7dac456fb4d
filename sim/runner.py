"""Many runs: seeds over worker processes, the lowest failing one minimised into a replay
file, and the evidence of what the runs covered."""
import concurrent.futures as cf
import collections
import gc
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

CHUNK = 40
STOP_AFTER = 600          # seconds of exploring, far beyond what the fixed number of runs takes
THOROUGH = 12             # times the runs of the quick check


def corpus_dir(here):
    return os.path.join(here, 'corpus')


def crash_guard(prop, seed):
    from . import run1
    try:
        return run1.generate(prop, seed), None
    except Exception:
        return None, traceback.format_exc()


def work(prop, seeds):
    """runs of one chunk -> summary; stops at its first failure"""
    from . import run1
    gc.collect()
    out = dict(n=0, stats=collections.Counter(), skel=set(), dig=set(), steps=0, ops=0, fail=None, error=None, sample=None, sim=0.0)
    for k, s in enumerate(seeds):
        r, err = crash_guard(prop, s)
        if err:
            out['error'] = f'run {prop}:{s}\n{err}'
            break
        if r.fail and r.fail[0] == 'hang' and not run1.confirm_hang(r.ops, r.cfg):
            r.fail = None
        out['n'] += 1
        out['stats'].update(r.stats)
        out['steps'] += r.steps
        out['ops'] += len(r.ops)
        out['sim'] += simulated(r.ops)
        if nontrivial(r):
            out['skel'].add(r.skeleton)
            out['dig'].add(r.digest)
        if k == 0:
            out['sample'] = {'seed': s, 'cfg': r.cfg, 'ops': r.ops[:25]}
        if r.fail:
            out['fail'] = dict(seed=s, cls=r.fail[0], msg=r.fail[1], ops=r.ops, cfg=r.cfg)
            break
        if k % 20 == 19:
            gc.collect()
    return out


def simulated(ops):
    """span of x (the time axis of a curve) the history moved its sources over"""
    lo = hi = None
    for o in ops:
        v = o.get('v')
        ps = o['a'].get('pts') or o['a'].get('bars') or [] if o['op'] == 'new' and isinstance(o.get('a'), dict) else \
            [v] if o['op'] in ('append', 'replace', 'upsert') else v if o['op'] in ('extend', 'set') else []
        for p in ps or []:
            try:
                x = float(p[0])
            except (TypeError, ValueError, IndexError):
                continue
            lo = x if lo is None else min(lo, x)
            hi = x if hi is None else max(hi, x)
    return (hi - lo) if lo is not None else 0.0


LOOKS = ('chk', 'poke', 'fresh', 'trendread', 'trendchk')


def nontrivial(r):
    """it changed something and then something was looked at or notified"""
    e = False
    for o in r.ops:
        if o['op'] in LOOKS:
            if e:
                return True
        elif o['op'] not in ('new', 'obs', 'unobs', 'gc', 'arm', 'tz'):
            e = True
    return e and any(k.startswith('observers') for k in r.stats)


def seeds_of(prop, seed, n):
    base = int(hashlib.sha1(f'{prop}/{seed}'.encode()).hexdigest()[:8], 16)
    return [base * 1000003 + k for k in range(n)]


def known_findings(here):
    """lines `known: property=<id> class=<class> text=<part of the message> # what fails`"""
    out = []
    p = os.path.join(here, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                body, _, what = l[7:].partition(' # ')
                f = dict(q.split('=', 1) for q in body.split(' ', 2))
                f['what'] = what.strip()
                out.append(f)
    return out


def matches(f, prop, cls, msg):
    return f['property'] == prop and f['class'] == cls and f['text'].strip() in msg


def print_digests(spec):
    from . import run1
    for q in spec.split(','):
        p, s = q.split(':')
        r = run1.generate(p, int(s))
        print('DIGEST', q, r.digest, r.fail[0] if r.fail else '-')
    sys.stdout.flush()
    return 0


def fresh_digests(here, spec, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, os.path.join(here, 'check.py'), '--digests', ','.join(spec)], env=env, capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise RuntimeError(p.stderr[-2000:])
    return {l.split()[1]: l.split()[2] for l in p.stdout.splitlines() if l.startswith('DIGEST')}


def replay(path):
    from . import run1
    rec = json.load(open(path))
    prop = rec['property']
    if rec.get('kind') == 'interpreter':
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        a = fresh_digests(here, [rec['spec']], 1)
        b = fresh_digests(here, [rec['spec']], rec['hashseed'])
        f = ('interpreter', rec['message']) if a != b else None
    else:
        f, i = run1.fails(prop, rec['ops'], rec['cfg'])
    if f is None:
        print(f'{path}: the property {prop} held')
        return 0
    print(f'{path}: {f[0]}: {f[1]}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def report(here, prop, fail, tag='', shrink=True):
    """minimise, write the replay file, and make sure a fresh process reproduces it"""
    from . import run1
    from .shrink import shrink as minimise
    d = os.path.join(here, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{tag or fail["seed"]}.json')
    ops, cls = fail['ops'], fail['cls']
    cands = []
    if shrink:
        try:
            t = time.time()
            small = minimise(prop, ops, fail['cfg'], cls, 400)
            cands.append(small)
        except Exception:
            traceback.print_exc()
    cands.append(ops)
    for c in cands:
        f, i = run1.fails(prop, c, fail['cfg'])
        if f is None and c is not cands[-1]:
            continue
        rec = dict(property=prop, seed=fail.get('seed'), cls=f[0] if f else cls, message=f[1] if f else fail['msg'], cfg=fail['cfg'], ops=c, of=len(ops))
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1)
        p = subprocess.run([sys.executable, os.path.join(here, 'check.py'), '--replay', path], capture_output=True, text=True, timeout=400)
        if p.returncode == 1:
            break
    return path, rec


def merge(tot, o):
    tot['n'] += o['n']
    tot['stats'].update(o['stats'])
    tot['skel'] |= o['skel']
    tot['dig'] |= o['dig']
    tot['steps'] += o['steps']
    tot['ops'] += o['ops']
    tot['sim'] += o['sim']
    if o['sample'] and len(tot['samples']) < 2:
        tot['samples'].append(o['sample'])


def explore(prop, seeds, workers, t0):
    """-> (totals, failure of the lowest seed or None, error or None); independent of scheduling"""
    chunks = [seeds[i:i + CHUNK] for i in range(0, len(seeds), CHUNK)]
    tot = dict(n=0, stats=collections.Counter(), skel=set(), dig=set(), steps=0, ops=0, samples=[], sim=0.0)
    fail = error = None
    ctx = mp.get_context('fork')
    if workers <= 1:
        for c in chunks:
            o = work(prop, c)
            merge(tot, o)
            if o['error'] or o['fail']:
                return tot, o['fail'], o['error']
            if time.time() - t0 > STOP_AFTER:
                break
        return tot, None, None
    ex = cf.ProcessPoolExecutor(workers, mp_context=ctx)
    pend = collections.deque()
    it = iter(chunks)
    dead = None
    try:
        done = False
        while True:
            while not done and len(pend) < workers * 3:
                c = next(it, None)
                if c is None or time.time() - t0 > STOP_AFTER:
                    done = True
                    break
                pend.append((c, ex.submit(work, prop, c)))
            if not pend:
                break
            c, f = pend.popleft()
            try:
                o = f.result()
            except cf.process.BrokenProcessPool:
                dead = c
                break
            merge(tot, o)
            if o['error'] or o['fail']:
                fail, error = o['fail'], o['error']
                break
    finally:
        for _, f in pend:
            f.cancel()
        for p in list((ex._processes or {}).values()):
            p.terminate()
        ex.shutdown(wait=False, cancel_futures=True)
    if dead is not None:
        # a worker died (killed, or the interpreter crashed): find out in processes of their own
        for s in dead:
            p = ctx.Process(target=work, args=(prop, [s]))
            p.start()
            p.join(120)
            if p.is_alive():
                p.kill()
                p.join()
            if p.exitcode not in (0, None) and p.exitcode != 0:
                p2 = ctx.Process(target=work, args=(prop, [s]))
                p2.start()
                p2.join(120)
                if p2.is_alive():
                    p2.kill()
                    p2.join()
                if p2.exitcode != 0:
                    return tot, dict(seed=s, cls='died', msg=f'the process died ({p.exitcode})', ops=[], cfg={}), None
        return tot, None, 'a worker process died and none of its runs does so again'
    return tot, fail, error


def check(prop, tier, seed, runs, workers, evidence, here, root):
    from .profiles import PROFILES
    from . import run1
    t0 = time.time()
    prof = PROFILES[prop]
    n = runs or prof['runs'] * (THOROUGH if tier == 'thorough' else 1)
    known = known_findings(here)
    hits = collections.Counter()
    print(f'{prop}: {tier}, VERIF_SEED={seed}, {n} runs over {workers} workers, curvepy from {root}')
    sys.stdout.flush()
    import curvepy
    if not os.path.abspath(curvepy.__file__).startswith(os.path.abspath(root) + os.sep):
        print(f'curvepy was imported from {curvepy.__file__}, not from {root}')
        return 2
    from .world import lib
    lib()
    gc.freeze()
    fail = None
    tag = ''
    # histories which once failed
    ncorp = 0
    cd = os.path.join(here, 'corpus', prop)
    if os.path.isdir(cd):
        for name in sorted(os.listdir(cd)):
            rec = json.load(open(os.path.join(cd, name)))
            ncorp += 1
            f, i = run1.fails(prop, rec['ops'], rec['cfg'])
            if f:
                fail = dict(seed=rec.get('seed'), cls=f[0], msg=f[1], ops=rec['ops'], cfg=rec['cfg'])
                tag = 'corpus-' + name[:-5]
                break
    tot = dict(n=0, stats=collections.Counter(), skel=set(), dig=set(), steps=0, ops=0, samples=[], sim=0.0)
    error = None
    interp = 0
    if fail is None:
        seeds = seeds_of(prop, seed, n)
        while True:
            o, fail, error = explore(prop, seeds, workers, t0)
            o['sample'] = None
            merge(tot, o)
            tot['samples'] += o['samples'][:2 - len(tot['samples'])]
            if fail is None:
                break
            f = next((f for f in known if matches(f, prop, fail['cls'], fail['msg'])), None)
            if f is None:
                break
            hits[f['what']] += 1
            seeds = seeds[seeds.index(fail['seed']) + 1:]
            fail = None
            if not seeds:
                break
    if fail is None and error is None and prof.get('interpreters'):
        fail, interp = interpreters(prop, seed, here, prof['interpreters'])
        tag = 'interpreter'
    wall = time.time() - t0
    for w, k in hits.items():
        print(f'KNOWN-FINDING: property={prop} {w}')
    if error:
        print(error)
    if fail and fail['cls'] == 'interpreter':
        path = os.path.join(here, 'replays', f'{prop}-interpreter.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(dict(fail['rec'], property=prop, message=fail['msg']), open(path, 'w'))
        print(f'{fail["cls"]}: {fail["msg"]}')
    elif fail and fail['cls'] == 'died':
        path = os.path.join(here, 'replays', f'{prop}-{fail["seed"]}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(dict(property=prop, seed=fail['seed'], cls='died', message=fail['msg'], ops=[], cfg={}), open(path, 'w'))
    elif fail:
        path, rec = report(here, prop, fail, tag)
        print(f'seed {fail["seed"]}: {rec["cls"]}: {rec["message"]}')
        print(f'{len(rec["ops"])} of {rec["of"]} operations are enough:')
        for o in rec['ops'][:40]:
            print('   ', json.dumps(o))
    if evidence:
        write_evidence(prop, tier, seed, n, tot, fail, wall, workers, ncorp, interp, hits, here)
    print(f'{prop}: {tot["n"]} runs, {tot["steps"]} simulated steps, {len(tot["skel"])} distinct histories, {wall:.1f} s')
    if fail:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 2 if error else 0


def interpreters(prop, seed, here, k):
    """the same runs in fresh interpreters under other hash seeds"""
    from .profiles import PROFILES
    spec = []
    for p in sorted(PROFILES):
        if p in ('C21',) and not PROFILES[p].get('ready', True):
            continue
        for s in seeds_of(p, seed, k):
            spec.append(f'{p}:{s}')
    base = None
    ex = cf.ThreadPoolExecutor(4)
    hs = [0, 1, 77, 4242]
    rs = list(ex.map(lambda h: fresh_digests(here, spec if h != 77 else spec[::-1], h), hs))
    for h, d in zip(hs[1:], rs[1:]):
        for q in spec:
            if d.get(q) != rs[0].get(q):
                return dict(seed=int(q.split(':')[1]), cls='interpreter',
                            msg=f'run {q} answers differently in a fresh interpreter with PYTHONHASHSEED={h} than with {hs[0]}',
                            rec=dict(kind='interpreter', spec=q, hashseed=h)), len(spec)
    return None, len(spec) * len(hs)


REAL = 'real: everything under curvepy/ (imported from /repo) with numpy, intervalpy, pyduration and arrow as installed'
STUB = ('simulated: the callers (writers, readers, observers and their subscriber objects), user functions, '
        'failures, moments of garbage collection, hash (set order) of curves, clock and local time zone')


def write_evidence(prop, tier, seed, n, tot, fail, wall, workers, ncorp, interp, hits, here):
    from .profiles import PROFILES
    st = tot['stats']
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault.')}
    for k in ('nested_edits', 'faulted_edits', 'reads_in_callbacks', 'reads_failed_by_fault', 'unobs_in_callback', 'obs_in_callback', 'release_in_callback'):
        if st.get(k):
            faults[k] = st[k]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['n'],
            'distinct_nontrivial': len(tot['dig']),
            'rule': 'one evaluation is one seeded run: a history of constructions, edits, reads, (un)subscriptions, '
                    'callbacks, collections and faults drawn from one PRNG and executed against real curvepy and the '
                    'reference model; non-trivial: something was edited and afterwards read or notified; distinct: by '
                    'the digest of the whole event log (answers, notifications, edits)',
            'samples': tot['samples'][:2],
            'distinct_skeletons': len(tot['skel']),
            'skeleton_measure': 'sequence of operation kinds with the curves they touch, values ignored',
            'planned_runs': n,
            'runs_per_hour': int(tot['n'] / max(wall, 1e-6) * 3600),
            'seeds_per_hour': int(tot['n'] / max(wall, 1e-6) * 3600),
            'workers': workers,
            'simulated_steps': tot['steps'],
            'operations': tot['ops'],
            'simulated_time': tot['sim'],
            'simulated_time_unit': 'sum over runs of the span of x the sources of a run cover; curves have no clock of their own',
            'answers_checked': st.get('checks', 0),
            'faults_and_schedule_events': faults,
            'events': {k: v for k, v in sorted(st.items()) if not k.startswith('fault.')},
            'corpus_histories_replayed': ncorp,
            'runs_in_fresh_interpreters': interp,
            'known_findings_hit': dict(hits),
            'components': [REAL, STUB],
        },
        'assumptions': [
            'curves are used from one thread, as documented; interleaving happens through callbacks',
            'the reference model in sim/model.py states what each construction means; it was written from the documentation and tests',
        ],
        'wall_s': round(wall, 2),
        'violations': 1 if fail else 0,
    }
    d = os.path.join(here, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
