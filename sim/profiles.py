"""One workload profile per property: kinds of curves, operation mix, faults and oracles."""

POINTWISE = {'map': 4, 'un': 2, 'agg': 6, 'diff': 2}
VIEWS = {'off': 3, 'piece': 2, 'sub': 2}
SCANS = {'int': 2, 'sma': 2, 'ema': 2, 'emainit': 1, 'smma': 1, 'rsi': 1, 'trail': 2, 'accum': 1}
MIXED = dict(POINTWISE, **VIEWS, **SCANS, ext=2, extr=1, offdur=1)
ALLSRC = ['points', 'points', 'points', 'points', 'const', 'line', 'sin', 'gen']

PROFILES = {
    'C01': dict(
        runs=30000, fine=0.12, sources=['points'], nsrc=(1, 1), steps=(8, 40), p_none=0.25, bigx=0.08,
        mix={'edit': 6, 'chk': 5, 'bad': 0.4, 'poke': 1},
        items={'y': 6, 'call': 1, 'dom': 2, 'sp': 2, 'ends': 1},
        measure='sequence of (edit kind, evenly spaced?, interpolation) with a read between edits'),
    'C02': dict(
        runs=12000, sources=['points', 'points', 'points', 'line', 'sin', 'quotes'], nsrc=(1, 2), nder=(1, 4), steps=(8, 30),
        derive=dict(POINTWISE, **SCANS, ext=1, off=1), mix={'edit': 4, 'chk': 3, 'bad': 5, 'poke': 1}, obs=0.4,
        cfg={'pairs': True}, items={'y': 6, 'dom': 2, 'sp': 1, 'ends': 0.4}, sin_map_only=True),
    'C03': dict(
        runs=10000, fine=0.12, sources=['points'], nsrc=(1, 2), nder=(1, 4), steps=(10, 35), swarm=0.6,
        derive=dict(map=3, un=1, agg=4, diff=1, off=3, int=1, ema=2, trail=1, accum=1, sma=2, extr=1, piece=1, sub=1.5, blend=0.5, ext=1.5, offdur=1),
        mix={'edit': 4, 'chk': 7, 'poke': 1},
        items={'nx': 4, 'px': 4, 'wf': 2, 'wb': 2, 'sp': 4, 'sfx': 2, 'npt': 1, 'ppt': 1, 'nxm': 1.5, 'pxm': 1.5, 'dom': 0.5, 'dy': 1}),
    'C04': dict(
        runs=14000, sources=ALLSRC, nsrc=(1, 3), nder=(2, 7), steps=(8, 35), swarm=0.7,
        derive=POINTWISE, targets=('map', 'un', 'agg', 'diff'),
        items={'y': 6, 'dom': 2, 'dy': 0.7, 'call': 0.3, 'ends': 0.4}),
    'C05': dict(
        runs=14000, fine=0.12, sources=ALLSRC, nsrc=(1, 3), nder=(2, 6), steps=(8, 35), must=['off', 'piece', 'sub', 'blend'], p_int=0.35,
        derive=dict(map=2, agg=3, diff=1, off=5, piece=3, sub=3, ema=1, ext=1, blend=0.7, offdur=1.5),
        targets=('off', 'piece', 'sub', 'blend', 'offdur', 'map', 'agg', 'ext', 'ema'), items={'y': 7, 'dom': 2, 'nx': 1, 'px': 1, 'nxm': 0.4, 'pxm': 0.4, 'sp': 1, 'dy': 0.7}),
    'C06': dict(
        runs=14000, fine=0.12, sources=['points'], nsrc=(1, 2), nder=(0, 2), steps=(8, 35), derive=dict(map=2, agg=2, off=1, diff=0.5),
        must=['int'], p_none=0.25, bigx=0.1, targets=('int',), items={'y': 7, 'dom': 1, 'sp': 1, 'ends': 0.4}),
    'C07': dict(
        runs=11000, fine=0.12, sources=['points'], nsrc=(1, 2), nder=(0, 2), steps=(8, 35), derive=dict(map=2, agg=2, off=1, ema=0.5),
        must=['sma'], p_none=0, bigx=0.1, targets=('sma',), items={'y': 8, 'dom': 2, 'sp': 1, 'ends': 0.4}),
    'C08': dict(
        runs=11000, fine=0.12, sources=['points'], nsrc=(1, 2), nder=(0, 2), steps=(8, 35), derive=dict(map=2, agg=2, off=1, sma=0.7, diff=0.7),
        must=['ema', 'emainit', 'smma', 'rsi'], p_none=0.2, targets=('ema', 'smma', 'rsi'), items={'y': 8, 'dom': 1, 'sp': 0.5, 'ends': 0.4}),
    'C09': dict(
        runs=14000, sources=['points'], nsrc=(1, 2), nder=(0, 2), steps=(8, 35), derive=dict(map=2, agg=2, off=1, sma=0.7),
        must=['trail'], p_none=0.2, targets=('trail',), items={'y': 8, 'dom': 1, 'sp': 1, 'ends': 0.4}),
    'C10': dict(
        runs=14000, fine=0.12, sources=['points'], nsrc=(1, 2), nder=(0, 2), steps=(8, 35), derive=dict(map=2, agg=2, off=1, sma=0.7, ema=0.5),
        must=['ext'], post=['map', 'agg', 'off'], p_none=0.15, targets=('ext', 'map', 'agg', 'off'), items={'y': 8, 'dom': 2},
        mix={'edit': 5, 'chk': 4, 'poke': 1, 'armed': 0.5}),
    'C11': dict(
        runs=15000, fine=0.12, sources=['points'], nsrc=(1, 1), nder=(0, 2), steps=(8, 35), must=['extr'], derive=dict(extr=3, map=1, un=0.5, off=1, agg=1),
        yrange=(2, 18), p_none=0.08, targets=('extr',), items={'y': 8, 'dom': 1, 'sp': 2, 'nx': 1, 'px': 1, 'nxm': 0.3, 'pxm': 0.3, 'sfx': 0.5}, minpts=0),
    'C12': dict(
        runs=7000, fine=0.12, unions=0.2, sources=ALLSRC, nsrc=(1, 3), nder=(3, 8), steps=(10, 35), derive=MIXED, obs=0.15,
        cfg={'silent': True},
        mix={'edit': 4, 'chk': 4, 'poke': 4, 'fresh': 0.6}, fresh_end=True, items={'y': 6, 'dom': 2, 'sp': 1, 'nx': 1, 'px': 1, 'nxm': 0.4, 'pxm': 0.4, 'dy': 0.7,
               'ends': 0.7, 'sfx': 0.4, 'npt': 0.2, 'ppt': 0.2, 'wf': 0.2, 'wb': 0.2, 'rng': 0.3, 'reg': 0.3, 'mini': 0.2, 'maxi': 0.2, 'spstep': 0.2, 'spmin': 0.2, 'call': 0.2}),
    'C13': dict(
        runs=9000, fine=0.12, unions=0.2, sources=ALLSRC, nsrc=(1, 3), nder=(2, 7), steps=(8, 30), derive=MIXED, obs=0.8, yrange=(2, 9),
        cfg={'pairs': True, 'watch': True}, scripts=['read', 'edit'], nested=0.3,
        mix={'edit': 6, 'chk': 1, 'poke': 2, 'scripted': 1.5, 'new': 0.3, 'bad': 0.3}, items={'y': 6, 'dom': 2, 'ends': 0.4}),
    'C14': dict(
        runs=4500, fine=0.12, unions=0.2, sources=ALLSRC, nsrc=(1, 3), nder=(2, 6), steps=(8, 25), derive=MIXED, obs=0.85, obs_dom=0.5,
        cfg={'snap': True}, mix={'edit': 6, 'chk': 0.5, 'poke': 3}, items={'y': 6, 'dom': 2}, p_none=0.1),
    'C15': dict(runs=16000, special='registry'),
    'C16': dict(
        runs=10000, sources=['points', 'points', 'points', 'gen', 'line', 'const'], nsrc=(1, 2), nder=(2, 6), steps=(10, 35),
        derive=dict(MIXED, map=6, accum=4, trail=4), mix={'edit': 3, 'chk': 3, 'armed': 5, 'poke': 0.5, 'scripted': 0.7, 'armed_edit': 1.5}, items={'y': 6, 'dom': 2, 'sp': 1, 'ends': 0.4},
        scripts=['read']),
    'C17': dict(
        runs=10000, sources=['points', 'points', 'points', 'const', 'line', 'sin'], nsrc=(1, 2), nder=(1, 6), steps=(10, 30), obs=0.6,
        derive=MIXED, scripts=['raise', 'read'], cfg={'pairs': True},
        mix={'edit': 5, 'chk': 3, 'scripted': 2, 'unobs': 0.5, 'poke': 1}, items={'y': 6, 'dom': 2, 'ends': 0.4}),
    'C18': dict(
        runs=8000, sources=ALLSRC, nsrc=(2, 3), nder=(2, 7), steps=(10, 30), obs=0.2, derive=MIXED,
        scripts=['read', 'edit', 'editother', 'gc'], cfg={'pairs': True},
        mix={'edit': 6, 'chk': 2, 'scripted': 2.5, 'unobs': 0.3, 'poke': 1, 'bad': 0.2}, items={'y': 6, 'dom': 2, 'ends': 0.4}),
    'C19': dict(
        runs=5000, sources=['quotes'], nsrc=(1, 1), nder=(2, 6), steps=(8, 30), swarm=0.7, obs=0.2, cfg={'tol': 1e-6, 'pairs': True},
        derive=dict(qview=5, qtrail=3, qao=1, qalli=2, sma=1, map=1, agg=1, offdur=1, ema=0.5, trail=0.5),
        mix={'edit': 6, 'chk': 5, 'bad': 1, 'poke': 1}, maxpts=60,
        items={'y': 7, 'dom': 2, 'sp': 1, 'qsample': 2, 'qrange': 2, 'qlast': 1, 'nx': 0.5, 'px': 0.5}),
    'C20': dict(runs=6000, special='descriptor'),
    'C21': dict(
        runs=1700, special='trend', yrange=(1, 6), p_none=0, maxpts=40,
        edits={'append': 12, 'extend': 4, 'replace': 1.5, 'upsert': 2, 'reset': 0.5, 'resetall': 0.1, 'set': 0.3}),
    'C22': dict(
        runs=1500, sources=ALLSRC, nsrc=(1, 3), nder=(3, 8), steps=(10, 30), derive=MIXED, obs=0.5,
        scripts=['read'], variants=True, interpreters=3, cfg={},
        mix={'edit': 5, 'chk': 4, 'poke': 1, 'scripted': 1, 'drop': 1.2, 'gc': 0.7, 'new': 0.8}, items={'y': 6, 'dom': 2, 'sp': 1, 'ends': 0.4}),
    'C23': dict(
        runs=10000, sources=['points', 'points', 'points', 'line'], nsrc=(1, 2), nder=(1, 4), steps=(8, 35), p_none=0.12, bigx=0.15, family=0.6, yrange=(1, 9),
        derive=dict(map=3, un=1, agg=3, off=2, int=1, ema=1, sma=2, trail=1, accum=1, diff=0.7),
        items={'rng': 3, 'reg': 3, 'mini': 3, 'maxi': 3, 'spstep': 2, 'spmin': 2, 'lx': 0.5, 'y': 1}),
}
