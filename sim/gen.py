"""Seeded generation of histories.  The generator runs against the world while the history
unfolds, so that edits are valid (or invalid on purpose) for the data of that moment."""
import math
import random

from . import model as Mo
from .world import World, Violation, decided

INF = math.inf
FINE = [0.1, 0.2, 0.3, 0.7, 1 / 3, 1.1]
UNION_KINDS = dict(agg=8, sma=2, diff=2, piece=2, sub=2, ema=3, trail=1, accum=1, off=1, ext=1, int=1, blend=1, emainit=1)
FINE_KINDS = ('off', 'sub', 'piece', 'map', 'un', 'agg', 'diff', 'int', 'ema', 'emainit', 'sma', 'smma', 'rsi', 'trail', 'accum', 'ext', 'extr')


def smooth(m):
    """no jumps at samples"""
    return not getattr(m, 'd', None) and isinstance(m, (Mo.Pts, Mo.Const, Mo.Map, Mo.NegAbs, Mo.Agg, Mo.Off)) and not isinstance(m, Mo.OffDur) and getattr(m, 'interp', 0) == 0 and (not isinstance(m, Mo.Pts) or m.nonone) and all(smooth(s) for s in m.srcs)


class Gen:
    def __init__(self, prop, seed, prof, tier='quick'):
        self.rng = random.Random(f'{prop}/{seed}')
        self.prop, self.seed, self.prof = prop, seed, prof
        self.ops = []
        self.n = 0
        r = self.rng
        self.bigx = r.random() < prof.get('bigx', 0.0)
        self.base = r.choice([1580000000, 86400 * 18000]) if self.bigx else 0
        # spacings which are not exact in binary: positions carry rounding
        self.fine = 'fine' in prof and not self.bigx and r.random() < prof['fine']
        # curves over disjoint ranges: unions, pieces, cuts
        self.unions = not self.fine and r.random() < prof.get('unions', 0)
        self.cfg = dict(prof.get('cfg', {}))
        self.cfg['salt'] = r.randrange(1000)
        if self.bigx:
            self.cfg['tol'] = 1e-5
        self.w = World(self.cfg)
        self.swarm = {}

    # -------------------------------------------------------------- plumbing
    def emit(self, op):
        self.ops.append(op)
        return self.w.run_op(op)

    def nid(self, p='n'):
        self.n += 1
        return f'{p}{self.n}'

    def p(self, key, default=0.0):
        return self.rng.random() < self.prof.get(key, default)

    # -------------------------------------------------------------- values
    def yv(self, src=None):
        r = self.rng
        lo, hi = (src or {}).get('range', self.prof.get('yrange', (-8, 8)))
        if src and src.get('none') and r.random() < 0.2:
            return None
        v = r.randint(lo, hi)
        return v + 0.5 if r.random() < 0.15 else v

    def gap(self, src=None):
        if src and src.get('int'):
            return self.rng.choice([1, 1, 1, 2, 3])
        if self.fine:
            return self.rng.choice(FINE)
        return self.rng.choice([0.25, 0.5, 0.5, 1, 1, 1, 1.5, 2, 3])

    def spacing(self, src):
        r = self.rng
        if self.bigx:
            return r.choice([60, 900, 3600, 1])
        if src.get('int'):
            return r.choice([1, 1, 2])
        if self.fine:
            return r.choice(FINE)
        return r.choice([0.25, 0.5, 1, 1, 1, 2])

    def start(self, src, of=(0, 0, -2, 3, 1.5)):
        if self.fine:
            # away from round positions unless nothing else is there
            if not self.prof.get('derive'):
                return self.rng.choice([0, 0.1, 100.1, self.rng.randint(-40, 60) / 10])
            return self.rng.choice([0.0137, -2.3163, 5.7137])
        return self.base + self.rng.choice([math.floor(v) for v in of] if src.get('int') else of)

    def xs_of(self, src, start, k, h=None):
        if self.fine and src['uniform'] and self.rng.random() < 0.5:
            return [start + i * h for i in range(k)]
        xs, x = [], start
        for i in range(k):
            xs.append(x)
            x += h if src['uniform'] else self.gap(src)
        return xs

    def new_points(self, **over):
        r = self.rng
        pr = self.prof
        src = {'uniform': r.random() < pr.get('p_uniform', 0.5), 'none': r.random() < pr.get('p_none', 0.15),
               'range': pr.get('yrange', (-8, 8))}
        src.update(over)
        if self.p('p_int'):
            src['int'] = True
        src['h'] = self.spacing(src)
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]) if not pr.get('minpts') else r.randint(pr['minpts'], pr['minpts'] + 8)
        start = self.start(src)
        pts = [[x, self.yv(src)] for x in self.xs_of(src, start, k, src['h'])]
        i = self.nid('s')
        interp = r.choice(pr.get('interps', [0, 0, 0, -1, 1]))
        if over.get('interp') is not None:
            interp = over['interp']
        a = {'pts': pts, 'uniform': src['uniform'], 'interp': interp, 'none': src['none']}
        if r.random() < 0.3:
            a['alias'] = True
        self.emit({'op': 'new', 'id': i, 'kind': 'points', 'a': a})
        self.w.models[i].gen = src
        return i

    def new_source(self, kinds=None):
        r = self.rng
        k = r.choice(kinds or self.prof.get('sources', ['points']))
        kinds_of = {sp['kind'] for sp in self.w.specs.values()}
        if k == 'sin' and (self.bigx or 'quotes' in kinds_of):
            k = 'const'     # its phase would be lost to rounding
        if k == 'quotes' and 'sin' in kinds_of:
            k = 'points'
        if k == 'points':
            return self.new_points()
        if k == 'quotes':
            return self.new_quotes()
        i = self.nid('s')
        if k == 'const' and r.random() < 0.1 and not kinds and self.sources():
            k, a = 'empty', {}
        elif k == 'const':
            a = {'v': r.choice([1, 2, 3, -2, 0.5, 4])}
            if r.random() < 0.3:
                s = self.base + r.randint(-3, 2)
                a['dom'] = [s, s + r.randint(3, 9)]
        elif k == 'line':
            a = {'p': [r.randint(-3, 3), r.randint(-5, 5)], 'm': r.choice([0, 1, -1, 2, 0.5])}
        elif k == 'sin':
            a = {'a': r.choice([1, 2, 3]), 'period': r.choice([4, 5, 8]), 'phase': r.choice([0, 0.5, 1])}
        elif k == 'gen':
            a = {'k': [r.randint(-4, 4), r.choice([0, 1, 2])]}
            if r.random() < 0.5:
                s = r.randint(-3, 2)
                a['dom'] = [s, s + r.randint(3, 9)]
        self.emit({'op': 'new', 'id': i, 'kind': k, 'a': a})
        return i

    def new_quotes(self):
        r = self.rng
        i = self.nid('s')
        dur = Mo.Dur(r.choice(['1s', '1m', '15m', '1h', '4h', '1d']) if r.random() > self.prof.get('p_calendar', 0.2) else r.choice(['1M', '1M', '7h', '20h']))
        D = dur.D
        base = D * r.choice([0, 3, -4, 1580000000 // D, 1580000000 // D])
        if not dur.uniform:
            base = dur.floor(base)
        a = {'dur': dur.name, 'enc': r.random() < 0.4, 'init': r.random() < 0.5}
        k = r.choice([0, 0, 1, 2, 5, 9, 16])
        a['bars'] = self.bars(base, dur, k)
        self.emit({'op': 'new', 'id': i, 'kind': 'quotes', 'a': a})
        m = self.w.models[i]
        m.base, m.gen = base, {'h': D}
        return i

    # -------------------------------------------------------------- edits
    def edit_op(self, i):
        """a random valid edit of source i for its current data (None if none was found)"""
        r, m = self.rng, self.w.models[i]
        for _ in range(8):
            op = self._edit_op(i, m)
            if op is None:
                continue
            ok, _, _ = self.w.plan_edit(op)
            if ok:
                return op
        return None

    def bad_edit_op(self, i):
        r, m = self.rng, self.w.models[i]
        if isinstance(m, Mo.Line):
            return {'op': 'badline', 'node': i, 'kw': r.choice([{}, {'const': 1}, {'slope': 2}, {'p1': [1, None], 'slope': 1}])}
        if isinstance(m, Mo.Sin):
            return {'op': 'badsin', 'node': i, 'kw': r.choice([{'period': 4}, {'amplitude': 2}, {'amplitude': 1, 'frequency': 2, 'phase': None}, {}])}
        for _ in range(12):
            op = self._bad_points(i, m) if isinstance(m, Mo.Pts) else self._bad_quotes(i, m) if isinstance(m, Mo.Quo) else None
            if op is None:
                return None
            if not self.w.plan_edit(op)[0]:
                return op
        return None

    def _bad_points(self, i, m):
        r = self.rng
        P, src = m.pts, m.gen
        h = src['h']
        k = r.random()
        if not P:
            if k < 0.3:
                return {'op': 'replace', 'node': i, 'v': [0, 1]}
            s = self.base + r.randint(0, 3)
            return {'op': r.choice(['set', 'extend']), 'node': i, 'v': [[s, 1], [s + 1, 2], [s + r.choice([1.5, 2.5, 3]), 2]]}
        last = P[-1][0]
        if k < 0.25:
            return {'op': r.choice(['append', 'append', 'upsert']), 'node': i, 'v': [last - r.choice([0, h, 2 * h, 0.25]), self.yv(src)]}
        if k < 0.45:
            return {'op': r.choice(['append', 'upsert']), 'node': i, 'v': [last + h * r.choice([0.5, 1.5, 2, 3]), self.yv(src)]}
        if k < 0.6:
            x = last + r.choice([h, h, -h, 1.5 * h])
            return {'op': 'extend', 'node': i, 'v': [[x, self.yv(src)], [x + h, self.yv(src)], [x + h * r.choice([1.5, 2.5, 3, 2]), self.yv(src)]]}
        if k < 0.75:
            return {'op': 'replace', 'node': i, 'v': [r.choice([P[0][0] - h, last + h, last + 0.25, P[0][0] - 0.5]), self.yv(src)]}
        if k < 0.85 and len(P) > 1:
            return {'op': r.choice(['replace', 'upsert']), 'node': i, 'v': [r.choice(P[:-1])[0] + h * r.choice([0.5, 0.25]), self.yv(src)]}
        if k < 0.93 and len(P) > 3:
            a = r.randint(1, len(P) - 2)
            return {'op': 'reset', 'node': i, 'v': [P[a][0], P[a][0], False, False]}
        s = self.base
        return {'op': 'set', 'node': i, 'v': [[s, 1], [s + h, 2], [s + h * r.choice([2.5, 3, 1.5]), 3], [s + 4 * h, 1]]}

    def _edit_op(self, i, m):
        r = self.rng
        if isinstance(m, Mo.Const):
            return {'op': 'setc', 'node': i, 'v': r.choice([1, 2, 3, -2, 0.5, 4, m.v])}
        if isinstance(m, Mo.Line):
            return {'op': 'setline', 'node': i, 'p': [r.randint(-3, 3), r.randint(-5, 5)], 'm': r.choice([0, 1, -1, 2, 0.5]), 'form': r.randrange(3)}
        if isinstance(m, Mo.Sin):
            return {'op': 'setsin', 'node': i, 'a': r.choice([1, 2, 3]), 'period': r.choice([4, 5, 8]), 'phase': r.choice([0, 0.5, 1])}
        if isinstance(m, Mo.Gen):
            return {'op': 'setgen', 'node': i, 'k': [r.randint(-4, 4), r.choice([0, 1, 2])]}
        if isinstance(m, Mo.Quo):
            return self._edit_quotes(i, m)
        P, src = m.pts, m.gen
        wts = self.prof.get('edits', {'append': 5, 'extend': 2, 'replace': 5, 'upsert': 2, 'reset': 1.2, 'resetall': 0.3, 'set': 0.8})
        k = r.choices(list(wts), list(wts.values()))[0]
        alias = {'alias': True} if r.random() < 0.3 else {}
        maxn = self.prof.get('maxpts', 24)
        if k in ('append', 'extend') and len(P) > maxn:
            k = 'replace'
        if k == 'append' or k == 'extend':
            cnt = 1 if k == 'append' else r.randint(1, 4)
            if not P:
                start = self.start(src, (0, 0, 1, -3, 2.5))
                src['h'] = self.spacing(src)
            elif src['uniform']:
                h = P[1][0] - P[0][0] if len(P) > 1 else self.spacing(src)
                src['h'] = h
                start = P[-1][0] + h
            else:
                start = P[-1][0] + self.gap(src)
            pts = [[x, self.yv(src)] for x in self.xs_of(src, start, cnt, src['h'])]
            if k == 'append':
                return {'op': 'append', 'node': i, 'v': pts[0]}
            return dict({'op': 'extend', 'node': i, 'v': pts}, **alias)
        if k == 'replace' or k == 'upsert':
            if not P:
                if k == 'upsert':
                    return {'op': 'upsert', 'node': i, 'v': [self.base if not self.fine else self.start(src), self.yv(src)]}
                return None
            q = r.random()
            if not src['uniform'] and q < 0.35 and len(P) > 1:
                j = r.randrange(len(P) - 1)
                a, b = P[j][0], P[j + 1][0]
                x = a + (b - a) * r.choice([0.25, 0.5, 0.75])
                if b - a < 0.2 or (src.get('int') and x != math.floor(x)):
                    return None
            elif k == 'upsert' and q < 0.7:
                h = P[1][0] - P[0][0] if len(P) > 1 else 1
                x = P[-1][0] + (h if src['uniform'] else self.gap(src))
            elif r.random() < 0.4:
                x = r.choice([P[-1][0], P[0][0]])
            else:
                x = r.choice(P)[0]
            return {'op': k, 'node': i, 'v': [x, self.yv(src)]}
        if k == 'resetall':
            return {'op': 'reset', 'node': i, 'v': None}
        if k == 'reset':
            if not P:
                return {'op': 'reset', 'node': i, 'v': [0, 1, False, False]}
            j = r.randrange(len(P))
            q = r.random()
            if q < 0.4:      # cut the tail
                return {'op': 'reset', 'node': i, 'v': [P[j][0] - r.choice([0, 0, 0.125]), r.choice([INF, P[-1][0], P[-1][0] + 1]) if r.random() < .8 else INF, r.random() < 0.3, False]}
            if q < 0.6:      # cut the head
                return {'op': 'reset', 'node': i, 'v': [r.choice([-INF, P[0][0] - 1, P[0][0]]), P[j][0] + r.choice([0, 0, 0.125]), False, r.random() < 0.3]}
            j2 = min(len(P) - 1, j + r.randint(0, 3))
            lo, hi = P[j][0] - r.choice([0, 0, 0.125]), P[j2][0] + r.choice([0, 0, 0.125])
            ao, bo = r.random() < 0.3, r.random() < 0.3
            if lo == hi:
                ao = bo = False
            return {'op': 'reset', 'node': i, 'v': [lo, hi, ao, bo]}
        if k == 'set':
            src['h'] = self.spacing(src)
            start = self.start(src)
            pts = [[x, self.yv(src)] for x in self.xs_of(src, start, r.choice([0, 1, 2, 3, 5, 8]), src['h'])]
            return dict({'op': 'set', 'node': i, 'v': pts}, **alias)
        return None

    # quotes
    def bar(self, t):
        r = self.rng
        o, c = r.randint(10, 30), r.randint(10, 30)
        return [t, [o, max(o, c) + r.randint(0, 4), min(o, c) - r.randint(0, 4), c, r.randint(0, 9)]]

    def bars(self, t, dur, k):
        out = []
        for _ in range(k):
            out.append(self.bar(t))
            t = dur.next(t)
        return out

    def _edit_quotes(self, i, m):
        r = self.rng
        P, dur = m.p.pts, m.dur
        k = r.choices(['append', 'extend', 'set'], [6, 3, 0.7])[0]
        if k == 'set':
            t = dur.step(m.base, r.randint(0, 3))
            return {'op': 'set', 'node': i, 'v': self.bars(t, dur, r.choice([0, 1, 2, 6, 12]))}
        t = dur.next(P[-1][0]) if P else dur.step(m.base, r.randint(0, 3))
        if k == 'append':
            return {'op': 'append', 'node': i, 'v': self.bar(t)}
        return {'op': 'extend', 'node': i, 'v': self.bars(t, dur, r.choice([1, 2, 5, 12]))}

    def _bad_quotes(self, i, m):
        r = self.rng
        P, D, dur = m.p.pts, m.D, m.dur
        t = dur.next(P[-1][0]) if P else m.base
        if not dur.uniform:
            # any ascending times are taken
            if len(P) < 1 or r.random() < 0.2:
                return {'op': 'set', 'node': i, 'v': [self.bar(t), self.bar(dur.next(t)), self.bar(t)]}
            u = dur.step(P[-1][0], r.choice([0, -1, -3]))
            if r.random() < 0.6:
                return {'op': 'append', 'node': i, 'v': self.bar(u)}
            return {'op': 'extend', 'node': i, 'v': [self.bar(u), self.bar(t)]}
        if len(P) < 2:
            t = m.base
            return {'op': 'set', 'node': i, 'v': [self.bar(t), self.bar(t + D), self.bar(t + 3 * D)]}
        t = P[-1][0] + D * r.choice([0, -1, 2, 3, 0.5])
        if r.random() < 0.6:
            return {'op': 'append', 'node': i, 'v': self.bar(t)}
        return {'op': 'extend', 'node': i, 'v': [self.bar(P[-1][0] + D), self.bar(P[-1][0] + D * r.choice([1.5, 3]))]}

    # -------------------------------------------------------------- derived curves
    def pick(self, pred=lambda m: True, bias=True):
        r = self.rng
        c = [n for n, m in self.w.models.items() if m.num and m.depth < self.prof.get('maxdepth', 5) and pred(m)]
        if not c:
            return None
        if bias and r.random() < 0.5:
            return c[-1 - int(len(c) * r.random() ** 2) % len(c)]
        return r.choice(c)

    def raw_points(self):
        r = self.rng
        x, out = self.base + r.randint(-2, 2), []
        h = r.choice([1, 1, 0.5, 3]) * (60 if self.bigx else 1)
        quo = [m for m in self.w.models.values() if isinstance(m, Mo.Quo)]
        if quo:
            # not closer to a quote than the least step of quotes
            g, D = quo[0].grid(), min(m.D for m in quo)
            x, h = (g[0] if g else 0) + D * r.choice([-2, -1, 0, 0.5, 1.5]), h * D
        for _ in range(r.choice([1, 2, 3, 5])):
            out.append([x, r.randint(-4, 9)])
            x += h
        return out

    def derive(self, kind):
        """emit a new derived curve of this kind; None when nothing suits"""
        r, w = self.rng, self.w
        grid = lambda m: m.grid_ok and m.finite
        full = lambda m: m.grid_ok and m.finite and not m.leaf
        fin = lambda m: m.finite and m.deg <= 3

        def uflag(n):
            return bool(w.models[n].uniform and r.random() < 0.5)
        a, src = {}, []
        if kind == 'map':
            s = self.pick(fin)
            src = [s]
            a = {'f': r.choice(['dbl', 'neg1', 'inc', 'half', 'sq', 'abs1', 'fill0', 'addx', 'par']), 'skip': r.random() < 0.4}
            if s and not w.models[s].exact and a['f'] == 'par':
                a['f'] = 'dbl'
            if self.bigx and a['f'] in ('addx',) or self.fine and a['f'] == 'par':
                a['f'] = 'dbl'
        elif kind == 'un':
            s = self.pick(fin)
            src, a = [s], {'w': r.choice(['neg', 'neg', 'abs'])}
            if s and isinstance(w.models[s], Mo.Map) and w.models[s].fid == 'abs1':
                a['w'] = 'inv'
        elif kind == 'agg':
            k = r.choice([2, 2, 2, 3])
            src = [self.pick(fin) for _ in range(k)]
            if None in src:
                return None
            o = r.choice(['add', 'add', 'sub', 'mul', 'min', 'max', 'mine', 'maxe', 'first', 'uf', 'div', 'pow', 'log', 'list'] if not self.unions else ['add', 'mine', 'maxe', 'first', 'mine', 'maxe', 'first'])
            a = {'op': o}
            if o == 'mul' and sum(w.models[s].deg for s in src) > 4:
                a['op'] = o = 'add'
            if o == 'uf':
                a['f'] = r.choice(['wsum', 'cntn'])
            if o in ('pow',):
                src = [src[0], self.const_node([2, 3, 1])]
            if o in ('log', 'div'):
                src = src[:2]
                d = self.abs1_of(src[0 if o == 'log' else 1])
                if d is None:
                    return None
                if o == 'log':
                    src = [d, self.const_node([2, 4])]
                else:
                    src[1] = d
            if r.random() < 0.4 and o not in ('div', 'pow', 'log'):
                if len(src) > 1 and r.random() < 0.7:
                    src = src[:-1]
                a['raw'] = [[r.randrange(len(src) + 1)] + r.choice([['num', r.choice([1, 2, -3, 0.5, 0])], ['num', r.choice([1, 2, 4])], ['pts', self.raw_points()] if not self.fine else ['num', 3], ['fn', [r.choice([1, 2]), r.choice([0, 1, -1])]]])]
                if len(src) > 1 and a['raw'][0][1] == 'pts' and a['raw'][0][0] == 0:
                    a['raw'][0][0] = 1
            elif o in ('pow', 'log', 'div') and r.random() < 0.4 and (o != 'div'):
                a['raw'] = [[1, 'num', {'pow': r.choice([1, 2, 3]), 'log': r.choice([2, 4])}[o]]]
                src = src[:1]
            elif r.random() < 0.1:
                g = [n for n, m in w.models.items() if isinstance(m, Mo.Pts) and getattr(m, 'gen', None)]
                if g:
                    src, a = [r.choice(g)], {'op': 'pow', 'raw': [[0, 'num', 2]]}
                    o = 'pow'
            if r.random() < 0.5:
                a['form'] = r.choice(['many', 'args', 'meth'])
            if a.get('raw') and a['raw'][0][1:2] == ['fn'] and self.bigx:
                a['raw'][0][2][1] = 0
            if o == 'list' and not self.prof.get('list_ok', True):
                a['op'] = 'add'
        elif kind == 'diff':
            s = self.pick(lambda m: grid(m) and m.dyable)
            src, a = [s], {'fwd': r.random() < 0.4}
        elif kind == 'off':
            src, a = [self.pick(fin)], {'d': r.choice([1, -1, 0.5, 2, -3, 10, -10])}
            if self.fine:
                src, a = [self.pick(lambda m: fin(m) and smooth(m))], {'d': r.choice([0.1237, 1.0571, -0.3103, 0.7041])}
        elif kind == 'piece':
            k = r.choice([1, 2, 2, 3])
            src = [self.pick(fin) for _ in range(k)]
            x, op, parts = self.base + r.randint(-2, 2), r.random() < 0.15, []
            for j in range(k):
                e = x + r.choice([1, 1.5, 2, 4])
                gap = r.random() < 0.2
                eo = r.random() < (0.15 if j == k - 1 else 0.4 if gap else 0.7)
                parts.append([x, e, op, eo])
                # the cut belongs to the left piece, to the right one, or to neither
                op = r.random() < 0.4 if gap else not eo or r.random() < 0.1
                x = e + (r.choice([0.5, 1]) if gap else 0)
            if r.random() < 0.15:
                parts[0][0], parts[0][2] = -math.inf, True
            if r.random() < 0.15:
                parts[-1][1], parts[-1][3] = math.inf, True
            a = {'parts': parts}
        elif kind == 'sub':
            s0 = self.base + r.randint(-2, 3)
            src, a = [self.pick(fin)], {'dom': [s0, s0 + r.choice([1, 2.5, 4, 8]), r.random() < 0.2, r.random() < 0.2]}
            if r.random() < 0.1:
                a['dom'][0], a['dom'][2] = -math.inf, True
            elif r.random() < 0.1:
                a['dom'][1], a['dom'][3] = math.inf, True
        elif kind == 'int':
            s = self.pick(lambda m: grid(m) and m.deg <= 3)
            if s:
                src, a = [s], {'c': r.choice([0, 0, 5]), 'interp': r.choice([None, 0, -1, 1]), 'u': uflag(s)}
        elif kind == 'sma':
            s = self.pick(full)
            if s:
                src, a = [s], {'u': uflag(s)}
                if w.models[s].uniform and r.random() < 0.45:
                    a['p'] = r.choice([1, 2, 3, 2.5, 4]) * next((q.gen['h'] for q in w.models[s].sources() if hasattr(q, 'gen')), 1)
                else:
                    a['n'] = r.choice([1, 2, 3, 3, 4, 5])
                if r.random() < self.prof.get('family', 0):
                    a.pop('p', None), a.pop('n', None)
                    k = r.choice([1, 2, 3])
                    a['family'] = [r.choice([1, 1, 2]), k, r.choice([0, 0, 1]), r.randrange(k), r.random() < 0.5]
        elif kind in ('ema', 'emainit'):
            s = self.pick(lambda m: grid(m) and m.deg <= 4)
            if s:
                src, a = [s], {'u': uflag(s)}
                if r.random() < 0.4:
                    a['p'] = r.choice([2, 4, 8]) * (next((q.D for q in w.models.values() if isinstance(q, Mo.Quo)), None) or (60 if self.bigx else 1))
                else:
                    a['alpha'] = r.choice([0.5, 0.25, 0.125, 0.75])
                if kind == 'emainit':
                    t = self.pick(fin)
                    src.append(t)
        elif kind == 'smma':
            s = self.pick(full)
            if s:
                src, a = [s], {'n': r.choice([2, 3, 4]), 'u': uflag(s)}
        elif kind == 'rsi':
            s = self.pick(lambda m: grid(m) and m.exact and m.uniform and m.dyable)
            if s:
                src, a = [s], {'n': r.choice([2, 4, 8]), 'u': uflag(s)}
        elif kind == 'trail':
            s = self.pick(grid)
            if s:
                f = r.choice(['min', 'max', 'min', 'max', 'wmean', 'wnew', 'wspan', 'wcnt', 'wmiss'][4 if not w.models[s].nonone else 0:])
                if self.bigx and f == 'wspan':
                    f = 'wnew'
                src, a = [s], {'f': f, 'interp': r.choice([None, 0, -1, 1]), 'u': uflag(s)}
                ms = w.models[s]
                if isinstance(ms, Mo.Pts) and r.random() < 0.5:
                    a['p'] = r.choice([1, 2, 2.5, 3]) * (60 if self.bigx else 1)
                else:
                    a['n'] = r.choice([1, 2, 3, 4, 6])
        elif kind == 'accum':
            s = self.pick(lambda m: grid(m) and m.deg <= 3)
            if s:
                src, a = [s], {'f': r.choice(['csum', 'cmax', 'ccnt']), 'interp': r.choice([None, 0, -1, 1]), 'u': uflag(s)}
        elif kind == 'ext':
            s = self.pick(lambda m: grid(m) and m.dyable and not m.leaf)
            if s:
                k = r.choice(['constant', 'constant', 'tangent', 'tangent', 'sin'])
                st, en = r.choice([(False, True), (True, True), (True, False), (False, True)])
                src, a = [s], {'k': k, 'start': st, 'end': en}
                if k == 'sin' and (self.bigx or any(isinstance(q, Mo.Quo) for q in w.models.values())):
                    a['k'] = k = 'tangent'      # (a sine of millions of turns is rounding)
                if k == 'sin':
                    a['period'] = r.choice([4, 6, 7.5])
                if k != 'constant' and r.random() < 0.4 and isinstance(w.models[s], Mo.Pts) and w.models[s].nonone:
                    if r.random() < 0.5:
                        a['rn'] = r.choice([1, 2, 3])
                    else:
                        a['rx'] = r.choice([1, 2, 3])
        elif kind == 'extr':
            # values between samples are exact on even grids only
            even = lambda m: all(isinstance(q, Mo.Const) or isinstance(q, Mo.Pts) and q.uniform for q in m.sources())
            s = self.pick(lambda m: grid(m) and (isinstance(m, Mo.Pts) or m.exact and not m.leaf and m.stepable and (isinstance(m, Mo.Map) or isinstance(m, (Mo.Off, Mo.Agg)) and even(m) and not self.fine)))
            if s:
                ref = self.ref_node()
                src, a = [s, ref], {'dev': r.choice([0, 0, 0.13, 0.27])}
        elif kind == 'blend':
            s = self.pick(fin)
            a0 = self.base + r.choice([-1, 0, 1, 2, 3.5])
            src, a = [s, self.pick(fin)], {'a': a0, 'b': a0 + r.choice([0.5, 1, 2, 4])}
        elif kind == 'offdur':
            s = self.pick(lambda m: m.finite and grid(m))
            if s:
                dur = next((q.dur.name for q in w.models[s].sources() if isinstance(q, Mo.Quo)), '1m' if self.bigx else '1s')
                if r.random() < 0.2:
                    dur = {'1s': '2s', '15m': '1h', '1h': r.choice(['4h', '7h']), '4h': '1d', '7h': '1d', '20h': '1d', '1d': '1M'}.get(dur, dur)
                src, a = [s], {'k': r.choice([1, -1, 2, 5, -3, 0]), 'dur': dur}
        elif kind in ('qview', 'qtrail', 'qao', 'qalli'):
            qs = [n for n, m in w.models.items() if isinstance(m, Mo.Quo)]
            if qs:
                src = [r.choice(qs)]
                D = w.models[src[0]].D
                if kind == 'qview':
                    a = {'w': r.choice(['open', 'high', 'low', 'close', 'volume', 'hl2', 'close', 'hl2'])}
                elif kind == 'qtrail':
                    a = {'w': r.choice(['high', 'low'])}
                    if r.random() < 0.7:
                        a['n'] = r.choice([1, 2, 3, 5])
                    else:
                        a['p'] = D * r.choice([1, 2, 3, 4] if w.models[src[0]].uniform else [0.5, 1, 2, 3])
                elif kind == 'qalli':
                    a = {'j': r.choice([2, 2, 1, 0])}
        else:
            raise KeyError(kind)
        if not src or None in src:
            return None
        i = self.nid('d')
        if self.emit({'op': 'new', 'id': i, 'kind': kind if kind != 'emainit' else 'ema', 'src': src, 'a': a}):
            return i
        return None

    def const_node(self, vals):
        i = self.nid('s')
        self.emit({'op': 'new', 'id': i, 'kind': 'const', 'a': {'v': self.rng.choice(vals)}})
        self.w.models[i].fixed = True
        return i

    def abs1_of(self, s):
        if s is None:
            return None
        i = self.nid('d')
        self.emit({'op': 'new', 'id': i, 'kind': 'map', 'src': [s], 'a': {'f': 'abs1', 'skip': self.rng.random() < 0.5}})
        return i

    def ref_node(self):
        """a positive reference for extremas"""
        r = self.rng
        have = [n for n, m in self.w.models.items() if getattr(m, 'isref', False)]
        if have and r.random() < 0.5:
            return r.choice(have)
        if r.random() < 0.5 or self.fine:
            i = self.const_node([8, 10])
            self.w.models[i].isref = True
            self.w.models[i].fixed = r.random() < 0.3
            return i
        i = self.new_points(range=(7, 12), none=False, interp=0)
        self.w.models[i].isref = True
        return i

    # -------------------------------------------------------------- reads
    def xpool(self, m):
        """positions worth asking about: samples, between, edges, outside"""
        g = list(m.grid()) if m.grid_ok or isinstance(m, (Mo.Ext, Mo.Extr)) else []
        for s in m.sources():
            g += s.grid()
        d = m.dom()
        if d:
            g += [v for v in d if not math.isinf(v)]
        if isinstance(m, Mo.Piece):
            g += [v for q in m.parts for v in q[:2] if not math.isinf(v)] * 2
        if not g:
            g = [self.base + v for v in (-1, 0, 1, 2.5)]
        if isinstance(m, Mo.Piece):
            return sorted(g)
        g = sorted(set(g))
        return g

    def rx(self, m, pool=None, near=False):
        r = self.rng
        g = pool or self.xpool(m)
        q = r.random()
        if near and self.fine and q < 0.15 and smooth(m):
            # a sample's position computed otherwise
            if r.random() < 0.3 and m.finite and m.dom():
                return math.nextafter(m.dom()[1], -INF)
            return math.nextafter(r.choice(g), r.choice([-INF, INF]))
        if q < 0.4:
            return r.choice(g)
        if q < 0.8 and len(g) > 1:
            j = r.randrange(len(g) - 1)
            return g[j] + (g[j + 1] - g[j]) * r.choice([0.5, 0.25, 0.75, 0.125])
        if q < 0.9:
            return r.choice([g[0], g[-1]])
        return r.choice([g[0] - r.choice([0.5, 1, 5]), g[-1] + r.choice([0.5, 1, 5])])

    def rrange(self, m, pool=None):
        r = self.rng
        a, b = sorted([self.rx(m, pool), self.rx(m, pool)])
        ao, bo = r.random() < 0.3, r.random() < 0.3
        if a == b:
            ao = bo = False
        if not ao and not bo and r.random() < 0.3:
            # ranges given as lists, tuples and single positions
            return [a, b, ao, bo, r.choice(['list', 'tuple']) if a != b else 'num']
        return [a, b, ao, bo]

    def items(self, n, k=None, kinds=None):
        r, m = self.rng, self.w.models[n]
        kinds = kinds or self.prof.get('items', {'y': 6, 'dom': 2})
        pool = self.xpool(m)
        out = []
        k = k or r.choice([1, 2, 3, 4])
        ks = r.choices(list(kinds), list(kinds.values()), k=k)
        d = m.dom()
        for t in ks:
            it = None
            if self.fine and isinstance(m, Mo.Ext) and t not in ('y', 'dom'):
                continue        # how far its steps have come is rounded
            if t in ('y', 'call'):
                it = [t, self.rx(m, pool, near=True)]
            elif t == 'dom':
                it = ['dom']
            elif t in ('nx', 'px', 'npt', 'ppt'):
                if m.walk:
                    x = self.rx(m, pool)
                    if any(isinstance(q, Mo.Quo) or isinstance(q, Mo.Const) and q.d for q in m.sources()) and not m.inside(x):
                        continue        # (quotes step by at least a tenth of their duration, constants to their other end)
                    q = m.nxt(x) if t in ('nx', 'npt') else m.prv(x)
                    if q is None or not math.isinf(q):
                        it = [t, x]
            elif t in ('nxm', 'pxm'):
                if m.walk and not self.fine:
                    x = self.rx(m, pool)
                    h = r.choice([0.25, 0.5, 1, 1.5, 2, 3, 7]) * (60 if self.bigx else 1)
                    q = m.nxt(x, h) if t == 'nxm' else m.prv(x, h)
                    if not any(isinstance(q, Mo.Quo) or isinstance(q, Mo.Const) and q.d for q in m.sources()) and (q is None or not math.isinf(q)):
                        it = [t, x, h]
            elif t in ('wf', 'wb'):
                if m.stepable and m.grid_ok:
                    it = [t]
            elif t == 'sp':
                if isinstance(m, Mo.Extr):
                    it = ['sp', self.rrange(m, pool) if r.random() < 0.5 else None]
                elif m.samp and m.grid_ok:
                    it = ['sp', self.rrange(m, pool) if r.random() < 0.6 else None]
                elif not m.samp and m.walk:
                    rg = self.rrange(m, pool) if not d or math.isinf(d[0]) or math.isinf(d[1]) or r.random() < 0.6 else None
                    it = ['sp', rg]
            elif t == 'sfx':
                if m.walk and (m.grid_ok or isinstance(m, (Mo.Ext, Mo.Extr, Mo.Const))):
                    x = self.rx(m, pool)
                    if m.inside(x):
                        it = ['sfx', x, r.randint(1, 5), r.random() < 0.6, r.random() < 0.6]
                        q = r.random()
                        if q < 0.2:
                            it[2] = -it[2]
                        elif q < 0.4 and m.grid_ok and not self.fine and not isinstance(m, Mo.Extr) and not any(isinstance(s, Mo.Quo) for s in m.sources()):
                            it.append(r.choice([0.25, 0.5, 1, 1.5, 2, 3]) * (60 if self.bigx else 1))
            elif t == 'dy':
                if m.dyable and m.finite and (m.grid_ok or isinstance(m, (Mo.Const, Mo.Line, Mo.Sin))):
                    x = self.rx(m, pool)
                    if m.inside(x):
                        it = ['dy', x, r.random() < 0.5]
            elif t in ('spstep', 'spmin'):
                h = self.sample_step(m, d, 'step' if t == 'spstep' else 'min_step')
                if h:
                    it = [t, self.rrange(m, pool) if r.random() < 0.6 else None, h]
            elif t in ('rng', 'reg'):
                if m.exact and m.num and m.grid_ok and m.samp and not isinstance(m, Mo.Extr):
                    it = [t, self.rrange(m, pool) if r.random() < 0.6 else None]
                    if r.random() < 0.4:
                        how = r.choice(['step', 'min_step'])
                        h = self.sample_step(m, d, how)
                        if h:
                            it.append([how, h])
            elif t in ('mini', 'maxi'):
                if m.exact and m.grid_ok and m.stepable and m.dyable and d and not isinstance(m, Mo.Extr):
                    g = m.grid()
                    it = [t, self.rx(m, pool)] if isinstance(m, Mo.Pts) or not g else [t, r.choice(g)]
                    if isinstance(m, Mo.Pts) and r.random() < 0.35:
                        it.append(r.choice([0.25, 0.5, 1, 1, 2, 3]) * (60 if self.bigx else 1))
            elif t == 'lx':
                if isinstance(m, Mo.Line) and m.m:
                    it = [t, r.choice([-3, 0, 0.5, 4, 100])]
            elif t == 'ends':
                if d is None or (not math.isinf(d[0]) and not math.isinf(d[1])):
                    if isinstance(m, (Mo.Pts, Mo.Map, Mo.Agg, Mo.Acc, Mo.Sma, Mo.Off)) and (d is not None or isinstance(m, Mo.Pts)):
                        it = ['ends']
            elif t in ('qsample', 'qrange'):
                if isinstance(m, Mo.Quo):
                    it = [t, self.rrange(m, pool) if r.random() < 0.6 else None]
            elif t == 'qlast':
                if isinstance(m, Mo.Quo):
                    it = [t]
            if it is not None:
                out.append(it)
        return out

    def sample_step(self, m, d, how):
        """a step by which sampling the curve is asserted"""
        if not d or math.isinf(d[0]) or math.isinf(d[1]) or isinstance(m, Mo.Extr) or self.bigx and Mo.built_of(m, Mo.Ema):
            return None
        if self.fine:
            return None         # (multiples of a step are not the decimal positions)
        if how == 'min_step' and not (m.grid_ok and m.stepable):
            return None
        h = self.rng.choice([0.25, 0.5, 1, 1.5, 2, 3, 5]) * (60 if self.bigx else 1)
        if isinstance(m, Mo.Pts):
            gaps = [q[0] - p[0] for p, q in zip(m.pts, m.pts[1:])]
            if not gaps or max(gaps) == min(gaps) == h or how == 'min_step' and h <= min(gaps):
                return None
        return h

    def chk(self, n=None, k=None, kinds=None):
        if n is None:
            n = self.target()
            if n is None:
                return
        it = self.items(n, k, kinds)
        if it:
            self.emit({'op': 'chk', 'node': n, 'it': it})

    def target(self):
        r = self.rng
        t = [n for n in self.w.models if self.is_target(n)]
        return r.choice(t) if t else None

    def is_target(self, n):
        tk = self.prof.get('targets')
        return tk is None or self.w.specs[n]['kind'] in tk

    def full_check(self):
        """at the end: every target, in shuffled order, over its whole pool of positions"""
        r = self.rng
        ns = [n for n in self.w.models if self.is_target(n)]
        r.shuffle(ns)
        kinds = self.prof.get('items', {'y': 6, 'dom': 2})
        for n in ns:
            m = self.w.models[n]
            pool = self.xpool(m)
            xs = list(pool)
            xs += [(a + b) / 2 for a, b in zip(pool, pool[1:])]
            xs += [pool[0] - 1, pool[-1] + 1]
            mode = r.random()
            if mode < 0.4:
                r.shuffle(xs)
            elif mode < 0.6:
                xs.sort(reverse=True)
            else:
                xs.sort()
            its = [['y', x] for x in xs[:60]]
            if 'dom' in kinds:
                its.insert(r.randrange(len(its) + 1), ['dom'])
            for k in kinds:
                if k not in ('y', 'dom'):
                    for it in self.items(n, 2, {k: 1}):
                        its.insert(r.randrange(len(its) + 1), it)
            self.emit({'op': 'chk', 'node': n, 'it': its})

    def poke(self):
        r = self.rng
        n = self.pick(lambda m: True)
        if n is None:
            return
        m = self.w.models[n]
        pool = self.xpool(m)
        k = r.choice(['y', 'y', 'dom', 'dy', 'nx', 'px', 'sp', 'ends', 'repr'])
        op = {'op': 'poke', 'node': n, 'k': k, 'x': self.rx(m, pool)}
        d = m.dom()
        if k in ('dy', 'nx', 'px', 'ends') and not (m.grid_ok and m.stepable and m.inside(op['x'])):
            op['k'] = k = 'y'
        if k == 'sp' and isinstance(m, (Mo.Piece, Mo.Sub, Mo.Blend, Mo.Ext)):
            op['k'] = 'y'
        elif k == 'dy' and not (m.dyable and m.finite):
            op['k'] = k = 'dom'
        if k == 'sp':
            if not (m.samp and m.grid_ok):
                op['k'] = 'y'
            elif r.random() < 0.6:
                op['r'] = self.rrange(m, pool)
        self.emit(op)

    # -------------------------------------------------------------- observers
    def observer(self, node, **kw):
        r = self.rng
        op = {'op': 'obs', 'id': self.nid('o'), 'node': node}
        op.update(kw)
        self.emit(op)
        return op['id']

    def script(self, acts):
        """random script of k actions drawn from acts (functions returning an action)"""
        r = self.rng
        return [a for a in (r.choice(acts)() for _ in range(r.choice([1, 1, 2, 3]))) if a]

    def act_read(self):
        n = self.pick(lambda m: True)
        if n is None:
            return None
        if self.rng.random() < 0.2:
            return ['dom', n]
        return ['read', n, self.rx(self.w.models[n])]

    def act_edit(self, own=None):
        r = self.rng
        c = [n for n, m in self.w.models.items() if isinstance(m, (Mo.Pts, Mo.Const)) and not getattr(m, 'fixed', 0) and n != own]
        if not c:
            return None
        n = r.choice(c)
        m = self.w.models[n]
        rel = r.choice(['append', 'replace']) if isinstance(m, Mo.Pts) else 'set'
        src = getattr(m, 'gen', {})
        return ['edit', {'rel': rel, 'node': n, 'y': r.choice([1, 2, 3, 4]) if not src else self.yv(src), 'i': r.randrange(6)}]

    # -------------------------------------------------------------- whole runs
    def sources(self):
        return [n for n, m in self.w.models.items() if not m.srcs and not getattr(m, 'fixed', False)]

    def build(self):
        r, pr = self.rng, self.prof
        lo, hi = pr.get('nsrc', (1, 2)) if not self.fine else (1, 1)
        for _ in range(r.randint(lo, hi)):
            self.new_source(['points'] if self.fine else None)
        kinds = dict(pr.get('derive', {})) if not self.unions else dict(UNION_KINDS)
        ok = lambda k: True
        if self.fine:
            pos = ('sub', 'piece') if 'ext' in pr.get('must', ()) or r.random() < 0.3 else ('ext',)
            ok = lambda k: k in FINE_KINDS and k not in pos
        kinds = {k: v for k, v in kinds.items() if ok(k)}
        if not kinds:
            return
        # swarm: a random subset of kinds per run
        names = [k for k in kinds if r.random() < pr.get('swarm', 0.7)] or list(kinds)
        lo, hi = pr.get('nder', (2, 5))
        for _ in range(r.randint(lo, hi)):
            self.derive(r.choices(names, [kinds[k] for k in names])[0])
        must = [k for k in pr.get('must', ()) if ok(k)]
        if must:
            for _ in range(r.choice([1, 1, 2])):
                for _ in range(4):
                    if self.derive(r.choice(must)):
                        break
        assert all(map(ok, pr.get('post', ())))
        for _ in range(r.choice([0, 1, 2]) if pr.get('post') else 0):
            self.derive(r.choice(pr['post']))

    def observers(self):
        """plain logging observers for the notification oracles"""
        r, pr = self.rng, self.prof
        po = pr.get('obs', 0)
        for n in list(self.w.models):
            if r.random() < po:
                self.observer(n)
                if pr.get('obs_dom') and r.random() < pr['obs_dom']:
                    g = self.xpool(self.w.models[n])
                    for _ in range(r.choice([1, 2])):
                        a = r.choice(g) + 0.0619
                        self.observer(n, dom=[a, a + r.choice([0.25, 1, 2, 4])])

    def step(self):
        r, pr = self.rng, self.prof
        wts = dict(pr.get('mix', {'edit': 5, 'chk': 4, 'poke': 1}))
        k = r.choices(list(wts), list(wts.values()))[0]
        if k == 'edit':
            s = self.sources()
            if s:
                op = self.edit_op(r.choice(s))
                if op:
                    self.emit(op)
        elif k == 'bad':
            s = self.sources()
            if s:
                op = self.bad_edit_op(r.choice(s))
                if op:
                    self.emit(op)
        elif k == 'chk':
            self.chk()
        elif k == 'poke':
            self.poke()
        elif k == 'full':
            self.full_check()
        elif k == 'new':
            self.derive(r.choice(list(pr['derive'])))
        elif k == 'drop':
            # not what observers with reads of their own hang on: these would end with it
            own = {o.node for o in self.w.obs.values() if o.scripts}
            d = [n for n, m in self.w.models.items() if m.srcs and n not in own]
            if d:
                self.emit({'op': 'drop', 'node': r.choice(d)})
        elif k == 'gc':
            self.emit({'op': 'gc'})
        elif k == 'fresh':
            self.fresh()
        elif k == 'scripted':
            self.scripted_observer()
        elif k == 'unobs':
            o = [i for i, o in self.w.obs.items() if o.alive is True and o.scripts]
            if o:
                self.emit({'op': 'unobs', 'id': r.choice(o)})
        elif k == 'armed':
            self.armed_read()
        elif k == 'armed_edit':
            self.armed_edit()
        else:
            raise KeyError(k)

    def fresh(self):
        r = self.rng
        reads = []
        ns = list(self.w.models)
        r.shuffle(ns)
        for n in ns:
            m = self.w.models[n]
            pool = self.xpool(m)
            xs = [self.rx(m, pool) for _ in range(r.choice([2, 4, 8]))]
            if r.random() < 0.4:
                xs.insert(0, 'dom')
            if not decided(m):
                continue
            reads.append([n, xs])
        self.emit({'op': 'fresh', 'reads': reads, 'salt': r.randrange(1000)})

    def scripted_observer(self):
        r, pr = self.rng, self.prof
        what = pr.get('scripts', ['read'])
        n = self.pick(lambda m: True)
        if n is None:
            return
        roots = set(id(s) for s in self.w.models[n].sources()) | {id(self.w.models[n])}
        own = None
        sc = {}
        for kind in r.choice(['b', 'e', 'be', 'e']):
            acts = []
            if 'read' in what:
                acts += [self.act_read, self.act_read]
            if 'edit' in what and kind == 'e':
                acts.append(lambda: self.act_edit())
            if 'editother' in what and kind == 'b':
                def f():
                    a = self.act_edit()
                    if a and id(self.w.models[a[1]['node']]) in roots:
                        return None
                    return a
                acts.append(f)
            if 'raise' in what:
                acts.append(lambda: ['raise'])
            if 'gc' in what:
                acts.append(lambda: ['gc'])
            sc[kind] = self.script(acts)
        self.observer(n, scripts=sc, budget=r.choice([1, 2, 4]), prio=r.random() < 0.3)

    def armed_read(self):
        """a user function fails at its k-th call from now, while this read runs"""
        r = self.rng
        n = self.target()
        if n is None:
            return
        self.emit({'op': 'arm', 'n': r.choice([1, 1, 2, 3, 5, 8, 13])})
        it = self.items(n, 1, {'y': 5, 'sp': 1, 'dom': 1})
        if it:
            self.emit({'op': 'chk', 'node': n, 'it': it})
        self.emit({'op': 'arm', 'n': None})

    def armed_edit(self):
        """a user function fails inside a callback which reads while an edit is announced"""
        r = self.rng
        s = self.sources()
        op = self.edit_op(r.choice(s)) if s else None
        if op is None:
            return
        self.emit({'op': 'arm', 'n': r.choice([1, 1, 2, 3, 5])})
        self.emit(op)
        self.emit({'op': 'arm', 'n': None})

    def run(self):
        r, pr = self.rng, self.prof
        self.build()
        self.observers()
        if self.cfg.get('snap'):
            self.set_probes()
        lo, hi = pr.get('steps', (15, 45))
        for _ in range(r.randint(lo, hi)):
            self.step()
        self.full_check()
        if pr.get('fresh_end'):
            self.fresh()

    def set_probes(self):
        h = 0.25
        xs = [self.base + h * k for k in range(-20, 120)]
        xs = [x for x in xs if self.rng.random() < 0.55]
        self.cfg['xprobe'] = xs
        self.w.xprobe = xs
