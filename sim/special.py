"""Workloads which are not plain edit/read histories of a graph."""
import json
import math

from . import model as Mo
from .gen import Gen


class Registry(Gen):
    """Observers come, go, are tied to objects which are let go of, change the registry from
    inside callbacks and fail; every notification is compared with a reference registry."""

    def run(self):
        r = self.rng
        self.cfg['registry'] = True
        self.hold = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.75:
                self.new_points(none=False)
            else:
                self.new_source(['const'])
        for _ in range(r.choice([0, 0, 1, 2])):
            self.derive('map')
        for n in list(self.w.models):
            self.emit({'op': 'obs', 'id': 'sen' + n, 'node': n})
        for _ in range(r.randint(2, 5)):
            self.subscribe_op()
        for _ in range(r.randint(8, 40)):
            q = r.random()
            if q < 0.42:
                s = r.choice(self.sources())
                op = self.edit_op(s)
                if op:
                    self.emit(op)
            elif q < 0.70:
                self.subscribe_op()
            elif q < 0.82:
                i = self.some_obs()
                if i:
                    self.emit({'op': 'unobs', 'id': i})
            elif q < 0.88 and self.hold:
                self.emit({'op': 'unobsobj', 'holder': r.choice(self.hold), 'node': r.choice(list(self.w.nodes))})
            elif q < 0.94 and self.hold:
                h = r.choice(self.hold)
                self.emit({'op': 'release', 'holder': h})
            else:
                self.chk()
        for s in self.sources():
            op = self.edit_op(s)
            if op:
                self.emit(op)

    def some_obs(self):
        c = [i for i, o in self.w.obs.items() if o.alive is True and not i.startswith('sen')]
        return self.rng.choice(c) if c else None

    def sub_op(self, depth=0):
        r = self.rng
        n = r.choice(list(self.w.models))
        op = {'id': self.nid('o'), 'node': n, 'args': r.choice([1, 1, 0, 2, 3, -1]), 'kinds': r.choice(['be', 'be', 'be', 'b', 'e'])}
        if r.random() < 0.4:
            op['args'] = [op['args'], r.choice([1, 0, 2, 3, -1])]
        if r.random() < 0.35:
            op['prio'] = True
        if r.random() < 0.25:
            g = self.xpool(self.w.models[n])
            a = r.choice(g) + 0.0619
            op['dom'] = [a, a + r.choice([0.25, 1, 2, 4])]
        if r.random() < 0.35:
            if self.hold and r.random() < 0.5:
                op['holder'] = r.choice(self.hold)
            else:
                op['holder'] = self.nid('h')
                self.hold.append(op['holder'])
            op['auto'] = r.random() < 0.6
        if depth < 2 and r.random() < 0.4:
            acts = []
            for _ in range(r.choice([1, 1, 2, 3])):
                q = r.random()
                if q < 0.35:
                    c = [i for i in self.w.obs if not i.startswith('sen')] + [op['id'], op['id']]
                    acts.append(['unobs', r.choice(c)])
                elif q < 0.6:
                    acts.append(['obs', self.sub_op(depth + 1)])
                elif q < 0.7 and self.hold:
                    acts.append(['release', r.choice(self.hold)])
                elif q < 0.8 and self.hold:
                    acts.append(['unobsobj', r.choice(self.hold), n])
                elif q < 0.9:
                    acts.append(['raise'])
                else:
                    acts.append(['dom', n])
            op['scripts'] = {r.choice('be'): acts}
            op['budget'] = r.choice([1, 2, 4])
        return op

    def subscribe_op(self):
        self.emit(dict(self.sub_op(), op='obs'))


ZONES = ['UTC0', 'JST-9', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'IST-5:30', 'GMT0BST,M3.5.0/1,M10.5.0', 'HST10']


class Descriptor(Gen):
    """Descriptors parsed in any order, under several local zones, with failing parses in
    between, over curves which are edited afterwards; each compared with the reference model
    of the construction it stands for."""

    def run(self):
        from . import descr
        r = self.rng
        self.D = descr
        self.cfg['tol'] = 1e-7
        self.parsed = {}
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < 0.7:
                self.new_points(none=False)
            else:
                self.new_source(['const', 'line'])
        for _ in range(r.choice([0, 0, 1])):
            self.derive(r.choice(['map', 'ema']))
        self.zone()
        for _ in range(r.randint(8, 28)):
            q = r.random()
            if q < 0.35 or not self.parsed:
                self.parse()
            elif q < 0.5:
                self.emit({'op': 'badparse', 'i': r.randrange(len(descr.BAD))})
            elif q < 0.58:
                self.zone()
            elif q < 0.8:
                s = r.choice(self.sources())
                op = self.edit_op(s)
                if op:
                    self.emit(op)
            else:
                self.look(r.choice(list(self.parsed)))
        for i in self.parsed:
            self.look(i, 8)

    def sources(self):
        return [n for n in super().sources() if n not in self.parsed and n.startswith('s')]

    def zone(self):
        z = self.rng.choice(ZONES)
        self.emit({'op': 'tz', 'tz': z})

    def date(self):
        """text of a date, and the seconds it stands for in the zone in force"""
        import calendar
        import time
        r = self.rng
        y, mo, d, h, mi, s = r.randint(1971, 2035), r.choice([1, 2, 6, 7, 8, 12]), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
        form = r.choice(['date', 'min', 'sec', 'T', 'Z', 'off', 'off2', 'min'])
        tup = lambda *a: a + (0, 0, -1)
        local = lambda *a: int(time.mktime(a + (0, 0, -1)))
        if form == 'date':
            return f'{y}-{mo:02}-{d:02}', local(y, mo, d, 0, 0, 0)
        if form == 'min':
            return f'{y}-{mo:02}-{d:02} {h:02}:{mi:02}', local(y, mo, d, h, mi, 0)
        if form == 'sec':
            return f'{y}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02}', local(y, mo, d, h, mi, s)
        if form == 'T':
            return f'{y}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}', local(y, mo, d, h, mi, s)
        utc = calendar.timegm((y, mo, d, h, mi, 0))
        t = f'{y}-{mo:02}-{d:02} {h:02}:{mi:02}'
        if form == 'Z':
            return f'{y}-{mo:02}-{d:02}T{h:02}:{mi:02}Z', utc
        oh, om = r.choice([(12, 0), (-5, 0), (5, 30), (0, 0), (-9, 30)])
        sec = (abs(oh) * 60 + om) * 60 * (1 if oh >= 0 else -1)
        sg = '-' if oh < 0 else '+'
        return t + f'{sg}{abs(oh):02}' + ('' if form == 'off' else ':') + f'{om:02}', utc - sec

    # ---------------------------------------------------------------- constructions
    def ast(self, depth, log=False):
        r = self.rng
        q = r.random()
        if depth <= 0 or q < 0.2:
            return self.leaf(log)
        if log:
            # numbers are in log space here: only shapes which use none of their own
            if q < 0.75:
                op = r.choice(['add', 'add', 'sub', 'min', 'max'])
                return self.agg(op, [self.ast(depth - 1, log) for _ in range(r.choice([2, 2, 3]))])
            if q < 0.9 and log is True:
                return ['atlog', r.choice([0, 2, 10]), self.ast(depth - 1, 'nested')]
            return self.leaf(log)
        if q < 0.5:
            op = r.choice(['add', 'sub', 'mul', 'min', 'max', 'mine', 'maxe', 'first', 'add', 'div', 'pow'])
            k = r.choice([2, 2, 3])
            args = [self.ast(depth - 1) for _ in range(k)]
            if op == 'div':
                args = [args[0], ['num', r.choice([2, 4, 0.5])]]
            elif op == 'pow':
                args = [args[0], ['num', 2]]
            return self.agg(op, args)
        if q < 0.6:
            return ['un', r.choice(['abs', 'neg']), self.style(None), self.ast(depth - 1)]
        if q < 0.72:
            b = r.choice([0, 2, 10])
            return ['atlog', b, self.ast(r.choice([0, 1, 2]), True)]
        return self.method(self.ast(depth - 1))

    def leaf(self, log=False):
        r = self.rng
        q = r.random()
        if log:
            # small enough to be raised again
            if q < 0.5:
                return ['num', r.choice([1, 2, 4, 8, 10])]
            if q < 0.6:
                return ['const', r.choice([2, 4, 10]), r.choice(['const', 'constant'])]
            return self.dline(positive=True)
        if q < 0.4:
            return ['ref', r.choice([n for n in self.w.models if n not in self.parsed])]
        if q < 0.48:
            return self.pts()
        if q < 0.6:
            return ['num', r.choice([1, 2, 3, -2, 0.5, 4])]
        if q < 0.7:
            return ['const', r.choice([1, 2, -3]), r.choice(['const', 'constant'])]
        if q < 0.85:
            return ['line', r.choice(['points', 'p12', 'pm', 'cm']), [r.randint(-3, 3), r.randint(-5, 5)], r.choice([0, 1, -1, 2, 0.5])]
        return self.dline()

    def dline(self, positive=False):
        r = self.rng
        while True:
            (t0, a), (t1, b) = self.date(), self.date()
            if abs(a - b) > 86400:
                break
        lo = 2 if positive else -5
        pts = [[t0, a, r.choice([lo, 3, 8, 10])], [t1, b, r.choice([lo, 4, 9, 10])]]
        return ['dline', pts, r.choice(['outer', 'inner', 'ends'])]

    def pts(self):
        """a curve written out as its points"""
        r = self.rng
        if r.random() < 0.3:
            d = self.dline()
            return ['dpts', sorted(d[1], key=lambda p: p[1]), r.choice(['outer', 'inner'])]
        n, h, x = r.randint(2, 7), r.choice([1, 1, 0.5, 2]), r.randint(-3, 3)
        return ['pts', [[x + i * h, r.randint(-20, 20) / 2] for i in range(n)]]

    def style(self, first):
        return self.rng.choice(['list', 'args', 'chain', 'bare'])

    def agg(self, op, args):
        st = self.rng.choice(['list', 'args', 'chain', 'chain2', 'args2'])
        if st in ('chain', 'chain2') and (not self.D.is_func(args[0])):
            st = 'list'
        if any(a[0] in ('pts', 'dpts') for a in args):
            # a list of points would be taken for the list of operands
            st = 'chain2' if st == 'chain2' else 'args2'
        return ['agg', op, st, args]

    def method(self, src):
        r = self.rng
        m = self.D.to_model(self.w, src)
        st = self.style(src)
        grid = m.grid_ok and m.finite and m.num
        full = grid and m.nonone
        opts = ['offset', 'raised', 'log', 'log2', 'log10', 'blend']
        if grid:
            opts += ['ema', 'integral', 'differential', 'extension']
        if full:
            opts += ['sma', 'trailing_min', 'trailing_max', 'sma', 'smma']
        if m.finite:
            opts.append('subset')
        t = json.dumps(src)
        if '"dpts"' in t:
            # areas of years next to those of a second are rounding
            opts = [o for o in opts if o != 'integral' and (o not in ('sma', 'smma') or '"ref"' not in t and '"pts"' not in t)]
        k = r.choice(opts)
        p = {'u': bool(m.uniform and r.random() < 0.5)}
        if k in ('sma', 'trailing_min', 'trailing_max', 'smma'):
            p['n'] = r.choice([1, 2, 3])
            g = m.grid()
            if k[0] == 't' and isinstance(m, Mo.Pts) and r.random() < 0.5:
                del p['n']
                p['p'] = r.choice([1, 2, 2.5, 3])
            elif k == 'sma' and src[0] == 'pts' and len(g) > 2 and r.random() < 0.6:
                del p['n']
                p['p'] = r.choice([1, 2, 3]) * (g[1] - g[0])
            if k[0] == 't' and r.random() < 0.5:
                p['interp'] = r.choice([0, -1, 1])
        elif k == 'ema':
            if r.random() < 0.3:
                p['p'] = r.choice([2, 4, 8])
            else:
                p['alpha'] = r.choice([0.5, 0.25])
            if r.random() < 0.3:
                p['init'] = r.choice([['const', r.choice([1, 2, -3]), 'const'], self.pts(), self.leaf()])
        elif k == 'subset':
            a = r.choice([-2, 0, 1, 2.5])
            p = {'a': a, 'b': a + r.choice([1, 2, 3.5])}
        elif k == 'offset':
            p = {'d': r.choice([1, -2, 0.5])}
        elif k == 'integral':
            p['c'] = r.choice([0, 5])
        elif k in ('log', 'log2', 'log10'):
            p = {'base': {'log2': 2, 'log10': 10}.get(k) or r.choice([2, 3, 10])}
            src = ['agg', 'add', 'list', [['un', 'abs', 'list', src], ['num', 1]]]
            if st != 'chain' and k == 'log':
                st = 'list'
            elif st != 'chain':
                st = r.choice(['list', 'bare'])
        elif k == 'raised':
            p = {'base': 2}
            src = ['agg', 'min', 'args2' if src[0] in ('pts', 'dpts') else 'list', [src, ['num', 9]]]
        elif k == 'extension':
            p = {'start': r.random() < 0.5, 'end': r.random() < 0.7}
            if m.dyable and not m.leaf and r.random() < 0.4:
                p['k'] = 'tangent'
        elif k == 'differential':
            p = {'fwd': r.random() < 0.5}
        elif k == 'blend':
            p = {'to': self.leaf(), 'a': 0, 'b': 2}
        return ['m', k, p, st, src]

    def fix(self, ast):
        """chains need a function first; lists of one curve are not chains"""
        if not isinstance(ast, list):
            return
        if ast[0] in ('un', 'm') and ast[2 if ast[0] == 'un' else 3] == 'chain' and not self.D.is_func(ast[-1]):
            ast[2 if ast[0] == 'un' else 3] = 'list'
        for a in ast:
            self.fix(a) if isinstance(a, list) else [self.fix(v) for v in a.values()] if isinstance(a, dict) else None

    def parse(self):
        r = self.rng
        for _ in range(10):
            try:
                ast = self.ast(r.choice([1, 2, 2, 3]))
            except OverflowError:
                continue
            if not self.D.is_func(ast):
                continue
            self.fix(ast)
            m = self.D.to_model(self.w, ast)
            if m.deg > 4 or m.depth > 9:
                continue
            break
        else:
            return
        op = {'op': 'parse', 'id': self.nid('p'), 'ast': ast}
        if r.random() < 0.3:
            op['again'] = self.nid('p')
        op['via'] = r.choice(['descriptor', 'descriptor', 'parse', 'member'])
        self.emit(op)
        for k in ('id', 'again'):
            if op.get(k):
                self.parsed[op[k]] = ast
        if r.random() < 0.7:
            self.look(op['id'])

    def look(self, i, k=None):
        r = self.rng
        m = self.w.models[i]
        xs = self.D.xs_of(self.parsed[i])
        if xs and r.random() < 0.6:
            pool = sorted(xs)
            pool += [(a + b) / 2 for a, b in zip(pool, pool[1:])]
        else:
            try:
                pool = self.xpool(m)
            except OverflowError:
                return          # its domain hangs on what is no number
        its = [['y', self.rx(m, sorted(pool))] for _ in range(k or r.choice([1, 2, 4]))]
        if r.random() < 0.3:
            its.insert(0, ['dom'])
        self.emit({'op': 'chk', 'node': i, 'it': its})


class Trends(Gen):
    """A trend curve is read anywhere while its source grows and is edited; whatever was read,
    its lines are those of a trend curve built afresh on the samples of the moment."""

    def run(self):
        r = self.rng
        s = self.new_points(none=False)
        ts = []
        for _ in range(r.choice([1, 1, 2])):
            a = {'min_width': r.choice([1, 2, 2, 3, 4]), 'min_points': r.choice([3, 3, 2, 4])}
            if r.random() < 0.4:
                a['y_tol_abs'] = r.choice([0.01, 0.25, 0.6])
            elif r.random() < 0.5:
                a['y_tol_rel'] = r.choice([0.01, 0.1, 0.2])
            if r.random() < 0.3:
                a['search_length_rel'] = r.choice([2.0, 4.0, 1.5])
            if r.random() < 0.2:
                a['min_point_distance'] = r.choice([1, 2])
            i = self.nid('t')
            self.emit({'op': 'new', 'id': i, 'kind': 'trend', 'src': [s], 'a': a})
            ts.append(i)
        m = self.w.models[s]
        for _ in range(r.randint(6, 40)):
            q = r.random()
            if q < 0.45:
                op = self.edit_op(s)
                if op:
                    self.emit(op)
            elif q < 0.85:
                self.emit({'op': 'trendread', 'node': r.choice(ts), 'k': r.choice(['upper', 'lower', 'y', 'lines']), 'x': self.rx(m)})
            else:
                self.emit({'op': 'trendchk', 'node': r.choice(ts), 'xs': [self.rx(m) for _ in range(2)]})
        for t in ts:
            self.emit({'op': 'trendchk', 'node': t, 'xs': [self.rx(m) for _ in range(4)]})


SPECIAL = {'trend': Trends, 'registry': Registry, 'descriptor': Descriptor}
